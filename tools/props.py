"""What is run for each property, and how it is described."""
REAL = ['src/*.c and misc/* of /repo (the whole library, compiled from the working tree)']
STUB = ['the heap (malloc family): deterministic arena with fills, reuse, red zones and injectable failure', 'LAPACK factorizations and eigensolvers: the real OpenBLAS behind an injectable failure', 'exit, abort and signals: caught and turned into an outcome of the call']
A_DOM = 'configurations listed in known-findings.txt as excluded are not generated'
A_REF = 'the reference is the same code used on a new instance with the final inputs: an error present in every history alike is not seen'
A_TOL = 'agreement within 1e-9 relative to the largest value of the array'
A_UNST = 'solutions that depend on uninitialized memory (decided by C11) are counted as "unstable references" and not judged here'
RULE = 'a run is one seeded history: configurations, creation of 1-2 instances, inputs in random order and granularity, then input changes, clears, updates and solutions with random solvers and outputs, heap contents and block placement; '
def S(quick, thorough, rule, level='exploration', binary='sim', real=None, stub=None, assumes=None, **kw):
    d = dict(quick=quick, thorough=thorough, rule=RULE + rule if binary == 'sim' else rule, level=level, binary=binary, real=real or REAL, stub=stub or STUB, assumes=assumes or [A_DOM, A_REF, A_TOL, A_UNST]); d.update(kw); return d
NT = 'nontrivial: distinct history in which at least one solution that is not all zero was compared with its reference'
IO_REAL = ['misc/rtutil_scat_io.c, rtutil_support.c and gutil of /repo, compiled from the working tree', 'stdio of the C library']
IO_STUB = ['fopen and fclose: files in memory behind fopencookie(), with injected truncation, damage, errors, full disk, failing close and short deliveries', 'the heap: deterministic arena with fills, red zones and injectable failure', 'exit, abort and signals: caught and turned into an outcome of the call']
PROPS = {
 'C01': S(40, 1200, NT + ' (a new instance given only the final inputs)', technique='deterministic simulation: seeded call histories against a fresh-instance reference'),
 'C02': S(40, 1200, NT + ' (derivatives against a new instance; radiances also against one without linearized inputs)', technique='deterministic simulation: seeded histories of linearized inputs against a fresh-instance reference'),
 'C03': S(40, 1200, NT + ' (a new instance created without any saving or reuse option)', technique='deterministic simulation: seeded call histories against a no-cache reference'),
 'C04': S(45, 1200, 'a run is two or three threads, each with an instance and a history of its own (mostly the same configuration), run alone one after another and then together; at each memory access of the library the scheduler may let another thread run (geometric preemption, preferring accesses to static data that are written and to memory of another thread; one thread may be stalled; allocation and LAPACK failures in one thread); all results are compared bit for bit; nontrivial: distinct history with more than two thread switches inside calls and solutions that are not zero', binary='conc', state='hash of the sequence of thread switches (thread, access number, next thread)',
   stub=['the thread scheduler: real threads, of which one runs at a time, switched only at memory accesses of the library (compiled with -fsanitize=thread and linked with the scheduler in place of the sanitizer)', 'the heap, one for each thread; LAPACK and BLAS calls are atomic steps', 'static data of the library are put back to their initial values before each execution'], assumes=[A_DOM, 'sequentially consistent memory: threads switch between accesses, no hardware reordering', 'BLAS, LAPACK and libgfortran are thread safe and are not interleaved inside'], technique='deterministic simulation: seeded interleaving of threads at every memory access against the same calls made alone'),
 'C05': S(40, 900, 'about 60 % of the steps are calls that must be rejected; nontrivial: distinct history with at least one rejected call, after which all getters and the next solutions are compared with the model', assumes=[A_DOM, 'what must be rejected is taken from doc/xrtm.tex and the checks in the interface code'], technique='deterministic simulation: seeded histories with injected invalid calls against an input model'),
 'C06': S(30, 900, 'nontrivial: distinct history in which all getters were compared with the input model after every call', assumes=[A_DOM, 'angles compared to 2e-6 degrees; omega near 1 is documented to be adjusted'], technique='deterministic simulation: seeded histories, all getters against an input model after every call'),
 'C07': S(40, 900, 'a run creates and uses a healthy instance, creates a second one with each allocation of its creation failing in turn, alone and with all later ones, checks status, memory and the first instance, then creates and uses it without faults; nontrivial: distinct configuration with more than 20 allocations failed', level='fault_enumeration', assumes=[A_DOM, A_REF, 'all allocations of each sampled configuration are enumerated; the configurations are sampled'], technique='deterministic simulation with fault injection: every allocation of a creation failed in turn'),
 'C08': S(45, 1200, 'solutions and varied-layers updates are attempted with the k-th allocation failing (alone or with all later ones), up to six times, then repeated with memory; getters compared after every call; nontrivial: distinct history in which, after a fault fired, a solution that is not all zero was compared with a new instance', technique='deterministic simulation with injected allocation failures: status, inputs, retried results and memory'),
 'C09': S(40, 1200, 'solutions are attempted with the k-th LAPACK call (any or of one family) reporting failure and its results spoiled, up to six times, then repeated; nontrivial: distinct history in which, after a fault fired, a solution that is not all zero was compared with a new instance', technique='deterministic simulation with injected linear-algebra failures: status and retried results'),
 'C10': S(40, 900, 'nontrivial: distinct history in which an instance that had solved something was destroyed and its memory accounted for', assumes=[A_DOM], technique='deterministic simulation: every allocation of a history accounted to its instance, red zones checked after every call'),
 'C11': S(45, 1200, 'each history is run five times with different heap contents, block reuse and placement and stack contents; nontrivial: distinct history with more than eight results compared bit for bit', assumes=[A_DOM, 'stack contents are varied by filling 128 KiB below the frame before each call'], technique='deterministic simulation: the same seeded history under different heap and stack contents, results compared bit for bit'),
 'C12': S(40, 1200, 'histories with rejected calls, failing allocations and failing LAPACK calls; a call that exits, aborts, raises a signal or does not return within its step budget is a violation; nontrivial: distinct history with at least one fault or rejected call', assumes=[A_DOM, 'a call that has run 4e8 basic blocks is taken not to return'], technique='deterministic simulation with injected failures: process end, signals and step budget'),
 'C13': S(45, 1200, 'adjoint solutions with random solvers, outputs and linearized inputs, compared with a new instance that solves forward; a refusal is accepted only for the documented unsupported combinations; nontrivial: distinct history in which nonzero derivatives were compared', assumes=[A_DOM, 'agreement within 1e-5 of the largest derivative of the array; where the two disagree and difference quotients of the radiances do not confirm the forward derivative, the case is counted and not judged (coincident eigenvalues, conservative scattering)', 'vector configurations with one quadrature angle or one Stokes component (degenerate eigenvalues) are not generated'], technique='deterministic simulation: seeded histories of adjoint solutions against forward solutions of new instances'),
 'C14': S(40, 1200, 'histories with finite-difference instances: creations, perturbations given through every setter form, forward, backward and central solutions of every solver and output, allocation and LAPACK failures inside them, ordinary solutions and input changes in between; every input is read back after each call, each derivative is compared with the difference quotient of two new instances given the perturbed inputs, later solutions with a new instance; nontrivial: distinct history with nonzero derivatives compared or a finite-difference solution refused', assumes=[A_DOM, 'a central difference is the difference of the two perturbed solutions over delta (delta is the divisor the caller gives)', 'agreement within 4e-9 of the largest radiance, over delta'], technique='deterministic simulation: seeded histories with injected allocation and LAPACK failures against difference quotients of new instances'),
# file I/O
 'C15': S(40, 900, 'a run makes one to three scattering files (by an independent formatter in several styles, or by the code under test) on the simulated disk and reads them, up to nine operations in one process: each supported format through the file-name and the stream form, with random stream buffers and delivery chunks, and truncation, a damaged byte or a read error at one byte or swept over all bytes, failing opens and failing allocations; the outcome is compared with an independent token-level parser of the bytes that were visible; nontrivial: distinct history with at least one read judged', binary='io',
   real=IO_REAL, stub=IO_STUB, assumes=['values that overflow an integer or use hexadecimal, NaN or infinity notation are not judged', 'a file cut at a place where what is left is a complete file is a valid file', 'scat_total: the arrays are the caller\'s, at least 20000 values long'], technique='deterministic simulation: reads from a simulated disk with faults at every byte against an independent parser'),
 'C16': S(40, 900, 'a run writes one to three scattering files of random contents and formats on the simulated disk, each first without faults (its bytes are parsed independently and read back), then with the disk full or a failing write at one byte or swept over all bytes, failing close, open or allocation, with random stream buffers, mixed with reads; nontrivial: distinct history with at least one write judged', binary='io',
   real=IO_REAL, stub=IO_STUB, assumes=['the stream form of a writer may leave bytes in the stream\'s buffer: it must report what the stream reported before it returned', 'text formats keep the seven digits of %e'], technique='deterministic simulation: writes to a simulated disk with faults at every byte, compared with the fault-free bytes'),
 'C20': S(40, 900, NT + '; 60 % of the input calls repeat an input already set', technique='deterministic simulation: seeded orders and granularities of setting inputs against a canonical-order reference'),
 'C21': S(40, 900, NT + ' and every requested output and azimuth angle also requested alone', technique='deterministic simulation: seeded request combinations compared with separate requests'),
 'C22': S(40, 900, NT + ' (a new instance created for that solver alone)', technique='deterministic simulation: seeded interleavings of solvers against a single-solver reference'),
 'C28': S(40, 900, NT + ' (one created for a single derivative, its linearized inputs multiplied by 1, 2, 1/2, -1 or -4)', assumes=[A_DOM, 'automatic Pade orders depend on all derivatives and are not compared'], technique='deterministic simulation: seeded histories, each derivative against a single-derivative reference'),
 'C29': S(40, 900, NT + ' (one created for a single output level, a single output angle, or both)', assumes=[A_DOM, 'angles are compared to 1e-5 (eigenvalue, Pade and matrix exponential solvers 1e-3) of the largest result; not with successive orders, automatic Pade orders, a Fourier tolerance, directions closer than 0.01 in cosine, or nadir over a surface kernel', 'a difference between angles counts only if results of inputs changed by 2e-13 agree ten times better than the tolerance'], technique='deterministic simulation: seeded histories, each output level and angle against a single-level, single-angle reference'),
}
# the callxrtm program
CALL_REAL = ['utils/callxrtm.c (its main() renamed), input_util.c, the generated scanner, misc/* and src/*.c of /repo, compiled from the working tree', 'stdio of the C library']
CALL_STUB = ['the process: main() is called in the simulator, static data are put back before each run; exit, abort and signals become its outcome', 'fopen, fclose, stdin, stdout and stderr: streams in memory behind fopencookie(), with injected truncation, damage, errors, full disk, failing close, short deliveries', 'the heap: deterministic arena with fills and red zones']
CALL_A = ['inputs are written by an independent writer that covers the grammar of doc/xrtm.tex: statements in any order and index form, comments, spacing, quotes, finite differences, phase functions by name and from files', 'mean radiance and flux derivatives are printed as zeros by callxrtm and not judged', A_DOM]
CALL_RULE = 'a run is one configuration with random inputs, written as one to four inputs in different forms and deliveries (file, standard input, command-line string; stream buffers and chunks of random size), each given to callxrtm as a process of its own; '
PROPS.update({
 'C17': S(40, 900, CALL_RULE + 'then cut, damaged, with read errors at one byte or swept over the input (or over a coefficient file it names), with files that do not open, or with one statement of 58 kinds added that must be refused; nontrivial: distinct history with at least one damaged input', binary='call', level='fault_enumeration', real=CALL_REAL, stub=CALL_STUB, assumes=CALL_A + ['a cut inside the last number that leaves a valid number is another complete input: judged by what the library gives for it'], technique='deterministic simulation: callxrtm as a simulated process with faults at every byte of its input, against the library given the same inputs'),
 'C18': S(35, 900, CALL_RULE + 'then with standard output full from, or failing once at, one byte or swept over the output, or with a failing close; nontrivial: distinct history with at least one output fault', binary='call', level='fault_enumeration', real=CALL_REAL, stub=CALL_STUB, assumes=CALL_A, technique='deterministic simulation: callxrtm as a simulated process with faults at every byte of its output'),
 'C27': S(40, 900, CALL_RULE + 'the printed results are compared, digit for digit as printed, with those of the library given the same inputs through its interface; nontrivial: distinct history with results that are not all zero', binary='call', real=CALL_REAL, stub=CALL_STUB, assumes=CALL_A, technique='deterministic simulation: callxrtm as a simulated process, seeded input texts and deliveries against the library'),
})
PROPS['C19'] = S(40, 900, 'a run is one history of creations, inputs in every form, rejected calls, solutions, finite differences, failing allocations and destructions, played twice: through the C interface and through the C++, Fortran 77, Fortran 90 or Python interface (a quarter of the histories each); arrays handed to Fortran lie between guards, arrays handed to Python are stored by rows, by columns or with gaps, now and then an array of another shape is offered first and must be refused, and reference counts are checked after each call; statuses, values read back (indices sometimes out of range), instance properties, quadrature, solutions and memory held are compared after every call; all named constants of the interfaces are compared; nontrivial: distinct history with at least one solution through the other interface', binary='bind',
 real=['interfaces/*: the C++ classes, the Fortran 77 and Fortran 90 sources and their C parts, and the whole library, compiled from the working tree', 'libgfortran, CPython 3.12 and NumPy (the interpreter runs inside the simulator, its own memory is not simulated)'], stub=STUB, assumes=['a Fortran status other than zero is an error', 'results that change with the contents of fresh memory are left to C11', 'user kernels and clear_saved, which are not part of the interfaces, and finite differences, which are not part of the Python interface, call the C functions', 'Python returns new arrays: elements that C leaves untouched may have any value there'], technique='deterministic simulation: seeded call histories with faults replayed through each language interface against the C interface')
NOT_APPLICABLE = {
 'C23': 'a relation between two pure computations of the same input: no history, schedule, fault or I/O is involved, so simulation adds nothing to random input testing',
 'C24': 'a numerical property of a pure function of the inputs; no history, schedule or fault for a simulator to vary (C02 and C13 decide the history-dependent part)',
 'C25': 'a numerical property of a pure function of the inputs; no history, schedule or fault is involved',
 'C26': 'finite tables converted by pure functions; no state, schedule, fault or I/O is involved',
}
PENDING = 'not built yet'
