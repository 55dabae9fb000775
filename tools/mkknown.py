"""Writes known-findings.txt: findings that stay (pinned histories) and defects repaired in /repo."""
import subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [
 ('C11', 'C11-sfi-bvp-flux', 'C11 ', 'mean radiance and flux of two/four/six stream, eig_bvp and mem_bvp with SFI are computed from uninitialized memory (SFI only fills the user angles)'),
 ('C11', 'C11-stream-no-solar', 'C11 ', 'two/four/six stream without SOURCE_SOLAR use an uninitialized beam (mu_0, F_0, transmittances)'),
 ('C11', 'C11-vector-greens', 'C11 ', 'VECTOR with PART_SOL_GREENS uses particular solution arrays sized for the scalar case'),
 ('C10', 'C10-vector-greens', 'C10 heap', 'VECTOR with PART_SOL_GREENS writes past the end of a work array'),
 ('C11', 'C11-stream-vector', 'C11 ', 'two/four/six stream are scalar but accepted with VECTOR: the other Stokes elements are never written'),
 ('C11', 'C11-two-stream-sfi-derivs', 'C11 ', 'two stream with SFI and derivatives follows uninitialized pointers'),
 ('C10', 'C10-two-stream-sfi-derivs', 'C10 ', 'two stream with SFI and derivatives ends in a segmentation fault'),
 ('C11', 'C11-phase-matrix-lc', 'C11 ', 'PHASE_MATRIX_LC is accepted but only implemented in development builds: phase matrices stay uninitialized'),
 ('C11', 'C11-thermal-derivs', 'C11 ', 'adding solvers: a derivative with only levels_b_l or surface_b_l reads layer derivatives that were never computed'),
 ('C11', 'C11-stack-reuse-no-source', 'C11 ', 'STACK_REUSE_ADDING with derivatives but no source follows uninitialized pointers to source derivatives'),
 ('C08', 'C08-adjoint-alloc', 'C08 signal adjoint', 'an adjoint solution that runs out of memory follows a null pointer: the forward_save_*_alloc functions and the save tree never check their allocations'),
 ('C03', 'C03-stack-reuse-thermal', 'C03 ', 'STACK_REUSE_ADDING with SOURCE_THERMAL gives other derivatives than adding without reuse'),
]
FIXED = {  # subject of the fix commit -> properties
 'no solar source dereferenced': 'C12', 'ended the process instead of failing': 'C12', 'undefined beam transmittance': 'C12',
 'memory exhaustion in a solution': 'C08',
 'a failed creation leaked': 'C07', 'included an uninitialized direct beam': 'C11',
 'basic_matrix()': 'C10', 'four stream calls': 'C11', 'two stream passes n_umus': 'C11', 'get_single()': 'C11', 'whether two stream is enabled': 'C22', 'beam parameters of the layers below': 'C01',
 'boundary input did not depend': 'C02', 'saved layer R, T, S did not': 'C01', 'coefficients beyond': 'C01', 'saved layer S of the layers': 'C01', 'saved linearized results': 'C02', 'a failed solution left': 'C01',
 'saved layer and total R': 'C22', 'solutions after a change of the output angles': 'C01', 'rejected solar or output': 'C05', 'saved layer S did not depend on F_0': 'C01', 'kernel functions without': 'C11',
 'negative real eigenvalue': 'C10', 'rejected out_taus': 'C05', 'xrtm_get_lambda': 'C06', 'failures returned -1': 'C05', 'the flags of kernel functions': 'C10',
}
FIXED.update({'returned the wrong error value': 'C06'})
FIXED.update({'xrtm_fd_': 'C14', 'inite differences': 'C14', 'inite-difference': 'C14'})
FIXED.update({'xrtm_solution_2() accepted': 'C05', 'everse derivatives': 'C13', 'adjoint': 'C13', 'intermediates kept for the quadrature angles': 'C13', 'copied phase functions and local r': 'C11', 'average secant in layers': 'C13', 'at nadir made it larger': 'C13'})
FIXED.update({'opened the file for reading': 'C16', 'left the file open': 'C15', 'could not be written completely': 'C16', 'writing of the angles': 'C16', 'lines with missing values': 'C15', 'file functions leaked memory': 'C15', 'longer than the memory for it': 'C15',
 'with one column': 'C16', 'scat_coefs_read_bin_fp()': 'C15', 'invalid counts in': 'C15', 'the name of the size distribution': 'C15', 'could not read to the end': 'C15', 'files with unknown types': 'C15', 'load_scat_coefs()': 'C15', 'end in their exponent': 'C15', 'with a zero byte': 'C15'})
FIXED.update({'getters read': 'C12', 'kernel indices out of range': 'C17', 'the last finite difference inputs': 'C27', 'ran into the first default': 'C27', 'counts and indices out of range': 'C17', 'coef_p set': 'C27', 'refused as the first input': 'C27', 'index lists longer': 'C17', 'output could not be written': 'C18', 'fewer kernels than': 'C17', 'control characters in': 'C17', 'a comment that does not end': 'C17', 'input errors before any': 'C17', 'linearized coefficient files with fewer': 'C27', 'scalar phase functions from': 'C27', 'as many names as derivatives': 'C27'})
FIXED = dict({'Python': 'C19', 'Fortran': 'C19', 'pointer tables with a dimension': 'C19', 'finite-difference functions returned -1': 'C19', 'Python, IDL': 'C19'}, **FIXED)
FIXED.update({'taken of directions that are not output': 'C11', 'two_os': 'C29', 'REVERSE_DERIVS without SOURCE_SOLAR': 'C12', 'after a failed update of the varied layers': 'C08', 'Pade orders above': 'C05', 'the direct beam in mean radiances': 'C29', 'the surface thermal source used': 'C29'})
try:
    from fixed import MORE; FIXED.update(MORE)
except ImportError: pass
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '7ecf126..HEAD'], stdout=subprocess.PIPE, universal_newlines=True).stdout.splitlines()
o = ['# Findings of the checks.  "known" lines are replayed by each run of the property\'s check and reported as KNOWN-FINDING;',
     '# the generator keeps the combinations they need out of the searched histories (sim/gen.cpp, excl()).', '# "fixed" lines suppress nothing.', '']
for p, f, s, w in KNOWN: o.append('known: property=%s history=findings/%s signature="%s" %s' % (p, f, s, w))
o.append('')
for l in log:
    h, s = l.split(' ', 1)
    if not s.startswith('fix: '): continue
    m = [v for k, v in FIXED.items() if k in s]; m = ['C11'] if 'does not use for the adjoint' in s else m
    if not m: print('unassigned:', l)
    o.append('fixed: property=%s %s %s' % (m[0] if m else '?', h, s[5:]))
open(V + '/known-findings.txt', 'w').write('\n'.join(o) + '\n')
