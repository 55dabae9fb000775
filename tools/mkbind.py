"""Writes sim/bindgen.h, sim/f90shim.f90 and sim/f77shim.f: for every function of the
interface definition, calls through the C++, Fortran 77 and Fortran 90 interfaces with the
arguments of the C function.  Run by hand once; the results are committed."""
import re, subprocess, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def show(f): return subprocess.check_output(['git', '-C', '/repo', 'show', '7ecf126:interfaces/' + f], universal_newlines=True)

# sizes come from the check's own model of the instance, not from the definition's expressions
DIM = [(r'd->(d->)?n_layers \+ 1', 'bm.nl + 1'), (r'd->(d->)?n_layers', 'bm.nl'), (r'd->(d->)?n_elem', 'bm.ne'), (r'd->(d->)?n_coef_layer\[i_layer\]', 'bm.nc(i_layer)'), (r'd->(d->)?n_coef', 'bm.mc'),
       (r'n_coef_layer', '(n_coef_layer < 0 ? bm.mc : n_coef_layer)'), (r'kernel_n_params.*i_kernel\]\)', 'bm.np(i_kernel)'), (r'd->(d->)?(n_out_levels|n_ulevels)', 'bm.no'), (r'd->(d->)?n_umus.*|d->n_out_thetas_2', 'bm.nt2'), (r'd->n_out_thetas', 'bm.nt'),
       (r'n_out_phis', '(n_out_phis < 0 ? 0 : n_out_phis)'), (r'd->(d->)?n_stokes', 'bm.ns'), (r'd->n_quad', 'bm.nq + bm.nt'), (r'd->n_kernel_quad', 'bm.nkq')]
def dim(e, name, fd, rank):
    if re.fullmatch(r'd->(d->)?n_derivs', e): return 'bm.nfd' if fd else 'bm.nd'
    if name == 'out_phis' and e in ('d->n_out_thetas',): return 'bm.nt2'
    for p, r in DIM:
        if re.fullmatch(p, e.strip()): return r
    raise SystemExit('dimension ' + e)

def functions():
    for pre, f in (('xrtm', 'xrtm_interface.def'), ('xrtm_fd', 'xrtm_fd_interface.def')):
        fd = pre == 'xrtm_fd'
        for m in re.finditer(r'^subprogram_(\w+) (int|double|enum kernel_type) 0 (\w+)\s+([01])(.*?);', show(f), re.M | re.S):
            kind, ret, name, val, rest = m.groups(); args = []
            for a in re.finditer(r',\s*(int|double|enum \w+|xrtm_data) (\d)((?:\s+"[^"]*")*)\s+(\w+) (in|out)', rest):
                t, rank, dims, an, io = a.groups(); rank = int(rank); dims = re.findall(r'"([^"]*)"', dims)
                if fd and name in ('set_omega_p_n1', 'set_ltau_p_n1', 'set_g_p_n1'): dims = ['d->n_layers']
                if fd and name in ('set_omega_p_1n', 'set_ltau_p_1n', 'set_g_p_1n'): dims = ['d->n_derivs']
                args.append((t, rank, dims if t in ('int', 'double') else [], an, io))
            yield pre, fd, kind, ret, name, val == '1', args

CT = lambda t: 'int' if t.startswith('enum') else t
def ctype(t, pre):
    if t == 'enum solver_mask': return 'enum xrtm_solver_mask'
    if t == 'enum method_type': return 'enum xrtm_fd_method_type'
    if t == 'enum kernel_type': return 'enum xrtm_kernel_type'
    return t

hp = ['/* Written by tools/mkbind.py. */']; h = ['/* Written by tools/mkbind.py. */']; names = {'xrtm': [], 'xrtm_fd': [], 'py': ['destroy']}
f90 = ['! Written by tools/mkbind.py.', 'module sim_shim', '  use iso_c_binding', '  use xrtm_int_f90', '  use xrtm_fd_int_f90', '  implicit none', 'contains']
for pre, fd, kind, ret, name, val, args in functions():
    data = 'xrtm_fd_data' if fd else 'xrtm_data'; fn = pre + '_' + name; names[pre].append(name)
    init, free = kind == 'init', kind == 'free'
    if init and not fd:
        args = [(t, 1 if an == 'kernels' else r, ['bm.nk'] if an == 'kernels' else d, an, io) for t, r, d, an, io in args]
    cargs = []; pre77 = []; post77 = []; a77 = ['d']; a90 = ['d']; p77 = ['void *']; p90 = ['void *']; acpp = []; f90args = []; f90decl = []; f90call = ['d']
    for t, rank, dims, an, io in args:
        T = ctype(t, pre)
        if t == 'xrtm_data':
            cargs.append('xrtm_data *' + an); a77.append(an); a90.append(an); p77.append('void *'); p90.append('void *'); acpp.append('bm_raw(%s)' % an); f90args.append(an); f90decl.append('type(xrtm_type) :: ' + an); f90call.append(an); continue
        if rank == 0 and io == 'in' :
            cargs.append('%s %s' % (T, an)); c = CT(t)
            if t.startswith('enum'): pre77.append('int %s_ = (int) %s;' % (an, an)); a77.append('&%s_' % an); a90.append(an + '_')
            else: a77.append('&' + an); a90.append(an)
            p77.append(c + ' *'); p90.append(c)
            acpp.append('(xrtm_int_cpp::solver_mask) ' + an if t == 'enum solver_mask' else '(xrtm_fd_int_cpp::method_type) ' + an if t == 'enum method_type' else an)
            f90args.append(an); f90decl.append('%s, value :: %s' % ('real(c_double)' if t == 'double' else 'integer(c_int)', an)); f90call.append(an)
        elif rank == 0:
            cargs.append('%s *%s' % (T, an)); a77.append(an); a90.append(an); p77.append(CT(t) + ' *'); p90.append(CT(t) + ' *'); acpp.append(an)
            f90args.append(an); f90decl.append('%s :: %s' % ('real(c_double)' if t == 'double' else 'integer(c_int)', an)); f90call.append(an)
        else:
            c = CT(t); cargs.append('%s %s%s' % (T, '*' * rank, an)); dd = [x if x.startswith('bm.') else dim(x, an, fd, rank) for x in dims]
            pre77.append('Flat<%s, %d> %s_(%s, {%s}, %d);' % (c, rank, an, ('(int *) ' if t.startswith('enum') else '') + an, ', '.join(dd), io == 'out'))
            a77.append('%s_.p' % an); p77.append(c + ' *'); a90.append('%s_.p' % an); p90.append(c + ' *'); post77.append('%s_.back();' % an); acpp.append(an)
            ex = []
            for k in range(rank): a90.append('%s_.n[%d]' % (an, rank - 1 - k)); p90.append('int'); ex.append('%s_x%d' % (an, k + 1))
            f90args.append(an); f90args += ex; f90decl.append('integer(c_int), value :: ' + ', '.join(ex)); f90decl.append('%s :: %s(%s)' % ('real(c_double)' if t == 'double' else 'integer(c_int)', an, ', '.join(ex))); f90call.append(an)
    low = fn.lower(); rt = 'double' if ret == 'double' else 'int'
    C = ', '.join([data + ' *d'] + cargs); P = ' '.join(pre77); Q = ' '.join(post77)
    for lang in ('f77', 'f90'):
        sym = low + '_f77_' if lang == 'f77' else 's90_' + low; pp = list(p77 if lang == 'f77' else p90); aa = list(a77 if lang == 'f77' else a90)
        if lang == 'f90' and False: pass
        if val:
            h.append('extern "C" %s %s(%s);' % (rt, sym, ', '.join(pp)))
            h.append('static %s %s_%s(%s) { %s %s r_ = %s(%s); %s return r_; }' % (rt, lang, fn, C, P, rt, sym, ', '.join(aa), Q))
        else:
            h.append('extern "C" void %s(%s);' % (sym, ', '.join(pp + ['int *'])))
            h.append('static int %s_%s(%s) { int e_ = -4321; %s %s(%s); %s return e_ ? XRTM_INT_ERROR : 0; }' % (lang, fn, C, P, sym, ', '.join(aa + ['&e_']), Q))
    cls = 'xrtm_fd_int_cpp' if fd else 'xrtm_int_cpp'
    obj = '(*(%s **) d)' % cls; err = 'XRTM_DBL_ERROR' if ret == 'double' else 'XRTM_INT_ERROR'
    if init: body = '%s = 0; CPP_TRY { %s = new %s(%s); return 0; } CPP_CATCH(%s, XRTM_INT_ERROR)' % (obj, obj, cls, ', '.join(acpp if fd else [('(enum xrtm_int_cpp::kernel_type *) ' + x if x == 'kernels' else x) for x in acpp]), cls)
    elif free: body = '%s *o_ = %s; %s = 0; CPP_TRY { delete o_; return 0; } CPP_CATCH(%s, XRTM_INT_ERROR)' % (cls, obj, obj, cls)
    elif val: body = 'CPP_TRY { return (%s) %s->%s(%s); } CPP_CATCH(%s, %s)' % (rt, obj, name, ', '.join(acpp), cls, err)
    else: body = 'CPP_TRY { %s->%s(%s); return 0; } CPP_CATCH(%s, XRTM_INT_ERROR)' % (obj, name, ', '.join(acpp), cls)
    h.append('static %s cpp_%s(%s) { %s }' % (rt, fn, C, body))
    if not fd and not free:
        py = []; outs = []
        for t, rank, dims, an, io in args:
            dd = ', '.join(x if x.startswith('bm.') else dim(x, an, fd, rank) for x in dims)
            if io == 'in':
                if init and an == 'n_kernels': continue
                if init and an == 'options': py.append('c_.mask(options, xrtm_option_mask_to_name);')
                elif init and an == 'solvers': py.append('c_.mask(solvers, xrtm_solver_mask_to_name);')
                elif init and an == 'kernels': py.append('c_.kernels(n_kernels, kernels);')
                elif t == 'enum solver_mask': py.append('c_.s(xrtm_solver_mask_to_name(%s));' % an)
                elif rank == 0: py.append('c_.%s(%s);' % ('d' if t == 'double' else 'i', an))
                else: py.append('c_.a<%s, %d>(%s, {%s});' % (CT(t), rank, an, dd))
            elif rank == 0: outs.append('c_.o(%d, %s);' % (len(outs), an))
            else:
                need = {'I': 'XRTM_OUTPUT_RADIANCE', 'K': 'XRTM_OUTPUT_RADIANCE', 'mean': 'XRTM_OUTPUT_RADIANCE_MEAN', 'flux': 'XRTM_OUTPUT_FLUX'}.get(an.split('_')[0]) if name == 'solution' else None
                if an.startswith('flux_div'): need = 'XRTM_OUTPUT_FLUX_DIVERGENCE' if need else None
                cond = ['(solutions & %s)' % need] if need else []
                if (an[0] == 'K' or an.endswith('_l')) and 'get' not in name: cond.append('bm.derivs')
                outs.append('%sc_.oa<%s, %d>(%d, %s, {%s});' % ('if (%s) ' % ' && '.join(cond) if cond else '', CT(t), rank, len(outs), an, dd))
        n = len(outs); perr = 'XRTM_DBL_ERROR' if ret == 'double' else 'XRTM_INT_ERROR'
        if init: b = 'PyCall c_(0); %s return c_.create(d) ? 0 : XRTM_INT_ERROR;' % ' '.join(py)
        elif val: b = 'PyCall c_("%s"); %s if (!c_.call(d, %d)) return %s; return (%s) c_.%s;' % (name, ' '.join(py), -1 if 'enum' in ret else 0, perr, rt, 'kernel()' if 'enum' in ret else 'value<%s>()' % rt)
        else: b = 'PyCall c_("%s"); %s if (!c_.call(d, %d)) return %s; %s return 0;' % (name, ' '.join(py), n, perr, ' '.join(outs))
        hp.append('static %s py_%s(%s) { %s }' % (rt, fn, C, b)); names['py'].append(name)
    ty = 'xrtm_fd_type' if fd else 'xrtm_type'
    if val:
        f90 += ['  function s90_%s(%s) result(r_) bind(c, name="s90_%s")' % (low, ', '.join(['d'] + f90args), low), '    %s :: r_' % ('real(c_double)' if rt == 'double' else 'integer(c_int)'), '    type(%s) :: d' % ty] + ['    ' + x for x in f90decl] + ['    r_ = %s_f90(%s)' % (fn, ', '.join(f90call)), '  end function']
    else:
        f90 += ['  subroutine s90_%s(%s) bind(c, name="s90_%s")' % (low, ', '.join(['d'] + f90args + ['e_']), low), '    type(%s) :: d' % ty] + ['    ' + x for x in f90decl] + ['    integer(c_int) :: e_', '    call %s_f90(%s)' % (fn, ', '.join(f90call + ['e_'])), '  end subroutine']
# constants and sizes
cons = []
for pre, f in (('XRTM_', 'xrtm_int_defs.def'), ('XRTM_FD_', 'xrtm_fd_int_defs.def')):
    for m in re.finditer(r'enumeration (\w+),(.*?);', show(f), re.S):
        for n in re.findall(r'(\w+)\s*=', m.group(2)): cons.append((pre + n, ('xrtm_fd_int_cpp::' if 'FD' in pre else 'xrtm_int_cpp::') + n))
f90 += ['  function s90_sizes(k) result(r_) bind(c, name="s90_sizes")', '    integer(c_int), value :: k', '    integer(c_int) :: r_', '    type(xrtm_type) :: a', '    type(xrtm_fd_type) :: b', '    r_ = size(a%data)', '    if (k == 1) r_ = size(b%data)', '  end function',
        '  subroutine s90_constants(v) bind(c, name="s90_constants")', '    integer(c_int) :: v(*)'] + ['    v(%d) = int(%s)' % (i + 1, c) for i, (c, _) in enumerate(cons)] + ['  end subroutine', 'end module']
f77 = ['c     Written by tools/mkbind.py.', '      subroutine s77_constants(n, v)', '      implicit none', "      include 'xrtm_int_f77.inc'", "      include 'xrtm_fd_int_f77.inc'", '      integer n(2)', '      integer v(*)', '      n(1) = N_BYTES_XRTM_TYPE', '      n(2) = N_BYTES_XRTM_FD_TYPE'] + ['      v(%d) = %s' % (i + 1, c) for i, (c, _) in enumerate(cons)] + ['      end']
h.append('static const struct { const char *name; int c, cpp; } bind_constants[] = {' + ', '.join('{"%s", (int) %s, (int) %s}' % (c, c, p) for c, p in cons) + '};')
open(V + '/sim/bindgen.h', 'w').write('\n'.join(h) + '\n'); open(V + '/sim/bindpy.h', 'w').write('\n'.join(hp) + '\n')
open(V + '/sim/bind_py.h', 'w').write('/* Written by tools/mkbind.py. */\n' + ''.join('#undef xrtm_%s\n#define xrtm_%s py_xrtm_%s\n' % (n, n, n) for n in names['py']) + '#undef xrtm_fd_create\n#define xrtm_fd_create(f, d, n) (xrtm_fd_create)(f, RAW(d), n)\n' + ''.join('#undef xrtm_fd_%s\n' % n for n in names['xrtm_fd'] if n != 'create'))
open(V + '/sim/f90shim.f90', 'w').write('\n'.join(f90) + '\n'); open(V + '/sim/f77shim.f', 'w').write('\n'.join(f77) + '\n')
for lang in ('cpp', 'f77', 'f90'):
    open(V + '/sim/bind_%s.h' % lang, 'w').write('/* Written by tools/mkbind.py. */\n' + ''.join('#undef %s_%s\n#define %s_%s %s_%s_%s\n' % (p, n, p, n, lang, p, n) for p in ('xrtm', 'xrtm_fd') for n in names[p]))
