"""Reads the interface definition (harness/bind_*.def: one line per function with its
arguments, ranks and dimensions) and writes, for the bindings check (C23),

  bind_stub.c   a recording stand-in for every function of the C interface
                (linked in with ld --wrap, so that a binding calls it)
  bind_f90.f90  a driver that makes each call through the Fortran 90 module
  bind_f77.f    the constants of the Fortran 77 include file
  bind_cpp.cpp  a driver that makes each call through the C++ classes
  bind_tab.c    the table of functions, and the Fortran 77 driver (called straight from C)
  bind_spec.json  the same table for the Python driver
"""
import json, os, re

LIBS = (('xrtm', 'bind_xrtm.def'), ('xrtm_fd', 'bind_fd.def'))

ARG = re.compile(r'(int|double|enum (\w+)|xrtm_data) (\d)((?: *"[^"]*")*) (\w+) (in|out)\b')


def split(s):
    """split at commas outside quotes"""
    out, cur, q = [], '', False
    for c in s:
        if c == '"':
            q = not q
        if c == ',' and not q:
            out.append(cur.strip()); cur = ''
        else:
            cur += c
    out.append(cur.strip())
    return out


def parse(hdir):
    fns = []
    for lib, f in LIBS:
        for line in open(os.path.join(hdir, f)):
            line = line.strip().rstrip(';')
            if not line:
                continue
            parts = split(re.sub(r'\s+', ' ', line))
            m = re.match(r'subprogram_(\w+) (int|double|enum (\w+)) 0 (\w+) (\d)', parts[0])
            kind, ret, en, name, val = m.group(1), m.group(2), m.group(3), m.group(4), int(m.group(5))
            if en:
                ret = 'enum'
            rest = parts[1:]
            fn = dict(lib=lib, kind=kind, ret=ret, enum=en, name=name, val=val, args=[])
            # an argument after "1 enum_array ..., int 0 i_kernel in" is a part of its own
            for p in rest:
                m = ARG.match(p)
                assert m, (name, p)
                t = m.group(1)
                fn['args'].append(dict(type='enum' if m.group(2) else t, enum=m.group(2), rank=int(m.group(3)),
                                       dims=re.findall(r'"([^"]*)"', m.group(4)), name=m.group(5), io=m.group(6),
                                       mask='enum_mask' in p))
            fns.append(fn)
    return fns


def cenum(lib, e):
    return {'method_type': 'enum xrtm_fd_method_type'}.get(e, 'enum xrtm_' + str(e))


def ctype(lib, a):
    if a['type'] == 'xrtm_data':
        return 'xrtm_data *'
    t = cenum(lib, a['enum']) if a['type'] == 'enum' else a['type']
    return t + ' ' + '*' * (a['rank'] if a['rank'] else (1 if a['io'] == 'out' else 0))


def stub(fns):
    o = ['#include <stdint.h>', '#include <gutil.h>', '#include <xrtm_interface.h>', '#include <xrtm_fd_interface.h>',
         '#include <xrtm_brdf.h>', '#include "bind.h"', '']
    for i, f in enumerate(fns):
        T = f['lib'] + '_data'
        r = {'int': 'int', 'double': 'double', 'enum': cenum(f['lib'], f['enum'])}[f['ret']]
        ps = [T + ' *d'] + [ctype(f['lib'], a) + a['name'] for a in f['args']]
        full = f['lib'] + '_' + f['name']
        o.append('%s __wrap_%s(%s)\n{' % (r, full, ', '.join(ps)))
        o.append('     long D[8]; (void) D;')
        o.append('     rec_begin(%d, d);' % i)
        if f['kind'] == 'init':
            o.append('     if (! B.fail) bind_fill_%s(d);' % f['lib'])
        outs = []
        for k, a in enumerate(f['args']):
            if a['type'] == 'xrtm_data':
                o.append('     rec_p(%d, %s);' % (k, a['name']))
            elif a['rank'] == 0 and a['io'] == 'in':
                o.append('     rec_%s(%d, %s);' % ('d' if a['type'] == 'double' else 'i', k, a['name']))
            elif a['rank'] == 0:
                outs.append('     *%s = %s;' % (a['name'], ('outd(%d,0)' if a['type'] == 'double' else 'outi(%d,0)') % k))
            else:
                dims = ' '.join('D[%d] = %s;' % (j, x) for j, x in enumerate(a['dims']))
                t = 'd' if a['type'] == 'double' else 'i'
                if a['io'] == 'in':
                    o.append('     if (! B.badidx) { %s rec_a%s(%d, %s, %d, D); }' % (dims, t, k, a['name'], a['rank']))
                else:
                    outs.append('     { %s out_a%s(%d, %s, %d, D); }' % (dims, t, k, a['name'], a['rank']))
        o.append('     if (B.fail) return %s;' % {'int': 'XRTM_INT_ERROR', 'double': 'XRTM_DBL_ERROR', 'enum': '(%s) XRTM_INT_ERROR' % r}[f['ret']])
        o += outs
        if not f['val']:
            o.append('     return 0;')
        else:
            o.append('     return %s;' % {'int': 'B.ri', 'double': 'B.rd', 'enum': '(%s) B.ri' % r}[f['ret']])
        o.append('}\n')
    return '\n'.join(o)


def table(fns):
    o = ['#include <stdint.h>', '#include <string.h>', '#include <gutil.h>', '#include <xrtm_interface.h>',
         '#include <xrtm_fd_interface.h>', '#include <xrtm_brdf.h>', '#include "bind.h"', '']
    f77 = []
    for i, f in enumerate(fns):
        T = f['lib'] + '_data'
        full = f['lib'] + '_' + f['name']
        # dimensions as the caller knows them
        o.append('static void dims_%d(%s *d, bargs *a) {' % (i, T))
        for k, a in enumerate(f['args']):
            if a['rank'] == 0 and a['io'] == 'in' and a['type'] == 'int':
                o.append('     int %s = a->iv[%d]; (void) %s;' % (a['name'], k, a['name']))
        o.append('     (void) d;')
        for k, a in enumerate(f['args']):
            if a['type'] == 'xrtm_data':
                continue
            for j, x in enumerate(a['dims']):
                if 'i_layer' in x:
                    x = '(i_layer < 0 || i_layer >= %sn_layers) ? 1 : %s' % ('d->' if f['lib'] == 'xrtm' else 'd->d->', x)
                if 'i_kernel' in x:
                    x = '(i_kernel < 0 || i_kernel >= %sn_kernels) ? 1 : %s' % ('d->' if f['lib'] == 'xrtm' else 'd->d->', x)
                o.append('     a->dim[%d][%d] = %s;' % (k, j, x))
        o.append('}')
        # F77 call
        ps = ['void *d']
        cs = ['d']
        for k, a in enumerate(f['args']):
            if a['type'] == 'xrtm_data':
                ps.append('void *'); cs.append('a->p[%d]' % k)
            elif a['type'] == 'double':
                ps.append('double *')
                cs.append('(double *) a->p[%d]' % k if a['rank'] or a['io'] == 'out' else '&a->dv[%d]' % k)
            else:
                ps.append('int *')
                cs.append('(int *) a->p[%d]' % k if a['rank'] or a['io'] == 'out' else '&a->iv[%d]' % k)
        sub = f['ret'] == 'int' and not f['val']
        if sub:
            o.append('extern void %s_f77_(%s, int *);' % (full.lower(), ', '.join(ps)))
            body = '%s_f77_(%s, &a->err);' % (full.lower(), ', '.join(cs))
        elif f['ret'] == 'double':
            o.append('extern double %s_f77_(%s);' % (full.lower(), ', '.join(ps)))
            body = 'a->rd = %s_f77_(%s);' % (full.lower(), ', '.join(cs))
        else:
            o.append('extern int %s_f77_(%s);' % (full.lower(), ', '.join(ps)))
            body = 'a->ri = %s_f77_(%s);' % (full.lower(), ', '.join(cs))
        o.append('static void f77_%d(void *d, bargs *a) { (void) a; %s }' % (i, body))
        o.append('extern void f90_%d(void *d, bargs *a, int *dim, int *strided);' % i)
        o.append('static void f90c_%d(void *d, bargs *a) { f90call_%d(d, a); }' % (i, i))
        # insert before f90c the marshalling
        ps, cs = ['void *d'], ['d']
        for k, a in enumerate(f['args']):
            if a['type'] == 'xrtm_data':
                ps.append('void *'); cs.append('a->p[%d]' % k)
            elif a['type'] == 'double':
                ps.append('double *')
                cs.append('(double *) a->p[%d]' % k if a['rank'] or a['io'] == 'out' else '&a->dv[%d]' % k)
            else:
                ps.append('int *')
                cs.append('(int *) a->p[%d]' % k if a['rank'] or a['io'] == 'out' else '&a->iv[%d]' % k)
        o[-2] = 'extern void bf90_%d(%s, int *, int *, int *, double *, int *);' % (i, ', '.join(ps))
        o[-1] = ('static void f90_%d(void *d, bargs *a) { bf90_%d(%s, &a->dim[0][0], &a->err, &a->ri, &a->rd, &a->strided); }'
                 % (i, i, ', '.join(cs)))
        # the dimensions the Julia module asks for
        jl = []
        for k, a in enumerate(f['args']):
            if f['lib'] != 'xrtm' or not a['rank'] or f['kind'] == 'init':
                continue
            ps, cs = ['void *'], ['d']
            for kk, b in enumerate(f['args']):
                if b['io'] == 'out':
                    continue
                if b['rank']:
                    ps.append('void *'); cs.append('a->pp[%d]' % kk)
                elif b['type'] == 'double':
                    ps.append('double'); cs.append('a->dv[%d]' % kk)
                else:
                    ps.append('int'); cs.append('a->iv[%d]' % kk)
            n = '%s_%s_dims' % (f['name'], a['name'])
            o.append('extern int %s(%s, size_t *);' % (n, ', '.join(ps)))
            jl.append('     case %d: return %s(%s, dims);' % (k, n, ', '.join(cs)))
        o.append('static int jl_%d(void *d, bargs *a, int k, size_t *dims) { switch (k) {\n%s\n     } return -99; }' % (i, '\n'.join(jl)))
        o.append('extern void cpp_%d(void *d, bargs *a);' % i)
        o.append('static const barg args_%d[] = {%s};\n' % (i, ', '.join(
            '{"%s", \'%s\', %d, %d, %d}' % (a['name'], {'xrtm_data': 'x', 'enum': 'i', 'int': 'i', 'double': 'd'}[a['type']],
                                            a['rank'], a['io'] == 'out',
                                            dimuse(f, a)) for a in f['args']) or '{0}'))
    o.append('const bfn bfns[] = {')
    for i, f in enumerate(fns):
        o.append('     {"%s_%s", %d, \'%s\', %d, \'%s\', %d, args_%d, (void (*)(void *, bargs *)) dims_%d, f77_%d, f90_%d, cpp_%d, jl_%d},' % (
            f['lib'], f['name'], f['lib'] == 'xrtm_fd', f['kind'][0], f['val'], {'int': 'i', 'enum': 'e', 'double': 'd'}[f['ret']],
            len(f['args']), i, i, i, i, i, i))
    o.append('};\nconst int n_bfns = %d;' % len(fns))
    return '\n'.join(o)


DIMS = ['n_layers', 'n_derivs', 'n_elem', 'n_coef_layer', 'n_coef"', 'n_quad', 'n_kernel_quad', 'n_stokes',
        'n_out_levels', 'n_out_thetas', 'n_out_phis', 'i_kernel', 'n_out_thetas_2', 'n_kernels']


def dimuse(f, a):
    """which of the dimensions of the configuration this argument depends on"""
    m = 0
    for x in a['dims']:
        w = set(re.findall(r'\w+', x))
        for j, n in enumerate(DIMS):
            if n.strip('"') in w:
                m |= 1 << j
    return m


def f90(fns):
    o = []
    for i, f in enumerate(fns):
        full = f['lib'] + '_' + f['name']
        mod = {'xrtm': 'xrtm_int_f90', 'xrtm_fd': 'xrtm_fd_int_f90'}[f['lib']]
        names = ['a%d' % k for k in range(len(f['args']))]
        o.append('subroutine bf90_%d(%s) bind(c, name="bf90_%d")' % (
            i, ', &\n     '.join(['d'] + names + ['dm', 'err', 'ri', 'rd', 'strided']), i))
        o.append('     use iso_c_binding')
        o.append('     use xrtm_int_f90')
        if f['lib'] == 'xrtm_fd':
            o.append('     use xrtm_fd_int_f90')
        o.append('     implicit none')
        o.append('     type(%s_type) :: d' % f['lib'])
        o.append('     integer(c_int) :: dm(6,%d), err, ri, strided' % max(1, len(names)))
        o.append('     real(c_double) :: rd')
        big = []
        for k, a in enumerate(f['args']):
            t = {'double': 'real(c_double)', 'int': 'integer(c_int)', 'enum': 'integer(c_int)', 'xrtm_data': 'type(xrtm_type)'}[a['type']]
            if a['rank'] and a['type'] != 'xrtm_data':
                dims = ['dm(%d,%d)' % (j + 1, k + 1) for j in range(a['rank'])][::-1]
                o.append('     %s :: a%d(%s)' % (t, k, ','.join(dims)))
                o.append('     %s, allocatable :: t%d(%s)' % (t, k, ','.join(':' * a['rank'])))
                big.append((k, a, dims))
            else:
                o.append('     %s :: a%d' % (t, k))

        def call(args):
            sub = f['ret'] == 'int' and not f['val']
            al = ', &\n          '.join(args)
            if sub:
                return '     call %s_f90(%s, err)' % (full, al)
            if f['ret'] == 'double':
                return '     rd = %s_f90(%s)' % (full, al)
            return '     ri = %s_f90(%s)' % (full, al)

        if big:
            o.append('     if (strided == 0) then')
            o.append(call(['d'] + names))
            o.append('     else')
            args = ['d']
            for k, a in enumerate(f['args']):
                if any(b[0] == k for b in big):
                    dims = [b[2] for b in big if b[0] == k][0]
                    n0 = dims[0]
                    colon = ''.join(',:' for _ in dims[1:])
                    o.append('     allocate(t%d(2*%s+1%s))' % (k, n0, ''.join(',' + x for x in dims[1:])))
                    o.append('     t%d = 0' % k)
                    o.append('     t%d(2:2*%s:2%s) = a%d' % (k, n0, colon, k))
                    args.append('t%d(2:2*%s:2%s)' % (k, n0, colon))
                else:
                    args.append('a%d' % k)
            o.append(call(args))
            for k, a, dims in big:
                if a['io'] == 'out':
                    colon = ''.join(',:' for _ in dims[1:])
                    o.append('     a%d = t%d(2:2*%s:2%s)' % (k, k, dims[0], colon))
            o.append('     end if')
        else:
            o.append(call(['d'] + names))
        o.append('end subroutine\n')
    o.append('subroutine bf90_sizes(s) bind(c, name="bf90_sizes")')
    o.append('     use iso_c_binding\n     use xrtm_int_f90\n     use xrtm_fd_int_f90\n     implicit none')
    o.append('     integer(c_int) :: s(2)\n     type(xrtm_type) :: a\n     type(xrtm_fd_type) :: b')
    o.append('     s(1) = storage_size(a) / 8\n     s(2) = storage_size(b) / 8\nend subroutine\n')
    return '\n'.join(o)


def cppname(e):
    return e


def cpp(fns):
    o = ['#include <stdint.h>', '#include <gutil.h>', '#include <xrtm_interface.h>', '#include <xrtm_fd_interface.h>',
         '#include "xrtm_int_cpp.h"', '#include "xrtm_fd_int_cpp.h"', '#include "bind.h"', '']
    cls = {'xrtm': 'xrtm_int_cpp', 'xrtm_fd': 'xrtm_fd_int_cpp'}
    for i, f in enumerate(fns):
        c = cls[f['lib']]
        args = []
        for k, a in enumerate(f['args']):
            if a['type'] == 'xrtm_data':
                args.append('(xrtm_data *) a->p[%d]' % k)
            elif a['rank'] == 0 and a['io'] == 'in':
                if a['type'] == 'enum':
                    q = 'xrtm_int_cpp' if a['enum'] == 'solver_mask' else c
                    args.append('(%s::%s) a->iv[%d]' % (q, a['enum'], k))
                else:
                    args.append('a->%sv[%d]' % ('d' if a['type'] == 'double' else 'i', k))
            elif a['rank'] == 0:
                # the C++ class takes a reference or a pointer for a returned scalar
                args.append('*(%s *) a->p[%d]' % (a['type'], k) if False else '(%s *) a->p[%d]' % (a['type'], k))
            else:
                if a['type'] == 'enum':
                    args.append('(%s::%s *) a->p[%d]' % (c, a['enum'], k))
                else:
                    args.append('(%s %s) a->pp[%d]' % (a['type'], '*' * a['rank'], k))
        al = ', '.join(args)
        o.append('extern "C" void cpp_%d(void *d, bargs *a)\n{' % i)
        if f['kind'] == 'init':
            o.append('     a->err = 0;\n     try { a->obj = new %s(%s); }' % (c, al))
            o.append('     catch (%s::%serrors &e) { a->err = 1; a->obj = 0; }' % (c, 'xrtm_' if f['lib'] == 'xrtm' else 'xrtm_fd_'))
        elif f['kind'] == 'free':
            o.append('     a->err = 0; delete (%s *) d;' % c)
        else:
            call = '((%s *) d)->%s(%s)' % (c, f['name'], al)
            if f['ret'] == 'double':
                st = 'a->rd = ' + call if f['val'] else call
            elif f['val']:
                st = 'a->ri = (int) ' + call
            else:
                st = call
            o.append('     a->err = 0;\n     try { %s; }' % st)
            o.append('     catch (%s::%serrors &e) { a->err = 1; }' % (c, 'xrtm_' if f['lib'] == 'xrtm' else 'xrtm_fd_'))
        o.append('}\n')
    return '\n'.join(o)


def consts(hdir):
    """the constants each language offers: (name in C, name in the class, is it of the fd class)"""
    r = []
    for n in open(os.path.join(hdir, 'bind_consts.txt')).read().split():
        if n.startswith('FD:'):
            r.append(('XRTM_FD_' + n[3:], n[3:], 1))
        else:
            r.append(('XRTM_' + n, n, 0))
    return r


def const_files(hdir):
    cs = consts(hdir)
    c = ['#include "bind.h"', 'const struct bconst { const char *name; long v; } bconsts[] = {']
    c += ['     {"%s", (long) %s},' % (n, n) for n, _, _ in cs]
    c += ['};', 'const int n_bconsts = %d;' % len(cs)]
    f77 = []
    for name, inc in (('f77const', True), ('f90const', False)):
        f77.append('      subroutine %s(i, v)' % name)
        if not inc:
            f77 += ['      use xrtm_int_f90', '      use xrtm_fd_int_f90']
        f77.append('      implicit none')
        if inc:
            f77 += ["      include 'xrtm_int_f77.inc'", "      include 'xrtm_fd_int_f77.inc'"]
        f77.append('      integer i, v')
        for j, (n, _, _) in enumerate(cs):
            f77.append('      if (i .eq. %d) v = %s' % (j + 1, n))
        f77 += ['      end', '']
    f77 += ['      subroutine f77sizes(s)', '      implicit none', "      include 'xrtm_int_f77.inc'", "      include 'xrtm_fd_int_f77.inc'",
            '      integer s(2)', '      s(1) = N_BYTES_XRTM_TYPE', '      s(2) = N_BYTES_XRTM_FD_TYPE', '      end', '']
    x = ['extern "C" long cppconst(int i)\n{\n     switch (i) {']
    for j, (n, m, fd) in enumerate(cs):
        x.append('          case %d: return (long) %s::%s;' % (j, 'xrtm_fd_int_cpp' if fd else 'xrtm_int_cpp', m))
    x.append('     }\n     return -12345;\n}')
    return '\n'.join(c), '\n'.join(f77), '\n'.join(x)


def write(hdir, out):
    fns = parse(hdir)
    cc, cf, cx = const_files(hdir)
    os.makedirs(out, exist_ok=True)
    for n, t in (('bind_stub.c', stub(fns)), ('bind_tab.c', table(fns) + '\n\n' + cc), ('bind_f90.f90', f90(fns)), ('bind_const.f', cf), ('bind_cpp.cpp', cpp(fns) + cx),
                 ('bind_spec.json', json.dumps(fns))):
        p = os.path.join(out, n)
        if not os.path.exists(p) or open(p).read() != t:
            open(p, 'w').write(t)
    return fns


if __name__ == '__main__':
    import sys
    print(len(write(sys.argv[1], sys.argv[2])))
