"""Bindings (C23): every call of the Python module, made against the recording stand-in for the C
interface (see bind.c).  Run by /usr/bin/python3: bind_py.py MODULE SPEC [--thorough] [--replay family:idx]"""
import sys, os, json, ctypes, itertools, re, importlib.util, tempfile, resource, traceback

so, spec = sys.argv[1], json.load(open(sys.argv[2]))
import numpy as np

s = importlib.util.spec_from_file_location('xrtm', so)
xrtm = importlib.util.module_from_spec(s)
s.loader.exec_module(xrtm)
lib = ctypes.CDLL(so)
BA, BN = 24, 4096
I, Dd = ctypes.c_int, ctypes.c_double


class BS(ctypes.Structure):
    _fields_ = [('fail', I), ('badidx', I), ('ri', I), ('rd', Dd), ('n_calls', I), ('fn', I), ('d', ctypes.c_void_p),
                ('ni', I * BA), ('v', (Dd * BN) * BA), ('q', ctypes.c_void_p * BA)] + \
               [(n, I) for n in ('n_layers n_derivs n_elem n_coef n_quad n_kernel_quad n_stokes n_out_levels n_out_thetas n_kernels kernel').split()]


B = BS.in_dll(lib, 'B')
live = ctypes.c_long.in_dll(lib, 'bind_live')
for n in ('outd', 'ind'):
    getattr(lib, n).restype = Dd
    getattr(lib, n).argtypes = [I, ctypes.c_long]
for n in ('xrtm_option_index_to_name', 'xrtm_solver_index_to_name', 'xrtm_kernel_index_to_name'):
    getattr(lib, n).restype = ctypes.c_char_p


def ind(k, i): return 1. + k * 64. + i / 64. + i * 1e-7
def ini(k, i): return 1000 + k * 4096 + i
def outd(k, i): return -(5. + k * 64. + i / 64. + i * 1e-7)
def outi(k, i): return -(500 + k * 4096 + i)


OPTS = [lib.xrtm_option_index_to_name(i).decode() for i in range(30)]
SOLV = [lib.xrtm_solver_index_to_name(i).decode() for i in range(11)]
KERN = [lib.xrtm_kernel_index_to_name(i).decode() for i in range(10)]
omask = lambda n: lib.xrtm_option_name_to_mask(n.encode())
smask = lambda n: lib.xrtm_solver_name_to_mask(n.encode())
kval = lambda n: lib.xrtm_kernel_name_to_value(n.encode())

VALS = dict(n_layers=(1, 2, 3), n_derivs=(0, 1, 2), n_elem=(1, 6), n_coef=(1, 2, 4), n_quad=(1, 2), n_kernel_quad=(1, 3),
            n_stokes=(1, 3), n_out_levels=(1, 2), n_out_thetas=(0, 1, 2), kernel=tuple(range(10)), n_out_phis=(1, 2), n_coef_layer=(1, 3))
DEF = dict(n_layers=3, n_derivs=2, n_elem=6, n_coef=4, n_quad=2, n_kernel_quad=3, n_stokes=3, n_out_levels=2, n_out_thetas=3,
           kernel=8, n_out_phis=2, n_coef_layer=2)

RES = dict(cases=0, executions=0, states=0, transitions=0, nontrivial=0, distinct_outcomes=0, skipped_violations=0, counters={}, samples=[], violations=[])
fns = [f for f in spec if f['lib'] == 'xrtm']
index = {id(f): i for i, f in enumerate(spec)}


def viol(f, what, msg):
    sig = 'Python xrtm_%s: %s' % (f['name'], what)
    for v in RES['violations']:
        if v['sig'] == sig:
            v['count'] += 1
            return
    RES['violations'].append(dict(sig=sig, msg=msg, family='python', idx=fns.index(f), count=1))


def new(opts=(), solv=(), kernels=(), args=(1,) * 7, lv=(1, 1)):
    return xrtm.xrtm(list(opts), list(solv), *args, list(kernels), *lv)


def dims_of(f, a, cfg, iv):
    env = dict(cfg)
    env['n_out_thetas_2'] = cfg['n_out_thetas'] or cfg['n_quad']
    out = []
    for x in a['dims']:
        if 'kernel_n_params' in x:
            out.append(lib.kernel_n_params((cfg['kernel'] + iv['i_kernel']) % 10) if 0 <= iv['i_kernel'] < 2 else 1)
        elif 'd->n_coef_layer[' in x:
            out.append(1 + (iv['i_layer'] + cfg['n_coef']) % 3 if 0 <= iv['i_layer'] < cfg['n_layers'] else 1)
        else:
            e = dict(env)
            e.update(iv)
            x2 = re.sub(r'd->(\w+)', lambda m: str(env[m.group(1)]), x)
            out.append(eval(x2, {}, iv))
    return out


def fill(k, a, dims):
    n = int(np.prod(dims)) if dims else 1
    if a['type'] == 'double':
        return np.array([ind(k, i) for i in range(n)], dtype=np.float64).reshape(dims)
    return np.array([ini(k, i) for i in range(n)], dtype=np.intc).reshape(dims)


def calls(f):
    fi = spec.index(f)
    text = ' '.join(x for a in f['args'] for x in a['dims'])
    names = [a['name'] for a in f['args']]
    use = [n for n in VALS if re.search(r'\b%s\b' % n, text) or n in names]
    if 'n_out_thetas_2' in text:
        use += [n for n in ('n_out_thetas', 'n_quad') if n not in use]
    if 'i_kernel' in names and 'kernel' not in use:
        use.append('kernel')
    if 'i_layer' in names and 'n_layers' not in use:
        use.append('n_layers')
    if f['ret'] == 'enum':
        use = [u for u in use if u != 'kernel']
    rvals = range(11) if f['ret'] == 'enum' else ((0, 1, 7, -5) if f['val'] else (0,))
    for combo in itertools.product(*[VALS[u] for u in use]):
        cfg = dict(DEF)
        cfg.update(zip(use, combo))
        for n in 'n_layers n_derivs n_elem n_coef n_quad n_kernel_quad n_stokes n_out_levels n_out_thetas kernel'.split():
            setattr(B, n, cfg[n])
        B.n_kernels = 2
        B.fail = 0
        RES['states'] += 1
        obj = new()
        for il in (range(-1, cfg['n_layers'] + 1) if 'i_layer' in names else (0,)):
            for ik in (range(-1, 3) if 'i_kernel' in names else (0,)):
                for neg, fail, rv, form in [(0, 0, r, 0) for r in rvals] + [(1, 0, 0, 0), (0, 1, 0, 0), (1, 0, 0, 1), (1, 0, 0, 2), (0, 1, 0, 2)] + \
                        [(0, 0, 0, w) for w in (3, 4, 5, 6, 7)]:
                    one(f, fi, obj, cfg, il, ik, neg, fail, rv, form)
        B.fail = 0


def one(f, fi, obj, cfg, il, ik, neg, fail, rv, form):
    """form: 0 arrays, 1 arrays that are not contiguous, 2 nested lists, 3 an array one longer in its last dimension,
    4 one longer in its first, 5 of one dimension more, 6 not an array, 7 an unknown name"""
    iv, args, want, arrays, wrong = {}, [], {}, [], form >= 3
    has_arr = any(a['rank'] and a['io'] == 'in' for a in f['args'])
    has_str = any(a['mask'] and a['rank'] == 0 for a in f['args'])
    if form in (1, 2, 3, 4, 5, 6) and not has_arr or form == 7 and not has_str:
        return
    bad = 0
    for k, a in enumerate(f['args']):
        if a['io'] == 'out':
            continue
        if a['rank'] == 0:
            if a['type'] == 'double':
                v = -ind(k, 0) if neg else ind(k, 0)
                args.append(v)
                want[k] = v
            elif a['type'] == 'enum':
                n = 'nonsense' if form == 7 else SOLV[(k + neg + rv) % 11]
                args.append(n)
                want[k] = smask(n) if form != 7 else None
            else:
                v = dict(i_layer=il, i_kernel=ik, n_out_phis=cfg['n_out_phis'], n_coef_layer=cfg['n_coef_layer']).get(a['name'])
                if v is None:
                    v = -ini(k, 0) if neg else ini(k, 0)
                if a['name'] == 'i_layer' and not 0 <= v < cfg['n_layers'] or a['name'] == 'i_kernel' and not 0 <= v < 2:
                    bad = 1
                iv[a['name']] = v
                args.append(v)
                want[k] = v
        else:
            dims = dims_of(f, a, cfg, iv)
            if form in (3, 4, 5):
                d2 = list(dims)
                if form == 5: d2 = [1] + d2
                else: d2[-1 if form == 3 else 0] += 1
                x = fill(k, a, d2)
            else:
                x = fill(k, a, dims)
                want[k] = x.ravel().copy()
            if form == 1:
                y = np.zeros([2 * d + 1 for d in dims], dtype=x.dtype)
                y[tuple(slice(1, 2 * d + 1, 2) for d in dims)] = x
                x = y[tuple(slice(1, 2 * d + 1, 2) for d in dims)]
            elif form == 2:
                if x.size == 0:
                    return
                x = x.tolist()
            elif form == 6:
                x = 'nonsense'
            args.append(x)
            arrays.append(x)
    if bad and form:
        return
    B.fail, B.badidx = (1 if fail or bad else 0), bad
    B.ri = rv
    B.rd = rv * 1.25
    B.n_calls, B.fn = 0, -1
    rc0 = [sys.getrefcount(x) for x in arrays]
    l0 = live.value
    exc = res = None
    try:
        res = getattr(obj, f['name'])(*args)
    except Exception as e:
        exc = type(e).__name__ + ': ' + str(e)
        isx = isinstance(e, xrtm.error)
    RES['executions'] += 1
    RES['transitions'] += 1
    if live.value != l0:
        viol(f, 'leaves memory behind', '%d blocks, form %d, fail %d, %s' % (live.value - l0, form, B.fail, cfg))
    if [sys.getrefcount(x) for x in arrays] != rc0:
        viol(f, 'keeps a reference to an argument', 'form %d, fail %d' % (form, B.fail))
    if wrong:
        if exc is None:
            viol(f, 'a wrong argument is taken', 'form %d %s' % (form, cfg))
        if B.n_calls:
            viol(f, 'a wrong argument is passed on', 'form %d %s' % (form, cfg))
        return
    if bad and B.n_calls == 0 and exc is not None:
        return
    if B.n_calls != 1 or B.fn != fi:
        viol(f, 'not the one call', '%d calls, last %d, %s %s' % (B.n_calls, B.fn, exc, cfg))
        return
    for k, w in want.items():
        if isinstance(w, np.ndarray):
            if bad:
                continue
            if B.ni[k] != w.size or any(B.v[k][i] != w[i] for i in range(w.size)):
                viol(f, 'argument changed', '%s %s form %d' % (f['args'][k]['name'], cfg, form))
        elif B.ni[k] != 1 or B.v[k][0] != w:
            viol(f, 'argument changed', '%s is %g, not %s' % (f['args'][k]['name'], B.v[k][0], w))
    if B.fail:
        if exc is None or not isx:
            viol(f, 'failure not reported', '%s %s' % (exc, cfg))
        return
    if exc is not None:
        viol(f, 'reports failure', '%s %s' % (exc, cfg))
        return
    outs = [(k, a) for k, a in enumerate(f['args']) if a['io'] == 'out']
    if f['val'] or f['ret'] == 'double':
        w = B.rd if f['ret'] == 'double' else rv
        if f['ret'] == 'enum':
            w = KERN[rv] if rv < len(KERN) else res
            if not isinstance(res, str): w = ''
        if res != w:
            viol(f, 'value not returned', '%r, not %r' % (res, w))
    elif outs:
        r = [res] if len(outs) == 1 else list(res) if isinstance(res, (tuple, list)) else []
        if len(r) != len(outs):
            viol(f, 'result not returned', 'a %s' % type(res).__name__)
            return
        res = None
        for j, (k, a) in enumerate(outs):
            if a['rank'] == 0:
                w = outd(k, 0) if a['type'] == 'double' else outi(k, 0)
                if r[j] != w:
                    viol(f, 'result not returned', '%s is %r, not %r' % (a['name'], r[j], w))
                continue
            dims = dims_of(f, a, cfg, iv)
            x = r[j]
            r[j] = None
            if not isinstance(x, np.ndarray) or list(x.shape) != dims:
                viol(f, 'result not returned', '%s has shape %s, not %s' % (a['name'], getattr(x, 'shape', None), dims))
                continue
            w = np.array([outd(k, i) if a['type'] == 'double' else outi(k, i) for i in range(x.size)], dtype=float).reshape(dims)
            if x.dtype != (np.float64 if a['type'] == 'double' else np.intc) or not np.array_equal(x, w):
                viol(f, 'result not returned', a['name'])
            if sys.getrefcount(x) != 2:
                viol(f, 'result never released', '%s has %d references' % (a['name'], sys.getrefcount(x) - 1))


def create(f):
    """every option, solver and kernel name alone and in pairs; names that are none; failure"""
    fi = spec.index(f)
    B.kernel, B.n_kernels = 0, 2
    for n, v in DEF.items():
        if hasattr(B, n): setattr(B, n, v)
    names = [a['name'] for a in f['args']]
    cases = []
    for o in [()] + [(x,) for x in OPTS] + list(itertools.combinations(OPTS, 2)):
        cases.append((o, SOLV[:1], KERN[:1]))
    for o in [(x,) for x in SOLV] + list(itertools.combinations(SOLV, 2)):
        cases.append((OPTS[:1], o, KERN[:1]))
    for o in [()] + [(x,) for x in KERN] + list(itertools.product(KERN, KERN)):
        cases.append((OPTS[:1], SOLV[:1], o))
    for bad in (('nonsense',), (OPTS[0], 'nonsense'), (3,), (None,), 'abc', 7):
        for pos in range(3):
            c = [OPTS[:1], SOLV[:1], KERN[:1]]
            c[pos] = bad
            cases.append(tuple(c))
    for o, sv, ks in cases:
        for fail in (0, 1):
            B.fail, B.badidx, B.n_calls, B.fn = fail, 0, 0, -1
            num = [ini(k, 0) for k in range(7)]
            lv = [ini(k, 0) for k in range(7, 9)]
            ok = all(isinstance(x, (tuple, list)) and all(y in t for y in x) for x, t in ((o, OPTS), (sv, SOLV), (ks, KERN)))
            asl = lambda x: list(x) if isinstance(x, (tuple, list)) else x
            l0 = live.value
            obj = exc = None
            try:
                obj = xrtm.xrtm(asl(o), asl(sv), *num, asl(ks), *lv)
            except Exception as e:
                exc = type(e).__name__ + ': ' + str(e)
            RES['executions'] += 1
            RES['transitions'] += 1
            if not ok or fail:
                if exc is None:
                    viol(f, 'failure not reported', '%s %s %s' % (o, sv, ks))
                destroyed = B.fn >= 0 and spec[B.fn]['name'] == 'destroy'
                if destroyed:
                    viol(f, 'an instance that was not made is destroyed', '%s %s %s fail %d' % (o, sv, ks, fail))
                if not ok and B.n_calls:
                    viol(f, 'a wrong argument is passed on', '%s %s %s' % (o, sv, ks))
            else:
                if B.n_calls != 1 or B.fn != fi:
                    viol(f, 'not the one call', '%d %s' % (B.n_calls, exc))
                    continue
                m = 0
                for x in o: m |= omask(x)
                n = 0
                for x in sv: n |= smask(x)
                got = [B.v[k][0] if f['args'][k]['rank'] == 0 else None for k in range(len(f['args']))]
                wanted = dict(options=m, solvers=n, n_kernels=len(ks))
                for nm, v in zip(('max_coef', 'n_quad', 'n_stokes', 'n_derivs', 'n_layers', 'n_theta_0s', 'n_kernel_quad'), num):
                    wanted[nm] = v
                wanted['n_out_levels'], wanted['n_out_thetas'] = lv
                for k, nm in enumerate(names):
                    if nm == 'kernels':
                        g = [int(B.v[k][i]) for i in range(max(0, B.ni[k]))]
                        if g != [kval(x) for x in ks]:
                            viol(f, 'argument changed', 'kernels %s are %s' % (ks, g))
                    elif got[k] != wanted[nm]:
                        viol(f, 'argument changed', '%s is %s, not %s' % (nm, got[k], wanted[nm]))
                if obj is not None:
                    B.n_calls = 0
                    del obj
                    obj = None
                    if B.n_calls != 1 or spec[B.fn]['name'] != 'destroy':
                        viol(f, 'not destroyed', '%d' % B.n_calls)
            exc = obj = None
            # the first instance makes what the stand-in keeps
            if live.value != l0 and RES['states']:
                viol(f, 'leaves memory behind', '%d blocks: %s %s %s, fail %d' % (live.value - l0, o, sv, ks, fail))
            RES['states'] += 1


def run(f):
    if f['kind'] == 'init':
        create(f)
    elif f['kind'] == 'free':
        return
    else:
        calls(f)
    RES['nontrivial'] += 1


def main():
    replay = None
    for i, x in enumerate(sys.argv):
        if x == '--replay':
            replay = int(sys.argv[i + 1].split(':')[1])
    total = dict(RES, counters={}, samples=[], violations=[])
    todo = [i for i in range(len(fns)) if replay is None or i == replay]
    running = {}
    os.environ['OPENBLAS_NUM_THREADS'] = '1'
    queue = list(todo)
    outs = {}
    while queue or running:
        while queue and len(running) < (os.cpu_count() or 1):
            i = queue.pop(0)
            fh = tempfile.TemporaryFile('w+')
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                dn = os.open(os.devnull, os.O_WRONLY)
                os.dup2(dn, 2)
                resource.setrlimit(resource.RLIMIT_CPU, (600, 600))
                try:
                    run(fns[i])
                except Exception:
                    viol(fns[i], 'driver stopped', traceback.format_exc()[-400:])
                json.dump(RES, fh)
                fh.flush()
                os._exit(0)
            running[pid] = (i, fh)
        pid, st = os.wait()
        i, fh = running.pop(pid)
        fh.seek(0)
        outs[i] = fh.read()
        fh.close()
        total['cases'] += 1
        total['distinct_outcomes'] += 1
        if st != 0 or not outs.get(i):
            total['violations'].append(dict(sig='Python xrtm_%s: crash' % fns[i]['name'], msg='status %d' % st, family='python', idx=i, count=1))
            continue
        d = json.loads(outs[i])
        for k in ('executions', 'states', 'transitions', 'nontrivial'):
            total[k] += d[k]
        total['violations'] += d['violations']
        if len(total['samples']) < 5:
            total['samples'].append('Python %s: %d calls' % (fns[i]['name'], d['executions']))
    print('MCRESULT ' + json.dumps(total))


main()
