"""C24: scans run on copies and line up with their axes."""
from sa.world import *
from checks.c21 import twin, list_items
from checks.grad import NLS

FLOOR = 40
WF = OPT + '.scan_frequency'
WP = OPT + '.scan_power'
DF = sym('df', pos=True)
S0 = sym('s_min', pos=True)
S1 = sym('s_max', pos=True)
LIN, CUB = ('Hx', 'Hy', 'Ez'), ('Hx', 'Hy', 'Ez')


class Scan:
    def __init__(self, ck, pol='Ez', npml=(0, 0), nl=False, args=None,
                 solved=True):
        self.ck, self.pol, self.npml, self.nl = ck, pol, npml, nl
        self.args = args or [(pol, nl)]
        self.w = w = World(ck, generic_ne=True, name_profiles=any(npml))
        self.dims = (NX, NY)
        self.s = s = w.sim(pol, npml)
        self.install()
        if nl:
            self.reg = w.array('nlreg', self.dims, real=True, isint=True,
                               binary=True)
            self.add_nl(s)
        w.set(s, 'rho', w.array('rho', self.dims, real=True))
        self.o = w.optim(s, w.objective(self.args))
        if solved:
            w.call(s, 'solve_fields')
            if nl:
                w.call(s, 'solve_fields_nl')

    def add_nl(self, s):
        self.w.call(s, 'add_nl', sym('chi', pos=True), self.reg,
                    eps_scale=False, eps_max=EPSM)

    def install(self):
        """the nonlinear solution is a function of problem and solver; a mode
        source of scale, permittivity and frequency"""
        w = self.w

        def solver(n):
            def h(I, f, vs):
                s = vs.get('simulation')
                if s is None:
                    raise Undecided('nonlinear solver without a simulation')
                # started from the stored linear field, else from the one
                # given (which leaves the linear store alone)
                st = w.get(s, 'fields')
                given = vs.get('Estart') is not None
                keep = {c: w.item(st, c) for c in CUB}
                if keep['Ez'] is None:
                    w.call(s, 'solve_fields')
                e = w.get(s, 'eps_r')
                key = ('nlsol', n, I.ekey(w.fields(s, 'fields', 'Ez')),
                       I.ekey(e), I.ekey(w.get(s, 'src')))
                if keep['Ez'] is None and given:
                    st = w.get(s, 'fields')
                    for c in CUB:
                        I.setitem(st, c, keep[c])
                dims = w.a(e).shape()
                out = [w.array(key + (c,), dims) for c in CUB]
                w.call(s, 'compute_nl', out[2])
                return tuple(out) + (w.array(key + ('convergence',),
                                             (P(20),), real=True),)
            return h
        for n in ('born_solve', 'newton_solve', 'newton_krylov_solve'):
            w.I.opaque[NLS + '.' + n] = solver(n)

        def setup(I, f, vs):
            m, s = vs.get('self'), vs.get('simulation')
            if m is None or s is None:
                raise Undecided('mode set up without a simulation')
            key = ('modesrc', w.get(m, 'scale'), w.get(m, 'neff'),
                   closed_key(I, w.get(s, 'eps_r')), w.get(s, 'omega'))
            src = w.get(s, 'src')
            b = w.a(w.array(key, self.dims))
            I.store_whole(src, b)
            w.set(s, 'W_in', fn('Win', key, real=True, pos=True))
            return None
        w.I.opaque['angler.source.mode.mode.setup_src'] = setup

    def reference(self):
        """a new problem in the state of the simulation"""
        t, o2 = twin(self.w, self.s, self.o, self.pol, self.npml, self.args)
        if self.nl:
            self.add_nl(t)
        return t, o2

    # ------------------------------------------------------------ snapshot
    def state(self):
        """contents of every attribute of the simulation"""
        s = self.s
        out = {}
        attrs = self.w.I.cell(s).attrs
        for k in ('eps_r', 'mu_r', 'src', 'omega', 'rho', 'fields',
                  'fields_nl', 'eps_nl', 'A', 'derivs', 'modes',
                  'nonlinearity', 'nonlinear_fn', 'dl', 'L0', 'NPML', 'W_in'):
            if k in attrs:
                self.walk(attrs[k], k, out, 0)
        return out

    def walk(self, v, name, out, depth):
        I = self.w.I
        c = I.cell(v) if isinstance(v, Ref) else None
        for d in (getattr(c, 'd', None), getattr(c, 'attrs', None)):
            if isinstance(d, dict) and depth < 4:
                for k, x in d.items():
                    if isinstance(k, str):
                        self.walk(x, '%s.%s' % (name, k), out, depth + 1)
                return
        if hasattr(c, 'items') and depth < 4:
            for k, x in enumerate(c.items):
                self.walk(x, '%s[%d]' % (name, k), out, depth + 1)
            return
        out[name] = self.contents(v)

    def contents(self, v):
        if v is None:
            return 'None'
        try:
            return self.w.I.ekey(v)
        except Undecided:
            return None

    def compare(self, old, where):
        new = self.state()
        for k, v in old.items():
            if v is None:
                continue
            if new.get(k) == v:
                self.ck.record('%s left as it was' % k,
                               True, where)
            else:
                n = new.get(k)
                self.ck.record('%s left as it was' % k,
                               None if n is None or tainted(n) else False,
                               where, 'changed to %s' % (n,))


def frequency(ck, n, pol='Ez', npml=(0, 0), nl=False, args=None, pbar=False,
              solved=True):
    x = Scan(ck, pol, npml, nl, args, solved)
    w, I, o = x.w, x.w.I, x.o
    old = x.state()
    kw = {} if pbar else dict(pbar=False)
    n0 = len(I.pending)
    r = w.call(o, 'scan_frequency', Nf=P(n), df=DF, **kw)
    ck.no_raise(I, n0)
    fr = w.a(w.item(r, ZERO))
    fs = [w.e(w.item(w.item(r, ZERO), P(k))) for k in range(n)]
    objs = list_items(w, w.item(r, ONE))
    ck.record('one value per frequency', len(objs) == n and
              len(fr.dims) == 1 and fr.dims[0] == P(n), WF,
              '%d values for %d frequencies' % (len(objs), n))
    x.compare(old, WF)
    if len(objs) != n:
        return
    for k in range(n):
        ck.eq('frequencies evenly spaced about the present one', fs[k],
              (OM - OM * DF / 2 + OM * DF * F(k, n - 1)) / 2 / PI, WF)
    vals = []
    for k in range(n):
        t, o2 = x.reference()
        w.set(t, 'omega', fs[k] * 2 * PI)
        w.set(t, 'eps_r', w.get(t, 'eps_r'))
        J = w.e(w.call(o2, 'compute_J', t))
        vals.append(w.e(objs[k]))
        ck.eq('value %d is the objective of the system at that frequency' % k,
              w.e(objs[k]), J, WF)
    half = w.e(npf(w, 'max', npf(w, 'array', I.mklist(vals)))) / 2
    above = [lt0(half - v) for v in vals]
    m = n // 2
    cnt, run_ = ZERO, ONE
    for k in range(m, n):
        run_ = run_ * above[k]
        cnt = cnt + run_
    run_ = ONE
    for k in range(m - 1, -1, -1):
        run_ = run_ * above[k]
        cnt = cnt + run_
    ck.eq('half-maximum width', w.e(w.item(r, P(2))),
          cnt * (fs[1] - fs[0]), WF)


def power_scan(ck, n, solver='newton', npml=(0, 0), probes=2, solved=True):
    x = Scan(ck, 'Ez', npml, True, [('Ez', True)], solved)
    w, I, o, s = x.w, x.w.I, x.o, x.s
    w.call(s, 'add_mode', sym('neff', pos=True), 'x', w.lst(2, 3), P(2),
           scale=sym('scale', pos=True))
    old = x.state()

    def probe(j):
        def f(I, a, kw):
            t, v = a[0], ZERO
            for st in ('fields', 'fields_nl'):
                for k, c in enumerate(CUB):
                    v = v + sym('probe%d%s%d' % (j, st, k)) * w.e(
                        I.getitem(w.fields(t, st, c), (P(1), P(k + 1))))
            return v
        return Builtin('probe%d' % j, f, nparams=1)
    ps = [probe(j) for j in range(probes)]
    n0 = len(I.pending)
    r = w.call(o, 'scan_power', probes=I.mklist(ps), Ns=P(n), s_min=S0,
               s_max=S1, solver=solver)
    ck.no_raise(I, n0)
    pw = list_items(w, w.item(r, ZERO))
    tr = [list_items(w, v) for v in list_items(w, w.item(r, ONE))]
    ck.record('one power per amplitude', len(pw) == n, WP,
              '%d powers for %d amplitudes' % (len(pw), n))
    ck.record('one list of transmissions per probe',
              len(tr) == probes and all(len(v) == n for v in tr), WP,
              'lengths %s' % [len(v) for v in tr])
    x.compare(old, WP)
    if len(pw) != n or len(tr) != probes or any(len(v) != n for v in tr):
        return
    amps = npf(w, 'logspace', npf(w, 'log10', S0), npf(w, 'log10', S1), P(n))
    for k in range(n):
        t, o2 = x.reference()
        w.call(t, 'add_mode', sym('neff', pos=True), 'x', w.lst(2, 3), P(2),
               scale=sym('scale', pos=True))
        m = w.item(w.get(t, 'modes'), ZERO)
        w.set(m, 'scale', w.item(amps, P(k)))
        w.call(m, 'setup_src', t)
        Win = w.e(w.get(t, 'W_in'))
        ck.eq('power %d is the input power at that amplitude' % k,
              w.e(pw[k]), Win, WP)
        w.call(t, 'solve_fields')
        if solver == 'hybrid':
            c = w.item(w.call(t, 'solve_fields_nl', solver_nl='born'), P(3))
            bad = lt0(P(F(1, 10 ** 10)) - w.e(w.item(c, P(-1))))
            vb = [w.e(I.call(p, [t], {})) for p in ps]
            w.call(t, 'solve_fields_nl', solver_nl='newton')
            vn = [w.e(I.call(p, [t], {})) for p in ps]
            vs = [ite(bad, a, b) for a, b in zip(vn, vb)]
        else:
            w.call(t, 'solve_fields_nl', solver_nl=solver)
            vs = [w.e(I.call(p, [t], {})) for p in ps]
        for j in range(probes):
            ck.eq('transmission %d of probe %d is probe over input power'
                  % (k, j), w.e(tr[j][k]), vs[j] / Win, WP)


def npf(w, name, *a):
    """a NumPy function applied to specification values"""
    return lib.H[lib.canon('numpy.' + name)](w.I, *a)


def run(ck):
    for pol in ('Ez', 'Hz'):
        for n in (2, 3, 4, 5):
            ck.case('%s %d frequencies' % (pol, n), frequency, n, pol)
        ck.case('%s, bar' % pol, frequency, 2, pol, pbar=True)
        ck.case('%s, layers' % pol, frequency, 2, pol, (2, 3))
        ck.case('%s, not solved before' % pol, frequency, 2, pol,
                solved=False)
    ck.case('nonlinear', frequency, 2, 'Ez', (0, 0), True)
    ck.case('linear and nonlinear', frequency, 3, 'Ez', (0, 0), True,
            [('Ez', False), ('Ez', True)])
    for sv in ('newton', 'born', 'hybrid'):
        for n in (2, 3):
            ck.case('power, %s, %d' % (sv, n), power_scan, n, sv)
    ck.case('power, one probe', power_scan, 2, 'newton', probes=1)
    ck.case('power, not solved before', power_scan, 2, 'newton',
            solved=False)


TECHNIQUE = ('abstract scan compared point by point with independently built '
             'problems; contents of the simulation compared before and after')
NOTE = ('All permittivities, sources, objectives, probes, frequencies and '
        'amplitudes; up to five points.  Mode sources are functions of '
        'scale, permittivity and frequency.')
