"""C22: the quasi-Newton optimizer sees a consistent function and gradient."""
from sa.world import *
from checks.c21 import statefulgrad, setup, twin, eps_of, list_items

FLOOR = 30
WL = OPT + '._run_LBFGS'
WS = OPT + '._set_design_region'
WG = OPT + '._get_design_region'


class Run:
    def __init__(self, ck, pol='Ez', npml=(0, 0), filt=False, steps=7,
                 binary=True, method='LBFGS', plan=(), none=False):
        self.ck = ck
        self.pol, self.npml, self.plan = pol, npml, plan
        self.w, self.s, self.o, self.dims = setup(ck, pol, npml, filt)
        self.w.I.cfg['optimizer'] = self.hook
        self.steps = P(steps)
        self.calls = 0
        w = self.w
        if none:
            w.set(self.s, 'rho', None)
            w.set(self.s, 'eps_r', w.array('eps', self.dims, real=True,
                                           pos=True))
            self.rho0 = (w.e(w.get(self.s, 'eps_r')) - 1) / (EPSM - 1)
        else:
            self.rho0 = w.e(w.get(self.s, 'rho'))
        self.D = w.e(w.get(self.o, 'design_region'))
        with statefulgrad(w, self.dims):
            n0 = len(w.I.pending)
            w.call(self.o, 'run', method=method, Nsteps=self.steps)
            ck.no_raise(w.I, n0)
        self.after()

    # ------------------------------------------------------------ packing
    def pack(self, arr):
        """design cells in row-major order"""
        w, I = self.w, self.w.I
        fl = w.call(arr, 'flatten')
        d = w.call(w.get(self.o, 'design_region'), 'flatten')
        return I.getitem(fl, I.compare('Eq', d, ONE))

    def merged(self, x):
        """density with x inside the design region"""
        return self.D * x + (ONE - self.D) * self.rho0

    def state(self, x):
        """a new problem with this density"""
        w = self.w
        t, o2 = twin(w, self.s, self.o, self.pol, self.npml)
        rho = w.I.mkarr(full(self.dims, x))
        w.set(t, 'rho', rho)
        w.set(t, 'eps_r', eps_of(w, o2, rho))
        return t, o2

    # ---------------------------------------------------------- obligations
    def hook(self, I, c):
        ck, w = self.ck, self.w
        self.calls += 1
        self.c = c
        ck.eq('starts from the current density', I.arr(c.x0),
              I.arr(self.pack(I.mkarr(full(self.dims, self.rho0)))), WL)
        self.bounds(c.bounds)
        ck.eq('requested number of iterations', w.e(c.maxiter), self.steps,
              WL)
        if c.grad is None:
            ck.record('gradient supplied', False, WL,
                      'the optimizer approximates the gradient itself')
            raise Skip()
        fresh = {}
        self.last = None
        for what, name in self.plan or (('f', 'A'), ('g', 'A')):
            if name not in fresh:
                fresh[name] = c.x0 if name == '0' else self.pack(
                    w.array('x' + name, self.dims, real=True))
            x = fresh[name]
            full_x = self.rho0 if name == '0' else self.merged(w.e(w.array(
                'x' + name, self.dims, real=True)))
            t, o2 = self.state(full_x)
            J = w.e(w.call(o2, 'compute_J', t))
            if what == 'f':
                v = c.f(I, x)
                ck.eq('function value is minus the objective at the vector',
                      w.e(v), -J, WL)
            elif what == 'g':
                v = c.g(I, x)
                g = w.call(o2, 'compute_dJ', t, w.get(o2, 'design_region'))
                ck.eq('gradient is minus the design part of the gradient at '
                      'the vector', I.arr(v), I.arr(self.pack(I.mkarr(
                          full(self.dims, -w.e(g))))), WL)
            elif what == 'cb':
                c.cb(I, x)
            if what != 'cb':
                ck.eq('vector written into the design region, in order',
                      w.e(w.get(self.s, 'rho')), full_x, WS)
                ck.eq('permittivity of this density',
                      w.e(w.get(self.s, 'eps_r')), w.e(w.get(t, 'eps_r')),
                      WS)
        self.final = w.array('xfinal', self.dims, real=True)
        return self.pack(self.final)

    def bounds(self, b):
        ck, w, I = self.ck, self.w, self.w.I
        if b is None:
            ck.record('bounds', False, WL, 'no bounds are given')
            return
        n = w.e(I.call(I.builtins['len'], [b], {}))
        d = w.e(I.call(I.builtins['len'], [self.c.x0], {}))
        ck.eq('one bound per design cell', n, d, WL)
        k = sym('cell', isint=True, lb=0)
        x = I.getitem(b, k)
        for j, want in ((0, ZERO), (1, ONE)):
            ck.eq(('lower', 'upper')[j] + ' bound',
                  w.e(I.getitem(x, P(j))), want, WL)

    def after(self):
        ck, w = self.ck, self.w
        if self.calls != 1:
            ck.record('one call of the optimizer', None, WL,
                      '%d calls found' % self.calls)
            return
        x = self.merged(w.e(self.final))
        t, o2 = self.state(x)
        ck.eq('final density is the returned one',
              w.e(w.get(self.s, 'rho')), x, WL)
        ck.eq('final permittivity is that of the final density',
              w.e(w.get(self.s, 'eps_r')), w.e(w.get(t, 'eps_r')), WL)


def near(ck, pol, delta):
    """a vector that differs from the current one by a small factor"""
    w, s, o, dims = setup(ck, pol, (0, 0), False, generic=False)
    I = w.I
    D = w.e(w.get(o, 'design_region'))
    rho0 = w.e(w.get(s, 'rho'))
    want = rho0 * (ONE + delta * D)

    def hook(I, c):
        v = I.binop('Mult', c.x0, ONE + delta)
        c.f(I, v)
        ck.eq('a vector that differs by a factor of 1%+g is used as it is'
              % float(delta), w.e(w.get(s, 'rho')), want, WS)
        raise Skip()
    I.cfg.update(optimizer=hook, sizes=True)
    with statefulgrad(w, dims):
        w.call(o, 'run', method='LBFGS', Nsteps=P(5))


def play(ck, *a, **kw):
    Run(ck, *a, **kw)


PLANS = {
    'start': (('f', '0'), ('g', '0')),
    'line search': (('f', 'A'), ('f', 'B'), ('g', 'B'), ('f', 'A')),
    'gradient first': (('g', 'A'), ('f', 'A')),
    'gradient elsewhere': (('f', 'A'), ('g', 'B'), ('f', 'A')),
    'with callback': (('f', 'A'), ('g', 'A'), ('cb', 'A'), ('f', 'B'),
                      ('g', 'B'), ('cb', 'B')),
    'callback with another vector': (('f', 'A'), ('g', 'A'), ('f', 'B'),
                                     ('cb', 'A'), ('g', 'B'), ('f', 'A')),
    'repeated': (('f', 'A'), ('f', 'A'), ('g', 'A'), ('g', 'A')),
}


def run(ck):
    for pol in ('Ez', 'Hz'):
        for name, plan in PLANS.items():
            ck.case('%s %s' % (pol, name), play, pol, plan=plan)
        ck.case('%s filter' % pol, play, pol, filt=True,
                plan=PLANS['line search'])
        ck.case('%s layers' % pol, play, pol, (2, 3),
                plan=PLANS['with callback'])
    ck.case('any number of steps', play, steps=sym('Nsteps', isint=True,
                                                   lb=1))
    for d in (F(1, 10 ** 8), F(-1, 10 ** 6)):
        ck.case('nearby vector %g' % d, near, 'Ez', d)
    ck.case('lower case', play, method='lbfgs')
    ck.case('from a permittivity', play, none=True)


TECHNIQUE = ('the closures handed to the optimizer are abstractly called on '
             'arbitrary vectors and compared with an independent problem')
NOTE = ('All densities, designs, vectors, objectives; the listed orders of '
        'function, gradient and callback calls; vectors that differ do so by '
        'more than the relative 1e-10 the code skips. Decided for row-major '
        'packing of the design cells; another consistent packing is reported '
        'undecided.')
