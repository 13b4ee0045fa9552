"""C21: gradient-descent and Adam steps."""
from sa.world import *
from checks.grad import FN, NL

FLOOR = 30
WR = OPT + '.run'
WU = OPT + '._update_rho'
WA = OPT + '._step_adam'
STEP = sym('step', pos=True)
B1 = sym('beta1', pos=True)
B2 = sym('beta2', pos=True)


class statefulgrad:
    """inside, a gradient is an arbitrary array determined by the state of the
    simulation it is asked for"""

    def __init__(self, w, dims):
        self.w, self.dims = w, dims
        self.names = ['angler.gradients.' + f for f in
                      list(FN.values()) + list(NL.values())]

    def __enter__(self):
        w = self.w
        for n in self.names:
            def h(I, f, vs, n=n):
                o = vs.get('optimization')
                if o is None:
                    raise Undecided('gradient without an optimization')
                s = w.get(o, 'simulation')
                return w.array(('gradient', n, I.ekey(w.get(s, 'eps_r')),
                                I.ekey(w.get(s, 'src')),
                                I.ekey(vs.get('Ez', vs.get('Hz', ONE)))),
                               self.dims, real=True)
            w.I.opaque[n] = h

    def __exit__(self, *a):
        for n in self.names:
            self.w.I.opaque.pop(n, None)


def setup(ck, pol, npml, filt, generic=True):
    w = World(ck, generic_ne=generic)
    s = w.sim(pol, npml)
    dims = (NX, NY)
    w.set(s, 'rho', w.array('rho', dims, real=True))
    o = w.optim(s, w.objective([(pol, False)]))
    if filt:
        w.set(o, 'W', Mat(dims, dims, [(Op('filter', dims, dims,
                                           real=True),)]))
    w.set(s, 'eps_r', eps_of(w, o, w.get(s, 'rho')))
    return w, s, o, dims


def eps_of(w, o, rho):
    return w.fcall('angler.filter', 'rho2eps', rho, w.get(o, 'eps_m'),
                   w.get(o, 'W'), eta=w.get(o, 'eta'), beta=w.get(o, 'beta'))


def twin(w, s, o, pol, npml, args=None):
    """a new problem in the same state"""
    sh = w.a(w.get(s, 'eps_r')).shape()
    t = w.sim(pol, npml, sh[0], sh[1], eps=w.I.mkarr(w.a(w.get(s, 'eps_r'))),
              src=None)
    w.set(t, 'src', w.I.mkarr(w.a(w.get(s, 'src'))))
    if w.get(s, 'rho') is not None:
        w.set(t, 'rho', w.I.mkarr(w.a(w.get(s, 'rho'))))
    o2 = w.optim(t, w.objective(args or [(pol, False)]),
                 design=w.get(o, 'design_region'))
    w.set(o2, 'W', w.get(o, 'W'))
    return t, o2


def clip01(x):
    lo = lt0(x)
    hi = lt0(ONE - x)
    return hi + (ONE - lo) * (ONE - hi) * x


def twin_of(w, t, o):
    """the same problem with no cached fields"""
    o2 = w.optim(t, w.objective([(w.get(t, 'pol'), False)]),
                 design=w.get(o, 'design_region'))
    w.set(o2, 'W', w.get(o, 'W'))
    return o2




def pw(w, b, k):
    return w.e(w.I.binop('Pow', b, P(k)))


def expect(w, t, o, n, adam, later=None):
    """objective values, density and permittivity after n steps"""
    I = w.I
    D = w.get(o, 'design_region')
    Js = []
    m = v = ZERO
    for k in range(n):
        Js.append(w.e(w.call(o, 'compute_J', t)))
        g = w.e(w.call(o, 'compute_dJ', t, D))
        if adam:
            m = B1 * m + (ONE - B1) * g
            v = B2 * v + (ONE - B2) * g * g
            # iteration number: 0, 1, 2, ... or 0, K, K+1, ...
            it = P(k) if later is None or k == 0 else later + (k - 1)
            g = m / (ONE - pw(w, B1, it + 1)) / (
                sqrt(v / (ONE - pw(w, B2, it + 1))) + F(1, 10 ** 8))
        x = clip01(w.e(w.get(t, 'rho')) + w.e(D) * STEP * g)
        x = I.mkarr(full((NX, NY), x))
        w.set(t, 'rho', x)
        w.set(t, 'eps_r', eps_of(w, o, x))
        o = twin_of(w, t, o)
    return Js


def steps(ck, method, n, pol='Ez', npml=(0, 0), filt=False, upper=False,
          none=False, later=None):
    w, s, o, dims = setup(ck, pol, npml, filt)
    I = w.I
    with statefulgrad(w, dims):
        if none:
            w.set(s, 'eps_r', w.array('eps', dims))
            w.set(s, 'rho', None)
            rho0 = (w.e(w.get(s, 'eps_r')) - 1) / (EPSM - 1)
        t, o2 = twin(w, s, o, pol, npml)
        if none:
            w.set(t, 'rho', I.mkarr(full(dims, rho0)))
            w.set(t, 'eps_r', eps_of(w, o2, w.get(t, 'rho')))
        Js = expect(w, t, o2, n, method == 'adam', later)
        if later is not None:
            I.cfg['iteration_map'] = (n, 'angler/optimization.py', later)
        n0 = len(I.pending)
        w.call(o, 'run', method=method.upper() if upper else method,
               Nsteps=P(n), step_size=STEP, beta1=B1, beta2=B2)
        ck.no_raise(I, n0)
    ck.eq('density after %d steps' % n, w.e(w.get(s, 'rho')),
          w.e(w.get(t, 'rho')), WU)
    ck.eq('permittivity after %d steps' % n, w.e(w.get(s, 'eps_r')),
          w.e(w.get(t, 'eps_r')), WU)
    ol = w.get(o, 'objfn_list')
    got = list_items(w, ol)
    ck.record('one objective value per iteration', len(got) == n, WR,
              '%d values after %d iterations' % (len(got), n))
    for k in range(min(n, len(got))):
        ck.eq('objective value %d is that before the step' % k, w.e(got[k]),
              Js[k], WR)


def list_items(w, v):
    return list(w.I.iter_list(v))


def adam(ck, it):
    """the moments, called directly"""
    w, s, o, dims = setup(ck, 'Ez', (0, 0), False)
    g, m, v = (w.array(k, dims, real=True) for k in 'gmv')
    e = sym('delta', pos=True)
    n0 = len(w.I.pending)
    r = w.call(o, '_step_adam', g, m, v, it, B1, B2, e)
    ck.no_raise(w.I, n0)
    G, M, V = w.e(g), w.e(m), w.e(v)
    M2 = B1 * M + (ONE - B1) * G
    V2 = B2 * V + (ONE - B2) * G * G
    ck.eq('first moment', w.e(w.item(r, ONE)), M2, WA)
    ck.eq('second moment', w.e(w.item(r, P(2))), V2, WA)
    ck.eq('direction', w.e(w.item(r, ZERO)),
          M2 / (ONE - pw(w, B1, it + 1)) /
          (sqrt(V2 / (ONE - pw(w, B2, it + 1))) + e), WA)


def outside(ck, method, pol, filt):
    """density outside the design region is kept (within the box)"""
    w, s, o, dims = setup(ck, pol, (0, 0), filt)
    with statefulgrad(w, dims):
        rho = w.e(w.get(s, 'rho'))
        D = w.e(w.get(o, 'design_region'))
        w.call(o, 'run', method=method, Nsteps=P(2), step_size=STEP,
               beta1=B1, beta2=B2)
    r = w.e(w.get(s, 'rho'))
    ck.eq('no change outside the design region', r * (ONE - D),
          clip01(rho) * (ONE - D), WU)


def run(ck):
    for pol in ('Ez', 'Hz'):
        for m in ('gd', 'adam'):
            for n in (1, 2):
                ck.case('%s %s %d' % (pol, m, n), steps, m, n, pol)
            ck.case('%s %s with layers, filter' % (pol, m), steps, m, 1, pol,
                    (2, 3), True)
            ck.case('%s %s filter' % (pol, m), steps, m, 2, pol, (0, 0),
                    True)
            ck.case('%s %s outside' % (pol, m), outside, m, pol, False)
    for m in ('gd', 'adam'):
        ck.case('%s upper case' % m, steps, m, 1, upper=True)
        ck.case('%s from a permittivity' % m, steps, m, 1, none=True)
    ck.case('adam three steps', steps, 'adam', 3)
    K = sym('K', isint=True, lb=1)
    for m in ('gd', 'adam'):
        ck.case('%s, steps 0 and K for any K' % m, steps, m, 2, later=K)
    for it in (ZERO, ONE, P(7)):
        ck.case('moments, iteration %s' % show(it), adam, it)
    ck.case('moments, any iteration', adam, sym('it', isint=True, lb=0))


TECHNIQUE = ('one abstract optimization run compared, step by step, with the '
             'required update of an independent problem')
NOTE = ('All densities, permittivities, designs, sources, objectives, step '
        'sizes and moments; up to three iterations.')
