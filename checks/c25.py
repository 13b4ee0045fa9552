"""C25: index-shift limiting and source bookkeeping."""
from sa.world import *
from checks.c21 import statefulgrad, list_items, eps_of, pw
from checks.c24 import Scan, npf

FLOOR = 40
WI = 'angler/simulation.py:Simulation.compute_index_shift'
WS = OPT + '._set_source_amplitude'
MAXS = sym('max_shift', pos=True)
MARGIN = sym('margin', pos=True)


def reference_shift(w, t):
    """index shift of a new problem, from its definition"""
    w.call(t, 'solve_fields')
    w.call(t, 'solve_fields_nl')
    E = w.e(w.fields(t, 'fields_nl', 'Ez'))
    eps = w.e(w.get(t, 'eps_r'))
    return E, eps


def shift(ck, npml=(0, 0), prior=(), cplx=False):
    x = Scan(ck, 'Ez', npml, True, [('Ez', True)], bool(prior))
    w, I, s = x.w, x.w.I, x.s
    for p in prior:
        if p == 'src':
            w.set(s, 'src', w.array('src2', x.dims))
        elif p == 'eps':
            w.set(s, 'eps_r', w.array('eps2', x.dims, real=not cplx,
                                      pos=not cplx))
        elif p == 'shift':
            w.call(s, 'compute_index_shift')
    t, o2 = x.reference()
    E, eps = reference_shift(w, t)
    dE = 3 * sym('chi', pos=True) / L0 ** 2 * w.e(x.reg) * absval(E) * absval(E)
    want = absval(sqrt(real(eps + dE)) - sqrt(real(eps)))
    src, e0 = w.e(w.get(s, 'src')), w.e(w.get(s, 'eps_r'))
    n0 = len(I.pending)
    v = w.call(s, 'compute_index_shift')
    ck.no_raise(I, n0)
    ck.holds('shape of the permittivity', tuple(w.a(v).shape()) == x.dims,
             WI)
    ck.eq('refractive index shift', w.e(v), want, WI)
    ck.eq('source unchanged', w.e(w.get(s, 'src')), src, WI)
    ck.eq('permittivity unchanged', w.e(w.get(s, 'eps_r')), e0, WI)


class Opt(Scan):
    def __init__(self, ck, limited, npml=(0, 0)):
        super().__init__(ck, 'Ez', npml, True, [('Ez', True)], False)
        w = self.w
        self.o = w.optim(self.s, w.objective(self.args),
                         **({'max_ind_shift': MAXS} if limited else {}))
        w.set(self.s, 'eps_r', eps_of(w, self.o, w.get(self.s, 'rho')))

    def amp(self):
        w = self.w
        return w.e(npf(w, 'max', npf(w, 'abs', w.get(self.s, 'src'))))

    def ratio(self):
        """allowed over actual shift in the present state"""
        w = self.w
        t, _ = self.reference()
        dn = w.call(t, 'compute_index_shift')
        return MAXS / w.e(npf(w, 'max', dn))


def limiter(ck, times=1, npml=(0, 0), margin=True, limited=True):
    x = Opt(ck, limited, npml)
    w, I, s, o = x.w, x.w.I, x.s, x.o
    for k in range(times):
        src = w.e(w.get(s, 'src'))
        amp = x.amp()
        r = sqrt(x.ratio()) if limited else ONE
        n0 = len(I.pending)
        if margin:
            w.call(o, '_set_source_amplitude', MARGIN)
        else:
            w.call(o, '_set_source_amplitude')
        ck.no_raise(I, n0)
        new = w.e(w.get(s, 'src'))
        amps = list_items(w, w.get(o, 'src_amplitudes'))
        ck.record('one amplitude recorded', len(amps) == k + 1, WS,
                  '%d recorded after %d calls' % (len(amps), k + 1))
        if len(amps) == k + 1:
            ck.eq('recorded amplitude is that of the source in force',
                  w.e(amps[k]), amp, WS)
        if not limited:
            ck.eq('source unchanged without a limit', new, src, WS)
        elif margin:
            ck.eq('source scaled to the allowed shift, less the margin', new,
                  src * (r - MARGIN), WS)
        else:
            small(ck, new, src, r)


def small(ck, new, src, r):
    """new == src * (r - c) with a small c >= 0"""
    d = (src * r - new) / src
    c = d.const()
    if c is None:
        ck.eq('source scaled to the allowed shift, less a small margin', new,
              src * (r - F(1, 100)), WS)
    else:
        ck.record('source scaled to the allowed shift, less a small margin',
                  0 <= c <= F(1, 10), WS, 'margin %s' % c)


def runs(ck, method, limited, n=1):
    x = Opt(ck, limited)
    w, I, s, o = x.w, x.w.I, x.s, x.o
    src = w.e(w.get(s, 'src'))
    amp = x.amp()
    cbs = []

    def opt(I, c):
        v = w.call(o, '_get_design_region', w.array('x1', x.dims, real=True))
        for k in range(n):
            c.f(I, c.x0)
            c.g(I, c.x0)
            c.cb(I, c.x0)
        return c.x0
    w.I.cfg['optimizer'] = opt
    r0 = sqrt(x.ratio()) if limited else ONE
    with statefulgrad(w, x.dims):
        n0 = len(I.pending)
        w.call(o, 'run', method=method, Nsteps=P(n),
               step_size=sym('step', pos=True), beta1=sym('b1', pos=True),
               beta2=sym('b2', pos=True))
        ck.no_raise(I, n0)
    amps = list_items(w, w.get(o, 'src_amplitudes'))
    ck.record('one amplitude per iteration', len(amps) == n, WS,
              '%d amplitudes after %d iterations' % (len(amps), n))
    objs = list_items(w, w.get(o, 'objfn_list'))
    ck.record('as many amplitudes as objective values',
              len(amps) == len(objs), WS, '%d and %d' % (len(amps),
                                                         len(objs)))
    if amps:
        ck.eq('first amplitude is that of the first objective value',
              w.e(amps[0]), amp, WS)
    if not limited:
        for a in amps[1:]:
            ck.eq('amplitude constant without a limit', w.e(a), amp, WS)
        ck.eq('source unchanged without a limit', w.e(w.get(s, 'src')), src,
              WS)
    elif n == 1:
        small(ck, w.e(w.get(s, 'src')), src, r0)


def run(ck):
    ck.case('shift', shift)
    ck.case('shift, layers', shift, (2, 3))
    for p in (('src',), ('eps',), ('shift',), ('shift', 'src'),
              ('shift', 'eps')):
        ck.case('shift after %s' % ', '.join(p), shift, prior=p)
    ck.case('shift, complex permittivity', shift, prior=('eps',), cplx=True)
    for lim in (True, False):
        t = 'limited' if lim else 'unlimited'
        for m in (True, False):
            ck.case('%s, margin %s' % (t, m), limiter, margin=m, limited=lim)
        ck.case('%s twice' % t, limiter, 2, limited=lim)
        ck.case('%s, layers' % t, limiter, npml=(2, 3), limited=lim)
        for m in ('gd', 'adam', 'lbfgs'):
            ck.case('%s %s' % (t, m), runs, m, lim)
            if not lim:
                ck.case('%s %s, three steps' % (t, m), runs, m, lim, 3)


TECHNIQUE = ('abstract call compared with the definition evaluated on an '
             'independent problem; recorded lists counted per iteration')
NOTE = ('All permittivities, sources, densities, limits and margins; the '
        'nonlinear solution is an arbitrary function of the problem.')
