"""C31: invalid choices are rejected before anything changes."""
from sa.world import *
from checks.c24 import Scan

FLOOR = 200
BAD_POL = ('ez', 'hz', 'EZ', 'Ex', 'Hx', 'Ey', 'Hy', 'z', '', 'EzHz', 'TE',
           'TM', 'Ez ', None)
BAD_DIR = ('z', 'xy', 'yx', '', None, '-x', 'horizontal')
BAD_SOLVER = ('scipy.sparse', 'umfpack', 'lu', 'spsolve', '', None)
BAD_NL = ('newton_krylov', 'newtonborn', 'picard', 'kry', '', None)
BAD_KIND = ('shg', 'two_photon', 'kerr2', 'ker', '', None)
BAD_METHOD = ('sgd', 'LBFGSB', 'L-BFGS', '', 'newton', 'adamw')
LA = 'angler/linalg.py:'


def build(ck, what, pol='Ez', om=OM, l0=L0, npml=(0, 0), raw=None):
    w = World(ck)
    eps = w.array('eps', (NX, NY))
    S = w.glob('angler', 'Simulation')
    n = raw(w) if raw else w.lst(*npml)
    w.rejected('%s is rejected' % what, SIM + '._check_inputs',
               lambda: w.I.call(S, [om, eps, DL, n, pol, l0], {}))


def inputs(ck):
    for p in BAD_POL:
        ck.case('polarization %r' % (p,), build, 'polarization %r' % (p,),
                pol=p)
    neg = -sym('negative', pos=True)
    for v, nm in ((neg, 'negative'), (ZERO, 'zero')):
        ck.case('frequency ' + nm, build, 'a frequency that is ' + nm, om=v)
        ck.case('length unit ' + nm, build, 'a length unit that is ' + nm,
                l0=v)
    n = -sym('layers', isint=True, pos=True)
    for npml in ((-1, 0), (0, -1), (-3, -3), (n, 2), (2, n), (n, 0), (0, n)):
        ck.case('layers %s' % ([show(P(q)) for q in npml],), build,
                'a negative layer count', npml=npml)
    for raw, nm in ((lambda w: w.lst(3), 'one number'),
                    (lambda w: w.lst(3, 3, 3), 'three numbers'),
                    (lambda w: w.lst(), 'no number'),
                    (lambda w: P(3), 'a plain number'),
                    (lambda w: None, 'nothing')):
        ck.case('layers: ' + nm, build, 'a layer list of ' + nm, raw=raw)


def refused(ck, what, where, do, prep=None, pol='Ez', nl=True, solved=True):
    """do is refused and leaves the state of the simulation as it was"""
    x = Scan(ck, pol, (0, 0), nl and pol == 'Ez', [(pol, False)], solved)
    if prep:
        prep(x)
    old = x.state()
    x.w.rejected('%s is rejected' % what, where, lambda: do(x))
    x.compare(old, where)


def solver(ck, s, kind):
    w = World(ck)
    A = w.get(w.sim('Ez'), 'A')
    b = w.I.call(w.I.getattr(w.I.mkarr(w.a(w.get(w.sim('Ez'), 'mu_r'))),
                             'reshape'), [(P(-1),)], {})
    if kind == 'direct':
        w.rejected('linear solver %r is rejected' % (s,),
                   LA + 'solver_direct',
                   lambda: w.fcall('angler.linalg', 'solver_direct', A, b,
                                   solver=s))
    else:
        w.rejected('coupled solver %r is rejected' % (s,),
                   LA + 'solver_complex2real',
                   lambda: w.fcall('angler.linalg', 'solver_complex2real', A,
                                   A, b, solver=s))


def system(ck, p):
    w = World(ck)
    s = w.sim('Ez')
    w.rejected('no system is built for polarization %r' % (p,),
               LA + 'construct_A',
               lambda: w.fcall('angler.linalg', 'construct_A', OM,
                               w.get(s, 'xrange'), w.get(s, 'yrange'),
                               w.get(s, 'eps_r'), w.lst(0, 0), p, L0))


def choices(ck):
    for p in BAD_POL:
        ck.case('system %r' % (p,), system, p)
        ck.case('solve %r' % (p,), refused,
                'solving with polarization %r' % (p,), SIM + '.solve_fields',
                lambda x: x.w.call(x.s, 'solve_fields'),
                lambda x, p=p: x.w.set(x.s, 'pol', p), nl=False)
    for s in BAD_SOLVER:
        for k in ('direct', 'coupled'):
            ck.case('%s %r' % (k, s), solver, s, k)
    for s in BAD_NL:
        for solved in (True, False):
            ck.case('nonlinear solver %r%s' % (s, '' if solved else
                                               ', unsolved'),
                    refused, 'nonlinear solver %r' % (s,),
                    SIM + '.solve_fields_nl',
                    lambda x, s=s: x.w.call(x.s, 'solve_fields_nl',
                                            solver_nl=s), solved=solved)
    ck.case('Hz newton', hz, 'newton')
    for d in BAD_DIR:
        for pol in ('Ez', 'Hz'):
            for nl in (False, True):
                if nl and pol == 'Hz':
                    continue
                ck.case('probe %r %s%s' % (d, pol, ' nl' if nl else ''),
                        refused, 'a probe normal to %r' % (d,),
                        SIM + '.flux_probe',
                        lambda x, d=d, nl=nl: x.w.call(
                            x.s, 'flux_probe', d, x.w.lst(3, 3), P(2),
                            nl=nl), pol=pol)
            ck.case('mode %r %s' % (d, pol), mode, d, pol)
    for k in BAD_KIND:
        for sc in (False, True):
            ck.case('nonlinearity %r%s' % (k, ', scaled' if sc else ''),
                    refused, 'nonlinearity %r' % (k,), SIM + '.add_nl',
                    lambda x, k=k, sc=sc: x.w.call(
                        x.s, 'add_nl', sym('chi2', pos=True), x.w.array(
                            'r2', x.dims, real=True), nl_type=k,
                        eps_scale=sc, eps_max=EPSM))
    ck.case('scaled without maximum', refused,
            'a scaled nonlinearity without a maximum', SIM + '.add_nl',
            lambda x: x.w.call(x.s, 'add_nl', sym('chi2', pos=True),
                               x.w.array('r2', x.dims, real=True),
                               eps_scale=True))
    for m in BAD_METHOD:
        for nl in (False, True):
            ck.case('method %r%s' % (m, ', nonlinear' if nl else ''),
                    refused, 'optimization method %r' % (m,), OPT + '.run',
                    lambda x, m=m: x.w.call(x.o, 'run', method=m,
                                            Nsteps=P(1)), nl=nl)
    ck.case('no probes', refused, 'a power scan without probes',
            OPT + '.scan_power', lambda x: x.w.call(x.o, 'scan_power'))


def mode(ck, d, pol):
    """a mode source of unknown direction; the source array stays"""
    w = World(ck)
    s = w.sim(pol)
    old = w.I.ekey(w.get(s, 'src'))

    def do():
        w.call(s, 'add_mode', sym('neff', pos=True), d, w.lst(3, 3), P(2),
               scale=sym('scale', pos=True))
        w.call(s, 'setup_modes')
    M = 'angler/source/mode.py:mode'
    w.rejected('a mode source normal to %r is rejected' % (d,), M, do)
    ck.record('source left as it was',
              w.I.ekey(w.get(s, 'src')) == old or None, M)


def hz(ck, sv):
    """what a solver does not support for Hz it refuses"""
    x = Scan(ck, 'Hz')
    w = x.w
    for n in ('born_solve', 'newton_solve', 'newton_krylov_solve'):
        w.I.opaque.pop('angler.nonlinear_solvers.' + n, None)
    w.call(x.s, 'add_nl', sym('chi2', pos=True),
           w.array('r2', x.dims, real=True))
    w.call(x.s, 'solve_fields')
    old = x.state()
    w.rejected('the %s solver is rejected for Hz' % sv,
               SIM + '.solve_fields_nl',
               lambda: w.call(x.s, 'solve_fields_nl', solver_nl=sv))
    x.compare(old, SIM + '.solve_fields_nl')


def insert(ck, d):
    w = World(ck)
    s = w.sim('Ez')
    m = w.I.call(w.glob('angler.source.mode', 'mode'),
                 [sym('neff', pos=True), d, w.lst(3, 3), P(2)],
                 dict(scale=sym('scale', pos=True)))
    w.rejected('a mode is not inserted normal to %r' % (d,),
               'angler/source/mode.py:mode.insert_mode',
               lambda: w.call(m, 'insert_mode', s, w.get(s, 'src')))


def run(ck):
    inputs(ck)
    choices(ck)
    for d in BAD_DIR:
        ck.case('insert %r' % (d,), insert, d)


TECHNIQUE = ('abstract interpretation of each operation on an invalid choice: '
             'every path must raise, and the state at the raise must equal '
             'the state before')
NOTE = ('Invalid names are representative strings per choice plus None; '
        'numbers are symbolic (any negative frequency, unit, layer count). '
        'Objective components, argument counts and channel parity are '
        'decided in C17 and C26.')
