"""C13: results do not depend on the choice of length unit.

Two symbolic simulations of one physical problem: (dl, L0, src) and
(dl/a, L0*a, src*a^2).  Fields are per length unit, so they scale with a.
"""
from sa.world import *
from checks.c09 import THR, CHI
from checks.c10 import mat, grid

FLOOR = 15
FA = sym('a', pos=True)
COMP = {'Ez': ('Hx', 'Hy', 'Ez'), 'Hz': ('Ex', 'Ey', 'Hz')}
WA = 'angler/linalg.py:construct_A'
WS = SIM + '.solve_fields'
WN = SIM + '.solve_fields_nl'
V = 'probe'


class Pair:
    def __init__(self, ck, pol, npml=(0, 0), nx=NX, ny=NY):
        self.w = w = World(ck)
        self.dims = (P(nx), P(ny))
        eps = w.array('eps', self.dims)
        self.s1 = w.sim(pol, npml, nx, ny, eps=eps, src=None)
        self.s2 = w.sim(pol, npml, nx, ny, eps=eps, src=None, l0=L0 * FA,
                        dl=DL / FA)
        src = w.array('src', self.dims)
        w.set(self.s1, 'src', src)
        w.set(self.s2, 'src', w.I.mkarr(full(self.dims,
                                             w.e(src) * FA * FA)))

    def both(self, name, *a, **kw):
        return (self.w.call(self.s1, name, *a, **kw),
                self.w.call(self.s2, name, *a, **kw))


def probe(m):
    """the matrix applied to an arbitrary vector"""
    if not isinstance(m, Mat) or m.sten() is None:
        raise Undecided('not a stencil matrix')
    return m.apply(generic(Base(V, tuple(m.rd))).e)


def linear(ck, pol, npml, nx=NX, ny=NY):
    u = Pair(ck, pol, npml, nx, ny)
    w = u.w
    A1, A2 = w.get(u.s1, 'A'), w.get(u.s2, 'A')
    ck.eq('system matrix scales as one over the unit',
          probe(A2), probe(A1) * FA, WA)
    D1, D2 = w.derivs(u.s1), w.derivs(u.s2)
    for k in D1:
        ck.eq('derivative %s is per length' % k,
              probe(D2[k]), probe(D1[k]) * FA, WA)
    r1, r2 = u.both('solve_fields')
    for c, x, y in zip(COMP[pol], w.I.items(r1), w.I.items(r2)):
        ck.eq('the same physical %s' % c, w.e(y), w.e(x) * FA, WS)


def flux(ck, pol, d):
    nx, ny, c, wd, first, cnt = line(d)
    u = Pair(ck, pol, (0, 0), nx, ny)
    w = u.w
    u.both('solve_fields')
    p1, p2 = u.both('flux_probe', d, w.lst(*c), wd)
    ck.eq('the same physical power', w.e(p2), w.e(p1) * FA,
          SIM + '.flux_probe')


def mode(ck, pol, d):
    nx, ny, c, wd, first, cnt = line(d)
    u = Pair(ck, pol, (0, 0), nx, ny)
    w = u.w
    got = []
    for s in (u.s1, u.s2):
        w.call(s, 'add_mode', sym('neff', pos=True), d, w.lst(*c), wd)
        w.call(s, 'setup_modes')
        bs = bases_in(w.e(w.get(s, 'src')), 'eigvecs')
        if len(bs) != 1:
            raise Undecided('the source is not one mode profile')
        got.append(bs[0].info[:3])
    (A1, k1, s1), (A2, k2, s2) = got
    where = 'angler/source/mode.py:mode.insert_mode'
    ck.eq('mode equation', probe(A2), probe(A1) * FA * FA, where)
    ck.eq('mode guess', P(s2), P(s1) * FA * FA, where)
    ck.eq('number of modes', P(k2), P(k1), where)


def nonlinear(ck, solver, scale, npml=(0, 0)):
    u = Pair(ck, 'Ez', npml)
    w = u.w
    reg = w.array('nlreg', (NX, NY), real=True, isint=True, binary=True)
    u.both('add_nl', CHI, reg, eps_scale=scale, eps_max=EPSM)
    E1 = w.array('E0', (NX, NY))
    E2 = w.I.mkarr(full((NX, NY), w.e(E1) * FA))
    if solver == 'newton':
        f = w.glob('angler.nonlinear_solvers', 'nl_eq_and_jac')
        a = w.I.items(w.I.call(f, [u.s1], dict(Ez=E1)))
        b = w.I.items(w.I.call(f, [u.s2], dict(Ez=E2)))
        where = 'angler/nonlinear_solvers.py:nl_eq_and_jac'
        v = generic(Base(V, (NX, NY))).e
        ck.eq('residual', grid(w, b[0]), grid(w, a[0]) * FA * FA, where)
        for k in (1, 2):
            ck.eq('Jacobian block %d' % k, mat(b[k]).apply(v),
                  mat(a[k]).apply(v) * FA, where)
        return
    kw = dict(solver_nl=solver, conv_threshold=THR, max_num_iter=P(2))
    a = w.I.items(w.call(u.s1, 'solve_fields_nl', Estart=E1, **kw))
    b = w.I.items(w.call(u.s2, 'solve_fields_nl', Estart=E2, **kw))
    for c, x, y in zip(COMP['Ez'], a, b):
        ck.eq('the same physical nonlinear %s' % c, w.e(y), w.e(x) * FA, WN)
    ck.eq('the same convergence', w.e(b[3]), w.e(a[3]), WN)


def run(ck):
    for pol in ('Ez', 'Hz'):
        for npml in ((0, 0), (2, 0), (0, 3), (3, 2)):
            ck.case('%s, layers %s' % (pol, npml), linear, pol, npml)
        ck.case('%s, one row' % pol, linear, pol, (0, 0), NX, 1)
        for d in ('x', 'y'):
            ck.case('%s, flux %s' % (pol, d), flux, pol, d)
            ck.case('%s, mode %s' % (pol, d), mode, pol, d)
    for sc in (False, True):
        for so in ('born', 'newton'):
            ck.case('%s%s' % (so, ', scaled' if sc else ''), nonlinear, so,
                    sc)
    ck.case('born, layers', nonlinear, 'born', False, (3, 2))


TECHNIQUE = ('homogeneity: operators, sources, solutions and powers of the '
             'same symbolic problem in two length units compared')
NOTE = ('All unit ratios, permittivities, sources, sizes; layer thicknesses '
        '0, 2, 3; two fixed-point iterations, one Newton step.')
