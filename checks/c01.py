"""C01: the solved fields satisfy the discrete Maxwell equations.

Relational: whatever linear system A x = b the code assembles and however the
other two components are computed from x, the residual of the Maxwell
equation that is not satisfied by construction must be a multiple of A x - b.
"""
from sa.world import *

FLOOR = 10
W = SIM + '.solve_fields'
COMP = {'Ez': ('Hx', 'Hy', 'Ez'), 'Hz': ('Ex', 'Ey', 'Hz')}


def residual(ck, w, s, pol, f, D, eps, src, name):
    """f: returned component elements; D: difference operators (callables)"""
    e0, m0 = w.eps0() * L0, w.mu0() * L0
    x, y, z = f
    bs = bases_in(z, 'solve')
    if len(bs) != 1:
        raise Undecided('the field is not the solution of one linear system')
    b = bs[0]
    X = elem(b, [ix(i) for i in range(len(b.dims))])
    m, rhs = b.info
    sysm = m.apply(X) - rhs
    if pol == 'Ez':
        ck.eq('%s: dEz/dy = -i w mu Hx' % name, D['yb'](z),
              -J * OM * m0 * x, W)
        ck.eq('%s: dEz/dx = +i w mu Hy' % name, D['xb'](z),
              J * OM * m0 * y, W)
        R = D['xf'](y) - D['yf'](x) - J * OM * e0 * eps * z - src
    else:
        ck.eq('%s: dHz/dy = +i w eps Ex' % name, D['yb'](z),
              J * OM * e0 * eps * x, W)
        ck.eq('%s: dHz/dx = -i w eps Ey' % name, D['xb'](z),
              -J * OM * e0 * eps * y, W)
        R = D['xf'](y) - D['yf'](x) + J * OM * m0 * z + src
    a = next(iter(X.t))[0][0]
    c1, c2 = coeff_of(R, a), coeff_of(sysm, a)
    if c1.is_zero() or c2.is_zero():
        return ck.record('%s: curl H equation is the system solved' % name,
                         False, W, 'the unknown drops out of the equation')
    n = 'curl H = i w eps E + source' if pol == 'Ez' else \
        'curl E = -i w mu H - source'
    ck.eq('%s: %s is the system solved' % (name, n), R * c2, sysm * c1, W)


def case(ck, pol, npml, nx=NX, ny=NY):
    w = World(ck, name_profiles=any(npml))
    s = w.sim(pol, npml, nx, ny)
    dims = (P(nx), P(ny))
    src = w.e(w.get(s, 'src'))
    eps = w.e(w.eps_ref)
    n0 = len(w.I.pending)
    r = w.call(s, 'solve_fields')
    ck.no_raise(w.I, n0)
    v = w.I.items(r)
    f = [w.e(q) for q in v]
    shp = [w.a(q).shape() for q in v]
    ck.holds('fields have the shape of the grid',
             all(tuple(q) == dims for q in shp), W, 'shapes %s' % (shp,))
    if not any(npml):
        two = [k for k in range(2) if dims[k].const() != 1]
        pos = {k: i for i, k in enumerate(two)}
        dd = tuple(dims[k] for k in two)

        def mk(d, fwd):
            if d not in pos:
                return lambda e: ZERO

            def g(e):
                sh = [ZERO] * len(dd)
                sh[pos[d]] = ONE if fwd else -ONE
                q = Sten(dd, {tuple(sh): ONE}).apply(e)
                return (q - e) / DL if fwd else (e - q) / DL
            return g
        D = {'xf': mk(0, True), 'xb': mk(0, False), 'yf': mk(1, True),
             'yb': mk(1, False)}
        nm = 'no absorbing layers'
    else:
        dv = w.derivs(s)
        D = {k: (lambda e, q=dv['D' + k]: q.apply(e))
             for k in ('xf', 'xb', 'yf', 'yb')}
        nm = 'stretched operators'
    residual(ck, w, s, pol, f, D, eps, src, nm)
    for c, q in zip(COMP[pol], f):
        st = w.fields(s, 'fields', c)
        if st is None:
            ck.record('returned %s is the stored one' % c, False, W,
                      'nothing is stored')
        else:
            ck.eq('returned %s is the stored one' % c, w.e(st), q, W)


def fresh(ck, pol, one_d=False):
    """before any source is set"""
    w = World(ck)
    if one_d:
        s = w.sim(pol, (0, 0), NX, 1, eps=w.array('eps', (NX,)), src=None)
        dims = (NX, ONE)
    else:
        s = w.sim(pol, (0, 0), src=None)
        dims = (NX, NY)
    a = w.a(w.get(s, 'src'))
    ck.holds('the source array has the shape of the grid',
             tuple(a.shape()) == dims, SIM + '.__init__',
             'shape %s' % (a.shape(),))
    ck.eq('the source is zero to begin with', a.e, ZERO, SIM + '.__init__')
    ck.holds('the source array can hold complex amplitudes', a.kind == 'c',
             SIM + '.__init__')
    n0 = len(w.I.pending)
    r = w.I.items(w.call(s, 'solve_fields'))
    ck.no_raise(w.I, n0)
    for q in r:
        ck.eq('without a source the fields are zero', w.e(q), ZERO, W)


def averaged(ck):
    """Hz with the permittivity averaged to the cell edges"""
    w = World(ck)
    s = w.sim('Hz', (0, 0))
    eps = w.e(w.eps_ref)
    src = w.e(w.get(s, 'src'))
    kw = dict(averaging=True)
    r = w.I.items(w.fcall(
        'angler.linalg', 'construct_A', OM, w.get(s, 'xrange'),
        w.get(s, 'yrange'), w.get(s, 'eps_r'), w.lst(0, 0), 'Hz', L0, **kw))
    w.set(s, 'A', r[0])
    f = [w.e(q) for q in w.I.items(w.call(s, 'solve_fields', **kw))]
    D = {'xf': lambda e: fdiff(e, 0), 'xb': lambda e: bdiff(e, 0),
         'yf': lambda e: fdiff(e, 1), 'yb': lambda e: bdiff(e, 1)}
    x, y, z = f
    b = bases_in(z, 'solve')[0]
    X = elem(b, [ix(0), ix(1)])
    m, rhs = b.info
    e0, m0 = w.eps0() * L0, w.mu0() * L0
    back = [Sten((NX, NY), {k: ONE}).apply(eps) for k in (
        (-ONE, ZERO), (ZERO, -ONE))]
    ck.eq('edge averaged: dHz/dy = +i w eps Ex', D['yb'](z),
          J * OM * e0 * (eps + back[1]) / 2 * x, W)
    ck.eq('edge averaged: dHz/dx = -i w eps Ey', D['xb'](z),
          -J * OM * e0 * (eps + back[0]) / 2 * y, W)
    R = D['xf'](y) - D['yf'](x) + J * OM * m0 * z + src
    S = m.apply(X) - rhs
    a = next(iter(X.t))[0][0]
    ck.eq('edge averaged: curl E = -i w mu H - source is the system solved',
          R * coeff_of(S, a), S * coeff_of(R, a), W)


def const_case(ck):
    w = World(ck)
    for n, ref in (('EPSILON_0', '8.8541878e-12'), ('MU_0', '1.25663706e-6'),
                   ('C_0', '299792458'), ('ETA_0', '376.730313')):
        v = w.num('angler.constants', n)
        c = v.const()
        if c is None:
            c = deep(v, {next(iter(PI.t))[0][0]: P(F('3.14159265358979'))}
                     ).const()
        if c is None:
            try:
                c = F(float_of(v))
            except Exception:
                c = None
        r = F(ref)
        ck.holds('%s has its SI value' % n,
                 None if c is None else abs(c - r) < r * F(1, 100000),
                 'angler/constants.py:' + n, 'value %s' % show(v))


def float_of(p):
    """numeric value of a constant expression with rational powers"""
    t = 0.0
    for m, c in p.t.items():
        v = float(c)
        for a, x in m:
            if a.kind == 'pw':
                v *= float_of(a.args[0]) ** float(x)
            elif a.kind == 'sym' and a.args[0] == 'pi':
                v *= 3.141592653589793 ** float(x)
            else:
                raise Undecided('not a constant')
        t += v
    return t


def run(ck):
    ck.case('constants', const_case)
    for pol in ('Ez', 'Hz'):
        ck.case('%s, 2D' % pol, case, pol, (0, 0))
        ck.case('%s, one row' % pol, case, pol, (0, 0), 1, NY)
        ck.case('%s, one column' % pol, case, pol, (0, 0), NX, 1)
        ck.case('%s, no source yet' % pol, fresh, pol)
        ck.case('%s, no source yet, 1D' % pol, fresh, pol, True)
        ck.case('%s, layers' % pol, case, pol, (2, 3))
    ck.case('Hz, averaged permittivity', averaged)


TECHNIQUE = ('normal-form identity between the Maxwell residual of the '
             'returned components and the assembled linear system')
NOTE = ('Holds for all permittivities, sources, frequencies, spacings, '
        'length units and grid sizes >= 5 (and one-cell axes), both '
        'polarizations. Trusts the array/sparse-matrix models in sa/ and '
        'exact arithmetic (rounding is not modelled).')
