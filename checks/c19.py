"""C19: density to permittivity map: endpoints, monotone, exact derivative."""
import random
from sa.world import *
from sa.sample import Model

FLOOR = 25
FI = 'angler.filter'
UT = 'angler.utils'
X = sym('rhot', real=True)
XA = next(iter(X.t))[0][0]
DIMS = (NX, NY)


def at(fn):
    return 'angler/%s.py:%s' % (fn[0].split('.')[1], fn[1])


def grid_of(w, e=X):
    """an array whose cells all hold the density x"""
    return w.I.mkarr(full(DIMS, e))


def known_slope(eta, beta):
    t = tanh(beta * (X - eta))
    return beta * (ONE - t * t) / (tanh(beta * eta) +
                                   tanh(beta * (ONE - eta)))


def slope_sign(d, eta, beta):
    """True: increasing, proved; False: decreasing somewhere; None"""
    if equal(d, known_slope(eta, beta)) is True:
        return True, ''
    if tainted(d):
        return None, ''
    rng = random.Random(7)
    for k in range(60):
        m = Model(k)
        env = dict(x=rng.random(), eta=rng.choice((.1, .5, .9, rng.random())),
                   beta=rng.choice((1e-2, .5, 3, 10)))
        for p, v in ((X, env['x']), (eta, env['eta']), (beta, env['beta'])):
            if p.const() is None:
                m.env[next(iter(p.t))[0][0]] = v
        try:
            v = m.poly(d)[0]
        except Exception:                                   # noqa: B902
            return None, ''
        if isinstance(v, complex):
            v = v.real
        if v < -1e-9:
            return False, 'slope %g at %s' % (v, env)
    return None, ''


def subst(e, v):
    return deep(e, {XA: P(v)})


def call(w, fn, *a, **kw):
    return w.fcall(fn[0], fn[1], *a, **kw)


def projection(ck, fn, dfn, how, kw, arr=True):
    """endpoints, monotone, derivative of one projection function"""
    w = World(ck)
    v = call(w, fn, grid_of(w) if arr else X, **kw)
    f = w.e(v)
    where = at(fn)
    if arr:
        ck.holds('keeps the shape (%s)' % how,
                 tuple(w.a(v).shape()) == DIMS, where)
    ck.eq('density zero stays zero (%s)' % how, subst(f, 0), ZERO, where)
    ck.eq('density one stays one (%s)' % how, subst(f, 1), ONE, where)
    ck.holds('stays real (%s)' % how, is_real(f) or None, where)
    eta, beta = kw.get('eta', F(1, 2)), kw.get('beta', P(100))
    d = diff(f, XA)
    s, why = slope_sign(d, P(eta), P(beta))
    ck.holds('increasing (%s)' % how, s, where, why)
    if dfn is None:
        return
    rho = w.array('rho', DIMS, real=True)
    g = w.a(call(w, dfn, rho if arr else X, **kw))
    want = deep(d, {XA: w.e(rho)}) if arr else d
    if arr:
        ck.holds('one derivative per cell (%s)' % how,
                 g.size() == NX * NY if hasattr(g, 'size') else None,
                 at(dfn))
        g = reshape(g, list(DIMS))
    ck.eq('derivative is exact (%s)' % how, g.e, want, at(dfn))


def affine(ck, mod, to_eps, to_rho, deriv):
    w = World(ck)
    eps = w.e(call(w, (mod, to_eps), grid_of(w), EPSM))
    where = at((mod, to_eps))
    ck.eq('density zero is air', subst(eps, 0), ONE, where)
    ck.eq('density one is the material', subst(eps, 1), EPSM, where)
    ck.eq('linear in between', eps, ONE + X * (EPSM - 1), where)
    back_ = w.e(call(w, (mod, to_rho), w.I.mkarr(full(DIMS, eps)), EPSM))
    ck.eq('permittivity to density undoes density to permittivity', back_,
          X, at((mod, to_rho)))
    r = w.e(call(w, (mod, to_rho), grid_of(w), EPSM))
    ck.eq('density to permittivity undoes permittivity to density',
          w.e(call(w, (mod, to_eps), w.I.mkarr(full(DIMS, r)), EPSM)), X,
          where)
    d = w.e(call(w, (mod, deriv), grid_of(w), EPSM))
    ck.eq('derivative is exact', d, diff(eps, XA), at((mod, deriv)))


def whole(ck, how, kw, mat, npos=False):
    """rho2eps is filter, then projection, then material"""
    w = World(ck)
    W = Mat(DIMS, DIMS, [(Op('filter', DIMS, DIMS, real=True),)]) \
        if mat else mdiag(DIMS, ONE)
    rho = w.array('rho', DIMS, real=True)
    where = FI.replace('.', '/') + '.py:rho2eps'
    v = call(w, (FI, 'rho2eps'), rho, EPSM, W, **kw) if npos else \
        call(w, (FI, 'rho2eps'), rho=rho, eps_m=EPSM, W=W, **kw)
    ck.holds('keeps the shape', tuple(w.a(v).shape()) == DIMS, where)
    rt = call(w, (FI, 'rho2rhot'), rho, W)
    ck.eq('filtered density is the filter matrix times the density',
          w.e(rt), W.apply(w.e(rho)), where.replace('rho2eps', 'rho2rhot'))
    ck.eq('filter derivative is the filter matrix',
          call(w, (FI, 'drhot_drho'), W), W,
          where.replace('rho2eps', 'drhot_drho'))
    rb = call(w, (FI, 'rhot2rhob'), rt, **kw)
    ck.eq('permittivity is filter, projection, material (%s)' % how,
          w.e(v), w.e(call(w, (FI, 'rhob2eps'), rb, EPSM)), where)
    one = w.I.mkarr(full(DIMS, ONE))
    zero = w.I.mkarr(full(DIMS, ZERO))
    if not mat:
        for x, want in ((one, EPSM), (zero, ONE)):
            ck.eq('endpoint', w.e(call(w, (FI, 'rho2eps'), rho=x, eps_m=EPSM,
                                       W=W, **kw)), want, where)
        ck.eq('without filter, one cell maps to one cell', w.e(v),
              ONE + deep(w.e(call(w, (FI, 'rhot2rhob'), grid_of(w), **kw)),
                         {XA: w.e(rho)}) * (EPSM - 1), where)


def copies(ck, how, kw, arr):
    """the utilities' projection is the one of the filter"""
    w = World(ck)
    x = grid_of(w) if arr else X
    ck.eq('utilities project alike (%s)' % how,
          w.e(call(w, (UT, 'rho_bar'), x, **kw)),
          w.e(call(w, (FI, 'rhot2rhob'), x, **kw)), at((UT, 'rho_bar')))


KWS = (('both given', dict(eta=ETA, beta=BETA)), ('defaults', {}),
       ('threshold given', dict(eta=ETA)), ('strength given',
                                            dict(beta=BETA)),
       ('threshold one', dict(eta=ONE, beta=BETA)),
       ('threshold zero', dict(eta=ZERO, beta=BETA)))


def run(ck):
    for how, kw in KWS:
        for arr in (True, False):
            t = '%s%s' % (how, '' if arr else ', scalar')
            ck.case('filter, ' + t, projection, (FI, 'rhot2rhob'),
                    (FI, 'drhob_drhot') if arr else None, how, kw, arr)
            ck.case('utilities, ' + t, projection, (UT, 'rho_bar'),
                    (UT, 'drho_bar_drho'), how, kw, arr)
            ck.case('copies, ' + t, copies, how, kw, arr)
        for m in (True, False):
            ck.case('chain, %s, %s' % (how, 'filter' if m else 'no filter'),
                    whole, how, kw, m)
            ck.case('chain by position, %s' % how, whole, how, kw, m, True)
    ck.case('material, filter', affine, FI, 'rhob2eps', 'eps2rho',
            'deps_drhob')
    ck.case('material, utilities', affine, UT, 'rho_bar2eps', 'eps2rho_bar',
            'deps_drho_bar')


TECHNIQUE = ('the maps read off as expressions of one density value; '
             'endpoints substituted, derivative by symbolic differentiation')
NOTE = ('All densities, strengths, thresholds and material values; the slope '
        'sign is proved for the present formula and otherwise refuted or '
        'left undecided.')
