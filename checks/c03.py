"""C03: absorbing layers.

The stretching factors are read off the operators the simulation works with
(coefficient of the neighbouring cell times the spacing) and their piecewise
normal form is evaluated in each region of the axis, for symbolic grid size,
layer thickness, frequency and spacing.
"""
import os
from sa.world import *

FLOOR = 20
W = 'angler/pml.py:create_sfactor'
WS = 'angler/pml.py:S_create'
PX = sym('px', isint=True, lb=1)
PY = sym('py', isint=True, lb=1)
T = sym('t', isint=True, lb=0)
U = sym('u', isint=True, lb=0)
V = sym('v', isint=True, lb=0)


def atom(p):
    return next(iter(p.t))[0][0]


def regions(ax, p, n):
    """name -> substitution making every layer condition decidable"""
    i = ixa(ax)
    lo = T + U + 1
    return {
        'lower layer': {i: T, p: lo, n: lo * 2 + 1 + V},
        'lower edge': {i: lo, p: lo, n: lo * 2 + 1 + V},
        'middle': {i: PXX + T, p: PXX, n: PXX * 2 + T + U + 1},
        'upper layer': {i: lo + 1 + V + T, p: lo, n: lo * 2 + 1 + V},
    }


PXX = sym('p', isint=True, lb=1)


def stretch(m, ax, fwd):
    """1/(dl*coefficient of the neighbour) -> (s^-1, other coefficients)"""
    st = m.sten()
    if st is None:
        raise Undecided('operator is not a stencil')
    k = [ZERO, ZERO]
    k[ax] = ONE if fwd else -ONE
    k = tuple(wrap_index(x, d) for x, d in zip(k, st.dims))
    z = (ZERO, ZERO)
    rest = [q for q in st.t if q not in (k, z)]
    return st.t.get(k, ZERO), st.t.get(z, ZERO), rest


def axis_case(ck, w, D, ax, p, n, tag):
    nm = 'xy'[ax]
    pa, na = atom(p), atom(n)
    S = {}
    for fwd in (True, False):
        key = 'D%s%s' % (nm, 'f' if fwd else 'b')
        c1, c0, rest = stretch(D[key], ax, fwd)
        ck.holds('%s couples nearest neighbours along %s only' % (key, nm),
                 not rest, WS, 'other couplings %s' % (rest,))
        ck.eq('%s is a stretched first difference' % key, c1 + c0, ZERO, WS)
        ck.holds('%s depends on its own coordinate and layer only' % key,
                 not ({ixa(1 - ax), atom(PY if ax == 0 else PX),
                       atom(NY if ax == 0 else NX)} & mentions(c1)), WS,
                 show(c1))
        sg = ONE if fwd else -ONE
        for r, mp in regions(ax, pa, na).items():
            q = deep(c1, mp)
            if ind_atoms(q):
                raise Undecided('layer conditions not decided: %s' % show(q))
            S[fwd, r] = power(q * DL * sg, -1)
    for fwd in (True, False):
        kind = 'forward' if fwd else 'backward'
        ck.eq('%s %s: no stretching between the layers' % (nm, kind),
              S[fwd, 'middle'], ONE, W)
        ck.eq('%s %s: no stretching next to the lower layer' % (nm, kind),
              S[fwd, 'lower edge'], ONE, W)
        for r in ('lower layer', 'upper layer'):
            s = S[fwd, r]
            ck.eq('%s %s, %s: real part one' % (nm, kind, r), real(s), ONE,
                  W)
            g = sign_of(imag(s))
            if g is None:
                g = sign_of(deep(imag(s), {}))
            want = (-1,) if fwd or r == 'lower layer' else (-1, -2)
            ck.holds('%s %s, %s: attenuating (negative imaginary part)'
                     % (nm, kind, r), None if g is None else g in want, W,
                     'imaginary part %s' % show(imag(s)))
    # mirror: forward cell i <-> n-1-i; lower i=T  <-> upper index t'=u
    swap = {atom(T): U, atom(U): T}
    ck.eq('%s forward: mirror symmetric about the centre' % nm,
          deep(S[True, 'upper layer'], swap), S[True, 'lower layer'], W)
    # backward node i <-> n-i: lower i=T+1 (depth p-i), upper t'=p-i
    a = deep(S[False, 'lower layer'], {atom(T): T + 1})
    b = deep(S[False, 'upper layer'], {atom(T): U + 1, atom(U): T})
    ck.eq('%s backward: mirror symmetric about the centre' % nm, a, b, W)
    half = {atom(T): T - F(1, 2), atom(U): U + F(1, 2)}
    ck.eq('%s: backward profile is the forward one half a cell earlier, '
          'lower layer' % nm, S[False, 'lower layer'],
          deep(S[True, 'lower layer'], half), W)
    ck.eq('%s: backward profile is the forward one half a cell earlier, '
          'upper layer' % nm, S[False, 'upper layer'],
          deep(S[True, 'upper layer'], half), W)
    strength(ck, w, nm, S[False, 'lower layer'], p)
    # not the trivial profile
    ck.holds('%s: the layer does attenuate' % nm,
             not imag(S[True, 'lower layer']).is_zero(), W)
    return S


def strength(ck, w, nm, s, p):
    """The conductivity -Im(s) w eps0 integrated over the depth of the layer
    is -lnR/(2 eta0): depth d of cell i is p - i."""
    d = sym('depth', real=True)
    q = deep(-imag(s), {atom(T): PXX - d, atom(U): d - 1}) * OM * w.eps0() \
        * L0 * DL
    da = atom(d)
    tot = ZERO
    for m, c in q.t.items():
        k, rest = F(0), []
        for a, e in m:
            if a is da:
                k = e
            else:
                rest.append((a, e))
                if da in mentions(a):
                    raise Undecided('conductivity not a polynomial in depth')
        if not isinstance(k, (int, F)) or k < 0:
            raise Undecided('conductivity not a polynomial in depth')
        r = P(c)
        for a, e in rest:
            r = r * power(P(a), e)
        tot = tot + r * power(PXX, k + 1) * F(1, 1) / (k + 1)
    lnr = designed(w)
    eta0 = w.num('angler.constants', 'ETA_0')
    if lnr is None:
        ck.holds('%s: the attenuation of a whole layer does not depend on '
                 'thickness, frequency, spacing or unit' % nm,
                 not mentions(tot * eta0) & {atom(x) for x in (
                     PXX, NX, NY, DL, OM, L0)}, W, show(tot))
    else:
        ck.eq('%s: the attenuation of a whole layer is the designed one'
              % nm, tot * eta0 * 2, -lnr, W)


def designed(w):
    """default of the parameter lnR, wherever angler/pml.py declares it"""
    import ast
    src = open(os.path.join(w.I.root, 'angler', 'pml.py'),
               encoding='utf-8').read()
    for n in ast.walk(ast.parse(src)):
        if isinstance(n, ast.FunctionDef):
            a = n.args.args
            for x, v in zip(reversed(a), reversed(n.args.defaults)):
                if x.arg == 'lnR':
                    try:
                        return P(F(repr(ast.literal_eval(v))))
                    except (ValueError, TypeError):
                        return None
    return None


def small(ck, n, p):
    """every cell of an axis of n cells with layers of p"""
    for ax in (0, 1):
        w = World(ck)
        if ax == 0:
            s = w.sim('Ez', (p, 0), n, NY, src=None)
        else:
            s = w.sim('Ez', (0, p), NX, n, src=None)
        D = w.derivs(s)
        nm = 'xy'[ax]
        for fwd in (True, False):
            key = 'D%s%s' % (nm, 'f' if fwd else 'b')
            c1, c0, rest = stretch(D[key], ax, fwd)
            sg = ONE if fwd else -ONE
            S = [power(deep(c1, {ixa(ax): P(k), ixa(1 - ax): ZERO}) * DL * sg,
                       -1) for k in range(n)]
            for k, v in enumerate(S):
                lay = k < p or k >= n - p
                tag = '%s, cell %d of %d, layers of %d' % (key, k, n, p)
                if not lay or (not fwd and k == n - p):
                    ck.eq('no stretching outside the layers: ' + tag, v, ONE,
                          W)
                else:
                    ck.eq('real part one: ' + tag, real(v), ONE, W)
                    g = sign_of(imag(v))
                    ck.holds('attenuating: ' + tag,
                             None if g is None else g == -1, W,
                             'imaginary part %s' % show(imag(v)))
                m = n - 1 - k if fwd else (n - k) % n
                if fwd or k:
                    ck.eq('mirror symmetric: ' + tag, v, S[m], W)


def both(ck, pol):
    w = World(ck)
    s = w.sim(pol, (PX, PY), src=None)
    D = w.derivs(s)
    a = axis_case(ck, w, D, 0, PX, NX, '')
    b = axis_case(ck, w, D, 1, PY, NY, '')
    for k in a:
        ck.eq('x and y use the same profile (%s, %s)' % (
            'forward' if k[0] else 'backward', k[1]), a[k], b[k], WS)


def one_axis(ck, npml, ax):
    w = World(ck)
    s = w.sim('Ez', npml, src=None)
    D = w.derivs(s)
    g = elem(Base('generic vector', (NX, NY)), [ix(0), ix(1)])
    nm = 'xy'[ax]
    ck.eq('D%sf is not stretched' % nm, D['D%sf' % nm].apply(g),
          fdiff(g, ax), WS)
    ck.eq('D%sb is not stretched' % nm, D['D%sb' % nm].apply(g),
          bdiff(g, ax), WS)


def run(ck):
    ck.case('Ez, symbolic thickness', both, 'Ez')
    ck.case('Hz, symbolic thickness', both, 'Hz')
    for n, p in ((4, 1), (5, 2), (6, 3)):
        ck.case('%d cells, layers of %d' % (n, p), small, n, p)
    ck.case('no layer along x', one_axis, (0, PY), 0)
    ck.case('no layer along y', one_axis, (PX, 0), 1)
    ck.case('no layer along x, 3 along y', one_axis, (0, 3), 0)
    ck.case('no layer along y, 3 along x', one_axis, (3, 0), 1)


TECHNIQUE = 'region-wise normal forms of the stretched operators'
NOTE = ('All grid sizes, layer thicknesses >= 1 with non-overlapping layers, '
        'frequencies, spacings and length units. The quality of the '
        'absorption itself is not claimed (C33).')
