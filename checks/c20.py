"""C20: the spatial filter is a local, normalised, wrapped, masked average."""
from sa.world import *

FLOOR = 20
WW = 'angler/filter.py:get_W'
WO = OPT + '.__init__'
DIMS = (NX, NY)


def weights(R):
    """displacement -> weight, linear in distance, before normalisation"""
    out = {}
    for a in range(-R, R + 1):
        for b in range(-R, R + 1):
            if a * a + b * b < R * R:
                out[a, b] = P(R) - sqrt(P(a * a + b * b))
    return out


def interior(npml, R):
    """cells whose filter does not come near an absorbing layer"""
    g = ONE
    for d, (n, p) in enumerate(zip(DIMS, npml)):
        if p:
            lo, hi = R + p + 1, n - R - 1 - p
            g = g * (ONE - lt0(ix(d) - lo)) * lt0(ix(d) - hi)
    return g


def wrapped(d, k, n):
    """positions whose neighbour at displacement k lies across the boundary"""
    if k < 0:
        return [P(x) for x in range(-k)]
    return [n - 1 - x for x in range(k)]


def properties(ck, W, D, npml, R, where=WW):
    if not isinstance(W, Mat) or W.sten() is None:
        if ('numbering', (NY, NX)) in ck.interps[-1].notes:
            ck.holds('cells are numbered row by row', False, where,
                     'the entries are numbered column by column, the '
                     'density vectors row by row')
            return
        raise Undecided('the filter matrix is not a stencil')
    st = W.sten()
    if tuple(st.dims) != DIMS:
        raise Undecided('the filter matrix is numbered differently')
    coef = {}
    for k, c in st.t.items():
        k = tuple(x.as_int() for x in k)
        if None in k:
            raise Undecided('filter displacement')
        coef[k] = c
    g = interior(npml, R)
    ws = weights(R)
    tot = ZERO
    for x in ws.values():
        tot = tot + x
    inside, outside = g * D, ONE - D
    s = ZERO
    for k, c in sorted(coef.items()):
        s = s + c * inside
        if k not in ws:
            ck.eq('no weight beyond the radius, displacement %s' % (k,),
                  c * inside, ZERO, where)
        if k != (0, 0):
            ck.eq('outside the region the density is passed through, '
                  'displacement %s' % (k,), c * outside, ZERO, where)
        for d in (0, 1):
            if npml[d] and k[d]:
                for x in wrapped(d, k[d], DIMS[d]):
                    ck.eq('no wrap around an absorbing axis, displacement %s'
                          % (k,), deep(c * D, {ixa(d): x}), ZERO, where)
    ck.eq('outside the region the density is passed through',
          coef.get((0, 0), ZERO) * outside, outside, where)
    ck.eq('weights of a design cell sum to one', s, inside, where)
    for k, x in sorted(ws.items()):
        ck.eq('weight falls linearly with distance, displacement %s' % (k,),
              coef.get(k, ZERO) * inside, inside * x / tot, where)


def filt(ck, npml, R, kw=True, positional=False):
    w = World(ck)
    D = w.array('design', DIMS, real=True, isint=True, binary=True)
    n0 = len(w.I.pending)
    if R is None:
        m = w.fcall('angler.filter', 'get_W', NX, NY, D, w.lst(*npml))
        R = 10
    else:
        m = w.fcall('angler.filter', 'get_W', NX, NY, D, w.lst(*npml),
                    R=P(R))
    ck.no_raise(w.I, n0)
    properties(ck, m, w.e(D), npml, R)


def optimization(ck, npml, R, pol='Ez'):
    """an optimization uses the filter of its simulation and region"""
    w = World(ck)
    s = w.sim(pol, npml)
    n0 = len(w.I.pending)
    kw = {} if R is None else dict(R=P(R))
    o = w.optim(s, w.objective([(pol, False)]), **kw)
    ck.no_raise(w.I, n0)
    W, D = w.get(o, 'W'), w.e(w.get(o, 'design_region'))
    if R is None:
        ck.eq('no radius means no filter', W.apply(generic(Base(
            'probe', tuple(W.rd))).e), generic(Base('probe', tuple(
                W.rd))).e, WO)
        return
    properties(ck, W, D, npml, R, WO)
    rho = w.array('rho', DIMS, real=True)
    r = w.fcall('angler.filter', 'rho2rhot', rho, W)
    ck.holds('the filtered density keeps the shape',
             tuple(w.a(r).shape()) == DIMS, 'angler/filter.py:rho2rhot')
    ck.eq('the filtered density is the matrix applied in row-major order',
          w.e(r), W.apply(w.e(rho)), 'angler/filter.py:rho2rhot')


def run(ck):
    rs = (1, 2, 3) if ck.tier == 'quick' else (1, 2, 3, 4, 5, 6, 8)
    for npml in ((0, 0), (3, 0), (0, 2), (2, 3)):
        for R in rs:
            ck.case('layers %s, radius %d' % (npml, R), filt, npml, R)
    ck.case('optimization, no filter', optimization, (0, 0), None)
    for npml in ((0, 0), (3, 0), (0, 2), (2, 3)):
        ck.case('optimization, layers %s' % (npml,), optimization, npml, 2)
    ck.case('optimization, Hz', optimization, (0, 2), 3, 'Hz')
    ck.case('large radius', filt, (0, 0), 5)
    if ck.tier != 'quick':
        ck.case('default radius', filt, (0, 0), None)


TECHNIQUE = ('entry lists built in the nested loops converted to a stencil '
             'over the grid, whose coefficients are compared with the '
             'required weights')
NOTE = ('All grid sizes, design regions; layer thicknesses 0, 2, 3; radii '
        '1, 2, 3, 5 (thorough also 4, 6, 8, 10); cells within radius+1 of a '
        'layer are only checked for wrapping.')
