"""C07: the flux probe measures the conserved Poynting power."""
from sa.world import *

FLOOR = 20
W = SIM + '.flux_probe'
COMP = {'Ez': ('Hx', 'Hy', 'Ez'), 'Hz': ('Ex', 'Ey', 'Hz')}


def put(w, s, pol, dims):
    f = {}
    for st in ('fields', 'fields_nl'):
        for c in COMP[pol]:
            v = w.array(st + c, dims)
            w.I.setitem(w.get(s, st), c, v)
            f[st, c] = w.e(v)
    return f


def cell_flux(f, st, pol, d, dims):
    """power through the face between this cell and the previous one along
    d, from the staggered components"""
    z = f[st, pol]
    ax = 0 if d == 'x' else 1
    zm = (z + dshift(z, ax, -1, None, dims)) / 2
    if pol == 'Ez':
        t = f[st, 'Hy' if d == 'x' else 'Hx']
        s = -ONE if d == 'x' else ONE
        return s / 2 * real(zm * conj(t)) * DL
    t = f[st, 'Ey' if d == 'x' else 'Ex']
    s = ONE if d == 'x' else -ONE
    return s / 2 * real(t * conj(zm)) * DL


def extent(ck, pol, d, odd, nl):
    """a line in general position, any length"""
    w = World(ck)
    nx, ny, c, wd, first, cnt = line(d, odd)
    s = w.sim(pol, (0, 0), nx, ny)
    f = put(w, s, pol, (nx, ny))
    st = 'fields_nl' if nl else 'fields'
    body = cell_flux(f, st, pol, d, (nx, ny))
    n0 = len(w.I.pending)
    for how in range(2):
        cen = w.lst(*c) if how == 0 else tuple(c)
        r = w.call(s, 'flux_probe', d, cen, wd, nl=nl) if how == 0 else \
            w.call(s, 'flux_probe', d, cen, wd, nl)
        tr, nr = (1, 0) if d == 'x' else (0, 1)
        want = sum_over(deep(body, {ixa(nr): Q_}),
                        {tr: (first, first + cnt)})
        ck.eq('power through exactly the cells of the line', w.e(r), want, W)
    ck.no_raise(w.I, n0)
    if not nl:
        r = w.call(s, 'flux_probe', d, w.lst(*c), wd)
        ck.eq('linear fields by default', w.e(r), want, W)
    # short lines, and lines ending at the rim of the grid
    for k in (1, 2, 3, 4):
        for c0 in (2, 3):
            cc = [None, None]
            cc[nr], cc[tr] = Q_, P(c0)
            r = w.call(s, 'flux_probe', d, w.lst(*cc), P(k), nl=nl)
            lo = int(c0 - k / 2)
            want = ZERO
            for q in range(lo, lo + k):
                want = want + deep(body, {ixa(nr): Q_, ixa(tr): P(q)})
            ck.eq('power through a line of %d cells about %d' % (k, c0),
                  w.e(r), want, W)
    # the first cell of the grid pairs with the last one (periodic)
    cc = [None, None]
    cc[nr], cc[tr] = ZERO, K_ + 1
    r = w.call(s, 'flux_probe', d, w.lst(*cc), P(1), nl=nl)
    ck.eq('power across the periodic boundary', w.e(r),
          deep(body, {ixa(nr): ZERO, ixa(tr): K_}), W)
    # positions counted from the far end of the grid
    cc[nr], cc[tr] = P(-2), K_ + 1
    r = w.call(s, 'flux_probe', d, w.lst(*cc), P(1), nl=nl)
    n = (nx, ny)[nr]
    ck.eq('power at a position counted from the far end', w.e(r),
          deep(body, {ixa(nr): n - 2, ixa(tr): K_}), W)


def conserve(ck, pol):
    """net outflow of one cell equals the work of the source"""
    w = World(ck, lossy=False)
    s = w.sim(pol)
    src = w.e(w.get(s, 'src'))
    eps = w.e(w.eps_ref)
    w.call(s, 'solve_fields')
    x, y, z = (w.e(w.fields(s, 'fields', c)) for c in COMP[pol])
    i, j = sym('i', isint=True, lb=1), sym('j', isint=True, lb=1)

    def probe(d, a, b):
        return w.e(w.call(s, 'flux_probe', d, w.lst(a, b), P(1)))
    # width one about k+1 is cell k
    net = probe('x', i + 1, j + 1) - probe('x', i, j + 1) + \
        probe('y', i + 1, j + 1) - probe('y', i + 1, j)
    curl = fdiff(y, 0) - fdiff(x, 1)
    e0, m0 = w.eps0() * L0, w.mu0() * L0
    if pol == 'Ez':
        res = curl - J * OM * e0 * eps * z - src
        work = -real(z * conj(src + res))
    else:
        res = curl + J * OM * m0 * z + src
        work = -real(conj(z) * (src - res))
    at = {ixa(0): i, ixa(1): j}
    ck.eq('net outflow equals the work of the source '
          '(up to the Maxwell residual)', net,
          deep(DL * DL / 2 * work, at), W)


def run(ck):
    for pol in ('Ez', 'Hz'):
        for d in 'xy':
            for odd in (False, True):
                for nl in (False, True):
                    ck.case('%s, normal %s, %s width, %s' % (
                        pol, d, 'odd' if odd else 'even',
                        'nonlinear' if nl else 'linear'), extent, pol, d,
                        odd, nl)
        ck.case('%s, conservation' % pol, conserve, pol)


TECHNIQUE = ('normal-form identity with the staggered Poynting flux; discrete '
             'conservation law derived from the stored components')
NOTE = ('Lines of any length in general position, both directions, '
        'polarizations, linear and nonlinear stores; net flux of every '
        'interior cell reduced to the source work plus the Maxwell residual '
        'that C01 shows to be zero.')
