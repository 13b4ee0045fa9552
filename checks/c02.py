"""C02: difference operators."""
from sa.world import *

FLOOR = 10
W = 'angler/derivatives.py:createDws'


def spec(dims, axis, fwd):
    """(reduced dims, function on the generic vector)"""
    pos = [k for k in range(2) if dims[k].const() != 1]
    dd = tuple(dims[k] for k in pos)

    def g(e):
        if axis not in pos:
            return ZERO
        s = [ZERO] * len(dd)
        s[pos.index(axis)] = ONE if fwd else -ONE
        q = Sten(dd, {tuple(s): ONE}).apply(e)
        return (q - e) / DL if fwd else (e - q) / DL
    return dd, g


def case(ck, nx, ny, oned=False):
    w = World(ck)
    if oned:
        eps = w.array('eps', (nx,))
        s = w.sim('Ez', (0, 0), nx, 1, eps=eps, src=None)
    else:
        s = w.sim('Ez', (0, 0), nx, ny, src=None)
    dims = (P(nx), P(ny))
    D = w.derivs(s)
    for ax, nm in ((0, 'x'), (1, 'y')):
        for fwd in (True, False):
            key = 'D%s%s' % (nm, 'f' if fwd else 'b')
            m = D[key]
            dd, g = spec(dims, ax, fwd)
            if not isinstance(m, Mat):
                ck.record('%s is a sparse matrix' % key, False, W, str(m))
                continue
            v = Base('generic vector', tuple(dd))
            e = elem(v, [ix(i) for i in range(len(dd))])
            if tuple(m.rd) != tuple(dd):
                n = prod(m.rd)
                if n.const() == 1 and not dd:
                    ck.eq('%s vanishes on a single cell' % key,
                          m.key()[3], ZERO, W)
                    continue
                ck.holds('%s acts on the row-major grid' % key,
                         None if same(n, prod(dd)) else False, W,
                         'rows %s for a grid of %s' % (
                             [show(x) for x in m.rd], [show(x) for x in dd]))
                continue
            ck.eq_grid('%s is the %s difference along %s' % (
                key, 'forward' if fwd else 'backward', nm),
                m.apply(e), g(e), dd, W)
        f, b = D['D%sf' % nm], D['D%sb' % nm]
        if isinstance(f, Mat) and isinstance(b, Mat):
            ck.eq_grid('D%sb is minus the transpose of D%sf' % (nm, nm),
                       mscale(mT(f), -ONE).key()[3], b.key()[3], f.rd, W)


def hzcase(ck):
    """both polarizations work with the same operators"""
    w = World(ck)
    a, b = w.derivs(w.sim('Ez', src=None)), w.derivs(w.sim('Hz', src=None))
    for k in a:
        ck.eq('%s is the same for both polarizations' % k, a[k], b[k],
              'angler/linalg.py:construct_A')
    w = World(ck, name_profiles=True)
    a, b = w.derivs(w.sim('Ez', (2, 3), src=None)), \
        w.derivs(w.sim('Hz', (2, 3), src=None))
    for k in a:
        ck.eq('%s is the same for both polarizations, layers' % k, a[k],
              b[k], 'angler/linalg.py:construct_A')
        ck.holds('%s acts along its own axis only, layers' % k,
                 own_axis(a[k], 0 if k[1] == 'x' else 1),
                 'angler/linalg.py:construct_A')


def own_axis(m, ax):
    s = m.sten()
    if s is None:
        return None
    for k, c in s.t.items():
        if not k[1 - ax].is_zero() or ixa(1 - ax) in c.free():
            return False
    return True


def unpack(ck):
    w = World(ck)
    s = w.sim('Ez', src=None)
    D = w.derivs(s)
    r = w.I.items(w.fcall('angler.derivatives', 'unpack_derivs',
                          w.get(s, 'derivs')))
    for n, v in zip(('Dyb', 'Dxb', 'Dxf', 'Dyf'), r):
        ck.eq('unpack_derivs returns %s in its place' % n, v, D[n],
              'angler/derivatives.py:unpack_derivs')


def run(ck):
    ck.case('2D', case, NX, NY)
    for a, b in ((1, NY), (NX, 1), (1, 1), (2, NY), (NX, 2), (3, 4), (2, 2)):
        ck.case('%s x %s' % (show(P(a)), show(P(b))), case, a, b)
    ck.case('1D permittivity', case, NX, 1, True)
    ck.case('polarizations', hzcase)
    ck.case('unpacking', unpack)


TECHNIQUE = 'operator normal forms compared with the difference stencils'
NOTE = ('All grid sizes >= 5 symbolically, and 1, 2, 3, 4 cells per axis; '
        'all spacings. Trusts the sparse constructors as modelled in '
        'sa/lib.py (diags, kron, eye).')
