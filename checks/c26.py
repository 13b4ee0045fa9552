"""C26: structure builders: grids, regions, masks."""
from sa.world import *

FLOOR = 60
M = 'angler.structures'
W_ = 'angler/structures.py:'
A = {n: sym(n, pos=True) for n in
     'L L2 H H2 w d l spc gap lambda0 eps_start beta'.split()}
BG = sym('background', pos=True)
PX = sym('npml_x', isint=True, lb=0)
PY = sym('npml_y', isint=True, lb=0)


def within(x, lo, hi):
    return lt0(lo - x) * lt0(x - hi)


def about(x, c, half):
    return lt0(absval(x - c) - half)


def union(xs):
    out = ZERO
    for x in xs:
        out = p_or(out, x)
    return out


def cells(v):
    return toint(v / DL)


class Geo:
    """what a builder has to produce: size, design region, material"""

    def __init__(self, name, n=None):
        a = A
        L, L2, H, H2, w, d, l, spc, gap = (a[k] for k in (
            'L', 'L2', 'H', 'H2', 'w', 'd', 'l', 'spc', 'gap'))
        self.params = dict(
            three_port='L H w d l spc', two_port='L H w l spc',
            N_port='L H w d l spc', ortho_port='L L2 H H2 w l',
            accelerator='beta gap lambda0 L spc',
            accelerator_multi='beta gap lambda0 L spc')[name].split()
        nx = cells(l * 2 + L)
        ny = cells(H + spc * 2)
        if name == 'ortho_port':
            ny = cells(l * 2 + H)
        k = n or 1
        self.py = PY
        if name.startswith('acc'):
            k = n or 1
            nx = cells(spc * 4 + L * (2 * k) + gap * k)
            ny = cells(a['beta'] * a['lambda0'])
            self.py = ZERO                      # periodic along y
        self.nx, self.ny = PX * 2 + nx, self.py * 2 + ny
        x, y = (coord(ix(0), self.nx), coord(ix(1), self.ny))
        box = about(x, ZERO, L / 2) * about(y, ZERO, H / 2)
        wg = DL * cells(w) / 2                  # whole cells
        if name == 'three_port':
            half = self.ny / 2 - toint(self.ny / 2)
            y1 = DL * toint(half - d / 2 / DL)
            y2 = DL * toint(half + d / 2 / DL)
            self.design = [box]
            self.material = [box, lt0(x) * about(y, ZERO, wg),
                             lt0(-x) * about(y, y1, wg),
                             lt0(-x) * about(y, y2, wg)]
        elif name == 'two_port':
            self.design = [box]
            self.material = [about(y, ZERO, w / 2)]
        elif name == 'N_port':
            self.design = [box]
            self.material = [box, lt0(x) * about(y, P(F(1, 100)), wg)]
            for i in range(n):
                c = (P(i) - P(F(n - 1, 2))) * d
                self.material.append(lt0(-x) * about(y, c, wg))
        elif name == 'ortho_port':
            xw = within(x, -w / 2, w / 2 + DL / 2)
            self.material = [about(y, ZERO, w / 2), xw * lt0(-y)]
            self.design = [about(x, ZERO, L / 2) * about(y, ZERO, w / 2),
                           about(x, ZERO, L2 / 2) * about(y, ZERO, H2 / 2),
                           xw * within(y, -H2 / 2, H / 2)]
        else:
            r = []
            for i in range(k // 2 + 1):
                c = (gap + L) * i
                r.append(within(absval(x) - c, gap / 2, gap / 2 + L))
            self.material = self.design = r


def coord(i, n):
    """evenly spaced from -n dl/2 to n dl/2"""
    return DL * n * (i / (n - 1) - F(1, 2))


def build(ck, name, n=None, bg=False, positional=False):
    w = World(ck)
    I = w.I
    g = Geo(name, n)
    where = W_ + name
    kw = {k: A[k] for k in g.params}
    kw.update(dl=DL, NPML=w.lst(PX, PY), eps_start=A['eps_start'])
    if name == 'N_port':
        kw['N'] = P(n)
    if name == 'accelerator_multi':
        kw['num_channels'] = P(n)
    if bg:
        kw['eps_background'] = BG
    n0 = len(I.pending)
    r = w.fcall(M, name, **kw)
    ck.no_raise(I, n0)
    ep, de = w.a(w.item(r, ZERO)), w.a(w.item(r, ONE))
    for what, x in (('permittivity', ep), ('design region', de)):
        sh_ = x.shape()
        ck.holds('%s on a grid of two dimensions' % what, len(sh_) == 2,
                 where)
        ck.eq('%s: cells along x' % what, sh_[0], g.nx, where)
        ck.eq('%s: cells along y' % what, sh_[1], g.ny, where)
    b = BG if bg else ONE
    es = A['eps_start']
    ck.eq('permittivity is background or material',
          (ep.e - b) * (ep.e - es), ZERO, where)
    ck.eq('design region is zero or one', de.e * (de.e - 1), ZERO, where)
    ck.eq('design region is its defining box', de.e, union(g.design), where)
    ck.eq('permittivity is the union of its regions', ep.e,
          b + (es - b) * union(g.material), where)


def region(k):
    """some region of the plane"""
    def f(I, a, kw):
        x, y = (I.arr(v).e for v in a)
        return flag(('region', k, x, y))
    return Builtin('region%d' % k, f, nparams=2)


def regions(ck, n, single=False, bg=False, dims=(NX, NY)):
    w = World(ck)
    I = w.I
    xs, ys = (w.array(k, dims, real=True) for k in ('xs', 'ys'))
    rs = [region(k) for k in range(n)]
    es = A['eps_start']
    kw = dict(eps_background=BG) if bg else {}
    n0 = len(I.pending)
    r = w.fcall(M, 'apply_regions', rs[0] if single else I.mklist(rs), xs,
                ys, es, **kw)
    ck.no_raise(I, n0)
    where = W_ + 'apply_regions'
    ck.holds('grid of the coordinates',
             tuple(w.a(r).shape()) == tuple(P(d) for d in dims), where)
    u = union(flag(('region', k, w.e(xs), w.e(ys))) for k in range(n))
    b = BG if bg else ONE
    ck.eq('material on the union of the regions', w.e(r), b + (es - b) * u,
          where)


def grid(ck):
    w = World(ck)
    n0 = len(w.I.pending)
    r = w.fcall(M, 'get_grid', (NX, NY), DL)
    ck.no_raise(w.I, n0)
    where = W_ + 'get_grid'
    for k, n in ((0, NX), (1, NY)):
        a = w.a(w.item(r, P(k)))
        ck.holds('coordinates on the grid', tuple(a.shape()) == (NX, NY),
                 where)
        ck.eq('coordinate along %s' % 'xy'[k], a.e, coord(ix(k), n), where)


def even(ck, n):
    w = World(ck)
    kw = {k: A[k] for k in Geo('accelerator').params}
    w.rejected('an even number of channels is rejected',
               W_ + 'accelerator_multi', lambda: w.fcall(
                   M, 'accelerator_multi', num_channels=P(n), dl=DL,
                   NPML=w.lst(PX, PY), eps_start=A['eps_start'], **kw))


def run(ck):
    ck.case('grid', grid)
    for n in (1, 2, 3, 4):
        ck.case('%d regions' % n, regions, n)
        ck.case('%d regions, background' % n, regions, n, bg=True)
    ck.case('a region that is no list', regions, 1, True)
    for name in ('three_port', 'two_port', 'ortho_port', 'accelerator'):
        ck.case(name, build, name)
    for n in (1, 2, 3, 4):
        ck.case('N_port %d' % n, build, 'N_port', n)
    for n in (1, 3, 5):
        ck.case('accelerator_multi %d' % n, build, 'accelerator_multi', n)
    ck.case('three_port, background', build, 'three_port', bg=True)
    ck.case('N_port, background', build, 'N_port', 2, bg=True)
    for n in (2, 4):
        ck.case('%d channels' % n, even, n)


TECHNIQUE = ('normal forms of size, permittivity and mask over all cells and '
             'geometry parameters compared with the stated geometry')
NOTE = ('All geometry parameters and cells; up to four output ports and five '
        'channels.')
