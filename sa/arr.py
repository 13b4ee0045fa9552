"""Abstract arrays and sparse matrices.

An array is its generic element: a normal form over the index atoms
ix(0), ix(1), ... of its dimensions.  A matrix is its action on a generic
vector: a sum of words over stencils (sum of coefficient * shift) and opaque
linear operators.
"""
from .alg import *
from .alg import _intern

UNK = sym('?unknown')


def tainted(*xs):
    a = next(iter(UNK.t))[0][0]
    for x in xs:
        if a in mentions(x):
            return True
    return False


def prod(xs):
    r = ONE
    for x in xs:
        r = r * x
    return r


class Arr:
    """immutable array contents"""
    __slots__ = ('dims', 'axes', 'e', 'kind', 'mask', '_h')

    def __init__(self, dims, axes, e, kind=None, mask=None):
        self.dims = tuple(dims)
        self.axes = tuple(tuple(g) for g in axes)
        self.e = e
        self.kind = kind
        self.mask = mask
        self._h = None

    def key(self):
        return ('A', self.dims, self.axes, self.e, self.mask)

    def __eq__(self, o):
        return isinstance(o, Arr) and self.key() == o.key()

    def __hash__(self):
        if self._h is None:
            self._h = hash(self.key())
        return self._h

    def shape(self):
        if self.mask is not None:
            return (masksize(self.mask, self.dims),)
        return tuple(prod(self.dims[d] for d in g) for g in self.axes)

    def size(self):
        return prod(self.shape())

    def ndim(self):
        return len(self.axes)

    def with_e(self, e, kind=None):
        return Arr(self.dims, self.axes, e, kind, self.mask)

    def __repr__(self):
        return 'Arr%s{%s}' % (self.axes, show(self.e))


def masksize(mask, dims):
    return sum_over(mask, {d: (ZERO, n) for d, n in enumerate(dims)})


def mk(dims_per_axis, e, kind=None):
    """array from sizes per axis (each axis a list of dim sizes)"""
    dims = []
    axes = []
    for g in dims_per_axis:
        gg = []
        for n in g:
            gg.append(len(dims))
            dims.append(n)
        axes.append(gg)
    return squeeze1(Arr(dims, axes, e, kind))


def squeeze1(a):
    """drop dimensions whose size is the constant one"""
    if all(d.const() != 1 for d in a.dims):
        return a
    keep = [i for i, d in enumerate(a.dims) if d.const() != 1]
    pos = {o: n for n, o in enumerate(keep)}
    mp = {}
    for i in range(len(a.dims)):
        q = ix(pos[i]) if i in pos else ZERO
        if q != ix(i):
            mp[ixa(i)] = q
    return Arr([a.dims[i] for i in keep],
               [[pos[i] for i in g if i in pos] for g in a.axes],
               deep(a.e, mp), a.kind,
               None if a.mask is None else deep(a.mask, mp))


def full(shape, e, kind=None):
    return mk([[s] for s in shape], P(e), kind)


def generic(base, axes=None):
    """the array whose contents are `base`"""
    n = len(base.dims)
    a = Arr(base.dims, axes if axes is not None else [[i] for i in range(n)],
            elem(base, [ix(i) for i in range(n)]),
            'b' if base.binary else 'f' if base.real else 'c')
    if base.binary:
        a.kind = 'f'
    return squeeze1(a)


# -------------------------------------------------------------- dim matching

def same(a, b):
    return a == b or (a - b).is_zero()


def flat_index(dims, pos):
    """row-major index of dims at positions pos"""
    r = ZERO
    for n, p in zip(dims, pos):
        r = r * n + ix(p)
    return r


def refine_target(gs):
    """choose the finest size list among groups (lists of sizes)"""
    best = None
    for g in gs:
        if g and (best is None or len(g) > len(best)):
            best = g
    return best


def match_group(src, dst):
    """for each source size the slice of dst sizes it spans, or None"""
    out = []
    i = 0
    for s in src:
        acc = ONE
        j = i
        while j < len(dst) and not (acc == s and j > i):
            acc = acc * dst[j]
            j += 1
            if same(acc, s):
                break
        if not same(acc, s) or j == i:
            return None
        out.append((i, j))
        i = j
    if i != len(dst):
        return None
    return out


def opaque_flat(dims, e):
    """flattened contents of an array whose dims cannot be aligned"""
    return Base(('flat', tuple(dims), bound_key(e, len(dims))),
                (prod(dims),), real=is_real(e))


def align(arrs):
    """broadcast arrays: common dims/axes and the element of each"""
    arrs = [squeeze1(a) for a in arrs]
    n = max(len(a.axes) for a in arrs)
    masks = [a.mask for a in arrs if a.mask is not None]
    mask = None
    if masks:
        if any(m != masks[0] for m in masks):
            raise Undecided('arrays selected by different masks')
        mask = masks[0]
        for a in arrs:
            if a.mask is None and a.axes and any(a.axes):
                raise Undecided('masked and unmasked arrays combined')
    dims = []
    axes = []
    maps = [dict() for _ in arrs]
    newe = [a.e for a in arrs]
    for k in range(n):
        gs = []
        for a in arrs:
            off = n - len(a.axes)
            gs.append(list(a.axes[k - off]) if k >= off else [])
        sizes = [[a.dims[d] for d in g] for a, g in zip(arrs, gs)]
        tgt = refine_target(sizes)
        if tgt is None:
            axes.append([])
            continue
        start = len(dims)
        dims.extend(tgt)
        axes.append(list(range(start, start + len(tgt))))
        for idx, (g, sz) in enumerate(zip(gs, sizes)):
            if not g:
                continue
            m = match_group(sz, tgt)
            if m is None:
                if not same(prod(sz), prod(tgt)):
                    raise Mismatch('shapes do not match: %s and %s' % (
                        [show(s) for s in sz], [show(s) for s in tgt]),
                        P(prod(sz)), P(prod(tgt)), True)
                if len(arrs[idx].dims) != len(g):
                    raise Undecided('misaligned axes')
                b = opaque_flat(sz, arrs[idx].e)
                newe[idx] = elem(b, (flat_index(
                    tgt, range(start, start + len(tgt))),))
                maps[idx] = None
                continue
            for d, (i, j) in zip(g, m):
                maps[idx][ixa(d)] = flat_index(
                    tgt[i:j], range(start + i, start + j))
    es = []
    for a, e, mp in zip(arrs, newe, maps):
        if mp is None:
            es.append(e)
        else:
            es.append(ren(e, mp))
    if mask is not None:
        i = [x.mask for x in arrs].index(mask)
        mask = ren(mask, maps[i])
    return dims, axes, es, mask


def ren(e, mp):
    mp = {a: q for a, q in mp.items() if P(a) != q}
    return deep(e, mp) if mp else e


KORD = {'b': 0, 'i': 1, 'f': 2, 'c': 3}


def join_kind(ks):
    ks = [k for k in ks if k]
    if not ks:
        return None
    return max(ks, key=lambda k: KORD[k])


def ewise(f, arrs, kind=None):
    dims, axes, es, mask = align(arrs)
    e = f(*es)
    return Arr(dims, axes, e, kind or join_kind([a.kind for a in arrs]), mask)


def amap(f, a, kind=None):
    return Arr(a.dims, a.axes, f(a.e), kind or a.kind, a.mask)


# ------------------------------------------------------------------ reshape

def quotient(ds, rest):
    """the product of ds over rest, exactly when rest is a sub-product"""
    ds = [P(d) for d in ds]
    for bits in range(1 << min(len(ds), 6)):
        if same(prod(d for k, d in enumerate(ds) if bits >> k & 1), rest):
            return P(prod(d for k, d in enumerate(ds) if not bits >> k & 1))
    return P(prod(ds)) / rest


def reshape(a, shape):
    """row-major reshape; shape: list of Poly, -1 allowed"""
    if a.mask is not None:
        if len(shape) == 1:
            return a
        raise Undecided('reshape of a masked selection')
    a = squeeze1(a)
    shape = [P(s) for s in shape]
    unknown = [k for k, s in enumerate(shape) if s.as_int() == -1]
    if len(unknown) > 1:
        raise Undecided('reshape')
    if unknown:
        rest = prod(s for k, s in enumerate(shape) if k != unknown[0])
        shape[unknown[0]] = quotient(a.dims, rest)
    if not same(prod(shape), prod(a.dims)):
        raise Undecided('reshape changes the size: %s -> %s' % (
            [show(s) for s in a.dims], [show(s) for s in shape]))
    nontriv = [s for s in shape if s.const() != 1]
    m = match_group(nontriv, list(a.dims))
    if m is not None:
        it = iter(m)
        axes = []
        for s in shape:
            if s.const() == 1:
                axes.append([])
            else:
                i, j = next(it)
                axes.append(range(i, j))
        return Arr(a.dims, axes, a.e, a.kind)
    m = match_group(list(a.dims), nontriv)
    if m is not None:
        # every old dim is split into new ones
        mp = {}
        for d, (i, j) in enumerate(m):
            mp[ixa(d)] = flat_index(nontriv[i:j], range(i, j))
        axes = []
        k = 0
        for s in shape:
            if s.const() == 1:
                axes.append([])
            else:
                axes.append([k])
                k += 1
        return Arr(nontriv, axes, ren(a.e, mp), a.kind)
    b = opaque_flat(a.dims, a.e)
    axes = []
    k = 0
    for s in shape:
        if s.const() == 1:
            axes.append([])
        else:
            axes.append([k])
            k += 1
    return Arr(nontriv, axes,
               elem(b, (flat_index(nontriv, range(len(nontriv))),)), a.kind)


def transpose(a, perm=None):
    if a.mask is not None:
        return a
    n = len(a.axes)
    if perm is None:
        perm = list(range(n))[::-1]
    dims = []
    axes = []
    mp = {}
    for k in perm:
        g = []
        for d in a.axes[k]:
            mp[ixa(d)] = ix(len(dims))
            g.append(len(dims))
            dims.append(a.dims[d])
        axes.append(g)
    return Arr(dims, axes, ren(a.e, mp), a.kind)


# ----------------------------------------------------------------- indexing

def norm_index(p, n):
    """negative constant positions count from the end"""
    c = p.const()
    if c is not None and c < 0:
        return n + p
    return p


class Sel:
    """result of basic indexing: new axes and the origin of every old dim"""
    __slots__ = ('dims', 'axes', 'org')


def group_pos(group, dims, p):
    """decompose a flat position p of a group into per-dim positions"""
    if len(group) == 1:
        return [p]
    if not group:
        return []
    inner = prod(dims[d] for d in group[1:])
    q = divide(p, inner)
    if q is None:
        raise Undecided('position inside a flattened axis: %s' % show(p))
    hi, lo = q
    return [hi] + group_pos(group[1:], dims, lo)


def divide(p, n):
    """p = hi*n + lo with lo free of n when visible"""
    if p.is_zero():
        return ZERO, ZERO
    if len(n.t) != 1:
        return None
    (m, c), = n.t.items()
    md = dict(m)
    hi = {}
    lo = {}
    for mm, cc in p.t.items():
        d = dict(mm)
        ok = bool(md)
        for a, e in md.items():
            if d.get(a, 0) < e:
                ok = False
        if ok:
            for a, e in md.items():
                d[a] -= e
                if d[a] == 0:
                    del d[a]
            hi[tuple(sorted(d.items(), key=lambda x: x[0].id))] = cc / c
        else:
            lo[mm] = cc
    return Poly(hi), Poly(lo)


def select(a, idx):
    """idx: list of ('i', p) | ('s', lo, hi, step) | ('n',) per axis"""
    r = Sel()
    r.dims = []
    r.axes = []
    r.org = {}
    k = 0
    nidx = sum(1 for t in idx if t[0] != 'n')
    if nidx > len(a.axes):
        raise Undecided('too many indices')
    idx = list(idx) + [('s', None, None, 1)] * (len(a.axes) - nidx)
    for t in idx:
        if t[0] == 'n':
            r.axes.append([])
            continue
        g = a.axes[k]
        k += 1
        n = prod(a.dims[d] for d in g)
        if t[0] == 'i':
            p = norm_index(t[1], n)
            for d, q in zip(g, group_pos(list(g), a.dims, p)):
                r.org[d] = ('fix', q)
            continue
        _, lo, hi, step = t
        if lo is None and hi is None and (step == 1 or (
                step == -1 and not g)):
            ng = []
            for d in g:
                r.org[d] = ('rng', ZERO, 1, len(r.dims), a.dims[d], True)
                ng.append(len(r.dims))
                r.dims.append(a.dims[d])
            r.axes.append(ng)
            continue
        if step == -1 and lo is None and hi is None and len(g) == 1:
            d = g[0]
            r.org[d] = ('rng', a.dims[d] - 1, -1, len(r.dims),
                        a.dims[d], True)
            r.axes.append([len(r.dims)])
            r.dims.append(a.dims[d])
            continue
        if step == -1 and len(g) == 1:
            d = g[0]
            lo = a.dims[d] - 1 if lo is None else norm_index(lo, n)
            cnt = (lo + 1) if hi is None else lo - norm_index(hi, n)
            r.org[d] = ('rng', lo, -1, len(r.dims), cnt, False)
            r.axes.append([len(r.dims)])
            r.dims.append(cnt)
            continue
        if step != 1:
            if len(g) == 1 and isinstance(step, int) and step > 1:
                d = g[0]
                lo = ZERO if lo is None else norm_index(lo, n)
                hi = n if hi is None else norm_index(hi, n)
                cnt = floor((hi - lo + step - 1) / P(step))
                r.org[d] = ('rng', lo, step, len(r.dims), cnt, False)
                r.axes.append([len(r.dims)])
                r.dims.append(cnt)
                continue
            raise Undecided('slice step')
        lo = ZERO if lo is None else norm_index(lo, n)
        hi = n if hi is None else norm_index(hi, n)
        hi = clip_hi(hi, n)
        if len(g) == 1:
            d = g[0]
            cnt = hi - lo
            s = sign_of(cnt)
            if s in (-1, -2, 0):
                cnt = ZERO
            whole = lo.is_zero() and same(hi, n)
            if cnt.const() == 1:
                r.org[d] = ('fix', lo)
                r.axes.append([])
            else:
                r.org[d] = ('rng', lo, 1, len(r.dims), cnt, whole)
                r.axes.append([len(r.dims)])
                r.dims.append(cnt)
            continue
        if not g:
            if lo.is_zero():
                r.axes.append([])
                continue
            raise Undecided('slice of a length-one axis')
        # a flattened group: whole blocks of the leading dim only
        inner = prod(a.dims[d] for d in g[1:])
        q1, q2 = divide(lo, inner), divide(hi, inner)
        if q1 is None or q2 is None or not q1[1].is_zero() \
                or not q2[1].is_zero():
            raise Undecided('slice inside a flattened axis')
        cnt = q2[0] - q1[0]
        ng = []
        d = g[0]
        if cnt.const() == 1:
            r.org[d] = ('fix', q1[0])
        else:
            r.org[d] = ('rng', q1[0], 1, len(r.dims), cnt,
                        q1[0].is_zero() and same(cnt, a.dims[d]))
            ng.append(len(r.dims))
            r.dims.append(cnt)
        for d in g[1:]:
            r.org[d] = ('rng', ZERO, 1, len(r.dims), a.dims[d], True)
            ng.append(len(r.dims))
            r.dims.append(a.dims[d])
        r.axes.append(ng)
    return r


def clip_hi(hi, n):
    d = sign_of(hi - n)
    if d in (1, 2):
        return n
    return hi


def read_sel(a, r):
    mp = {}
    for d, o in r.org.items():
        if o[0] == 'fix':
            mp[ixa(d)] = o[1]
        else:
            mp[ixa(d)] = o[1] + ix(o[3]) * o[2]
    e = ren(a.e, mp)
    e = const_dims(e, a, r)
    return squeeze1(Arr(r.dims, r.axes, e, a.kind))


def const_dims(e, a, r):
    return e


def write_sel(a, r, val):
    """contents of `a` after the selected part has been set to Arr val"""
    sel = Arr(r.dims, r.axes, ZERO)
    # broadcast val to the selection
    val = squeeze1(val)
    sq = squeeze1(sel)
    try:
        dims, axes, es, mask = align([sq, val])
    except Undecided:
        raise
    if len(axes) > len(sq.axes) and any(axes[:len(axes) - len(sq.axes)]):
        raise Undecided('value has more axes than the target')
    if mask is not None:
        raise Undecided('masked value')
    if tuple(dims) != tuple(sq.dims):
        # the selection was refined by the value: refine the target too
        return None
    # undo the squeeze: map squeezed positions back to r positions
    keep = [i for i, d in enumerate(r.dims) if d.const() != 1]
    mp = {ixa(n): ('p', o) for n, o in enumerate(keep)}
    inv = {}
    inside = ONE
    for d, o in r.org.items():
        if o[0] == 'fix':
            inside = inside * at_index(d, o[1], a.dims[d])
        else:
            inv[o[3]] = (ix(d) - o[1]) if o[2] == 1 else \
                (o[1] - ix(d)) if o[2] == -1 else None
            if inv[o[3]] is None:
                raise Undecided('strided store')
            if not o[5]:
                if o[2] == 1:
                    inside = inside * in_range(ix(d), o[1], o[1] + o[4],
                                               a.dims[d])
                else:
                    inside = inside * in_range(ix(d), o[1] - o[4] + 1,
                                               o[1] + 1, a.dims[d])
    sub = {ixa(n): inv[o] for n, o in enumerate(keep)}
    v = ren(es[1], sub)
    return ite(inside, v, a.e)


def at_index(d, p, n):
    if n.const() == 1:
        return ONE
    return eq0(ix(d) - p)


def in_range(x, lo, hi, n):
    c = ONE
    if not lo.is_zero():
        c = c * (ONE - lt0(x - lo))
    if not same(hi, n):
        c = c * lt0(x - hi)
    return c


# ------------------------------------------------------------------ stacking

def is_two(p):
    return p.const() == 2


def block2(d, e0, e1):
    """element of a length-two dimension d"""
    if e0 == e1:
        return e0
    b = eq0(ix(d))
    return b * e0 + (ONE - b) * e1


def block_at(e, d, k):
    return deep(e, {ixa(d): P(k)})


def canon_two(e, d):
    if ixa(d) not in e.free():
        return e
    return block2(d, block_at(e, d, 0), block_at(e, d, 1))


def up(e, n, at=0):
    """shift index atoms >= at by n positions"""
    mp = {}
    for a in e.free():
        if a.kind == 'ix' and a.args[0] >= at:
            mp[a] = ix(a.args[0] + n)
    return ren(e, mp)


def join_new(arrs):
    """stack along a new leading axis"""
    dims, axes, es, mask = align(arrs)
    if mask is not None:
        raise Undecided('stack of masked arrays')
    n = len(arrs)
    es = [up(e, 1) for e in es]
    axes = [[0]] + [[d + 1 for d in g] for g in axes]
    if n == 1:
        return squeeze1(Arr([ONE] + dims, axes, es[0]))
    e = pick_n(es, 0)
    return Arr([P(n)] + dims, axes, e, join_kind([a.kind for a in arrs]))


def pick_n(es, d):
    if all(x == es[0] for x in es):
        return es[0]
    if len(es) == 2:
        return block2(d, es[0], es[1])
    e = es[-1]
    for k in range(len(es) - 2, -1, -1):
        e = ite(eq0(ix(d) - k), es[k], e)
    return e


def concat(arrs, axis=0):
    """concatenate equal-shaped arrays along an axis"""
    arrs = [squeeze1(a) for a in arrs]
    if len(arrs) == 1:
        return arrs[0]
    sh = [a.shape() for a in arrs]
    if any(len(s) != len(sh[0]) for s in sh):
        raise Undecided('concatenate of different ranks')
    if axis < 0:
        axis += len(sh[0])
    if all(s == sh[0] for s in sh):
        st = join_new(arrs)        # leading new axis [0]
        # move the new dim in front of the group of `axis`
        ax = [list(g) for g in st.axes[1:]]
        order = []
        newaxes = []
        for k, g in enumerate(ax):
            gg = ([0] + g) if k == axis else g
            newaxes.append(range(len(order), len(order) + len(gg)))
            order.extend(gg)
        mp = {ixa(o): ix(n) for n, o in enumerate(order)}
        return Arr([st.dims[o] for o in order], newaxes,
                   ren(st.e, mp), st.kind)
    # different lengths along one single-dim axis
    if all(len(a.axes) == 1 for a in arrs) and axis == 0:
        total = ZERO
        e = None
        parts = []
        for a in arrs:
            ln = a.shape()[0]
            if len(a.axes[0]) == 1:
                parts.append((total, a.e, ln))
            elif not a.axes[0]:
                parts.append((total, a.e, ONE))
            else:
                b = opaque_flat(a.dims, a.e)
                parts.append((total, elem(b, (ix(0),)), ln))
            total = total + ln
        for off, pe, ln in reversed(parts):
            pe = ren(pe, {ixa(0): ix(0) - off})
            e = pe if e is None else ite(lt0(ix(0) - off - ln), pe, e)
        return Arr([total], [[0]], e, join_kind([a.kind for a in arrs]))
    raise Undecided('concatenate of different shapes')


# ------------------------------------------------------------------ matrices

_PER = {}


def periodic_in(x, d):
    """every occurrence of index d is an argument of a periodic array"""
    a0 = ixa(d)
    k = (x, d)
    r = _PER.get(k)
    if r is None:
        r = all(_per_atom(a, a0, d) for m in x.t for a, _ in m)
        _PER[k] = r
    return r


def _per_atom(a, a0, d):
    if a is a0:
        return False
    if a0 not in a.free:
        return True
    if a.kind == 'el':
        b = a.args[0]
        for p, n in zip(a.args[1], b.dims):
            if a0 in p.free() and (n is None or not _affine(p, a0)):
                return False
        return True
    if a.kind == 'ind' and a.args[0] != 'flag':
        # a comparison of array elements is as periodic as its operands
        return periodic_in(a.args[1], d)
    if a.kind == 'sum':
        return all(a0 not in lo.free() and a0 not in hi.free()
                   for _, lo, hi in a.args[0]) and \
            periodic_in(a.args[1], d)
    if a.kind in ('pw', 'abs', 'cj'):
        return periodic_in(a.args[0], d)
    if a.kind == 'fn':
        return all(periodic_in(q, d) for q in a.args[1]
                   if isinstance(q, Poly)) and not any(
            isinstance(q, tuple) for q in a.args[1])
    return False


def _affine(p, a0):
    """index expression of the form a0 + (terms free of a0)"""
    r = p - P(a0)
    return a0 not in r.free() or a0 not in (p + P(a0)).free()


def pshift(e, d, k, n):
    """periodic shift: element at index ix(d)+k of a length-n dimension"""
    a = ixa(d)
    s = sign_of(k)
    if s == 1:
        return ite(lt0(ix(d) + k - n), ren(e, {a: ix(d) + k}),
                   ren(e, {a: ix(d) + k - n}))
    if s == -1:
        return ite(lt0(ix(d) + k), ren(e, {a: ix(d) + k + n}),
                   ren(e, {a: ix(d) + k}))
    return ren(e, {a: ix(d) + k})


class Sten:
    """sum over shifts k of Diag(coef_k) * Shift_k on a periodic grid"""
    __slots__ = ('dims', 't')

    def __init__(self, dims, t):
        self.dims = tuple(dims)
        out = {}
        for k, c in t.items():
            k = tuple(wrap_index(P(x), n) for x, n in zip(k, self.dims))
            for d, n in enumerate(self.dims):
                if is_two(n):
                    c = canon_two(c, d)
            if k in out:
                c = out[k] + c
            out[k] = c
        self.t = {k: c for k, c in out.items() if not c.is_zero()}

    def shiftp(self, e, k):
        mp = {}
        for d, x in enumerate(k):
            if not x.is_zero():
                if is_two(self.dims[d]):
                    e = block2(d, block_at(e, d, 1), block_at(e, d, 0))
                elif ixa(d) in e.free():
                    if periodic_in(e, d):
                        mp[ixa(d)] = ix(d) + x
                    else:
                        e = pshift(e, d, x, self.dims[d])
        return ren(e, mp)

    def mul(self, o):
        out = {}
        for k, c in self.t.items():
            for l, c2 in o.t.items():
                m = tuple(wrap_index(x + y, n)
                          for x, y, n in zip(k, l, self.dims))
                v = c * self.shiftp(c2, k)
                out[m] = out[m] + v if m in out else v
        return Sten(self.dims, out)

    def add(self, o):
        out = dict(self.t)
        for k, c in o.t.items():
            out[k] = out[k] + c if k in out else c
        return Sten(self.dims, out)

    def map(self, f):
        return Sten(self.dims, {k: f(c) for k, c in self.t.items()})

    def T(self):
        out = {}
        for k, c in self.t.items():
            nk = tuple(wrap_index(-x, n) for x, n in zip(k, self.dims))
            v = self.shiftp(c, nk)
            out[nk] = out[nk] + v if nk in out else v
        return Sten(self.dims, out)

    def apply(self, e):
        r = ZERO
        for k, c in self.t.items():
            r = r + c * self.shiftp(e, k)
        return r

    def is_diag(self):
        return all(all(x.is_zero() for x in k) for k in self.t)

    def diag(self):
        r = ZERO
        for k, c in self.t.items():
            if all(x.is_zero() for x in k):
                r = r + c
        return r


class Op:
    """an opaque linear operator"""
    __slots__ = ('name', 'rd', 'cd', 'tr', 'cj', 'info', 'real')

    def __init__(self, name, rd, cd, tr=False, cj=False, info=None,
                 real=False):
        self.name = name
        self.rd = tuple(rd)
        self.cd = tuple(cd)
        self.tr = tr
        self.cj = cj and not real
        self.info = info
        self.real = real

    def key(self):
        return ('op', self.name, self.tr, self.cj)


def op_apply(op, e):
    """linear in e; e over op.cd dims, result over op.rd dims"""
    n = len(op.cd)
    out = ZERO
    bound = set(ixa(d) for d in range(n))
    for m, c in e.t.items():
        sc = []
        inn = []
        for a, x in m:
            (inn if (a.free & bound or a in bound) else sc).append((a, x))
        inner = Poly({tuple(inn): F(1)})
        b = Base(('mv', op.key(), tuple(op.cd), inner), tuple(op.rd),
                 real=op.real and is_real(inner), info=(op, inner))
        out = out + Poly({tuple(sc): c}) * elem(
            b, [ix(i) for i in range(len(op.rd))])
    return out


class Mat:
    """sum of words; a word is a tuple of Sten / Op factors"""
    __slots__ = ('rd', 'cd', 'words', 'info')

    def __init__(self, rd, cd, words, info=None):
        self.rd = tuple(rd)
        self.cd = tuple(cd)
        st = {}
        out = []
        acc = None
        for w in words:
            if len(w) == 1 and isinstance(w[0], Sten):
                acc = w[0] if acc is None else acc.add(w[0])
            else:
                out.append(w)
        if acc is not None:
            out.insert(0, (acc,))
        self.words = out
        self.info = info

    def sten(self):
        if not self.words:
            return Sten(self.rd, {})
        if len(self.words) == 1 and len(self.words[0]) == 1 \
                and isinstance(self.words[0][0], Sten):
            return self.words[0][0]
        return None

    def apply(self, e):
        r = ZERO
        for w in self.words:
            v = e
            for f in reversed(w):
                v = f.apply(v) if isinstance(f, Sten) else op_apply(f, v)
            r = r + v
        return r

    def key(self):
        g = Base('generic vector', self.cd)
        e = self.apply(elem(g, [ix(i) for i in range(len(self.cd))]))
        return ('M', self.rd, self.cd, e)

    def __repr__(self):
        return 'Mat{%s}' % show(self.key()[3], 8)


def msten(s):
    return Mat(s.dims, s.dims, [(s,)])


def mdiag(dims, e):
    return msten(Sten(dims, {tuple(ZERO for _ in dims): e}))


def mident(n):
    return mdiag((n,), ONE)


def mzero(n):
    return Mat((n,), (n,), [])


def refine_mat(m, dims):
    """a diagonal matrix over one flat dim, re-expressed over `dims`"""
    if m.rd == tuple(dims) and m.cd == tuple(dims):
        return m
    s = m.sten()
    if s is None or m.rd != m.cd:
        return None
    g = match_group(list(m.rd), list(dims))
    if g is None:
        return None
    mp = {}
    for d, (i, j) in enumerate(g):
        mp[ixa(d)] = flat_index(dims[i:j], range(i, j))
    out = {}
    for k, c in s.t.items():
        nk = []
        for x, (i, j) in zip(k, g):
            if j - i == 1:
                nk.append(x)
            elif x.is_zero():
                nk.extend([ZERO] * (j - i))
            else:
                return None
        out[tuple(nk)] = ren(c, mp)
    return msten(Sten(dims, out))


def opaque_mat(m, dims):
    """m seen through a different factorisation of its index space"""
    return Mat(dims, dims, [(Op(('refl', tuple(m.rd), tuple(dims), m.key()),
                                dims, dims),)])


def conform(a, ad, bd):
    """common dims for two index spaces of the same total size"""
    ad, bd = tuple(ad), tuple(bd)
    if ad == bd:
        return ad
    if not same(prod(ad), prod(bd)):
        raise Mismatch('matrix sizes do not match: %s and %s' % (
            [show(x) for x in ad], [show(x) for x in bd]),
            P(prod(ad)), P(prod(bd)))
    return ad if len(ad) >= len(bd) else bd


def to_dims(m, dims):
    if m.rd == tuple(dims) and m.cd == tuple(dims):
        return m
    r = refine_mat(m, dims)
    if r is None:
        if not same(prod(m.rd), prod(dims)):
            raise Mismatch('matrix sizes do not match', P(prod(m.rd)),
                           P(prod(dims)))
        r = opaque_mat(m, dims)
    return r


def madd(a, b, sb=1):
    if a.rd != b.rd or a.cd != b.cd:
        d = conform(None, a.rd, b.rd)
        a, b = to_dims(a, d), to_dims(b, d)
    return Mat(a.rd, a.cd, a.words + [w for w in mscale(b, P(sb)).words])


def mscale(a, c):
    if c == ONE:
        return a
    if not a.words:
        return a
    out = []
    for w in a.words:
        if isinstance(w[0], Sten):
            out.append((w[0].map(lambda x: c * x),) + tuple(w[1:]))
        else:
            out.append((Sten(w[0].rd, {tuple(ZERO for _ in w[0].rd): c}),)
                       + tuple(w))
    return Mat(a.rd, a.cd, out)


def mmul(a, b):
    if a.cd != b.rd:
        d = conform(None, a.cd, b.rd)
        a, b = to_dims(a, d), to_dims(b, d)
    out = []
    for w in a.words:
        for v in b.words:
            if isinstance(w[-1], Sten) and isinstance(v[0], Sten):
                out.append(tuple(w[:-1]) + (w[-1].mul(v[0]),) + tuple(v[1:]))
            else:
                out.append(tuple(w) + tuple(v))
    return Mat(a.rd, b.cd, out)


def mT(a):
    out = []
    for w in a.words:
        out.append(tuple(
            f.T() if isinstance(f, Sten) else
            Op(f.name, f.cd, f.rd, not f.tr, f.cj, f.info, f.real)
            for f in reversed(w)))
    return Mat(a.cd, a.rd, out)


def mconj(a):
    out = []
    for w in a.words:
        out.append(tuple(
            f.map(conj) if isinstance(f, Sten) else
            Op(f.name, f.rd, f.cd, f.tr, not f.cj, f.info, f.real)
            for f in w))
    return Mat(a.rd, a.cd, out)


def mreal(a):
    return mscale(madd(a, mconj(a)), P(F(1, 2)))


def mimag(a):
    return mscale(madd(a, mconj(a), -1), J * F(-1, 2))


def vec_align(m, v):
    """matrix and vector over the same factorisation of the index space"""
    if v.mask is not None:
        raise Undecided('matrix times a masked selection')
    v = squeeze1(v)
    if len(v.axes) not in (1, 2):
        raise Undecided('matrix times array of rank %d' % len(v.axes))
    g = v.axes[0]
    gd = tuple(v.dims[d] for d in g)
    if gd != m.cd:
        if len(v.axes) == 2 and v.axes[1]:
            raise Undecided('matrix times misaligned matrix')
        d = conform(None, m.cd, gd)
        if m.rd == m.cd:
            m = to_dims(m, d)
        elif m.cd != d:
            raise Undecided('rectangular matrix times misaligned vector')
        if gd != tuple(d):
            mt = match_group(list(gd), list(d))
            if mt is not None:
                mp = {}
                for k, (i, j) in enumerate(mt):
                    mp[ixa(k)] = flat_index(d[i:j], range(i, j))
                v = Arr(d, [range(len(d))] + [[]] * (len(v.axes) - 1),
                        ren(v.e, mp), v.kind)
            else:
                b = opaque_flat(gd, v.e)
                v = Arr(d, [range(len(d))] + [[]] * (len(v.axes) - 1),
                        elem(b, (flat_index(d, range(len(d))),)), v.kind)
    if len(m.rd) != len(m.cd) and len(v.axes) == 2 and v.axes[1]:
        raise Undecided('rectangular matrix times matrix')
    return m, v


def mvec(m, v):
    """matrix times Arr vector (n,), (n,1) or (n,k)"""
    m, v = vec_align(m, v)
    e = m.apply(v.e)
    return Arr(m.rd + tuple(v.dims[len(m.cd):]),
               [range(len(m.rd))] + [
                   [x - len(m.cd) + len(m.rd) for x in a]
                   for a in v.axes[1:]], e,
               'c' if not is_real(e) else 'f')


def mkron(a, b):
    sa, sb = a.sten(), b.sten()
    if sa is None or sb is None:
        raise Undecided('kron of opaque operators')
    n = len(a.rd)
    out = {}
    for k, c in sa.t.items():
        for l, c2 in sb.t.items():
            out[tuple(k) + tuple(l)] = c * up(c2, n)
    m = msten(Sten(a.rd + b.rd, out))
    return drop_ones(m)


def drop_ones(m):
    keep = [i for i, d in enumerate(m.rd) if d.const() != 1]
    if len(keep) == len(m.rd) or not keep:
        return m
    s = m.sten()
    mp = {}
    for i in range(len(m.rd)):
        mp[ixa(i)] = ix(keep.index(i)) if i in keep else ZERO
    out = {}
    for k, c in s.t.items():
        nk = tuple(k[i] for i in keep)
        c = ren(c, mp)
        out[nk] = out[nk] + c if nk in out else c
    return msten(Sten([m.rd[i] for i in keep], out))


def mdiags(bands, offsets, n):
    """scipy.sparse.diags with scalar bands: entry (r, r+k) when in range"""
    out = {}
    for v, k in zip(bands, offsets):
        k = P(k)
        r = ix(0)
        s = sign_of(k)
        if s == 0:
            ind = ONE
        elif s == 1:
            ind = lt0(r + k - n)
        elif s == -1:
            ind = ONE - lt0(r + k)
        else:
            ind = (ONE - lt0(r + k)) * lt0(r + k - n)
        ind = edge(ind, n)
        kk = (wrap_index(k, n),)
        out[kk] = (out.get(kk, ZERO)) + P(v) * ind
    return msten(Sten((n,), out))


def edge(ind, n):
    return ind


def block_matrix(rows):
    """[[A,B],[C,D]] of equal square blocks -> matrix with a leading 2-dim"""
    if len(rows) != 2 or any(len(r) != 2 for r in rows):
        raise Undecided('block structure')
    ms = [m for r in rows for m in r]
    d = ms[0].rd
    for m in ms:
        d = conform(None, d, m.rd)
    rows = [[to_dims(m, d) for m in r] for r in rows]
    nd = (P(2),) + tuple(d)
    out = {}
    sts = [[m.sten() for m in r] for r in rows]
    if any(s is None for r in sts for s in r):
        raise Undecided('block of opaque operators')
    for i in range(2):
        for j in range(2):
            kb = P((j - i) % 2)
            row = eq0(ix(0)) if i == 0 else ONE - eq0(ix(0))
            for k, c in sts[i][j].t.items():
                key = (kb,) + tuple(k)
                v = row * up(c, 1)
                out[key] = out[key] + v if key in out else v
    return msten(Sten(nd, out))


class HBlocks:
    def __init__(self, ms):
        self.ms = list(ms)


class VBlocks:
    def __init__(self, ms):
        self.ms = list(ms)


def mat_content(m):
    """scalar factor common to all entries of a stencil matrix"""
    st = m.sten()
    if st is None or not st.t:
        return None
    bound = set(ixa(d) for d in range(len(m.rd)))
    common = None
    for co in st.t.values():
        for mm in co.t:
            sc = {a: x for a, x in mm
                  if not (a.free & bound) and a not in bound
                  and a.kind == 'sym'}
            common = sc if common is None else \
                {a: x for a, x in common.items() if sc.get(a) == x}
    if common is None:
        return None
    return Poly({tuple(sorted(common.items(), key=lambda z: z[0].id)):
                 F(1)})


def solve_elem(m, b, extra=None):
    """x with M x = b, as an uninterpreted function linear in scalars of b

    and homogeneous in scalars of M"""
    dims = m.rd
    e = b
    c = ONE
    mc = mat_content(m)
    if mc is not None and mc != ONE:
        m = mscale(m, power(mc, F(-1)))
    else:
        mc = ONE
    if not e.is_zero():
        bound = set(ixa(d) for d in range(len(dims)))
        # scalar content of the right-hand side
        common = None
        for mm in e.t:
            sc = {a: x for a, x in mm
                  if not (a.free & bound) and a not in bound}
            if common is None:
                common = sc
            else:
                common = {a: x for a, x in common.items() if sc.get(a) == x}
        lc = lead(e)
        cm = tuple(sorted(common.items(), key=lambda z: z[0].id))
        c = Poly({cm: lc})
        e = e * power(c, F(-1))
    base = Base(('solve', m.key(), e), dims, info=(m, e))
    if mc != ONE:
        c = c * power(mc, F(-1))
    return c * elem(base, [ix(i) for i in range(len(dims))])
