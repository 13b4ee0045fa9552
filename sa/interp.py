"""Abstract interpreter for the Python subset used by the repository.

Forward value-flow analysis over the syntax tree.  Branches on unknown
conditions are joined (never enumerated), symbolic loops are summarised, and
every value is an algebraic normal form (see alg.py, arr.py).  No code of the
analysed repository is executed.
"""
import ast
import os
from .alg import *
from .alg import _intern
from .arr import *

MAXDEPTH = 60


GRID = frozenset(next(iter(sym(n, isint=True, lb=5).t))[0][0]
                 for n in ('Nx', 'Ny'))


class Dead(Exception):
    """control cannot reach the next statement on this path"""


class Ref:
    __slots__ = ('id', 'ty')

    def __init__(self, i, ty):
        self.id = i
        self.ty = ty

    def __eq__(self, o):
        return isinstance(o, Ref) and o.id == self.id

    def __hash__(self):
        return hash(('ref', self.id))

    def __repr__(self):
        return '<%s#%d>' % (self.ty, self.id)


class ScopeC:
    __slots__ = ('vars', 'parent', 'locs')

    def __init__(self, vars, parent, locs=None):
        self.vars = vars
        self.parent = parent
        self.locs = locs


class ObjC:
    __slots__ = ('cls', 'attrs')

    def __init__(self, cls, attrs):
        self.cls = cls
        self.attrs = attrs


class ListC:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)


class DictC:
    __slots__ = ('d',)

    def __init__(self, d):
        self.d = d


class ArrC:
    """own contents, or a view (base id, operation) of another array"""
    __slots__ = ('a', 'base', 'vop')

    def __init__(self, a=None, base=None, vop=None):
        self.a = a
        self.base = base
        self.vop = vop


class Seg:
    """items f(i) for i in [lo,hi) when guard(i): comprehension segment"""
    __slots__ = ('var', 'lo', 'hi', 'items')

    def __init__(self, var, lo, hi, items):
        self.var = var
        self.lo = lo
        self.hi = hi
        self.items = tuple(items)

    def deep_sub(self, mp, cache):
        return Seg(self.var, deep(self.lo, mp), deep(self.hi, mp),
                   [sub_value(x, mp) for x in self.items])


class GItem:
    """an item present only when the condition holds"""
    __slots__ = ('cond', 'val')

    def __init__(self, cond, val):
        self.cond = cond
        self.val = val


class PrefixMark:
    """the (unknown) items a list had at the start of a loop iteration"""
    __slots__ = ('uid',)

    def __init__(self, uid):
        self.uid = uid


class Choice:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c = c
        self.a = a
        self.b = b

    def __repr__(self):
        return 'Choice(%s,%r,%r)' % (show(self.c), self.a, self.b)


class Unbound:
    def __repr__(self):
        return '<unbound>'


UNBOUND = Unbound()


class RangeV:
    __slots__ = ('lo', 'hi', 'step')

    def __init__(self, lo, hi, step=ONE):
        self.lo = lo
        self.hi = hi
        self.step = step


class SymIter:
    """symbolic iteration: item(index poly) for index in [lo, hi)"""

    def __init__(self, lo, hi, item):
        self.lo = lo
        self.hi = hi
        self.item = item


class FuncV:
    __slots__ = ('node', 'scope', 'mod', 'qual', 'defaults', 'kwd', 'cls')

    def __init__(self, node, scope, mod, qual, defaults, kwd, cls=None):
        self.node = node
        self.scope = scope
        self.mod = mod
        self.qual = qual
        self.defaults = defaults
        self.kwd = kwd
        self.cls = cls

    def __repr__(self):
        return '<function %s>' % self.qual


class Bound:
    __slots__ = ('obj', 'fn')

    def __init__(self, obj, fn):
        self.obj = obj
        self.fn = fn


class Builtin:
    __slots__ = ('name', 'f', 'nparams', 'extra')

    def __init__(self, name, f, nparams=None, extra=None):
        self.name = name
        self.f = f
        self.nparams = nparams
        self.extra = extra

    def __repr__(self):
        return '<builtin %s>' % (self.name,)


class Ext:
    """a name of an external library, by canonical dotted path"""
    __slots__ = ('path',)

    def __init__(self, path):
        self.path = path

    def __eq__(self, o):
        return isinstance(o, Ext) and o.path == self.path

    def __hash__(self):
        return hash(('ext', self.path))

    def __repr__(self):
        return '<ext %s>' % self.path


def never_none(k):
    """objects handed out by matplotlib"""
    while isinstance(k, tuple) and k:
        if k[0] == 'object':
            return True
        if k[0] == 'call' and len(k) > 1:
            k = k[1]
            if isinstance(k, str):
                return k.startswith('matplotlib')
        else:
            k = k[0]
    return False


class Opaque:
    """a value only identified by how it was obtained"""
    __slots__ = ('key', 'is_str')

    def __init__(self, key, is_str=False):
        self.key = key
        self.is_str = is_str

    def __eq__(self, o):
        return isinstance(o, Opaque) and o.key == self.key

    def __hash__(self):
        return hash(('opq', self.key))

    def __repr__(self):
        return '<opaque %s>' % (str(self.key)[:60],)


class ClassV:
    __slots__ = ('name', 'bases', 'ns', 'mod', 'ext')

    def __init__(self, name, bases, ns, mod, ext=None):
        self.name = name
        self.bases = bases
        self.ns = ns
        self.mod = mod
        self.ext = ext

    def lookup(self, n):
        if n in self.ns:
            return self.ns[n]
        for b in self.bases:
            if isinstance(b, ClassV):
                r = b.lookup(n)
                if r is not None:
                    return r
        return None

    def __repr__(self):
        return '<class %s>' % self.name


class PropV:
    __slots__ = ('get', 'set')

    def __init__(self, get, set=None):
        self.get = get
        self.set = set


class ModV:
    __slots__ = ('name', 'scope')

    def __init__(self, name, scope):
        self.name = name
        self.scope = scope


class ExcV:
    """an exception instance"""
    __slots__ = ('cls', 'args')

    def __init__(self, cls, args=()):
        self.cls = cls
        self.args = args

    def __repr__(self):
        return '%s(%s)' % (self.cls, ', '.join(map(repr, self.args)))


class Raised:
    """one raise outcome: absolute condition, exception, place"""

    def __init__(self, cond, exc, where, heap, implicit):
        self.cond = cond
        self.exc = exc
        self.where = where
        self.heap = heap
        self.implicit = implicit

    def __repr__(self):
        return '%r at %s' % (self.exc, self.where)


class LoopRec:
    """what is known about one summarised loop"""
    pass


def isnum(v):
    return isinstance(v, (Poly, bool)) and v is not None


def num(v):
    return v if isinstance(v, Poly) else P(v)


def sub_value(v, mp):
    """substitute atoms inside a first-order value"""
    if isinstance(v, Poly):
        return deep(v, mp)
    if isinstance(v, tuple):
        return tuple(sub_value(x, mp) for x in v)
    if isinstance(v, GItem):
        return GItem(deep(v.cond, mp), sub_value(v.val, mp))
    if isinstance(v, Seg):
        return Seg(v.var, deep(v.lo, mp), deep(v.hi, mp),
                   [sub_value(x, mp) for x in v.items])
    if isinstance(v, Choice):
        return Choice(deep(v.c, mp), sub_value(v.a, mp), sub_value(v.b, mp))
    if isinstance(v, Arr):
        return Arr([deep(d, mp) for d in v.dims], v.axes,
                   deep(v.e, mp), v.kind,
                   None if v.mask is None else deep(v.mask, mp))
    if isinstance(v, Mat):
        return sub_mat(v, mp)
    if isinstance(v, RangeV):
        return RangeV(deep(v.lo, mp), deep(v.hi, mp), deep(v.step, mp))
    return v


def sub_mat(m, mp):
    out = []
    for w in m.words:
        ww = []
        for f in w:
            if isinstance(f, Sten):
                ww.append(Sten(f.dims, {tuple(deep(x, mp) for x in k):
                                        deep(c, mp)
                                        for k, c in f.t.items()}))
            else:
                ww.append(f)
        out.append(tuple(ww))
    return Mat(m.rd, m.cd, out)


class Frame:
    def __init__(self, fn):
        self.fn = fn
        self.returns = []
        self.loops = []


class _Unbounded(Exception):
    pass


def nonneg(x, depth=4):
    if sign_of(x) in (0, 1, 2):
        return True
    if not depth:
        return False
    for m in x.t:
        for a, _ in m:
            if a.kind == 'el' and a.args[0].binary:
                return all(nonneg(deep(x, {a: v}), depth - 1)
                           for v in (ZERO, ONE))
    return False


def size_atom(b):
    """non-negative for every contents of the arrays in it"""
    if b.kind == 'fn' and b.args[0] == 'max':
        x = b.args[1][0]
        return isinstance(x, Poly) and nonneg(x)
    return sign_of(P(b)) in (1, 2)


def distinct(v):
    """assume that sizes of differences (maxima and sums of absolute values
    over whole arrays) exceed the tiny constants they are compared with"""
    mp = {}
    for m in v.t:
        for a, _ in m:
            if a.kind == 'ind' and a.args[0] == 'lt':
                q = a.args[1]
                c = q.t.get((), F(0))
                x = P(c) - q
                if 0 <= c <= F(1, 10 ** 6) and x.t and all(
                        k > 0 and n and all(size_atom(b) for b, _ in n)
                        for n, k in x.t.items()) and any(
                        b.kind in ('sum', 'fn') for n in x.t for b, _ in n):
                    mp[a] = ONE
    return deep(v, mp) if mp else v


class Interp:

    def __init__(self, root='/repo', cfg=None):
        self.root = root
        self.cfg = dict(cfg or {})
        self.heap = {}
        self.nid = 0
        self.facts = {}
        self.pc = ONE
        self.pcstack = []
        self.pending = []
        self.events = []
        self.modules = {}
        self.frames = []
        self.opaque = {}
        self.loops = []
        self.loopdepth = 0
        self.uid = 0
        self.nodes = []
        self.ncalls = 0
        self.functions = set()
        self.reads = 0
        self.notes = []
        self.watch_ext = {}
        self.optim_calls = []
        self.profiles = []
        from . import lib
        self.lib = lib
        self.builtins = lib.make_builtins(self)

    # ------------------------------------------------------------ heap
    def new(self, cell, ty):
        self.nid += 1
        self.heap[self.nid] = cell
        return Ref(self.nid, ty)

    def cell(self, r):
        return self.heap[r.id]

    def mkarr(self, a):
        return self.new(ArrC(squeeze1(a)), 'arr')

    def mklist(self, items):
        return self.new(ListC(items), 'list')

    def mkdict(self, d):
        return self.new(DictC(dict(d)), 'dict')

    def fresh(self):
        self.uid += 1
        return self.uid

    # array contents -------------------------------------------------
    def contents(self, r):
        c = self.heap[r.id]
        if c.base is None:
            return c.a
        return apply_vop(self.contents(Ref(c.base, 'arr')), c.vop)

    def set_contents(self, r, a):
        c = self.heap[r.id]
        if c.base is None:
            self.heap[r.id] = ArrC(a)
            return
        base = Ref(c.base, 'arr')
        self.set_contents(base, unapply_vop(self.contents(base), c.vop, a))

    def view(self, r, vop):
        return self.new(ArrC(None, r.id, vop), 'arr')

    def root_of(self, r):
        c = self.heap[r.id]
        while c.base is not None:
            r = Ref(c.base, 'arr')
            c = self.heap[r.id]
        return r

    def arr(self, v):
        """array contents of any array-like value"""
        if isinstance(v, Ref) and v.ty == 'arr':
            return self.contents(v)
        if isinstance(v, (Poly, bool)):
            return Arr((), (), num(v), 'b' if isinstance(v, bool) else None)
        if isinstance(v, Ref) and v.ty == 'list' or isinstance(v, tuple):
            items = self.items(v)
            return self.stack_items(items)
        if isinstance(v, Choice):
            v = self.refine(v)
            if not isinstance(v, Choice):
                return self.arr(v)
            c = v.c
            return ewise(lambda a, b: ite(c, a, b),
                         [self.under(c, lambda: self.arr(v.a)),
                          self.under(ONE - c, lambda: self.arr(v.b))])
        if isinstance(v, RangeV):
            n = self.range_len(v)
            return full([n], ZERO, 'i').with_e(v.lo + ix(0) * v.step, 'i')
        if isinstance(v, Opaque):
            return Arr((), (), self.opaque_num(v), None)
        raise Undecided('not an array: %r' % (v,))

    def stack_items(self, items):
        if any(isinstance(x, (Seg, GItem, PrefixMark)) for x in items):
            if len(items) == 1 and isinstance(items[0], Seg):
                s = items[0]
                if len(s.items) == 1 and isinstance(s.items[0], Poly):
                    n = s.hi - s.lo
                    e = deep(s.items[0], {s.var: ix(0) + s.lo})
                    return Arr([n], [[0]], e, None)
            raise Undecided('array of a list built in a loop')
        if not items:
            return Arr([ZERO], [[0]], ZERO, 'f')
        return join_new([self.arr(x) for x in items])

    def items(self, v):
        """concrete item list of a list/tuple/set value"""
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, Ref) and v.ty in ('list', 'set'):
            return list(self.heap[v.id].items)
        if isinstance(v, RangeV):
            n = self.range_len(v).as_int()
            if n is None:
                raise Undecided('symbolic range used as a list')
            return self.range_items(v, n)
        if isinstance(v, Ref) and v.ty == 'dict':
            return [self.unkey(k) for k in self.heap[v.id].d]
        raise Undecided('not a sequence: %r' % (v,))

    def range_items(self, v, n):
        mp = self.cfg.get('iteration_map')
        if mp and n == mp[0] and self.frame.file == mp[1]:
            # iterations 0, K, K+1, ... for an arbitrary K >= 1
            return [v.lo + v.step * (P(k) if k == 0 else mp[2] + (k - 1))
                    for k in range(n)]
        return [v.lo + v.step * k for k in range(n)]

    def range_len(self, r):
        if r.step == ONE:
            d = r.hi - r.lo
            if d.const() is not None and d.const() < 0:
                return ZERO
            return d
        if r.step == -ONE:
            d = r.lo - r.hi
            if d.const() is not None and d.const() < 0:
                return ZERO
            return d
        c = (r.hi - r.lo).const(), r.step.const()
        if None not in c:
            return P(len(range(0, int(c[0]), int(c[1]))))
        raise Undecided('range step')

    # ------------------------------------------------------- conditions
    def simp(self, p):
        if self.facts and isinstance(p, Poly):
            ms = mentions(p)
            f = {a: v for a, v in self.facts.items() if a in ms
                 or any(a is x for m in p.t for x, _ in m)}
            # indicator atoms are not listed by mentions(): test directly
            f = {a: v for a, v in self.facts.items()}
            return deep(p, f) if has_atoms(p, f) else p
        return p

    def facts_of(self, c):
        """indicator atoms fixed by assuming the condition c"""
        out = {}
        if len(c.t) == 1:
            (m, k), = c.t.items()
            if k == 1:
                for a, e in m:
                    if a.kind == 'ind':
                        out[a] = ONE
        n = ONE - c
        if len(n.t) == 1:
            (m, k), = n.t.items()
            if k == 1 and len(m) == 1 and m[0][0].kind == 'ind':
                out[m[0][0]] = ZERO
        # products of complements: (1-a)(1-b)...
        for a in ind_atoms(c):
            if a.kind != 'ind' or a in out:
                continue
            if replace_atoms(c, {a: ONE}).is_zero():
                out[a] = ZERO
            elif replace_atoms(c, {a: ZERO}).is_zero():
                out[a] = ONE
        # equalities also fix symbols
        for a, v in list(out.items()):
            if v == ONE and a.args[0] == 'eq':
                q = a.args[1]
                for m, k in q.t.items():
                    if len(m) == 1 and m[0][1] == 1 and \
                            m[0][0].kind == 'sym' and abs(k) == 1:
                        s = m[0][0]
                        rest = (P(s) * k - q) * P(1 / k)
                        if s not in mentions(rest) and \
                                self.cfg.get('eqfacts', True):
                            out[s] = rest
                        break
        return out

    def under(self, c, f):
        """evaluate f with the facts implied by the condition c"""
        facts0 = self.facts
        self.facts = dict(facts0)
        try:
            self.facts.update(self.facts_of(c))
            return f()
        finally:
            self.facts = facts0

    def refine(self, v):
        while isinstance(v, Choice):
            c = self.simp(v.c)
            if c == ONE:
                v = v.a
            elif c == ZERO:
                v = v.b
            else:
                if c != v.c:
                    v = Choice(c, v.a, v.b)
                break
        return v

    def truth(self, v):
        """the truth value of v as a 0/1 normal form"""
        if isinstance(v, Choice):
            v = self.refine(v)
        if v is None or v is False:
            return ZERO
        if v is True:
            return ONE
        if isinstance(v, Poly):
            v = self.simp(v)
            if self.cfg.get('generic_ne') or self.cfg.get('sizes'):
                v = distinct(v)
            c = v.const()
            if c is not None:
                return ONE if c != 0 else ZERO
            if is_cond(v):
                return v
            return ONE - eq0(v)
        if isinstance(v, str):
            return ONE if v else ZERO
        if isinstance(v, tuple):
            return ONE if v else ZERO
        if isinstance(v, Ref):
            if v.ty in ('list', 'set'):
                it = self.heap[v.id].items
                if not it:
                    return ZERO
                if any(isinstance(x, PrefixMark) for x in it) and \
                        len(it) == 1:
                    return flag(('nonempty', it[0].uid))
                return ONE
            if v.ty == 'dict':
                return ONE if self.heap[v.id].d else ZERO
            if v.ty == 'arr':
                a = self.contents(v)
                if not a.dims and a.mask is None:
                    return self.truth(a.e)
                raise Undecided('truth value of an array')
            return ONE
        if isinstance(v, Choice):
            return ite(v.c, self.truth(v.a), self.truth(v.b))
        if isinstance(v, Opaque):
            return flag(('truth', v.key))
        if isinstance(v, RangeV):
            return self.truth(self.range_len(v))
        return ONE

    def branch(self, c, fa, fb):
        """join of two computations under a condition"""
        c = self.simp(c)
        if c == ONE:
            return fa()
        if c == ZERO:
            return fb()
        heap0, pc0, facts0 = self.heap, self.pc, self.facts
        res = []
        for cond, f in ((c, fa), (ONE - c, fb)):
            self.heap = dict(heap0)
            self.pc = pc0 * cond
            self.facts = dict(facts0)
            new = self.facts_of(cond)
            for a, v in new.items():
                self.facts[a] = v
            try:
                v = f()
                res.append((True, v, self.heap, self.pc, self.facts))
            except Dead:
                res.append((False, None, None, None, None))
        if not res[0][0] and not res[1][0]:
            self.heap, self.pc, self.facts = heap0, pc0, facts0
            raise Dead()
        if not (res[0][0] and res[1][0]):
            r = res[0] if res[0][0] else res[1]
            _, v, self.heap, self.pc, self.facts = r
            return v
        self.heap = self.merge_heap(c, res[0][2], res[1][2])
        self.pc = res[0][3] + res[1][3]
        self.facts = facts0
        return self.merge(c, res[0][1], res[1][1])

    def merge_heap(self, c, h1, h2):
        if h1 is h2:
            return h1
        out = dict(h2)
        self.heap = out
        for k, v in h1.items():
            w = h2.get(k)
            if w is None:
                out[k] = v
            elif w is not v:
                out[k] = self.merge_cell(c, v, w, h1, h2)
        return out

    def merge_cell(self, c, x, y, h1, h2):
        if type(x) is not type(y):
            raise Undecided('merge of cells')
        if isinstance(x, ScopeC):
            vs = {}
            for n in list(x.vars) + [m for m in y.vars if m not in x.vars]:
                vs[n] = self.merge(c, x.vars.get(n, UNBOUND),
                                   y.vars.get(n, UNBOUND))
            return ScopeC(vs, x.parent, x.locs)
        if isinstance(x, ObjC):
            at = {}
            for n in list(x.attrs) + [m for m in y.attrs
                                      if m not in x.attrs]:
                at[n] = self.merge(c, x.attrs.get(n, UNBOUND),
                                   y.attrs.get(n, UNBOUND))
            return ObjC(x.cls, at)
        if isinstance(x, DictC):
            d = {}
            for n in list(x.d) + [m for m in y.d if m not in x.d]:
                d[n] = self.merge(c, x.d.get(n, UNBOUND),
                                  y.d.get(n, UNBOUND))
            return DictC(d)
        if isinstance(x, ListC):
            a, b = x.items, y.items
            n = 0
            while n < len(a) and n < len(b) and (
                    a[n] is b[n] or self.same_value(a[n], b[n])):
                n += 1
            ra, rb = a[n:], b[n:]
            out = list(a[:n])
            if len(ra) == len(rb) and not any(
                    isinstance(z, (Seg, GItem, PrefixMark))
                    for z in ra + rb):
                out += [self.merge(c, p, q) for p, q in zip(ra, rb)]
            else:
                for z in ra:
                    out.append(gitem(c, z))
                for z in rb:
                    out.append(gitem(ONE - c, z))
            return ListC(out)
        if isinstance(x, ArrC):
            if x.base is not None or y.base is not None:
                if x.base == y.base and x.vop == y.vop:
                    return x
                raise Undecided('merge of views')
            if x.a == y.a:
                return x
            return ArrC(ewise(lambda p, q: ite(c, p, q), [x.a, y.a]))
        raise Undecided('merge')

    def same_value(self, a, b):
        if a is b:
            return True
        if isinstance(a, (bool, Poly)) and isinstance(b, (bool, Poly)):
            return num(a) == num(b)
        if type(a) is not type(b):
            return False
        if isinstance(a, (str, Ref, Ext, Opaque)) or a is None:
            return a == b
        if isinstance(a, tuple):
            return len(a) == len(b) and all(
                self.same_value(p, q) for p, q in zip(a, b))
        if isinstance(a, Mat):
            return a.key() == b.key()
        if isinstance(a, GItem):
            return a.cond == b.cond and self.same_value(a.val, b.val)
        if isinstance(a, Bound):
            return self.same_value(a.obj, b.obj) and \
                self.same_value(a.fn, b.fn)
        if isinstance(a, FuncV):
            return a.node is b.node and a.scope == b.scope
        if isinstance(a, RangeV):
            return a.lo == b.lo and a.hi == b.hi and a.step == b.step
        if isinstance(a, Choice):
            return a.c == b.c and self.same_value(a.a, b.a) and \
                self.same_value(a.b, b.b)
        return False

    def merge(self, c, a, b):
        if self.same_value(a, b):
            return a
        if isnum(a) and isnum(b):
            return ite(c, num(a), num(b))
        if isinstance(a, tuple) and isinstance(b, tuple) and \
                len(a) == len(b):
            return tuple(self.merge(c, p, q) for p, q in zip(a, b))
        if isinstance(a, Mat) and isinstance(b, Mat):
            return madd(mscale(a, c), mscale(b, ONE - c))
        if isinstance(a, Choice) and a.c == c:
            a = a.a
        if isinstance(b, Choice) and b.c == c:
            b = b.b
        return Choice(c, a, b)

    def dist(self, v, f):
        """apply f to both alternatives of a Choice"""
        v = self.refine(v)
        if not isinstance(v, Choice):
            return f(v)
        return self.branch(v.c, lambda: self.dist(v.a, f),
                           lambda: self.dist(v.b, f))

    # ------------------------------------------------------------ errors
    def abs_pc(self):
        p = self.pc
        for q in self.pcstack:
            p = p * q
        return p

    def where(self):
        if not self.nodes:
            return '?'
        f, n = self.nodes[-1]
        return '%s:%s' % (f, getattr(n, 'lineno', '?'))

    def throw(self, cls, *args, implicit=True):
        self.pending.append(Raised(self.abs_pc(), ExcV(cls, args),
                                   self.where(), self.heap, implicit))
        raise Dead()

    def event(self, name, args, kw):
        self.events.append((name, args, kw, self.abs_pc(), self.where()))

    # ----------------------------------------------------------- modules
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.root, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path):
            return None
        with open(path, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src)
        return self.load_tree(name, tree, path)

    def load_tree(self, name, tree, path):
        scope = self.new(ScopeC({'__name__': name, '__file__': path}, None),
                         'scope')
        m = ModV(name, scope)
        m_path = os.path.relpath(path, self.root)
        self.modules[name] = m
        saved = self.frames, self.pc, self.pcstack
        fr = Frame(None)
        fr.scope = scope
        fr.mod = name
        fr.file = m_path
        fr.cls = None
        self.frames = self.frames + [fr]
        try:
            self.block(tree.body)
        except Dead:
            self.notes.append('module %s does not load' % name)
        self.frames, self.pc, self.pcstack = saved
        return m

    def mod_attr(self, m, name):
        vs = self.heap[m.scope.id].vars
        if name in vs:
            return vs[name]
        sub = self.module(m.name + '.' + name)
        if sub is not None:
            return sub
        self.throw('AttributeError', 'module %s has no %s' % (m.name, name))

    def lookup_global(self, mod, name):
        """value of a module attribute, None when absent"""
        m = self.module(mod)
        if m is None:
            return None
        return self.heap[m.scope.id].vars.get(name)

    # -------------------------------------------------------- statements
    @property
    def frame(self):
        return self.frames[-1]

    def block(self, stmts):
        for s in stmts:
            self.stmt(s)

    def stmt(self, s):
        self.nodes.append((self.frame.file, s))
        try:
            getattr(self, 's_' + type(s).__name__, self.s_unknown)(s)
        except Mismatch as ex:
            if self.sizes_differ(ex):
                self.throw('ValueError', str(ex))
            if not hasattr(ex, 'where'):
                ex.where = self.where()
            raise
        except Undecided as ex:
            if not hasattr(ex, 'where'):
                ex.where = self.where()
            raise
        finally:
            self.nodes.pop()

    def sizes_differ(self, ex):
        """do the two sizes differ for every grid, or for grids this path
        does not exclude (the path says nothing about Nx and Ny)"""
        d = ex.a - ex.b
        if ex.broadcast and not (sign_of(ex.a - 1) == 1
                                 and sign_of(ex.b - 1) == 1):
            return False
        if sign_of(d) in (1, -1):
            return True
        return all(a in GRID for m in d.t for a, _ in m) and \
            not d.is_zero() and not mentions(self.abs_pc()) & GRID

    def s_unknown(self, s):
        raise Undecided('statement %s' % type(s).__name__)

    def s_Pass(self, s):
        pass

    def s_Global(self, s):
        sc = self.heap[self.frame.scope.id]
        self.frame.globals = getattr(self.frame, 'globals', set()) | \
            set(s.names)

    def s_Nonlocal(self, s):
        self.frame.nonlocals = getattr(self.frame, 'nonlocals', set()) | \
            set(s.names)

    def s_Expr(self, s):
        self.ev(s.value)

    def s_Assert(self, s):
        c = self.truth(self.ev(s.test))

        def bad():
            msg = self.ev(s.msg) if s.msg is not None else None
            self.throw('AssertionError', msg, implicit=False)
        self.branch(c, lambda: None, bad)

    def s_Delete(self, s):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.setvar(t.id, UNBOUND)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value)
                k = self.ev(t.slice)
                if isinstance(o, Ref) and o.ty == 'dict':
                    d = dict(self.heap[o.id].d)
                    d.pop(self.keyof(k), None)
                    self.heap[o.id] = DictC(d)
                else:
                    raise Undecided('del')
            elif isinstance(t, ast.Attribute):
                o = self.ev(t.value)
                c = self.cell(o)
                at = dict(c.attrs)
                at.pop(t.attr, None)
                self.heap[o.id] = ObjC(c.cls, at)
            else:
                raise Undecided('del')

    def s_Return(self, s):
        v = self.ev(s.value) if s.value is not None else None
        self.frame.returns.append((self.pc, self.heap, v))
        raise Dead()

    def s_Raise(self, s):
        if s.exc is None:
            self.throw('reraise', implicit=False)
        v = self.ev(s.exc)
        if isinstance(v, Ext):
            v = ExcV(v.path)
        elif isinstance(v, Builtin):
            v = ExcV(v.name)
        elif isinstance(v, ClassV):
            v = ExcV(v.name)
        elif isinstance(v, Ref) and v.ty == 'obj':
            v = ExcV(self.heap[v.id].cls.name)
        if not isinstance(v, ExcV):
            v = ExcV(str(v))
        self.pending.append(Raised(self.abs_pc(), v, self.where(),
                                   self.heap, False))
        raise Dead()

    def s_Break(self, s):
        self.frame.loops[-1]['breaks'].append((self.pc, self.heap))
        raise Dead()

    def s_Continue(self, s):
        self.frame.loops[-1]['conts'].append((self.pc, self.heap))
        raise Dead()

    def s_If(self, s):
        v = self.ev(s.test)
        c = self.truth(v)
        self.branch(c, lambda: self.block(s.body),
                    lambda: self.block(s.orelse))

    def s_With(self, s):
        for it in s.items:
            v = self.ev(it.context_expr)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v)
        self.block(s.body)

    def s_Try(self, s):
        n0 = len(self.pending)
        heap0, pc0, facts0 = self.heap, self.pc, self.facts
        self.heap = dict(heap0)
        alive = True
        try:
            self.block(s.body)
        except Dead:
            alive = False
        raised = self.pending[n0:]
        caught = []
        rest = []
        for r in raised:
            h = self.handler(s.handlers, r.exc.cls)
            if h is None:
                rest.append(r)
            else:
                caught.append((r, h))
        self.pending[n0:] = rest
        if not caught:
            if alive:
                self.block(s.orelse)
                self.block(s.finalbody)
                return
            self.heap, self.pc, self.facts = heap0, pc0, facts0
            raise Dead()
        outer = ONE
        for q in self.pcstack:
            outer = outer * q
        results = []
        if alive:
            try:
                self.block(s.orelse)
                results.append((self.pc, self.heap))
            except Dead:
                pass
        for r, h in caught:
            self.heap = dict(r.heap)
            self.pc = r.cond if not self.pcstack else \
                strip_pc(r.cond, outer)
            self.facts = dict(facts0)
            if h.name:
                self.setvar(h.name, r.exc)
            try:
                self.block(h.body)
                results.append((self.pc, self.heap))
            except Dead:
                pass
        if not results:
            self.heap, self.pc, self.facts = heap0, pc0, facts0
            raise Dead()
        self.facts = facts0
        pc, heap = results[-1]
        for p, h in reversed(results[:-1]):
            heap = self.merge_heap(p, h, heap)
            pc = pc + p
        self.pc, self.heap = pc, heap
        self.block(s.finalbody)

    def handler(self, hs, cls):
        for h in hs:
            if h.type is None:
                return h
            names = []
            t = h.type
            for x in (t.elts if isinstance(t, ast.Tuple) else [t]):
                names.append(x.attr if isinstance(x, ast.Attribute)
                             else getattr(x, 'id', ''))
            for n in names:
                if n == cls or n in ('Exception', 'BaseException'):
                    return h
                if n == 'ImportError' and cls == 'ModuleNotFoundError':
                    return h
                if n == 'LookupError' and cls in ('KeyError', 'IndexError'):
                    return h
        return None

    def s_FunctionDef(self, s):
        f = self.make_func(s)
        for d in reversed(s.decorator_list):
            f = self.decorate(d, f)
        self.setvar(s.name, f)

    def decorate(self, d, f):
        if isinstance(d, ast.Name) and d.id == 'property':
            return PropV(f)
        if isinstance(d, ast.Name) and d.id in ('staticmethod',
                                                'classmethod'):
            return Builtin(d.id, None, extra=f)
        if isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter') \
                and isinstance(d.value, ast.Name):
            p = self.getvar(d.value.id)
            return PropV(p.get, f) if d.attr == 'setter' else \
                PropV(f, p.set)
        dv = self.ev(d)
        if isinstance(dv, Ext) and dv.path in (
                'functools.lru_cache', 'functools.cache'):
            raise Undecided('caching decorator')
        return self.call(dv, [f], {})

    def make_func(self, s):
        a = s.args
        defaults = [self.ev(x) for x in a.defaults]
        kwd = {k.arg: self.ev(v) for k, v in zip(a.kwonlyargs,
                                                 a.kw_defaults)
               if v is not None}
        name = getattr(s, 'name', '<lambda>')
        q = self.frame.mod
        if self.frame.cls:
            q += '.' + self.frame.cls
        elif self.frame.fn is not None:
            q = self.frame.fn.qual + '.<locals>'
        return FuncV(s, self.frame.scope, self.frame.mod, q + '.' + name,
                     defaults, kwd, self.frame.cls or (
                         self.frame.fn.cls if self.frame.fn else None))

    def s_ClassDef(self, s):
        bases = [self.ev(b) for b in s.bases]
        sc = self.new(ScopeC({}, self.frame.scope), 'scope')
        fr = Frame(None)
        fr.scope = sc
        fr.mod = self.frame.mod
        fr.file = self.frame.file
        fr.cls = s.name
        fr.fn = None
        self.frames.append(fr)
        try:
            self.block(s.body)
        finally:
            self.frames.pop()
        ns = dict(self.heap[sc.id].vars)
        self.setvar(s.name, ClassV(s.name, bases, ns, self.frame.mod))

    def s_Import(self, s):
        for al in s.names:
            root = al.name.split('.')[0]
            m = self.import_mod(al.name)
            if al.asname:
                self.setvar(al.asname, m)
            else:
                self.setvar(root, self.import_mod(root))

    def import_mod(self, name):
        if self.is_local(name):
            return self.module(name)
        if name.split('.')[0] in self.cfg.get('missing', ('pyMKL',)):
            self.throw('ModuleNotFoundError', name, implicit=False)
        return Ext(self.lib.canon(name))

    def is_local(self, name):
        p = os.path.join(self.root, *name.split('.'))
        return os.path.isdir(p) and os.path.exists(
            os.path.join(p, '__init__.py')) or os.path.exists(p + '.py')

    def s_ImportFrom(self, s):
        name = s.module or ''
        if s.level:
            base = self.frame.mod.split('.')
            f = self.frame.file
            if not f.endswith('__init__.py'):
                base = base[:-1]
            if s.level > 1:
                base = base[:-(s.level - 1)]
            name = '.'.join(base + ([name] if name else []))
        if self.is_local(name):
            m = self.module(name)
            vs = self.heap[m.scope.id].vars
            for al in s.names:
                if al.name == '*':
                    allv = vs.get('__all__')
                    pub = [x for x in vs if not x.startswith('_')]
                    if allv is not None:
                        pub = self.items(allv)
                    for n in pub:
                        if vs[n] is not UNBOUND:
                            self.setvar(n, vs[n])
                else:
                    if al.name in vs:
                        v = vs[al.name]
                    else:
                        v = self.module(name + '.' + al.name)
                        if v is None:
                            self.throw('ImportError', 'cannot import %s '
                                       'from %s' % (al.name, name))
                    self.setvar(al.asname or al.name, v)
            return
        if name.split('.')[0] in self.cfg.get('missing', ('pyMKL',)):
            self.throw('ModuleNotFoundError', name, implicit=False)
        for al in s.names:
            if al.name == '*':
                self.frame.star = getattr(self.frame, 'star', []) + [name]
                sc = self.heap[self.frame.scope.id]
                vs = dict(sc.vars)
                vs['*'] = (vs.get('*') or ()) + (self.lib.canon(name),)
                self.heap[self.frame.scope.id] = ScopeC(vs, sc.parent,
                                                        sc.locs)
            else:
                v = self.ext_attr(self.lib.canon(name), al.name)
                self.setvar(al.asname or al.name, v)

    def s_Assign(self, s):
        v = self.ev(s.value)
        for t in s.targets:
            self.assign(t, v)

    def s_AnnAssign(self, s):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value))

    def s_AugAssign(self, s):
        t = s.target
        op = type(s.op).__name__
        if isinstance(t, ast.Name):
            old = self.getvar(t.id)
            self.setvar(t.id, self.inplace(op, old, self.ev(s.value)))
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value)
            old = self.getattr(o, self.mangle(t.attr))
            self.setattr(o, self.mangle(t.attr),
                         self.inplace(op, old, self.ev(s.value)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value)
            k = self.ev_slice(t.slice)
            old = self.getitem(o, k)
            if isinstance(o, Ref) and o.ty == 'arr':
                # x[k] += v stores the computed value back
                self.setitem(o, k, self.binop(op, old, self.ev(s.value)))
            else:
                self.setitem(o, k, self.inplace(op, old, self.ev(s.value)))
        else:
            raise Undecided('augmented assignment')

    def inplace(self, op, old, v):
        old = self.refine(old)
        if isinstance(old, Ref) and old.ty == 'arr':
            r = self.binop(op, old, v)
            a = self.arr(r)
            self.store_whole(old, a)
            return old
        if isinstance(old, Ref) and old.ty == 'list' and op == 'Add':
            self.list_extend(old, v)
            return old
        if isinstance(old, Choice):
            return self.dist(old, lambda x: self.inplace(op, x, v))
        return self.binop(op, old, v)

    def store_whole(self, r, a):
        old = self.contents(r)
        if old.mask is not None:
            raise Undecided('in-place operation on a selection')
        dims, axes, es, mask = align([old, a])
        e = self.cast(es[1], old.kind)
        self.set_contents(r, Arr(dims, axes, e, old.kind))

    def cast(self, e, kind):
        if kind == 'f' and not is_real(e):
            return real(e)
        if kind == 'i' and not is_int(e):
            return toint(e)
        return e

    def assign(self, t, v):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            v = self.refine(v)
            if isinstance(v, Choice):
                a = self.unpack(v.a, t)
                b = self.unpack(v.b, t)
                vals = [self.merge(v.c, p, q) for p, q in zip(a, b)]
            else:
                vals = self.unpack(v, t)
            for x, y in zip(t.elts, vals):
                if isinstance(x, ast.Starred):
                    self.assign(x.value, y)
                else:
                    self.assign(x, y)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value), self.mangle(t.attr), v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value), self.ev_slice(t.slice), v)
        else:
            raise Undecided('assignment target')

    def unpack(self, v, t):
        n = len(t.elts)
        if isinstance(v, Ref) and v.ty == 'arr':
            a = self.contents(v)
            return [self.getitem(v, P(k)) for k in range(n)]
        if isinstance(v, Opaque):
            return [Opaque((v.key, 'item', k)) for k in range(n)]
        items = self.items(v)
        star = [k for k, x in enumerate(t.elts)
                if isinstance(x, ast.Starred)]
        if star:
            k = star[0]
            m = len(items) - (n - 1)
            return items[:k] + [self.mklist(items[k:k + m])] + items[k + m:]
        if len(items) != n:
            if any(isinstance(x, (Seg, GItem, PrefixMark)) for x in items):
                raise Undecided('unpacking')
            self.throw('ValueError', 'unpacking %d values into %d' %
                       (len(items), n))
        return items

    # ------------------------------------------------------------- scope
    def mangle(self, n):
        c = self.frame.cls or (self.frame.fn.cls if self.frame.fn else None)
        if c and n.startswith('__') and not n.endswith('__'):
            return '_' + c.lstrip('_') + n
        return n

    def setvar(self, n, v):
        n = self.mangle(n)
        sid = self.frame.scope.id
        if n in getattr(self.frame, 'globals', ()):
            sid = self.modules[self.frame.mod].scope.id
        elif n in getattr(self.frame, 'nonlocals', ()):
            r = self.heap[sid].parent
            while r is not None and n not in self.heap[r.id].vars:
                r = self.heap[r.id].parent
            sid = r.id
        c = self.heap[sid]
        vs = dict(c.vars)
        vs[n] = v
        self.heap[sid] = ScopeC(vs, c.parent, c.locs)

    def getvar(self, n):
        n = self.mangle(n)
        r = self.frame.scope
        first = True
        skip = n in getattr(self.frame, 'globals', ())
        while r is not None:
            c = self.heap[r.id]
            if n in c.vars:
                v = c.vars[n]
                if isinstance(v, Choice):
                    v = self.refine(v)
                v = self.bound_only(v, n)
                return v
            if first and c.locs and n in c.locs and not skip and \
                    n not in getattr(self.frame, 'nonlocals', ()):
                self.throw('UnboundLocalError', n)
            if '*' in c.vars:
                for m in c.vars['*']:
                    v = self.ext_attr(m, n, soft=True)
                    if v is not None:
                        return v
            r = c.parent
            first = False
        if n in self.builtins:
            return self.builtins[n]
        self.throw('NameError', n)

    def bound_only(self, v, n):
        if v is UNBOUND:
            self.throw('UnboundLocalError', n)
        if isinstance(v, Choice) and self.has_unbound(v):
            # the path on which it is unbound raises here
            return self.branch(v.c, lambda: self.bound_only(v.a, n),
                               lambda: self.bound_only(v.b, n))
        return v

    def has_unbound(self, v):
        if v is UNBOUND:
            return True
        if isinstance(v, Choice):
            return self.has_unbound(v.a) or self.has_unbound(v.b)
        return False

    # -------------------------------------------------------------- calls
    def call(self, f, args, kw, node=None):
        f = self.refine(f)
        if isinstance(f, Choice):
            return self.branch(f.c, lambda: self.call(f.a, args, kw, node),
                               lambda: self.call(f.b, args, kw, node))
        if isinstance(f, Bound):
            return self.call(f.fn, [f.obj] + list(args), kw, node)
        if isinstance(f, FuncV):
            return self.call_func(f, args, kw)
        if isinstance(f, Builtin):
            if f.f is None:
                raise Undecided('call of %s' % f.name)
            return f.f(self, args, kw)
        if isinstance(f, Ext):
            return self.lib.call_ext(self, f.path, args, kw)
        if isinstance(f, ClassV):
            return self.instantiate(f, args, kw)
        if isinstance(f, Opaque):
            self.event(f.key, args, kw)
            return Opaque(('call', f.key, self.ekey(tuple(args)),
                           self.ekey(tuple(sorted(kw.items(),
                                                  key=lambda z: z[0])))))
        if isinstance(f, Ref) and f.ty == 'obj':
            c = self.heap[f.id].cls
            m = c.lookup('__call__')
            if m is not None:
                return self.call(Bound(f, m), args, kw)
        if f is None or isnum(f) or isinstance(f, (str, tuple, Ref, Mat)):
            self.throw('TypeError', 'object is not callable')
        raise Undecided('call of %r' % (f,))

    def ekey(self, v):
        try:
            return self.vkey(v)
        except Undecided:
            return ('?', self.fresh())

    def vkey(self, v, seen=None):
        """structural key of a value"""
        if isinstance(v, Poly):
            return v
        if v is None or isinstance(v, (str, bool)):
            return v if not isinstance(v, bool) else P(v)
        if isinstance(v, tuple):
            return tuple(self.vkey(x, seen) for x in v)
        if isinstance(v, Ref):
            seen = seen or ()
            if v.id in seen:
                return ('cycle', len(seen) - seen.index(v.id))
            seen = seen + (v.id,)
            if v.ty == 'arr':
                return self.contents(v).key()
            c = self.heap[v.id]
            if v.ty in ('list', 'set'):
                return (v.ty,) + tuple(self.vkey(x, seen) for x in c.items)
            if v.ty == 'dict':
                return ('dict',) + tuple(
                    (self.vkey(k, seen), self.vkey(x, seen))
                    for k, x in c.d.items())
            if v.ty == 'obj':
                return ('obj', c.cls.name) + tuple(
                    (n, self.vkey(c.attrs[n], seen))
                    for n in sorted(c.attrs))
            return ('ref', v.ty, v.id)
        if isinstance(v, Mat):
            return v.key()
        if isinstance(v, Choice):
            return ('choice', v.c, self.vkey(v.a, seen),
                    self.vkey(v.b, seen))
        if isinstance(v, Opaque):
            return ('opq', v.key)
        if isinstance(v, Ext):
            return ('ext', v.path)
        if isinstance(v, FuncV):
            return ('func', v.qual, v.node.lineno)
        if isinstance(v, Builtin):
            return ('builtin', v.name)
        if isinstance(v, ClassV):
            return ('class', v.name)
        if isinstance(v, Bound):
            return ('bound', self.vkey(v.obj, seen), self.vkey(v.fn, seen))
        if isinstance(v, RangeV):
            return ('range', v.lo, v.hi, v.step)
        if isinstance(v, GItem):
            return ('g', v.cond, self.vkey(v.val, seen))
        if isinstance(v, Seg):
            return ('seg', v.lo, v.hi) + tuple(
                self.vkey(sub_value(x, {v.var: bv(('segvar',))}), seen)
                for x in v.items)
        if isinstance(v, slice):
            return ('slice', self.vkey(v.start), self.vkey(v.stop),
                    self.vkey(v.step))
        if v is UNBOUND:
            return ('unbound',)
        if isinstance(v, (ModV,)):
            return ('module', v.name)
        if isinstance(v, ExcV):
            return ('exc', v.cls)
        if isinstance(v, PrefixMark):
            return ('prefix', v.uid)
        if isinstance(v, (HBlocks, VBlocks)):
            return (type(v).__name__,) + tuple(m.key() for m in v.ms)
        raise Undecided('no key for %r' % (v,))

    def bind(self, f, args, kw):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs] + [x.arg for x in a.args]
        vs = {}
        args = list(args)
        kw = dict(kw)
        n = len(pos)
        if len(args) > n:
            if a.vararg is None:
                self.throw('TypeError', '%s() takes %d positional arguments '
                           'but %d were given' % (f.qual, n, len(args)))
            vs[a.vararg.arg] = tuple(args[n:])
            args = args[:n]
        elif a.vararg is not None:
            vs[a.vararg.arg] = ()
        for name, v in zip(pos, args):
            vs[name] = v
        extra = {}
        kwonly = [x.arg for x in a.kwonlyargs]
        for k, v in kw.items():
            if k in vs and k in pos:
                self.throw('TypeError', '%s() got multiple values for '
                           'argument %s' % (f.qual, k))
            if k in pos or k in kwonly:
                vs[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                self.throw('TypeError', '%s() got an unexpected keyword '
                           'argument %s' % (f.qual, k))
        if a.kwarg is not None:
            vs[a.kwarg.arg] = self.mkdict(extra)
        nd = len(f.defaults)
        for i, name in enumerate(pos):
            if name not in vs:
                k = i - (n - nd)
                if k >= 0:
                    vs[name] = f.defaults[k]
                else:
                    self.throw('TypeError', '%s() missing argument %s'
                               % (f.qual, name))
        for name in kwonly:
            if name not in vs:
                if name in f.kwd:
                    vs[name] = f.kwd[name]
                else:
                    self.throw('TypeError', '%s() missing argument %s'
                               % (f.qual, name))
        return vs

    def call_func(self, f, args, kw):
        h = self.opaque.get(f.qual)
        if h is not None:
            vs = self.bind(f, args, kw)
            r = h(self, f, vs)
            if r is not NotImplemented:
                return r
        if len(self.frames) > MAXDEPTH:
            raise Undecided('recursion')
        self.functions.add(f.qual)
        self.ncalls += 1
        vs = self.bind(f, args, kw)
        if isinstance(f.node, ast.Lambda):
            locs = frozenset(vs)
        else:
            if is_generator(f.node):
                return self.run_generator(f, vs)
            locs = local_names(f.node)
        sc = self.new(ScopeC(vs, f.scope, locs), 'scope')
        fr = Frame(f)
        fr.scope = sc
        fr.mod = f.mod
        m = self.modules[f.mod]
        fr.file = os.path.relpath(
            self.heap[m.scope.id].vars['__file__'], self.root)
        fr.cls = None
        self.frames.append(fr)
        pc0, facts0 = self.pc, self.facts
        depth = len(self.pcstack)
        self.pcstack.append(pc0)
        self.pc = ONE
        nodes0 = len(self.nodes)
        try:
            try:
                if isinstance(f.node, ast.Lambda):
                    self.nodes.append((fr.file, f.node))
                    v = self.ev(f.node.body)
                    fr.returns.append((self.pc, self.heap, v))
                else:
                    self.block(f.node.body)
                    fr.returns.append((self.pc, self.heap, None))
            except Dead:
                pass
        finally:
            del self.nodes[nodes0:]
            self.frames.pop()
            del self.pcstack[depth:]
            self.pc, self.facts = pc0, facts0
        if not fr.returns:
            raise Dead()
        pc, heap, val = fr.returns[-1]
        tot = pc
        for p, h, v in reversed(fr.returns[:-1]):
            heap = self.merge_heap(p, h, heap)
            self.heap = heap
            val = self.merge(p, v, val)
            tot = tot + p
        self.heap = heap
        self.pc = pc0 * tot
        return val

    def run_generator(self, f, vs):
        """a generator is analysed as the list it yields"""
        out = self.mklist([])
        sc = self.new(ScopeC(vs, f.scope, local_names(f.node)), 'scope')
        fr = Frame(f)
        fr.scope = sc
        fr.mod = f.mod
        m = self.modules[f.mod]
        fr.file = os.path.relpath(
            self.heap[m.scope.id].vars['__file__'], self.root)
        fr.cls = None
        fr.yields = out
        self.frames.append(fr)
        try:
            self.block(f.node.body)
        except Dead:
            if fr.returns:
                raise Undecided('return inside a generator')
            raise
        finally:
            self.frames.pop()
        return out

    def instantiate(self, c, args, kw):
        if c.ext is not None:
            return c.ext(self, args, kw)
        o = self.new(ObjC(c, {}), 'obj')
        init = c.lookup('__init__')
        if init is not None:
            self.call(Bound(o, init), args, kw)
        elif args or kw:
            b = [x for x in c.bases if not isinstance(x, ClassV)]
            if not b:
                self.throw('TypeError', '%s() takes no arguments' % c.name)
        return o

    # --------------------------------------------------------- attributes
    def ext_attr(self, path, name, soft=False):
        return self.lib.ext_attr(self, path, name, soft)

    def getattr(self, o, n):
        o = self.refine(o)
        if isinstance(o, Choice):
            return self.branch(o.c, lambda: self.getattr(o.a, n),
                               lambda: self.getattr(o.b, n))
        if isinstance(o, Ref):
            if o.ty == 'obj':
                c = self.heap[o.id]
                m = c.cls.lookup(n)
                if isinstance(m, PropV):
                    return self.call(m.get, [o], {})
                if n in c.attrs:
                    v = self.refine(c.attrs[n])
                    if v is UNBOUND:
                        self.throw('AttributeError', n)
                    if isinstance(v, Choice) and self.has_unbound(v):
                        def get(x):
                            if x is UNBOUND:
                                self.throw('AttributeError', n)
                            return x
                        return self.dist(v, get)
                    return v
                if m is not None:
                    if isinstance(m, Builtin) and m.name == 'staticmethod':
                        return m.extra
                    if isinstance(m, Builtin) and m.name == 'classmethod':
                        return Bound(c.cls, m.extra)
                    if isinstance(m, (FuncV, Builtin)):
                        return Bound(o, m)
                    return m
                if n == '__class__':
                    return c.cls
                if n == '__dict__':
                    return self.mkdict(dict(c.attrs))
                g = c.cls.lookup('__getattr__')
                if g is not None:
                    return self.call(g, [o, n], {})
                self.throw('AttributeError', '%s has no attribute %s'
                           % (c.cls.name, n))
            return self.lib.method(self, o, n)
        if isinstance(o, ModV):
            return self.mod_attr(o, n)
        if isinstance(o, Ext):
            return self.ext_attr(o.path, n)
        if isinstance(o, ClassV):
            m = o.lookup(n)
            if m is None:
                if n == '__name__':
                    return o.name
                self.throw('AttributeError', '%s.%s' % (o.name, n))
            if isinstance(m, Builtin) and m.name == 'staticmethod':
                return m.extra
            if isinstance(m, Builtin) and m.name == 'classmethod':
                return Bound(o, m.extra)
            return m
        if isinstance(o, Opaque):
            return Opaque((o.key, '.' + n))
        return self.lib.method(self, o, n)

    def setattr(self, o, n, v):
        o = self.refine(o)
        if isinstance(o, Choice):
            self.branch(o.c, lambda: self.setattr(o.a, n, v),
                        lambda: self.setattr(o.b, n, v))
            return
        if isinstance(o, Ref) and o.ty == 'obj':
            c = self.heap[o.id]
            m = c.cls.lookup(n)
            if isinstance(m, PropV):
                if m.set is None:
                    self.throw('AttributeError', 'cannot set %s' % n)
                self.call(m.set, [o, v], {})
                return
            at = dict(c.attrs)
            at[n] = v
            self.heap[o.id] = ObjC(c.cls, at)
            return
        if isinstance(o, Ref) and o.ty == 'arr' and n == 'shape':
            raise Undecided('assignment to shape')
        if isinstance(o, Opaque):
            self.event((o.key, '.' + n, 'set'), (v,), {})
            return
        if isinstance(o, ModV):
            c = self.heap[o.scope.id]
            vs = dict(c.vars)
            vs[n] = v
            self.heap[o.scope.id] = ScopeC(vs, c.parent, c.locs)
            return
        if isinstance(o, FuncV):
            return
        if isinstance(o, ClassV):
            o.ns[n] = v
            return
        raise Undecided('attribute store on %r' % (o,))

    # ---------------------------------------------------------- subscripts
    def keyof(self, k):
        k = self.refine(k)
        if isinstance(k, Poly):
            c = k.const()
            if c is None:
                raise Undecided('symbolic dictionary key')
            return c
        if isinstance(k, tuple):
            return tuple(self.keyof(x) for x in k)
        if k is None or isinstance(k, (str, bool)):
            return k
        if isinstance(k, (Ext, Opaque)):
            return k
        raise Undecided('dictionary key %r' % (k,))

    def unkey(self, k):
        if isinstance(k, F):
            return P(k)
        if isinstance(k, tuple):
            return tuple(self.unkey(x) for x in k)
        return k

    def ev_slice(self, s):
        if isinstance(s, ast.Slice):
            return slice(self.ev(s.lower) if s.lower else None,
                         self.ev(s.upper) if s.upper else None,
                         self.ev(s.step) if s.step else None)
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(x) for x in s.elts)
        return self.ev(s)

    def getitem(self, o, k):
        o = self.refine(o)
        if isinstance(o, Choice):
            return self.branch(o.c, lambda: self.getitem(o.a, k),
                               lambda: self.getitem(o.b, k))
        if isinstance(k, Choice):
            k = self.refine(k)
            if isinstance(k, Choice):
                return self.branch(k.c, lambda: self.getitem(o, k.a),
                                   lambda: self.getitem(o, k.b))
        if isinstance(o, Ref) and o.ty == 'dict':
            d = self.heap[o.id].d
            kk = self.keyof(k)
            if kk not in d or d[kk] is UNBOUND:
                self.throw('KeyError', kk)
            v = self.refine(d[kk])
            if isinstance(v, Choice) and self.has_unbound(v):
                def get(x):
                    if x is UNBOUND:
                        self.throw('KeyError', kk)
                    return x
                return self.dist(v, get)
            return v
        if isinstance(o, str):
            if isinstance(k, Poly) and k.as_int() is not None:
                i = k.as_int()
                if -len(o) <= i < len(o):
                    return o[i]
                self.throw('IndexError', 'string index')
            if isinstance(k, slice):
                return o[slice(*[None if x is None else x.as_int()
                                 for x in (k.start, k.stop, k.step)])]
            raise Undecided('string index')
        if isinstance(o, tuple) or isinstance(o, Ref) and \
                o.ty in ('list', 'set') or isinstance(o, RangeV):
            if isinstance(o, RangeV):
                if isinstance(k, Poly):
                    c = k.const()
                    if c is not None and c < 0:
                        return o.lo + o.step * (self.range_len(o) + k)
                    return o.lo + o.step * k
                raise Undecided('slice of a range')
            items = self.items(o)
            if any(isinstance(x, (Seg, GItem, PrefixMark)) for x in items):
                return self.seg_getitem(items, k)
            if isinstance(k, slice):
                bs = []
                for x in (k.start, k.stop, k.step):
                    if x is None:
                        bs.append(None)
                    else:
                        i = num(x).as_int()
                        if i is None:
                            raise Undecided('list slice')
                        bs.append(i)
                r = items[slice(*bs)]
                return tuple(r) if isinstance(o, tuple) else self.mklist(r)
            if isinstance(k, bool):
                k = P(k)
            if isinstance(k, Poly):
                i = k.as_int()
                if i is None:
                    if all(isinstance(x, (Poly, bool)) for x in items) \
                            and items:
                        e = num(items[-1])
                        for j in range(len(items) - 2, -1, -1):
                            e = ite(eq0(k - j), num(items[j]), e)
                        return e
                    if len(items) == 1:
                        return items[0]
                    raise Undecided('symbolic list index')
                if not -len(items) <= i < len(items):
                    self.throw('IndexError', 'list index %d' % i)
                return items[i]
            self.throw('TypeError', 'list index')
        if isinstance(o, Ref) and o.ty == 'arr':
            return self.arr_getitem(o, k)
        if isinstance(o, Opaque):
            return Opaque((o.key, 'item', self.ekey(k)))
        if isinstance(o, Mat):
            return self.lib.mat_getitem(self, o, k)
        if isinstance(o, Ref) and o.ty == 'obj':
            m = self.heap[o.id].cls.lookup('__getitem__')
            if m is not None:
                return self.call(m, [o, k], {})
        if o is None or isnum(o) or isinstance(o, (FuncV, Builtin)):
            self.throw('TypeError', 'object is not subscriptable')
        if isinstance(o, Ext) and o.path in ('numpy.s_', 'numpy.index_exp'):
            return k if isinstance(k, tuple) or o.path == 'numpy.s_' else (k,)
        if isinstance(o, Ext) and o.path in ('numpy.mgrid', 'numpy.ogrid') \
                and isinstance(k, tuple) and all(
                    isinstance(x, slice) for x in k):
            H = self.lib.H
            ax = [H['numpy.arange'](self, *[
                ZERO if x.start is None else x.start, x.stop] + (
                    [x.step] if x.step is not None else [])) for x in k]
            if o.path == 'numpy.mgrid':
                return H['numpy.stack'](
                    self, H['numpy.meshgrid'](self, *ax, indexing='ij'))
            n = len(ax)
            return tuple(self.getitem(v, tuple(
                slice(None, None, None) if j == i else None
                for j in range(n))) for i, v in enumerate(ax))
        raise Undecided('subscript of %r' % (o,))

    def seg_getitem(self, items, k):
        if isinstance(k, Poly) and len(items) == 1 and \
                isinstance(items[0], Seg) and len(items[0].items) == 1 and \
                not isinstance(items[0].items[0], (GItem, Seg)):
            s = items[0]
            c = k.const()
            p = s.hi + k if c is not None and c < 0 else s.lo + k
            return sub_value(s.items[0], {s.var: p})
        raise Undecided('index into a list built in a loop')

    def index_spec(self, a, k):
        """normalise an index to per-axis entries; bool masks separate"""
        ks = list(k) if isinstance(k, tuple) else [k]
        if any(x is Ellipsis for x in ks):
            i = [j for j, x in enumerate(ks) if x is Ellipsis][0]
            n = len(a.axes) - sum(1 for x in ks
                                  if x is not None and x is not Ellipsis)
            ks = ks[:i] + [slice(None, None, None)] * n + ks[i + 1:]
        out = []
        for x in ks:
            x = self.refine(x)
            if x is None:
                out.append(('n',))
            elif isinstance(x, bool):
                raise Undecided('boolean scalar index')
            elif isinstance(x, Poly):
                out.append(('i', self.simp(x)))
            elif isinstance(x, slice):
                st = 1 if x.step is None else num(x.step).as_int()
                if st is None:
                    raise Undecided('symbolic slice step')
                lo = None if x.start is None else num(x.start)
                hi = None if x.stop is None else num(x.stop)
                out.append(('s', lo, hi, st))
            elif isinstance(x, RangeV) and x.step == ONE:
                out.append(('s', x.lo, x.hi, 1))
            elif isinstance(x, Ref) and x.ty == 'arr':
                m = self.contents(x)
                if m.kind == 'b' or (m.dims and is_cond(m.e)
                                     and m.kind is None):
                    out.append(('m', m))
                elif not m.dims and not any(m.axes) and m.mask is None \
                        and not m.axes:
                    out.append(('i', m.e))
                else:
                    out.append(('a', m))
            elif isinstance(x, Ref) and x.ty == 'list' or \
                    isinstance(x, tuple):
                m = self.arr(x)
                out.append(('m', m) if m.kind == 'b' else ('a', m))
            elif isinstance(x, Choice):
                raise Undecided('index by alternatives')
            elif isinstance(x, Opaque):
                out.append(('i', self.opaque_num(x)))
            elif isinstance(x, str):
                raise Undecided('string index of an array')
            else:
                raise Undecided('index %r' % (x,))
        return out

    def mask_of(self, a, spec):
        """combined 0/1 mask expression over a's dims for a mask index"""
        if len(spec) == 1 and spec[0][0] == 'm' and \
                len(spec[0][1].axes) == len(a.axes):
            dims, axes, es, mk_ = align([a, spec[0][1]])
            if tuple(dims) != tuple(a.dims):
                # refine a
                return dims, axes, es[0], es[1], True
            return dims, axes, es[0], es[1], False
        # one mask per axis (others full slices)
        cond = ONE
        k = 0
        for t in spec:
            g = a.axes[k]
            k += 1
            if t[0] == 'm':
                m = t[1]
                if len(m.axes) != 1 or len(g) != 1:
                    raise Undecided('mask on part of the axes')
                if len(m.axes[0]) == 1:
                    cond = cond * ren(m.e, {ixa(m.axes[0][0]): ix(g[0])})
                else:
                    raise Undecided('mask on part of the axes')
            elif t[0] == 's':
                if t[1] is not None or t[2] is not None:
                    n = a.dims[g[0]]
                    lo = ZERO if t[1] is None else norm_index(t[1], n)
                    hi = n if t[2] is None else norm_index(t[2], n)
                    cond = cond * in_range(ix(g[0]), lo, hi, n)
            elif t[0] == 'i':
                cond = cond * at_index(g[0], norm_index(
                    t[1], a.dims[g[0]]), a.dims[g[0]])
            else:
                raise Undecided('mixed index')
        return a.dims, a.axes, a.e, cond, False

    def arr_getitem(self, r, k):
        a = self.contents(r)
        spec = self.index_spec(a, k)
        if any(t[0] == 'm' for t in spec):
            if a.mask is not None:
                raise Undecided('selection of a selection')
            if len(spec) != 1:
                if sum(1 for t in spec if t[0] == 'm') == 1 and all(
                        t[0] == 'm' or (t[0] == 's' and t[1] is None
                                        and t[2] is None) for t in spec):
                    raise Undecided('partial mask read')
                raise Undecided('mixed mask read')
            dims, axes, e, m, _ = self.mask_of(a, spec)
            return self.mkarr(Arr(dims, [range(len(dims))], e, a.kind, m))
        if any(t[0] == 'a' for t in spec):
            return self.fancy_get(a, spec)
        if a.mask is not None:
            if len(spec) == 1 and spec[0][0] == 'i':
                b = Base(('picked', bound_key(a.e * a.mask, len(a.dims)),
                          tuple(a.dims), bound_key(a.mask, len(a.dims))),
                         (masksize(a.mask, a.dims),),
                         real=is_real(a.e), isint=is_int(a.e), info=a)
                return elem(b, (spec[0][1],))
            raise Undecided('index into a masked selection')
        for t, n in zip([t for t in spec if t[0] != 'n'], a.shape()):
            if t[0] == 'i':
                c = t[1].const()
                nn = n.const()
                if c is not None and nn is not None and not \
                        -nn <= c < nn:
                    self.throw('IndexError', 'index %s of %s' % (c, nn))
        if sum(1 for t in spec if t[0] != 'n') > len(a.axes):
            self.throw('IndexError', 'too many indices')
        s = select(a, spec)
        res = read_sel(a, s)
        if not res.axes:
            return res.e
        return self.view(r, ('sel', s))

    def fancy_get(self, a, spec):
        if len(spec) == 1 and len(a.axes) >= 1 and len(a.axes[0]) == 1:
            m = spec[0][1]
            if len(m.axes) == 1 and len(m.dims) == 1:
                e = up(a.e, 1)
                e = ren(e, {ixa(1): m.e}) if True else e
                # dims: index dim first, then the remaining dims of a
                rest = a.dims[1:]
                e = up(a.e, len(m.dims), 1) if False else a.e
                mp = {ixa(0): m.e}
                for d in range(1, len(a.dims)):
                    mp[ixa(d)] = ix(d)
                return self.mkarr(Arr(
                    (m.dims[0],) + tuple(rest),
                    [[0]] + [list(g) for g in a.axes[1:]],
                    deep(a.e, mp), a.kind))
        if all(t[0] in ('a', 'i') for t in spec) and \
                len(spec) == len(a.axes):
            ms = [t[1] if t[0] == 'a' else Arr((), (), t[1]) for t in spec]
            dims, axes, es, mask = align(ms)
            mp = {}
            for g, e in zip(a.axes, es):
                for d, q in zip(g, group_pos(list(g), a.dims, e)):
                    mp[ixa(d)] = q
            return self.mkarr(Arr(dims, axes, deep(a.e, mp), a.kind, mask))
        raise Undecided('fancy indexing')

    def setitem(self, o, k, v):
        o = self.refine(o)
        if isinstance(o, Choice):
            self.branch(o.c, lambda: self.setitem(o.a, k, v),
                        lambda: self.setitem(o.b, k, v))
            return
        if isinstance(o, Ref) and o.ty == 'dict':
            d = dict(self.heap[o.id].d)
            d[self.keyof(k)] = v
            self.heap[o.id] = DictC(d)
            return
        if isinstance(o, Ref) and o.ty == 'list':
            items = self.items(o)
            if isinstance(k, Poly) and k.as_int() is not None and not any(
                    isinstance(x, (Seg, GItem, PrefixMark)) for x in items):
                i = k.as_int()
                if not -len(items) <= i < len(items):
                    self.throw('IndexError', 'list assignment index')
                items[i] = v
                self.heap[o.id] = ListC(items)
                return
            raise Undecided('list store')
        if isinstance(o, Ref) and o.ty == 'arr':
            self.arr_setitem(o, k, v)
            return
        if isinstance(o, Opaque):
            self.event((o.key, 'setitem'), (k, v), {})
            return
        if isinstance(o, tuple):
            self.throw('TypeError', 'tuple does not support assignment')
        if isinstance(o, Mat):
            raise Undecided('store into a sparse matrix')
        raise Undecided('store into %r' % (o,))

    def arr_setitem(self, r, k, v):
        a = self.contents(r)
        if a.mask is not None:
            raise Undecided('store into a selection')
        spec = self.index_spec(a, k)
        val = self.arr(v)
        if any(t[0] == 'm' for t in spec):
            dims, axes, e, m, refined = self.mask_of(a, spec)
            if val.mask is not None:
                if tuple(val.dims) != tuple(dims):
                    try:
                        d2, _, es, _ = align([
                            Arr(dims, [range(len(dims))], m),
                            Arr(val.dims, [range(len(val.dims))], val.mask),
                            Arr(val.dims, [range(len(val.dims))], val.e)])
                    except Undecided:
                        raise Undecided('values selected by another mask')
                    if tuple(d2) != tuple(dims) or not equal(es[0], es[1]):
                        raise Undecided('values selected by another mask')
                    ve = es[2]
                else:
                    if not equal(val.mask, m):
                        raise Undecided('values selected by another mask')
                    ve = val.e
            elif not val.dims:
                ve = val.e
            else:
                # a plain vector scattered in row-major order of the mask
                if len(val.axes) == 1:
                    b = Base(('scatter', bound_key(val.e, len(val.dims)),
                              tuple(val.dims), bound_key(m, len(dims)),
                              tuple(dims)), tuple(dims),
                             real=is_real(val.e), info=(val, m))
                    ve = elem(b, [ix(i) for i in range(len(dims))])
                else:
                    raise Undecided('array stored through a mask')
            ve = self.cast(ve, a.kind)
            self.set_contents(r, Arr(dims, axes, ite(m, ve, e), a.kind))
            return
        if any(t[0] == 'a' for t in spec):
            raise Undecided('store through an index array')
        s = select(a, spec)
        val = Arr(val.dims, val.axes, self.cast(val.e, a.kind), a.kind,
                  val.mask)
        e = write_sel(a, s, val)
        if e is None:
            raise Undecided('store of a flattened value')
        self.set_contents(r, Arr(a.dims, a.axes, e, a.kind))

    # --------------------------------------------------------- expressions
    def ev(self, n):
        self.nodes.append((self.frame.file, n))
        try:
            return getattr(self, 'e_' + type(n).__name__, self.e_unknown)(n)
        finally:
            self.nodes.pop()

    def e_unknown(self, n):
        raise Undecided('expression %s' % type(n).__name__)

    def e_Constant(self, n):
        v = n.value
        if isinstance(v, bool) or v is None or isinstance(v, str) or \
                v is Ellipsis:
            return v
        if isinstance(v, int):
            return P(v)
        if isinstance(v, float):
            if v != v or v in (float('inf'), float('-inf')):
                return sym(repr(v))
            return P(F(repr(v)))
        if isinstance(v, complex):
            return P(F(repr(v.real))) + J * F(repr(v.imag))
        if isinstance(v, bytes):
            return Opaque(('bytes', v))
        raise Undecided('constant')

    def e_Name(self, n):
        return self.getvar(n.id)

    def e_Attribute(self, n):
        return self.getattr(self.ev(n.value), self.mangle(n.attr))

    def e_Subscript(self, n):
        o = self.ev(n.value)
        return self.getitem(o, self.ev_slice(n.slice))

    def e_Tuple(self, n):
        return tuple(self.ev_elts(n.elts))

    def e_List(self, n):
        return self.mklist(self.ev_elts(n.elts))

    def e_Set(self, n):
        return self.new(ListC(self.ev_elts(n.elts)), 'set')

    def ev_elts(self, elts):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.items(self.ev(x.value)))
            else:
                out.append(self.ev(x))
        return out

    def e_Dict(self, n):
        d = {}
        for k, v in zip(n.keys, n.values):
            if k is None:
                o = self.ev(v)
                d.update(self.heap[o.id].d)
            else:
                kk = self.keyof(self.ev(k))
                d[kk] = self.ev(v)
        return self.mkdict(d)

    def e_BinOp(self, n):
        a = self.ev(n.left)
        b = self.ev(n.right)
        return self.binop(type(n.op).__name__, a, b)

    def e_UnaryOp(self, n):
        v = self.ev(n.operand)
        op = type(n.op).__name__
        if op == 'Not':
            c = ONE - self.truth(v)
            return self.bool_of(c)
        return self.unop(op, v)

    def unop(self, op, v):
        v = self.refine(v)
        if isinstance(v, Choice) and not self.choice_arr(v):
            return self.dist(v, lambda x: self.unop(op, x))
        if op == 'USub':
            if isinstance(v, Mat):
                return mscale(v, P(-1))
            if isnum(v):
                return -num(v)
            return self.un(v, lambda e: -e)
        if op == 'UAdd':
            return v
        if op == 'Invert':
            if isnum(v):
                return -num(v) - 1 if not is_cond(num(v)) else ONE - num(v)
            a = self.arr(v)
            if a.kind == 'b':
                return self.mkarr(amap(lambda e: ONE - e, a))
            raise Undecided('bit inversion')
        raise Undecided('unary operator')

    def un(self, v, f, kind=None):
        if isinstance(v, Opaque):
            return f(self.opaque_num(v))
        return self.mkarr(amap(f, self.arr(v), kind))

    def bool_of(self, c):
        if c == ONE:
            return True
        if c == ZERO:
            return False
        return c

    def e_BoolOp(self, n):
        isand = isinstance(n.op, ast.And)

        def go(vals):
            v = self.ev(vals[0])
            if len(vals) == 1:
                return v
            c = self.truth(v)
            if c in (ONE, ZERO):
                if (c == ONE) == isand:
                    return go(vals[1:])
                return v
            if isand:
                return self.branch(c, lambda: go(vals[1:]), lambda: (
                    v if not (isinstance(v, Poly) and is_cond(v))
                    else False))
            return self.branch(c, lambda: (
                v if not (isinstance(v, Poly) and is_cond(v)) else True),
                lambda: go(vals[1:]))
        return go(n.values)

    def e_Compare(self, n):
        a = self.ev(n.left)
        res = None
        for k, (op, r) in enumerate(zip(n.ops, n.comparators)):
            b = self.ev(r)
            v = self.compare(type(op).__name__, a, b)
            if res is None:
                res = v
            else:
                if isinstance(res, Ref) or isinstance(v, Ref):
                    self.throw('ValueError', 'ambiguous truth value')
                res = self.bool_of(self.truth(res) * self.truth(v))
            a = b
        return res

    def e_IfExp(self, n):
        c = self.truth(self.ev(n.test))
        return self.branch(c, lambda: self.ev(n.body),
                           lambda: self.ev(n.orelse))

    def e_Lambda(self, n):
        return self.make_func(n)

    def e_NamedExpr(self, n):
        v = self.ev(n.value)
        self.setvar(n.target.id, v)
        return v

    def e_Yield(self, n):
        v = self.ev(n.value) if n.value is not None else None
        out = getattr(self.frame, 'yields', None)
        if out is None:
            raise Undecided('yield')
        self.list_append(out, v)
        return None

    def e_JoinedStr(self, n):
        out = ''
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.ev(v.value)
                parts.append(x if isinstance(x, str) else None)
        if all(isinstance(p, str) for p in parts):
            return ''.join(parts)
        return Opaque(('fstring', n.lineno), True)

    def e_Starred(self, n):
        raise Undecided('starred expression')

    def e_Call(self, n):
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            raise Undecided('super')
        f = self.ev(n.func)
        args = []
        for x in n.args:
            if isinstance(x, ast.Starred):
                v = self.ev(x.value)
                args.extend(self.items(v))
            else:
                args.append(self.ev(x))
        kw = {}
        for k in n.keywords:
            if k.arg is None:
                d = self.ev(k.value)
                for kk, vv in self.heap[d.id].d.items():
                    kw[kk] = vv
            else:
                kw[k.arg] = self.ev(k.value)
        return self.call(f, args, kw, n)

    # comprehensions --------------------------------------------------
    def e_ListComp(self, n):
        return self.comp(n, lambda: self.ev(n.elt))

    e_GeneratorExp = e_ListComp

    def e_SetComp(self, n):
        r = self.comp(n, lambda: self.ev(n.elt))
        return self.new(ListC(self.items(r)), 'set')

    def e_DictComp(self, n):
        r = self.comp(n, lambda: (self.ev(n.key), self.ev(n.value)))
        d = {}
        for k, v in self.items(r):
            d[self.keyof(k)] = v
        return self.mkdict(d)

    def comp(self, n, elt):
        out = self.mklist([])
        sc = self.new(ScopeC({}, self.frame.scope), 'scope')
        fr = Frame(self.frame.fn)
        fr.scope = sc
        fr.mod = self.frame.mod
        fr.file = self.frame.file
        fr.cls = self.frame.cls
        fr.loops = []

        def go(k):
            if k == len(n.generators):
                self.list_append(out, elt())
                return
            g = n.generators[k]
            it = self.ev(g.iter)

            def body():
                def conds(i):
                    if i == len(g.ifs):
                        go(k + 1)
                        return
                    c = self.truth(self.ev(g.ifs[i]))
                    self.branch(c, lambda: conds(i + 1), lambda: None)
                conds(0)
            self.run_loop(n, g.target, it, body)
        self.frames.append(fr)
        try:
            go(0)
        finally:
            self.frames.pop()
        return out

    def list_append(self, r, v):
        c = self.heap[r.id]
        self.heap[r.id] = ListC(c.items + (v,))

    def list_extend(self, r, v):
        c = self.heap[r.id]
        if isinstance(v, Ref) and v.ty == 'arr':
            a = self.contents(v)
            n = a.shape()[0].as_int()
            if n is None:
                raise Undecided('extend by an array')
            items = [self.getitem(v, P(k)) for k in range(n)]
        else:
            items = self.iter_list(v)
        self.heap[r.id] = ListC(c.items + tuple(items))

    def iter_list(self, v):
        """items of an iterable; symbolic ranges become segments"""
        it = self.iterate(v)
        if isinstance(it, SymIter):
            var = self.loop_atom(it.lo)
            return [Seg(var, it.lo, it.hi, [it.item(P(var))])]
        return it

    # --------------------------------------------------------------- loops
    def iterate(self, v):
        """list of items, or SymIter"""
        v = self.refine(v)
        if isinstance(v, RangeV):
            n = self.range_len(v).as_int()
            if n is not None and n <= self.cfg.get('unroll', 12):
                return self.range_items(v, n)
            if v.step == ONE:
                return SymIter(v.lo, v.hi, lambda i: i)
            if v.step == -ONE:
                return SymIter(ZERO, v.lo - v.hi, lambda i: v.lo - i)
            raise Undecided('range step')
        if isinstance(v, Ref) and v.ty == 'arr':
            a = self.contents(v)
            n = a.shape()[0]
            k = n.as_int()
            if a.mask is None and k is not None and \
                    k <= self.cfg.get('unroll', 12):
                return [self.getitem(v, P(j)) for j in range(k)]
            return SymIter(ZERO, n, lambda i: self.getitem(v, i))
        if isinstance(v, SymIter):
            return v
        if isinstance(v, Builtin) and v.name == 'iter':
            return v.extra
        if isinstance(v, str):
            return list(v)
        if isinstance(v, Opaque):
            return SymIter(ZERO, self.opaque_num(Opaque(('len', v.key)),
                                                 isint=True),
                           lambda i: Opaque((v.key, 'item', i)))
        items = self.items(v)
        if any(isinstance(x, (Seg, GItem, PrefixMark)) for x in items):
            if len(items) == 1 and isinstance(items[0], Seg) and \
                    len(items[0].items) == 1 and not isinstance(
                        items[0].items[0], (Seg, GItem)):
                s = items[0]
                return SymIter(s.lo, s.hi,
                               lambda i: sub_value(s.items[0], {s.var: i}))
            raise Undecided('iteration over a list built in a loop')
        return items

    def opaque_num(self, v, isint=False, pos=False):
        return fn('opaque', (v.key,), real=True, isint=isint, pos=pos)

    def loop_atom(self, lo):
        c = lo.const()
        self.loopdepth += 1
        d = self.loopdepth
        self.loopdepth -= 1
        lb = None
        if c is not None:
            lb = F(c)
        else:
            s = sign_of(lo)
            if s in (1, 2, 0):
                lb = F(0)
        return _intern('bv', (('L', d, lb),), real=True, isint=True, lb=lb)

    def s_For(self, s):
        it = self.ev(s.iter)
        self.run_loop(s, s.target, it, lambda: self.block(s.body), s.orelse)

    def s_While(self, s):
        self.run_while(s)

    def run_loop(self, node, target, itv, body, orelse=()):
        itv = self.refine(itv)
        if isinstance(itv, Choice):
            self.branch(itv.c,
                        lambda: self.run_loop(node, target, itv.a, body,
                                              orelse),
                        lambda: self.run_loop(node, target, itv.b, body,
                                              orelse))
            return
        it = self.iterate(itv)
        if isinstance(it, list):
            self.concrete_loop(node, target, it, body, orelse)
            return
        if orelse:
            raise Undecided('for-else over a symbolic range')
        self.symbolic_loop(node, target, it, body)

    def concrete_loop(self, node, target, items, body, orelse):
        breaks = []
        alive = True
        facts0 = self.facts
        for x in items:
            if not alive:
                break
            facts1 = self.facts
            lf = {'breaks': [], 'conts': []}
            self.frame.loops.append(lf)
            if isinstance(x, GItem):
                raise Undecided('conditional item')
            self.assign(target, x)
            pc0, heap0 = self.pc, self.heap
            try:
                self.heap = dict(self.heap)
                try:
                    body()
                    ends = [(self.pc, self.heap)]
                except Dead:
                    ends = []
            finally:
                self.frame.loops.pop()
            breaks += lf['breaks']
            if lf['conts']:
                self.facts = facts1
            ends = lf['conts'] + ends
            if not ends:
                alive = False
                break
            self.join(ends)
        if alive:
            if orelse:
                try:
                    self.block(orelse)
                    ends = [(self.pc, self.heap)]
                except Dead:
                    ends = []
            else:
                ends = [(self.pc, self.heap)]
        else:
            ends = []
        if breaks:
            self.facts = facts0
        ends = breaks + ends
        if not ends:
            raise Dead()
        self.join(ends)

    def join(self, ends):
        pc, heap = ends[-1]
        for p, h in reversed(ends[:-1]):
            heap = self.merge_heap(p, h, heap)
            pc = pc + p
        self.heap = heap
        self.pc = pc

    # locations changed by a loop body
    def changed(self, h0, h1):
        out = []
        for k, x in h0.items():
            y = h1.get(k)
            if y is x or y is None:
                continue
            if isinstance(x, ScopeC):
                for n in y.vars:
                    a = x.vars.get(n, UNBOUND)
                    if a is not y.vars[n] and not self.same_value(
                            a, y.vars[n]):
                        out.append((k, 'var', n))
            elif isinstance(x, ObjC):
                for n in y.attrs:
                    a = x.attrs.get(n, UNBOUND)
                    if a is not y.attrs[n] and not self.same_value(
                            a, y.attrs[n]):
                        out.append((k, 'attr', n))
            elif isinstance(x, DictC):
                for n in y.d:
                    a = x.d.get(n, UNBOUND)
                    if a is not y.d[n] and not self.same_value(a, y.d[n]):
                        out.append((k, 'key', n))
            elif isinstance(x, ListC):
                if len(x.items) != len(y.items) or not all(
                        self.same_value(p, q)
                        for p, q in zip(x.items, y.items)):
                    out.append((k, 'list', None))
            elif isinstance(x, ArrC):
                if x.base is None and y.base is None and x.a != y.a:
                    out.append((k, 'arr', None))
        return out

    def loc_get(self, heap, loc):
        k, ty, n = loc
        c = heap[k]
        if ty == 'var':
            return c.vars.get(n, UNBOUND)
        if ty == 'attr':
            return c.attrs.get(n, UNBOUND)
        if ty == 'key':
            return c.d.get(n, UNBOUND)
        if ty == 'list':
            return c
        return c.a

    def loc_set(self, heap, loc, v):
        k, ty, n = loc
        c = heap[k]
        if ty == 'var':
            vs = dict(c.vars)
            vs[n] = v
            heap[k] = ScopeC(vs, c.parent, c.locs)
        elif ty == 'attr':
            at = dict(c.attrs)
            at[n] = v
            heap[k] = ObjC(c.cls, at)
        elif ty == 'key':
            d = dict(c.d)
            d[n] = v
            heap[k] = DictC(d)
        elif ty == 'list':
            heap[k] = v
        else:
            heap[k] = ArrC(v)

    def make_marker(self, uid, loc, v0, v1, h0, h1):
        """an unknown value standing for loc at the start of an iteration"""
        k, ty, n = loc
        name = ('lm', uid, ty, n if ty != 'arr' else k)
        if ty == 'list':
            return ListC([PrefixMark((uid, k))])
        if ty == 'arr':
            b = Base(name, v0.dims, real=is_real(v0.e) and is_real(v1.e))
            return Arr(v0.dims, v0.axes,
                       elem(b, [ix(i) for i in range(len(v0.dims))]),
                       v0.kind)
        if v0 is UNBOUND:
            return UNBOUND
        if isnum(v0) and isnum(v1):
            r = is_real(num(v0)) and is_real(num(v1))
            return sym(name, real=r,
                       isint=is_int(num(v0)) and is_int(num(v1)))
        arrs = []
        for v, h in ((v0, h0), (v1, h1)):
            if isinstance(v, Ref) and v.ty == 'arr':
                self_heap = self.heap
                self.heap = h
                try:
                    arrs.append(self.contents(v))
                finally:
                    self.heap = self_heap
            elif isinstance(v, Choice):
                self_heap = self.heap
                self.heap = h
                try:
                    arrs.append(self.arr(v))
                except Undecided:
                    pass
                finally:
                    self.heap = self_heap
            elif isnum(v):
                arrs.append(Arr((), (), num(v)))
        if len(arrs) == 2 and arrs[1].mask is None:
            a = arrs[1]
            b = Base(name, a.dims, real=all(is_real(x.e) for x in arrs))
            return ('newarr', Arr(a.dims, a.axes, elem(
                b, [ix(i) for i in range(len(a.dims))]), a.kind))
        if isinstance(v0, Mat) and isinstance(v1, Mat):
            return Mat(v1.rd, v1.cd, [(Op(name, v1.rd, v1.cd),)])
        if v0 is None and len(arrs) == 1:
            a = arrs[0]
            b = Base(name, a.dims)
            return ('newarr', Arr(a.dims, a.axes, elem(
                b, [ix(i) for i in range(len(a.dims))]), a.kind))
        if (v0 is None or isinstance(v0, (Opaque, str))) and isnum(v1):
            return sym(name, real=is_real(num(v1)))
        return Opaque(name)

    def loop_body(self, heap_in, setup, body, markers):
        """one abstract iteration; returns (ends, breaks)"""
        self.heap = dict(heap_in)
        mref = {}
        for loc, m in markers.items():
            if isinstance(m, tuple) and m and m[0] == 'newarr':
                r = self.mkarr(m[1])
                mref[loc] = r
                self.loc_set(self.heap, loc, r)
            else:
                mref[loc] = m
                self.loc_set(self.heap, loc, m)
        lf = {'breaks': [], 'conts': []}
        self.frame.loops.append(lf)
        pc0 = self.pc
        self.pc = ONE
        self.pcstack.append(pc0)
        depth = len(self.pcstack)
        nret = len(self.frame.returns)
        self.loopdepth += 1
        facts0 = self.facts
        try:
            try:
                setup()
                start = dict(self.heap)
                body()
                ends = [(self.pc, self.heap)]
            except Dead:
                ends = []
        finally:
            self.loopdepth -= 1
            self.frame.loops.pop()
            del self.pcstack[depth - 1:]
            self.pc = pc0
            self.facts = facts0
        rets = self.frame.returns[nret:]
        del self.frame.returns[nret:]
        return start, lf['conts'] + ends, lf['breaks'], mref, rets

    def symbolic_loop(self, node, target, it, body):
        uid = ('loop', getattr(node, 'lineno', 0), self.fresh())
        var = self.loop_atom(it.lo)
        heap0 = self.heap
        markers = {}
        npend, nev, nloops = len(self.pending), len(self.events), \
            len(self.loops)

        def setup():
            self.assign(target, it.item(P(var)))
        for _ in range(8):
            del self.pending[npend:]
            del self.events[nev:]
            del self.loops[nloops:]
            start, ends, breaks, mref, rets = self.loop_body(
                heap0, setup, body, markers)
            if rets:
                raise Undecided('return inside a symbolic loop')
            new = {}
            for p, h in ends + breaks:
                for loc in self.changed(start, h):
                    if loc not in markers and loc[0] in heap0:
                        if loc[1] == 'var' and loc[0] == \
                                self.frame.scope.id and \
                                loc[2] in target_names(target):
                            continue
                        new.setdefault(loc, h)
            if not new:
                break
            for loc, h in new.items():
                v0 = self.loc_get(heap0, loc)
                v1 = self.loc_get(h, loc)
                markers[loc] = self.make_marker(uid, loc, v0, v1, heap0, h)
        else:
            raise Undecided('loop does not stabilise')
        rec = LoopRec()
        rec.node = node
        rec.where = self.where()
        rec.uid = uid
        rec.var = var
        rec.lo, rec.hi = it.lo, it.hi
        rec.init = {loc: self.loc_get(heap0, loc) for loc in markers}
        rec.heap0 = heap0
        rec.markers = markers
        rec.mref = mref
        rec.start = start
        rec.ends = ends
        rec.breaks = breaks
        rec.fn = self.frame.fn.qual if self.frame.fn else None
        self.loops.append(rec)
        empty = (it.hi - it.lo)
        if breaks:
            pc0 = self.pc
            self.join(breaks + ends)
            self.pc = pc0
            hb = self.heap
            self.finish_havoc(rec, hb, heap0, it, {})
            return
        if not ends:
            # body never completes: only the empty range gets past the loop
            raise Undecided('loop body never completes')
        pc0 = self.pc
        self.join(ends)
        self.pc = pc0
        self.finish(rec, self.heap, heap0, it)

    def finish_havoc(self, rec, h, heap0, it, closed):
        """values after the last iteration, in terms of its start markers"""
        out = dict(h)
        last = {rec.var: it.hi - 1}
        if not rec.breaks:
            for k in list(out):
                if k in heap0 and out[k] is heap0[k]:
                    continue
                out[k] = self.sub_cell(out[k], last)
        s = sign_of(it.hi - it.lo)
        if s == 1:
            self.heap = out
            return
        c = lt0(it.lo - it.hi)
        self.heap = self.merge_heap(c, out, heap0)

    def sub_cell(self, c, mp):
        if isinstance(c, ScopeC):
            return ScopeC({n: sub_value(v, mp) for n, v in c.vars.items()},
                          c.parent, c.locs)
        if isinstance(c, ObjC):
            return ObjC(c.cls, {n: sub_value(v, mp)
                                for n, v in c.attrs.items()})
        if isinstance(c, DictC):
            return DictC({n: sub_value(v, mp) for n, v in c.d.items()})
        if isinstance(c, ListC):
            return ListC([sub_value(v, mp) for v in c.items])
        if isinstance(c, ArrC):
            if c.base is not None:
                return c
            return ArrC(sub_value(c.a, mp))
        return c

    def marker_atoms(self, rec):
        """syntactic test: does a value mention any marker of this loop"""
        def test(x):
            return mentions_uid(x, rec.uid)
        return test

    def finish(self, rec, h, heap0, it):
        var = rec.var
        dep = self.marker_atoms(rec)
        out = dict(h)
        self.heap = out
        done = {}
        open_ = []
        nonempty = sign_of(it.hi - it.lo) == 1
        rngc = None
        for loc, m in rec.markers.items():
            v0 = rec.init[loc]
            v1 = self.loc_get(h, loc)
            try:
                r = self.close(rec, loc, v0, rec.mref[loc], v1, h, it, dep)
            except Undecided:
                r = None
            if r is None:
                open_.append(loc)
            else:
                done[loc] = r
        # values that still depend on markers keep their last-iteration form
        last = {var: it.hi - 1}
        for k in list(out):
            if k in heap0 and out[k] is heap0[k]:
                continue
            out[k] = self.sub_cell(out[k], last)
        for loc, r in done.items():
            self.loc_set(out, loc, r)
        # replace remaining mentions of closed scalar markers is not sound;
        # they only occur in open locations
        rec.open = open_
        if not nonempty and (open_ or True):
            c = lt0(it.lo - it.hi)
            if c != ONE:
                res = self.merge_heap(c, out, heap0)
                for loc, r in done.items():
                    if getattr(rec, 'exact', {}).get(loc):
                        self.loc_set(res, loc, r)
                self.heap = res
                return
        self.heap = out

    def close(self, rec, loc, v0, m, v1, h, it, dep):
        """closed form of a location over the whole range, or None"""
        var = rec.var
        ex = rec.__dict__.setdefault('exact', {})
        if loc[1] == 'list':
            items = v1.items
            pre = items[0] if items else None
            if isinstance(pre, PrefixMark) and pre.uid == (rec.uid, loc[0]):
                new = items[1:]
                for x in new:
                    if self.item_dep(x, dep, h):
                        return None
                ex[loc] = True
                if not new:
                    return v0
                sv = self.freeze_items(new, h)
                return ListC(tuple(v0.items) + (
                    Seg(var, it.lo, it.hi, sv),))
            return None
        if loc[1] == 'arr':
            a0, am, a1 = v0, m, v1
            if tuple(a0.dims) != tuple(a1.dims):
                return None
            self._close_dims = a0.dims
            e = self.close_elem(rec, a0.e, am.e, a1.e, it, dep,
                                len(a0.dims))
            if e is None:
                return None
            ex[loc] = True
            return Arr(a0.dims, a0.axes, e, a0.kind)
        if v0 is UNBOUND:
            return None
        if isnum(v0) and isnum(v1) and isinstance(m, Poly):
            d = num(v1) - m
            if not dep(d):
                ex[loc] = True
                v = bva(('tmp',))
                body = deep(d, {var: P(v)}) if True else d
                return num(v0) + self.sum_var(d, var, it)
            if not dep(num(v1)):
                return None
            return None
        if isinstance(v1, Ref) and v1.ty == 'arr' and isinstance(m, Ref):
            sh = self.heap
            a1 = self.contents(v1)
            am = self.contents(m)
            if isinstance(v0, Ref) and v0.ty == 'arr' or isnum(v0):
                self.heap = rec.heap0
                try:
                    a0 = self.arr(v0)
                finally:
                    self.heap = sh
                dims, axes, es, mask = align([a1, am, a0])
                d = es[0] - es[1]
                if mask is None and not dep(d):
                    ex[loc] = True
                    return self.mkarr(Arr(
                        dims, axes, es[2] + self.sum_var(d, var, it)))
                if len(a1.dims) == len(a0.dims):
                    self._close_dims = a1.dims
                    e = self.close_elem(rec, a0.e, am.e, a1.e, it, dep,
                                        len(a0.dims))
                    if e is not None:
                        ex[loc] = True
                        return self.mkarr(Arr(dims, axes, e, a0.kind))
        if isinstance(v1, Mat) and isinstance(m, Mat) and \
                isinstance(v0, Mat):
            return None
        return None

    def sum_var(self, d, var, it):
        if d.is_zero():
            return ZERO
        lvl = bind_level(d)
        v = bva(('s', lvl, 0))
        return mk_sum(((v, it.lo, it.hi),), deep(d, {var: P(v)}))

    def close_elem(self, rec, e0, em, e1, it, dep, nd):
        var = rec.var
        d = e1 - em
        if not dep(d):
            return e0 + self.sum_var(d, var, it)
        # point store at an index determined by the loop variable
        for a in ind_atoms(e1):
            if a.kind != 'ind' or a.args[0] != 'eq':
                continue
            q = a.args[1]
            if var not in mentions(q):
                continue
            # solve q == 0 for var
            c = F(0)
            for m, k in q.t.items():
                if len(m) == 1 and m[0] == (var, F(1)):
                    c = k
            if c == 0:
                continue
            p = (P(var) * c - q) * P(1 / c)
            if var in mentions(p):
                continue
            hit = replace_atoms(e1, {a: ONE})
            miss = replace_atoms(e1, {a: ZERO})
            if miss != em:
                continue
            # the hit value may read this array only at the same cell
            mbase = [x for mm in em.t for x, _ in mm if x.kind == 'el']
            hv = hit
            if dep(hit):
                hv = replace_atoms(hit, {mbase[0]: e0}) if mbase else hit
                if dep(hv):
                    return None
            hv = deep(hv, {var: p})
            ins = ONE
            if not sign_of(p - it.lo) in (1, 2, 0):
                ins = ins * (ONE - lt0(p - it.lo))
            if not self.always_below(p, it.hi, nd):
                ins = ins * lt0(p - it.hi)
            return ite(ins, hv, e0)
        return None

    def always_below(self, p, hi, nd):
        # ix(d) < size(d) by construction of the index domain
        for d in range(nd):
            if p == ix(d):
                n = self._dimsize(d)
                if n is not None and same(n, hi):
                    return True
        return False

    def _dimsize(self, d):
        return self._close_dims[d] if getattr(self, '_close_dims', None) \
            else None

    def item_dep(self, x, dep, h):
        if isinstance(x, GItem):
            return dep(x.cond) or self.item_dep(x.val, dep, h)
        if isinstance(x, Seg):
            return dep(x.lo) or dep(x.hi) or any(
                self.item_dep(y, dep, h) for y in x.items)
        if isinstance(x, Poly):
            return dep(x)
        if isinstance(x, tuple):
            return any(self.item_dep(y, dep, h) for y in x)
        if isinstance(x, Ref) and x.ty == 'arr':
            sh = self.heap
            self.heap = h
            try:
                return dep(self.contents(x).key())
            finally:
                self.heap = sh
        return False

    def freeze_items(self, items, h):
        out = []
        for x in items:
            out.append(self.freeze(x, h))
        return out

    def freeze(self, x, h):
        if isinstance(x, Ref) and x.ty == 'arr':
            sh = self.heap
            self.heap = h
            try:
                a = self.contents(x)
            finally:
                self.heap = sh
            return a if a.axes else a.e
        if isinstance(x, GItem):
            return GItem(x.cond, self.freeze(x.val, h))
        if isinstance(x, tuple):
            return tuple(self.freeze(y, h) for y in x)
        return x

    # while ------------------------------------------------------------
    def run_while(self, s):
        if self.short_while(s):
            return
        uid = ('loop', s.lineno, self.fresh())
        heap0 = self.heap
        markers = {}
        npend, nev, nloops = len(self.pending), len(self.events), \
            len(self.loops)
        cond = []

        def body():
            del cond[:]
            c = self.truth(self.ev(s.test))
            cond.append(c)
            if c == ONE:
                self.block(s.body)
                return
            f = self.facts_of(c)
            self.facts = dict(self.facts)
            self.facts.update(f)
            self.block(s.body)
        for _ in range(8):
            del self.pending[npend:]
            del self.events[nev:]
            del self.loops[nloops:]
            start, ends, breaks, mref, rets = self.loop_body(
                heap0, lambda: None, body, markers)
            if rets:
                raise Undecided('return inside a while loop')
            new = {}
            for p, h in ends + breaks:
                for loc in self.changed(start, h):
                    if loc not in markers and loc[0] in heap0:
                        new.setdefault(loc, h)
            if not new:
                break
            for loc, h in new.items():
                markers[loc] = self.make_marker(
                    uid, loc, self.loc_get(heap0, loc),
                    self.loc_get(h, loc), heap0, h)
        else:
            raise Undecided('loop does not stabilise')
        # counting loop?
        ind = None
        for loc, m in markers.items():
            if not isinstance(mref[loc], Poly) or not ends:
                continue
            mv = mref[loc]
            steps = set()
            for p, h in ends:
                v = self.loc_get(h, loc)
                steps.add(num(v) - mv if isnum(v) else None)
            if len(steps) != 1 or None in steps:
                continue
            st = steps.pop().as_int()
            if st not in (1, -1):
                continue
            hi = self.solve_bound(cond[0], mv, st, uid)
            if hi is not None:
                ind = (loc, mv, st, hi)
                break
        if ind is not None:
            loc, mv, st, hi = ind
            v0 = num(self.loc_get(heap0, loc))
            self.heap = heap0
            del self.pending[npend:]
            del self.events[nev:]
            del self.loops[nloops:]
            n = (hi - v0) if st == 1 else (v0 - hi)

            def setit(i):
                self.loc_set(self.heap, loc, v0 + i * st)
                return None
            k = n.as_int()
            if k is not None and 0 <= k <= self.cfg.get('unroll', 12):
                self.concrete_while(s, k)
            else:
                self.counted_while(s, loc, v0, st, n)
            return
        if not breaks and not ends:
            raise Dead()
        rec = LoopRec()
        rec.node = s
        rec.where = self.where()
        rec.uid = uid
        rec.var = None
        rec.lo = rec.hi = None
        rec.init = {loc: self.loc_get(heap0, loc) for loc in markers}
        rec.heap0 = heap0
        rec.markers = markers
        rec.mref = mref
        rec.start = start
        rec.ends = ends
        rec.breaks = breaks
        rec.cond = cond[0]
        rec.fn = self.frame.fn.qual if self.frame.fn else None
        self.loops.append(rec)
        pc0 = self.pc
        if cond[0] == ONE:
            if not breaks:
                raise Dead()
            self.join(breaks)
        else:
            self.join(breaks + ends)
            first = self.simp_first(s, heap0)
            if first != ONE:
                self.heap = self.merge_heap(first, self.heap, heap0)
        self.pc = pc0

    def short_while(self, s):
        """unroll a loop that a decided comparison in its test bounds"""
        if s.orelse:
            return False
        limit = self.cfg.get('unroll', 12)
        tests = s.test.values if isinstance(s.test, ast.BoolOp) and \
            isinstance(s.test.op, ast.And) else [s.test]
        near = False
        for t in tests:
            if isinstance(t, ast.Compare) and len(t.ops) == 1 and \
                    isinstance(t.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE,
                                          ast.NotEq)):
                try:
                    a, b = self.ev(t.left), self.ev(t.comparators[0])
                except (Undecided, Dead):
                    return False
                if isnum(a) and isnum(b):
                    k = (num(a) - num(b)).as_int()
                    if k is not None and abs(k) <= limit:
                        near = True
            elif tests[0] is t:
                break           # may rely on evaluation order
        if not near:
            return False
        heap, pc, facts = self.heap, self.pc, self.facts
        marks = len(self.pending), len(self.events), len(self.loops)
        step = ast.copy_location(ast.If(
            test=s.test, body=s.body,
            orelse=[ast.copy_location(ast.Break(), s)]), s)
        step.body = s.body
        count = [0]

        def body():
            count[0] += 1
            if count[0] > limit + 1:
                raise _Unbounded()
            self.block([step])
        try:
            self.concrete_loop(s, ast.Name(id='__wh__', ctx=ast.Store()),
                               [P(i) for i in range(limit + 2)], body, ())
        except _Unbounded:
            self.heap, self.pc, self.facts = heap, pc, facts
            del self.pending[marks[0]:]
            del self.events[marks[1]:]
            del self.loops[marks[2]:]
            return False
        return True

    def simp_first(self, s, heap0):
        sh = self.heap
        self.heap = dict(heap0)
        try:
            return self.truth(self.ev(s.test))
        finally:
            self.heap = sh

    def solve_bound(self, c, m, st, uid):
        """c == [m < hi] (st=1) or [m > hi] (st=-1): return hi"""
        if c == ONE or c == ZERO:
            return None
        for neg, p in ((False, c), (True, ONE - c)):
            if len(p.t) != 1:
                continue
            (mm, k), = p.t.items()
            if k != 1 or len(mm) != 1:
                continue
            a = mm[0][0]
            if a.kind != 'ind' or a.args[0] != 'lt':
                continue
            q = a.args[1]
            (ma, _), = m.t.items()
            k = q.t.get(ma, 0)
            if k not in (1, -1):
                continue
            rest = q - m * k
            if mentions_uid(rest, uid):
                continue
            if st == 1:
                if k == 1 and not neg:      # m + rest < 0
                    return -rest
                if k == -1 and neg:         # not(rest - m < 0): m <= rest
                    return rest + 1
            else:
                if k == -1 and not neg:     # rest - m < 0: m > rest
                    return rest
                if k == 1 and neg:          # m >= -rest: m > -rest-1
                    return -rest - 1
        return None

    def concrete_while(self, s, k):
        self.concrete_loop(s, ast.Name(id='__wh__', ctx=ast.Store()),
                           [P(i) for i in range(k)],
                           lambda: self.block(s.body), s.orelse)

    def counted_while(self, s, loc, v0, st, n):
        """while-loop with an induction variable, as a counted loop"""
        it = SymIter(ZERO, n, lambda i: i)
        if s.orelse:
            raise Undecided('while-else')
        tname = '__wh%d__' % s.lineno

        def body():
            i = self.getvar(tname)
            self.loc_set(self.heap, loc, v0 + i * st)
            self.block(s.body)
        self.symbolic_loop(s, ast.Name(id=tname, ctx=ast.Store()), it, body)
        self.loc_set(self.heap, loc, v0 + n * st)

    # ------------------------------------------------------------ operators
    def choice_arr(self, v):
        """a Choice between arrays/numbers can be handled elementwise"""
        if isinstance(v, Choice):
            return self.choice_arr(v.a) and self.choice_arr(v.b)
        return isnum(v) or isinstance(v, Ref) and v.ty == 'arr'

    def binop(self, op, a, b):
        a, b = self.refine(a), self.refine(b)
        if isnum(a) and isnum(b):
            return self.num_op(op, num(a), num(b))
        for v in (a, b):
            if isinstance(v, Choice) and not self.choice_arr(v):
                if v is a:
                    return self.dist(a, lambda x: self.binop(op, x, b))
                return self.dist(b, lambda x: self.binop(op, a, x))
        if isinstance(a, (Mat, HBlocks, VBlocks)) or \
                isinstance(b, (Mat, HBlocks, VBlocks)):
            return self.lib.mat_binop(self, op, a, b)
        if isinstance(a, str) or isinstance(b, str) or \
                isinstance(a, Opaque) and a.is_str:
            if op == 'Add' and isinstance(a, str) and isinstance(b, str):
                return a + b
            if op == 'Mod' or op == 'Add' and (
                    isinstance(b, Opaque) or isinstance(a, Opaque)):
                return Opaque(('str', self.ekey(a), self.ekey(b)), True)
            if op == 'Mult' and isinstance(a, str):
                return Opaque(('str', a), True)
            self.throw('TypeError', 'bad operand types for %s' % op)
        for x, y in ((a, b), (b, a)):
            if isinstance(x, tuple) or isinstance(x, Ref) and \
                    x.ty == 'list':
                if op == 'Add' and x is a and (
                        isinstance(y, tuple) == isinstance(x, tuple)) and (
                        isinstance(y, tuple) or isinstance(y, Ref)
                        and y.ty == 'list'):
                    r = self.items(a) + self.items(b)
                    return tuple(r) if isinstance(a, tuple) else \
                        self.mklist(r)
                if op == 'Mult' and isnum(y):
                    k = num(y).as_int()
                    if k is None:
                        var = self.loop_atom(ZERO)
                        r = [Seg(var, ZERO, num(y), list(self.items(x)))]
                    else:
                        r = self.items(x) * k
                    return tuple(r) if isinstance(x, tuple) else \
                        self.mklist(r)
        if a is None or b is None:
            self.throw('TypeError', 'unsupported operand None for %s' % op)
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if isinstance(a, Opaque) and isinstance(b, Opaque) or \
                    isnum(a) or isnum(b):
                x = self.opaque_num(a) if isinstance(a, Opaque) else num(a)
                y = self.opaque_num(b) if isinstance(b, Opaque) else num(b)
                return self.num_op(op, x, y)
        if isinstance(a, Ref) and a.ty == 'obj' or \
                isinstance(b, Ref) and b.ty == 'obj':
            nm = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__',
                  'MatMult': '__matmul__'}.get(op)
            if isinstance(a, Ref) and a.ty == 'obj':
                m = self.heap[a.id].cls.lookup(nm)
                if m is not None:
                    return self.call(m, [a, b], {})
            self.throw('TypeError', 'unsupported operand')
        if isinstance(a, (FuncV, Builtin, Bound)) or \
                isinstance(b, (FuncV, Builtin, Bound)):
            self.throw('TypeError', 'function used as an operand')
        if isinstance(a, Ref) and a.ty in ('dict', 'set') or \
                isinstance(b, Ref) and b.ty in ('dict', 'set'):
            raise Undecided('operator on %r' % (a,))
        if op == 'MatMult':
            return self.lib.np_dot(self, [a, b], {})
        x, y = self.arr(a), self.arr(b)
        f = lambda p, q: self.num_op(op, p, q)
        kind = None
        if op == 'Div':
            kind = 'c' if 'c' in (x.kind, y.kind) else None
        r = ewise(f, [x, y])
        r.kind = self.result_kind(op, x, y, r.e)
        return self.mkarr(r)

    def result_kind(self, op, x, y, e):
        ks = [k for k in (x.kind, y.kind)]
        if op in ('BitAnd', 'BitOr', 'BitXor') and \
                all(k == 'b' for k in ks):
            return 'b'
        if op == 'Mult' and all(k == 'b' for k in ks):
            return 'b'
        if op == 'Add' and all(k == 'b' for k in ks):
            return 'b'
        if 'c' in ks:
            return 'c'
        if not is_real(e):
            return 'c'
        if is_int(e) and all(k in ('i', 'b') or k is None for k in ks) \
                and any(k in ('i', 'b') for k in ks) and op != 'Div':
            # an integer array combined with an unknown scalar stays integer
            # only when the scalar is known to be one
            ok = True
            for z in (x, y):
                if z.kind is None and not is_int(z.e):
                    ok = False
            if ok:
                return 'i'
        return 'f'

    def num_op(self, op, a, b):
        if op == 'Add':
            return a + b
        if op == 'Sub':
            return a - b
        if op == 'Mult':
            return a * b
        if op == 'Div':
            if b.is_zero():
                self.throw('ZeroDivisionError')
            return a / b
        if op == 'Pow':
            return gpow(a, b)
        if op == 'FloorDiv':
            c = b.const()
            if c == 1:
                return floor(a)
            return floor(a / b)
        if op == 'Mod':
            return mod(a, b)
        if op in ('BitAnd', 'BitOr', 'BitXor') and is_cond(a) and \
                is_cond(b):
            if op == 'BitAnd':
                return a * b
            if op == 'BitOr':
                return p_or(a, b)
            return a + b - 2 * a * b
        ca, cb = a.as_int(), b.as_int()
        if ca is not None and cb is not None:
            if op == 'LShift':
                return P(ca << cb)
            if op == 'RShift':
                return P(ca >> cb)
        raise Undecided('operator %s' % op)

    def compare(self, op, a, b):
        a, b = self.refine(a), self.refine(b)
        if op in ('Is', 'IsNot'):
            r = self.identical(a, b)
            if op == 'IsNot':
                r = self.bool_of(ONE - self.truth(r))
            return r
        if op in ('In', 'NotIn'):
            r = self.contains(a, b)
            if op == 'NotIn':
                r = self.bool_of(ONE - self.truth(r))
            return r
        for v in (a, b):
            if isinstance(v, Choice) and not self.choice_arr(v):
                if v is a:
                    return self.dist(a, lambda x: self.compare(op, x, b))
                return self.dist(b, lambda x: self.compare(op, a, x))
        if isnum(a) and isnum(b):
            return self.bool_of(self.simp(self.num_cmp(op, num(a), num(b))))
        arrlike = lambda v: isinstance(v, Ref) and v.ty == 'arr' or \
            isinstance(v, Choice)
        if arrlike(a) or arrlike(b):
            if a is None or b is None or isinstance(a, str) or \
                    isinstance(b, str):
                return op == 'NotEq'
            x, y = self.arr(a), self.arr(b)
            r = ewise(lambda p, q: self.num_cmp(op, p, q), [x, y])
            r.kind = 'b'
            return self.mkarr(r)
        if isinstance(a, Mat) or isinstance(b, Mat):
            if isinstance(a, Mat) and isinstance(b, Mat):
                same_ = a.key() == b.key()
                return Builtin('matcmp', None, extra=(op, same_))
            raise Undecided('matrix comparison')
        if op in ('Eq', 'NotEq'):
            r = self.equal_values(a, b)
            if op == 'NotEq':
                r = self.bool_of(ONE - self.truth(r))
            return r
        if isinstance(a, str) and isinstance(b, str):
            return {'Lt': a < b, 'Gt': a > b, 'LtE': a <= b,
                    'GtE': a >= b}[op]
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            x = self.opaque_num(a) if isinstance(a, Opaque) else a
            y = self.opaque_num(b) if isinstance(b, Opaque) else b
            if isnum(x) and isnum(y):
                return self.bool_of(self.num_cmp(op, num(x), num(y)))
        if a is None or b is None or isinstance(a, str) or \
                isinstance(b, str):
            self.throw('TypeError', 'comparison %s not supported' % op)
        if isinstance(a, tuple) and isinstance(b, tuple):
            raise Undecided('tuple ordering')
        raise Undecided('comparison')

    def num_cmp(self, op, a, b):
        d = a - b
        if op == 'Lt':
            return lt0(d)
        if op == 'LtE':
            return le0(d)
        if op == 'Gt':
            return lt0(-d)
        if op == 'GtE':
            return le0(-d)
        if op == 'Eq':
            return eq0(d)
        if op == 'NotEq':
            return ONE - eq0(d)
        raise Undecided(op)

    def equal_values(self, a, b):
        if isnum(a) and isnum(b):
            return self.bool_of(self.num_cmp('Eq', num(a), num(b)))
        if isinstance(a, Opaque) or isinstance(b, Opaque):
            if a == b:
                return True
            return self.bool_of(flag(('eq', self.ekey(a), self.ekey(b))))
        if isinstance(a, str) or isinstance(b, str) or a is None or \
                b is None:
            return a == b if type(a) is type(b) else False
        seq = lambda v: isinstance(v, tuple) or isinstance(v, Ref) and \
            v.ty == 'list'
        if seq(a) and seq(b):
            if isinstance(a, tuple) != isinstance(b, tuple):
                return False
            x, y = self.items(a), self.items(b)
            if len(x) != len(y):
                return False
            c = ONE
            for p, q in zip(x, y):
                c = c * self.truth(self.compare('Eq', p, q))
            return self.bool_of(c)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a == b:
                return True
            if a.ty == 'obj' or b.ty == 'obj':
                return False
            raise Undecided('equality')
        if isinstance(a, Ext) and isinstance(b, Ext):
            return a == b
        if isinstance(a, (ClassV, Builtin, FuncV)) or \
                isinstance(b, (ClassV, Builtin, FuncV)):
            return a is b
        if isnum(a) or isnum(b):
            return False
        raise Undecided('equality of %r and %r' % (a, b))

    def identical(self, a, b):
        for x, y in ((a, b), (b, a)):
            if isinstance(x, Choice):
                c = x
                va = self.identical(c.a, y)
                vb = self.identical(c.b, y)
                return self.bool_of(ite(c.c, self.truth(va),
                                        self.truth(vb)))
        if a is None or b is None:
            if isinstance(a, Opaque) or isinstance(b, Opaque):
                o = a if isinstance(a, Opaque) else b
                if never_none(o.key):
                    return False
                return self.bool_of(flag(('isnone', o.key)))
            return a is b
        if isinstance(a, bool) and isinstance(b, bool):
            return a is b
        if isinstance(a, (bool,)) or isinstance(b, (bool,)):
            o, t = (b, a) if isinstance(a, bool) else (a, b)
            if isinstance(o, Poly) and is_cond(o) and o.const() is None:
                return self.bool_of(o if t else ONE - o)
            return False
        if isinstance(a, Ref) and isinstance(b, Ref):
            return a == b
        if isinstance(a, str) and isinstance(b, str):
            return a == b
        if isnum(a) and isnum(b):
            return self.bool_of(self.num_cmp('Eq', num(a), num(b)))
        return a is b or self.same_value(a, b)

    def contains(self, a, b):
        if isinstance(b, Ref) and b.ty == 'dict':
            return self.keyof(a) in self.heap[b.id].d
        if isinstance(b, str):
            if isinstance(a, str):
                return a in b
            if a is None or isinstance(a, (bool, tuple, Poly)):
                self.throw('TypeError', 'not a string')
        if isinstance(b, RangeV) and isinstance(a, Poly) and b.step == ONE:
            return self.bool_of((ONE - lt0(a - b.lo)) * lt0(a - b.hi))
        if isinstance(b, Builtin) and b.name == 'keys':
            return self.keyof(a) in b.extra
        c = ZERO
        for x in self.items(b):
            if isinstance(x, (Seg, GItem, PrefixMark)):
                raise Undecided('membership')
            c = p_or(c, self.truth(self.compare('Eq', a, x)))
            if c == ONE:
                return True
        return self.bool_of(c)

    # --------------------------------------------------------------- deepcopy
    def deepcopy(self, v, memo=None):
        if memo is None:
            memo = {}
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            if v.ty == 'arr':
                r = self.new(ArrC(self.contents(v)), 'arr')
                memo[v.id] = r
                return r
            if v.ty == 'scope':
                return v
            c = self.heap[v.id]
            r = self.new(c, v.ty)
            memo[v.id] = r
            if v.ty in ('list', 'set'):
                self.heap[r.id] = ListC([self.deepcopy(x, memo)
                                         for x in c.items])
            elif v.ty == 'dict':
                self.heap[r.id] = DictC({k: self.deepcopy(x, memo)
                                         for k, x in c.d.items()})
            elif v.ty == 'obj':
                m = c.cls.lookup('__deepcopy__')
                if m is not None:
                    raise Undecided('custom deepcopy')
                self.heap[r.id] = ObjC(c.cls, {
                    n: self.deepcopy(x, memo) for n, x in c.attrs.items()})
            return r
        if isinstance(v, tuple):
            return tuple(self.deepcopy(x, memo) for x in v)
        if isinstance(v, Choice):
            return Choice(v.c, self.deepcopy(v.a, memo),
                          self.deepcopy(v.b, memo))
        if isinstance(v, Bound):
            return Bound(self.deepcopy(v.obj, memo), v.fn)
        if isinstance(v, GItem):
            return GItem(v.cond, self.deepcopy(v.val, memo))
        return v


# ------------------------------------------------------------------ helpers

def apply_vop(a, vop):
    k = vop[0]
    if k == 'sel':
        return read_sel(a, vop[1])
    if k == 'reshape':
        return reshape(a, list(vop[1]))
    if k == 'perm':
        return transpose(a, vop[1])
    raise Undecided('view')


def unapply_vop(a, vop, new):
    """base contents after the view contents became `new`"""
    k = vop[0]
    if k == 'sel':
        e = write_sel(a, vop[1], new)
        if e is None:
            raise Undecided('write through a view')
        return Arr(a.dims, a.axes, e, a.kind)
    if k == 'reshape':
        r = reshape(new, list(a.shape()))
        dims, axes, es, mask = align([a, r])
        return Arr(dims, axes, es[1], a.kind)
    if k == 'perm':
        perm = vop[1]
        n = len(a.axes)
        if perm is None:
            perm = list(range(n))[::-1]
        inv = [perm.index(i) for i in range(n)]
        return transpose(new, inv)
    raise Undecided('write through a view')


def is_cond(p):
    """0/1-valued by construction"""
    if not p.t:
        return True
    if p == ONE:
        return True
    for m in p.t:
        for a, e in m:
            if a.kind != 'ind' and not (a.kind == 'el'
                                        and a.args[0].binary):
                return False
    return p * p == p


def has_atoms(p, f):
    return True


def gitem(c, z):
    if isinstance(z, GItem):
        return GItem(c * z.cond, z.val)
    if isinstance(z, PrefixMark):
        raise Undecided('conditional list prefix')
    return GItem(c, z)


def strip_pc(p, outer):
    return p


_UID = {}


def mentions_uid(x, uid):
    """does x mention a marker of loop uid"""
    if isinstance(x, (bool, str)) or x is None:
        return False
    k = (x, uid)
    r = _UID.get(k)
    if r is None:
        r = _mu(x, uid)
        _UID[k] = r
    return r


def _mu(x, uid):
    if isinstance(x, Atom):
        if x.kind == 'sym':
            n = x.args[0]
            return isinstance(n, tuple) and len(n) > 1 and n[0] == 'lm' \
                and n[1] == uid
        if x.kind in ('ix', 'bv', 'J'):
            return False
        return any(mentions_uid(y, uid) for y in x.args)
    if isinstance(x, Poly):
        return any(mentions_uid(a, uid) for m in x.t for a, _ in m)
    if isinstance(x, Base):
        if isinstance(x.key, tuple) and len(x.key) > 1 and \
                x.key[0] == 'lm' and x.key[1] == uid:
            return True
        return mentions_uid(x.key, uid) if isinstance(x.key, tuple) \
            else False
    if isinstance(x, tuple):
        if len(x) > 1 and x[0] == 'lm' and x[1] == uid:
            return True
        if len(x) == 2 and x[0] == 'prefix' and isinstance(x[1], tuple) \
                and x[1] and x[1][0] == uid:
            return True
        return any(mentions_uid(y, uid) for y in x
                   if not isinstance(y, (int, F, float)))
    return False


_MARKS = {}


def loop_marks(x):
    """the unknowns below x that stand for values at the head of a loop"""
    if isinstance(x, (str, int, F, float, bool)) or x is None:
        return frozenset()
    try:
        r = _MARKS.get(x)
    except TypeError:
        return frozenset()
    if r is not None:
        return r
    s = set()
    if isinstance(x, Atom):
        if x.kind == 'sym':
            s |= loop_marks(x.args[0])
        elif x.kind not in ('ix', 'bv', 'J'):
            for y in x.args:
                s |= loop_marks(y)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                s |= loop_marks(a)
    elif isinstance(x, Base):
        s |= loop_marks(x.key)
    elif isinstance(x, tuple):
        if len(x) == 4 and x[0] == 'lm':
            s.add(x)
        else:
            for y in x:
                s |= loop_marks(y)
    elif hasattr(x, 'mention_parts'):
        for y in x.mention_parts():
            s |= loop_marks(y)
    r = frozenset(s)
    _MARKS[x] = r
    return r


def target_names(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        out = set()
        for x in t.elts:
            out |= target_names(x)
        return out
    if isinstance(t, ast.Starred):
        return target_names(t.value)
    return set()


_LOC = {}


def local_names(node):
    r = _LOC.get(node)
    if r is not None:
        return r
    names = set()
    glob = set()
    for a in node.args.posonlyargs + node.args.args + node.args.kwonlyargs:
        names.add(a.arg)
    for a in (node.args.vararg, node.args.kwarg):
        if a is not None:
            names.add(a.arg)

    def walk(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.ClassDef,
                              ast.AsyncFunctionDef)):
                names.add(c.name)
                continue
            if isinstance(c, (ast.Lambda, ast.ListComp, ast.SetComp,
                              ast.DictComp, ast.GeneratorExp)):
                for w in ast.walk(c):
                    if isinstance(w, ast.NamedExpr):
                        names.add(w.target.id)
                continue
            if isinstance(c, ast.Name) and isinstance(
                    c.ctx, (ast.Store, ast.Del)):
                names.add(c.id)
            elif isinstance(c, (ast.Import, ast.ImportFrom)):
                for al in c.names:
                    names.add((al.asname or al.name).split('.')[0])
            elif isinstance(c, ast.ExceptHandler) and c.name:
                names.add(c.name)
            elif isinstance(c, (ast.Global, ast.Nonlocal)):
                glob.update(c.names)
            walk(c)
    for s in node.body:
        walk(ast.Module(body=[s], type_ignores=[]))
    r = frozenset(names - glob)
    _LOC[node] = r
    return r


_GEN = {}


def is_generator(node):
    r = _GEN.get(node)
    if r is None:
        r = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                r = True
                break
            stack.extend(ast.iter_child_nodes(x))
        _GEN[node] = r
    return r
