"""Refuting an identity between normal forms.

Two normal forms that are not syntactically equal are compared in random
interpretations of their symbols: sizes, indices, scalars and the contents of
unknown arrays.  Different values in one interpretation refute the identity;
agreement in all of them leaves it undecided.  Only normal forms derived from
the source are evaluated here, never the source itself.
"""
import cmath
import math
import random
import time
from fractions import Fraction as F
from .alg import Poly, Atom, Base, P, ixa, bva, Undecided, elem, ix
from .arr import Mat, Op, Arr

SCALE = {'omega': 4e8, 'beta1': 0.5, 'beta2': 0.5, 'step': 0.2}
TOL = 1e-6


class CantEval(Exception):
    pass


class Model:
    def __init__(self, seed, dims=None, spread=False):
        self.seed = seed
        self.spread = spread    # unknown arrays of very different magnitude
        self.rng = random.Random(seed)
        self.env = {}
        self.prints = {}        # skeleton -> [(numbers, id)]
        self.nid = 0
        self.memo = {}
        self.bmemo = {}
        self.vals = {}
        self.vecs = {}
        self.steps = 0
        self.dims = dims or {}

    # ------------------------------------------------------------- symbols
    def symval(self, a):
        if a in self.env:
            return self.env[a]
        r = random.Random('%s|%s' % (self.seed, a.args))
        if a.isint:
            lo = int(a.lb) if a.lb is not None else -3
            v = lo + r.choice((0, 0, 1, 1, 2, 3) if lo < 4 else (0, 1))
        elif a.pos:
            v = r.uniform(0.4, 1.9)
            if a.lb is not None:
                v += float(a.lb)
        elif a.real:
            v = r.uniform(-2, 2)
            if a.lb is not None:
                v = float(a.lb) + abs(v)
        else:
            v = complex(r.uniform(-2, 2), r.uniform(-2, 2))
        if not isinstance(v, int) and isinstance(a.args[0], str):
            v = v * SCALE.get(a.args[0], 1)
        self.env[a] = v
        return v

    # -------------------------------------------------------------- values
    def poly(self, p):
        """(value, magnitude of the largest contribution)"""
        self.steps += 1
        if self.steps > 400000:
            raise CantEval('too large')
        tot, mag = 0, 0.0
        for m, c in p.t.items():
            v = c
            for a, e in m:
                x = self.atom(a)
                if e == 1:
                    v = mul(v, x)
                elif e.denominator == 1:
                    if x == 0 and e < 0:
                        raise CantEval('division by zero')
                    v = mul(v, fpow(x, int(e)))
                else:
                    v = mul(v, root(x, e))
            tot = add(tot, v)
            mag = max(mag, abs(v))
        return tot, mag

    def val(self, p):
        """value; exact zero when cancelled beyond rounding"""
        v, mag = self.poly(p)
        if isinstance(v, (float, complex)) and abs(v) <= 1e-12 * mag:
            return 0
        return v

    def real(self, p):
        v = self.val(p)
        if isinstance(v, complex):
            if abs(v.imag) > 1e-9 * max(1e-300, abs(v)):
                raise CantEval('complex condition')
            v = v.real
        return v

    def int(self, p):
        v = self.real(p)
        if isinstance(v, float):
            if abs(v - round(v)) > 1e-9:
                raise CantEval('index not an integer')
            v = round(v)
        if isinstance(v, F):
            if v.denominator != 1:
                raise CantEval('index not an integer')
            v = int(v)
        return v

    def atom(self, a):
        k = a.kind
        if k == 'sym':
            return self.symval(a)
        if k == 'J':
            return 1j
        if k in ('ix', 'bv'):
            if a not in self.env:
                raise CantEval('unbound index')
            return self.env[a]
        free = a.free
        key = (a,) + tuple(self.env.get(x) for x in free) if free else a
        if key in self.memo:
            return self.memo[key]
        v = self.atom1(a)
        self.memo[key] = v
        return v

    def atom1(self, a):
        k = a.kind
        if k == 'el':
            b, idx, cj = a.args
            i = []
            for p, d in zip(idx, b.dims):
                n = self.int(p)
                if d is not None:
                    dd = self.int(d)
                    if dd <= 0:
                        raise CantEval('empty array')
                    n %= dd
                i.append(n)
            v = self.elval(b, tuple(i))
            return v.conjugate() if cj and isinstance(v, complex) else v
        if k == 'pw':
            v, mag = self.poly(a.args[0])
            if abs(v) <= 1e-12 * mag:
                raise CantEval('division by zero')
            return v
        if k == 'abs':
            return abs(self.val(a.args[0]))
        if k == 'ind':
            t, q = a.args
            if t == 'flag':
                return self.rand(('flag', q), a, True)
            v, mag = self.poly(q)
            if isinstance(v, complex):
                if t == 'eq':
                    return 1 if abs(v) <= 1e-10 * mag else 0
                if abs(v.imag) > 1e-9 * mag:
                    raise CantEval('complex condition')
                v = v.real
            if isinstance(v, float) and abs(v) <= 1e-10 * mag:
                v = 0
            if t == 'eq':
                return 1 if v == 0 else 0
            return 1 if v < 0 else 0
        if k == 'sum':
            rng, body = a.args
            return self.sum(rng, body)
        if k == 'fn':
            return self.fnval(a)
        raise CantEval('kind %s' % k)

    def sum(self, rng, body):
        pts = [()]
        for v, lo, hi in rng:
            l, h = self.int(lo), self.int(hi)
            pts = [p + (x,) for p in pts for x in range(l, h)]
            if len(pts) > 3000:
                raise CantEval('sum too long')
        old = {v: self.env.get(v) for v, _, _ in rng}
        tot = 0
        try:
            for p in pts:
                for (v, _, _), x in zip(rng, p):
                    self.env[v] = x
                tot = add(tot, self.poly(body)[0])
        finally:
            for v, x in old.items():
                if x is None:
                    self.env.pop(v, None)
                else:
                    self.env[v] = x
        return tot

    def fnval(self, a):
        name, args = a.args
        if name in ('max', 'min') and args and isinstance(args[0], Poly):
            return self.extreme(name, args)
        if name in FUN and all(isinstance(x, Poly) for x in args):
            try:
                return FUN[name](*[self.val(x) for x in args])
            except (ValueError, OverflowError, ZeroDivisionError,
                    TypeError) as ex:
                raise CantEval('%s: %s' % (name, ex))
        return self.rand(('fn', name, args), a)

    def extreme(self, name, args):
        """largest / smallest value over (masked) index ranges"""
        body, rest = args[0], list(args[1:])
        mask = rest.pop(0) if rest and isinstance(rest[0], Poly) else None
        if len(rest) != 1 or not isinstance(rest[0], tuple):
            raise CantEval('extremum')
        rest = [(0, x) for x in rest[0]]
        free = [b for b in body.free() | (mask.free() if mask is not None
                                          else set())
                if b.kind == 'bv' and isinstance(b.args[0], tuple)
                and b.args[0][0] == 's' and b not in self.env]
        lvl = set(b.args[0][1] for b in free)
        if len(lvl) != 1:
            raise CantEval('binder of an extremum')
        vs = [bva(('s', min(lvl), i)) for i in range(len(rest))]
        pts = [()]
        for lo, hi in rest:
            pts = [p + (x,) for p in pts for x in range(self.int(hi))]
            if len(pts) > 3000:
                raise CantEval('range too long')
        old = {v: self.env.get(v) for v in vs}
        out = []
        try:
            for p in pts:
                for v, x in zip(vs, p):
                    self.env[v] = x
                if mask is not None and not self.val(mask):
                    continue
                out.append(self.real(body))
        finally:
            for v, x in old.items():
                if x is None:
                    self.env.pop(v, None)
                else:
                    self.env[v] = x
        if not out:
            raise CantEval('extremum of nothing')
        return max(out) if name == 'max' else min(out)

    # ------------------------------------------------- unknown quantities
    def rand(self, key, a, binary=False):
        return self.draw(self.ident(key), (), a.real, a.pos, a.isint, binary)

    def elval(self, b, idx):
        v = self.vector(b)
        if v is not None:
            return v[idx]
        return self.draw(self.base_id(b), idx, b.real, b.pos, b.isint,
                         b.binary)

    def draw(self, ident, idx, real, pos, isint, binary):
        k = (ident, idx, real, pos, isint, binary)
        if k not in self.vals:
            r = random.Random('%s|%s|%s' % (self.seed, ident, idx))
            if binary:
                v = r.randrange(2)
            elif isint:
                v = r.randrange(0, 4)
            elif pos:
                v = r.uniform(0.4, 2.4)
            elif real:
                v = r.uniform(-2, 2)
            else:
                v = complex(r.uniform(-2, 2), r.uniform(-2, 2))
            if self.spread and not (binary or isint or pos):
                v = v * random.Random('%s|%s' % (self.seed, ident)).choice(
                    (1, 1e-4, 1e-9, 1e-14))
            self.vals[k] = v
        return self.vals[k]

    def points(self, dims):
        pts = [()]
        for d in dims:
            pts = [p + (x,) for p in pts for x in range(self.int(d))]
            if len(pts) > 180:
                return None
        return pts

    def at(self, p, pt):
        """value of an element expression at a point"""
        old = {}
        try:
            for d, x in enumerate(pt):
                a = ixa(d)
                old[a] = self.env.get(a)
                self.env[a] = x
            return self.poly(p)[0]
        finally:
            for a, v in old.items():
                if v is None:
                    self.env.pop(a, None)
                else:
                    self.env[a] = v

    def vector(self, b):
        """all elements of a solution or of an operator applied to a vector;
        None when the array has no such meaning"""
        if b in self.vecs:
            return self.vecs[b]
        r = None
        k = b.key
        try:
            if isinstance(k, tuple) and len(k) == 3 and k[0] == 'solve' \
                    and isinstance(b.info, tuple) and len(b.info) == 2 \
                    and isinstance(b.info[0], Mat) and b.info[1] == k[2] \
                    and b.info[0].key() == k[1]:
                r = self.solution(b)
            elif isinstance(k, tuple) and len(k) == 4 and k[0] == 'mv' \
                    and isinstance(b.info, tuple) and len(b.info) == 2 \
                    and isinstance(b.info[0], Op) \
                    and b.info[0].key() == k[1]:
                r = self.applied(b)
        except CantEval:
            r = None
        self.vecs[b] = r
        return r

    def solution(self, b):
        M, rhs = b.info
        if M.sten() is None:
            return None
        pts = self.points(b.dims)
        if pts is None:
            return None
        pos = {p: i for i, p in enumerate(pts)}
        n = len(pts)
        ns = [self.int(d) for d in b.dims]
        st = M.sten()
        sh = [(tuple(self.int(x) for x in k), c) for k, c in st.t.items()]
        rows = []
        for p in pts:
            row = [0j] * (n + 1)
            for k, c in sh:
                q = tuple((x + y) % m for x, y, m in zip(p, k, ns))
                row[pos[q]] += complex(self.at(c, p))
            row[n] = complex(self.at(rhs, p))
            rows.append(row)
        x = gauss(rows, n)
        return {p: x[i] for p, i in pos.items()}

    def applied(self, b):
        op, inner = b.info
        rp, cp = self.points(op.rd), self.points(op.cd)
        if rp is None or cp is None:
            return None
        vec = [(q, self.at(inner, q)) for q in cp]
        out = {}
        for p in rp:
            t = 0
            for q, v in vec:
                i, j = (q, p) if op.tr else (p, q)
                w = self.draw(('op', str(op.name)), (i, j), op.real, False,
                              False, False)
                if op.cj and isinstance(w, complex):
                    w = w.conjugate()
                t = add(t, mul(w, v))
            out[p] = t
        return out

    def base_id(self, b):
        if b in self.bmemo:
            return self.bmemo[b]
        if isinstance(b.key, str):
            i = ('name', b.key)
        elif b.key and b.key[0] == 'solve' and isinstance(b.info, tuple) \
                and len(b.info) == 2 and isinstance(b.info[0], Mat) \
                and len(b.key) == 3 and b.info[1] == b.key[2] \
                and b.info[0].key() == b.key[1]:
            i = self.ident(('solve', b.info[0], Gen(b.info[1], b.dims),
                            b.dims))
        else:
            i = self.ident((b.key, b.dims), b.dims)
        self.bmemo[b] = i
        return i

    def ident(self, x, dims=None):
        """identity of a structured key up to numerical equality"""
        sk, nums = [], []
        self.flat(x, sk, nums, dims)
        sk = tuple(sk)
        lst = self.prints.setdefault(sk, [])
        for ns, i in lst:
            if all(near(p, q) for p, q in zip(ns, nums)):
                return i
        self.nid += 1
        lst.append((nums, (self.nid,)))
        # identity must not depend on the order of discovery
        h = str(hash_str(repr(sk))) + '|' + ','.join(rnd(v) for v in nums)
        i = (h,)
        lst[-1] = (nums, i)
        return i

    def flat(self, x, sk, nums, dims):
        if isinstance(x, Poly):
            self.flat(Gen(x, dims), sk, nums, dims)
        elif isinstance(x, Gen):
            sk.append('P')
            for k in range(3):
                nums.append(self.at_random(x.p, x.dims, k))
        elif isinstance(x, Mat):
            sk.append('M')
            rd = tuple(x.rd)
            n = Base('?probe', tuple(x.cd) if hasattr(x, 'cd') else rd)
            e = x.apply(elem(n, [ix(i) for i in range(len(n.dims))]))
            self.flat(Gen(e, rd), sk, nums, rd)
        elif isinstance(x, Atom):
            self.flat(P(x), sk, nums, dims)
        elif isinstance(x, Base):
            sk.append(('B', self.base_id(x)))
        elif isinstance(x, (tuple, list)):
            sk.append(('(', len(x)))
            for y in x:
                self.flat(y, sk, nums, dims)
        elif isinstance(x, dict):
            sk.append(('{', len(x)))
            for k in sorted(x, key=str):
                self.flat(k, sk, nums, dims)
                self.flat(x[k], sk, nums, dims)
        elif isinstance(x, Op):
            self.flat(x.key(), sk, nums, dims)
        elif isinstance(x, Arr):
            self.flat(x.key(), sk, nums, tuple(x.dims))
        else:
            sk.append(('o', str(x) if isinstance(x, (str, int, F, bool,
                                                     float)) or x is None
                       else repr(x)))

    def at_random(self, p, dims, k):
        """value at the k-th fixed point of the indices occurring in p"""
        fr = sorted((a for a in p.free() if a.kind in ('ix', 'bv')),
                    key=lambda a: str(a.args))
        old = {a: self.env.get(a) for a in fr}
        try:
            for a in fr:
                if a.kind == 'bv' and old[a] is not None:
                    continue
                n = 5
                if a.kind == 'ix' and dims is not None \
                        and isinstance(a.args[0], int) \
                        and a.args[0] < len(dims) \
                        and dims[a.args[0]] is not None:
                    n = max(1, self.int(dims[a.args[0]]))
                r = random.Random('%s|%s|%s' % (self.seed, a.args, k))
                self.env[a] = r.choice((0, n - 1, r.randrange(n)))
            return self.val(p)
        finally:
            for a, v in old.items():
                if v is None:
                    self.env.pop(a, None)
                else:
                    self.env[a] = v


class Gen:
    """an element expression over given dimensions"""

    def __init__(self, p, dims):
        self.p = p
        self.dims = dims


def gauss(rows, n):
    for k in range(n):
        p = max(range(k, n), key=lambda i: abs(rows[i][k]))
        if abs(rows[p][k]) == 0:
            raise CantEval('singular system')
        rows[k], rows[p] = rows[p], rows[k]
        rk = rows[k]
        f = 1 / rk[k]
        nz = [j for j in range(k, n + 1) if rk[j]]
        for i in range(k + 1, n):
            ri = rows[i]
            if ri[k]:
                g = ri[k] * f
                for j in nz:
                    ri[j] -= g * rk[j]
    x = [0j] * n
    for k in range(n - 1, -1, -1):
        rk = rows[k]
        t = rk[n]
        for j in range(k + 1, n):
            if rk[j]:
                t -= rk[j] * x[j]
        x[k] = t / rk[k]
    return x


def hash_str(s):
    import zlib
    return zlib.crc32(s.encode())


def rnd(v):
    v = complex(v)
    return '%.4g%+.4gj' % (v.real, v.imag)


def near(a, b):
    if isinstance(a, (int, F)) and isinstance(b, (int, F)):
        return a == b
    return abs(a - b) <= 1e-8 * max(abs(a), abs(b))


def mul(a, b):
    if isinstance(a, F) and isinstance(b, (float, complex)):
        a = float(a)
    elif isinstance(b, F) and isinstance(a, (float, complex)):
        b = float(b)
    return a * b


def add(a, b):
    if isinstance(a, F) and isinstance(b, (float, complex)):
        a = float(a)
    elif isinstance(b, F) and isinstance(a, (float, complex)):
        b = float(b)
    return a + b


def fpow(x, n):
    try:
        if isinstance(x, int) and n < 0:
            x = F(x)
        return x ** n
    except (OverflowError, ZeroDivisionError) as ex:
        raise CantEval(str(ex))


def root(x, e):
    if isinstance(x, F):
        x = float(x)
    try:
        if not isinstance(x, complex) and x < 0:
            x = complex(x)
        return x ** float(e)
    except (OverflowError, ZeroDivisionError) as ex:
        raise CantEval(str(ex))


def cx(f, g):
    return lambda x: g(x) if isinstance(x, complex) else f(x)


def _int(x):
    return int(x)


def _mod(a, b):
    return a % b


def _sign(x):
    if isinstance(x, complex):
        raise ValueError('sign of a complex number')
    return (x > 0) - (x < 0)


def _pow(a, b):
    if isinstance(a, F):
        a = float(a)
    if isinstance(b, F):
        b = float(b)
    return a ** b


FUN = {'tanh': cx(math.tanh, cmath.tanh), 'exp': cx(math.exp, cmath.exp),
       'log': cx(math.log, cmath.log), 'sin': cx(math.sin, cmath.sin),
       'cos': cx(math.cos, cmath.cos), 'sinh': cx(math.sinh, cmath.sinh),
       'cosh': cx(math.cosh, cmath.cosh), 'log10': cx(math.log10,
                                                      cmath.log10),
       'arctan': cx(math.atan, cmath.atan), 'floor': math.floor,
       'int': _int, 'mod': _mod, 'sign': _sign, 'pow': _pow,
       'conj': lambda x: x.conjugate() if isinstance(x, complex) else x}


def index_bounds(p):
    """{index dim: sizes of arrays it is used to index}"""
    out = {}

    def walk(q):
        for m in q.t:
            for a, _ in m:
                if a.kind == 'el':
                    for i, d in zip(a.args[1], a.args[0].dims):
                        for b in i.free():
                            if b.kind == 'ix' and d is not None and \
                                    len(i.t) <= 2 and ((b, F(1)),) in i.t:
                                r = i - P(b)
                                if r.const() is not None:
                                    out.setdefault(b, set()).add(d)
                        walk(i)
                elif a.kind in ('pw', 'abs'):
                    walk(a.args[0])
                elif a.kind == 'ind' and a.args[0] != 'flag':
                    walk(a.args[1])
                elif a.kind == 'sum':
                    walk(a.args[1])
                elif a.kind == 'fn':
                    for y in a.args[1]:
                        if isinstance(y, Poly):
                            walk(y)
    walk(p)
    return out


def walk(x, seen, out):
    """integer symbols compared with, or taken modulo, a constant"""
    if isinstance(x, (str, int, F, bool)) or x is None or id(x) in seen:
        return
    seen[id(x)] = x
    if isinstance(x, Atom):
        if x.kind in ('sym', 'ix', 'bv', 'J'):
            return
        if x.kind == 'fn' and x.args[0] == 'mod':
            a, c = x.args[1]
            c = c.const()
            if c is not None and c == int(c) and 1 < c <= 10000:
                for y in int_syms(a):
                    out.setdefault(y, set()).update(
                        int(c) * k + d for k in (1, 2) for d in (-1, 0, 1))
        elif x.kind == 'ind' and x.args[0] != 'flag':
            for y in x.args[1:]:
                if isinstance(y, Poly):
                    crossing(y, out)
        for y in x.args:
            walk(y, seen, out)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                walk(a, seen, out)
    elif isinstance(x, (tuple, frozenset)):
        for y in x:
            walk(y, seen, out)
    elif isinstance(x, Base):
        walk(x.key, seen, out)


def int_syms(p):
    return [a for m in p.t for a, e in m if a.kind == 'sym' and a.isint]


def crossing(p, out):
    """values at which a condition linear in one integer symbol changes"""
    c0, lin = F(0), {}
    for m, c in p.t.items():
        if not m:
            c0 = c
        elif len(m) == 1 and m[0][1] == 1 and m[0][0].kind == 'sym' and \
                m[0][0].isint:
            lin[m[0][0]] = c
        else:
            return
    for a, c in lin.items():
        r = -c0 / c
        if abs(r) <= 10000:
            k = math.floor(r)
            out.setdefault(a, set()).update((k - 1, k, k + 1, k + 2))


SIZES = ('Nx', 'Ny', 'h', 'k', 'm', 'q', 'r')


def special(*ps):
    """interesting values of integer symbols"""
    out, seen = {}, {}
    for p in ps:
        walk(p, seen, out)
    r = {}
    for a, vs in out.items():
        top = 12 if a.args[0] in SIZES else 10000
        lo = a.lb if a.lb is not None else -10000
        vs = sorted(v for v in vs if lo <= v <= top)
        if vs:
            r[a] = vs
    return r


def refute(a, b, n=40, seed=1, dims=None):
    """True: differ in some interpretation; False: agree in all; None: the
    forms cannot be evaluated"""
    d = a - b
    bounds = index_bounds(a)
    for k, v in index_bounds(b).items():
        bounds.setdefault(k, set()).update(v)
    free = sorted((x for x in d.free() if x.kind == 'ix'),
                  key=lambda x: x.id)
    done = 0
    t0 = time.time()
    spec = special(a, b)
    order = sorted(spec, key=lambda x: x.id)
    n = 3 * n if order else n
    for t in range(n):
        if time.time() - t0 > 20 and done >= 3:
            break
        m = Model('%s/%s' % (seed, t), spread=t % 4 == 3)
        if order and t % 2:
            x = order[(t // 2) % len(order)]
            m.env[x] = spec[x][(t // 2 // len(order)) % len(spec[x])]
        try:
            for x in free:
                lim = None
                if dims is not None and isinstance(x.args[0], int) and \
                        x.args[0] < len(dims):
                    lim = m.int(dims[x.args[0]])
                elif x in bounds:
                    lim = min(m.int(q) for q in bounds[x])
                r = m.rng
                if lim is None:
                    m.env[x] = r.choice((0, 0, 1, 2, 3, 4))
                else:
                    m.env[x] = r.choice((0, 0, lim - 1,
                                         r.randrange(max(lim, 1))))
            va, ma = m.poly(a)
            vb, mb = m.poly(b)
        except (CantEval, RecursionError, Undecided, OverflowError,
                ZeroDivisionError):
            continue
        done += 1
        if isinstance(va, F):
            va = va if va.denominator < 10 ** 15 else float(va)
        try:
            df = abs(complex(va) - complex(vb))
        except OverflowError:
            continue
        if df > TOL * max(ma, mb, 1e-300):
            return True
    return False if done >= 3 else None


def refute_keys(x, y, n=8, seed=1):
    """the same for structured keys"""
    done = 0
    for t in range(n):
        m = Model('%s/k%s' % (seed, t))
        try:
            if m.ident(x) != m.ident(y):
                return True
        except (CantEval, RecursionError, Undecided, OverflowError,
                ZeroDivisionError):
            continue
        done += 1
    return False if done >= 2 else None
