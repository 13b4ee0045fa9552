"""Algebraic normal forms: the value domain of the value-flow analysis.

A number (or the generic element of an array) is a polynomial with rational
coefficients over interned atoms.  Two program expressions with the same
normal form compute the same value; nothing is ever evaluated numerically.
"""
import itertools
from fractions import Fraction as F


class Undecided(Exception):
    """The abstract domain cannot represent this construct."""


class Mismatch(Undecided):
    """Two array or matrix sizes that have to agree do not."""

    def __init__(self, msg, a, b, broadcast=False):
        Undecided.__init__(self, msg)
        self.a, self.b, self.broadcast = a, b, broadcast


# --------------------------------------------------------------------- atoms

_TABLE = {}
_LIST = []


class Atom:
    __slots__ = ('id', 'kind', 'args', 'real', 'pos', 'isint', 'lb', 'free')

    def __repr__(self):
        return show_atom(self)


def _intern(kind, args, real=False, pos=False, isint=False, lb=None):
    k = (kind, args, real, pos, isint, lb) if kind == 'sym' else (kind, args)
    a = _TABLE.get(k)
    if a is None:
        a = Atom()
        a.id = len(_LIST)
        a.kind = kind
        a.args = args
        a.real = real
        a.pos = pos
        a.isint = isint
        a.lb = lb
        a.free = _free_of(kind, args)
        _LIST.append(a)
        _TABLE[k] = a
    return a


def _deep_free(x, out):
    if isinstance(x, Poly):
        out |= x.free()
    elif isinstance(x, Atom):
        out |= x.free
        if x.kind in ('ix', 'bv'):
            out.add(x)
    elif isinstance(x, tuple):
        for y in x:
            _deep_free(y, out)


def _free_of(kind, args):
    """index atoms occurring (transitively) in this atom"""
    s = set()
    if kind in ('sym', 'ix', 'J'):
        return frozenset()
    if kind == 'el':
        for p in args[1]:
            s |= p.free()
    elif kind == 'sum':
        for v, lo, hi in args[0]:
            s |= lo.free() | hi.free()
        s |= args[1].free() - {v for v, _, _ in args[0]}
    else:
        _deep_free(args, s)
    return frozenset(s)


# --------------------------------------------------------------------- polys

class Poly:
    __slots__ = ('t', '_h', '_f')

    def __init__(self, t):
        self.t = t
        self._h = None
        self._f = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def __ne__(self, o):
        return not self == o

    def free(self):
        if self._f is None:
            s = set()
            for m in self.t:
                for a, _ in m:
                    s |= a.free
                    if a.kind in ('ix', 'bv'):
                        s.add(a)
            self._f = frozenset(s)
        return self._f

    # constants
    def const(self):
        """the rational value if this is a rational constant, else None"""
        if not self.t:
            return F(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None

    def as_int(self):
        c = self.const()
        if c is not None and c.denominator == 1:
            return int(c)
        return None

    def is_zero(self):
        return not self.t

    # arithmetic
    def __add__(self, o):
        o = P(o)
        t = dict(self.t)
        for m, c in o.t.items():
            n = t.get(m, 0) + c
            if n:
                t[m] = n
            else:
                t.pop(m, None)
        return Poly(t)

    __radd__ = __add__

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        return self + (-P(o))

    def __rsub__(self, o):
        return P(o) + (-self)

    def __mul__(self, o):
        o = P(o)
        if not self.t or not o.t:
            return ZERO
        a, b = self, o
        if len(a.t) < len(b.t):
            a, b = b, a
        c = b.const()
        if c is not None:
            return Poly({m: v * c for m, v in a.t.items()})
        if len(a.t) * len(b.t) > LIMIT:
            raise Undecided('expression too large')
        out = {}
        extra = []
        for m2, c2 in b.t.items():
            for m1, c1 in a.t.items():
                r = mono_mul(m1, m2)
                if isinstance(r, Poly):
                    extra.append(r * Poly({(): c1 * c2}))
                    continue
                m, s = r
                if m is None:
                    continue
                n = out.get(m, 0) + c1 * c2 * s
                if n:
                    out[m] = n
                else:
                    out.pop(m, None)
        res = Poly(out)
        for e in extra:
            res = res + e
        return res

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self * power(P(o), F(-1))

    def __rtruediv__(self, o):
        return P(o) * power(self, F(-1))

    def __pow__(self, e):
        return power(self, e)

    def __repr__(self):
        return show(self)


LIMIT = 400000


def P(x):
    if isinstance(x, Poly):
        return x
    if isinstance(x, bool):
        return ONE if x else ZERO
    if isinstance(x, (int, F)):
        return Poly({(): F(x)}) if x else ZERO
    if isinstance(x, Atom):
        return Poly({((x, F(1)),): F(1)})
    if isinstance(x, float):
        return P(F(repr(x)))
    raise TypeError('not a number: %r' % (x,))


ZERO = Poly({})
ONE = Poly({(): F(1)})
_J = _intern('J', ('j',))
J = P(_J)


def sym(name, real=True, pos=False, isint=False, lb=None):
    if lb is not None and lb > 0:
        pos = True
    return P(_intern('sym', (name,), real=real, pos=pos, isint=isint,
                     lb=None if lb is None else F(lb)))


def ix(d):
    return P(_intern('ix', (d,), real=True, isint=True, lb=F(0)))


def ixa(d):
    return _intern('ix', (d,), real=True, isint=True, lb=F(0))


def bv(name):
    return P(_intern('bv', (name,), real=True, isint=True, lb=None))


def bva(name):
    return _intern('bv', (name,), real=True, isint=True, lb=None)


class Base:
    """An array whose contents are not known: only identity matters."""
    __slots__ = ('key', 'dims', 'real', 'pos', 'isint', 'binary', 'info')
    tab = {}

    def __new__(cls, key, dims, real=False, pos=False, isint=False,
                binary=False, info=None):
        k = (key, dims, real, pos, isint, binary) \
            if isinstance(key, str) else (key, dims)
        b = cls.tab.get(k)
        if b is None:
            b = object.__new__(cls)
            b.key = key
            b.dims = dims
            b.real = real
            b.pos = pos
            b.isint = isint
            b.binary = binary
            b.info = info
            cls.tab[k] = b
        return b

    def __repr__(self):
        return key_name(self.key)


def key_name(k):
    if isinstance(k, str):
        return k
    if isinstance(k, tuple) and k and isinstance(k[0], str):
        return '%s#%d' % (k[0], abs(hash(k)) % 1000)
    return str(k)[:40]


def elem(base, idxs, cj=False):
    out = []
    for p, d in zip(idxs, base.dims):
        if d is not None:
            p = wrap_index(p, d)
        out.append(p)
    if base.real:
        cj = False
    return P(_intern('el', (base, tuple(out), cj), real=base.real,
                     pos=base.pos, isint=base.isint))


def wrap_index(p, d):
    """index arithmetic is periodic: drop whole multiples of the dimension"""
    c = d.const()
    if c is not None:
        pc = p.const()
        if pc is not None and pc.denominator == 1 and c:
            return P(pc % c)
        return p
    # d symbolic: drop integer multiples of it when it is one monomial
    if len(d.t) == 1:
        (m, dc), = d.t.items()
        if m in p.t and (p.t[m] / dc).denominator == 1:
            q = dict(p.t)
            q.pop(m)
            return Poly(q)
    elif len(d.t) == 2 and () in d.t:
        # one symbol plus a constant
        m = [x for x in d.t if x != ()][0]
        if m in p.t:
            k = p.t[m] / d.t[m]
            if k.denominator == 1:
                return p - d * P(k)
    return p


REAL_ANALYTIC = {'tanh', 'exp', 'log', 'sqrt', 'sin', 'cos', 'log10', 'cosh',
                 'sinh', 'pow', 'arctan'}


def fn(name, args, real=None, pos=False, isint=False):
    args = tuple(args)
    if real is None:
        real = all(is_real(a) for a in args if isinstance(a, Poly))
    return P(_intern('fn', (name, args), real=real, pos=pos, isint=isint))


# ---------------------------------------------------------------- monomials

def mono_mul(m1, m2):
    """product of monomials -> (mono, sign) or a Poly when atoms expand"""
    if not m1:
        return m2, 1
    if not m2:
        return m1, 1
    d = {}
    for a, e in m1:
        d[a] = e
    dirty = False
    for a, e in m2:
        if a in d:
            d[a] = d[a] + e
            dirty = True
        else:
            d[a] = e
    sign = 1
    expand = None
    if dirty:
        for a in list(d):
            e = d[a]
            if e == 0:
                del d[a]
                continue
            k = a.kind
            if k == 'J':
                r = int(e) % 4
                if r == 0:
                    del d[a]
                elif r == 1:
                    d[a] = F(1)
                elif r == 2:
                    del d[a]
                    sign = -sign
                else:
                    d[a] = F(1)
                    sign = -sign
            elif k == 'ind':
                if e > 0:
                    d[a] = F(1)
            elif k == 'el' and a.args[0].binary:
                if e > 0:
                    d[a] = F(1)
            elif k == 'pw' and e.denominator == 1 and (
                    e > 0 or a.args[0].const() is not None):
                del d[a]
                expand = expand or []
                expand.append(power(a.args[0], e))
            elif k == 'abs' and e.denominator == 1 and int(e) % 2 == 0:
                del d[a]
                expand = expand or []
                q = a.args[0]
                expand.append(power(q * conj(q), e / 2))
    lts = [a for a in d if a.kind == 'ind' and a.args[0] == 'lt']
    if len(lts) > 1:
        for i, a in enumerate(lts):
            for b in lts[:i]:
                r = lt_pair(a, b)
                if r == 0:
                    return None, 0
                if r is not None:
                    d.pop(r, None)
    # an atom and its complement never need canonical order beyond ids
    m = tuple(sorted(d.items(), key=lambda x: x[0].id))
    if expand:
        r = Poly({m: F(sign)})
        for q in expand:
            r = r * q
        return r
    return m, sign


_LTP = {}


def lt_pair(a, b):
    """0 when a and b exclude each other, the redundant one of the two when
    one implies the other, else None (arguments differing by a constant)"""
    k = (a.id, b.id)
    if k in _LTP:
        return _LTP[k]
    p, q = a.args[1], b.args[1]
    r = None
    if p.t and len(p.t) - len(q.t) in (-1, 0, 1):
        c = (p + q).const()
        if c is not None:
            # p < 0 and q < 0 give p + q < 0
            if c >= 0 or (c >= -1 and is_int(p) and is_int(q)):
                r = 0
        else:
            c = (p - q).const()
            if c is not None:
                r = a if c < 0 else b
    _LTP[k] = r
    return r


def monomial(m, c=1):
    return Poly({m: F(c)})


def is_real(p):
    for m in p.t:
        if any(a.kind == 'J' for a, _ in m):
            return conj(p) == p
        for a, _ in m:
            if not a.real:
                return conj(p) == p
    return True


def is_int(p):
    for m, c in p.t.items():
        if c.denominator != 1:
            return False
        for a, e in m:
            if not a.isint or e < 0 or e.denominator != 1:
                return False
    return True


def is_pos(p):
    """provably > 0"""
    return sign_of(p) == 1


def _lbmap(p):
    """substitute x = lb + x' (x' >= 0) for atoms with a lower bound"""
    out = ZERO
    for m, c in p.t.items():
        term = Poly({(): c})
        for a, e in m:
            if a.lb is not None and e.denominator == 1 and e > 0 and a.lb != 0:
                nn = P(_intern('nn', (a.id,), real=True, pos=False, lb=F(0)))
                term = term * power(nn + a.lb, e)
            else:
                term = term * Poly({((a, e),): F(1)})
        out = out + term
    return out


def sign_of(p):
    """1 (>0), 0 (==0), -1 (<0), 2 (>=0), -2 (<=0) or None (unknown)"""
    if p.is_zero():
        return 0
    c = p.const()
    if c is not None:
        return 1 if c > 0 else -1
    best = _sign1(p)
    if best is None:
        v = closed_value(p)
        if v is not None and abs(v) > 1e-9 * sum(
                abs(float(c)) for c in p.t.values()):
            return 1 if v > 0 else -1
    if best is None or abs(best) == 2:
        q = _lbmap(p)
        if q is not p:
            b2 = _sign1(q)
            if b2 is not None:
                best = b2 if best is None or abs(b2) == 1 else best
    return best


def closed_value(p):
    """value of a sum of rational multiples of roots of rationals"""
    v = 0.0
    for m, c in p.t.items():
        x = float(c)
        for a, e in m:
            b = a.args[0] if a.kind == 'pw' else None
            b = b.const() if isinstance(b, Poly) else b
            if not isinstance(b, (int, F)) or b <= 0:
                return None
            x *= float(b) ** float(e)
        v += x
    return v


def _sign1(p):
    strict = False
    sgn = 0
    for m, c in p.t.items():
        s = 1 if c > 0 else -1
        st = True
        conjs = {}
        for a, e in m:
            if a.kind == 'J':
                return None
            if a.pos:
                continue
            if a.real and e.denominator == 1 and int(e) % 2 == 0:
                st = False
                continue
            if a.lb is not None and a.lb >= 0 or a.kind in ('ind', 'abs') \
                    or (a.kind == 'el' and a.args[0].binary):
                st = False
                continue
            if a.kind == 'el' and not a.real:
                k = (a.args[0], a.args[1])
                conjs.setdefault(k, []).append((a.args[2], e))
                continue
            return None
        for k, v in conjs.items():
            if len(v) != 2 or v[0][1] != v[1][1]:
                return None
            st = False
        if sgn == 0:
            sgn = s
        elif sgn != s:
            return None
        if st:
            strict = True
    return sgn if strict else 2 * sgn


# ------------------------------------------------------------------- powers

def _content(p):
    """common monomial factor and leading coefficient of a sum"""
    ms = list(p.t)
    common = dict(ms[0])
    for m in ms[1:]:
        d = dict(m)
        for a in list(common):
            if a in d:
                e1, e2 = common[a], d[a]
                if e1 > 0 and e2 > 0:
                    common[a] = min(e1, e2)
                elif e1 < 0 and e2 < 0:
                    common[a] = max(e1, e2)
                else:
                    del common[a]
            else:
                del common[a]
    # also pull out negative powers so that the core is denominator free
    for m in ms:
        for a, e in m:
            if e < 0 and a.kind not in ('ind',):
                if a not in common or common[a] > e:
                    common[a] = e
    common.pop(_J, None)
    for a in list(common):
        if a.kind == 'ind' or (a.kind == 'el' and a.args[0].binary):
            del common[a]
    return tuple(sorted(common.items(), key=lambda x: x[0].id))


def lead(p):
    """a deterministic leading coefficient"""
    m = max(p.t, key=lambda m: (tuple((a.id, e) for a, e in m)))
    return p.t[m]


def ind_atoms(p):
    s = set()
    for m in p.t:
        for a, _ in m:
            if a.kind == 'ind' or (a.kind == 'el' and a.args[0].binary):
                s.add(a)
    return s


def replace_atoms(p, mp):
    """replace top-level atoms of p by polys"""
    out = ZERO
    for m, c in p.t.items():
        term = None
        rest = []
        for a, e in m:
            if a in mp:
                q = power(mp[a], e)
                term = q if term is None else term * q
            else:
                rest.append((a, e))
        r = Poly({tuple(rest): c})
        out = out + (r if term is None else r * term)
    return out


def shannon(p, f):
    """apply a nonlinear function under the indicators occurring in p"""
    inds = ind_atoms(p)
    if not inds:
        return f(p)
    a = min(inds, key=lambda a: a.id)
    p1 = replace_atoms(p, {a: ONE})
    p0 = replace_atoms(p, {a: ZERO})
    f1 = shannon(p1, f)
    f0 = shannon(p0, f)
    if f1 == f0:
        return f1
    ia = P(a)
    return ia * f1 + (ONE - ia) * f0


def _iroot(n, k):
    """exact integer k-th root or None"""
    if n < 0:
        return None
    r = round(n ** (1.0 / k)) if n < 10 ** 300 else None
    if r is None:
        lo, hi = 0, 1
        while hi ** k < n:
            hi *= 2
        while lo < hi:
            mid = (lo + hi) // 2
            if mid ** k < n:
                lo = mid + 1
            else:
                hi = mid
        r = lo
    for q in (r - 1, r, r + 1):
        if q >= 0 and q ** k == n:
            return q
    return None


def _const_power(c, e):
    if e.denominator == 1:
        if c == 0 and e < 0:
            return fn('inf', ())
        return P(c ** int(e))
    if c == 0:
        return ZERO
    if c > 0:
        n = _iroot(c.numerator, e.denominator)
        d = _iroot(c.denominator, e.denominator)
        if n is not None and d is not None:
            return P(F(n, d) ** e.numerator)
        whole = e.numerator // e.denominator
        frac = e - whole
        out = P(c ** whole)
        a = _intern('pw', (P(c),), real=True, pos=True)
        return out * Poly({((a, frac),): F(1)})
    a = _intern('pw', (P(c),), real=False)
    return Poly({((a, e),): F(1)})


def power(p, e):
    e = F(e)
    if e == 0:
        return ONE
    if e == 1:
        return p
    c = p.const()
    if c is not None:
        return _const_power(c, e)
    if e.denominator == 1 and e > 0:
        n = int(e)
        r = ONE
        b = p
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r
    if len(p.t) == 1:
        (m, c), = p.t.items()
        if e.denominator == 1:
            if any(a.kind == 'ind' or (a.kind == 'el' and a.args[0].binary)
                   for a, _ in m):
                return shannon(p, lambda q: power(q, e))
            out = {}
            sgn = F(1)
            for a, x in m:
                if a.kind == 'J':
                    r = int(x * e) % 4
                    if r in (1, 3):
                        out[a] = F(1)
                    if r in (2, 3):
                        sgn = -sgn
                else:
                    out[a] = x * e
            mono = tuple(sorted(out.items(), key=lambda z: z[0].id))
            res = Poly({mono: sgn * c ** int(e)})
            # pw atoms may have become positive
            if any(a.kind in ('pw', 'abs') for a in out):
                res = Poly({(): res.t[mono]}) * _rebuild(mono)
            return res
        # fractional power of a monomial
        return _frac_power(m, c, e)
    if ind_atoms(p):
        return shannon(p, lambda q: power(q, e))
    cm = _content(p)
    front = ONE
    core = p
    if cm:
        inv = tuple((a, -x) for a, x in cm)
        core = Poly({(): F(1)}) * p * Poly({inv: F(1)})
        front = power(Poly({cm: F(1)}), e) if (
            e.denominator == 1 or all(a.pos for a, _ in cm)) else None
        if front is None:
            front, core = ONE, p
    lc = lead(core)
    if e.denominator == 1:
        core = core * P(1 / lc)
        k = P(lc ** int(e))
    else:
        k = _const_power(abs(lc), e)
        core = core * P(1 / abs(lc))
    if len(core.t) == 1:
        return front * k * power(core, e)
    a = _intern('pw', (core,), real=is_real(core), pos=is_pos(core))
    return front * k * Poly({((a, e),): F(1)})


def _rebuild(mono):
    r = ONE
    for a, e in mono:
        if a.kind == 'pw' and e.denominator == 1 and e > 0:
            r = r * power(a.args[0], e)
        elif a.kind == 'abs' and e.denominator == 1 and int(e) % 2 == 0:
            q = a.args[0]
            r = r * power(q * conj(q), e / 2)
        else:
            r = r * Poly({((a, e),): F(1)})
    return r


def _frac_power(m, c, e):
    out = []
    rest = []
    done = set()
    md = dict(m)
    for a, x in m:
        if a in done:
            continue
        if a.pos:
            out.append((a, x * e))
            done.add(a)
        elif a.kind == 'el' and not a.real:
            b = _intern('el', (a.args[0], a.args[1], not a.args[2]))
            if md.get(b) == x:
                out.append((a, x * e))
                out.append((b, x * e))
                done.add(a)
                done.add(b)
            else:
                rest.append((a, x))
                done.add(a)
        elif a.real and a.kind != 'ind' and x.denominator == 1 \
                and int(x) % 2 == 0:
            ab = absval(P(a))
            (mm, cc), = ab.t.items()
            for aa, xx in mm:
                out.append((aa, xx * x * e))
            done.add(a)
        elif a.kind == 'ind' or (a.kind == 'el' and a.args[0].binary):
            out.append((a, F(1)))
            done.add(a)
        else:
            rest.append((a, x))
            done.add(a)
    res = ONE
    for a, x in out:
        res = res * _rebuild(((a, x),))
    if rest:
        core = Poly({tuple(rest): F(1 if c > 0 else -1)})
        at = _intern('pw', (core,), real=False)
        res = res * Poly({((at, e),): F(1)})
        return res * _const_power(abs(c), e)
    return res * _const_power(c, e)


# ---------------------------------------------------------------- conjugate

def _conj_atom(a):
    if a.kind == 'J':
        return -J
    if a.real:
        return P(a)
    if a.kind == 'el':
        b, idx, cj = a.args
        return P(_intern('el', (b, idx, not cj), real=False))
    if a.kind == 'pw':
        q = conj(a.args[0])
        return P(_intern('pw', (q,), real=False)) if q != a.args[0] else P(a)
    if a.kind == 'fn':
        name, args = a.args
        if name in REAL_ANALYTIC:
            return fn(name, tuple(conj(x) if isinstance(x, Poly) else x
                                  for x in args))
        if name == 'conj':
            return args[0]
        return P(_intern('fn', ('conj', (P(a),))))
    if a.kind == 'sum':
        rng, body = a.args
        return mk_sum(rng, conj(body))
    if a.kind == 'sym':
        return P(_intern('fn', ('conj', (P(a),))))
    return P(_intern('fn', ('conj', (P(a),))))


def conj(p):
    out = ZERO
    fast = {}
    for m, c in p.t.items():
        if all(a.real for a, _ in m):
            fast[m] = c
            continue
        r = Poly({(): c})
        for a, e in m:
            q = _conj_atom(a)
            if len(q.t) == 1 and q.t == {((a, F(1)),): F(1)}:
                r = r * Poly({((a, e),): F(1)})
            else:
                r = r * power_formal(q, e)
        out = out + r
    return out + Poly(fast) if fast else out


def power_formal(q, e):
    """power of a (conjugated) atom, exponents kept formally"""
    if len(q.t) == 1:
        (m, c), = q.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].kind != 'J':
            return Poly({((m[0][0], e),): F(1)})
    return power(q, e)


def real(p):
    return (p + conj(p)) * F(1, 2)


def imag(p):
    return (p - conj(p)) * (-J) * F(1, 2)


def absval(p):
    if p.is_zero():
        return p
    c = p.const()
    if c is not None:
        return P(abs(c))
    s = sign_of(p)
    if s in (1, 2):
        return p
    if s in (-1, -2):
        return -p
    if ind_atoms(p):
        return shannon(p, absval)
    if len(p.t) == 1:
        (m, c), = p.t.items()
        res = P(abs(c))
        for a, e in m:
            res = res * _abs_atom(a, e)
        return res
    cm = _content(p)
    if cm and all(a.pos for a, _ in cm):
        core = p * Poly({tuple((a, -x) for a, x in cm): F(1)})
        return Poly({cm: F(1)}) * absval(core)
    lc = lead(p)
    q = p * P(1 / lc)
    return P(abs(lc)) * P(_intern('abs', (q,), real=True))


def _abs_atom(a, e):
    if a.kind == 'J':
        return ONE
    if a.pos or a.kind == 'abs':
        return Poly({((a, e),): F(1)})
    if a.real:
        if e.denominator == 1 and int(e) % 2 == 0:
            return Poly({((a, e),): F(1)})
        b = _intern('abs', (P(a),), real=True)
        return Poly({((b, e),): F(1)})
    if a.kind == 'el':
        b = _intern('el', (a.args[0], a.args[1], not a.args[2]))
        return Poly({tuple(sorted(((a, e / 2), (b, e / 2)),
                                  key=lambda x: x[0].id)): F(1)})
    b = _intern('abs', (P(a),), real=True)
    return Poly({((b, e),): F(1)})


# --------------------------------------------------------------- conditions

def lt0(p):
    """indicator of p < 0 as a 0/1 poly"""
    s = sign_of(p)
    if s == -1:
        return ONE
    if s in (0, 1, 2):
        return ZERO
    if ind_atoms(p):
        return shannon(p, lt0)
    if is_int(p) and lead(p) < 0:
        # p < 0  <=>  not (-p - 1 < 0)
        return ONE - lt0(-p - 1)
    lc = abs(lead(p))
    if not is_int(p):
        p = p * P(1 / lc)
        cm = _content(p)
        if cm and all(a.pos for a, _ in cm):
            q = p * Poly({tuple((a, -x) for a, x in cm): F(1)})
            return lt0(q * P(1 / abs(lead(q))))
        if is_int(p) and lead(p) < 0:
            return ONE - lt0(-p - 1)
    else:
        # integer gcd reduction is left alone on purpose
        pass
    q = _split_abs(p)
    if q is not None:
        return q
    return P(_intern('ind', ('lt', p), real=True, isint=True, lb=F(0)))


def _split_abs(p):
    """c|a| + r < 0 as the two conditions on a"""
    hit = None
    for m, c in p.t.items():
        for a, e in m:
            if a.kind == 'abs':
                if hit is not None or e != 1 or \
                        not all(b.pos for b, _ in m if b is not a) or \
                        not is_real(a.args[0]):
                    return None
                hit = (m, c, a)
    if hit is None:
        return None
    m, c, a = hit
    r = p - Poly({m: c})
    x = Poly({tuple(t for t in m if t[0] is not a): c}) * a.args[0]
    if c > 0:
        return lt0(x + r) * lt0(r - x)
    return ONE - (ONE - lt0(x + r)) * (ONE - lt0(r - x))


def le0(p):
    return ONE - lt0(-p)


def eq0(p):
    s = sign_of(p)
    if s == 0:
        return ONE
    if s in (1, -1):
        return ZERO
    if ind_atoms(p):
        return shannon(p, eq0)
    p = p * P(1 / lead(p))
    if len(p.t) == 1:
        (m, c), = p.t.items()
        m = tuple((a, F(1)) for a, e in m if not a.pos and e > 0)
        if not m:
            return ZERO
        if len(m) > 1:
            r = ONE
            for a, e in m:
                r = r * (ONE - eq0(P(a)))
            return ONE - r
        p = Poly({m: F(1)})
    return P(_intern('ind', ('eq', p), real=True, isint=True, lb=F(0)))


def flag(name):
    """an opaque boolean as a 0/1 poly"""
    return P(_intern('ind', ('flag', name), real=True, isint=True, lb=F(0)))


def p_and(a, b):
    return a * b


def p_or(a, b):
    return a + b - a * b


def p_not(a):
    return ONE - a


def ite(c, a, b):
    if c == ONE:
        return a
    if c == ZERO:
        return b
    if a == b:
        return a
    return c * a + (ONE - c) * b


def assume(p, atom, val):
    """simplify p under the assumption that indicator `atom` is val (deep)"""
    return deep(p, {atom: ONE if val else ZERO})


# ------------------------------------------------------------- substitution

def deep(p, mp, cache=None):
    """replace atoms (anywhere, also inside arguments) by polys"""
    if not mp:
        return p
    if cache is None:
        cache = {}
    out = ZERO
    keep = {}
    for m, c in p.t.items():
        changed = False
        reps = []
        for a, e in m:
            q = _deep_atom(a, mp, cache)
            if q is not None:
                changed = True
            reps.append((a, e, q))
        if not changed:
            keep[m] = c
            continue
        r = Poly({(): c})
        for a, e, q in reps:
            if q is None:
                r = r * Poly({((a, e),): F(1)})
            else:
                r = r * power_formal(q, e)
        out = out + r
    return out + Poly(keep) if keep else out


def _deep_val(x, mp, cache):
    if isinstance(x, Poly):
        return deep(x, mp, cache)
    if isinstance(x, tuple):
        return tuple(_deep_val(y, mp, cache) for y in x)
    if isinstance(x, Base):
        return _deep_base(x, mp, cache)
    if hasattr(x, 'deep_sub'):
        return x.deep_sub(mp, cache)
    return x


_MENTION = {}


def mentions(x):
    """all sym/flag/ix atoms occurring anywhere below x"""
    if isinstance(x, (str, int, F, bool)) or x is None:
        return frozenset()
    try:
        r = _MENTION.get(x)
    except TypeError:
        return frozenset()
    if r is not None:
        return r
    s = set()
    if isinstance(x, Atom):
        s.add(x)
        if x.kind not in ('sym', 'ix', 'bv', 'J'):
            for y in x.args:
                s |= mentions(y)
    elif isinstance(x, Poly):
        for m in x.t:
            for a, _ in m:
                s |= mentions(a)
    elif isinstance(x, tuple):
        for y in x:
            s |= mentions(y)
    elif isinstance(x, Base):
        s |= mentions(x.key)
        s |= mentions(x.dims)
    elif hasattr(x, 'mention_parts'):
        for y in x.mention_parts():
            s |= mentions(y)
    r = frozenset(s)
    _MENTION[x] = r
    return r


def _deep_base(b, mp, cache):
    k = ('B', b)
    if k in cache:
        return cache[k]
    ms = mentions(b)
    # index atoms inside a base key are bound there
    if not any(a in ms and a.kind != 'ix' for a in mp):
        cache[k] = b
        return b
    mp2 = {a: q for a, q in mp.items() if a.kind != 'ix'}
    nk = _deep_val(b.key, mp2, {})
    nd = _deep_val(b.dims, mp2, {})
    r = b if (nk == b.key and nd == b.dims) else \
        Base(nk, nd, b.real, b.pos, b.isint, b.binary, b.info)
    cache[k] = r
    return r


def _deep_atom(a, mp, cache):
    """None when unchanged"""
    if a in mp:
        return mp[a]
    if a.kind in ('sym', 'J', 'ix', 'bv', 'nn'):
        return None
    if a in cache:
        return cache[a]
    ms = mentions(a)
    r = None
    if any(x in ms for x in mp):
        if a.kind == 'el':
            b, idx, cj = a.args
            nb = _deep_base(b, mp, cache)
            nidx = tuple(deep(i, mp, cache) for i in idx)
            if nb is not b or nidx != idx:
                r = elem(nb, nidx, cj)
        elif a.kind == 'fn':
            name, args = a.args
            nargs = tuple(_deep_val(x, mp, cache) for x in args)
            if nargs != args:
                r = refn(name, nargs, a)
        elif a.kind == 'pw':
            q = deep(a.args[0], mp, cache)
            if q != a.args[0]:
                r = _FormalPw(q)
        elif a.kind == 'abs':
            q = deep(a.args[0], mp, cache)
            if q != a.args[0]:
                r = absval(q)
        elif a.kind == 'ind':
            if a.args[0] == 'flag':
                n = _deep_val(a.args[1], mp, cache)
                if n != a.args[1]:
                    r = flag(n)
            else:
                q = deep(a.args[1], mp, cache)
                if q != a.args[1]:
                    r = lt0(q) if a.args[0] == 'lt' else eq0(q)
        elif a.kind == 'sum':
            rng, body = a.args
            nr = tuple((v, deep(lo, mp, cache), deep(hi, mp, cache))
                       for v, lo, hi in rng)
            vs = [v for v, _, _ in rng]
            if any(v in mp for v in vs):
                nb = deep(body, {k: q for k, q in mp.items()
                                 if k not in vs})
            else:
                nb = deep(body, mp, cache)
            if nr != rng or nb != body:
                r = mk_sum(nr, nb)
    cache[a] = r
    return r


class _FormalPw(Poly):
    """marker: power_formal must apply the exponent to the inner poly"""
    __slots__ = ()

    def __init__(self, q):
        Poly.__init__(self, q.t)


REFN = {}


def refn(name, args, atom=None):
    """rebuild a function application after substitution"""
    if name in REFN:
        return REFN[name](*args)
    return P(_intern('fn', (name, args), real=atom.real if atom else False,
                     pos=atom.pos if atom else False,
                     isint=atom.isint if atom else False))


_old_pf = power_formal


def power_formal(q, e):                                    # noqa: F811
    if isinstance(q, _FormalPw):
        return power(Poly(q.t), e)
    return _old_pf(q, e)


def shift(p, d, k):
    """element at index ix(d) + k"""
    a = ixa(d)
    if a not in p.free():
        return p
    return deep(p, {a: ix(d) + k})


# --------------------------------------------------------------------- sums

_bvn = [0]


def sum_over(p, rngs):
    """sum of the element expression p over index dims: {d: (lo, hi)}"""
    lvl = bind_level(p)
    mp = {}
    rng = []
    for n, (d, (lo, hi)) in enumerate(sorted(rngs.items())):
        v = bva(('s', lvl, n))
        mp[ixa(d)] = P(v)
        rng.append((v, P(lo), P(hi)))
    return mk_sum(tuple(rng), deep(p, mp))


def _canon_bind(rr, inner):
    vs = set(v for v, _, _ in rr)
    lvl = 0
    for a in mentions(inner):
        if a.kind == 'bv' and a not in vs and isinstance(a.args[0], tuple) \
                and a.args[0][0] == 's':
            lvl = max(lvl, a.args[0][1] + 1)
    mp = {}
    out = []
    for n, (v, lo, hi) in enumerate(rr):
        w = bva(('s', lvl, n))
        out.append((w, lo, hi))
        if w is not v:
            mp[v] = P(w)
    if mp:
        inner = deep(inner, mp)
    return out, inner


def _split_range(rng, body):
    """an inequality on a summation index splits its range in two"""
    for a in sorted(ind_atoms(body), key=lambda a: a.id):
        if a.kind != 'ind' or a.args[0] != 'lt':
            continue
        p = a.args[1]
        if not is_int(p):
            continue
        for n, (v, lo, hi) in enumerate(rng):
            if v not in a.free:
                continue
            c = p.t.get(((v, 1),))
            if c not in (1, -1):
                break
            r = p - P(v) * c
            if r.free() & set(w for w, _, _ in rng):
                break
            # true below the cut (c == 1) or from the cut on (c == -1)
            cut = -r if c == 1 else r + 1
            if lt0(hi - 1 - cut) == ONE:        # cut >= hi
                return [(rng, assume(body, a, 1 if c == 1 else 0))]
            if lt0(cut - 1) == ONE:             # cut <= 0
                return [(rng, assume(body, a, 0 if c == 1 else 1))]
            if lt0(-cut - 1) == ONE and lt0(cut - hi - 1) == ONE:
                low = rng[:n] + ((v, ZERO, cut),) + rng[n + 1:]
                high = rng[:n] + ((v, cut, hi),) + rng[n + 1:]
                return [(low, assume(body, a, 1 if c == 1 else 0)),
                        (high, assume(body, a, 0 if c == 1 else 1))]
            break
    return None


def _flatten(rr, inner):
    """sum over x of f(x) times a sum over y: one sum over x and y"""
    (m,) = inner.t
    hit = None
    for a, e in m:
        if a.kind != 'sum' or e != 1:
            continue
        vs = set(v for v, _, _ in rr)
        if any((lo.free() | hi.free()) & vs for _, lo, hi in a.args[0]):
            continue
        bs = set(v for v, _, _ in a.args[0])
        rest = [x for x in m if x[0] is not a]
        if bs & vs or any(b in mentions(P(x[0])) for x in rest for b in bs):
            continue
        if any(b in mentions(lo) or b in mentions(hi)
               for _, lo, hi in rr for b in bs):
            continue
        hit = (a, rest)
        break
    if hit is None:
        return rr, inner
    a, rest = hit
    body = Poly({tuple(rest): F(1)}) * a.args[1]
    if len(body.t) != 1 or list(body.t.values()) != [1]:
        return rr, inner
    return _flatten(list(rr) + list(a.args[0]), body)


def _canon_order(rr, inner):
    """the binders of a sum are numbered in a fixed order"""
    if len(rr) == 1 or len(rr) > 3:
        return _canon_bind(rr, inner)
    best = None
    for q in itertools.permutations(rr):
        r, i = _canon_bind(list(q), inner)
        k = show(i)
        if best is None or k < best[0]:
            best = (k, r, i)
    return best[1], best[2]


def bind_level(x):
    """a binder level above every binder used below x"""
    lvl = 0
    for a in mentions(x):
        if a.kind == 'bv' and isinstance(a.args[0], tuple) \
                and a.args[0][0] == 's':
            lvl = max(lvl, a.args[0][1] + 1)
    return lvl


def bound_key(p, n):
    """p with its first n grid indices replaced by binders"""
    lvl = bind_level(p)
    return deep(p, {ixa(d): bv(('s', lvl, d)) for d in range(n)})


def mk_sum(rng, body):
    """linear in the body: one atom per monomial with scalars pulled out"""
    out = ZERO
    vs = set(v for v, _, _ in rng)
    for v, lo, hi in rng:
        if (hi - lo).is_zero():
            return ZERO
    if any(not lo.is_zero() for _, lo, _ in rng):
        # ranges start at zero
        body = deep(body, {v: P(v) + lo for v, lo, _ in rng})
        rng = tuple((v, ZERO, hi - lo) for v, lo, hi in rng)
    parts = _split_range(tuple(rng), body)
    if parts is not None:
        for g, b in parts:
            out = out + mk_sum(g, b)
        return out
    for m, c in body.t.items():
        sc = []
        inn = []
        for a, e in m:
            (inn if (a.free & vs or a in vs) else sc).append((a, e))
        r = Poly({tuple(sc): c})
        inner = Poly({tuple(inn): F(1)})
        used = inner.free()
        rr = []
        for v, lo, hi in rng:
            if v in used:
                rr.append((v, lo, hi))
            else:
                r = r * (hi - lo)
        if rr:
            if len(rr) == 1 and (rr[0][2] - rr[0][1]) == ONE:
                r = r * deep(inner, {rr[0][0]: rr[0][1]})
            else:
                rr, inner = _flatten(rr, inner)
                rr, inner = _canon_order(rr, inner)
                s = sign_of(inner)
                r = r * P(_intern('sum', (tuple(rr), inner),
                                  real=is_real(inner), pos=(s == 1)))
        out = out + r
    return out


# ---------------------------------------------------------------- functions

def _odd(name):
    def f(p):
        p = P(p)
        if p.is_zero():
            return ZERO
        if ind_atoms(p):
            return shannon(p, f)
        if lead(p) < 0:
            return -f(-p)
        return P(_intern('fn', (name, (p,)), real=is_real(p),
                         pos=(sign_of(p) == 1)))
    return f


def _plain(name, at0=None, pos=False):
    def f(p):
        p = P(p)
        if p.is_zero() and at0 is not None:
            return at0
        if ind_atoms(p):
            return shannon(p, f)
        r = is_real(p)
        return P(_intern('fn', (name, (p,)), real=r, pos=pos and r))
    return f


tanh = _odd('tanh')
sin = _odd('sin')
sinh = _odd('sinh')
arctan = _odd('arctan')


def exp(p):
    p = P(p)
    if p.is_zero():
        return ONE
    if ind_atoms(p):
        return shannon(p, exp)
    r = ONE
    for m, c in p.t.items():        # exp(a+b) = exp(a) exp(b)
        q = Poly({m: F(1)})
        a = _intern('fn', ('exp', (q,)), real=is_real(q), pos=is_real(q))
        if c.denominator == 1 or is_real(q):
            r = r * Poly({((a, c),): F(1)})
        else:
            q = Poly({m: c})
            a = _intern('fn', ('exp', (q,)), real=is_real(q), pos=False)
            r = r * P(a)
    return r


cos = _plain('cos', ONE)
log = _plain('log')
log10 = _plain('log10')


def sign(p):
    p = P(p)
    s = sign_of(p)
    if s in (0, 1, -1):
        return P(s)
    if ind_atoms(p):
        return shannon(p, sign)
    if len(p.t) > 0:
        cm = tuple((a, x) for a, x in _content(p) if a.pos)
        if cm:
            p = p * Poly({tuple((a, -x) for a, x in cm): F(1)})
    lc = lead(p)
    return P(1 if lc > 0 else -1) * P(_intern(
        'fn', ('sign', (p * P(1 / lc),)), real=is_real(p)))


def sqrt(p):
    return power(P(p), F(1, 2))


def toint(p):
    p = P(p)
    if is_int(p):
        return p
    c = p.const()
    if c is not None:
        return P(int(c))
    if ind_atoms(p):
        return shannon(p, toint)
    s = sign_of(p)
    if s in (1, 2):
        return floor(p)
    if s in (-1, -2):
        return -floor(-p)
    if frac_part(p):
        return ZERO
    return P(_intern('fn', ('int', (p,)), real=True, isint=True))


def floor(p):
    p = P(p)
    if is_int(p):
        return p
    c = p.const()
    if c is not None:
        return P(c.numerator // c.denominator)
    # integer parts come out of a floor
    whole = {}
    rest = {}
    for m, cc in p.t.items():
        (whole if is_int(Poly({m: cc})) else rest)[m] = cc
    if whole:
        whole, rest = Poly(whole), Poly(rest)
        if frac_part(p):
            return ZERO
        return whole + floor(rest)
    return P(_intern('fn', ('floor', (p,)), real=True, isint=True,
                     lb=F(0) if sign_of(p) in (0, 1, 2) else None))


def frac_part(p):
    """is p of the form q - floor(q)?"""
    for m, c in p.t.items():
        if c == -1 and len(m) == 1 and m[0][1] == 1:
            a = m[0][0]
            if a.kind == 'fn' and a.args[0] == 'floor' and \
                    (p + P(a) - a.args[1][0]).is_zero():
                return True
    return False


def mod(a, b):
    a, b = P(a), P(b)
    ca, cb = a.const(), b.const()
    if ca is not None and cb is not None and cb:
        return P(ca % cb)
    return P(_intern('fn', ('mod', (a, b)), real=True,
                     isint=is_int(a) and is_int(b),
                     lb=F(0) if sign_of(b) == 1 else None))


def gpow(b, e):
    """b ** e for arbitrary polys"""
    c = e.const()
    if c is not None:
        return power(b, c)
    bc = b.const()
    if bc == 1:
        return ONE
    # split integer offset: b**(k+1) = b * b**k
    k = e.t.get((), F(0))
    if k:
        return power(b, k) * gpow(b, e - k)
    return P(_intern('fn', ('pow', (b, e)), real=is_real(b) and is_real(e),
                     pos=is_pos(b)))


REFN.update({'tanh': tanh, 'exp': exp, 'sin': sin, 'cos': cos, 'log': log,
             'log10': log10, 'sign': sign, 'int': toint, 'floor': floor,
             'mod': mod, 'pow': gpow, 'sinh': sinh, 'arctan': arctan,
             'conj': conj})


# ------------------------------------------------------------- equality test

def clear_den(p, limit=40):
    """multiply through by sum-denominators until none is left"""
    for _ in range(limit):
        worst = {}
        for m in p.t:
            for a, e in m:
                if a.kind == 'pw' and e < 0:
                    worst[a] = min(worst.get(a, F(0)), e)
        if not worst:
            return p
        a = min(worst, key=lambda a: a.id)
        e = worst[a]
        k = -e
        out = ZERO
        for m, c in p.t.items():
            d = dict(m)
            cur = d.pop(a, F(0)) + k
            r = Poly({tuple(sorted(d.items(), key=lambda x: x[0].id)): c})
            if cur.denominator == 1:
                r = r * power(a.args[0], cur)
            elif cur:
                whole = cur.numerator // cur.denominator
                r = r * power(a.args[0], F(whole))
                r = r * Poly({((a, cur - whole),): F(1)})
            out = out + r
        p = out
    return p


def equal(a, b):
    d = P(a) - P(b)
    if d.is_zero():
        return True
    d = clear_den(d)
    if d.is_zero():
        return True
    # complements of indicators may hide a cancellation
    inds = ind_atoms(d)
    if inds and len(inds) <= 12:
        if _eq_shannon(d, sorted(inds, key=lambda a: a.id)):
            return True
    # conditions without free indices may also occur below opaque arrays
    inds = [a for a in mentions(d) if a.kind == 'ind' and not a.free]
    if inds and len(inds) <= 8:
        return _eq_deep(d, sorted(inds, key=lambda a: a.id))
    return False


def _eq_deep(d, inds):
    if d.is_zero():
        return True
    if not inds:
        return clear_den(d).is_zero()
    a, rest = inds[0], inds[1:]
    return _eq_deep(deep(d, {a: ONE}), rest) and \
        _eq_deep(deep(d, {a: ZERO}), rest)


def _eq_shannon(d, inds=None, known=()):
    """equal to zero under every consistent truth assignment"""
    if d.is_zero():
        return True
    inds = ind_atoms(d)
    if not inds:
        return clear_den(d).is_zero() or _eq_tie(d, known)
    a = min(inds, key=lambda a: a.id)
    for val in (ONE, ZERO):
        mp = {a: val}
        if a.args[0] == 'lt':
            if val is ONE and any(
                    lt_pair(a, b) == 0 for b, v in known if v is ONE) or \
                    val is ONE and any(
                        lt_pair(a, b) is b for b, v in known if v is ZERO) \
                    or val is ZERO and any(
                        lt_pair(a, b) is a for b, v in known if v is ONE):
                continue            # contradicts what is assumed
            for b in inds:
                if b is a or b.args[0] != 'lt':
                    continue
                r = lt_pair(a, b)
                if val is ONE and r == 0:
                    mp[b] = ZERO
                elif val is ONE and r is b:         # a implies b
                    mp[b] = ONE
                elif val is ZERO and r is a:        # b implies a
                    mp[b] = ZERO
        kn = known + tuple((x, v) for x, v in mp.items()
                           if x.args[0] == 'lt')
        if not _eq_shannon(replace_atoms(d, mp), None, kn):
            return False
    return True


def _eq_tie(d, known):
    """zero where neither q < 0 nor -q < 0, that is where q = 0"""
    off = [a.args[1] for a, v in known if v is ZERO]
    for i, q in enumerate(off):
        if not any((q + r).is_zero() for r in off[:i]):
            continue
        for m, c in q.t.items():
            if len(m) == 1 and m[0][1] == 1:
                a = m[0][0]
                rest = q - Poly({m: c})
                if a.kind in ('sym', 'el') and a not in mentions(rest):
                    r = deep(d, {a: -rest / c})
                    if r.is_zero() or clear_den(r).is_zero():
                        return True
    return False


# ------------------------------------------------------------ differentiation

def diff(p, var):
    """derivative wrt a top-level or nested atom `var` (other atoms fixed)"""
    out = ZERO
    for m, c in p.t.items():
        for i, (a, e) in enumerate(m):
            da = diff_atom(a, var)
            if da.is_zero():
                continue
            rest = m[:i] + m[i + 1:]
            r = Poly({rest: c * e})
            if e != 1:
                r = r * _rebuild(((a, e - 1),))
            out = out + r * da
    return out


def diff_atom(a, var):
    if a is var:
        return ONE
    if a.kind in ('sym', 'ix', 'bv', 'J', 'nn', 'el'):
        return ZERO
    if var not in mentions(a):
        return ZERO
    if a.kind == 'pw':
        return diff(a.args[0], var)
    if a.kind == 'fn':
        name, args = a.args
        if name == 'tanh':
            return (ONE - P(a) * P(a)) * diff(args[0], var)
        if name == 'exp':
            return P(a) * diff(args[0], var)
        if name == 'log':
            return diff(args[0], var) / args[0]
        if name == 'sin':
            return cos(args[0]) * diff(args[0], var)
        if name == 'cos':
            return -sin(args[0]) * diff(args[0], var)
    if a.kind == 'sum':
        rng, body = a.args
        return mk_sum(rng, diff(body, var))
    if a.kind == 'ind':
        return ZERO
    raise Undecided('cannot differentiate %s' % show_atom(a))


# ------------------------------------------------------------------ printing

def show_atom(a):
    k = a.kind
    if k == 'sym':
        return str(a.args[0])
    if k == 'J':
        return '1j'
    if k == 'ix':
        return 'i' if a.args[0] == 0 else 'j' if a.args[0] == 1 else \
            'k%d' % a.args[0]
    if k == 'bv':
        return "b%s" % (a.args[0],)
    if k == 'el':
        s = '%r[%s]' % (a.args[0], ','.join(map(show, a.args[1])))
        return 'conj(%s)' % s if a.args[2] else s
    if k == 'fn':
        return '%s(%s)' % (a.args[0] if isinstance(a.args[0], str)
                           else key_name(a.args[0]),
                           ','.join(show(x) if isinstance(x, Poly)
                                    else key_name(x)[:30] for x in a.args[1]))
    if k == 'ind':
        if a.args[0] == 'flag':
            return '[%s]' % key_name(a.args[1])
        return '[%s%s0]' % (show(a.args[1]),
                            '<' if a.args[0] == 'lt' else '==')
    if k == 'pw':
        return '(%s)' % show(a.args[0])
    if k == 'abs':
        return '|%s|' % show(a.args[0])
    if k == 'sum':
        return 'sum{%s}(%s)' % (
            ';'.join('%s=%s..%s' % (show_atom(v), show(lo), show(hi))
                     for v, lo, hi in a.args[0]), show(a.args[1]))
    return '%s%r' % (k, a.args)


def show(p, maxterms=12):
    if not p.t:
        return '0'
    out = []
    for n, (m, c) in enumerate(sorted(
            p.t.items(), key=lambda x: tuple((a.id, e) for a, e in x[0]))):
        if n >= maxterms:
            out.append('+ ... (%d terms)' % len(p.t))
            break
        fs = []
        if c != 1 or not m:
            fs.append('-' if c == -1 and m else str(c))
        for a, e in m:
            fs.append(show_atom(a) + ('' if e == 1 else '^%s' % e))
        out.append('*'.join(fs).replace('-*', '-'))
    return ' + '.join(out)
