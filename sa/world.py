"""Symbolic simulations, optimizations and specification pieces."""
from .alg import *
from .arr import *
from .interp import *
from .lib import PI
from . import lib
from .interp import loop_marks
from .report import Skip

NX = sym('Nx', isint=True, lb=5)
NY = sym('Ny', isint=True, lb=5)
DL = sym('dl', pos=True)
OM = sym('omega', pos=True)
L0 = sym('L0', pos=True)
EPSM = sym('eps_m', pos=True)
ETA = sym('eta', pos=True)
BETA = sym('beta', pos=True)

SIM = 'angler/simulation.py:Simulation'
OPT = 'angler/optimization.py:Optimization'


# a line source / probe in general position: transverse cells [K, K+2H) of
# K+2H+M, normal cell Q of Q+1+R
H_ = sym('h', isint=True, lb=3)
K_ = sym('k', isint=True, lb=0)
M_ = sym('m', isint=True, lb=1)
Q_ = sym('q', isint=True, lb=2)
R_ = sym('r', isint=True, lb=2)


def line(direction, odd=False):
    """(nx, ny, centre, width, first cell, number of cells)"""
    if odd:
        # width 2H+1 about centre K+H+1: cells [K, K+2H+1)
        w, c, n = H_ * 2 + 1, K_ + H_ + 1, H_ * 2 + 1
    else:
        w, c, n = H_ * 2, K_ + H_, H_ * 2
    t, q = K_ + n + M_, Q_ + 1 + R_
    if direction == 'x':
        return q, t, (Q_, c), w, K_, n
    return t, q, (c, Q_), w, K_, n


class World:
    def __init__(self, ck, lossy=True, **cfg):
        # lossy: permittivities are complex (lossless: real and positive)
        self.lossy = lossy
        cfg.setdefault('assume_any', True)
        self.ck = ck
        self.I = ck.interp(**cfg)

    # ------------------------------------------------------------- plumbing
    def glob(self, mod, name):
        v = self.I.lookup_global(mod, name)
        if v is None:
            raise Undecided('%s.%s does not exist' % (mod, name))
        return v

    def num(self, mod, name):
        return self.I.arr(self.glob(mod, name)).e

    def eps0(self):
        return self.num('angler.constants', 'EPSILON_0')

    def mu0(self):
        return self.num('angler.constants', 'MU_0')

    def call(self, o, name, *a, **kw):
        return self.I.call(self.I.getattr(o, name), list(a), kw)

    def fcall(self, mod, name, *a, **kw):
        return self.I.call(self.glob(mod, name), list(a), kw)

    def get(self, o, name):
        return self.I.getattr(o, name)

    def set(self, o, name, v):
        self.I.setattr(o, name, v)

    def e(self, v):
        """generic element of an array value"""
        if isinstance(v, Poly):
            return v
        if isinstance(v, Arr):
            return v.e
        return self.I.arr(v).e

    def a(self, v):
        return self.I.arr(v)

    def item(self, o, k):
        return self.I.getitem(o, k)

    def lst(self, *xs):
        return self.I.mklist([P(x) if isinstance(x, int) else x for x in xs])

    def array(self, name, dims, **kw):
        dims = tuple(P(d) for d in dims)
        return self.I.mkarr(generic(Base(name, dims, **kw)))

    def rejected(self, name, where, thunk, detail=''):
        """thunk must raise on every path; continues in the state at the
        raise"""
        I = self.I
        n0 = len(I.pending)
        pc0, facts0, st0 = I.pc, I.facts, list(I.pcstack)
        heap0 = I.heap
        I.heap = dict(heap0)
        try:
            thunk()
        except Dead:
            rs = I.pending[n0:]
            I.pc, I.facts, I.pcstack[:] = pc0, facts0, st0
            heap = rs[-1].heap
            for r in reversed(rs[:-1]):
                heap = I.merge_heap(r.cond, r.heap, heap)
            I.heap = heap
            del I.pending[n0:]
            self.ck.record(name, True, where)
            return rs
        c = I.pc
        self.ck.record(name, None if tainted(c) or loop_marks(c) else False, where,
                       detail or 'accepted' + (
                           '' if c == ONE else ' when ' + show(c)))
        raise Skip()

    # ------------------------------------------------------------ simulation
    def sim(self, pol, npml=(0, 0), nx=NX, ny=NY, eps=None, src='src',
            l0=L0, om=OM, dl=DL, eps_kw=None, name='eps'):
        nx, ny = P(nx), P(ny)
        if eps is None:
            eps = self.array(name, (nx, ny), **(
                {} if self.lossy else dict(real=True, pos=True)))
        S = self.glob('angler', 'Simulation')
        self.eps_ref = eps
        s = self.I.call(S, [om, eps, dl, self.lst(*npml), pol, l0], {})
        if src:
            self.set(s, 'src', self.array(src, (nx, ny)))
        return s

    def derivs(self, s):
        d = self.get(s, 'derivs')
        return {k: self.item(d, k) for k in ('Dxf', 'Dxb', 'Dyf', 'Dyb')}

    def fields(self, s, store, comp):
        return self.item(self.get(s, store), comp)

    def optim(self, s, objective, design=None, W=None, **kw):
        O = self.glob('angler', 'Optimization')
        if design is None:
            design = self.design(s)
        kw.setdefault('eps_m', EPSM)
        kw.setdefault('eta', ETA)
        kw.setdefault('beta', BETA)
        return self.I.call(O, [objective, s, design], kw)

    def design(self, s, name='design'):
        a = self.a(self.get(s, 'eps_r'))
        return self.I.mkarr(generic(Base(name, tuple(a.shape()), real=True,
                                         isint=True, binary=True)))

    def objective(self, args, extra=None, name='J'):
        """args: list of (component, nl)"""
        A = self.glob('angler.objective', 'obj_arg')
        al = [self.I.call(A, ['a%d' % i], dict(component=c, nl=nl))
              for i, (c, nl) in enumerate(args)]
        J = opaque_J(len(args), extra or name)
        O = self.glob('angler.objective', 'Objective')
        return self.I.call(O, [J, self.I.mklist(al)], {})


def opaque_J(n, name='J'):
    """an unknown real-valued objective of n arguments"""
    def f(I, args, kw):
        if len(args) != n:
            I.throw('TypeError', 'objective takes %d arguments' % n)
        return fn('Jval', (name,) + tuple(closed_key(I, a) for a in args),
                  real=True)
    return Builtin('objective', f, nparams=n, extra=name)


def closed_key(I, v):
    """key of a value in which the cell indices of arrays are bound"""
    if isinstance(v, Choice):
        return ('choice', v.c, closed_key(I, v.a), closed_key(I, v.b))
    if isinstance(v, Ref) and v.ty == 'arr':
        v = I.contents(v)
    if not isinstance(v, Arr):
        return I.ekey(v)
    n = len(v.dims)
    return ('A', v.dims, v.axes, bound_key(v.e, n),
            None if v.mask is None else bound_key(v.mask, n))


def bases_in(x, kind):
    """opaque arrays with key (kind, ...) occurring in a normal form"""
    out = []

    def walk(p):
        if isinstance(p, Poly):
            for m in p.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(p, Atom):
            for q in p.args:
                walk(q)
        elif isinstance(p, tuple):
            for q in p:
                walk(q)
        elif isinstance(p, Base):
            if isinstance(p.key, tuple) and p.key and p.key[0] == kind:
                if p not in out:
                    out.append(p)
    walk(x)
    return out


def back(e, d, n):
    """e at the previous cell along dimension d (periodic)"""
    return dshift(e, d, -1, n)


def dshift(e, d, k, n, dims=None):
    s = [ZERO, ZERO]
    s[d] = P(k)
    st = Sten(dims or (NX, NY), {tuple(s): ONE})
    return st.apply(e)


def fdiff(e, d, dims=(NX, NY), dl=DL):
    return (dshift(e, d, 1, None, dims) - e) / dl


def bdiff(e, d, dims=(NX, NY), dl=DL):
    return (e - dshift(e, d, -1, None, dims)) / dl


def coeff_of(p, atom):
    """coefficient of `atom` (power one) in p"""
    out = {}
    for m, c in p.t.items():
        r = tuple((a, x) for a, x in m if a is not atom)
        if len(r) + 1 == len(m):
            x = [x for a, x in m if a is atom][0]
            if x != 1:
                raise Undecided('unknown occurs nonlinearly')
            out[r] = out.get(r, F(0)) + c
    return Poly(out)
