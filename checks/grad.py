"""Exact gradients derived from the code's own forward problem.

The fields the code computes are differentiated symbolically: every unknown
is the solution X of a system R(X, eps) = 0 read off the forward solve, every
component is a local expression F(X, eps).  With g the derivative of the
objective in a component (real part convention of the differentiation
library), and lambda the solution of (dR/dX)^T lambda = (dF/dX)^T g,
    dJ/deps = Re( -lambda dR/deps + g dF/deps ),
and the density gradient is W^T ( D f'(W rho) dJ/deps ).
"""
from sa.world import *
from sa.arr import mT, mconj, solve_elem, block_matrix
from checks.c09 import CHI

WG = 'angler/gradients.py'
FN = {'Ez': 'grad_linear_Ez', 'Hx': 'grad_linear_Hx', 'Hy': 'grad_linear_Hy',
      'Hz': 'grad_linear_Hz', 'Ex': 'grad_linear_Ex', 'Ey': 'grad_linear_Ey'}
NL = {'Ez': 'grad_kerr_Ez', 'Hx': 'grad_kerr_Hx', 'Hy': 'grad_kerr_Hy'}


def where(comp, nl):
    return WG + ':' + (NL if nl else FN)[comp]


class Prob:
    """an optimization problem over a symbolic simulation"""

    def __init__(self, ck, pol, args, npml=(0, 0), filt=True, nx=NX, ny=NY,
                 scale=None, lossy=True):
        self.ck = ck
        self.pol = pol
        self.args = args
        self.dims = (P(nx), P(ny))
        self.w = w = World(ck, lossy=lossy, name_profiles=any(npml))
        self.s = w.sim(pol, npml, nx, ny)
        if scale is not None:
            reg = w.array('nlreg', self.dims, real=True, isint=True,
                          binary=True)
            w.call(self.s, 'add_nl', CHI, reg, eps_scale=scale,
                   eps_max=EPSM)
        self.obj = w.objective(args)
        self.opt = w.optim(self.s, self.obj)
        self.D = w.e(w.get(self.opt, 'design_region'))
        if filt:
            self.W = Mat(self.dims, self.dims, [(Op('filter', self.dims,
                                                    self.dims, real=True),)])
            w.set(self.opt, 'W', self.W)
        else:
            self.W = None
        self.rho = w.array('rho', self.dims, real=True)
        w.set(self.s, 'rho', self.rho)

    def gradient(self):
        w = self.w
        n0 = len(w.I.pending)
        g = w.call(self.opt, 'compute_dJ', self.s,
                   w.get(self.opt, 'design_region'))
        self.ck.no_raise(w.I, n0)
        return g

    # -------------------------------------------------- the required value
    def filtered(self):
        e = self.w.e(self.rho)
        return self.W.apply(e) if self.W is not None else e

    def proj(self):
        """derivative of permittivity in the filtered density"""
        w = self.w
        rt = sym('rhot')
        f = w.e(w.fcall('angler.filter', 'rho2eps', rho=w.I.mkarr(
            full(self.dims, rt)), eps_m=EPSM, W=ident(self.dims), eta=ETA,
            beta=BETA))
        a = next(iter(rt.t))[0][0]
        return deep(diff(f, a), {a: self.filtered()})

    def spec(self):
        """required gradient, summed over the arguments"""
        tot = ZERO
        for k, (c, nl) in enumerate(self.args):
            tot = tot + self.spec_arg(k, c, nl)
        return tot

    def chain(self, G):
        """sensitivity to the permittivity -> gradient in the density"""
        v = self.D * self.proj() * G
        if self.W is not None:
            v = mT(self.W).apply(v)
        return real(v)

    def adj_source(self, k):
        """g: derivative of the objective in argument k"""
        w = self.w
        fl = w.get(self.opt, 'field_arg_list')
        J = self.w.I.getattr(self.obj, 'J')
        d = w.I.call(Ext('autograd.grad'), [J, P(k)], {})
        return w.e(w.I.call(d, w.I.items(fl), {}))

    def forward(self, comp, nl):
        w = self.w
        store = 'fields_nl' if nl else 'fields'
        main = w.e(w.fields(self.s, store, self.pol))
        F = w.e(w.fields(self.s, store, comp))
        return main, F

    def spec_arg(self, k, comp, nl):
        if nl:
            return self.spec_kerr(k, comp)
        w = self.w
        main, F = self.forward(comp, False)
        bs = bases_in(main, 'solve')
        if len(bs) != 1:
            raise Undecided('field is not the solution of one system')
        b = bs[0]
        M, rhs = b.info
        X = elem(b, [ix(i) for i in range(2)])
        if bases_in(F, 'solve') != [b]:
            raise Undecided('component of another solution')
        g = self.adj_source(k)
        lam = solve_elem(mT(M), pull(F, b, g, self.dims))
        R = M.apply(X) - rhs
        eps = eps_base(w.get(self.s, 'eps_r'), w)
        G = pull(F, eps, g, self.dims) - pull(R, eps, lam, self.dims)
        return self.chain(G)

    # --------------------------------------------------------------- Kerr
    def spec_kerr(self, k, comp):
        """residual F = A E + w^2 eps0 L0 shift(E, eps) E - b"""
        w = self.w
        main, F = self.forward(comp, True)
        g = self.adj_source(k)
        E = unknown_field(main)
        b = E.args[0]
        A = w.get(self.s, 'A')
        Ez = P(E)
        Ec = conj(Ez)
        shift = ZERO
        for i in range(self.media):
            n = w.call(w.item(w.get(self.s, 'nonlinearity'), P(i)), 'eps_nl',
                       w.I.mkarr(full(self.dims, Ez)), w.get(self.s,
                                                             'eps_r'))
            shift = shift + w.e(n)
        loc = OM * OM * w.eps0() * L0 * shift * Ez
        J11 = madd(A, mdiag(self.dims, diff(loc, E)))
        J12 = mdiag(self.dims, diff(loc, next(iter(Ec.t))[0][0]))
        K = block_matrix([[J11, J12], [mconj(J12), mconj(J11)]])
        src = pull(F, b, g, self.dims)
        e0 = eq0(ix(0))
        up1 = ren_up(src)
        r = e0 * up1 + (ONE - e0) * conj(up1)
        lam2 = solve_elem(mT(K), r)
        lam = deep(lam2, {ixa(0): ZERO})
        lam = deep(lam, {ixa(1): ix(0), ixa(2): ix(1)})
        eps = eps_base(w.get(self.s, 'eps_r'), w)
        R = A.apply(Ez) + loc
        G = pull(F, eps, g, self.dims) - pull(R, eps, lam, self.dims)
        return self.chain(G)


def ren_up(e):
    return deep(e, {ixa(0): ix(1), ixa(1): ix(2)})


def unknown_field(main):
    if len(main.t) != 1:
        raise Undecided('nonlinear field is not an unknown array')
    (m, c), = main.t.items()
    if c != 1 or len(m) != 1 or m[0][1] != 1 or m[0][0].kind != 'el':
        raise Undecided('nonlinear field is not an unknown array')
    return m[0][0]


def ident(dims):
    return mdiag(tuple(dims), ONE)


def eps_base(v, w):
    e = w.e(v)
    (m, c), = e.t.items()
    (a, x), = m
    return a.args[0]


def el_atoms(p, base):
    out = []
    for a in mentions(p):
        if a.kind == 'el' and a.args[0] is base and not a.args[2]:
            if a not in out:
                out.append(a)
    return sorted(out, key=lambda a: a.id)


def mentions_el(p):
    from sa.alg import Atom
    out = set()

    def walk(x):
        if isinstance(x, Poly):
            for m in x.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(x, Atom):
            if x in out:
                return
            out.add(x)
            for y in x.args:
                walk(y)
        elif isinstance(x, tuple):
            for y in x:
                walk(y)
    walk(p)
    return out


def pull(expr, base, weight, dims):
    """sum over cells of weight * d expr(cell) / d base(target), per target"""
    out = ZERO
    ats = sorted((a for a in mentions_el(expr) if a.kind == 'el'
                  and a.args[0] is base and not a.args[2]),
                 key=lambda a: a.id)
    for a in ats:
        c = diff(expr, a)
        if c.is_zero():
            continue
        e = c * weight
        for d, p in enumerate(a.args[1]):
            k = p - ix(d)
            if p.const() is not None and dims[d].as_int() == 1:
                continue
            if k.as_int() is None:
                if k.free():
                    raise Undecided('not a local dependence')
            if not k.is_zero():
                s = [ZERO, ZERO]
                s[d] = -k
                e = Sten(dims, {tuple(s): ONE}).apply(e)
        out = out + e
    return out


def linear(ck, pol, args, npml=(0, 0), filt=True, nx=NX, ny=NY):
    u = Prob(ck, pol, args, npml, filt, nx, ny)
    g = u.gradient()
    w = u.w
    ck.holds('gradient has the shape of the density',
             tuple(w.a(g).shape()) == u.dims, WG)
    ck.eq('gradient of an objective of %s' % ', '.join(
        c for c, _ in args), w.e(g), u.spec(), where(args[0][0], False))
    if not filt:
        ck.eq('zero outside the design region', w.e(g) * (ONE - u.D), ZERO,
              where(args[0][0], False))


def swap_base(p, base, f):
    mp = {}
    for a in mentions_el(p):
        if a.kind == 'el' and a.args[0] is base:
            v = f(a.args[1])
            mp[a] = conj(v) if a.args[2] else v
    return deep(p, mp)


NLS = 'angler.nonlinear_solvers'


def kerr(ck, args, npml=(0, 0), filt=True, scale=False, media=1):
    # (a medium scaled with the density presumes a real permittivity)
    u = Prob(ck, 'Ez', args, npml, filt, scale=scale,
             lossy=not scale and media == 1)
    w = u.w
    for k in range(1, media):
        reg = w.array('nlreg%d' % k, u.dims, real=True, isint=True,
                      binary=True)
        w.call(u.s, 'add_nl', sym('chi%d' % k, pos=True), reg,
               eps_scale=not scale, eps_max=EPSM)
    u.media = media
    # the nonlinear solution is an unknown field with consistent components
    E = w.array('Enl', u.dims)
    lin = [w.e(x) for x in w.I.items(w.call(u.s, 'solve_fields'))]
    b, = bases_in(lin[2], 'solve')
    c = coeff_of(lin[2], next(iter(elem(b, [ix(0), ix(1)]).t))[0][0])
    eb = eps_base(E, w)
    comp = [w.I.mkarr(full(u.dims, swap_base(
        x, b, lambda i: elem(eb, list(i)) / c))) for x in lin]

    def h(I, f, vs):
        w.call(u.s, 'compute_nl', w.array('stale', u.dims))
        return tuple(comp) + (w.I.mkarr(full((P(20), ONE), ZERO)),)
    for n in ('born_solve', 'newton_solve', 'newton_krylov_solve'):
        w.I.opaque[NLS + '.' + n] = h
    w.set(u.s, 'eps_r', w.get(u.s, 'eps_r'))
    g = u.gradient()
    ck.holds('gradient has the shape of the density',
             tuple(w.a(g).shape()) == u.dims, WG)
    ck.eq('gradient of an objective of %s' % ', '.join(
        c + ('_nl' if n else '') for c, n in args), w.e(g), u.spec(),
        where(args[0][0], args[0][1]))
    if not filt:
        ck.eq('zero outside the design region', w.e(g) * (ONE - u.D), ZERO,
              where(args[0][0], args[0][1]))
