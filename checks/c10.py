"""C10: nonlinear solvers iterate the right equations (Ez polarization)."""
from sa.world import *
from checks.c09 import THR, CHI

FLOOR = 20
N_ = 'angler/nonlinear_solvers.py'
WB = N_ + ':born_solve'
WN = N_ + ':newton_solve'
WJ = N_ + ':nl_eq_and_jac'
NLS = 'angler.nonlinear_solvers'
COMP = ('Hx', 'Hy', 'Ez')


def shift_at(E, reg, eps, scale):
    s = CHI * 3 / (L0 * L0) * reg * E * conj(E)
    return s * (eps - 1) / (EPSM - 1) if scale else s


class Setup:
    def __init__(self, ck, scale, media=1, npml=(0, 0)):
        self.w = w = World(ck, lossy=not scale)
        self.ck = ck
        self.scale = scale
        self.s = w.sim('Ez', npml)
        self.eps = w.e(w.get(self.s, 'eps_r'))
        self.regs = []
        for k in range(media):
            r = w.array('nlreg%d' % k, (NX, NY), real=True, isint=True,
                        binary=True)
            self.regs.append(w.e(r))
            w.call(self.s, 'add_nl', CHI, r, eps_scale=scale, eps_max=EPSM)
        self.ref = w.sim('Ez', npml, eps=w.get(self.s, 'eps_r'), src=None)
        w.set(self.ref, 'src', w.get(self.s, 'src'))
        self.E0 = w.array('E0', (NX, NY))

    def shift(self, E):
        t = ZERO
        for r in self.regs:
            t = t + shift_at(E, r, self.eps, self.scale)
        return t

    def system(self, E):
        """the linear simulation whose permittivity includes the shift"""
        w = self.w
        w.set(self.ref, 'eps_r', w.I.mkarr(full((NX, NY),
                                                self.eps + self.shift(E))))
        return w.get(self.ref, 'A')

    def solve(self, E):
        self.system(E)
        w = self.w
        return [w.e(x) for x in w.I.items(w.call(self.ref, 'solve_fields'))]

    def norm(self, e):
        w = self.w
        return w.e(w.I.call(Ext('numpy.linalg.norm'),
                            [w.I.mkarr(full((NX, NY), e))], {}))


def conv_at(a, k):
    e = a.e
    return deep(e, {ixa(0): P(k), ixa(1): ZERO})


def born(ck, n, scale, media=1, npml=(0, 0)):
    u = Setup(ck, scale, media, npml)
    w = u.w
    n0 = len(w.I.pending)
    r = w.I.items(w.call(u.s, 'solve_fields_nl', Estart=u.E0,
                         solver_nl='born', conv_threshold=THR,
                         max_num_iter=P(n)))
    ck.no_raise(w.I, n0)
    x = w.e(u.E0)
    its = []
    for k in range(n):
        y = u.solve(x)
        its.append((y, u.norm(y[2] - x) / u.norm(y[2])))
        x = y[2]
    judge(ck, w, r, its, n, WB, 'fixed-point')


def judge(ck, w, r, its, n, where, what):
    ca = w.a(r[3])
    want = its[-1][0]
    alive = ONE
    for k, (y, c) in enumerate(its):
        ck.eq('%s: reported change of iteration %d' % (what, k + 1),
              conv_at(ca, k), ite(alive, c, ZERO), where)
        alive = p_and(alive, p_not(lt0(c - THR)))
    for y, c in reversed(its[:-1]):
        want = [ite(lt0(c - THR), a, b) for a, b in zip(y, want)]
    for k, c in enumerate(COMP):
        ck.eq('%s: result after at most %d iterations (%s)' % (what, n, c),
              w.e(r[k]), want[k], where)


def residual(ck, scale, media=1, npml=(0, 0)):
    u = Setup(ck, scale, media, npml)
    w = u.w
    f, j11, j12 = w.I.items(w.I.call(w.glob(NLS, 'nl_eq_and_jac'), [u.s],
                                     dict(Ez=u.E0)))
    check_system(ck, u, w.e(u.E0), f, j11, j12, 'residual and Jacobian')
    g = w.I.call(w.glob(NLS, 'nl_eq_and_jac'), [u.s],
                 dict(Ez=u.E0, compute_jac=False))
    ck.eq('residual without Jacobian', grid(w, g), grid(w, f), WJ)


def grid(w, f):
    return w.e(w.I.mkarr(reshape(w.a(f), (NX, NY))))


def check_system(ck, u, E, f, j11, j12, what):
    """f, J against the residual A(E) E - i w src and its derivatives"""
    w = u.w
    A = u.system(ZERO)
    src = w.e(w.get(u.s, 'src'))
    res = mat(A).apply(E) + OM * OM * w.eps0() * L0 * u.shift(E) * E \
        - src * J * OM
    ck.eq('%s: residual of the shifted system' % what, grid(w, f), res, WJ)
    # derivative of the diagonal part in E and conj(E) at the same cell
    ea = gen_atom(E)
    ca = gen_atom(conj(E))
    loc = OM * OM * w.eps0() * L0 * u.shift(E) * E
    d11, d12 = diff(loc, ea), diff(loc, ca)
    v = generic(Base('probe', (NX, NY))).e
    ck.eq('%s: derivative of the residual in the field' % what,
          mat(j11).apply(v), mat(A).apply(v) + d11 * v, WJ)
    ck.eq('%s: derivative of the residual in the conjugate field' % what,
          mat(j12).apply(v), d12 * v, WJ)


def mat(m):
    from sa.world import Mat
    if isinstance(m, Mat):
        return to_dims(m, (NX, NY))
    raise Undecided('not a matrix: %s' % (m,))


def gen_atom(e):
    (m, c), = e.t.items()
    (a, x), = m
    return a


def newton(ck, n, scale):
    u = Setup(ck, scale)
    w = u.w
    calls = []

    def h(I, f, vs):
        vs = list(vs.values())
        d = w.array('step%d' % len(calls), (NX, NY))
        calls.append((vs, w.e(d)))
        return I.mkarr(reshape(w.a(d), (NX * NY,)))
    w.I.opaque['angler.linalg.solver_complex2real'] = h
    n0 = len(w.I.pending)
    r = w.I.items(w.call(u.s, 'solve_fields_nl', Estart=u.E0,
                         solver_nl='newton', conv_threshold=THR,
                         max_num_iter=P(n)))
    ck.no_raise(w.I, n0)
    if len(calls) != n:
        raise Undecided('%d coupled solves for %d iterations'
                        % (len(calls), n))
    x = w.e(u.E0)
    its = []
    for k, (vs, d) in enumerate(calls):
        ms = [v for v in vs if isinstance(v, Mat)]
        fs = [v for v in vs if isinstance(v, Ref) and v.ty == 'arr']
        if len(ms) != 2 or len(fs) != 1:
            raise Undecided('coupled solver called with other arguments')
        if k == 0:
            check_system(ck, u, x, fs[0], ms[0], ms[1],
                         'Newton step %d' % (k + 1))
        y = x - d
        its.append((y, u.norm(y - x) / u.norm(y)))
        x = y
    out, alive = [], ONE
    for y, c in its:
        out.append((u.solve(y), c))
    judge(ck, w, r, out, n, WN, 'Newton')


def run(ck):
    for scale in (False, True):
        sc = ', scaled' if scale else ''
        for n in (1, 2) + ((3,) if ck.thorough else ()):
            ck.case('fixed-point, %d iterations%s' % (n, sc), born, n, scale)
        ck.case('residual%s' % sc, residual, scale)
        for n in (1, 2):
            ck.case('Newton, %d iterations%s' % (n, sc), newton, n, scale)
    ck.case('fixed-point, two media, layers', born, 1, True, 2, (3, 2))
    ck.case('residual, two media, layers', residual, True, 2, (3, 2))


TECHNIQUE = ('iterates, residual and Jacobian of the solvers derived from '
             'the source and compared with a linear solve in the shifted '
             'permittivity and with symbolic (Wirtinger) derivatives')
NOTE = ('All fields, permittivities, regions, chi, tolerances; loops '
        'unrolled to two (thorough: three) iterations.')
