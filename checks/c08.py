"""C08: modal sources: operator, place, scale, orientation, input power."""
from sa.world import *

FLOOR = 20
W = 'angler/source/mode.py:mode.insert_mode'
WN = 'angler/source/mode.py:mode.compute_normalization'
WS = 'angler/source/mode.py:mode.setup_src'
NEFF = sym('neff', pos=True)
SC = sym('scale', pos=True)


def mode_op(w, pol, eps, dims, e):
    """guided-mode operator on a line of permittivity eps(ix0) acting on e"""
    def sh(x, k):
        return Sten(dims, {(P(k),): ONE}).apply(x)
    k2 = OM * OM * w.mu0() * w.eps0() * L0 * L0
    if pol == 'Ez':
        d2 = (sh(e, 1) - e - e + sh(e, -1)) / DL / DL
        return k2 * eps * e + d2
    ex = (eps + sh(eps, -1)) / 2
    g = (e - sh(e, -1)) / DL / ex
    return k2 * eps * e + eps * (sh(g, 1) - g) / DL


def on_line(e, d, first, q=Q_):
    """restrict a grid expression to the line, as a function of ix0"""
    if d == 'x':
        return deep(e, {ixa(0): q, ixa(1): first + ix(0)})
    return deep(e, {ixa(0): first + ix(0), ixa(1): q})


def check_eig(ck, w, pol, b, eps, dims, order, where, tag):
    A, k, sigma, which = b.info
    v = w.I.arr(w.array('test vector', dims))
    ck.holds(tag + 'the mode operator acts on the cells of the line',
             prod(A.rd) == prod(dims), where, 'size %s' % (A.rd,))
    ck.eq(tag + 'the mode operator is that of the line', A.apply(v.e),
          mode_op(w, pol, eps, dims, v.e), where)
    ck.eq(tag + 'the eigenvalue sought is (neff w/c)^2', w.e(sigma),
          OM * OM * w.mu0() * w.eps0() * L0 * L0 * NEFF * NEFF, where)
    ck.holds(tag + 'the eigenvalues nearest to the one sought are taken',
             which is None or which == 'LM', where, 'which=%r' % (which,))
    s = sign_of(k - P(order))
    ck.holds(tag + 'enough modes are computed',
             None if s is None else s >= 0, where)


def spec_src(v, d, first, cnt, q=Q_):
    """indicator of the line times the signed profile (on the grid)"""
    n, t = (0, 1) if d == 'x' else (1, 0)
    ind = at_index(n, q, None) if False else eq0(ix(n) - q)
    ind = ind * p_not(lt0(ix(t) - first)) * lt0(ix(t) - first - cnt)
    e = SC * absval(v) * sign(real(v))
    return ind, deep(e, {ixa(0): ix(t) - first})


def vec_elem(b, order):
    return elem(b, [ix(0), P(order - 1)])


def case(ck, pol, d, odd, order, npml=(0, 0)):
    w = World(ck, name_profiles=any(npml))
    I = w.I
    nx, ny, c, wd, first, cnt = line(d, odd)
    s = w.sim(pol, npml, nx, ny)
    eps = w.e(w.get(s, 'eps_r'))
    src0 = w.e(w.get(s, 'src'))
    w.call(s, 'solve_fields')
    w.set(s, 'rho', w.array('rho', (nx, ny), real=True))
    keep = {k: w.get(s, k) for k in ('A', 'omega', 'dl', 'L0', 'Nx', 'Ny',
                                     'rho', 'mu_r')}
    f0 = {k: w.e(v) for k, v in I.cell(w.get(s, 'fields')).d.items()
          if v is not None}
    w.call(s, 'add_mode', NEFF, d, w.lst(*c), wd, scale=SC, order=P(order))
    n0 = len(I.pending)
    w.call(s, 'setup_modes')
    ck.no_raise(I, n0)
    src = w.e(w.get(s, 'src'))
    dims = (cnt,)
    bs = bases_in(src, 'eigvecs')
    if len(bs) != 1:
        ck.record('the source is the profile of one mode',
                  None if tainted(src) or not bs else False, W,
                  '%d eigenvectors' % len(bs))
        return
    b = bs[0]
    check_eig(ck, w, pol, b, on_line(eps, d, first), dims, order, W, '')
    ind, val = spec_src(vec_elem(b, order), d, first, cnt)
    ck.eq('the source is the scaled signed profile on its line and is '
          'otherwise unchanged', src, src0 + ind * (val - src0), W)
    # input power
    Win = w.get(s, 'W_in')
    bs = bases_in(w.e(Win), 'solve')
    if len(bs) != 1:
        raise Undecided('input power is not that of one solve')
    rhs = bs[0].info[1]
    es = bases_in(rhs, 'eigvecs')
    if len(es) != 1:
        ck.record('the input power is that of this mode alone',
                  None if tainted(rhs) or not es else False, WN,
                  '%d eigenvectors in the source' % len(es))
        return
    t, n = (1, 0) if d == 'x' else (0, 1)
    emax = w.e(I.call(Ext('numpy.max'), [I.call(
        Ext('numpy.abs'), [w.get(s, 'eps_r')], {})], {}))
    cross = deep(eps, {ixa(n): Q_})
    core = lt0(ONE - cross)
    straight = ONE + core * (emax - ONE)
    check_eig(ck, w, pol, es[0], on_line(straight, d, first), dims, order,
              WN, 'input power: ')
    ind, val = spec_src(vec_elem(es[0], order), d, first, cnt)
    ref = w.sim(pol, npml, nx, ny, eps=I.mkarr(Arr(
        (nx, ny), [[0], [1]], straight, 'f')), src=None)
    w.set(ref, 'src', I.mkarr(Arr((nx, ny), [[0], [1]], ind * val, 'c')))
    w.call(ref, 'solve_fields')
    pc = list(c)
    pc[n] = (nx, ny)[n] - Q_
    want = w.e(w.call(ref, 'flux_probe', d, w.lst(*pc), wd))
    ck.eq('input power is that of the mode in the straight guide', w.e(Win),
          want, WN)
    # the simulation itself
    ck.eq('permittivity is untouched', w.e(w.get(s, 'eps_r')), eps, WS)
    for k, v in keep.items():
        x = w.get(s, k)
        if isinstance(v, Ref):
            x, v = w.e(x), w.e(v)
        ck.eq('%s is untouched' % k, x, v, WS)
    for k, v in f0.items():
        x = w.item(w.get(s, 'fields'), k)
        ck.eq('stored %s is untouched' % k, w.e(x) if x is not None else
              ZERO, v, WS)


def two(ck, pol):
    """two modes: each line its own profile, power of the last one alone"""
    w = World(ck)
    I = w.I
    nx, ny, c, wd, first, cnt = line('x')
    s = w.sim(pol, (0, 0), nx, ny)
    eps = w.e(w.get(s, 'eps_r'))
    src0 = w.e(w.get(s, 'src'))
    c2 = (Q_ + 1, c[1])
    w.call(s, 'add_mode', NEFF, 'x', w.lst(*c), wd, scale=SC)
    w.call(s, 'add_mode', NEFF, 'x', w.lst(*c2), wd, scale=SC, order=P(2))
    w.call(s, 'setup_modes')
    src = w.e(w.get(s, 'src'))
    bs = bases_in(src, 'eigvecs')
    ks = {}
    for b in bs:
        ks[b.info[1]] = b
    if len(ks) != 2:
        raise Undecided('two modes expected')
    i1, v1 = spec_src(vec_elem(ks[ONE], 1), 'x', first, cnt)
    i2, v2 = spec_src(vec_elem(ks[P(2)], 2), 'x', first, cnt, Q_ + 1)
    want = src0 + i1 * (v1 - src0)
    want = want + i2 * (v2 - want)
    for q in (Q_, Q_ + 1, Q_ - 1):
        ck.eq('the source on column %s' % show(q - Q_),
              deep(src, {ixa(0): q}), deep(want, {ixa(0): q}), W)
    rhs = [b.info[1] for b in bases_in(w.e(w.get(s, 'W_in')), 'solve')]
    if len(rhs) != 1:
        raise Undecided('input power is not that of one solve')
    es = bases_in(rhs[0], 'eigvecs')
    ck.holds('the input power is that of the last mode alone',
             len(es) == 1 and es[0].info[1] == P(2), WN)
    extra = bases_in(rhs[0], 'src') + [
        x for x in base_names(rhs[0]) if x == 'src']
    ck.holds('the input power does not see other sources', not extra, WN)


def base_names(x):
    out = []

    def walk(p):
        if isinstance(p, Poly):
            for m in p.t:
                for a, _ in m:
                    walk(a)
        elif isinstance(p, Atom):
            for q in p.args:
                walk(q)
        elif isinstance(p, tuple):
            for q in p:
                walk(q)
        elif isinstance(p, Base):
            out.append(p.key)
    walk(x)
    return out


def run(ck):
    for pol in ('Ez', 'Hz'):
        for d in 'xy':
            ck.case('%s, normal %s' % (pol, d), case, pol, d, False, 1)
            ck.case('%s, normal %s, second mode, odd width' % (pol, d),
                    case, pol, d, True, 2)
            if ck.thorough:
                ck.case('%s, normal %s, third mode' % (pol, d), case, pol,
                        d, False, 3)
                ck.case('%s, normal %s, layers' % (pol, d), case, pol, d,
                        False, 1, (2, 3))
        ck.case('%s, two modes' % pol, two, pol)


TECHNIQUE = ('eigenproblem and masked-store normal forms; input power '
             'compared with an abstract solve of the straight guide')
NOTE = ('Lines in general position, all permittivities and grids; which '
        'eigenpair the iteration converges to is C35 (not applicable).')
