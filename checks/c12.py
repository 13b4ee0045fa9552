"""C12: linear solver back-ends solve the system they are given."""
from sa.world import *

FLOOR = 12
L = 'angler/linalg.py'
WD = L + ':solver_direct'
WC = L + ':solver_complex2real'
LM = 'angler.linalg'
DIMS = (NX, NY)
SHIFTS = ((0, 0), (1, 0), (-1, 0), (0, 1), (0, -1))


ROW = (NX,)


def matrix(name, shifts=SHIFTS, dims=DIMS):
    """a sparse matrix with arbitrary complex entries on a grid stencil"""
    t = {}
    for k, s in enumerate(shifts):
        if len(dims) == 1 and s[1]:
            continue
        t[tuple(P(x) for x in s[:len(dims)])] = generic(
            Base('%s%d' % (name, k), dims)).e
    return msten(Sten(dims, t))


def rhs(w, shape, kind, dims=DIMS):
    kw = dict(real=True) if kind != 'complex' else {}
    a = w.array('b', dims, **kw)
    if kind == 'imaginary':
        a = w.I.mkarr(full(dims, w.e(a) * J))
    e = w.e(a)
    if shape == 'flat':
        a = w.I.mkarr(reshape(w.a(a), (prod(dims),)))
    elif shape == 'column':
        a = w.I.mkarr(reshape(w.a(a), (NX * NY, ONE)))
    return a, e


def grid(w, x, dims=DIMS):
    return reshape(w.a(x), dims).e


def protocol(ck, w, n0, where):
    ev = [e for e in w.I.events[n0:] if e[0] == 'protocol']
    ck.holds('back-end called in its documented order with a matching '
             'matrix kind', not ev, where, ev and str(ev[0][1][0]) or '')


def world(ck, back):
    return World(ck, missing=()) if back == 'pardiso' else World(ck)


def kws(back, default):
    return {} if default else dict(solver=back)


def direct(ck, back, default, shape, kind, timing):
    w = world(ck, back)
    A = matrix('A')
    b, e = rhs(w, shape, kind)
    n0, e0 = len(w.I.pending), len(w.I.events)
    x = w.fcall(LM, 'solver_direct', A, b, timing=timing,
                **kws(back, default))
    ck.no_raise(w.I, n0)
    protocol(ck, w, e0, WD)
    ck.holds('the solution is a flat vector',
             tuple(w.a(x).shape()) == (NX * NY,), WD)
    ck.eq('the solution solves the given system', grid(w, x),
          solve_elem(A, e), WD)
    ck.eq('the right-hand side is left alone', grid(w, b), e, WD)


def zero(ck, back, name):
    w = world(ck, back)
    A = matrix('A')
    z = w.I.mkarr(full(DIMS, ZERO))
    n0 = len(w.I.pending)
    where = L + ':' + name
    if name == 'solver_direct':
        x = w.fcall(LM, name, A, z, solver=back)
    else:
        x = w.fcall(LM, name, A, matrix('B', SHIFTS[:1]), z, solver=back)
    ck.no_raise(w.I, n0)
    ck.eq('a zero source gives a zero field', grid(w, x), ZERO, where)


def swap(p, base, f):
    """replace every element of `base` by f(indices)"""
    mp = {}
    for a in mentions(p):
        if a.kind == 'el' and a.args[0] is base:
            v = f(a.args[1])
            mp[a] = conj(v) if len(a.args) > 2 and a.args[2] else v
    return deep(p, mp)


def coupled(ck, back, default, shape, diag12, timing=False, kind='complex',
            dims=DIMS):
    w = world(ck, back)
    A11 = matrix('A', dims=dims)
    A12 = matrix('B', SHIFTS[:1] if diag12 else SHIFTS, dims=dims)
    b, e = rhs(w, shape, kind, dims)
    n0, e0 = len(w.I.pending), len(w.I.events)
    x = w.fcall(LM, 'solver_complex2real', A11, A12, b, timing=timing,
                **kws(back, default))
    ck.no_raise(w.I, n0)
    protocol(ck, w, e0, WC)
    x = grid(w, x, dims)
    bs = bases_in(x, 'solve')
    if x.is_zero():
        return ck.record('A11 x + A12 conj(x) = b is the system solved',
                         False, WC, 'zero is returned for a nonzero b')
    if len(bs) != 1:
        raise Undecided('the result is not the solution of one system')
    base = bs[0]
    M, r = base.info
    nd = len(base.dims)
    if nd != len(dims) + 1 or not is_two(base.dims[0]):
        raise Undecided('the system is not a two-block system')
    isreal = M.key() == mconj(M).key() and is_real(r)
    if isreal:
        y = Base('unknown', base.dims, real=True)
        sw = lambda i: elem(y, i)
    else:
        # complex form with unknown (x, conj x)
        x0 = Base('unknown', dims)
        sw = lambda i: block2f(x0, i)
    X = swap(x, base, sw)
    lo = [ix(d) for d in range(nd - 1)]
    hi = [ix(d) for d in range(1, nd)]
    Y = elem(y, [ix(0)] + hi) if isreal else \
        eq0(ix(0)) * elem(x0, hi) + (ONE - eq0(ix(0))) * conj(elem(x0, hi))
    # the solution is linear in the right-hand side: x = c (solution of r)
    one = elem(y, [ZERO] + lo) if isreal else elem(x0, lo)
    c = coeff_of(X, next(iter(one.t))[0][0])
    R = A11.apply(X) + A12.apply(conj(X)) - e
    S = M.apply(Y) - r
    rows = [deep(deep(S, {ixa(0): P(k)}),
                 {ixa(d + 1): ix(d) for d in range(nd - 1)}) for k in (0, 1)]
    if isreal:
        ck.eq('A11 x + A12 conj(x) = b is the system solved', R,
              c * (rows[0] + J * rows[1]), WC)
    else:
        ck.eq('A11 x + A12 conj(x) = b is the first block row', R, c * rows[0],
              WC)
        ck.eq('its conjugate is the second block row', conj(R),
              conj(c) * rows[1], WC)


def block2f(x0, i):
    k = i[0].as_int()
    if k is None:
        raise Undecided('unknown block index')
    v = elem(x0, list(i[1:]))
    return conj(v) if k == 1 else v




def run(ck):
    for back in ('scipy', 'pardiso'):
        for default in (True, False):
            nm = back + (' (default)' if default else '')
            for shape in ('grid', 'flat', 'column'):
                for kind in ('complex', 'real', 'imaginary'):
                    if default and shape != 'grid':
                        continue
                    ck.case('direct, %s, %s %s' % (nm, kind, shape), direct,
                            back, default, shape, kind, False)
            ck.case('direct, %s, timed' % nm, direct, back, default, 'grid',
                    'complex', True)
            for d in (True, False):
                ck.case('coupled, %s%s' % (nm, ', diagonal coupling'
                                           if d else ''), coupled, back,
                        default, 'flat', d)
                ck.case('coupled, %s%s, one axis' % (
                    nm, ', diagonal coupling' if d else ''), coupled, back,
                    default, 'flat', d, dims=ROW)
            for kind in ('real', 'imaginary'):
                ck.case('coupled, %s, %s' % (nm, kind), coupled, back,
                        default, 'flat', True, kind=kind)
            ck.case('coupled, %s, timed' % nm, coupled, back, default,
                    'grid', True, True)
        for n in ('solver_direct', 'solver_complex2real'):
            ck.case('zero source, %s, %s' % (back, n), zero, back, n)
    for n in ('SciPy', 'PARDISO', 'Scipy'):
        ck.case('direct, name %s' % n, direct_named, n)


def direct_named(ck, name):
    w = World(ck, missing=())
    A = matrix('A')
    b, e = rhs(w, 'grid', 'complex')
    x = w.fcall(LM, 'solver_direct', A, b, solver=name)
    ck.eq('the solution solves the given system', grid(w, x),
          solve_elem(A, e), WD)


TECHNIQUE = ('the systems handed to each back-end are reconstructed for '
             'arbitrary matrix entries; block identity for the coupled '
             'solver; typestate of the direct solver object')
NOTE = ('All entries of five-point stencil matrices of any size and all '
        'right-hand sides; the factorisation itself is trusted.')
