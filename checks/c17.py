"""C17: objectives route arguments and gradients, and reject misuse."""
from itertools import permutations
from sa.world import *
from checks.grad import linear, kerr, Prob, NLS

FLOOR = 40
WO = 'angler/objective.py:Objective'
WA = 'angler/objective.py:obj_arg'
WJ = OPT + '.compute_J'
WF = OPT + '._solve_objfn_arg_fields'
COMP = {'Ez': ('Hx', 'Hy', 'Ez'), 'Hz': ('Ex', 'Ey', 'Hz')}
ALL = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')


def hook(w, s):
    """nonlinear solvers return some fields"""
    a, b, c = (w.array('nl' + k, (NX, NY)) for k in ('Hx', 'Hy', 'Ez'))
    conv = w.I.mkarr(full((P(20), ONE), ZERO))

    def h(I, f, vs):
        w.call(s, 'compute_nl', c)
        return (a, b, c, conv)
    for n in ('born_solve', 'newton_solve', 'newton_krylov_solve'):
        w.I.opaque[NLS + '.' + n] = h
    w.set(s, 'eps_r', w.get(s, 'eps_r'))
    return dict(Hx=a, Hy=b, Ez=c)


def values(ck, pol, args, stale=False):
    """the objective is evaluated at the fields its arguments name"""
    w = World(ck)
    s = w.sim(pol)
    nl = hook(w, s) if any(n for _, n in args) else {}
    if nl:
        reg = w.array('nlreg', (NX, NY), real=True, isint=True, binary=True)
        w.call(s, 'add_nl', sym('chi', pos=True), reg, eps_scale=False,
               eps_max=EPSM)
    ref = w.I.deepcopy(s)
    lin = dict(zip(COMP[pol], w.I.items(w.call(ref, 'solve_fields'))))
    if stale:
        for st in ('fields', 'fields_nl'):
            for c in COMP[pol]:
                w.I.setitem(w.get(s, st), c, w.array('old' + c, (NX, NY)))
    obj = w.objective(args)
    o = w.optim(s, obj)
    n0 = len(w.I.pending)
    v = w.call(o, 'compute_J', s)
    ck.no_raise(w.I, n0)
    want = opaque_J(len(args))
    want = w.I.call(want, [(nl if n else lin)[c] for c, n in args], {})
    ck.eq('objective value of %s' % names(args), w.e(v), want, WJ)
    x = w.call(obj, 'is_linear')
    ck.holds('linearity of %s' % names(args),
             bool_of(w, x) is (not any(n for _, n in args)), WO +
             '.is_linear')


def bool_of(w, x):
    if isinstance(x, bool):
        return x
    c = w.I.truth(x)
    c = P(c).const()
    if c is None:
        raise Undecided('not a constant truth value')
    return bool(c)


def names(args):
    return ', '.join(c + ('_nl' if n else '') for c, n in args)


def single(ck):
    """a bare argument is the one-element list"""
    w = World(ck)
    s = w.sim('Ez')
    A = w.glob('angler.objective', 'obj_arg')
    O = w.glob('angler.objective', 'Objective')
    a = w.I.call(A, ['e'], {})
    ob = w.I.call(O, [opaque_J(1), a], {})
    o = w.optim(s, ob)
    v = w.call(o, 'compute_J', s)
    want = w.I.call(opaque_J(1), [w.fields(s, 'fields', 'Ez')], {})
    ck.eq('a single argument defaults to linear Ez', w.e(v), want, WJ)


def reset(ck):
    """assigning a new objective function renews its partial derivatives"""
    w = World(ck)
    s = w.sim('Ez')
    w.set(s, 'rho', w.array('rho', (NX, NY), real=True))
    args = [('Ez', False), ('Hx', False)]
    ob = w.objective(args)
    o = w.optim(s, ob)
    w.call(o, 'compute_J', s)
    w.call(o, 'compute_dJ', s, w.get(o, 'design_region'))
    w.set(ob, 'J', opaque_J(2, 'K'))
    ob2 = w.objective(args, 'K')
    o2 = w.optim(s, ob2, design=w.get(o, 'design_region'))
    ck.eq('the value is that of the new function',
          w.e(w.call(o, 'compute_J', s)), w.e(w.call(o2, 'compute_J', s)),
          WO + '.J')
    ck.eq('the gradient is that of the new function',
          w.e(w.call(o, 'compute_dJ', s, w.get(o, 'design_region'))),
          w.e(w.call(o2, 'compute_dJ', s, w.get(o, 'design_region'))),
          WO + '.J')


def count(ck, n, m):
    w = World(ck)
    A = w.glob('angler.objective', 'obj_arg')
    O = w.glob('angler.objective', 'Objective')
    al = [w.I.call(A, ['a%d' % i], {}) for i in range(m)]
    w.rejected('%d arguments for a function of %d are rejected' % (m, n),
               WO, lambda: w.I.call(O, [opaque_J(n),
                                        w.I.mklist(al)], {}))


def bad_component(ck, c, nl=False):
    w = World(ck)
    A = w.glob('angler.objective', 'obj_arg')
    w.rejected('component %r is rejected' % (c,), WA,
               lambda: w.I.call(A, ['a'], dict(component=c, nl=nl)))


def wrong_pol(ck, pol, args, grad=False):
    w = World(ck)
    s = w.sim(pol)
    hook(w, s)
    w.set(s, 'rho', w.array('rho', (NX, NY), real=True))

    def go():
        o = w.optim(s, w.objective(args))
        if grad:
            w.call(o, 'compute_dJ', s, w.get(o, 'design_region'))
        else:
            w.call(o, 'compute_J', s)
    w.rejected('%s in a simulation of %s is rejected' % (names(args), pol),
               WF, go)


def no_gradient(ck, c):
    """nonlinear components without a gradient never yield one"""
    w = World(ck)
    s = w.sim('Hz')
    w.set(s, 'rho', w.array('rho', (NX, NY), real=True))

    def go():
        o = w.optim(s, w.objective([(c, True)]))
        w.call(o, 'compute_dJ', s, w.get(o, 'design_region'))
    w.rejected('nonlinear %s has no gradient' % c, WA, go)


def run(ck):
    for pol in ('Ez', 'Hz'):
        for p in permutations(COMP[pol]):
            ck.case('value, %s' % (p,), values, pol,
                    [(c, False) for c in p])
        c = COMP[pol]
        ck.case('value, repeated', values, pol,
                [(c[0], False), (c[2], False), (c[0], False)])
        ck.case('value, stale fields', values, pol,
                [(c[1], False), (c[2], False)], True)
        for x in c:
            ck.case('value, %s alone' % x, values, pol, [(x, False)])
    for args in ([('Ez', False), ('Ez', True)], [('Ez', True), ('Ez', False)],
                 [('Hx', True), ('Hy', False), ('Ez', True)],
                 [('Hy', True)], [('Hx', True)], [('Ez', True)],
                 [('Hy', False), ('Hy', True), ('Hx', False)]):
        ck.case('value, ' + names(args), values, 'Ez', args)
        ck.case('value, %s, stale' % names(args), values, 'Ez', args, True)
    ck.case('single argument', single)
    ck.case('reassigned', reset)
    for n in range(4):
        for m in range(4):
            if n != m:
                ck.case('count %d/%d' % (n, m), count, n, m)
    for c in ('Dz', 'ez', '', 'E', 'Ezz', 'hx', None, 'Hz '):
        for nl in (False, True):
            ck.case('component %r %s' % (c, nl), bad_component, c, nl)
    for pol, oth in (('Ez', 'Hz'), ('Hz', 'Ez')):
        for c in COMP[oth]:
            ck.case('%s in %s' % (c, pol), wrong_pol, pol, [(c, False)])
            ck.case('%s in %s, gradient' % (c, pol), wrong_pol, pol,
                    [(c, False)], True)
            ck.case('%s second in %s' % (c, pol), wrong_pol, pol,
                    [(pol, False), (c, False)])
    for c in ('Ex', 'Ey', 'Hz'):
        ck.case('nonlinear ' + c, no_gradient, c)
    for args in (['Ez', 'Hx', 'Hy'], ['Hy', 'Ez', 'Hx'], ['Hx', 'Hy'],
                 ['Ez', 'Ez']):
        ck.case('gradient, %s' % args, linear, 'Ez',
                [(c, False) for c in args])
    for args in (['Hz', 'Ex', 'Ey'], ['Ey', 'Hz', 'Ex'], ['Ex', 'Ey'],
                 ['Ey', 'Ey']):
        ck.case('gradient, %s' % args, linear, 'Hz',
                [(c, False) for c in args])
    for args in ([('Ez', False), ('Ez', True)], [('Ez', True), ('Ez', False)],
                 [('Hx', True), ('Hy', False)], [('Hy', True), ('Hx', True)]):
        ck.case('gradient, %s' % names(args), kerr, args)


TECHNIQUE = ('abstract evaluation with an unknown objective: the fields '
             'reaching it, the required gradient sum, and the raise outcome '
             'of every misuse')
NOTE = ('All objectives, fields and permittivities; up to three arguments, '
        'every order of the components of each polarization, linear and '
        'nonlinear.')
