"""C09: linear and nonlinear solutions never mix; solver dispatch."""
from sa.world import *

FLOOR = 25
WL = SIM + '.solve_fields'
WN = SIM + '.solve_fields_nl'
COMP = {'Ez': ('Hx', 'Hy', 'Ez'), 'Hz': ('Ex', 'Ey', 'Hz')}
ALL = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')
THR = sym('tolerance', pos=True)
CHI = sym('chi', pos=True)
NLS = 'angler.nonlinear_solvers'


def nlsim(w, pol, scale=False):
    s = w.sim(pol)
    reg = w.array('nlreg', (NX, NY), real=True, isint=True, binary=True)
    w.call(s, 'add_nl', CHI, reg, eps_scale=scale, eps_max=EPSM)
    return s


def store(w, s, name):
    d = w.get(s, name)
    return {c: (None if w.item(d, c) is None else w.e(w.item(d, c)))
            for c in ALL}


def fill(w, s, name, tag):
    for c in ALL:
        w.I.setitem(w.get(s, name), c, w.array(tag + c, (NX, NY)))
    return store(w, s, name)


def same_store(ck, w, s, name, old, what, where):
    new = store(w, s, name)
    for c in ALL:
        if old[c] is None or new[c] is None:
            ck.holds('%s: %s[%s]' % (what, name, c),
                     old[c] is None and new[c] is None, where,
                     'was %s' % ('empty' if old[c] is None else 'filled'))
        else:
            ck.eq('%s: %s[%s]' % (what, name, c), new[c], old[c], where)


def linear(ck, pol):
    """a linear solve after a nonlinear one"""
    w = World(ck)
    s = nlsim(w, pol)
    ref = w.sim(pol, src=None)
    w.set(ref, 'src', w.get(s, 'src'))
    r0 = [w.e(x) for x in w.I.items(w.call(ref, 'solve_fields'))]
    A = w.get(s, 'A')
    old = fill(w, s, 'fields_nl', 'nl')
    fill(w, s, 'fields', 'stale')
    w.call(s, 'compute_nl', w.array('E', (NX, NY)))
    r = w.I.items(w.call(s, 'solve_fields'))
    for c, x, y in zip(COMP[pol], r, r0):
        ck.eq('a linear solve ignores the nonlinearity (%s)' % c, w.e(x), y,
              WL)
        ck.eq('the linear store holds the linear solution (%s)' % c,
              w.e(w.fields(s, 'fields', c)), y, WL)
    same_store(ck, w, s, 'fields_nl', old, 'a linear solve leaves the '
               'nonlinear store', WL)
    ck.eq('a linear solve leaves the matrix', w.get(s, 'A'), A, WL)
    # and a solve with the nonlinear terms leaves the linear store
    old = fill(w, s, 'fields', 'lin')
    r = w.I.items(w.call(s, 'solve_fields', include_nl=True))
    same_store(ck, w, s, 'fields', old, 'a solve including the nonlinear '
               'terms leaves the linear store', WL)
    ck.eq('a solve including the nonlinear terms leaves the matrix',
          w.get(s, 'A'), A, WL)


def effects(ck, pol, solver, start, fresh):
    """which stores a nonlinear solve writes"""
    w = World(ck)
    s = nlsim(w, pol)
    w.call(s, 'solve_fields')
    lin = store(w, s, 'fields')
    if fresh:
        w.set(s, 'eps_r', w.get(s, 'eps_r'))
        lin0 = store(w, s, 'fields')
    A = w.get(s, 'A')
    eps = w.e(w.get(s, 'eps_r'))
    src = w.e(w.get(s, 'src'))
    kw = {}
    if start:
        kw['Estart'] = w.array('E0', (NX, NY))
    n0 = len(w.I.pending)
    r = w.I.items(w.call(s, 'solve_fields_nl', solver_nl=solver,
                         conv_threshold=THR, max_num_iter=P(2), **kw))
    ck.no_raise(w.I, n0)
    for c, x in zip(COMP[pol], r):
        st = w.fields(s, 'fields_nl', c)
        if st is None:
            ck.record('the nonlinear store holds the result (%s)' % c,
                      False, WN, 'nothing stored')
        else:
            ck.eq('the nonlinear store holds the result (%s)' % c, w.e(st),
                  w.e(x), WN)
    if not fresh:
        same_store(ck, w, s, 'fields', lin, 'a nonlinear solve leaves the '
                   'linear store', WN)
    else:
        new = store(w, s, 'fields')
        for c in ALL:
            v = new[c]
            if v is None:
                ck.record('linear store empty or linear (%s)' % c, True, WN)
            elif lin[c] is None:
                ck.record('linear store empty or linear (%s)' % c, False,
                          WN, 'filled with %s' % show(v))
            else:
                ck.eq('linear store empty or linear (%s)' % c, v, lin[c],
                      WN)
    ck.eq('a nonlinear solve leaves the matrix', w.get(s, 'A'), A, WN)
    ck.eq('a nonlinear solve leaves the permittivity',
          w.e(w.get(s, 'eps_r')), eps, WN)
    ck.eq('a nonlinear solve leaves the source', w.e(w.get(s, 'src')), src,
          WN)


def dispatch(ck, pol, solver, start):
    """the named method with the caller's start, tolerance and limit"""
    name = {'born': 'born_solve', 'newton': 'newton_solve'}[solver]
    w = World(ck)
    f = w.glob(NLS, name)
    E0 = w.array('E0', (NX, NY)) if start else None
    s1, s2 = nlsim(w, pol), nlsim(w, pol)
    w.set(s2, 'src', w.get(s1, 'src'))
    if not start:
        w.call(s1, 'solve_fields')
        w.call(s2, 'solve_fields')
    a = w.I.items(w.call(s1, 'solve_fields_nl', Estart=E0,
                         solver_nl=solver, conv_threshold=THR,
                         max_num_iter=P(2)))
    b = w.I.items(w.I.call(f, [s2, E0, THR, P(2)], {}))
    for k, n in enumerate(COMP[pol] + ('convergence',)):
        ck.eq('%s runs %s with the given start, tolerance and limit (%s)'
              % (solver, name, n), w.a(a[k]).key(), w.a(b[k]).key(), WN)


def limits(ck, pol, solver):
    """another tolerance or limit changes what runs"""
    name = {'born': 'born_solve', 'newton': 'newton_solve'}[solver]
    w = World(ck)
    calls = []
    watch(w, calls)
    s = nlsim(w, pol)
    E0 = w.array('E0', (NX, NY))
    w.call(s, 'solve_fields_nl', Estart=E0, solver_nl=solver,
           conv_threshold=THR, max_num_iter=sym('limit', isint=True, lb=2))
    if not calls:
        raise Undecided('no known solver function is called')
    ck.holds('only %s runs' % name, [c[0] for c in calls] == [name], WN,
             'ran %s' % [c[0] for c in calls])
    vs = calls[0][1]
    args = list(vs.values())
    ck.holds('given the starting field', any(x is E0 or x == E0
                                             for x in args), WN)
    ck.holds('given the tolerance', THR in [x for x in args
                                            if isinstance(x, Poly)], WN)
    ck.holds('given the iteration limit',
             sym('limit', isint=True, lb=2) in
             [x for x in args if isinstance(x, Poly)], WN)


def watch(w, calls):
    """replace both methods by unknown results"""
    def mk(name):
        def h(I, f, vs):
            n = [v for v in vs.values() if isinstance(v, Poly) and is_int(v)]
            n = n[0] if n else P(20)
            r = []
            for k in range(3):
                r.append(w.array('%s%d' % (name, k), (NX, NY)))
            r.append(w.array(name + 'conv', (n, ONE), real=True))
            calls.append((name, vs, r, I.abs_pc()))
            return tuple(r)
        return h
    for n in ('born_solve', 'newton_solve', 'newton_krylov_solve'):
        w.I.opaque[NLS + '.' + n] = mk(n)


def hybrid(ck):
    w = World(ck)
    calls = []
    watch(w, calls)
    s = nlsim(w, 'Ez')
    E0 = w.array('E0', (NX, NY))
    r = w.I.items(w.call(s, 'solve_fields_nl', Estart=E0,
                         solver_nl='hybrid', conv_threshold=THR))
    names = [c[0] for c in calls]
    if not calls:
        raise Undecided('no known solver function is called')
    ck.holds('hybrid runs the fixed-point method first',
             names[0] == 'born_solve', WN)
    ck.holds('hybrid then runs Newton', names[1:] == ['newton_solve'], WN,
             'ran %s' % names)
    if names != ['born_solve', 'newton_solve']:
        return
    b, n = calls
    ck.holds('fixed-point starts from the given field',
             E0 in [x for x in b[1].values() if isinstance(x, Ref)], WN)
    ck.holds('fixed-point uses the given tolerance',
             THR in [x for x in b[1].values() if isinstance(x, Poly)], WN)
    ck.holds('Newton uses the given tolerance',
             THR in [x for x in n[1].values() if isinstance(x, Poly)], WN)
    bz = w.a(b[2][2]).e
    ck.holds('Newton starts from the fixed-point result',
             any(isinstance(x, Ref) and x.ty == 'arr' and
                 w.a(x).e == bz for x in n[1].values()), WN)
    cv = w.a(b[2][3])
    last = deep(cv.e, {ixa(0): cv.dims[0] - 1})
    need = lt0(THR - last)
    ck.eq('Newton runs exactly when the tolerance was not met', n[3], need,
          WN)
    for k, c in enumerate(COMP['Ez']):
        want = ite(need, w.a(n[2][k]).e, w.a(b[2][k]).e)
        ck.eq('hybrid returns the last method run (%s)' % c, w.e(r[k]), want,
              WN)
        st = w.fields(s, 'fields_nl', c)
        ck.eq('hybrid stores the last method run (%s)' % c,
              ZERO if st is None else w.e(st), want, WN)


def run(ck):
    for pol in ('Ez', 'Hz'):
        ck.case('%s, linear' % pol, linear, pol)
        sol = ('born', 'newton') if pol == 'Ez' else ('born',)
        for so in sol:
            for st in (True, False):
                for fr in (True, False):
                    ck.case('%s, %s%s%s' % (
                        pol, so, ', start given' if st else '',
                        ', nothing solved yet' if fr else ''), effects,
                        pol, so, st, fr)
            ck.case('%s, %s, dispatch' % (pol, so), dispatch, pol, so, True)
            ck.case('%s, %s, dispatch, default start' % (pol, so), dispatch,
                    pol, so, False)
            ck.case('%s, %s, limits' % (pol, so), limits, pol, so)
    ck.case('hybrid', hybrid)


TECHNIQUE = ('store-effect analysis of linear and nonlinear solves, and '
             'relational comparison with the named method')
NOTE = ('All fields, permittivities, tolerances; method results compared for '
        'two unrolled iterations and as unknowns for any number.')
