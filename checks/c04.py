"""C04: assigning a permittivity rebuilds everything derived from it."""
from sa.world import *

FLOOR = 20
W = SIM + '.eps_r'
ALL = ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz')


def fill(w, s, dims=(NX, NY)):
    """pretend every field has been solved"""
    for st in ('fields', 'fields_nl'):
        for c in ALL:
            w.I.setitem(w.get(s, st), c, w.array(st + c, dims))


def consistent(ck, w, s, where=W, pol='Ez', tag='', om=None, l0=None,
               solved_ok=False):
    """A and derivs are those of the present permittivity"""
    I = w.I
    eps = w.get(s, 'eps_r')
    a = w.a(eps)
    sh_ = a.shape()
    ref = w.sim(pol, w.npml, sh_[0], sh_[1], eps=I.mkarr(a), src=None,
                om=om if om is not None else w.get(s, 'omega'),
                l0=l0 if l0 is not None else w.get(s, 'L0'))
    A, B = w.get(s, 'A'), w.get(ref, 'A')
    ck.eq(tag + 'the system matrix is that of the present permittivity',
          A, B, where)
    D, E = w.derivs(s), w.derivs(ref)
    for k in D:
        ck.eq(tag + 'derivative operator %s is up to date' % k, D[k], E[k],
              where)
    return A


def cleared(ck, w, s, where=W, tag=''):
    for st in ('fields', 'fields_nl'):
        d = w.get(s, st)
        for c in ALL:
            v = w.item(d, c)
            if isinstance(v, Choice):
                v = w.I.refine(v)
            ck.holds('%sno stale %s[%s] is left' % (tag, st, c), v is None,
                     where, 'still holds %r' % (v,))


def assign(ck, pol, npml, kind):
    w = World(ck, name_profiles=any(npml))
    w.npml = npml
    s = w.sim(pol, npml)
    w.call(s, 'solve_fields')
    fill(w, s)
    new = w.array('eps2', (NX, NY))
    n0 = len(w.I.pending)
    if kind == 'new':
        w.set(s, 'eps_r', new)
    elif kind == 'frequency':
        w.set(s, 'omega', sym('omega2', pos=True))
        w.set(s, 'eps_r', w.get(s, 'eps_r'))
    elif kind == 'unit':
        w.set(s, 'L0', sym('L02', pos=True))
        w.set(s, 'eps_r', w.get(s, 'eps_r'))
    elif kind == 'in place':
        e = w.get(s, 'eps_r')
        w.I.setitem(e, (slice_all(), slice_all()), new)
        w.set(s, 'eps_r', e)
    elif kind == 'twice':
        w.set(s, 'eps_r', new)
        w.call(s, 'solve_fields')
        fill(w, s)
        new = w.array('eps3', (NX, NY))
        w.set(s, 'eps_r', new)
    elif kind == 'copy':
        s0 = s
        A0 = w.get(s, 'A')
        s = w.I.deepcopy(s)
        w.set(s, 'eps_r', new)
        ck.eq('the original keeps its matrix', w.get(s0, 'A'), A0, W)
        ck.holds('the original keeps its fields',
                 w.fields(s0, 'fields', 'Ez') is not None, W)
    ck.no_raise(w.I, n0)
    if kind in ('new', 'twice', 'copy', 'in place'):
        ck.eq('the permittivity is the one assigned',
              w.e(w.get(s, 'eps_r')), w.e(new), W)
    consistent(ck, w, s, pol=pol)
    cleared(ck, w, s)
    eq_pos(ck, w, s, pol)


def eq_pos(ck, w, s, pol):
    """a solve afterwards uses the new matrix"""
    r = w.I.items(w.call(s, 'solve_fields'))
    bs = bases_in(w.e(r[2]), 'solve')
    if len(bs) != 1:
        raise Undecided('field is not the solution of one system')
    ck.eq('the next solve uses the new matrix', bs[0].info[0],
          w.get(s, 'A'), SIM + '.solve_fields')


def slice_all():
    return slice(None, None, None)


def oned(ck, pol):
    w = World(ck)
    w.npml = (0, 0)
    e = w.array('eps', (NX,))
    s = w.sim(pol, (0, 0), NX, 1, eps=e, src=None)
    w.set(s, 'src', w.array('src', (NX, ONE)))
    fill(w, s, (NX, ONE))
    new = w.array('eps2', (NX,))
    n0 = len(w.I.pending)
    w.set(s, 'eps_r', new)
    ck.no_raise(w.I, n0)
    ck.holds('the stored permittivity is a column',
             tuple(w.a(w.get(s, 'eps_r')).shape()) == (NX, ONE), W)
    ck.eq('grid size along x', w.I.getattr(s, 'Nx'), NX, W)
    ck.eq('grid size along y', w.I.getattr(s, 'Ny'), ONE, W)
    consistent(ck, w, s, pol=pol)
    cleared(ck, w, s)


def design(ck, pol, style):
    w = World(ck)
    w.npml = (0, 0)
    s = w.sim(pol)
    fill(w, s)
    d = w.design(s)
    n0 = len(w.I.pending)
    w.call(s, 'init_design_region', d, EPSM, style)
    ck.no_raise(w.I, n0)
    where = SIM + '.init_design_region'
    consistent(ck, w, s, where, pol)
    cleared(ck, w, s, where)


def opt(ck, pol, what):
    w = World(ck)
    w.npml = (0, 0)
    s = w.sim(pol)
    w.set(s, 'rho', w.array('rho', (NX, NY), real=True))
    o = w.optim(s, w.objective([(pol, False)]))
    fill(w, s)
    if what == 'step':
        g = w.array('grad', (NX, NY), real=True)
        w.call(o, '_update_rho', g, sym('step', pos=True))
        where = OPT + '._update_rho'
    else:
        d = w.a(w.get(o, 'design_region'))
        x = w.call(o, '_get_design_region',
                   w.array('newrho', (NX, NY), real=True))
        w.call(o, '_set_design_region', x)
        where = OPT + '._set_design_region'
    consistent(ck, w, s, where, pol)
    if what == 'step':
        cleared(ck, w, s, where)


def run(ck):
    for pol in ('Ez', 'Hz'):
        for kind in ('new', 'frequency', 'unit', 'in place', 'twice',
                     'copy'):
            ck.case('%s, %s' % (pol, kind), assign, pol, (0, 0), kind)
        ck.case('%s, layers' % pol, assign, pol, (2, 3), 'new')
        ck.case('%s, one-dimensional' % pol, oned, pol)
        for st in ('full', 'halfway', 'empty', 'random', 'random_sym'):
            ck.case('%s, init_design_region(%s)' % (pol, st), design, pol,
                    st)
        ck.case('%s, optimization step' % pol, opt, pol, 'step')
        ck.case('%s, density vector' % pol, opt, pol, 'vector')


TECHNIQUE = ('abstract state after each assignment compared with that of a '
             'newly built simulation')
NOTE = ('All permittivities, frequencies, units, grid sizes; the listed '
        'histories (solve, copy, reassign, in-place change, design '
        'initialisation, optimizer updates).')
