"""C11: Kerr model and its derivatives."""
from sa.world import *
from checks.c10 import mat, gen_atom

FLOOR = 20
WC = SIM + '.compute_nl'
WM = 'angler/nonlinearity.py:Nonlinearity'


def medium(w, s, k, scale, by_kw=True):
    chi = sym('chi%d' % k)
    reg = w.array('nlreg%d' % k, (NX, NY), real=True, isint=True,
                  binary=True)
    em = sym('emax%d' % k, pos=True)
    if by_kw:
        w.call(s, 'add_nl', chi, reg, eps_scale=scale,
               eps_max=em if scale else None)
    else:
        w.call(s, 'add_nl', chi, reg, 'kerr', scale, em)
    return chi, w.e(reg), em


def shift(m, scale, E, eps):
    chi, reg, em = m
    t = chi / (L0 * L0) * 3 * reg * E * conj(E)
    return t * (eps - 1) / (em - 1) if scale else t


def model(ck, pol, scales, by_kw=True, npml=(0, 0)):
    w = World(ck)
    s = w.sim(pol, npml)
    n0 = len(w.I.pending)
    ms = [medium(w, s, k, sc, by_kw) for k, sc in enumerate(scales)]
    # a first evaluation at another field leaves no trace
    w.call(s, 'compute_nl', w.array('other', (NX, NY)))
    E = w.array('E', (NX, NY))
    w.call(s, 'compute_nl', E)
    ck.no_raise(w.I, n0)
    E = w.e(E)
    epsr = w.get(s, 'eps_r')
    eps = w.e(epsr)
    tot = ZERO
    for m, sc in zip(ms, scales):
        tot = tot + shift(m, sc, E, eps)
    ck.eq('permittivity shift', w.e(w.get(s, 'eps_nl')), tot, WM)
    ck.eq('derivative of the shift in the field',
          w.e(w.get(s, 'dnl_de')), diff(tot, gen_atom(E)), WM)
    ck.eq('derivative of the shift in the permittivity',
          w.e(w.get(s, 'dnl_deps')), diff(tot, gen_atom(eps)), WM)
    v = generic(Base('probe', (NX, NY))).e
    ck.eq('nonlinear operator', mat(w.get(s, 'Anl')).apply(v),
          OM * OM * w.eps0() * L0 * tot * v, WC)
    ck.eq('the permittivity itself is left alone', w.e(w.get(s, 'eps_r')),
          eps, WC)
    # a new permittivity is used by the next evaluation
    new = w.array('eps2', (NX, NY))
    w.set(s, 'eps_r', new)
    w.call(s, 'compute_nl', w.array('E', (NX, NY)))
    sub = {gen_atom(eps): w.e(new)}
    ck.eq('shift in a new permittivity', w.e(w.get(s, 'eps_nl')),
          deep(tot, sub), WC)


def single(ck, scale):
    """the model object on its own"""
    w = World(ck)
    N = w.glob('angler.nonlinearity', 'Nonlinearity')
    chi, em = sym('chi'), sym('emax', pos=True)
    reg = w.array('nlreg', (NX, NY), real=True, isint=True, binary=True)
    nl = w.I.call(N, [chi, reg], dict(eps_scale=scale, eps_max=em))
    E, eps = w.array('E', (NX, NY)), w.array('eps', (NX, NY), real=True,
                                             pos=True)
    e, p = w.e(E), w.e(eps)
    t = chi * 3 * w.e(reg) * e * conj(e)
    if scale:
        t = t * (p - 1) / (em - 1)
    ck.eq('model: shift', w.e(w.call(nl, 'eps_nl', E, eps)), t, WM)
    ck.eq('model: derivative in the field',
          w.e(w.call(nl, 'dnl_de', E, eps)), diff(t, gen_atom(e)), WM)
    ck.eq('model: derivative in the permittivity',
          w.e(w.call(nl, 'dnl_deps', E, eps)), diff(t, gen_atom(p)), WM)


def run(ck):
    T, N = True, False
    cases = [(), (N,), (T,), (N, N), (T, N), (N, T), (T, T)]
    if ck.thorough:
        cases += [(a, b, c) for a in (N, T) for b in (N, T) for c in (N, T)]
    for pol in ('Ez', 'Hz'):
        for sc in cases:
            ck.case('%s, media %s' % (pol, ['scaled' if x else 'plain'
                                            for x in sc]), model, pol, sc)
    ck.case('positional arguments', model, 'Ez', (N, T), False)
    ck.case('layers', model, 'Ez', (N, T), False, (3, 2))
    for sc in (N, T):
        ck.case('model%s' % (', scaled' if sc else ''), single, sc)


TECHNIQUE = ('shift, operator and stored derivatives derived from the source '
             'as functions of a symbolic field, compared with the symbolic '
             'derivatives of the required shift')
NOTE = 'All fields, regions, chi, units; up to two (thorough: three) media.'
