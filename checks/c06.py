"""C06: what each initialisation style of the design region assigns."""
from sa.world import *

FLOOR = 15
W = SIM + '.init_design_region'


def rands(e):
    """random draws (opaque arrays) an expression depends on"""
    return [b for b in bases_in(e, 'random')]


def case(ck, style, pol='Ez', dims=(NX, NY)):
    w = World(ck)
    s = w.sim(pol, (0, 0), *dims)
    old = w.e(w.get(s, 'eps_r'))
    d = w.design(s)
    D = w.e(d)
    n0 = len(w.I.pending)
    w.call(s, 'init_design_region', d, EPSM, style)
    ck.no_raise(w.I, n0)
    new = w.e(w.get(s, 'eps_r'))
    want = {'full': EPSM, 'halfway': (EPSM + 1) / 2, 'empty': ONE}.get(style)
    atom = next(iter(D.t))[0][0]
    out = assume(new, atom, 0)
    ins = assume(new, atom, 1)
    ck.eq('permittivity outside the region is kept', out, old, W)
    if want is not None:
        ck.eq('permittivity inside the region', ins, want, W)
    elif style.startswith('random'):
        us = unit_draws(ins)
        if us is None:
            ck.record('permittivity inside the region is random', False
                      if not tainted(ins) else None, W,
                      'value %s' % show(ins))
        else:
            u0, u1 = extremes(ins, us)
            ck.eq('lowest value drawn is one', u0, ONE, W)
            ck.eq('highest value drawn is the material value', u1, EPSM, W)
            if style == 'random_sym':
                mp = {ixa(1): P(dims[1]) - 1 - ix(1)}
                ck.eq('values inside are mirror symmetric in y',
                      deep(ins, mp), ins, W)
    else:
        ck.eq('unlisted style keeps the permittivity inside', ins, old, W)
    rho = w.get(s, 'rho')
    if rho is None:
        return ck.record('the density is stored', False, W)
    r = w.e(rho)
    F_ = 'angler.filter'
    back = w.fcall(F_, 'rhob2eps', rho, EPSM)
    ck.eq('the stored density maps back to the permittivity',
          w.e(back), new, W)
    ck.eq('the stored density is (eps-1)/(eps_m-1)', r,
          (new - 1) / (EPSM - 1), W)


def unit_draws(e):
    """atoms of uniform draws from [0,1) that e depends on affinely"""
    out = []
    for m in e.t:
        for a, x in m:
            if a.kind == 'el' and isinstance(a.args[0], Base) and \
                    isinstance(a.args[0].key, tuple) and \
                    a.args[0].key[0] == 'random':
                if x != 1:
                    return None
                if a not in out:
                    out.append(a)
    return out or None


def extremes(e, us):
    """values of e with every draw at the end that lowers/raises it"""
    lo = hi = e
    for a in us:
        c = coeff_of(e, a)
        s = sign_of(deep(c, {next(iter(EPSM.t))[0][0]:
                             EPSM1 + 1}))
        if s is None:
            raise Undecided('monotonicity in the draw is unknown: %s'
                            % show(c))
        lo = replace_atoms(lo, {a: ZERO if s >= 0 else ONE})
        hi = replace_atoms(hi, {a: ONE if s >= 0 else ZERO})
    return lo, hi


EPSM1 = sym('eps_m-1', pos=True)


def run(ck):
    for st in ('full', 'halfway', 'empty', 'random', 'random_sym', '',
               'unlisted'):
        ck.case(st or 'no style', case, st)
    for st in ('full', 'random_sym', 'halfway'):
        ck.case('%s, Hz' % st, case, st, 'Hz')
        ck.case('%s, single column' % st, case, st, 'Ez', (NX, 1))
    if ck.thorough:
        for st in ('full', 'halfway', 'empty', 'random', 'random_sym', ''):
            for pol in ('Ez', 'Hz'):
                for dims in ((NX, 1), (1, NY), (NX, NX)):
                    ck.case('%s, %s, %s' % (st, pol, dims), case, st, pol,
                            dims)


TECHNIQUE = 'symbolic masked-store analysis split on the region mask'
NOTE = ('All permittivities, masks, material values > 1 and grids; random '
        'draws are arbitrary values of [0,1).')
