"""C23: the derivative check compares like with like."""
from sa.world import *
from checks.c21 import statefulgrad, setup, twin, eps_of, list_items

FLOOR = 30
WC = OPT + '.check_deriv'
DR = sym('d_rho', pos=True)


def atom1(p):
    """the only atom of p, or None"""
    if isinstance(p, Poly) and len(p.t) == 1:
        (m, c), = p.t.items()
        if c == 1 and len(m) == 1 and m[0][1] == 1:
            return m[0][0]
    return None


def cell_of(w, g, ref):
    """the cell (p, q) with g == ref[p, q]: read off the elements of the
    gradient array in g"""
    a = atom1(ref)
    if a is None or a.kind != 'el':
        raise Undecided('reference gradient')
    hits = set()
    for m in g.t:
        for b, _ in m:
            if b.kind == 'el' and b.args[0].key == a.args[0].key:
                hits.add(tuple(b.args[1]))
    return hits


def in_design(ck, w, o, cell, D, n):
    """the cell is one of the design cells: (verdict, detail)"""
    info = []
    for d, p in enumerate(cell):
        a = atom1(p)
        if a is None or a.kind != 'el' or not isinstance(
                a.args[0].key, tuple) or a.args[0].key[0] != 'where':
            if p.as_int() is not None:
                return False, 'always the cell (%s)' % show(p)
            return None, 'index %s' % show(p)
        arr, e, k = a.args[0].info
        if k != d:
            return False, 'row and column are exchanged'
        info.append((e, a.args[1][0]))
    for e, r in info:
        if not (e * (ONE - D)).is_zero():
            return False, 'cells are drawn where %s' % show(e)
    if info[0][1] != info[1][1]:
        return False, 'row and column of different cells'
    r = atom1(info[0][1])
    if r is None:
        return None, 'position %s' % show(info[0][1])
    for ev in w.I.events:
        if ev[0] == 'numpy.random.randint' and \
                atom1(ev[2]['result']) is r:
            lo, hi = ev[1]
            lo, hi = (ZERO, lo) if hi is None else (lo, hi)
            lo, hi = w.e(lo), w.e(hi)
            s = sign_of(n - hi)
            if s in (0, 1, 2) and sign_of(lo) in (0, 1, 2):
                return True, ''
            return (None if s is None else False), \
                'position drawn from [%s, %s)' % (show(lo), show(hi))
    return None, 'position %s' % show(info[0][1])


def check(ck, n, pol='Ez', npml=(0, 0), filt=False, stored=False,
          before=(), tw=None):
    w, s, o, dims = setup(ck, pol, npml, filt)
    I = w.I
    rho = w.array('rhoX', dims, real=True)
    with statefulgrad(w, dims):
        if stored:
            w.call(o, 'compute_J', s)
        w.set(s, 'rho', rho)
        D = w.e(w.get(o, 'design_region'))
        e_rho = w.e(rho)
        t, o2 = twin(w, s, o, pol, npml)
        w.set(t, 'eps_r', eps_of(w, o2, rho))
        J0 = w.e(w.call(o2, 'compute_J', t))
        G = w.e(w.call(o2, 'compute_dJ', t, w.get(o2, 'design_region')))
        n0 = len(I.pending)
        r = w.call(o, 'check_deriv', Npts=P(n), d_rho=DR) if n != 5 else \
            w.call(o, 'check_deriv', d_rho=DR)
        ck.no_raise(I, n0)
        avm = list_items(w, w.item(r, ZERO))
        num = list_items(w, w.item(r, ONE))
        ck.record('one pair per requested point', len(avm) == len(num) == n,
                  WC, '%d analytical and %d numerical values for %d points'
                  % (len(avm), len(num), n))
        ck.eq('density left as it was', w.e(w.get(s, 'rho')), e_rho, WC)
        seen = []
        fl = w.call(w.get(o, 'design_region'), 'flatten')
        cells = w.e(I.call(I.builtins['len'], [I.getitem(
            fl, I.compare('Eq', fl, ONE))], {}))
        for k in range(min(len(avm), len(num))):
            g = w.e(avm[k])
            hits = cell_of(w, g, G)
            if len(hits) != 1:
                ck.record('an entry of the gradient', None, WC, show(g))
                continue
            p, q = next(iter(hits))
            seen.append((p, q))
            ck.eq('analytical value %d is the gradient at the cell' % k, g,
                  deep(G, {ixa(0): p, ixa(1): q}), WC)
            v, d = in_design(ck, w, o, (p, q), D, cells)
            ck.record('cell %d lies in the design region' % k, v, WC, d)
            got = w.e(num[k])
            one = eq0(ix(0) - p) * eq0(ix(1) - q)
            y = I.mkarr(full(dims, e_rho))
            I.setitem(y, (p, q), w.e(I.getitem(y, (p, q))) + DR)
            for x in (w.e(y), e_rho + DR * one,
                      (e_rho + DR) * one + e_rho * (ONE - one)):
                want = (objective_at(w, s, o, pol, npml, x) - J0) / DR
                if (got - want).is_zero():
                    break
            ck.eq('numerical value %d is the difference quotient at the '
                  'same cell' % k, got, want, WC)


def objective_at(w, s, o, pol, npml, x):
    """objective of a new problem with density x"""
    t, o2 = twin(w, s, o, pol, npml)
    x = w.I.mkarr(full((NX, NY), x))
    w.set(t, 'rho', x)
    w.set(t, 'eps_r', eps_of(w, o2, x))
    return w.e(w.call(o2, 'compute_J', t))


def run(ck):
    for pol in ('Ez', 'Hz'):
        for n in (1, 2, 5):
            ck.case('%s %d points' % (pol, n), check, n, pol)
        ck.case('%s with filter' % pol, check, 2, pol, filt=True)
        ck.case('%s with layers' % pol, check, 1, pol, (2, 3))
        ck.case('%s after an objective' % pol, check, 1, pol, stored=True)
    ck.case('no points', check, 0)


TECHNIQUE = ('the returned pairs are normal forms: the cell is read off the '
             'analytical entry and the numerical one compared with the '
             'difference quotient of an independent problem at that cell')
NOTE = ('All densities, designs, filters, projections, objectives and random '
        'draws; up to five points.')
