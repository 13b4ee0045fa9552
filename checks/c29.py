"""C29: binarization wrappers."""
from sa.world import *

FLOOR = 40
TECHNIQUE = ('each wrapper of Binarizer is abstractly applied to an opaque '
             'objective and opaque arrays of unknown size; the factor it '
             'multiplies is extracted as a normal form and compared under '
             'substitution of the permittivity; effect comparison of the '
             'arguments before and after')
NOTE = ('The gray-level factor is checked for every permittivity and every '
        'nonempty 0/1 region of every grid size; the exponential wrapper for '
        'every exponent. autograd.scipy.signal.convolve is taken at its '
        'documented meaning.')
U = 'angler/utils.py:Binarizer.'
C = sym('c', pos=True)
D_ = sym('contrast', pos=True)          # eps_m - 1
EPSM = D_ + 1
LEVEL = sym('level', pos=True)
GRAY = (LEVEL + 1) ** -1                # any level between 0 and 1
METHODS = ('density', 'density_exp', 'smoothness')


def dom(n):
    return (NX, NY)[:n]


def objective(n, kw=(), name='J'):
    def f(I, args, kws):
        if len(args) != n or set(kws) != set(kw):
            I.throw('TypeError', 'objective called with %d arguments and '
                    'keywords %s' % (len(args), sorted(kws)))
        return fn('Jval', (name,) + tuple(closed_key(I, a) for a in args)
                  + tuple((k, closed_key(I, kws[k])) for k in sorted(kws)),
                  real=True)
    return Builtin('objective', f, nparams=n, extra=name)


def one(I, args, kw):
    return ONE


class Bin:
    def __init__(self, ck, method):
        self.w = w = World(ck)
        self.m = method
        self.des = w.array('design', dom(2), real=True, isint=True,
                           binary=True)
        B = w.glob('angler.utils', 'Binarizer')
        args = [self.des, EPSM]
        if method == 'density_exp':
            args.append(C)
        self.b = w.I.call(B, args, {})
        self.where = U + method

    def factor(self, eps, a=None, b=None):
        w = self.w
        a = w.array('e', dom(2)) if a is None else a
        b = w.array('e_nl', dom(2)) if b is None else b
        J1 = w.call(self.b, self.m, Builtin('one', one, nparams=3))
        return w.e(w.I.call(J1, [a, b, eps], {}))

    def eps(self, name='eps'):
        return self.w.array(name, dom(2), real=True, pos=True)

    def made(self, e):
        return self.w.I.mkarr(full([NX, NY], ZERO).with_e(e, None))


def grid_sum(e):
    return sum_over(e, {0: (ZERO, NX), 1: (ZERO, NY)})


def reference(m, g):
    """g: grayness averaged over the region"""
    return exp(-C * absval(g)) if m == 'density_exp' else ONE - g


def mean_gray(m, r, d):
    """mean over the cells of the region of 4 rho (1 - rho)"""
    g = r * (ONE - r) * 4
    # (written as one fraction where it is taken in magnitude cell by cell)
    return grid_sum((absval(g) if m == 'smoothness' else g) * d) / grid_sum(d)


def product(ck, m):
    x = Bin(ck, m)
    w, I = x.w, x.w.I
    for kw in ((), ('weight',)):
        for n in (3, 4):
            a, b = w.array('e', dom(2)), w.array('e_nl', dom(2))
            eps = x.eps()
            args = [a, b, eps]
            if n == 4:
                args.append(w.array('more', dom(2)))
            kws = {k: sym(k, real=True) for k in kw}
            J = objective(n, kw)
            want = I.call(J, args, dict(kws)) * x.factor(x.eps())
            n0 = len(I.pending)
            new = w.call(x.b, m, J)
            got = w.e(I.call(new, args, dict(kws)))
            ck.no_raise(I, n0)
            t = '%d arguments%s' % (n, ', keyword' if kw else '')
            ck.eq('value is the objective of the same arguments times the '
                  'factor: ' + t, got, want, x.where)
            for nm, v in zip(('first', 'second', 'third', 'fourth'), args):
                ref = dict(first='e', second='e_nl', third='eps',
                           fourth='more')[nm]
                kwv = dict(real=True, pos=True) if ref == 'eps' else {}
                ck.eq('%s argument is unchanged: %s' % (nm, t), w.e(v),
                      w.e(w.array(ref, dom(2), **kwv)), x.where)
            again = w.e(I.call(new, args, dict(kws)))
            ck.eq('the same arguments give the same value again: ' + t,
                  again, want, x.where)
    ck.eq('region is unchanged', w.e(x.des), w.e(w.array(
        'design', dom(2), real=True, isint=True, binary=True)), x.where)
    ck.eq('region held by the wrapper is unchanged',
          w.e(w.get(x.b, 'design_region')), w.e(x.des), x.where)


def only_third(ck, m):
    x = Bin(ck, m)
    w = x.w
    f = x.factor(x.eps())
    f2 = x.factor(x.eps(), w.array('e2', dom(2)), w.array('f2', dom(2)))
    ck.eq('factor depends only on the third argument', f2, f, x.where)
    e, o, d = (w.e(v) for v in (x.eps(), x.eps('other'), x.des))
    f3 = x.factor(x.made(e * d + o * (ONE - d)))
    ck.eq('factor ignores the permittivity outside the region', f3, f,
          x.where)
    # any density strictly between the two materials
    r = (w.e(x.eps('u')) + 1) ** -1
    ck.eq('factor is the gray level indicator of the region',
          x.factor(x.made(D_ * r + 1)), reference(m, mean_gray(m, r, d)),
          x.where)


def binary(ck, m):
    x = Bin(ck, m)
    w = x.w
    b = w.e(w.array('bin', dom(2), real=True, isint=True, binary=True))
    o, d = w.e(x.eps('other')), w.e(x.des)
    f = x.factor(x.made((ONE + D_ * b) * d + o * (ONE - d)))
    ck.eq('factor is one for a binary design', f, ONE, x.where)
    for nm, v in (('empty', ONE), ('full', EPSM)):
        f = x.factor(x.made(v + 0 * d if nm == 'empty'
                            else D_ * d + 1))
        ck.eq('factor is one for an %s design' % nm, f, ONE, x.where)


def gray(ck, m):
    x = Bin(ck, m)
    d = x.w.e(x.des)
    f = x.factor(x.made(ONE + D_ * GRAY * d))
    ck.eq('a uniformly gray region lowers the factor by its gray level',
          f, reference(m, GRAY * (ONE - GRAY) * 4), x.where)


def two_objectives(ck, m):
    """wrapping is a function of the objective, not of wrapping history"""
    x = Bin(ck, m)
    w, I = x.w, x.w.I
    J1, J2 = objective(3, (), 'J1'), objective(3, (), 'J2')
    args = [w.array('e', dom(2)), w.array('e_nl', dom(2)), x.eps()]
    f = x.factor(x.eps())
    n1 = w.call(x.b, m, J1)
    n2 = w.call(x.b, m, J2)
    for nm, n, J in (('first', n1, J1), ('second', n2, J2)):
        ck.eq('%s of two wrapped objectives' % nm, w.e(I.call(n, args, {})),
              I.call(J, args, {}) * f, x.where)
    nn = w.call(x.b, m, n1)
    ck.eq('wrapping twice applies the factor twice',
          w.e(I.call(nn, args, {})), I.call(J1, args, {}) * f * f,
          x.where)


def run(ck):
    for m in METHODS:
        ck.case('%s: product' % m, product, m)
        ck.case('%s: factor' % m, only_third, m)
        ck.case('%s: binary designs' % m, binary, m)
        ck.case('%s: uniform gray' % m, gray, m)
        ck.case('%s: two objectives' % m, two_objectives, m)
