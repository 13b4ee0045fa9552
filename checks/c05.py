"""C05: arrays and lists passed in by the caller are never modified."""
from sa.world import *

FLOOR = 20


class Guard:
    """snapshots of caller-owned objects"""

    def __init__(self, ck, w, where):
        self.ck, self.w, self.where = ck, w, where
        self.g = []
        self.n0 = len(w.I.pending)

    def arr(self, what, r):
        self.g.append((what, r, self.snap(r)))
        return r

    def snap(self, r):
        I = self.w.I
        if isinstance(r, Ref) and r.ty == 'arr':
            return I.contents(r).key()
        if isinstance(r, Ref) and r.ty == 'list':
            return tuple(self.snap(x) for x in I.items(r))
        if isinstance(r, Ref) and r.ty == 'dict':
            return tuple(sorted((str(k), self.snap(x)) for k, x in
                                I.cell(r).d.items()))
        if isinstance(r, tuple):
            return tuple(self.snap(x) for x in r)
        return r

    def check(self):
        for what, r, s in self.g:
            try:
                n = self.snap(r)
            except Undecided as ex:
                self.ck.record('%s is unchanged' % what, None, self.where,
                               str(ex))
                continue
            v = n == s
            if not v and isinstance(r, Ref) and r.ty == 'arr':
                a = self.w.I.contents(r)
                v = None if tainted(a.e) else False
                if len(s) > 3 and isinstance(s[3], Poly) and \
                        equal(a.e, s[3]) and a.shape() is not None:
                    v = True
            self.ck.record('%s is unchanged' % what, v, self.where,
                           'now %s, was %s' % (str(n)[:300], str(s)[:300]))


def guarded(ck, name, where, f, **cfg):
    def go(ck):
        w = World(ck, **cfg)
        g = Guard(ck, w, where)
        err = None
        try:
            f(w, g)
        except (Undecided, Dead) as ex:
            err = ex
        # effects up to the point reached still count
        if err is None:
            g.check()
        else:
            raise err
    ck.case(name, go)


def real(w, g, name, dims=(NX, NY), what=None):
    return g.arr(what or name, w.array(name, dims, real=True))


def posr(w, g, name, dims=(NX, NY), what=None):
    return g.arr(what or name, w.array(name, dims, real=True, pos=True))


def mksim(w, g, pol='Ez', npml=(0, 0), rho=True, n=(NX, NY)):
    eps = posr(w, g, 'eps', n, what='the permittivity')
    l = g.arr('the layer list', w.lst(*npml))
    s = w.I.call(w.glob('angler', 'Simulation'),
                 [OM, eps, DL, l, pol, L0], {})
    w.set(s, 'src', w.array('src', n))
    if rho:
        w.set(s, 'rho', real(w, g, 'rho', n, what='the density'))
    return s


def binary(w, g, name='design', what='the design region'):
    return g.arr(what, w.array(name, (NX, NY), real=True, isint=True,
                               binary=True))


def construct(w, g):
    for pol in ('Ez', 'Hz'):
        s = mksim(w, g, pol, (2, 3))
        w.call(s, 'solve_fields')
    e1 = g.arr('a 1D permittivity', w.array('e1', (NX,), real=True,
                                           pos=True))
    w.I.call(w.glob('angler', 'Simulation'),
             [OM, e1, DL, w.lst(0, 0), 'Ez', L0], {})


def initdes(style):
    def f(w, g):
        s = mksim(w, g)
        w.call(s, 'init_design_region', binary(w, g), EPSM, style)
        # and again, now that the permittivity is one it made itself
        e = g.arr('the permittivity read back', w.get(s, 'eps_r'))
        w.call(s, 'init_design_region', w.array('design2', (NX, NY),
                                                real=True, binary=True),
               EPSM, style)
    return f


def nonlinear(solver, scale):
    def f(w, g):
        s = mksim(w, g)
        w.call(s, 'add_nl', sym('chi', pos=True),
               binary(w, g, 'nlreg', 'the nonlinear region'),
               eps_scale=scale, eps_max=EPSM)
        E0 = g.arr('the starting field', w.array('E0', (NX, NY)))
        w.call(s, 'solve_fields')
        w.call(s, 'solve_fields_nl', Estart=E0, solver_nl=solver,
               max_num_iter=P(2))
        w.call(s, 'compute_nl', E0)
    return f


def probes(w, g):
    for pol in ('Ez', 'Hz'):
        s = mksim(w, g, pol)
        w.call(s, 'solve_fields')
        for d in 'xy':
            c = g.arr('the probe centre', w.lst(sym('cx', isint=True, lb=2),
                                                sym('cy', isint=True, lb=2)))
            w.call(s, 'flux_probe', d, c, sym('wd', isint=True, lb=1))


def modes(w, g):
    for pol in ('Ez', 'Hz'):
        for d in 'xy':
            nx, ny, c, wd, _, _ = line(d)
            s = mksim(w, g, pol, n=(nx, ny))
            c = g.arr('the mode centre', w.lst(*c))
            w.call(s, 'add_mode', sym('neff', pos=True), d, c, wd)
            w.call(s, 'setup_modes')


def optimize(method):
    def f(w, g):
        s = mksim(w, g)
        d = binary(w, g)
        o = w.optim(s, w.objective([('Ez', False)]), d)
        if method == 'deriv':
            w.call(o, 'check_deriv', Npts=P(1))
        elif method == 'freq':
            w.call(o, 'scan_frequency', Nf=P(3), pbar=False)
        elif method == 'vector':
            x = w.call(o, '_get_design_region',
                       w.array('x', (NX, NY), real=True))
            g.arr('the density vector', x)
            w.call(o, '_set_design_region', x)
            y = g.arr('the array', w.array('y', (NX, NY), real=True))
            w.call(o, '_get_design_region', y)
        elif method == 'step':
            gr = g.arr('the gradient', w.array('grad', (NX, NY), real=True))
            w.call(o, '_update_rho', gr, sym('step', pos=True))
            m = g.arr('the moment', w.array('mo', (NX, NY), real=True))
            v = g.arr('the second moment', w.array('vo', (NX, NY),
                                                   real=True))
            w.call(o, '_step_adam', gr, m, v, P(1), sym('b1', pos=True),
                   sym('b2', pos=True))
        else:
            w.call(o, 'run', method=method, Nsteps=P(1))
    return f


def filters(w, g):
    rho = real(w, g, 'rho')
    eps = posr(w, g, 'eps')
    Wm = Mat((NX, NY), (NX, NY), [(Op('W', (NX, NY), (NX, NY), real=True),)])
    F_ = 'angler.filter'
    w.fcall(F_, 'eps2rho', eps, EPSM)
    w.fcall(F_, 'rho2eps', rho, EPSM, Wm, eta=ETA, beta=BETA)
    rt = w.fcall(F_, 'rho2rhot', rho, Wm)
    w.fcall(F_, 'rhot2rhob', rho, eta=ETA, beta=BETA)
    w.fcall(F_, 'rhob2eps', rho, EPSM)
    w.fcall(F_, 'drhob_drhot', rho, eta=ETA, beta=BETA)
    U_ = 'angler.utils'
    w.fcall(U_, 'eps2rho_bar', eps, EPSM)
    w.fcall(U_, 'rho_bar2eps', rho, EPSM)
    w.fcall(U_, 'rho_bar', rho, eta=ETA, beta=BETA)


def getw(w, g):
    d = binary(w, g)
    l = g.arr('the layer list', w.lst(0, 0))
    w.fcall('angler.filter', 'get_W', NX, NY, d, l, P(2))


def linalg(w, g):
    e = g.arr('the averaged array', w.array('e', (NX, NY)))
    for x in 'xy':
        w.fcall('angler.linalg', 'grid_average', e, x)
    b = g.arr('the right-hand side', w.array('b', (NX, NY)))
    A = mdiag((NX, NY), w.e(w.array('diag', (NX, NY))))
    w.fcall('angler.linalg', 'solver_direct', A, b)
    w.fcall('angler.linalg', 'solver_complex2real', A, A, b)


def plots(nl):
    def f(w, g):
        s = mksim(w, g)
        for st in ('fields', 'fields_nl'):
            for c in ('Ez', 'Hx', 'Hy'):
                v = g.arr('the stored field', w.array(st + c, (NX, NY)))
                w.I.setitem(w.get(s, st), c, v)
        w.call(s, 'plt_abs', nl=nl, tiled_y=P(2))
        w.call(s, 'plt_re', nl=nl)
        w.call(s, 'plt_diff')
        w.call(s, 'plt_eps')
        v = g.arr('the plotted array', w.array('val', (NX, NY), real=True))
        o = g.arr('the outline array', w.array('out', (NX, NY), real=True))
        w.fcall('angler.plot', 'plt_base', v, o, 'magma', P(0), P(1), 'Ez')
        w.fcall('angler.plot', 'plt_base_eps', v, o, 'magma', P(0), P(1))
    return f


def binarizer(meth):
    def f(w, g):
        d = binary(w, g)
        b = w.I.call(w.glob('angler.utils', 'Binarizer'), [d, EPSM], {})
        J = opaque_J(3)
        h = w.call(b, meth, J)
        a = [g.arr('objective argument %d' % k,
                   w.array('f%d' % k, (NX, NY), real=k == 2))
             for k in range(3)]
        w.I.call(h, a, {})
    return f


def run(ck):
    guarded(ck, 'construction and linear solve', SIM + '.__init__',
            construct, name_profiles=True)
    for st in ('full', 'halfway', 'empty', 'random', 'random_sym', ''):
        guarded(ck, 'init_design_region(%s)' % st,
                SIM + '.init_design_region', initdes(st))
    for so in ('born', 'newton', 'hybrid'):
        for sc in (False, True):
            guarded(ck, 'nonlinear solve (%s)%s' % (
                so, ' scaled' if sc else ''), SIM + '.solve_fields_nl',
                nonlinear(so, sc))
    guarded(ck, 'flux probe', SIM + '.flux_probe', probes)
    guarded(ck, 'modes', 'angler/source/mode.py:mode.setup_src', modes)
    for m in ('deriv', 'freq', 'vector', 'step', 'GD', 'ADAM', 'LBFGS'):
        guarded(ck, 'optimization: %s' % m, OPT, optimize(m))
    guarded(ck, 'density maps', 'angler/filter.py:rho2eps', filters)
    guarded(ck, 'filter construction', 'angler/filter.py:get_W', getw)
    guarded(ck, 'linear algebra', 'angler/linalg.py:solver_direct', linalg)
    for nl in (False, True):
        guarded(ck, 'plots%s' % (' nl' if nl else ''), SIM + '.plt_abs',
                plots(nl))
    for m in ('density', 'density_exp', 'smoothness'):
        guarded(ck, 'binarizer %s' % m, 'angler/utils.py:Binarizer.' + m,
                binarizer(m))


TECHNIQUE = ('interprocedural may-write effect analysis with array views and '
             'aliasing')
NOTE = ('Every public operation is analysed with symbolic caller arrays and '
        'lists; their abstract contents must be those before the call on '
        'the joined exit state. The source array is excluded: mode insertion '
        'is documented to write into it.')
