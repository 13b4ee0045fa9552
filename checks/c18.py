"""C18: objective and gradient use fields of the present design and source."""
from sa.world import *
from checks.grad import NLS, FN, NL

FLOOR = 40
WF = OPT + '._solve_objfn_arg_fields'
DEP = {}


class anygrad:
    """inside, the gradient is an arbitrary array"""

    def __init__(self, w, dims):
        self.w, self.dims = w, dims
        self.names = ['angler.gradients.' + f for f in
                      list(FN.values()) + list(NL.values())]

    def __enter__(self):
        for n in self.names:
            self.w.I.opaque[n] = lambda I, f, vs: self.w.array(
                'anygrad%d' % I.fresh(), self.dims, real=True)

    def __exit__(self, *a):
        for n in self.names:
            self.w.I.opaque.pop(n, None)


class Hist:
    """an optimization whose history is played before the question"""

    def __init__(self, ck, pol, args, npml=(0, 0), nl=False, filt=False,
                 shift=None):
        self.ck = ck
        self.pol, self.args = pol, args
        self.w = w = World(ck, optimizer=self.optimizer, generic_ne=True)
        self.npml = npml
        self.s = s = w.sim(pol, npml)
        self.dims = (NX, NY)
        self.nl = nl
        if nl:
            self.install_nl()
            reg = w.array('nlreg', self.dims, real=True, isint=True,
                          binary=True)
            self.reg = reg
            w.call(s, 'add_nl', sym('chi', pos=True), reg, eps_scale=False,
                   eps_max=EPSM)
        w.set(s, 'rho', w.array('rho', self.dims, real=True))
        kw = {}
        if shift is not None:
            kw['max_ind_shift'] = shift
        self.kw = kw
        self.o = w.optim(s, w.objective(args), **kw)
        if filt:
            self.W = Mat(self.dims, self.dims, [(Op(
                'filter', self.dims, self.dims, real=True),)])
            w.set(self.o, 'W', self.W)
        w.set(s, 'eps_r', w.get(s, 'eps_r'))

    def install_nl(self):
        """the nonlinear solution is a function of the whole problem"""
        w = self.w

        def h(I, f, vs):
            s = vs.get('simulation')
            if s is None:
                raise Undecided('nonlinear solver without a simulation')
            w.call(s, 'solve_fields')
            lin = w.fields(s, 'fields', 'Ez')
            key = ('nlsol', I.ekey(lin), I.ekey(w.get(s, 'eps_r')),
                   I.ekey(w.get(s, 'src')))
            out = [w.array(key + (c,), self.dims) for c in
                   ('Hx', 'Hy', 'Ez')]
            w.call(s, 'compute_nl', out[2])
            return tuple(out) + (I.mkarr(full((P(20), ONE), ZERO)),)
        for n in ('born_solve', 'newton_solve', 'newton_krylov_solve'):
            w.I.opaque[NLS + '.' + n] = h

    def vec(self, name):
        """some design-region vector"""
        return self.w.call(self.o, '_get_design_region',
                           self.w.array(name, self.dims, real=True))

    def optimizer(self, I, c):
        x1, x2 = self.vec('x1'), self.vec('x2')
        c.f(I, c.x0)
        if c.grad is not None:
            c.g(I, c.x0)
        c.f(I, x1)
        c.g(I, x1)
        c.cb(I, x1)
        c.f(I, x2)
        c.g(I, x2)
        return x1

    # ---------------------------------------------------------- operations
    def op(self, what):
        w, o, s = self.w, self.o, self.s
        new = lambda n, **k: w.array(n, self.dims, **k)
        if what == 'J':
            w.call(o, 'compute_J', s)
        elif what == 'dJ':
            w.call(o, 'compute_dJ', s, w.get(o, 'design_region'))
        elif what == 'eps':
            w.set(s, 'eps_r', new('eps2'))
        elif what == 'src':
            w.set(s, 'src', new('src2'))
        elif what == 'scale src':
            w.set(s, 'src', w.I.binop('Mult', w.get(s, 'src'),
                                      sym('amp', pos=True)))
        elif what == 'src in place':
            w.I.setitem(w.get(s, 'src'), (slice(None), slice(None)),
                        new('src4'))
        elif what == 'omega':
            w.set(s, 'omega', sym('omega2', pos=True))
            w.set(s, 'eps_r', w.get(s, 'eps_r'))
        elif what == 'copy':
            t = w.I.deepcopy(s)
            w.set(t, 'src', new('src3'))
            w.call(o, 'compute_J', t)
        elif what == 'copy dJ':
            t = w.I.deepcopy(s)
            w.set(t, 'eps_r', new('eps3'))
            w.call(o, 'compute_dJ', t, w.get(o, 'design_region'))
        elif what == 'check':
            w.call(o, 'check_deriv', Npts=P(1))
        elif what == 'frequency':
            w.call(o, 'scan_frequency', Nf=P(3), pbar=False)
        elif what == 'step':
            w.call(o, '_update_rho', new('step', real=True),
                   sym('size', pos=True))
        elif what == 'insert':
            w.call(o, '_set_design_region', self.vec('x3'))
        elif what == 'limit':
            w.call(o, '_set_source_amplitude')
        elif what == 'shift':
            w.call(s, 'compute_index_shift')
        elif what == 'init':
            w.call(s, 'init_design_region', w.get(o, 'design_region'), EPSM,
                   'halfway')
        elif what in ('GD', 'ADAM', 'LBFGS'):
            with anygrad(w, self.dims):
                w.call(o, 'run', method=what.lower(), Nsteps=P(1),
                       step_size=sym('size', pos=True),
                       beta1=sym('b1', pos=True), beta2=sym('b2', pos=True))
        else:
            raise Undecided(what)

    def reference(self):
        """a new problem in the present state"""
        w, s = self.w, self.s
        sh = w.a(w.get(s, 'eps_r')).shape()
        t = w.sim(self.pol, self.npml, sh[0], sh[1], eps=w.I.mkarr(
            w.a(w.get(s, 'eps_r'))), src=None, om=w.get(s, 'omega'),
            l0=w.get(s, 'L0'))
        w.set(t, 'src', w.I.mkarr(w.a(w.get(s, 'src'))))
        w.set(t, 'rho', w.I.mkarr(w.a(w.get(s, 'rho'))))
        if self.nl:
            w.call(t, 'add_nl', sym('chi', pos=True), self.reg,
                   eps_scale=False, eps_max=EPSM)
        o = w.optim(t, w.objective(self.args), design=w.get(
            self.o, 'design_region'), **self.kw)
        w.set(o, 'W', w.get(self.o, 'W'))
        return o, t

    def ask(self, dJ=True):
        w, ck = self.w, self.ck
        o2, t = self.reference()
        n0 = len(w.I.pending)
        J = w.call(self.o, 'compute_J', self.s)
        ck.no_raise(w.I, n0)
        ck.eq('the objective is that of the present design and source',
              w.e(J), w.e(w.call(o2, 'compute_J', t)), WF)
        if dJ:
            D = w.get(self.o, 'design_region')
            n0 = len(w.I.pending)
            g = w.call(self.o, 'compute_dJ', self.s, D)
            ck.no_raise(w.I, n0)
            ck.eq('the gradient is that of the present design and source',
                  w.e(g), w.e(w.call(o2, 'compute_dJ', t, D)), WF)


def history(ck, ops, pol='Ez', args=None, npml=(0, 0), grad_first=False,
            dJ=True, **kw):
    h = Hist(ck, pol, args or [(pol, False)], npml, **kw)
    for x in ops:
        h.op(x)
    if grad_first:
        w = h.w
        o2, t = h.reference()
        D = w.get(h.o, 'design_region')
        n0 = len(w.I.pending)
        g = w.call(h.o, 'compute_dJ', h.s, D)
        ck.no_raise(w.I, n0)
        ck.eq('the gradient is that of the present design and source',
              w.e(g), w.e(w.call(o2, 'compute_dJ', t, D)), WF)
    h.ask(dJ)


OPS = ('eps', 'src', 'src in place', 'scale src', 'omega', 'copy', 'copy dJ', 'check',
       'frequency', 'step', 'insert', 'limit', 'init', 'GD', 'ADAM', 'LBFGS')


def run(ck):
    for pol in ('Ez', 'Hz'):
        ck.case('%s: J, dJ' % pol, history, ('J', 'dJ'), pol)
        ck.case('%s: dJ, J' % pol, history, ('dJ', 'J'), pol)
        for x in OPS:
            ck.case('%s: J, %s' % (pol, x), history, ('J', x), pol)
            ck.case('%s: dJ, %s, gradient first' % (pol, x), history,
                    ('dJ', x), pol, None, (0, 0), True)
    NLA = [('Ez', False), ('Ez', True)]
    for x in OPS + ('shift',):
        ck.case('nonlinear: J, %s' % x, history, ('J', x), 'Ez', NLA,
                dJ=False, nl=True)
    for x in ('src', 'limit', 'frequency', 'LBFGS', 'GD', 'ADAM'):
        ck.case('limited shift: J, %s' % x, history, ('J', x), 'Ez', NLA,
                dJ=False, nl=True, shift=sym('maxshift', pos=True))
    for a, b in (('eps', 'src'), ('frequency', 'src'), ('check', 'insert'),
                 ('copy', 'J'), ('copy', 'copy'), ('step', 'frequency'),
                 ('src', 'copy'), ('insert', 'scale src'), ('init', 'src'),
                 ('check', 'frequency'), ('frequency', 'check')):
        for pol in ('Ez', 'Hz'):
            ck.case('%s: J, %s, dJ, %s' % (pol, a, b), history,
                    ('J', a, 'dJ', b), pol)
    for x in ('eps', 'check', 'step', 'insert'):
        ck.case('filter: J, %s' % x, history, ('J', x), 'Ez', None, (2, 3),
                filt=True)


TECHNIQUE = ('abstract states of cached fields after call histories compared '
             'with those of a newly built problem in the same state')
NOTE = ('All objectives, permittivities, sources, densities, step sizes; the '
        'listed histories; different arrays are assumed to differ by a '
        'noticeable amount (the optimizer skips updates below 1e-10).')
