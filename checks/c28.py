"""C28: plotting only observes, and shows what was asked for."""
from sa.world import *

FLOOR = 60
TECHNIQUE = ('every plotting entry point is abstractly interpreted on opaque '
             'fields of unknown size; the calls it makes to matplotlib are '
             'recorded as effects (axis, image data, origin, limits, '
             'outline), compared with the requested quantity as normal '
             'forms; effect comparison of all reachable state')
NOTE = ('matplotlib itself is trusted: an image call is taken to show the '
        'array it is given at the time of the call. Appearance (fonts, '
        'colour maps, titles) is not judged.')
D = (NX, NY)
S_ = SIM + '.'
O_ = OPT + '.'
IMAGE = ('.imshow', '.pcolormesh', '.pcolor', '.matshow')


class Plot:
    def __init__(self, ck, pol='Ez', solved=True, nl=True):
        self.ck, self.pol = ck, pol
        self.w = w = World(ck)
        self.I = w.I
        self.s = s = w.sim(pol)
        self.eps = w.e(w.get(s, 'eps_r'))
        self.f = self.fnl = None
        if solved:
            self.f = self.put('fields', 'F')
            if nl:
                self.fnl = self.put('fields_nl', 'Fnl')
        w.set(s, 'W_in', sym('W_in', pos=True))

    def put(self, store, name):
        a = self.w.array(name, D)
        self.I.setitem(self.w.get(self.s, store), self.pol, a)
        return self.w.e(a)

    # ------------------------------------------------------------- events
    def mark(self):
        self.n = len(self.I.events)
        self.objs = [self.s]
        self.old = self.state()

    def events(self, *suffix):
        out = []
        for k, a, kw, pc, where in self.I.events[self.n:]:
            nm = k[-1] if isinstance(k, tuple) and isinstance(k[-1], str) \
                else k if isinstance(k, str) else ''
            if nm.endswith(suffix):
                out.append((k, a, kw, pc, where))
        return out

    def images(self):
        return self.events(*IMAGE)

    def norm(self, v):
        """limits of a matplotlib normalisation object"""
        for k, a, kw, pc, where in self.I.events[self.n:]:
            if isinstance(k, str) and k.startswith('matplotlib') and \
                    k.endswith('Norm'):
                o = Opaque(('call', k, self.I.ekey(tuple(a)), self.I.ekey(
                    tuple(sorted(kw.items(), key=lambda z: z[0])))))
                if o == v:
                    b = dict(zip(('vmin', 'vmax'), a), **kw)
                    return b.get('vmin'), b.get('vmax')
        raise Undecided('colour normalisation')

    def picture(self, ev):
        """(value shown at grid point (x, y), width, height)"""
        k, a, kw, pc, where = ev
        call = k[-1] if isinstance(k, tuple) else k
        img = self.w.a(a[-1] if len(a) in (3,) else a[0])
        if len(img.axes) != 2:
            raise Undecided('image is not two-dimensional')
        h, wd = img.shape()
        low = True
        if call.endswith(('imshow', 'matshow')):
            o = kw.get('origin')
            low = o == 'lower'
        if 'extent' in kw:
            raise Undecided('placement of the image')
        rows, cols = [[d for d in ax if img.dims[d] != ONE]
                      for ax in img.axes]
        if len(cols) != 1 or len(rows) > 2:
            raise Undecided('layout of the image')
        r = rows[-1]
        mp = {ixa(r): ix(1) if low else img.dims[r] - 1 - ix(1),
              ixa(cols[0]): ix(0)}
        if len(rows) == 1:
            return [deep(img.e, mp)], wd, h
        # copies of the grid stacked along y
        n = img.dims[rows[0]].as_int()
        if n is None or not (img.dims[r] - NY).is_zero():
            raise Undecided('layout of the image')
        return [deep(img.e, {**mp, ixa(rows[0]): P(k)})
                for k in range(n)], wd, h

    def limits(self, ev):
        kw = ev[2]
        lo, hi = kw.get('vmin'), kw.get('vmax')
        n = kw.get('norm')
        if n is not None:
            if lo is not None or hi is not None:
                return 'both', 'both'
            lo, hi = self.norm(n)
        for k, a, kw2, pc, where in self.events('.set_clim'):
            b = dict(zip(('vmin', 'vmax'), a), **kw2)
            lo, hi = b.get('vmin', lo), b.get('vmax', hi)
        return lo, hi

    # -------------------------------------------------------------- state
    def state(self):
        out = {}
        for n, o in enumerate(self.objs):
            for k, v in self.I.cell(o).attrs.items():
                self.walk(v, '%d.%s' % (n, k), out, 0)
        return out

    def walk(self, v, name, out, depth):
        I = self.I
        c = I.cell(v) if isinstance(v, Ref) else None
        for d in (getattr(c, 'd', None), getattr(c, 'attrs', None)):
            if isinstance(d, dict) and depth < 4:
                for k, x in d.items():
                    if isinstance(k, str):
                        self.walk(x, '%s.%s' % (name, k), out, depth + 1)
                return
        if hasattr(c, 'items') and depth < 4 and not callable(c.items):
            for k, x in enumerate(c.items):
                self.walk(x, '%s[%d]' % (name, k), out, depth + 1)
            out[name + '.len'] = len(c.items)
            return
        try:
            out[name] = I.ekey(v)
        except Undecided:
            pass

    def unchanged(self, where):
        new = self.state()
        bad = [k for k, v in self.old.items() if new.get(k) != v]
        d = ', '.join(bad)
        v = not bad
        if any(tainted(new.get(k)) for k in bad if new.get(k) is not None):
            v = None
        return self.ck.record('plotting leaves every attribute as it was', v,
                              where, 'changed: %s' % d)

    # -------------------------------------------------------- obligations
    def shows(self, ev, want, wd, h, where, what):
        ck = self.ck
        gh, gw = self.w.a(ev[1][-1] if len(ev[1]) == 3 else ev[1][0]).shape()
        ck.eq('width of the image is the x extent: ' + what, gw, wd, where)
        ck.eq('height of the image is the y extent: ' + what, gh, h, where)
        if not ((gw - wd).is_zero() and (gh - h).is_zero()):
            return
        got = self.picture(ev)[0]
        for g in got:
            ck.eq('image shows the requested quantity, x to the right and y '
                  'upwards: ' + what, inside(g), inside(want), where)

    def covers(self, lo, hi, want, where, sym_=False):
        """limits contain every value shown"""
        ck = self.ck
        for nm, v, out, best in (
                ('upper', hi, lambda v: lt0(v - want), 'max'),
                ('lower', lo, lambda v: lt0(want - v), 'min')):
            if v is None:
                ck.record('%s limit covers the values shown' % nm, True,
                          where)       # autoscaled by matplotlib
                continue
            v = self.w.e(v)
            exact = [self.ext(best, want)]
            if nm == 'upper':
                exact.append(self.ext('max', absval(want)))
            else:
                exact.append(-self.ext('max', absval(want)))
                if sign_of(want) in (0, 1, 2) or self.nonneg(want):
                    exact.append(ZERO)
            if any((v - x).is_zero() for x in exact):
                ck.record('%s limit covers the values shown' % nm, True,
                          where)
                continue
            r = ck.decide(inside(out(v)), ZERO)
            ck.record('%s limit covers the values shown' % nm,
                      False if r is False else None, where,
                      'limit %s' % show(v))

    def nonneg(self, want):
        return (want - absval(want)).is_zero()

    def ext(self, name, e):
        a = self.I.mkarr(full(D, e))
        return self.w.e(self.I.call(Ext('numpy.' + name), [a], {}))

    def outline(self, shown, eps, wd, h, where):
        evs = self.events('.contour', '.contourf')
        self.ck.record('outline drawn only when requested',
                       bool(evs) == shown, where,
                       '%d outlines' % len(evs))
        for ev in evs:
            got, gw, gh = self.picture(ev)
            self.ck.eq('size of the outline', gw * gh, wd * h, where)
            for g in got:
                self.ck.eq('outline is the permittivity in the orientation '
                           'of the image', inside(g), inside(eps), where)


def inside(e):
    """only cells of the grid count"""
    return e * lt0(ix(0) - NX) * lt0(ix(1) - NY)


AX = Opaque(('object', 'given axes'))


def views(p):
    """(method, keywords, quantity shown)"""
    re = lambda v: p.w.e(p.I.call(Ext('numpy.real'),      # noqa: E731
                                  [p.I.mkarr(full(D, v))], {}))
    a, b = absval(p.f), absval(p.fnl)
    d = a - b
    top = p.ext('max', a)
    return [
        ('plt_abs', {}, a), ('plt_abs', dict(nl=True), b),
        ('plt_abs', dict(logscale=True), a),
        ('plt_abs', dict(nl=True, logscale=True), b),
        ('plt_re', {}, re(p.f)), ('plt_re', dict(nl=True), re(p.fnl)),
        ('plt_diff', dict(normalize=False), d),
        ('plt_diff', {}, d / top),
        ('plt_eps', {}, absval(p.eps)),
    ]


def field(ck, pol, n, extra, tag):
    p = Plot(ck, pol)
    w, I = p.w, p.I
    name, kw, want = views(p)[n]
    where = S_ + name
    kw = dict(kw, **extra)
    t = kw.get('tiled_y', ONE).as_int() if 'tiled_y' in kw else 1
    p.mark()
    r = w.call(p.s, name, **kw)
    ck.no_raise(I)
    evs = p.images()
    ck.record('one image is drawn', len(evs) == 1, where,
              '%d images %s' % (len(evs), [(e[0], e[3]) for e in evs]))
    if len(evs) != 1:
        raise Skip()
    ev = evs[0]
    ck.record('drawn on every path', tf(ev[3]), where)
    what = name + (' nonlinear' if kw.get('nl') else '')
    p.shows(ev, want, NX, NY * t, where, what)
    if 'ax' in kw:
        ck.record('drawn on the axes given', ev[0] == (AX.key,
                                                       ev[0][-1]), where)
        ck.record('returns the axes drawn on', r == AX, where)
    else:
        ck.record('returns the axes drawn on', isinstance(r, Opaque)
                  and ev[0][0] == r.key, where)
    lo, hi = p.limits(ev)
    if lo == 'both':
        ck.record('limits are given once', False, where,
                  'norm together with vmin/vmax is rejected by matplotlib')
    else:
        for nm, v in (('vmin', lo), ('vmax', hi)):
            if nm in extra:
                ck.eq('%s is the one requested' % nm,
                      ZERO if v is None else w.e(v), extra[nm], where)
        if name == 'plt_diff' and 'vmax' in extra:
            ck.eq('limits are symmetric', w.e(lo), -extra['vmax'], where)
        if not set(extra) & {'vmin', 'vmax'}:
            p.covers(lo, hi, want, where)
        if kw.get('logscale'):
            z = lo is None or (sign_of(w.e(lo)) == 1) or 'vmin' in extra
            ck.record('logarithmic scale starts above zero', z, where,
                      'lower limit %s' % (lo,))
    p.outline(kw.get('outline', True), absval(p.eps), NX, NY * t,
              where)
    p.unchanged(where)


def tf(c):
    if isinstance(c, Poly):
        return True if c == ONE else None if tainted(c) else False
    return True


def refused(ck, pol, name, kw, solved):
    p = Plot(ck, pol, solved, nl=False)
    p.mark()
    p.w.rejected('fields that were never solved are not plotted', S_ + name,
                 lambda: p.w.call(p.s, name, **kw))
    ck.record('nothing is drawn', not p.images(), S_ + name)
    p.unchanged(S_ + name)


def history(ck, norm):
    p = Plot(ck)
    w, I = p.w, p.I
    o = w.optim(p.s, w.objective([('Ez', False)]))
    objs = [sym('J%d' % k, real=True) for k in range(3)]
    amps = [sym('amp%d' % k, pos=True) for k in range(3)]
    w.set(o, 'objfn_list', w.lst(*objs))
    w.set(o, 'src_amplitudes', w.lst(*amps))
    p.mark()
    p.objs.append(o)
    p.old = p.state()
    for ax in (None, AX):
        p.n = len(I.events)
        kw = dict(ax=ax) if ax is not None else {}
        if norm:
            kw['norm'] = norm
        n0 = len(I.pending)
        r = w.call(o, 'plt_objs', **kw)
        ck.no_raise(I, n0)
        evs = [e for e in p.events('.plot') if isinstance(e[0], tuple)]
        ck.record('one curve is drawn', len(evs) == 1, O_ + 'plt_objs')
        if len(evs) != 1:
            raise Skip()
        k, a, kw2, pc, where = evs[0]
        want = [j if not norm else j / m if norm == 'field' else j / m**2
                for j, m in zip(objs, amps)]
        ys = w.a(a[-1])
        ck.eq('every iteration is shown', ys.shape()[0], P(3),
              O_ + 'plt_objs')
        for i in range(3):
            ck.eq('objective of iteration %d' % (i + 1),
                  deep(ys.e, {ixa(0): P(i)}), want[i], O_ + 'plt_objs')
            if len(a) == 2:
                ck.eq('iteration number %d' % (i + 1),
                      deep(w.a(a[0]).e, {ixa(0): P(i)}), P(i + 1),
                      O_ + 'plt_objs')
        if ax is not None:
            ck.record('drawn on the axes given', k[0] == AX.key,
                      O_ + 'plt_objs')
        ck.record('returns the axes drawn on', isinstance(r, Opaque) and
                  r.key == k[0], O_ + 'plt_objs')
    p.unchanged(O_ + 'plt_objs')


def transmissions(ck, legend):
    p = Plot(ck)
    w, I = p.w, p.I
    o = w.optim(p.s, w.objective([('Ez', False)]))
    v = [[sym('T%d%d' % (i, j), real=True) for j in range(3)]
         for i in range(2)]
    lst = I.mklist([w.lst(*r) for r in v])
    p.mark()
    p.objs.append(o)
    p.old = p.state()
    w.call(o, 'plot_transmissions', lst,
           **({'legend': I.mklist(['a', 'b'])} if legend else {}))
    ck.no_raise(I)
    where = O_ + 'plot_transmissions'
    evs = p.events('.plot', '.semilogx')
    ck.record('one curve for each probe', len(evs) == 2, where,
              '%d curves' % len(evs))
    if len(evs) == 2:
        for i, (k, a, kw, pc, wh) in enumerate(evs):
            ys = w.a(a[-1])
            for j in range(3):
                ck.eq('transmission %d of probe %d' % (j, i),
                      deep(ys.e, {ixa(0): P(j)}), v[i][j], where)
    ck.record('legend only when given',
              bool(p.events('.legend')) == legend, where)
    for i in range(2):
        for j in range(3):
            ck.eq('transmission list unchanged', w.e(w.item(w.item(
                lst, P(i)), P(j))), v[i][j], where)
    p.unchanged(where)


def animation(ck):
    w = World(ck)
    I = w.I
    p = Plot.__new__(Plot)
    p.ck, p.w, p.I, p.n, p.objs = ck, w, I, 0, []
    where = 'angler/plot.py:plt_base_ani'
    f = w.array('F', D)
    N = sym('Nframes', isint=True, lb=3)
    r = w.fcall('angler.plot', 'plt_base_ani', f, Nframes=N,
                interval=sym('interval', pos=True))
    ck.no_raise(I)
    evs = p.events('.FuncAnimation')
    ck.record('an animation is made', len(evs) == 1, where)
    if len(evs) != 1:
        raise Skip()
    k, a, kw, pc, wh = evs[0]
    b = dict(zip(('fig', 'func', 'frames', 'init_func', 'fargs'), a), **kw)
    ck.record('the animation is returned', isinstance(r, Opaque)
              and r.key[:2] == ('call', k), where)
    ck.eq('requested number of frames', w.e(b.get('frames', ZERO)), N, where)
    ck.eq('requested interval', w.e(b.get('interval', ZERO)),
          sym('interval', pos=True), where)
    F = w.e(f)
    p.f = F
    if b.get('init_func') is not None:
        p.n = len(I.events)
        I.call(b['init_func'], [], {})
        for ev in p.events('.set_clim'):
            c = dict(zip(('vmin', 'vmax'), ev[1]), **ev[2])
            top = p.ext('max', absval(F))
            ck.eq('upper limit covers every frame', w.e(c['vmax']), top,
                  where)
            ck.eq('lower limit covers every frame', w.e(c['vmin']), -top,
                  where)
    t = sym('frame', isint=True, lb=0)
    p.n = len(I.events)
    I.call(b['func'], [t], {})
    evs = p.events('.set_data', '.set_array')
    ck.record('each frame sets the image', len(evs) == 1, where)
    if len(evs) == 1:
        img = w.a(evs[0][1][-1])
        got = deep(img.e, {ixa(img.axes[0][0]): ix(1),
                           ixa(img.axes[1][0]): ix(0)})
        ph = exp(J * PI * 2 * t / (N - 1))
        want = p.w.e(I.call(Ext('numpy.real'), [I.mkarr(full(
            D, F * ph))], {}))
        ck.eq('frame shows the field at its phase, x to the right', got,
              want, where)
    ck.eq('field unchanged', w.e(f), F, where)


PANELS = dict(eps=lambda p: absval(p.eps), elin=lambda p: absval(p.f),
              enl=lambda p: absval(p.fnl))


def progress(ck, pol, what):
    p = Plot(ck, pol)
    w, I = p.w, p.I
    o = w.optim(p.s, w.objective([(pol, False)]))
    w.set(o, 'objfn_list', w.lst(sym('J0', real=True)))
    w.set(o, 'src_amplitudes', w.lst(sym('amp', pos=True)))
    T = w.glob('angler.plot', 'Temp_plt')
    kw = dict(folder='scratch/')
    if what is not None:
        kw['plot_what'] = tuple(what)
    t = I.call(T, [], kw)
    w.set(o, 'temp_plt', t)
    p.mark()
    p.objs += [o, t]
    p.old = p.state()
    w.call(o, 'plot_it', P(7))
    ck.no_raise(I)
    where = O_ + 'plot_it'
    what = what or ('eps',)
    img = p.images()
    want = [x for x in what if x != 'of']
    ck.record('one image for each field requested', len(img) == len(want),
              where, '%d images for %s' % (len(img), what))
    if len(img) != len(want):
        raise Skip()
    for x, ev in zip(want, img):
        p.shows(ev, PANELS[x](p), NX, NY, where, 'panel ' + x)
    if 'of' in what:
        ev = [e for e in p.events('.plot') if isinstance(e[0], tuple)]
        ck.record('objective history drawn', len(ev) == 1, where)
        img = img + ev
    axes = set(e[0][0] for e in img)
    ck.record('every panel has its own axes', len(axes) == len(what), where)
    sv = p.events('.savefig')
    ck.record('one file is written', len(sv) == 1, where)
    if len(sv) == 1:
        n = sv[0][1][0]
        ck.record('file lies in the requested folder',
                  n.startswith('scratch/') if isinstance(n, str) else
                  True if 'scratch/' in repr(n) else None, where, repr(n))
    p.unchanged(where)


def clearing(ck):
    """only files inside the folder given are removed"""
    p = Plot(ck)
    w, I = p.w, p.I
    o = w.optim(p.s, w.objective([('Ez', False)]))
    t = I.call(w.glob('angler.plot', 'Temp_plt'), [], dict(folder='scratch/'))
    w.set(o, 'temp_plt', t)
    p.mark()
    w.call(o, '_check_temp_plt')
    where = O_ + '_check_temp_plt'
    for ev in p.events('os.unlink', 'os.remove', 'shutil.rmtree',
                       'os.rmdir', 'os.removedirs'):
        a = ev[1][0] if ev[1] else None
        key = a.key if isinstance(a, Opaque) else a
        if ev[0] in ('os.unlink', 'os.remove'):
            ok = isinstance(key, tuple) and len(key) == 3 and \
                key[:2] == ('str', 'path') and len(key[2]) == 2 and \
                key[2][0] == 'scratch/' and \
                "'os.listdir', ('scratch/',)" in repr(key[2][1])
            ck.record('removes only files of the folder given',
                      True if ok else None if "'path'" in repr(key)
                      else False, where, repr(key)[:200])
        else:
            ck.record('removes only files of the folder given', False, where,
                      '%s' % ev[0])
    w.set(o, 'temp_plt', None)
    p.n = len(I.events)
    w.call(o, '_check_temp_plt')
    ck.record('nothing is removed when no progress plot is requested',
              not p.events('os.unlink', 'os.remove', 'shutil.rmtree'), where)


def run(ck):
    one = [({}, 'default'), (dict(ax=AX), 'on given axes'),
           (dict(outline=False, cbar=False), 'bare'),
           (dict(tiled_y=P(3)), 'tiled')]
    names = ['plt_abs', 'plt_abs nl', 'plt_abs log', 'plt_abs nl log',
             'plt_re', 'plt_re nl', 'plt_diff', 'plt_diff normalized',
             'plt_eps']
    for pol in ('Ez', 'Hz'):
        for n, nm in enumerate(names):
            for kw, tag in one:
                ck.case('%s %s %s' % (pol, nm, tag), field, pol, n, kw, tag)
    V = sym('top', pos=True)
    B = sym('bottom', pos=True)
    for n in range(4):
        ck.case(names[n] + ' given limits', field, 'Ez', n,
                dict(vmin=B, vmax=V), '')
    for n in (6, 7):
        ck.case(names[n] + ' given limit', field, 'Ez', n, dict(vmax=V), '')
    for pol in ('Ez', 'Hz'):
        for nm, kw, solved in (
                ('plt_abs', {}, False), ('plt_re', {}, False),
                ('plt_diff', {}, False),
                ('plt_abs', dict(nl=True), False),
                ('plt_re', dict(nl=True), False),
                ('plt_abs', dict(nl=True), True),
                ('plt_re', dict(nl=True), True), ('plt_diff', {}, True)):
            ck.case('%s %s %s unsolved%s' % (
                pol, nm, kw, ' nonlinear' if solved else ''), refused, pol,
                nm, kw, solved)
    for norm in (None, 'field', 'power'):
        ck.case('objective history %s' % norm, history, norm)
    for legend in (False, True):
        ck.case('transmissions legend=%s' % legend, transmissions, legend)
    ck.case('animation', animation)
    for pol in ('Ez', 'Hz'):
        for what in (None, ('eps',), ('elin',), ('eps', 'elin'),
                     ('eps', 'of', 'elin'), ('of', 'eps', 'elin', 'enl'),
                     ('eps', 'elin', 'enl')):
            ck.case('progress %s %s' % (pol, what), progress, pol, what)
    ck.case('clearing the plot folder', clearing)
