"""C30: saved devices: geometry tables, copies, observation points."""
import ast
from sa.world import *
from sa.lint import Program
from checks.c24 import Scan
from checks.c21 import list_items

FLOOR = 300
DEV = 'data/device_saver.py:Device'
SPEC = 'data/spectrum_plotter.py:'
FLUX = 'angler.simulation.Simulation.flux_probe'
GEO = {'two_port': ('L', 'H', 'w', 'l', 'spc', 'dl', 'NPML', 'eps_start'),
       'three_port': ('L', 'H', 'w', 'd', 'l', 'spc', 'dl', 'NPML',
                      'eps_start'),
       'ortho_port': ('L', 'L2', 'H', 'H2', 'w', 'l', 'dl', 'NPML',
                      'eps_start')}
PORTS = {'two_port': 1, 'three_port': 2, 'ortho_port': 2}
# where the transmissions of a device are kept, per output port
OUT = {'two_port': ('W_out',), 'three_port': ('W_top', 'W_bot'),
       'ortho_port': ('W_right', 'W_top')}


class Dev:
    def __init__(self, ck, kind, solved=True):
        self.ck, self.kind = ck, kind
        self.x = x = Scan(ck, 'Ez', (0, 0), True, [('Ez', True)], solved)
        self.w, self.I = w, I = x.w, x.w.I
        w.call(x.s, 'add_mode', sym('neff', pos=True), 'x', w.lst(2, 3),
               P(2), scale=sym('scale', pos=True))
        w.call(x.s, 'setup_modes')
        if solved:
            w.call(x.s, 'solve_fields')
            w.call(x.s, 'solve_fields_nl')
        self.calls = []
        self.scans = []
        I.opaque[FLUX] = self.flux

    def flux(self, I, f, vs):
        """power through a line: a number per field store, line and system"""
        w = self.w
        s = vs['self']
        c = [w.e(q) for q in list_items(w, vs['center'])]
        nl = vs['nl']
        if not isinstance(nl, bool):
            nl = I.truth(nl)
        if not isinstance(nl, bool):
            raise Undecided('undecided field store')
        E = w.fields(s, 'fields_nl' if nl else 'fields', 'Ez')
        if E is None:
            I.throw('TypeError', 'no fields to probe')
        line = (vs['direction_normal'], c[0], c[1], w.e(vs['width']))
        v = fn('flux', line + (I.ekey(E), I.ekey(w.get(s, 'eps_r')),
                               w.e(w.get(s, 'omega'))), real=True)
        self.calls.append((line, nl, v))
        return v

    def device(self):
        D = self.w.glob('data.device_saver', 'Device')
        return self.I.call(D, [self.x.s, self.x.o], {})

    def params(self, kind=None):
        w = self.w
        out = {}
        for k in GEO[kind or self.kind]:
            out[k] = w.lst(sym('px', isint=True), sym('py', isint=True)) \
                if k == 'NPML' else sym('geo_' + k, pos=True)
        return out

    def configure(self, d):
        w = self.w
        g = self.params()
        self.lam = sym('lambda0', pos=True)
        w.call(d, 'set_parameters', self.lam, g['dl'], g['NPML'],
               sym('chi3'), EPSM, sym('amp', pos=True))
        w.call(d, 'set_geometry', self.kind, *[g[k] for k in GEO[self.kind]])
        return g


def same(I, a, b):
    if isinstance(a, Ref) or isinstance(b, Ref):
        return a == b or I.ekey(a) == I.ekey(b)
    return a == b


def geometry(ck, kind, again=None):
    u = Dev(ck, kind, solved=False)
    w, I = u.w, u.I
    d = u.device()
    if again:
        w.call(d, 'set_geometry', again,
               *[P(7) if k != 'NPML' else w.lst(1, 1) for k in GEO[again]])
    n0 = len(I.pending)
    g = u.configure(d)
    ck.no_raise(I, n0)
    for k in GEO[kind]:
        ck.record("parameter '%s' keeps its value" % k,
                  same(I, w.get(d, k), g[k]), DEV + '.set_geometry',
                  'holds %s' % (w.get(d, k),))
    ck.record('structure type recorded', w.get(d, 'structure_type') == kind,
              DEV + '.set_geometry')


def parameters(ck):
    u = Dev(ck, 'two_port', solved=False)
    w, I = u.w, u.I
    d = u.device()
    g = u.configure(d)
    W = DEV + '.set_parameters'
    for k, v in (('lambda0', u.lam), ('chi3', sym('chi3')), ('eps_m', EPSM),
                 ('source_amp', sym('amp', pos=True))):
        ck.eq("'%s' recorded" % k, w.e(w.get(d, k)), v, W)
    ck.eq('angular frequency of the wavelength', w.e(w.get(d, 'omega')),
          2 * PI * 3 * 10 ** 8 / u.lam, W)
    for k, n, h, r in (('Nx', NX, 'nx', 'x_range'),
                       ('Ny', NY, 'ny', 'y_range')):
        n = P(n)
        ck.eq('%s is the grid size' % k, w.e(w.get(d, k)), n, W)
        ck.eq('%s is the middle cell' % h, w.e(w.get(d, h)),
              floor(n / 2), W)
        a = w.a(w.get(d, r))
        ck.holds('%s has one coordinate per cell' % r,
                 len(a.dims) == 1 and a.shape()[0] == n, W)
        first, last = w.item(w.get(d, r), ZERO), w.item(w.get(d, r), P(-1))
        ck.eq('%s is centred' % r, w.e(first) + w.e(last), ZERO, W)


def unknown_type(ck):
    u = Dev(ck, 'two_port', solved=False)
    d = u.device()
    u.w.rejected('an unknown structure type is refused', DEV +
                 '.set_geometry', lambda: u.w.call(
                     d, 'set_geometry', 'four_port', P(1), P(1), P(1), P(1),
                     P(1), P(1), u.w.lst(1, 1), P(1)))


def hook_scans(u):
    def power(I, f, vs):
        u.scans.append(('power', vs))
        u.pw = u.w.array('powers', (P(5),))
        ps = list_items(u.w, vs['probes'])
        u.tr = u.w.I.mklist([u.w.array('trans%d' % k, (P(5),))
                             for k in range(len(ps))])
        return (u.pw, u.tr)

    def freq(I, f, vs):
        u.scans.append(('frequency', vs))
        u.fr = u.w.array('freqs', (P(5),))
        u.ob = u.w.I.mklist([sym('obj%d' % k) for k in range(5)])
        return (u.fr, u.ob, sym('FWHM', pos=True))
    q = 'angler.optimization.Optimization.'
    u.I.opaque[q + 'scan_power'] = power
    u.I.opaque[q + 'scan_frequency'] = freq


def lines(u, calls):
    return sorted({c[0] for c in calls}, key=repr)


def observe(ck, kind):
    """recorded powers, power scan probes and spectrum probes agree"""
    u = Dev(ck, kind)
    w, I = u.w, u.I
    d = u.device()
    g = u.configure(d)
    hook_scans(u)
    W = DEV + '.calc_transmissions'
    n0 = len(I.pending)
    w.call(d, 'calc_transmissions')
    ck.no_raise(I, n0, 'transmissions complete without raising')
    sim = w.get(d, 'simulation')
    Win = w.e(w.get(sim, 'W_in'))
    ck.eq('input power is that of the simulation', w.e(w.get(d, 'W_in')),
          Win, W)
    val = {(c[0], c[1]): c[2] for c in u.calls}
    by = {}
    for (ln, nl), v in val.items():
        by[v] = (ln, nl)
    ports = {}
    for nm in OUT[kind]:
        ll = {}
        for suf, nl in (('_lin', False), ('_nl', True)):
            v = w.e(w.get(d, nm + suf))
            ck.record('%s%s is observed in the %s fields' % (
                nm, suf, 'nonlinear' if nl else 'linear'),
                v in by and by[v][1] == nl, W, 'is %s' % show(v))
            if v in by:
                ll[nl] = by[v][0]
        if len(ll) == 2:
            ck.record('%s: one line at low and high power' % nm,
                      ll[False] == ll[True], W,
                      '%s and %s' % (ll[False], ll[True]))
            ports[nm] = ll[False]
    ck.record('one line per port', len(set(ports.values())) == PORTS[kind],
              W, '%s' % (ports,))
    outs = set(ports.values())
    if kind == 'two_port':
        for suf in ('_lin', '_nl'):
            ck.eq('transmission%s is output over input power' % suf,
                  w.e(w.get(d, 'T' + suf)), w.e(w.get(d, 'W_out' + suf))
                  / Win, W)
    else:
        S = [[w.e(q) for q in list_items(w, r)]
             for r in list_items(w, w.get(d, 'S'))]
        want = sorted([repr(w.e(w.get(d, n + s)) / Win) for n in OUT[kind]
                       for s in ('_lin', '_nl')])
        ck.record('power matrix holds every power over the input power',
                  sorted(repr(q) for r in S for q in r) == want, W,
                  '%s' % ([[show(q) for q in r] for r in S],))
    # ---- the power scan
    WP = DEV + '.power_scan'
    s_min, s_max = sym('s0', pos=True), sym('s1', pos=True)
    n0 = len(I.pending)
    w.call(d, 'power_scan', Np=P(5), s_min=s_min, s_max=s_max)
    ck.no_raise(I, n0, 'power scan completes without raising')
    sc = [v for k, v in u.scans if k == 'power']
    ck.record('one power scan', len(sc) == 1, WP, '%d scans' % len(sc))
    if sc:
        v = sc[0]
        ck.record('scans the optimization of the device',
                  v['self'] == w.get(d, 'optimization'), WP)
        for k, q in (('Ns', P(5)), ('s_min', s_min), ('s_max', s_max)):
            ck.eq("power scan uses the '%s' given" % k, w.e(v[k]), q, WP)
        del u.calls[:]
        for p in list_items(w, v['probes']):
            I.call(p, [sim], {})
        ck.record('power scan observes the nonlinear fields',
                  all(c[1] for c in u.calls), WP)
        ck.record('power scan observes the output ports',
                  {c[0] for c in u.calls} == outs and
                  len(u.calls) == len(outs), WP, '%s, transmissions at %s' % (
                      lines(u, u.calls), sorted(outs, key=repr)))
        scanned = [c[0] for c in u.calls]
        ck.record('powers kept as scanned', same(I, w.get(d, 'powers'), u.pw)
                  and same(I, w.get(d, 'transmissions'), u.tr), WP)
    # ---- the frequency scan
    power_sc = sc
    WF = DEV + '.freq_scan'
    w.call(d, 'freq_scan', Nf=P(5))
    sc = [v for k, v in u.scans if k == 'frequency']
    ck.record('one frequency scan', len(sc) == 1, WF)
    if sc:
        ck.eq('frequency scan of the length asked', w.e(sc[0]['Nf']), P(5),
              WF)
        ck.record('frequency scan kept as scanned',
                  same(I, w.get(d, 'freqs'), u.fr) and
                  same(I, w.get(d, 'objs'), u.ob), WF)
        ck.eq('width kept', w.e(w.get(d, 'FWHM')), sym('FWHM', pos=True), WF)
        ck.eq('quality factor is frequency over width', w.e(w.get(d, 'Q')),
              w.e(w.get(d, 'omega')) / 2 / PI / sym('FWHM', pos=True), WF)
    # ---- the spectra
    WS = SPEC + 'get_spectrum'
    seen = []

    def scan(I, f, vs):
        seen.append(vs)
        return (u.w.array('sfreq', (P(5),)),
                I.mklist([sym('spec%d' % len(seen))]))
    I.opaque['data.spectrum_plotter.scan_frequency'] = scan
    r = w.fcall('data.spectrum_plotter', 'get_spectrum', d)
    got = []
    for vs in seen:
        ck.record('spectrum of the device', vs['D'] == d, WS)
        del u.calls[:]
        I.call(vs['probe'], [sim], {})
        got += [(c[0], c[1]) for c in u.calls]
    ck.record('one spectrum per port, low power then high power',
              [q[1] for q in got] ==
              [False] * PORTS[kind] + [True] * PORTS[kind], WS,
              '%s' % [q[1] for q in got])
    for nl in (False, True):
        ck.record('%s power spectra observe the output ports' %
                  ('high' if nl else 'low'),
                  {q[0] for q in got if q[1] == nl} == outs, WS,
                  '%s, transmissions at %s' % (
                      sorted({q[0] for q in got if q[1] == nl}, key=repr),
                      sorted(outs, key=repr)))
    half = len(got) // 2
    ck.record('low and high power spectra in the same port order',
              [q[0] for q in got[:half]] == [q[0] for q in got[half:]], WS)
    if power_sc and len(scanned) == half:
        ck.record('spectra and power scan in the same port order',
                  [q[0] for q in got[:half]] == scanned, WS)
    sp = list_items(w, w.item(r, ONE))
    ck.record('spectra in probe order', [
        w.e(w.item(q, ZERO)) for q in sp] == [
            sym('spec%d' % (k + 1)) for k in range(len(seen))], WS)


def spectrum(ck, nl, n, solved=True):
    """each value: the probe of that frequency's own solved system"""
    u = Dev(ck, 'two_port', solved=True)
    w, I = u.w, u.I
    d = u.device()
    u.configure(d)
    w.call(d, 'calc_transmissions')
    sim = w.get(d, 'simulation')
    W = SPEC + 'scan_frequency'
    x = u.x
    given, x.s = x.s, sim
    old = x.state()
    df = sym('df', pos=True)

    def probe(I, a, kw):
        t, v = a[0], ZERO
        st = 'fields_nl' if nl else 'fields'
        E = w.fields(t, st, 'Ez')
        if E is None:
            I.throw('TypeError', 'no fields to probe')
        return w.e(I.getitem(E, (P(1), P(2)))) * sym('probe')
    p = Builtin('probe', probe, nparams=1)
    n0 = len(I.pending)
    r = w.fcall('data.spectrum_plotter', 'scan_frequency', d, p, Nf=P(n),
                df=df, pbar=False)
    ck.no_raise(I, n0)
    x.compare(old, W)
    vals = list_items(w, w.item(r, ONE))
    ck.record('one value per frequency', len(vals) == n, W)
    Win = w.e(w.get(d, 'W_in'))
    om = w.e(w.get(sim, 'omega'))
    x.s = given
    for k in range(min(n, len(vals))):
        f = w.e(w.item(w.item(r, ZERO), P(k)))
        ck.eq('frequencies evenly spaced about the present one', f,
              (om - om * df / 2 + om * df * F(k, n - 1)) / 2 / PI, W)
        t, _ = x.reference()
        w.set(t, 'omega', f * 2 * PI)
        w.set(t, 'eps_r', w.get(t, 'eps_r'))
        w.call(t, 'solve_fields')
        if nl:
            w.call(t, 'solve_fields_nl')
        ck.eq('value %d is probe over input power of the system at that '
              'frequency' % k, w.e(vals[k]), probe(I, [t], {}) / Win, W)


def copies(ck, kind, solved):
    u = Dev(ck, kind, solved)
    w, I, x = u.w, u.I, u.x
    hook_scans(u)
    old = x.state()
    ro = I.ekey(w.get(x.o, 'objfn_list')) if 'objfn_list' in \
        I.cell(x.o).attrs else None
    n0 = len(I.pending)
    d = u.device()
    u.configure(d)
    w.call(d, 'generate_data', Nf=P(5), Np=P(5))
    ck.no_raise(I, n0)
    x.compare(old, DEV + '.generate_data')
    sim = w.get(d, 'simulation')
    for k, st in (('Ez', 'fields'), ('Ez_nl', 'fields_nl')):
        ck.eq("'%s' is the field of the device" % k, w.e(w.get(d, k)),
              w.e(w.fields(sim, st, 'Ez')), DEV)
    sh = w.call(w.get(d, 'simulation'), 'compute_index_shift')
    ck.eq('index shift of the device', w.e(w.get(d, 'index_shift')),
          w.e(sh), DEV + '.compute_index_shift')
    ck.record('data marked as generated',
              w.get(d, 'is_data_generated') is True, DEV)
    n0 = len(I.pending)
    w.call(d, 'save', 'device.p')
    ck.no_raise(I, n0, 'saving completes without raising')


def tables(ck):
    """the builders the plots call get the parameters the device stores"""
    p = Program(ck.root)
    n = 0
    for m in p.mods.values():
        if not m.rel.startswith('data'):
            continue
        for q, f, cls in p.functions(m):
            for c in ast.walk(f):
                if not (isinstance(c, ast.Call) and
                        isinstance(c.func, ast.Name)):
                    continue
                r = p.resolve(m, c.func.id)
                if not r or r[0] != 'def' or r[2].name not in GEO:
                    continue
                a = {}
                names = [x.arg for x in r[2].args.args]
                for k, v in list(zip(names, c.args)) + [
                        (k.arg, k.value) for k in c.keywords]:
                    a[k] = v
                if not all(isinstance(v, ast.Attribute) and
                           isinstance(v.value, ast.Name)
                           for v in a.values()):
                    continue
                order = dict(zip(names, GEO[r[2].name]))
                bad = [(k, v.attr) for k, v in a.items()
                       if order.get(k) != v.attr and not (
                           order.get(k) == 'eps_start' and
                           v.attr == 'eps_m')]
                n += 1
                ck.record('a drawn structure is built from the parameters '
                          'stored for it', not bad,
                          '%s:%d (%s)' % (m.rel, c.lineno, q), '%s' % bad)
    ck.record('structures are drawn from stored devices', n >= 1 or None,
              'data')


def order(ck):
    """builders take their parameters in the order the device stores them"""
    p = Program(ck.root)
    m = p.mods.get('angler.structures')
    for k, names in GEO.items():
        d = m.defs.get(k) if m else None
        if not d or len(d) != 1:
            ck.record('builder parameter order', None, 'angler/structures.py',
                      'no single builder %s' % k)
            continue
        a = [x.arg for x in d[0].args.args]
        perm = sorted(a) == sorted(names)
        ck.record('builder parameter order', tuple(a[:len(names)]) == names
                  or (False if perm else None),
                  'angler/structures.py:%d (%s)' % (d[0].lineno, k),
                  '%s, stored as %s' % (a, names))


def legends(ck, kind):
    """as many labels as spectra"""
    u = Dev(ck, kind, solved=False)
    w, I = u.w, u.I
    d = u.device()
    u.configure(d)
    n = 2 * PORTS[kind]
    k0 = len(I.events)
    n0 = len(I.pending)
    w.fcall('data.spectrum_plotter', 'plot_spectra', d,
            w.array('f', (P(5),), real=True), I.mklist(
                [w.array('sp%d' % k, (P(5),), real=True) for k in range(n)]))
    ck.no_raise(I, n0)
    ev = I.events[k0:]
    lg = [e for e in ev if str(e[0]).endswith('legend')]
    pl = [e for e in ev if str(e[0]).endswith('.plot')]
    W = SPEC + 'plot_spectra'
    ck.record('every spectrum is drawn', len(pl) == n or None if not pl
              else len(pl) == n, W, '%d drawn' % len(pl))
    if lg and lg[0][1]:
        lab = lg[0][1][0]
        try:
            lab = list(lab) if isinstance(lab, tuple) else list_items(w, lab)
        except Undecided:
            lab = None
        if lab is not None:
            ck.record('one label per spectrum, all different',
                      len(lab) == n == len(set(lab)), W, '%s' % (lab,))


def run(ck):
    ck.case('tables', tables)
    ck.case('builders', order)
    for k in GEO:
        ck.case('geometry %s' % k, geometry, k)
        for k2 in GEO:
            if k2 != k:
                ck.case('geometry %s after %s' % (k, k2), geometry, k, k2)
    ck.case('parameters', parameters)
    ck.case('unknown type', unknown_type)
    for k in GEO:
        ck.case('observation %s' % k, observe, k)
        ck.case('legend %s' % k, legends, k)
        for solved in (True, False):
            ck.case('copies %s%s' % (k, '' if solved else ', unsolved'),
                    copies, k, solved)
    for nl in (False, True):
        for n in (2, 3):
            ck.case('spectrum %d %s' % (n, 'high' if nl else 'low'),
                    spectrum, nl, n)


TECHNIQUE = ('abstract interpretation of the device scripts with the scans '
             'and power probes as observed calls; positional argument '
             'tables compared with the builder signatures')
NOTE = ('All structure types and geometry values; the scans the device calls '
        'are decided by C24, the flux probe by C07.')
