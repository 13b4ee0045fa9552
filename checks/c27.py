"""C27: every operation is well formed on every path.

Resolution rules over the syntax trees of the whole package and its device
scripts (sa/lint.py), plus: every choice an operation names is accepted."""
from sa.world import *
from sa.lint import Program

FLOOR = 1500
TECHNIQUE = ('static resolution of names, locals (flow-sensitive, per setting '
             'of the option flags), call signatures, unpacked results, '
             'attributes and library names over the syntax trees of the '
             'package and its device scripts; abstract interpretation of '
             'every advertised choice')
NOTE = ('Every function of angler/ and data/; a name, local, call or attribute '
        'is reported only when no execution reaching it can succeed for some '
        'setting of the option flags. Attributes are resolved for receivers '
        'whose class the code base names; library names against a table of '
        'the installed versions.')

RULES = {
    'names': 'every name is bound somewhere',
    'imports': 'every imported name exists',
    'locals': 'no local name is used before every path that could bind it',
    'calls': 'every call passes arguments its callee accepts',
    'unpack': 'every unpacked call returns that many values',
    'attrs': 'every attribute read is set somewhere',
    'literals': 'values are compared by equality',
    'formats': 'every message can be formatted',
}


def lints(ck):
    p = Program(ck.root)
    for rel, e in p.broken:
        ck.record('the source parses', False, rel, str(e))
    bad = p.issues()
    for m in p.mods.values():
        for q, f, _ in p.functions(m):
            ck.scanned.add('%s:%s' % (m.rel, q))
    by = {}
    for i in bad:
        by.setdefault(i.rule, []).append(i)
    ck.case_name = 'package and device scripts'
    for k, rule in RULES.items():
        n = p.counts[k] - len(by.get(rule, []))
        for _ in range(max(n, 0)):
            ck.record(rule, True, 'angler')
    for rule, l in by.items():
        for i in l:
            ck.record(rule, False, '%s:%d (%s)' % (i.rel, i.line, i.func),
                      i.text + '  [' + i.key + ']')


def choices(ck):
    """the choices operations name are all implemented"""
    def pol(ck, p):
        w = World(ck)
        n = len(w.I.pending)
        w.sim(p)
        ck.no_raise(w.I, n, "polarization '%s' is accepted" % p)

    for p in ('Ez', 'Hz'):
        ck.case('polarization ' + p, pol, p)

    def comp(ck, c, nl):
        w = World(ck)
        n = len(w.I.pending)
        A = w.glob('angler.objective', 'obj_arg')
        w.I.call(A, ['x'], dict(component=c, nl=nl))
        ck.no_raise(w.I, n, "component '%s' is accepted" % c)

    for c in ('Ex', 'Ey', 'Ez', 'Hx', 'Hy', 'Hz'):
        for nl in (False, True):
            ck.case('component %s%s' % (c, ' nonlinear' if nl else ''),
                    comp, c, nl)

    def style(ck, st):
        w = World(ck)
        s = w.sim('Ez')
        n = len(w.I.pending)
        w.call(s, 'init_design_region', w.design(s), EPSM, style=st)
        ck.no_raise(w.I, n, "style '%s' is accepted" % st)

    for st in ('full', 'halfway', 'empty', 'random', 'random_sym', ''):
        ck.case('style %r' % st, style, st)

    def norm(ck, k):
        w = World(ck)
        s = w.sim('Ez')
        o = w.optim(s, w.objective([('Ez', False)]))
        w.set(o, 'objfn_list', w.I.mklist([sym('J0'), sym('J1')]))
        w.set(o, 'src_amplitudes', w.I.mklist([sym('a0', pos=True),
                                               sym('a1', pos=True)]))
        n = len(w.I.pending)
        w.call(o, 'plt_objs', norm=k)
        ck.no_raise(w.I, n, "normalisation '%s' is accepted" % k)

    for k in (None, 'field', 'power'):
        ck.case('plot normalisation %s' % k, norm, k)


def run(ck):
    lints(ck)
    choices(ck)
