"""Obligations, verdicts and evidence of one property check."""
import ast
import json
import os
import signal
import sys
import time
import traceback
from .alg import *
from .arr import Arr, Mat, tainted, UNK
from . import sample
from .interp import loop_marks, Interp, Dead, Ref, Choice, Raised

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ROOT = '/repo'


class TimeUp(Exception):
    """an exact comparison took too long"""


class limit:
    """bound the wall time of a block"""

    def __init__(self, s):
        self.s = s

    def __enter__(self):
        def h(*_):
            raise TimeUp()
        self.old = signal.signal(signal.SIGALRM, h)
        self.prev = signal.alarm(self.s)
        self.t = time.time()

    def __exit__(self, *a):
        signal.alarm(0)
        signal.signal(signal.SIGALRM, self.old)
        if self.prev:
            signal.alarm(max(1, int(self.prev - (time.time() - self.t))))
        return False


class Skip(Exception):
    """case abandoned after its verdict was recorded"""


class Check:
    def __init__(self, pid, tier='quick', seed=1, root=ROOT, verbose=False):
        self.pid = pid
        self.tier = tier
        self.seed = seed
        self.root = root
        self.verbose = verbose
        self.obs = []            # (case, name, verdict, where, detail)
        self.case_name = ''
        self.interps = []
        self.rules = {}
        self.t0 = time.time()
        self.lines = {}
        self.crash = []
        self.missing = []
        self.scanned = set()
        self.thorough = tier == 'thorough'
        self.depth = 0
        self.budget = 6000 if self.thorough else 750
        self.case_limit = 1500 if self.thorough else 150

    # ------------------------------------------------------------- anchors
    def tree(self, rel):
        if rel not in self.lines:
            p = os.path.join(self.root, rel)
            try:
                with open(p) as f:
                    self.lines[rel] = ast.parse(f.read())
            except (OSError, SyntaxError):
                self.lines[rel] = None
        return self.lines[rel]

    def at(self, spec):
        """'angler/simulation.py:Simulation.solve_fields' -> with line"""
        if spec is None:
            return '?'
        if ':' not in spec:
            return spec
        rel, _, qual = spec.partition(':')
        if not qual or qual[0].isdigit():
            return spec
        t = self.tree(rel)
        if t is None:
            return spec
        body = t.body
        node = None
        for part in qual.split('.'):
            hit = None
            for n in ast.walk(ast.Module(body=body, type_ignores=[])) \
                    if node is not None else body:
                if isinstance(n, (ast.FunctionDef, ast.ClassDef)) \
                        and n.name == part:
                    hit = n
            if hit is None:
                return spec if node is None else \
                    '%s:%d (%s)' % (rel, node.lineno, qual)
            node = hit
            body = hit.body
        return '%s:%d (%s)' % (rel, node.lineno, qual)

    # ---------------------------------------------------------- obligations
    def record(self, name, verdict, where=None, detail='', rule=None):
        w = self.at(where)
        self.obs.append((self.case_name, name, verdict, w, detail))
        if self.verbose and (verdict is not True or self.verbose > 1):
            v = {True: 'ok', False: 'VIOLATED', None: 'undecided'}[verdict]
            print('  %-9s %s | %s | %s %s' % (
                v, self.case_name, name, w,
                detail[:2600] if verdict is not True else ''))
        return verdict

    def eq(self, name, got, want, where=None):
        """normal forms equal?"""
        try:
            g, w = self.norm(got), self.norm(want)
            v = self.decide(g, w)
        except Undecided as ex:
            return self.record(name, None, where, str(ex))
        d = ''
        if v is not True:
            d = 'computed %s, required %s' % (sh(got), sh(want))
        return self.record(name, v, where, d)

    def eq_grid(self, name, got, want, dims, where=None):
        """equality for every cell; sizes known exactly are enumerated"""
        small = [d for d, n in enumerate(dims)
                 if n.as_int() is not None and n.as_int() <= 9]
        pts = [{}]
        for d in small:
            pts = [{**p, d: k} for p in pts
                   for k in range(dims[d].as_int())]
        bad = None
        try:
            for p in pts:
                mp = {ixa(d): P(k) for d, k in p.items()}
                g, w = deep(got, mp), deep(want, mp)
                v = self.decide(g, w)
                if v is not True:
                    if bad is None or v is False:
                        bad = (v, p, g, w)
        except Undecided as ex:
            return self.record(name, None, where, str(ex))
        if bad is None:
            return self.record(name, True, where)
        return self.record(name, bad[0], where, 'at cell %s computed %s, '
                           'required %s' % (bad[1], sh(bad[2]), sh(bad[3])))

    def decide(self, g, w):
        """True: identical; False: refuted; None: neither"""
        poly = isinstance(g, Poly) and isinstance(w, Poly)
        if (g - w).is_zero() if poly else g == w:
            return True
        if tainted(g) or tainted(w) or loop_marks(g) - loop_marks(w):
            return None         # a loop summary has values not modelled
        if sum(1 for o in self.obs if o[2] is False) >= 6:
            return None         # enough to report already
        r = sample.refute(g, w) if poly else sample.refute_keys(g, w)
        if r is True:
            return False
        v = None
        if poly:
            try:
                with limit(20):
                    v = equal(g, w)
            except TimeUp:
                v = None
        if v is True:
            return True
        # not refuted: agreement in every interpretation tried
        return None if r is False or v is None else False

    def norm(self, v):
        if isinstance(v, (bool, int, float)):
            return P(v)
        if isinstance(v, Mat):
            return v.key()[3]
        if isinstance(v, Arr):
            return v.key()
        return v

    def holds(self, name, cond, where=None, detail=''):
        """cond: True/False/None or a 0/1 normal form"""
        if isinstance(cond, Poly):
            if cond == ONE:
                cond = True
            elif tainted(cond) or loop_marks(cond):
                cond = None
            elif cond == ZERO:
                cond = False
            else:
                detail = (detail + ' ' if detail else '') + \
                    'holds only when %s' % show(cond)
                cond = False
        return self.record(name, cond, where, detail)

    def case(self, name, f, *a, **kw):
        old = self.case_name
        self.case_name = (old + ' / ' if old else '') + name
        self.depth += 1
        try:
            if self.depth > 1:
                return f(self, *a, **kw)
            left = self.budget - (time.time() - self.t0)
            if left < 5:
                raise TimeUp()
            with limit(int(min(left, self.case_limit))):
                return f(self, *a, **kw)
        except TimeUp:
            if self.depth > 1:
                raise
            self.record('analysis', None, self.last_where(),
                        'not analysable in the time given')
        except Undecided as ex:
            self.record('analysis', None, getattr(ex, 'where', '?'),
                        'not analysable: %s' % ex)
        except Dead:
            r = [p for p in (self.interps[-1].pending
                             if self.interps else [])]
            r = r[-1] if r else None
            if r is None:
                self.record('analysis', None, None, 'no path survives')
            else:
                self.record('completes without raising', False, r.where,
                            'every path raises %s' % (r.exc,))
        except Skip:
            pass
        except RecursionError:
            self.record('analysis', None, self.last_where(),
                        'not analysable: recursion too deep')
        except Exception as ex:                            # noqa: B902
            tb = traceback.format_exc()
            self.crash.append(tb)
            if self.verbose:
                print(tb)
            self.record('analysis', None, self.last_where(),
                        'analysis limitation: %s: %s'
                        % (type(ex).__name__, ex))
        finally:
            self.case_name = old
            self.depth -= 1

    def last_where(self):
        if self.interps:
            n = self.interps[-1].nodes
            if n:
                return '%s:%s' % (n[-1][0], getattr(n[-1][1], 'lineno', '?'))
        return '?'

    def interp(self, **cfg):
        I = Interp(self.root, cfg)
        self.interps.append(I)
        return I

    def no_raise(self, I, n0=0, name='completes without raising'):
        """no (conditional) exception recorded since n0 pending items"""
        bad = [p for p in I.pending[n0:]]
        if not bad:
            return self.record(name, True)
        p = bad[0]
        return self.record(name, None if tainted(p.cond) or loop_marks(p.cond) else False, p.where,
                           'raises %s when %s' % (p.exc, show(p.cond)))

    # --------------------------------------------------------------- finish
    def finish(self, floor=1):
        known = load_known(self.pid)
        bad = [o for o in self.obs if o[2] is False]
        ok = [o for o in self.obs if o[2] is True]
        und = [o for o in self.obs if o[2] is None]
        funcs = set()
        for I in self.interps:
            funcs |= I.functions
        funcs |= self.scanned
        new, seen = [], []
        for o in bad:
            k = [x for x in known if matches(x, o)]
            (seen if k else new).append((o, k))
        for o, k in seen:
            print('KNOWN-FINDING: property=%s %s' % (self.pid, k[0]['what']))
        for o in und:
            print('UNDECIDED %s | %s | %s | %s' % (
                o[0], o[1], o[3], o[4][:300]))
        ev = dict(property=self.pid, tier=self.tier, seed=self.seed,
                  level='other', wall_s=round(time.time() - self.t0, 3),
                  coverage=dict(
                      explanation='Static value-flow analysis of the current '
                      'source: the listed functions were abstractly '
                      'interpreted on symbolic arguments and every listed '
                      'obligation is an identity (or effect fact) between '
                      'the resulting normal forms; nothing was executed.',
                      obligations=len(self.obs), discharged=len(ok),
                      undecided=len(und), violated=len(bad),
                      functions_analysed=sorted(
                          str(f) for f in funcs),
                      functions_count=len(funcs),
                      abstract_calls=sum(I.ncalls for I in self.interps),
                      cases=sorted(set(o[0] for o in self.obs)),
                      rules=sorted(set(o[1] for o in self.obs)),
                      samples=[dict(case=o[0], rule=o[1], where=o[3],
                                    verdict='discharged')
                               for o in ok[:40]],
                      undecided_obligations=[
                          dict(case=o[0], rule=o[1], where=o[3],
                               reason=o[4][:300]) for o in und]))
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if self.crash and self.verbose:
            print(self.crash[-1])
        if new:
            rp = os.path.join(d, self.pid + '.violations.json')
            with open(rp, 'w') as f:
                json.dump([dict(case=o[0], rule=o[1], where=o[3],
                                detail=o[4]) for o, _ in new], f, indent=1)
            for o, _ in new[:8]:
                print('  %s: %s: rule "%s" violated%s\n      %s' % (
                    o[3], self.pid, o[1], ' [%s]' % o[0] if o[0] else '',
                    o[4][:800]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            return 1
        print('%s: %d obligations, %d discharged, %d undecided, '
              '%d known findings, %d functions analysed, %.1f s' % (
                  self.pid, len(self.obs), len(ok), len(und), len(seen),
                  len(funcs), time.time() - self.t0))
        if len(ok) < floor:
            print('NO ANSWER property=%s: only %d of at least %d obligations '
                  'could be decided' % (self.pid, len(ok), floor))
            return 2
        return 0


def sh(v):
    if isinstance(v, Poly):
        return show(v)
    return str(v)[:400]


def load_known(pid):
    p = os.path.join(VERIF, 'known_findings.json')
    try:
        with open(p) as f:
            d = json.load(f)
    except OSError:
        return []
    return [x for x in d.get('findings', []) if x['property'] == pid]


def matches(k, o):
    """a listed finding: same rule, and the listed text in place or detail"""
    return k['rule'] == o[1] and k['where'] in o[3] and \
        k.get('detail', '') in o[4]
