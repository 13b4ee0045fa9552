"""Name, binding, call and attribute resolution over the syntax trees.

Everything here decides facts that hold on *every* execution of a construct
(a name bound nowhere, a local variable no path has assigned, a call no
signature accepts), so a report never depends on how the code is phrased."""
import ast
import builtins
import itertools
import json
import os
import symtable
import warnings

warnings.simplefilter('ignore', SyntaxWarning)

HERE = os.path.dirname(os.path.abspath(__file__))
NAMES = json.load(open(os.path.join(HERE, 'data', 'names.json')))
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__',
                                 '__path__', '__builtins__', 'WindowsError'}
MODULE_ATTRS = {'__name__', '__file__', '__doc__', '__dict__', '__path__'}

# receivers that, by the naming of this code base, hold one of its objects
KINDS = {'simulation': 'Simulation', 'sim': 'Simulation',
         'sim_new': 'Simulation', 'simulation_norm': 'Simulation',
         'optimization': 'Optimization', 'opt': 'Optimization',
         'objective': 'Objective'}


class Issue:
    def __init__(self, rule, rel, line, func, text, key):
        self.rule, self.rel, self.line, self.func = rule, rel, line, func
        self.text, self.key = text, key


def is_main_guard(n):
    return isinstance(n, ast.If) and isinstance(n.test, ast.Compare) and \
        isinstance(n.test.left, ast.Name) and n.test.left.id == '__name__'


def target_names(t):
    for x in ast.walk(t):
        if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
            yield x.id


def bound_in(body, skip_main=False):
    """names a statement list binds in its own scope"""
    out, stars = set(), []

    def visit(n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef,
                          ast.AsyncFunctionDef)):
            out.add(n.name)
            for d in n.decorator_list:
                visit(d)
            return
        if isinstance(n, ast.Lambda):
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Import):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
            return
        if isinstance(n, ast.ImportFrom):
            for a in n.names:
                if a.name == '*':
                    stars.append(n)
                else:
                    out.add(a.asname or a.name)
            return
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if skip_main and is_main_guard(n):
            return
        for c in ast.iter_child_nodes(n):
            visit(c)

    for s in body:
        visit(s)
    return out, stars


def free_loads(body):
    """names module level code reads outside any comprehension's targets"""
    def visit(n, bound):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Lambda)):
            for d in getattr(n, 'decorator_list', []):
                yield from visit(d, bound)
            a = getattr(n, 'args', None)
            if a is not None:
                for d in a.defaults + [x for x in a.kw_defaults if x]:
                    yield from visit(d, bound)
            for b in getattr(n, 'bases', []):
                yield from visit(b, bound)
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                          ast.GeneratorExp)):
            b = bound | {x for g in n.generators
                         for x in target_names(g.target)}
            for c in ast.iter_child_nodes(n):
                yield from visit(c, b)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                n.id not in bound:
            yield n.id
        for c in ast.iter_child_nodes(n):
            yield from visit(c, bound)
    for s in body:
        yield from visit(s, set())


class Module:
    def __init__(self, prog, rel, name):
        self.prog, self.rel, self.name = prog, rel, name
        with open(os.path.join(prog.root, rel)) as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.names, self.stars = bound_in(self.tree.body, skip_main=True)
        self.main_names, main_stars = bound_in(self.tree.body)
        for n in ast.walk(self.tree):
            if isinstance(n, ast.Global):
                self.names |= set(n.names)
        self.open = False
        self._all = None
        self._busy = False
        self.defs = {}
        self.imports = {}
        for n in self.toplevel(self.tree.body):
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs.setdefault(n.name, []).append(n)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    if a.asname:
                        self.imports[a.asname] = ('mod', a.name)
                    else:
                        self.imports[a.name.split('.')[0]] = \
                            ('mod', a.name.split('.')[0])
            elif isinstance(n, ast.ImportFrom):
                m = prog.absolute(self, n)
                for a in n.names:
                    if a.name != '*':
                        self.imports[a.asname or a.name] = ('from', m, a.name)

    @staticmethod
    def toplevel(body):
        for n in body:
            yield n
            if isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for f in ('body', 'orelse', 'finalbody'):
                    yield from Module.toplevel(getattr(n, f, []))
                for h in getattr(n, 'handlers', []):
                    yield from Module.toplevel(h.body)

    def all_names(self):
        """every name of the module once loaded; None when unknowable"""
        if self._all is None:
            if self._busy:
                return set(self.names)
            self._busy = True
            out = set(self.names)
            for s in self.stars:
                m = self.prog.absolute(self, s)
                got = self.prog.public(m)
                if got is None:
                    self.open = True
                else:
                    out |= got
            self._all = out
            self._busy = False
        return self._all


class Program:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.broken = []
        for top in ('angler', 'data'):
            base = os.path.join(root, top)
            for d, _, fs in sorted(os.walk(base)):
                if '__pycache__' in d:
                    continue
                for f in sorted(fs):
                    if not f.endswith('.py'):
                        continue
                    rel = os.path.relpath(os.path.join(d, f), root)
                    name = rel[:-3].replace(os.sep, '.')
                    if top == 'data':
                        name = name[len('data.'):]
                    if name.endswith('.__init__'):
                        name = name[:-9]
                    try:
                        self.mods[name] = Module(self, rel, name)
                    except SyntaxError as e:
                        self.broken.append((rel, e))
        self.attrs_cache = None
        self.collect()

    # -------------------------------------------------------------- modules
    def absolute(self, mod, n):
        if n.level:
            pkg = mod.name if mod.rel.endswith('__init__.py') else \
                mod.name.rsplit('.', 1)[0]
            for _ in range(n.level - 1):
                pkg = pkg.rsplit('.', 1)[0]
            return pkg + ('.' + n.module if n.module else '')
        return n.module

    def public(self, m):
        if m in self.mods:
            got = self.mods[m].all_names()
            if self.mods[m].open:
                return None
            return {x for x in got if not x.startswith('_')} | \
                self.submodules(m)
        if m in NAMES:
            return {x for x in NAMES[m] if not x.startswith('_')}
        return None

    def submodules(self, m):
        return {k[len(m) + 1:].split('.')[0] for k in self.mods
                if k.startswith(m + '.')}

    def resolve(self, mod, name, depth=0):
        """('def', Module, node) / ('mod', dotted) / None"""
        if depth > 8:
            return None
        if name in mod.defs:
            if len(mod.defs[name]) != 1:
                return None
            # also assigned?  then it is not just that definition
            for n in ast.walk(mod.tree):
                if isinstance(n, ast.Name) and n.id == name and \
                        isinstance(n.ctx, ast.Store):
                    return None
            return ('def', mod, mod.defs[name][0])
        if name in mod.imports:
            i = mod.imports[name]
            if i[0] == 'mod':
                return ('mod', i[1])
            _, m, nm = i
            if m in self.mods:
                if nm in self.mods[m].defs or nm in self.mods[m].imports:
                    return self.resolve(self.mods[m], nm, depth + 1)
                if m + '.' + nm in self.mods:
                    return ('mod', m + '.' + nm)
                if nm in self.mods[m].all_names():
                    return self.resolve(self.mods[m], nm, depth + 1)
            if m is not None and m + '.' + nm in NAMES:
                return ('mod', m + '.' + nm)
            return None
        hits = []
        for s in mod.stars:
            m = self.absolute(mod, s)
            if m in self.mods and name in self.mods[m].all_names():
                r = self.resolve(self.mods[m], name, depth + 1)
                if r is not None:
                    hits.append(r)
            elif m not in self.mods and (m not in NAMES
                                         or name in NAMES[m]):
                return None
        ids = {id(h[2]) if h[0] == 'def' else h[1] for h in hits}
        return hits[0] if len(ids) == 1 else None

    # -------------------------------------------------------------- classes
    def collect(self):
        self.classes = {}
        self.stores = set()
        self.method_owner = {}
        self.dynamic = False
        for m in self.mods.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.ClassDef):
                    self.classes.setdefault(n.name, []).append((m, n))
                elif isinstance(n, ast.Attribute) and \
                        isinstance(n.ctx, ast.Store):
                    self.stores.add(n.attr)
                elif isinstance(n, ast.Call) and \
                        isinstance(n.func, ast.Name) and \
                        n.func.id == 'setattr':
                    if len(n.args) > 1 and isinstance(n.args[1],
                                                      ast.Constant):
                        self.stores.add(n.args[1].value)
                    else:
                        self.dynamic = True
                elif isinstance(n, ast.Attribute) and n.attr == '__dict__':
                    if not self.readonly_dict(m, n):
                        self.dynamic = True
        for c, l in self.classes.items():
            for m, n in l:
                for x in n.body:
                    if isinstance(x, ast.FunctionDef):
                        self.method_owner.setdefault(x.name, set()).add(c)

    @staticmethod
    def readonly_dict(m, node):
        """obj.__dict__ handed to a call is a read (pickle.dump)"""
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Call) and node in n.args:
                return True
        return False

    def plain(self, cname):
        """the class, when it is unique and has no bases to inherit from"""
        l = self.classes.get(cname, [])
        if len(l) != 1:
            return None
        m, n = l[0]
        for b in n.bases:
            if not (isinstance(b, ast.Name) and b.id == 'object'):
                return None
        if n.keywords or n.decorator_list:
            return None
        for x in n.body:
            if isinstance(x, ast.FunctionDef) and x.name in (
                    '__getattr__', '__getattribute__'):
                return None
        return m, n

    def members(self, cname):
        p = self.plain(cname)
        if p is None or self.dynamic:
            return None
        out = set(dir(object)) | {'__dict__', '__class__', '__module__'}
        b, _ = bound_in(p[1].body)
        return out | b | self.stores

    def method(self, cname, name):
        p = self.plain(cname)
        if p is None or name in self.stores:
            return None
        hit = [x for x in p[1].body if isinstance(x, ast.FunctionDef)
               and x.name == name]
        return (p[0], hit[0]) if len(hit) == 1 else None

    # ---------------------------------------------------------------- rules
    def issues(self):
        self.counts = dict(names=0, locals=0, calls=0, unpack=0, attrs=0,
                           literals=0, formats=0, imports=0)
        out = []
        for m in self.mods.values():
            for r in (self.undefined, self.imports_exist, self.unbound,
                      self.bad_calls, self.bad_attrs, self.identity,
                      self.formats):
                out += r(m)
        return out

    def functions(self, mod):
        """(qualified name, node, class name or None)"""
        def go(body, prefix, cls):
            for n in body:
                if isinstance(n, ast.FunctionDef):
                    yield prefix + n.name, n, cls
                    yield from go(n.body, prefix + n.name + '.', cls)
                elif isinstance(n, ast.ClassDef):
                    yield from go(n.body, prefix + n.name + '.', n.name)
                elif isinstance(n, ast.stmt):
                    for f in ('body', 'orelse', 'finalbody'):
                        yield from go(getattr(n, f, []) or [], prefix, cls)
                    for h in getattr(n, 'handlers', []):
                        yield from go(h.body, prefix, cls)
        yield from go(mod.tree.body, '', None)

    def owner(self, mod, node):
        best = ('<module>', None, None)
        for q, f, c in self.functions(mod):
            if f.lineno <= node.lineno <= (f.end_lineno or f.lineno):
                best = (q, f, c)
        return best

    # names bound nowhere
    def undefined(self, mod):
        out = []
        known = mod.all_names()
        if mod.open:
            return out
        st = symtable.symtable(mod.src, mod.rel, 'exec')
        main = [n for n in mod.tree.body if is_main_guard(n)]

        def in_main(line):
            return any(n.lineno <= line <= n.end_lineno for n in main)

        uses = {}
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                uses.setdefault(n.id, []).append(n.lineno)

        top = set(free_loads(mod.tree.body))

        # __class__ style names and class scopes are handled by symtable
        def walk(t, q):
            for s in t.get_symbols():
                if not s.is_referenced():
                    continue
                nm = s.get_name()
                if t.get_type() == 'module':
                    glob = True
                else:
                    glob = s.is_global()
                if not glob:
                    continue
                if t.get_type() == 'module' and nm not in top:
                    continue       # (a name of an inlined comprehension)
                self.counts['names'] += 1
                ok = known | BUILTINS
                if in_main(t.get_lineno()) or t.get_type() == 'module':
                    ok = ok | mod.main_names
                if nm in ok:
                    continue
                last = t.get_lineno()
                lines = [l for l in uses.get(nm, []) if l >= last] or \
                    uses.get(nm, [last])
                out.append(Issue('every name is bound somewhere', mod.rel,
                                 lines[0], q or '<module>',
                                 "name '%s' is bound nowhere" % nm,
                                 '%s:%s:%s' % (mod.rel, q, nm)))
            for c in t.get_children():
                if c.get_type() in ('function', 'class') or \
                        str(c.get_type()).endswith(('FUNCTION', 'CLASS')):
                    walk(c, (q + '.' if q else '') + c.get_name())
        walk(st, '')
        return out

    def imports_exist(self, mod):
        out = []
        guarded = set()
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Try):
                for x in ast.walk(ast.Module(body=n.body, type_ignores=[])):
                    guarded.add(id(x))
        for n in ast.walk(mod.tree):
            if not isinstance(n, ast.ImportFrom) or id(n) in guarded:
                continue
            m = self.absolute(mod, n)
            for a in n.names:
                if a.name == '*':
                    continue
                self.counts['imports'] += 1
                if m in self.mods:
                    ok = a.name in self.mods[m].all_names() or \
                        self.mods[m].open or a.name in self.submodules(m)
                elif m in NAMES:
                    ok = a.name in NAMES[m] or m + '.' + a.name in NAMES
                elif m and m.split('.')[0] == 'angler':
                    ok = False
                else:
                    ok = True
                if not ok:
                    out.append(Issue(
                        'every imported name exists', mod.rel, n.lineno,
                        '<module>', "'%s' has no '%s'" % (m, a.name),
                        '%s:%s.%s' % (mod.rel, m, a.name)))
        return out

    # locals no path has assigned, for some setting of the option flags
    def unbound(self, mod):
        out = []
        for q, f, _ in self.functions(mod):
            st, _ = bound_in(f.body)
            gl = set()
            for n in ast.walk(f):
                if isinstance(n, (ast.Global, ast.Nonlocal)):
                    gl |= set(n.names)
            a = f.args
            params = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            for v in (a.vararg, a.kwarg):
                if v:
                    params.add(v.arg)
            loc = st - gl
            self.counts['locals'] += len(loc)
            seen = set()
            for flags in self.settings(f, params, loc):
                w = Flow(loc, flags)
                w.run(f.body, set(params))
                for nm, line in w.bad:
                    if (nm, line) in seen:
                        continue
                    seen.add((nm, line))
                    cond = ', '.join('%s %s' % (k, v)
                                     for k, v in sorted(flags.items()))
                    out.append(Issue(
                        'no local name is used before every path that '
                        'could bind it', mod.rel, line, q,
                        "local '%s' is never bound here%s" % (
                            nm, ' with ' + cond if cond else ''),
                        '%s:%s:%s' % (mod.rel, q, nm)))
        return out

    def settings(self, f, params, loc):
        """assignments to the option flags the function branches on"""
        flags = {}
        for n in ast.walk(f):
            if isinstance(n, (ast.If, ast.IfExp)):
                for x in atoms(n.test):
                    k = flag(x)
                    if k:
                        flags.setdefault(k[0], set()).add(k[1])
        assigned = set()
        for n in ast.walk(f):
            if isinstance(n, (ast.Name, ast.Attribute)) and \
                    isinstance(n.ctx, ast.Store):
                assigned.add(ast.unparse(n))
        keep = []
        for k, kinds in sorted(flags.items()):
            if k in assigned or len(keep) >= 6:
                continue
            root = k.split('.')[0]
            if root not in params:
                continue
            if '.' in k and (root != 'self' or kinds != {'none'}):
                continue
            keep.append((k, ('None', 'given') if 'none' in kinds
                         else ('true', 'false')))
        yield {}
        for combo in itertools.product(*[v for _, v in keep]):
            if combo:
                yield dict(zip([k for k, _ in keep], combo))

    # calls no signature accepts
    def bad_calls(self, mod):
        out = []
        for q, f, cls in [('<module>', mod.tree, None)] + \
                list(self.functions(mod)):
            local = set()
            if f is not mod.tree:
                local, _ = bound_in(f.body)
                local |= {x.arg for x in ast.walk(f)
                          if isinstance(x, ast.arg)}
                # names of enclosing functions
                for q2, f2, _ in self.functions(mod):
                    if f2 is not f and f2.lineno <= f.lineno and \
                            f2.end_lineno >= f.end_lineno:
                        b2, _ = bound_in(f2.body)
                        local |= b2 | {x.arg for x in ast.walk(f2.args)
                                       if isinstance(x, ast.arg)}
            for n in own_nodes(f):
                if isinstance(n, ast.Call):
                    t = self.callee(mod, n.func, cls, local)
                    if t is None:
                        continue
                    self.counts['calls'] += 1
                    why = accepts(t[1], n, t[2])
                    if why:
                        out.append(Issue(
                            'every call passes arguments its callee accepts',
                            mod.rel, n.lineno, q, '%s(...): %s' % (
                                ast.unparse(n.func), why),
                            '%s:%s:%s' % (mod.rel, q, ast.unparse(n.func))))
                elif isinstance(n, ast.Assign) and \
                        isinstance(n.value, ast.Call) and \
                        len(n.targets) == 1 and \
                        isinstance(n.targets[0], (ast.Tuple, ast.List)):
                    t = self.callee(mod, n.value.func, cls, local)
                    if t is None or isinstance(t[1], ast.ClassDef):
                        continue
                    lens = returned(t[1])
                    if lens is None:
                        continue
                    self.counts['unpack'] += 1
                    el = n.targets[0].elts
                    star = any(isinstance(e, ast.Starred) for e in el)
                    k = len(el) - star
                    if not any(k == x or (star and k <= x) for x in lens):
                        out.append(Issue(
                            'every unpacked call returns that many values',
                            mod.rel, n.lineno, q,
                            '%d names for the %s values of %s' % (
                                len(el), sorted(lens),
                                ast.unparse(n.value.func)),
                            '%s:%s:unpack %s' % (
                                mod.rel, q, ast.unparse(n.value.func))))
        return out

    def kind(self, e, cls):
        if isinstance(e, ast.Name):
            return cls if e.id == 'self' else KINDS.get(e.id)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return KINDS.get(e.attr)
        return None

    def callee(self, mod, fn, cls, local):
        """(module, definition, bound)"""
        if isinstance(fn, ast.Name):
            if fn.id in local:
                return None
            r = self.resolve(mod, fn.id)
            if r and r[0] == 'def':
                d = r[2]
                if d.decorator_list:
                    return None
                if isinstance(d, ast.ClassDef):
                    return self.ctor(r[1], d)
                return (r[1], d, False)
            return None
        if isinstance(fn, ast.Attribute):
            c = self.kind(fn.value, cls)
            if c is None:
                own = self.method_owner.get(fn.attr, set())
                if isinstance(fn.value, ast.Name):
                    if fn.value.id not in local:
                        r = self.resolve(mod, fn.value.id)
                        if r and r[0] == 'mod' and r[1] in self.mods:
                            r2 = self.resolve(self.mods[r[1]], fn.attr)
                            if r2 and r2[0] == 'def' and \
                                    not r2[2].decorator_list:
                                if isinstance(r2[2], ast.ClassDef):
                                    return self.ctor(r2[1], r2[2])
                                return (r2[1], r2[2], False)
                return None
            got = self.method(c, fn.attr)
            if got is None:
                return None
            deco = [ast.unparse(d) for d in got[1].decorator_list]
            if deco == ['staticmethod']:
                return (got[0], got[1], False)
            if deco:
                return None
            return (got[0], got[1], True)
        return None

    def ctor(self, m, d):
        if self.plain(d.name) is None:
            return None
        init = [x for x in d.body if isinstance(x, ast.FunctionDef)
                and x.name == '__init__']
        if len(init) != 1 or any(isinstance(x, ast.FunctionDef)
                                 and x.name == '__new__' for x in d.body):
            return None
        return (m, init[0], True)

    # attributes
    def bad_attrs(self, mod):
        out = []
        for q, f, cls in [('<module>', mod.tree, None)] + \
                list(self.functions(mod)):
            local = set()
            if f is not mod.tree:
                local, _ = bound_in(f.body)
                local |= {x.arg for x in ast.walk(f)
                          if isinstance(x, ast.arg)}
            hasattrs = {x.args[1].value for x in ast.walk(f)
                        if isinstance(x, ast.Call)
                        and isinstance(x.func, ast.Name)
                        and x.func.id in ('hasattr', 'getattr')
                        and len(x.args) > 1
                        and isinstance(x.args[1], ast.Constant)}
            for n in own_nodes(f):
                if not (isinstance(n, ast.Attribute)
                        and isinstance(n.ctx, ast.Load)):
                    continue
                if n.attr in hasattrs or n.attr.startswith('__'):
                    continue
                c = self.kind(n.value, cls)
                if c is not None and c in self.classes:
                    mem = self.members(c)
                    if mem is None:
                        continue
                    self.counts['attrs'] += 1
                    if n.attr not in mem:
                        out.append(Issue(
                            'every attribute read is set somewhere', mod.rel,
                            n.lineno, q, "%s: no %s object ever gets an "
                            "attribute '%s'" % (ast.unparse(n), c, n.attr),
                            '%s:%s:%s' % (mod.rel, q, ast.unparse(n))))
                    continue
                d = self.dotted(mod, n.value, local)
                if d is None:
                    continue
                if d in NAMES:
                    have = set(NAMES[d]) | {
                        k[len(d) + 1:].split('.')[0] for k in NAMES
                        if k.startswith(d + '.')}
                elif d in self.mods:
                    have = self.mods[d].all_names() | self.submodules(d)
                    if self.mods[d].open:
                        continue
                else:
                    continue
                self.counts['attrs'] += 1
                if n.attr not in have:
                    out.append(Issue(
                        'every library name used exists', mod.rel, n.lineno,
                        q, "module '%s' has no '%s'" % (d, n.attr),
                        '%s:%s:%s' % (mod.rel, q, ast.unparse(n))))
        return out

    def dotted(self, mod, e, local):
        if isinstance(e, ast.Name):
            if e.id in local:
                return None
            for x in ast.walk(mod.tree):
                if isinstance(x, ast.Name) and x.id == e.id and \
                        not isinstance(x.ctx, ast.Load):
                    return None
                if isinstance(x, ast.arg) and x.arg == e.id:
                    return None
            r = self.resolve(mod, e.id)
            return r[1] if r and r[0] == 'mod' else None
        if isinstance(e, ast.Attribute):
            b = self.dotted(mod, e.value, local)
            if b is None:
                return None
            d = b + '.' + e.attr
            return d if d in NAMES or d in self.mods else None
        return None

    # comparisons
    def identity(self, mod):
        out = []
        for n in ast.walk(mod.tree):
            if not isinstance(n, ast.Compare):
                continue
            terms = [n.left] + n.comparators
            self.counts['literals'] += 1
            for i, op in enumerate(n.ops):
                if not isinstance(op, (ast.Is, ast.IsNot)):
                    continue
                for t in (terms[i], terms[i + 1]):
                    if isinstance(t, (ast.List, ast.Dict, ast.Set,
                                      ast.Tuple, ast.JoinedStr)) or (
                            isinstance(t, ast.Constant) and
                            isinstance(t.value, (str, bytes, int, float,
                                                 complex))
                            and not isinstance(t.value, bool)):
                        q = self.owner(mod, n)[0]
                        out.append(Issue(
                            'values are compared by equality', mod.rel,
                            n.lineno, q, ast.unparse(n),
                            '%s:%s:%s' % (mod.rel, q, ast.unparse(n))))
        return out

    # messages
    def formats(self, mod):
        import string
        out = []
        for n in ast.walk(mod.tree):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) \
                    and n.func.attr == 'format' and \
                    isinstance(n.func.value, ast.Constant) and \
                    isinstance(n.func.value.value, str):
                if any(isinstance(a, ast.Starred) for a in n.args) or \
                        any(k.arg is None for k in n.keywords):
                    continue
                self.counts['formats'] += 1
                why = None
                try:
                    auto, top, names = 0, -1, set()
                    for _, fld, spec, _ in string.Formatter().parse(
                            n.func.value.value):
                        if fld is None:
                            continue
                        head = fld.split('.')[0].split('[')[0]
                        if head == '':
                            top = max(top, auto)
                            auto += 1
                        elif head.isdigit():
                            top = max(top, int(head))
                        else:
                            names.add(head)
                    if top >= len(n.args):
                        why = 'placeholder %d of %d arguments' % (
                            top + 1, len(n.args))
                    miss = names - {k.arg for k in n.keywords}
                    if miss:
                        why = 'no argument for {%s}' % sorted(miss)[0]
                except ValueError as e:
                    why = str(e)
                if why:
                    q = self.owner(mod, n)[0]
                    out.append(Issue(
                        'every message can be formatted', mod.rel, n.lineno,
                        q, why, '%s:%s:%r' % (mod.rel, q,
                                              n.func.value.value[:40])))
            elif isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and \
                    isinstance(n.left, ast.Constant) and \
                    isinstance(n.left.value, str) and \
                    isinstance(n.right, ast.Tuple):
                import re
                if '%(' in n.left.value or '*' in n.left.value or \
                        any(isinstance(e, ast.Starred)
                            for e in n.right.elts):
                    continue
                self.counts['formats'] += 1
                k = len(re.findall(r'%[-+ #0]*\d*(?:\.\d+)?[a-zA-Z]',
                                   n.left.value.replace('%%', '')))
                if k != len(n.right.elts):
                    q = self.owner(mod, n)[0]
                    out.append(Issue(
                        'every message can be formatted', mod.rel, n.lineno,
                        q, '%d placeholders, %d values' % (
                            k, len(n.right.elts)),
                        '%s:%s:%r' % (mod.rel, q, n.left.value[:40])))
        return out


def own_nodes(f):
    """nodes executed as part of this function or module (nested functions
    are listed separately; lambdas and comprehensions belong to it)"""
    stack = list(ast.iter_child_nodes(f)) if isinstance(f, ast.Module) else \
        list(f.body)
    while stack:
        n = stack.pop()
        if isinstance(n, ast.FunctionDef):
            stack += n.decorator_list + n.args.defaults + \
                [d for d in n.args.kw_defaults if d]
            continue
        if isinstance(n, ast.ClassDef):
            stack += [x for x in n.body
                      if not isinstance(x, ast.FunctionDef)]
            continue
        yield n
        stack += list(ast.iter_child_nodes(n))


def accepts(d, call, bound):
    """None when the call fits the signature, else what does not fit"""
    a = d.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    if bound:
        pos = pos[1:]
    kwonly = [x.arg for x in a.kwonlyargs]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    npos = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if npos > len(pos) and not a.vararg:
        return 'takes %d positional arguments, given %d' % (len(pos), npos)
    given = set(pos[:npos])
    ponly = {x.arg for x in a.posonlyargs}
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return "argument '%s' given twice" % k.arg
        if (k.arg not in pos or k.arg in ponly) and k.arg not in kwonly \
                and not a.kwarg:
            return "no argument named '%s'" % k.arg
        given.add(k.arg)
    if star or dstar:
        return None
    nreq = len(pos) - len(a.defaults)
    for x in pos[:max(nreq, 0)]:
        if x not in given:
            return "argument '%s' is missing" % x
    for x, dv in zip(kwonly, a.kw_defaults):
        if dv is None and x not in given:
            return "argument '%s' is missing" % x
    return None


def returned(f):
    """lengths of the tuples a function returns; None when not all known"""
    lens = set()
    gen = False
    for n in own_nodes(f):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            gen = True
        if isinstance(n, ast.Return):
            if not isinstance(n.value, ast.Tuple) or any(
                    isinstance(e, ast.Starred) for e in n.value.elts):
                return None
            lens.add(len(n.value.elts))
    return lens if lens and not gen else None


def atoms(t):
    if isinstance(t, ast.BoolOp):
        for v in t.values:
            yield from atoms(v)
    elif isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        yield from atoms(t.operand)
    else:
        yield t


def flag(x):
    """(expression, 'bool' / 'none') of a test on an option"""
    if isinstance(x, ast.Name):
        return x.id, 'bool'
    if isinstance(x, ast.Compare) and len(x.ops) == 1 and \
            isinstance(x.comparators[0], ast.Constant):
        l = x.left
        if not (isinstance(l, ast.Name) or isinstance(l, ast.Attribute)):
            return None
        c, op = x.comparators[0].value, x.ops[0]
        if c is None and isinstance(op, (ast.Is, ast.IsNot)):
            return ast.unparse(l), 'none'
        if isinstance(c, bool) and isinstance(op, (ast.Eq, ast.Is)) \
                and isinstance(l, ast.Name):
            return l.id, 'bool'
    return None


class Flow:
    """which locals some path has bound, under a setting of the flags"""

    def __init__(self, loc, flags):
        self.loc, self.flags = loc, flags
        self.bad = []

    def test(self, t):
        """True / False / None"""
        if isinstance(t, ast.BoolOp):
            vs = [self.test(v) for v in t.values]
            if isinstance(t.op, ast.And):
                return False if False in vs else \
                    True if all(v is True for v in vs) else None
            return True if True in vs else \
                False if all(v is False for v in vs) else None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            v = self.test(t.operand)
            return None if v is None else not v
        if isinstance(t, ast.Constant):
            return bool(t.value)
        k = flag(t)
        if not k or k[0] not in self.flags:
            return None
        v = self.flags[k[0]]
        if k[1] == 'none':
            if v not in ('None', 'given'):
                return None
            r = v == 'None'
            return r if isinstance(t.ops[0], ast.Is) else not r
        if isinstance(t, ast.Name):
            return {'true': True, 'false': False, 'None': False,
                    'given': None}[v]
        if v in ('true', 'false'):
            return (v == 'true') == t.comparators[0].value
        return None

    def use(self, e, s):
        """reads inside an expression evaluated now"""
        if e is None:
            return
        stack = [(e, frozenset())]
        while stack:
            n, hid = stack.pop()
            if isinstance(n, ast.Lambda):
                # the body runs later; defaults run now
                stack += [(d, hid) for d in n.args.defaults]
                continue
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp,
                              ast.GeneratorExp)):
                h = hid | {x for g in n.generators
                           for x in target_names(g.target)}
                stack.append((n.generators[0].iter, hid))
                if isinstance(n, ast.GeneratorExp):
                    continue
                for c in ast.iter_child_nodes(n):
                    if isinstance(c, ast.comprehension):
                        for i in c.ifs:
                            stack.append((i, h))
                        if c is not n.generators[0]:
                            stack.append((c.iter, h))
                    else:
                        stack.append((c, h))
                continue
            if isinstance(n, ast.NamedExpr):
                s.add(n.target.id)
                stack.append((n.value, hid))
                continue
            if isinstance(n, ast.IfExp):
                v = self.test(n.test)
                stack.append((n.test, hid))
                if v is not False:
                    stack.append((n.body, hid))
                if v is not True:
                    stack.append((n.orelse, hid))
                continue
            if isinstance(n, ast.BoolOp):
                # later operands may not be reached
                stack.append((n.values[0], hid))
                for v in n.values[1:]:
                    if self.test(n.values[0]) is isinstance(n.op, ast.And):
                        stack.append((v, hid))
                continue
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and \
                    n.id in self.loc and n.id not in hid and n.id not in s:
                self.bad.append((n.id, n.lineno))
            stack += [(c, hid) for c in ast.iter_child_nodes(n)]

    def run(self, body, s):
        """s: names some path has bound; returns None when no path goes on"""
        for st in body:
            s = self.stmt(st, s)
            if s is None:
                return None
        return s

    def join(self, a, b):
        if a is None:
            return b
        if b is None:
            return a
        return a | b

    def stmt(self, n, s):
        s = set(s)
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            for d in n.decorator_list:
                self.use(d, s)
            s.add(n.name)
            return s
        if isinstance(n, ast.If):
            self.use(n.test, s)
            v = self.test(n.test)
            a = self.run(n.body, s) if v is not False else None
            b = self.run(n.orelse, s) if v is not True else None
            if v is True:
                return a
            if v is False:
                return b
            return self.join(a, b)
        if isinstance(n, (ast.For, ast.While)):
            if isinstance(n, ast.For):
                self.use(n.iter, s)
            got = set(s)
            if isinstance(n, ast.For):
                got |= set(target_names(n.target))
            # anything the loop binds may be bound on a later round
            b, _ = bound_in(n.body)
            rest = got | b
            if isinstance(n, ast.While):
                self.use(n.test, rest)
            mark = len(self.bad)
            self.run(n.body, rest)
            # the first round has only what came before it
            if self.loop_first:
                self.run(n.body, got)
            out = rest
            e = self.run(n.orelse, out)
            return self.join(out, e)
        if isinstance(n, ast.Try):
            b, _ = bound_in(n.body)
            a = self.run(n.body, s)
            outs = [self.run(n.orelse, a) if a is not None else None]
            for h in n.handlers:
                hs = s | b
                if h.name:
                    hs.add(h.name)
                outs.append(self.run(h.body, hs))
            r = None
            for o in outs:
                r = self.join(r, o)
            if n.finalbody:
                f = self.run(n.finalbody, r if r is not None else s | b)
                return None if r is None else f
            return r
        if isinstance(n, ast.With):
            for i in n.items:
                self.use(i.context_expr, s)
                if i.optional_vars is not None:
                    s |= set(target_names(i.optional_vars))
            return self.run(n.body, s)
        if isinstance(n, (ast.Return, ast.Raise)):
            for c in ast.iter_child_nodes(n):
                self.use(c, s)
            return None
        if isinstance(n, (ast.Break, ast.Continue)):
            return None
        if isinstance(n, ast.AugAssign):
            if isinstance(n.target, ast.Name):
                if n.target.id in self.loc and n.target.id not in s:
                    self.bad.append((n.target.id, n.lineno))
            else:
                self.use(n.target, s)
            self.use(n.value, s)
            s |= set(target_names(n.target))
            return s
        if isinstance(n, ast.Assign):
            self.use(n.value, s)
            for t in n.targets:
                self.use(t, s)
            b, _ = bound_in([n])
            return s | b
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    s.discard(t.id)
                else:
                    self.use(t, s)
            return s
        if isinstance(n, ast.Assert):
            self.use(n.test, s)
            return s
        for c in ast.iter_child_nodes(n):
            self.use(c, s)
        b, _ = bound_in([n])
        return s | b

    loop_first = True
