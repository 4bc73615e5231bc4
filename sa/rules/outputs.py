"""P03: nothing that existed before is removed or overwritten unless overwriting was asked for."""
import ast

from ..program import FuncInfo, ClassInfo, dotted, own_nodes, AnalysisBroken
from ..walk import St, Walker, Client, WalkBudget, contains, show, atoms, relevant_tests, NONE

REMOVERS = {'shutil.rmtree': 0, 'os.remove': 0, 'os.unlink': 0, 'os.rmdir': 0, 'os.removedirs': 0, 'os.rename': 0,
            'os.replace': 1, 'shutil.move': 1, 'os.truncate': 0}
MAKERS = {'os.mkdir', 'os.makedirs'}
TEMP = {'tempfile.mkdtemp', 'tempfile.mkstemp'}
EXISTS = {'os.path.exists', 'os.path.lexists'}
PATH_METHODS = {'unlink', 'rmdir', 'rmtree'}
SAVERS = ('write', 'to_csv', 'tofile', 'savez', 'save')
WRITERS = ('open', 'io.open', 'codecs.open', 'netCDF4.Dataset', 'fiona.open', 'zipfile.ZipFile')
COPIERS = {'shutil.copy': 1, 'shutil.copyfile': 1, 'shutil.copy2': 1, 'shutil.copytree': 1}


def overwrite_true(st):
    for k, v in st.facts.items():
        if not v:
            continue
        if k[0] == 'attr' and k[2].lower() == 'overwrite':
            return True
        if k[0] in ('p', 'l') and k[-1].lower() == 'overwrite':
            return True
    return False


def absent(st, path):
    """The path was found not to exist (or is None) on the way here."""
    if st.facts.get(('isnone', path)):
        return True
    return any(k[0] == 'ext' and k[1][1] in EXISTS and k[2] == (path,) and v is False for k, v in st.facts.items())


def made(st, path):
    parts = path[1] if path[0] == 'join' else (path,)
    for t in st.tok:
        if t[0] == 'made':
            q = t[1][1] if t[1][0] == 'join' else (t[1],)
            if parts[:len(q)] == q:
                return True
    return False


def is_rank_test(v):
    """rank == 0"""
    if v[0] == 'eq' and v[2] == ('c', 0, 'int'):
        l = v[1]
        return (l[0] == 'attr' and l[2] == 'rank') or (l[0] == 'g' and l[1].split('.')[-1] in ('MPI_RANK', 'rank'))
    return False


class Base(Client):
    def __init__(self, prog):
        self.p = prog
        self._rel = {}
        self._ev = {}

    def event_name(self, f, call):
        """Resolved external name of a file-system call."""
        for t in self.p.resolve_call(f, call):
            if isinstance(t, str):
                return t
        return dotted(call.func) or ''

    def is_event(self, f, call):
        n = self.event_name(f, call)
        return n in REMOVERS or n in MAKERS or n in TEMP or n in EXISTS

    def has_events(self, f, depth=4, seen=None):
        k = f.qual
        if k in self._ev:
            return self._ev[k]
        seen = seen if seen is not None else set()
        if k in seen:
            return False
        seen.add(k)
        r = False
        for c in self.p.calls(f):
            if self.is_event(f, c):
                r = True
                break
        if not r and depth:
            for c in self.p.calls(f):
                ts = [t for t in self.p.resolve_call(f, c) if isinstance(t, FuncInfo)]
                if ts and len(ts) <= 3 and any(self.near(f, t) and self.has_events(t, depth - 1, seen) for t in ts):
                    r = True
                    break
        self._ev[k] = r
        return r

    @staticmethod
    def near(f, t):
        return t.module is f.module or (t.cls is not None and f.cls is not None and t.cls.name != f.cls.name and
                                        (t.cls in f.cls.subs or f.cls in t.cls.subs))

    def inline(self, w, f, call, t, recv):
        return self.near(f, t) and self.has_events(t)

    def cond(self, w, f, v):
        if is_rank_test(v):
            return True  # file-system work is done by the root rank; other ranks do nothing here
        return None

    def relevant(self, w, f, n):
        if f.qual not in self._rel:
            def ev(c):
                if self.is_event(f, c):
                    return True
                ts = [t for t in self.p.resolve_call(f, c) if isinstance(t, FuncInfo)]
                return bool(ts) and len(ts) <= 3 and any(self.inline(w, f, c, t, None) for t in ts)
            self._rel[f.qual] = relevant_tests(self.p, f, ev)
        a = n.ast
        return id(a) in self._rel[f.qual] or not isinstance(a, (ast.If, ast.While, ast.Assert))

    def keep_attr(self, base, attr):
        return base[0] == 'self'

    def base_call(self, w, f, call, name, recv, args, kwargs, st):
        if isinstance(call.func, ast.Attribute) and call.func.attr == 'bcast' and args:
            return [(args[0], st)]
        n = name if name in MAKERS or name in TEMP else self.event_name(f, call)
        if n in TEMP:
            v = w.fresh(st, 'temp', call)
            return [(v, w.forget(st, v).add(('made', v)))]
        if n in MAKERS and args:
            kw = dict(kwargs)
            if kw.get('exist_ok', ('c', False, 'bool')) == ('c', False, 'bool') and len(args) < 3:
                return [(NONE, st.add(('made', args[0])))]
            return [(NONE, st)]
        return None


class Removals(Base):
    """Every removal must be of something made on this path or happen with overwriting switched on."""

    def __init__(self, prog):
        Base.__init__(self, prog)
        self.sites = {}  # id(call) -> [f, call, name, ok?, message]

    def call(self, w, f, call, name, recv, args, kwargs, st):
        r = self.base_call(w, f, call, name, recv, args, kwargs, st)
        if r is not None:
            return r
        n = name if name in REMOVERS else self.event_name(f, call)
        if n in REMOVERS:
            i = REMOVERS[n]
            path = args[i] if i < len(args) else dict(kwargs).get('path', ('unknown',))
            ok = overwrite_true(st) or made(st, path)
            param = [a for a in atoms(path) if isinstance(a, tuple) and len(a) == 3 and a[0] == 'p']
            s = self.sites.setdefault((f.qual, call.lineno, call.col_offset), {'f': f, 'call': call, 'name': n, 'bad': None,
                                                                               'roots': set(), 'path': path})
            s['roots'].add(self.root.qual)
            if not ok:
                s['bad'] = (path, self.root)
                # decided by the callers of the root if the path is one of its parameters
                if any(a[1] == self.root.qual for a in param):
                    self.lift.add(self.root.qual)
            return [(NONE, st.drop(lambda t: t[0] == 'made' and t[1] == path))]
        return None


def removal_rule(prog, res):
    rule = 'removed-only-if-made-here-or-overwriting'
    res.rule(rule, 'on every path to a call that removes or replaces files, overwriting is on or the same path was created '
                   'by this very call (directory creation that tolerates an existing directory does not count)')
    direct = []
    cl = Removals(prog)
    for f in prog.funcs.values():
        for c in prog.calls(f):
            if cl.event_name(f, c) in REMOVERS:
                direct.append((f, c))
    callers = {}
    for f in prog.funcs.values():
        for c in prog.calls(f):
            ts = [t for t in prog.resolve_call(f, c) if isinstance(t, FuncInfo)]
            if len(ts) <= 3:
                for t in ts:
                    callers.setdefault(t.qual, set()).add(f.qual)
    roots = sorted({f.qual for f, _ in direct})
    # walk outermost near callers first: a helper is judged where it is used
    done = set()
    verdict = {}
    work = list(roots)
    while work:
        q = work.pop(0)
        if q in done:
            continue
        done.add(q)
        f = prog.funcs[q]
        ups = [u for u in callers.get(q, ()) if Base.near(prog.funcs[u], f) and u != q]
        cl.sites = {}
        cl.lift = set()
        cl.root = f
        w = Walker(prog, cl)
        try:
            w.run(f)
        except WalkBudget as e:
            res.broken.append('removal analysis of %s exceeded its state budget (%s)' % (q, e))
            continue
        bad_here = [k for k, s in cl.sites.items() if s['bad']]
        if bad_here and ups:
            # judge it in the callers instead
            work.extend(sorted(ups))
            for k in [k for k in cl.sites if not cl.sites[k]['bad']]:
                verdict.setdefault(k, []).append((q, cl.sites[k]))
            continue
        for k, s in cl.sites.items():
            verdict.setdefault(k, []).append((q, s))
    for f, c in direct:
        k = (f.qual, c.lineno, c.col_offset)
        if k not in verdict:
            if any(True for _ in [1]):
                # unreachable in the walked program
                res.ok(rule, '%s:%s' % (f.qual, cl.event_name(f, c)), f.loc(c), 'not reached from its callers')
            continue
        bad = [(q, s) for q, s in verdict[k] if s['bad']]
        con = '%s:%s' % (f.qual, cl.event_name(f, c))
        if bad:
            q, s = bad[0]
            res.bad(rule, con, f.loc(c), 'may remove %s, which this call did not create, without overwriting being '
                                         'switched on (reached from %s)' % (show(s['bad'][0]), q))
        else:
            res.ok(rule, con, f.loc(c))
    res.floor(rule, 3)


class Conversions(Base):
    """Construction and write() of one concrete converter class."""

    def __init__(self, prog, family, mods):
        Base.__init__(self, prog)
        self.family, self.mods = family, mods
        self.sinks = {}

    want_exc = False

    def near(self, f, t):
        return t.module in self.mods

    def is_event(self, f, call):
        if Base.is_event(self, f, call):
            return True
        return (isinstance(call.func, ast.Attribute) and call.func.attr in SAVERS) or \
            (isinstance(call.func, ast.Name) and call.func.id == 'open') or \
            self.event_name(f, call) in WRITERS or self.event_name(f, call) in COPIERS

    def inline(self, w, f, call, t, recv):
        if t.name == '__init__':
            return t.cls is not None and t.cls in self.family and (recv is None or recv[0] == 'self')
        if t.cls is not None and t.cls in self.family:
            return (recv is None or recv[0] == 'self') and self.has_events(t)
        return t.cls is None and t.module in self.mods and self.has_events(t)

    def call(self, w, f, call, name, recv, args, kwargs, st):
        r = self.base_call(w, f, call, name, recv, args, kwargs, st)
        if r is not None:
            return r
        path = ret = None
        n = self.event_name(f, call)
        kw = dict((k, v) for k, v in kwargs if k)
        if name in ('open', 'io.open', 'codecs.open') or (isinstance(call.func, ast.Name) and call.func.id == 'open') or \
                n in WRITERS:
            mode = kw.get('mode', args[1] if len(args) > 1 else ('c', 'r'))
            ret = [(('handle', call.lineno, call.col_offset), st)]
            if not (mode[0] == 'c' and str(mode[1]).startswith('r') and '+' not in str(mode[1])):
                path = args[0] if args else kw.get('file', kw.get('filename', ('unknown',)))
        elif n in COPIERS:
            path = args[COPIERS[n]] if len(args) > COPIERS[n] else ('unknown',)
        elif n in REMOVERS:
            path = args[REMOVERS[n]] if len(args) > REMOVERS[n] else ('unknown',)
        elif isinstance(call.func, ast.Attribute) and call.func.attr in SAVERS and \
                recv is not None and recv[0] not in ('self', 'enter', 'handle') and (args or 'path' in kw):
            path = args[0] if args else kw['path']
        if path is not None:
            self.sink(w, f, call, path, st)
        return ret

    def sink(self, w, f, call, path, st):
        me = ('self', self.cls.qual)
        aux = st.env.get((me, 'add_auxiliary_files'), ('attr', me, 'add_auxiliary_files'))
        outdir = st.env.get((me, 'outdir'), ('attr', me, 'outdir'))
        root = path[1][0] if path[0] == 'join' else path
        ok = overwrite_true(st) or absent(st, path) or made(st, path) or \
            (root == outdir and w.truth(f, aux, st) is True)
        d = self.sinks.setdefault((f.qual, call.lineno, call.col_offset), {'f': f, 'call': call, 'bad': {}, 'ok': set()})
        if ok:
            d['ok'].add(self.cls.name)
        else:
            d['bad'][self.cls.name] = path


def used_attributes(prog, c):
    """Attributes of self that methods other than __init__ read."""
    out = set()
    for k in prog.mro(c):
        for n, m in k.methods.items():
            if n != '__init__':
                for x in own_nodes(m.node):
                    if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and m.params and x.value.id == m.params[0]:
                        out.add(x.attr)
    return out - {'options', 'melted', '_log', 'colls'}


def converter_rule(prog, res):
    rule = 'output-file-written-only-if-absent-or-overwriting'
    res.rule(rule, 'for every converter class, on every path through its construction followed by write(), the path handed '
                   'to each writing call was found absent, or overwriting is on, or it lies in the output directory the '
                   'interpreter has just created (add_auxiliary_files)')
    base = prog.cls_named('AbstractFileConverter')
    if base is None:
        raise AnalysisBroken('AbstractFileConverter not found')
    fam = [base] + list(base.subs)
    mods = {c.module for c in fam}
    classes = [c for c in fam if not c.name.startswith('Abstract')]
    cl = Conversions(prog, fam, mods)
    for c in sorted(classes, key=lambda x: x.qual):
        init = prog.find_method(c, '__init__')
        wr = prog.find_method(c, 'write')
        if init is None or wr is None or wr.is_abstract:
            continue
        res.count('converter_classes')
        cl.cls = c
        w = Walker(prog, cl)
        w.nstates = 0
        try:
            exits = w.run(init, cls=c)
            keep = [(('self', c.qual), a) for a in used_attributes(prog, c)]
            starts = []
            for kind, val, st in exits:
                if kind == 'ret':
                    st = St({k: v for k, v in st.env.items() if k in keep}, st.facts, st.tok)
                    if st not in starts:
                        starts.append(st)
            for st in starts:
                w.nstates = 0
                w.run(wr, cls=c, st=st)
        except WalkBudget as e:
            res.broken.append('converter %s: state budget exceeded (%s)' % (c.name, e))
            continue
        res.count('functions_walked', len(w.functions))
    for k, d in sorted(cl.sinks.items()):
        con = '%s:%s' % (d['f'].qual, ast.unparse(d['call'].func))
        for name in sorted(d['ok'] - set(d['bad'])):
            res.ok(rule, con + '|' + name, d['f'].loc(d['call']))
        for name, path in sorted(d['bad'].items()):
            res.bad(rule, con + '|' + name, d['f'].loc(d['call']),
                    '%s writes %s without having found it absent and without overwriting being on' % (name, show(path)))
    res.floor(rule, 1 if prog.fixture else 8)


class OutDir(Base):
    """The directory handed to the converter is the user's own or one just made."""

    def __init__(self, prog, scope):
        Base.__init__(self, prog)
        self.scope = scope
        self.sites = {}

    def inline(self, w, f, call, t, recv):
        return t.cls is not None and t.cls in self.scope and self.has_events(t)

    def call(self, w, f, call, name, recv, args, kwargs, st):
        r = self.base_call(w, f, call, name, recv, args, kwargs, st)
        if r is not None:
            return r
        if self.event_name(f, call) in REMOVERS:
            return [(NONE, st.drop(lambda t: t[0] == 'made' and args and t[1] == args[0]))]
        ts, bound = w.targets(f, call, recv, st)
        for t in ts:
            if isinstance(t, FuncInfo) and 'outdir' in t.params and t.cls is not None and t.cls in self.scope:
                v = w._bind_args(t, call, bound, args, kwargs, st).get('outdir')
                key = (f.qual, call.lineno, call.col_offset)
                d = self.sites.setdefault(key, {'f': f, 'call': call, 'bad': None})
                own = v == NONE or (v is not None and v[0] in ('attr', 'p', 'l'))
                if not (own or made(st, v)):
                    d['bad'] = v
        return None


def outdir_rule(prog, res):
    rule = 'output-directory-is-newly-made'
    res.rule(rule, 'the output directory the interpreter derives for a run is, on every path to its use, one that this run '
                   'has just created (creation fails if it exists)')
    n = 0
    for c in sorted(prog.classes.values(), key=lambda x: x.qual):
        m = c.methods.get('execute')
        if m is None or not any('outdir' in t.params for k in prog.mro(c) for t in k.methods.values()):
            continue
        cl = OutDir(prog, [c] + list(c.subs) + prog.mro(c))
        try:
            Walker(prog, cl).run(m, cls=c)
        except WalkBudget as e:
            res.broken.append('output directory analysis of %s exceeded its state budget (%s)' % (m.qual, e))
        for k, d in sorted(cl.sites.items()):
            res.check(d['bad'] is None, rule, '%s->%s' % (d['f'].qual, ast.unparse(d['call'].func)), d['f'].loc(d['call']),
                      'uses %s, which may have existed before' % (show(d['bad']) if d['bad'] else ''))
    res.floor(rule, 1)


def default_rule(prog, res):
    rule = 'overwriting-is-off-by-default'
    res.rule(rule, 'every parameter or setting named overwrite defaults to False, its text form is parsed as a flag, and no '
                   'call inside the library switches it on')
    for f in prog.funcs.values():
        a = f.node.args
        pos = a.posonlyargs + a.args
        ds = list(zip(reversed(pos), reversed(a.defaults))) + list(zip(a.kwonlyargs, a.kw_defaults))
        for p, d in ds:
            if d is not None and p.arg.lower() == 'overwrite':
                res.check(isinstance(d, ast.Constant) and not d.value, rule, '%s(%s)' % (f.qual, p.arg), f.loc(),
                          'defaults to %s' % ast.unparse(d))
        for c in prog.calls(f):
            for k in c.keywords:
                if k.arg and k.arg.lower() == 'overwrite':
                    ok = not (isinstance(k.value, ast.Constant) and k.value.value)
                    d = dotted(k.value)
                    ok = ok and (isinstance(k.value, ast.Constant) or (d or '').split('.')[-1].lower() == 'overwrite')
                    res.check(ok, rule, '%s->%s' % (f.qual, ast.unparse(c.func)), f.loc(c),
                              'overwrite=%s does not come from the user\'s overwrite setting' % ast.unparse(k.value))
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and t.attr.lower() == 'overwrite':
                        v = n.value
                        d = dotted(v)
                        if isinstance(v, ast.Call) and len(v.args) >= 2 and isinstance(v.args[0], ast.Constant):
                            # settings entry (name, default, formatter)
                            fm = [k.value for k in v.keywords if k.arg == 'formatter'] + v.args[2:3]
                            ok = isinstance(v.args[1], ast.Constant) and not v.args[1].value and bool(fm) and \
                                dotted(fm[0]) != 'bool'
                        else:
                            ok = (isinstance(v, ast.Constant) and not v.value) or (d or '').split('.')[-1].lower() == 'overwrite'
                        res.check(ok, rule, '%s sets %s' % (f.qual, ast.unparse(t)), f.loc(n),
                                  'overwriting is set to %s' % ast.unparse(v))
    res.floor(rule, 1 if prog.fixture else 3)


class Weights(Base):
    """Weight files are written only after the target was found absent."""

    def __init__(self, prog, writers):
        Base.__init__(self, prog)
        self.writers = writers
        self.sinks = {}

    def is_event(self, f, call):
        if Base.is_event(self, f, call):
            return True
        return isinstance(call.func, ast.Attribute) and call.func.attr in self.writers

    def call(self, w, f, call, name, recv, args, kwargs, st):
        r = self.base_call(w, f, call, name, recv, args, kwargs, st)
        if r is not None:
            return r
        if isinstance(call.func, ast.Attribute) and call.func.attr in self.writers:
            m = self.writers[call.func.attr]
            params = [x for x in m.params][1:]
            path = None
            for i, v in enumerate(args):
                if i < len(params) and self.is_weight_param(params[i]):
                    path = v
            for k, v in kwargs:
                if k and self.is_weight_param(k):
                    path = v
            if path is None:
                return None
            d = self.sinks.setdefault((f.qual, call.lineno, call.col_offset), {'f': f, 'call': call, 'bad': None})
            if not absent(st, path):
                d['bad'] = path
        return None

    @staticmethod
    def is_weight_param(p):
        return ('weight' in p or p.startswith('wgt')) and ('path' in p or 'file' in p)


def weights_rule(prog, res):
    rule = 'weight-file-written-only-if-absent'
    res.rule(rule, 'on every path of a command-line entry point to a call that writes a weight file at a path the user gave, '
                   'that path was found absent')
    chunker = prog.cls_named('GridChunker')
    if chunker is None:
        raise AnalysisBroken('GridChunker not found')
    writers = {}
    for n, m in chunker.methods.items():
        if not n.startswith('_') and any(Weights.is_weight_param(x) for x in m.params) and (
                n.startswith('write') or n.startswith('create')):
            writers[n] = m
    cl = Weights(prog, writers)
    for f in prog.funcs.values():
        if f.module is chunker.module:
            continue
        if not any(isinstance(c.func, ast.Attribute) and c.func.attr in writers for c in prog.calls(f)):
            continue
        ups = [g for g in prog.funcs.values() if g.module is f.module and g is not f and
               any(t is f for c in prog.calls(g) for t in prog.resolve_call(g, c))]
        for root in ups or [f]:
            try:
                Walker(prog, cl).run(root)
            except WalkBudget as e:
                res.broken.append('weight analysis of %s exceeded its state budget (%s)' % (root.qual, e))
    for k, d in sorted(cl.sinks.items()):
        con = '%s:%s' % (d['f'].qual, d['call'].func.attr)
        res.check(d['bad'] is None, rule, con, d['f'].loc(d['call']),
                  'writes %s without having found it absent' % (show(d['bad']) if d['bad'] else ''))
    res.floor(rule, 1 if prog.fixture else 2)


def run(prog, res):
    removal_rule(prog, res)
    converter_rule(prog, res)
    outdir_rule(prog, res)
    default_rule(prog, res)
    weights_rule(prog, res)
