"""P01: typestate of opened handles (opened -> closed on every exit of the function that opened them)."""
import ast

from ..cfg import cfg_of, node_calls, node_exprs
from ..paths import Facts, explore_safe, absval, path_lines
from ..program import FuncInfo, ClassInfo, dotted, own_nodes
from .scopes import entered

EXTERNAL = {'netCDF4.Dataset', 'netCDF4.MFDataset', 'fiona.open', 'open', 'io.open', 'codecs.open', 'zipfile.ZipFile',
            'gzip.open', 'tarfile.open', 'shelve.open', 'sqlite3.connect', 'fiona.collection', 'h5py.File',
            'tempfile.NamedTemporaryFile', 'tempfile.TemporaryFile', 'os.fdopen'}
SUFFIX = ('ogr.Open', 'ogr.OpenShared', 'gdal.Open', 'gdal.OpenEx')
SUFFIX_ATTR = ('CreateDataSource', 'OpenDataSource')
RELEASE = {'close', 'Destroy', 'Release', 'release_handle'}
HANDLE_SETTINGS = {'set_always_mask', 'set_auto_mask', 'set_auto_maskandscale', 'set_auto_scale'}  # cannot fail
BORROWED_ATTR = {'opened'}


def external_opener(prog, f, call):
    for t in prog.resolve_call(f, call):
        if isinstance(t, str):
            if t in EXTERNAL:
                return t
    d = dotted(call.func)
    if d is not None and any(d == s or d.endswith('.' + s) for s in SUFFIX):
        return d
    if isinstance(call.func, ast.Attribute) and call.func.attr in SUFFIX_ATTR:
        return call.func.attr
    return None


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript)):
        e = e.value
    return e.id if isinstance(e, ast.Name) else None


def display_names(e):
    """Names that are carried by value e without going through a call (the object itself or a container of it)."""
    if isinstance(e, ast.Name):
        return {e.id}
    out = set()
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        for x in e.elts:
            out |= display_names(x)
    elif isinstance(e, ast.Dict):
        for x in e.values:
            out |= display_names(x)
    elif isinstance(e, ast.IfExp):
        out |= display_names(e.body) | display_names(e.orelse)
    elif isinstance(e, ast.BoolOp):
        for x in e.values:
            out |= display_names(x)
    elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('dict', 'list', 'tuple'):
        for k in e.keywords:
            out |= display_names(k.value)
        for a in e.args:
            out |= display_names(a)
    elif isinstance(e, ast.Starred):
        out |= display_names(e.value)
    return out


class Resources(object):
    def __init__(self, prog, res):
        self.p = prog
        self.res = res
        self.openers = {}  # qual -> description
        self._closes = {}
        self._stack = set()

    # -- summaries ----------------------------------------------------------------------------------------------
    def acquisitions(self, f):
        out = []
        for c in self.p.calls(f):
            d = external_opener(self.p, f, c)
            if d is not None:
                out.append((c, d))
                continue
            for t in self.p.resolve_call(f, c):
                if isinstance(t, FuncInfo) and t.qual in self.openers:
                    out.append((c, t.qual))
                    break
        return out

    def closes_param(self, g, param, facts, depth=0):
        """Does g close the handle passed as ``param`` on every path that does not first establish it is no handle?"""
        key = (g.qual, param, facts)
        if key in self._closes:
            return self._closes[key]
        if depth > 5 or key in self._stack:
            return False
        if not any(True for c in self.p.calls(g)):
            return False
        self._stack.add(key)
        try:
            r = self._run(g, None, {param}, facts, depth=depth)
            ok = r[0] and r[2]['closed']
        finally:
            self._stack.discard(key)
        self._closes[key] = ok
        return ok

    def callee_facts(self, g, call):
        facts = Facts()
        a = g.node.args
        pos = [x.arg for x in a.args]
        defaults = {}
        for name, d in zip(reversed(pos), reversed(a.defaults)):
            defaults[name] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        given = self.p.map_args(g, call, call.func.value if isinstance(call.func, ast.Attribute) else None)
        for name in g.params:
            e = given.get(name, None)
            if name not in given and '*' not in given and '**' not in given:
                e = defaults.get(name)
            if e is not None:
                v = absval(e)
                if v is not None:
                    facts = facts.set(name, v, {name})
        return facts

    def releases(self, f, call, aliases, depth):
        fn = call.func
        if isinstance(fn, ast.Attribute) and fn.attr in RELEASE and root_name(fn.value) in aliases:
            if not any(True for t in self.p.resolve_call(f, call) if isinstance(t, FuncInfo)):
                return True
        hit = [i for i, a in enumerate(call.args) if display_names(a) & aliases]
        hitk = [k.arg for k in call.keywords if k.arg and display_names(k.value) & aliases]
        if not hit and not hitk:
            return False
        targets = [t for t in self.p.resolve_call(f, call) if isinstance(t, FuncInfo)]
        targets = [t for t in targets if not t.is_abstract]
        if not targets:
            return False
        for t in targets:
            m = self.p.map_args(t, call, fn.value if isinstance(fn, ast.Attribute) else None)
            ps = [k for k, v in m.items() if isinstance(v, ast.AST) and display_names(v) & aliases and k in t.params]
            if not ps or not any(self.closes_param(t, q, self.callee_facts(t, call), depth + 1) for q in ps):
                return False
        return True

    # -- typestate ----------------------------------------------------------------------------------------------
    def _run(self, f, site, init_alias=None, facts=None, depth=0):
        """Explore f. With ``site`` the handle is opened there; with ``init_alias`` it arrives as a parameter.
        Returns (released on all exits, list of (exit kind, path), transferred)."""
        p = self.p
        info = {'ret': False, 'attr': []}

        def transfer(n, label, st, facts):
            kind, aliases = st
            if kind in ('done', 'moved'):
                if not (kind == 'done' and site is not None and n.kind not in ('entry',)):
                    return [st]
            open_ = kind == 'open'
            if open_ and n.kind == 'test' and label in ('t', 'f'):
                fx = Facts()
                for a in aliases:
                    fx = fx.set(a, 'NN', {a})
                t = fx.truth(n.extra)
                if t is not None and t != (label == 't'):
                    return []
                # a value found to be one of our own plain objects is no handle
                for e in [n.extra]:
                    if (label == 't' and isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and
                            e.func.id == 'isinstance' and len(e.args) == 2 and root_name(e.args[0]) in aliases):
                        c = p.lookup(f.module, dotted(e.args[1]) or '')
                        if isinstance(c, ClassInfo) and not any(p.find_method(c, r) for r in RELEASE):
                            return []
            if open_:
                for c in node_calls(n):
                    if c is not site and self.releases(f, c, aliases, depth):
                        return [('done', frozenset())]
                if n.kind == 'with_exit':
                    ce = n.extra.context_expr
                    nm = {root_name(ce)} if not isinstance(ce, ast.Call) else \
                        {root_name(a) for a in ce.args} if (dotted(ce.func) or '').split('.')[-1] == 'closing' else set()
                    if isinstance(ce, ast.Name) or isinstance(ce, ast.Call):
                        if nm & aliases:
                            return [('done', frozenset())]
                if n.kind == 'return' and label == 'n' and n.ast.value is not None:
                    if display_names(n.ast.value) & aliases:
                        info['ret'] = True
                        return [('moved', frozenset())]
            if label == 'exc':
                cs = node_calls(n)
                if open_ and cs and all(isinstance(c.func, ast.Attribute) and c.func.attr in HANDLE_SETTINGS and
                                        root_name(c.func.value) in aliases for c in cs):
                    return []
                return [(kind, aliases)]
            a = n.ast
            if site is not None and any(c is site for c in node_calls(n)):
                # (re)acquisition
                if n.kind == 'stmt' and isinstance(a, ast.Assign):
                    names = set()
                    for t in a.targets:
                        if isinstance(t, ast.Name):
                            names.add(t.id)
                        elif isinstance(t, ast.Attribute):
                            info['attr'].append(t)
                            return [('moved', frozenset())]
                        elif isinstance(t, ast.Subscript):
                            r = root_name(t)
                            if r:
                                names.add(r)
                    return [('open', frozenset(names))]
                if n.kind == 'return' and self._direct(n.ast.value, site):
                    info['ret'] = True
                    return [('moved', frozenset())]
                if n.kind == 'with_enter':
                    return [('done', frozenset())]
                return [('open', frozenset())]
            if open_ and n.kind == 'stmt' and isinstance(a, ast.Assign):
                al = set(aliases)
                for t in a.targets:
                    carried = display_names(a.value) & aliases
                    derived = root_name(a.value) in aliases
                    if isinstance(t, ast.Name):
                        if carried:
                            al.add(t.id)
                        elif t.id in al and not derived:
                            al.discard(t.id)
                    elif carried and isinstance(t, ast.Attribute):
                        info['attr'].append(t)
                        return [('moved', frozenset())]
                    elif carried and isinstance(t, ast.Subscript):
                        r = root_name(t)
                        if r:
                            al.add(r)
                return [('open', frozenset(al))]
            if open_ and n.kind == 'stmt' and isinstance(a, ast.Expr) and isinstance(a.value, ast.Call):
                fn = a.value.func
                if isinstance(fn, ast.Attribute) and fn.attr in ('append', 'add', 'insert', 'enter_context', 'callback',
                                                                 'push', 'addHandler'):
                    if any(display_names(x) & aliases for x in a.value.args):
                        if fn.attr in ('enter_context', 'callback', 'push', 'addHandler'):
                            return [('moved', frozenset())]
                        r = root_name(fn.value)
                        if r:
                            return [('open', aliases | {r})]
            return [(kind, aliases)]

        init = ('open', frozenset(init_alias)) if init_alias else ('none', frozenset())
        g, at, seen = explore_safe(f, init, transfer, facts=facts)
        by_id = {n.id: n for n in g.nodes}
        leaks = []
        info['closed'] = any(st[0] == 'done' for ex in (g.exit, g.exc_exit) for _, st in at.get(ex.id, ()))
        for ex, what in ((g.exit, 'normal return'), (g.exc_exit, 'exception')):
            for fs, st in sorted(at.get(ex.id, ()), key=lambda x: str(x[1])):
                if st[0] == 'open':
                    key = next(k for k in seen if k[0] == ex.id and k[1] == fs and k[2] == st)
                    leaks.append((what, path_lines(seen, key, by_id)))
        return (not leaks, leaks, info)

    @staticmethod
    def _direct(value, site):
        if value is site:
            return True
        if isinstance(value, (ast.Tuple, ast.List)):
            return any(x is site for x in value.elts)
        if isinstance(value, ast.Dict):
            return any(x is site for x in value.values)
        if isinstance(value, ast.IfExp):
            return value.body is site or value.orelse is site
        return False

    def borrowed(self, f):
        """Handles supplied by the caller that this function closes although it opens its own as well."""
        p = self.p
        bad = []
        params = set(f.params) - {f.selfname}

        def transfer(n, label, st, facts):
            if isinstance(st, tuple):
                return [st]
            al = set(st)
            for c in node_calls(n):
                if self.releases(f, c, frozenset(al), 0):
                    bad.append((c, sorted(al)))
                    return []
            if label != 'exc' and n.kind == 'stmt' and isinstance(n.ast, ast.Assign):
                v = n.ast.value
                lend = isinstance(v, ast.Attribute) and v.attr in BORROWED_ATTR
                carried = bool(display_names(v) & al) or lend
                for t in n.ast.targets:
                    if isinstance(t, ast.Name):
                        if carried:
                            al.add(t.id)
                        else:
                            al.discard(t.id)
            if n.kind == 'test' and label in ('t', 'f'):
                # a None argument is no handle; neither is a path
                e = n.extra
                drop = set()
                if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.comparators[0], ast.Constant) and \
                        e.comparators[0].value is None and isinstance(e.left, ast.Name):
                    none = (label == 't') == isinstance(e.ops[0], ast.Is)
                    if none:
                        drop.add(e.left.id)
                neg = False
                while isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
                    neg = not neg
                    e = e.operand
                if isinstance(e, ast.Call):
                    fn = (dotted(e.func) or '').split('.')[-1]
                    truth = (label == 't') != neg
                    if fn == 'inquire_opened_state' and e.args and isinstance(e.args[0], ast.Name) and not truth:
                        drop.add(e.args[0].id)
                    if fn == 'isinstance' and len(e.args) == 2 and isinstance(e.args[0], ast.Name) and truth and \
                            'str' in ast.unparse(e.args[1]):
                        drop.add(e.args[0].id)
                al -= drop
            return [frozenset(al)]

        explore_safe(f, frozenset(params), transfer)
        return bad

    # -- driver -------------------------------------------------------------------------------------------------
    def run(self):
        p, res = self.p, self.res
        R = 'handle-closed-on-every-exit'
        res.rule(R, 'every call that opens a handle reaches a close of it (or hands it to the caller / a closing owner) on '
                    'every normal and exceptional path of the opening function')
        B = 'borrowed-handle-left-open'
        res.rule(B, 'a handle received from the caller or a request dataset is not closed by a function that opens '
                    'handles itself')
        # fixpoint over openers
        results = {}
        while True:
            changed = False
            for f in p.funcs.values():
                for c, d in self.acquisitions(f):
                    if (f.qual, id(c)) in results:
                        continue
                    r = self._run(f, c)
                    results[(f.qual, id(c))] = (f, c, d, r)
                    if r[2]['ret'] and f.qual not in self.openers:
                        self.openers[f.qual] = d
                        changed = True
            if not changed:
                break
        nb = 0
        for (q, _), (f, c, d, r) in sorted(results.items(), key=lambda kv: (kv[1][0].qual, kv[1][1].lineno)):
            construct = '%s opens %s' % (f.qual, d)
            ok, leaks, info = r
            if not ok:
                what, path = leaks[0]
                kinds = sorted({w for w, _ in leaks})
                res.bad(R, construct, f.loc(c), 'handle is still open at %s' % ' and '.join(kinds), path)
                continue
            bad_attr = None
            for t in info['attr']:
                if not self._attr_closed(f, t):
                    bad_attr = t
            res.check(bad_attr is None, R, construct, f.loc(c),
                      'handle is stored in %s, which no method of the class closes' % (
                          ast.unparse(bad_attr) if bad_attr is not None else ''))
        seen = set()
        for (q, _), (f, c, d, r) in sorted(results.items(), key=lambda kv: kv[1][0].qual):
            if f.qual in seen:
                continue
            seen.add(f.qual)
            bad = self.borrowed(f)
            res.check(not bad, B, '%s' % f.qual, f.loc(bad[0][0] if bad else None),
                      'closes a handle it may have received from its caller (%s)' % (bad and bad[0][1]))
        res.counts['functions_scanned'] = len(p.funcs)
        res.counts['open_sites'] = len(results)
        res.counts['functions_returning_handles'] = len(self.openers)
        # the scope used everywhere must be a context manager whose close is reachable
        res.floor(R, 12)
        W = 'opening-scope-entered-with-with'
        res.rule(W, 'a scope that opens a handle is only entered by a with statement (or returned to the caller): otherwise nothing closes it')
        opening = {q for q, _ in results if p.funcs[q].is_contextmanager}
        entered(p, res, W, lambda t: t.qual in opening)

    def _attr_closed(self, f, target):
        cls = f.cls or (f.parent.cls if f.parent else None)
        if cls is None:
            return False
        for k in list(self.p.mro(cls)) + list(cls.subs):
            for m in k.methods.values():
                for c in self.p.calls(m):
                    if isinstance(c.func, ast.Attribute) and c.func.attr in RELEASE and \
                            isinstance(c.func.value, ast.Attribute) and c.func.value.attr == target.attr:
                        return True
        return False


def run(prog, res):
    Resources(prog, res).run()
