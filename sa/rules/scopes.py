"""P02: temporary changes are undone on every exit with the value that was there before."""
import ast

from ..cfg import node_calls, cfg_of, node_exprs
from ..common import MUTATORS, norm, call_facts, reachable_nodes, mutated_names, dep_names, init_text, last_part, root_name
from ..paths import explore_safe, path_lines
from ..program import FuncInfo, dotted, own_nodes, AnalysisBroken

# acquisition of a communicator-like resource -> its release
PAIRS = {'create_subcomm': ('free_subcomm',), 'create_subcomm_by_emptyable': ('free_subcomm',),
         'Incl': ('Free',), 'Create': ('Free',)}

# (module, function, attributes that must be unchanged when it returns or raises)
ANCHORS = [
    ('ocgis.util.large_array', 'compute', ['OPTIMIZE_FOR_CALC', 'callback']),
    ('ocgis.driver.nc', 'DriverNetcdfCF.create_dimension_map', ['rotated_pole_priority']),
    ('ocgis.variable.iterator', 'Iterator.__iter__', ['is_recursing']),
]


def lazy(v):
    """The expression is evaluated when it is iterated, not where it is written."""
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id in ('map', 'filter', 'zip', 'iter', 'reversed', 'enumerate'):
        return True
    return isinstance(v, ast.GeneratorExp)


def whole(loop):
    """The loop processes every element of what it iterates."""
    if any(isinstance(x, ast.Slice) or isinstance(x, ast.Call) and last_part(dotted(x.func) or '') == 'islice'
           for x in ast.walk(loop.iter)):
        return False
    return not any(isinstance(x, (ast.Break, ast.Return)) for s in loop.body for x in ast.walk(s))


def ended_by_failure(f, loop, call):
    """A failure of ``call`` is handled outside of the loop, so that the other elements are not processed."""
    inside = {id(x) for s in loop.body for x in ast.walk(s)}
    outer = False
    for t in own_nodes(f.node):
        if isinstance(t, ast.Try) and t.handlers and any(x is call for s in t.body for x in ast.walk(s)):
            if id(t) in inside:
                return False
            outer = outer or any(not any(isinstance(y, ast.Raise) for b in h.body for y in ast.walk(b)) for h in t.handlers)
    return outer


class Scopes(object):
    def __init__(self, prog, res):
        self.p, self.res = prog, res
        self._eff = {}
        self._nw = {}
        self._cl = {}

    # -- effects of a call on attributes ------------------------------------------------------------------------
    def effects(self, g, facts, depth=0):
        """{(attr, source)}: attributes g may assign on its receiver/arguments; source is a parameter name or None."""
        key = (g.qual, facts)
        if key in self._eff:
            return self._eff[key]
        self._eff[key] = set()
        out = set()
        locals_fresh = set()
        for n in reachable_nodes(g, facts):
            if n.kind == 'stmt' and isinstance(n.ast, ast.Assign):
                for t in n.ast.targets:
                    if isinstance(t, ast.Attribute):
                        r = root_name(t)
                        if r in g.params or r == 'self' or r == 'vm':
                            v = n.ast.value
                            out.add((norm(t.attr), v.id if isinstance(v, ast.Name) and v.id in g.params else None))
            if depth < 3:
                for c in node_calls(n):
                    if isinstance(c.func, ast.Attribute) and isinstance(c.func.value, ast.Name) and \
                            (c.func.value.id == g.selfname or c.func.value.id == 'super'):
                        for t in self.p.resolve_call(g, c):
                            if isinstance(t, FuncInfo) and t.name != '__init__':
                                m = self.p.map_args(t, c, c.func.value)
                                for a, s in self.effects(t, call_facts(self.p, t, c), depth + 1):
                                    e = m.get(s) if s else None
                                    out.add((a, e.id if isinstance(e, ast.Name) and e.id in g.params else None))
        self._eff[key] = out
        return out

    # -- restoring writes ---------------------------------------------------------------------------------------
    def snapshots(self, f):
        """local name -> set of attributes its (only) definition reads; class attributes saved by __init__ as 'self.x'."""
        mut = mutated_names(f)
        changed = self.changed_in_place(f, mut)
        snaps = {}
        for name, defs in self.p.local_assigns(f).items():
            if name in mut or not defs:
                continue
            ok, attrs = True, set()
            for how, v in defs:
                if how != 'val' or not isinstance(v, ast.AST) or lazy(v) or \
                        isinstance(v, ast.Attribute) and ast.unparse(v) in changed:
                    ok = False
                    break
                reads = {norm(x.attr) for x in ast.walk(v) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Load)}
                if not reads:
                    ok = False
                    break
                attrs |= reads
            if ok:
                snaps[name] = attrs
        return snaps, mut

    def changed_in_place(self, f, mut):
        """Attribute expressions whose object the function changes in place, under its own or another name."""
        out = set()
        for x in own_nodes(f.node):
            ts = x.targets if isinstance(x, (ast.Assign, ast.Delete)) else []
            for t in ts:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                    out.add(ast.unparse(t.value))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and \
                    isinstance(x.func.value, ast.Attribute):
                out.add(ast.unparse(x.func.value))
        todo, seen = list(mut), set()
        while todo:
            n = todo.pop()
            if n in seen:
                continue
            seen.add(n)
            for how, v in self.p.local_assigns(f).get(n, []):
                if how == 'val' and isinstance(v, ast.Attribute):
                    out.add(ast.unparse(v))
                elif how == 'val' and isinstance(v, ast.Name):
                    todo.append(v.id)
        return out

    def saved_on_self(self, f, attr):
        out = set()
        if f.cls is None:
            return out
        for k in self.p.mro(f.cls):
            m = k.methods.get('__init__')
            if m is None:
                continue
            for n in own_nodes(m.node):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == m.selfname:
                            if any(isinstance(x, ast.Attribute) and norm(x.attr) == attr for x in ast.walk(n.value)):
                                out.add(t.attr)
        return out

    def is_restore(self, f, attr, rhs, snaps, mut):
        if rhs is None:
            return False
        if isinstance(rhs, ast.Attribute) and isinstance(rhs.value, ast.Name) and rhs.value.id == f.selfname:
            return rhs.attr in self.saved_on_self(f, attr)
        has_snap = any(attr in a for a in snaps.values())
        if isinstance(rhs, ast.Name):
            if rhs.id in snaps:
                return attr in snaps[rhs.id]
            defs = self.p.local_assigns(f).get(rhs.id, [])
            if defs and all(h in ('iter', 'elt') for h, _ in defs):
                deps = dep_names(self.p, f, rhs)
                return bool(deps & set(snaps)) and not (deps & mut)
            # alias of a snapshot
            if defs and all(h == 'val' and isinstance(v, ast.Name) and self.is_restore(f, attr, v, snaps, mut)
                            for h, v in defs):
                return True
            return False
        if isinstance(rhs, ast.Subscript):
            deps = dep_names(self.p, f, rhs.value)
            return bool(deps & set(snaps)) and not (deps & mut)
        if isinstance(rhs, (ast.Constant, ast.Attribute)) and not has_snap:
            return ast.unparse(rhs) in init_text(self.p, attr)
        if isinstance(rhs, ast.Call) and rhs.args and len(rhs.args) == 1:
            # copy(orig), list(orig), tuple(orig)
            if last_part(dotted(rhs.func) or '') in ('copy', 'deepcopy', 'list', 'tuple', 'dict'):
                return self.is_restore(f, attr, rhs.args[0], snaps, mut)
        return False

    # -- writes at a node ---------------------------------------------------------------------------------------
    def node_writes(self, f, n, snaps, mut, attrs=None):
        """[(attr, restoring?, node)] for one CFG node."""
        key = (n, attrs and frozenset(attrs))
        if key in self._nw:
            return self._nw[key]
        out = self._nw[key] = []
        fresh = self._fresh_locals(f)
        if n.kind == 'stmt' and isinstance(n.ast, (ast.Assign, ast.AugAssign)):
            targets = n.ast.targets if isinstance(n.ast, ast.Assign) else [n.ast.target]
            for t in targets:
                if isinstance(t, ast.Attribute):
                    a = norm(t.attr)
                    if attrs is not None and a not in attrs:
                        continue
                    if attrs is None and isinstance(t.value, ast.Name) and t.value.id in fresh:
                        continue
                    r = isinstance(n.ast, ast.Assign) and self.is_restore(f, a, n.ast.value, snaps, mut)
                    out.append((a, r))
        for c in node_calls(n):
            name = c.func.attr if isinstance(c.func, ast.Attribute) else c.func.id if isinstance(c.func, ast.Name) else ''
            # paired resources
            targets = [t for t in self.p.resolve_call(f, c) if isinstance(t, FuncInfo)]
            if attrs is None or 'setattr' in name:
                if name == 'setattr' and len(c.args) == 3 and isinstance(c.args[1], ast.Constant):
                    a = norm(str(c.args[1].value))
                    if attrs is None or a in attrs:
                        out.append((a, self.is_restore(f, a, c.args[2], snaps, mut)))
            for t in targets:
                if t.is_contextmanager or t.name in ('__init__',) or t.cls is None and t.name != 'broadcast_variable':
                    continue
                if t.name == 'broadcast_variable':
                    if attrs is None and f.is_contextmanager:
                        arg = self.p.map_args(t, c).get('dst_names')
                        out.append(('dimension_names', arg is not None and
                                    self.is_restore(f, 'dimension_names', arg, snaps, mut)))
                    continue
                if not isinstance(c.func, ast.Attribute):
                    continue
                if isinstance(c.func.value, ast.Name) and c.func.value.id in fresh:
                    continue
                m = self.p.map_args(t, c, c.func.value)
                for a, s in self.effects(t, call_facts(self.p, t, c)):
                    if attrs is not None and a not in attrs:
                        continue
                    if s is None and attrs is None:
                        continue
                    if attrs is None and a not in self.touchable(f):
                        continue
                    e = m.get(s) if s else None
                    out.append((a, isinstance(e, ast.AST) and self.is_restore(f, a, e, snaps, mut)))
                if targets and attrs is None:
                    break
        return out

    def touchable(self, f):
        return {'current_comm_name', 'abstraction', 'parent', 'dimensions', 'name', 'dimensions_cache'}

    def _fresh_locals(self, f):
        """locals that only ever hold newly built containers/objects"""
        if 'fresh_locals' in f._annot:
            return f._annot['fresh_locals']
        out = f._annot['fresh_locals'] = set()
        for name, defs in self.p.local_assigns(f).items():
            if defs and all(h == 'val' and isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp))
                            for h, v in defs):
                out.add(name)
        return out

    def loop_restores(self, f, n, snaps, mut, attrs):
        """Attributes restored by the loop whose 'iter' node is n (unconditional statements of the body)."""
        if n.kind != 'iter':
            return set()
        out, mod = set(), set()
        for s in n.ast.body:
            for x in [s]:
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        if isinstance(t, ast.Attribute):
                            a = norm(t.attr)
                            if attrs is not None and a not in attrs:
                                continue
                            (out if self.is_restore(f, a, x.value, snaps, mut) else mod).add(a)
        return out - mod

    def partial_restores(self, f, snaps, mut, attrs):
        """(attribute, restoring statement) in loops over fewer elements than the loops that change the attribute."""
        out, loops = set(), [x for x in own_nodes(f.node) if isinstance(x, ast.For)]

        def assigns(loop, restoring):
            for s in loop.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Assign):
                        for t in x.targets:
                            if isinstance(t, ast.Attribute) and (attrs is None or norm(t.attr) in attrs) and \
                                    self.is_restore(f, norm(t.attr), x.value, snaps, mut) == restoring:
                                yield norm(t.attr), x
        changing = {(a, ast.unparse(l.iter)) for l in loops for a, _ in assigns(l, False)}
        for l in loops:
            if not whole(l):
                for a, x in assigns(l, True):
                    if any(b == a and it != ast.unparse(l.iter) for b, it in changing):
                        out.add((a, id(x)))
        return out

    def is_cleanup(self, f, n, snaps, mut, attrs, pair_events):
        """The node undoes something (releases, restores, or iterates over what a loop restores): a failure of the
        undoing itself is out of scope."""
        key = (n, attrs and frozenset(attrs))
        if key not in self._cl:
            self._cl[key] = self._is_cleanup(f, n, snaps, mut, attrs, pair_events)
        return self._cl[key]

    def _is_cleanup(self, f, n, snaps, mut, attrs, pair_events):
        if n.kind in ('for', 'iter') and isinstance(n.ast, (ast.For, ast.AsyncFor)):
            return any(isinstance(x, ast.Assign) and any(
                isinstance(t, ast.Attribute) and self.is_restore(f, norm(t.attr), x.value, snaps, mut) for t in x.targets)
                for x in n.ast.body)
        return bool(pair_events(n)) or any(r for _, r in self.node_writes(f, n, snaps, mut, attrs))

    # -- the automaton ------------------------------------------------------------------------------------------
    def neutral(self, f, attrs=None, pairs=True):
        """Explore f; list of (what, exit kind, path) for changes that survive some exit."""
        snaps, mut = self.snapshots(f)
        p = self.p

        partial = self.partial_restores(f, snaps, mut, attrs)
        restoring = set()
        for x in own_nodes(f.node):
            if isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) for t in x.targets):
                restoring |= dep_names(p, f, x.value)
            elif isinstance(x, ast.Call):
                restoring |= {a.id for a in list(x.args) + [k.value for k in x.keywords] if isinstance(a, ast.Name)}

        def pair_events(n):
            ev = []
            for c in node_calls(n):
                if not isinstance(c.func, ast.Attribute):
                    continue
                nm = c.func.attr
                if nm in PAIRS and pairs and f.is_contextmanager:
                    key = None
                    if nm in ('Incl', 'Create'):
                        if n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and isinstance(n.ast.targets[0], ast.Name):
                            key = 'resource:' + n.ast.targets[0].id
                    else:
                        key = 'resource:subcomm'
                    if key:
                        ev.append(('+', key))
                elif nm == 'Free' and isinstance(c.func.value, ast.Name):
                    ev.append(('-', 'resource:' + c.func.value.id))
                elif nm == 'free_subcomm':
                    ev.append(('-', 'resource:subcomm'))
            return ev

        def transfer(n, label, st, facts):
            m = set(st)
            # resources that turn out to be the null communicator need no release
            if n.kind == 'test' and label in ('t', 'f') and 'COMM_NULL' in ast.unparse(n.extra):
                e = n.extra
                neg = False
                while isinstance(e, ast.UnaryOp):
                    neg, e = not neg, e.operand
                if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name):
                    isnull = isinstance(e.ops[0], (ast.Eq, ast.Is)) == ((label == 't') != neg)
                    if isnull:
                        m.discard('resource:' + e.left.id)
                return [frozenset(m)]
            if label == 'exc' and self.is_cleanup(f, n, snaps, mut, attrs, pair_events):
                return []
            has_yield = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for e in node_exprs(n) for x in ast.walk(e))
            for s in self.loop_restores(f, n, snaps, mut, attrs):
                m.discard(s)
            ws = self.node_writes(f, n, snaps, mut, attrs)
            # a snapshot taken after the change is no snapshot
            if n.kind == 'stmt' and isinstance(n.ast, ast.Assign) and label != 'exc':
                for t in n.ast.targets:
                    if isinstance(t, ast.Name) and t.id in snaps and t.id in restoring:
                        for a in snaps[t.id] & m:
                            m.add('late snapshot of ' + a)
            for a, r in ws:
                if r and (a, id(n.ast)) in partial:
                    m.add('every ' + a)
                if r:
                    m.discard(a)
                elif label != 'exc' or has_yield:
                    m.add(a)
            for sign, key in pair_events(n):
                if sign == '-':
                    m.discard(key)
                elif label != 'exc':
                    m.add(key)
            return [frozenset(m)]

        g, at, seen = explore_safe(f, frozenset(), transfer)
        by_id = {n.id: n for n in g.nodes}
        out = []
        for ex, what in ((g.exit, 'normal exit'), (g.exc_exit, 'exception')):
            for fs, st in at.get(ex.id, ()):
                for a in sorted(st):
                    key = (ex.id, fs, st)
                    out.append((a, what, path_lines(seen, key, by_id)))
        return out

    def run(self):
        p, res = self.p, self.res
        S1 = 'scope-undoes-its-changes'
        res.rule(S1, 'in a context manager every attribute changed and every communicator created before the body runs is '
                     'set back to a value saved beforehand (or released) on every normal and exceptional exit')
        n = 0
        for f in sorted(p.funcs.values(), key=lambda x: x.qual):
            if not f.is_contextmanager:
                continue
            n += 1
            left = self.neutral(f)
            what = sorted({a for a, _, _ in left})
            # a scope must run its clean-up when the body raises: the yield sits in try/finally or with, or nothing was
            # changed before it (covered by the automaton)
            if left:
                for a in what:
                    k = [x for x in left if x[0] == a]
                    res.bad(S1, '%s: %s' % (f.qual, a), f.loc(), '"%s" is not restored at %s' % (
                        a, ' and '.join(sorted({x[1] for x in k}))), k[0][2])
            else:
                res.ok(S1, f.qual, f.loc())
        res.floor(S1, 8)

        S2 = 'temporary-assignment-restored'
        res.rule(S2, 'a function that temporarily assigns one of the tracked attributes gives it back its saved value on '
                     'every exit')
        done = set()
        for mod, name, attrs in ANCHORS:
            f = p.find_func(mod, name)
            for a in attrs:
                done.add((f.qual, a))
                left = self.neutral(f, attrs={a}, pairs=False)
                res.check(not left, S2, '%s: %s' % (f.qual, a), f.loc(),
                          '"%s" is not restored at %s' % (a, ' and '.join(sorted({x[1] for x in left}))),
                          left[0][2] if left else None)
        for f in sorted(p.funcs.values(), key=lambda x: x.qual):
            if f.is_contextmanager or f.name == '__init__':
                continue
            for a in sorted(self.discovered(f)):
                if (f.qual, a) in done:
                    continue
                left = self.neutral(f, attrs={a}, pairs=False)
                res.check(not left, S2, '%s: %s' % (f.qual, a), f.loc(),
                          '"%s" is not restored at %s' % (a, ' and '.join(sorted({x[1] for x in left}))),
                          left[0][2] if left else None)

        S3 = 'scope-entered-with-with'
        res.rule(S3, 'a scope is only ever entered by a with statement (or returned/delegated), so its exit always runs')
        entered(p, res, S3, self.is_scope_factory)
        res.floor(S3, 15)
        self.engine()
        self.registry()
        self.shift_pairs()

    def is_scope_factory(self, t):
        if t.is_contextmanager:
            return True
        # thin delegates such as vm.scoped(...)
        if getattr(t, '_annot', {}).get('scope') is not None:
            return t._annot['scope']
        t._annot['scope'] = False
        for n in own_nodes(t.node):
            if isinstance(n, ast.Return) and isinstance(n.value, ast.Call):
                for u in self.p.resolve_call(t, n.value):
                    if isinstance(u, FuncInfo) and u is not t and self.is_scope_factory(u):
                        t._annot['scope'] = True
        return t._annot['scope']

    def discovered(self, f):
        """Attributes that f saves in a local and later assigns back to the same object."""
        snaps, mut = self.snapshots(f)
        out = set()
        if not snaps:
            return out
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Assign) or not isinstance(n.value, ast.Name) or n.value.id not in snaps:
                continue
            for t in n.targets:
                if isinstance(t, ast.Attribute) and norm(t.attr) in snaps[n.value.id]:
                    base = ast.unparse(t.value)
                    for h, v in self.p.local_assigns(f)[n.value.id]:
                        if isinstance(v, ast.Attribute) and ast.unparse(v.value) == base and norm(v.attr) == norm(t.attr):
                            out.add(norm(t.attr))
        return out

    # -- operations engine --------------------------------------------------------------------------------------
    def engine(self):
        p, res = self.p, self.res
        S4 = 'iteration-releases-communicators'
        res.rule(S4, 'iterating operations frees every sub-communicator it may have created and resets the current one on '
                     'every exit of the generator; sub-communicators are made current only inside scopes or that iteration')
        f = p.find_func('ocgis.ops.engine', 'OperationsEngine.__iter__')

        def creates(call, g):
            nm = call.func.attr if isinstance(call.func, ast.Attribute) else ''
            if nm in ('create_subcomm', 'create_subcomm_by_emptyable'):
                for k in call.keywords:
                    if k.arg == 'is_current' and not (isinstance(k.value, ast.Constant) and not k.value.value):
                        return True
            return False

        # who creates
        creators = {}
        for g in p.funcs.values():
            for c in p.calls(g):
                if creates(c, g) and g.name not in ('vm_scope',) and not g.is_contextmanager and \
                        not (g.cls is not None and g.cls.name == 'OcgVM'):
                    creators.setdefault(g.qual, []).append(c)
        reach = self._reach(f)
        for q, cs in sorted(creators.items()):
            g = p.funcs[q]
            for c in cs:
                res.check(q in reach, S4, '%s makes a sub-communicator current' % q, g.loc(c),
                          'sub-communicator made current outside a scope and outside the operations iteration')
        # the iteration itself
        def body_event(n):
            for c in node_calls(n):
                for t in p.resolve_call(f, c):
                    if isinstance(t, FuncInfo) and (t.qual in creators or self._reach(t) & set(creators)):
                        return True
            return False

        def frees(g, depth=0):
            """set of undo events performed at each node: computed per node below"""

        def undo(n, g=f, depth=0):
            out = set()
            for c in node_calls(n):
                nm = c.func.attr if isinstance(c.func, ast.Attribute) else ''
                if nm == 'set_comm':
                    arg = list(c.args) + [k.value for k in c.keywords]
                    saved = self.saved_on_self(g, 'current_comm_name')
                    if arg and isinstance(arg[0], ast.Attribute) and arg[0].attr in saved:
                        out.add('comm')
                elif nm == 'pop' and isinstance(c.func.value, ast.Attribute) and norm(c.func.value.attr) == 'backtransform':
                    out.add('backtransform')
                elif depth < 2:
                    for t in p.resolve_call(g, c):
                        if isinstance(t, FuncInfo) and t.cls is g.cls and g.cls is not None and t is not g and \
                                not any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(t.node)):
                            out |= must_undo(t, depth + 1)
            if n.kind == 'iter':
                inner = set()
                for x in ast.walk(n.ast):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                        if x.func.attr == 'free_subcomm' and whole(n.ast) and 'SubcommName' in ast.unparse(n.ast.iter) and \
                                not ended_by_failure(g, n.ast, x):
                            inner.add('subcomms')
                        if x.func.attr == 'pop' and whole(n.ast) and 'backtransform' in ast.unparse(x.func.value).lower():
                            inner.add('backtransform')
                out |= inner
            if n.kind == 'stmt' and isinstance(n.ast, ast.Assign):
                for t in n.ast.targets:
                    if isinstance(t, ast.Attribute) and norm(t.attr) == 'backtransform':
                        out.add('backtransform')
            for c in node_calls(n):
                if isinstance(c.func, ast.Attribute) and c.func.attr == 'clear' and \
                        isinstance(c.func.value, ast.Attribute) and norm(c.func.value.attr) == 'backtransform':
                    out.add('backtransform')
            return out

        def must_undo(g, depth):
            gg, at, seen = explore_safe(g, frozenset(), lambda n, l, st, fs: [st | undo(n, g, depth)])
            sets = [st for _, st in at.get(gg.exit.id, ())]
            return frozenset.intersection(*sets) if sets else frozenset()

        def transfer(n, label, st, facts):
            st = set(st)
            if body_event(n):
                st |= {'comm', 'subcomms', 'backtransform'}
            un = undo(n)
            loop = n.ast if n.kind in ('for', 'iter') and isinstance(n.ast, ast.For) else None
            if label == 'exc' and (un or any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and
                                             c.func.attr in ('free_subcomm', 'set_comm')
                                             for c in (ast.walk(loop) if loop is not None else node_calls(n)))):
                return []  # failures of the clean-up itself are out of scope
            st -= un
            return [frozenset(st)]

        g, at, seen = explore_safe(f, frozenset(), transfer)
        by_id = {n.id: n for n in g.nodes}
        any_event = any(body_event(n) for n in g.nodes)
        if not any_event:
            raise AnalysisBroken('operations iteration no longer reaches the creation of sub-communicators')
        bad = {}
        for ex, what in ((g.exit, 'normal exit'), (g.exc_exit, 'exception or early close')):
            for fs, st in at.get(ex.id, ()):
                for a in st:
                    bad.setdefault(a, (what, path_lines(seen, (ex.id, fs, st), by_id)))
        for a, text in (('comm', 'current communicator reset'), ('subcomms', 'sub-communicators freed'),
                        ('backtransform', 'rotated-pole back transformation dropped')):
            res.check(a not in bad, S4, '%s: %s' % (f.qual, text), f.loc(),
                      'not done at %s' % (bad.get(a, ('', None))[0]), bad.get(a, ('', None))[1])
        # names given to create_subcomm_by_emptyable must be members the clean-up loops over
        for q, cs in sorted(creators.items()):
            g2 = p.funcs[q]
            for c in cs:
                arg = c.args[0] if c.args else next((k.value for k in c.keywords if k.arg == 'name'), None)
                txt = ast.unparse(arg) if arg is not None else ''
                res.check('SubcommName.' in txt, S4, '%s: name of sub-communicator' % q, g2.loc(c),
                          'sub-communicator name %s is not a member of the enumeration the clean-up frees' % txt)

    def registry(self):
        """Releasing a communicator by its name forgets the name: it can be created again."""
        p, res = self.p, self.res
        R = 'released-communicator-is-forgotten'
        res.rule(R, 'a communicator that is released is removed from the table of communicators, and no current one remains when all are')
        free = p.find_func('ocgis.vmachine.core', 'OcgVM.free_subcomm')
        fin = p.find_func('ocgis.vmachine.core', 'OcgVM.finalize')

        def entry(x):
            return isinstance(x, ast.Attribute) and norm(x.attr) == 'subcomms'

        def transfer(n, label, st, facts):
            st = set(st)
            for e in node_exprs(n):
                for x in ast.walk(e):
                    if isinstance(x, ast.Subscript) and entry(x.value):
                        st.discard('kept') if isinstance(x.ctx, ast.Del) else st.add('kept')
                    elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and entry(x.func.value):
                        if x.func.attr == 'get':
                            st.add('kept')
                        elif x.func.attr in ('pop', 'clear'):
                            st.discard('kept')
            for c in node_calls(n):
                if isinstance(c.func, ast.Attribute) and c.func.attr == 'get_subcomm':
                    st.add('kept')
            return [frozenset(st)]
        g, at, seen = explore_safe(free, frozenset(), transfer)
        kept = [st for _, st in at.get(g.exit.id, ()) if st]
        res.check(not kept, R, free.qual, free.loc(), 'the name of the released communicator stays in the table')
        cleared = set()
        for x in own_nodes(fin.node):
            if isinstance(x, ast.Assign):
                cleared |= {norm(t.attr) for t in x.targets if isinstance(t, ast.Attribute)}
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Attribute):
                if x.func.attr == 'clear':
                    cleared.add(norm(x.func.value.attr))
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                if x.func.attr == 'set_comm':
                    cleared.add('current_comm_name')
                if x.func.attr == 'free_subcomm' and any(k.arg == 'name' for k in x.keywords):
                    cleared.add('subcomms')
        for a in ('subcomms', 'current_comm_name'):
            res.check(a in cleared, R, '%s: %s' % (fin.qual, a), fin.loc(), 'releasing everything leaves %s as it was' % a)

    def _reach(self, f, seen=None):
        top = seen is None
        if top:
            if 'reach' in f._annot:
                return f._annot['reach']
            seen = set()
        stack = [f]
        while stack:
            g = stack.pop()
            if g.qual in seen:
                continue
            seen.add(g.qual)
            for c in self.p.calls(g):
                for t in self.p.resolve_call(g, c):
                    if isinstance(t, FuncInfo) and t.qual not in seen:
                        stack.append(t)
        f._annot['reach'] = seen
        return seen

    # -- in-place shift and shift back --------------------------------------------------------------------------
    def shift_pairs(self):
        """A method that shifts coordinate values in place under a saved selection and the method that shifts them back:
        every caller of the first reaches the second on every exit."""
        p, res = self.p, self.res
        S5 = 'in-place-shift-undone'
        res.rule(S5, 'coordinates of the target shifted in place before a subset are shifted back on every exit')
        n = 0
        for c in sorted(p.classes.values(), key=lambda x: x.qual):
            ups, downs = {}, {}
            for m in c.methods.values():
                for x in own_nodes(m.node):
                    if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Subscript):
                        v = x.value
                        if isinstance(v, ast.Constant) and isinstance(v.value, (int, float)):
                            if isinstance(x.op, ast.Add):
                                ups.setdefault(abs(v.value), []).append((m, x))
                            elif isinstance(x.op, ast.Sub):
                                downs.setdefault(abs(v.value), []).append((m, x))
            for k in ups:
                for m, x in ups[k]:
                    if k not in downs and not self._saves_selection(m):
                        continue
                    down = {d.name for d, _ in downs.get(k, []) if d is not m}
                    # walk callers within the class
                    for caller in c.methods.values():
                        for call in p.calls(caller):
                            if m in p.resolve_call(caller, call):
                                n += 1
                                self._must_follow(caller, call, down, S5, '%s undoes %s' % (caller.qual, m.name))
        if n == 0:
            # nothing is shifted in place anywhere: vacuously true
            res.ok(S5, 'no in-place shift of a selection target', 'src/ocgis')

    @staticmethod
    def _saves_selection(m):
        return any(isinstance(x, ast.Assign) and any(isinstance(t, ast.Attribute) for t in x.targets)
                   for x in own_nodes(m.node))

    def _must_follow(self, caller, call, down, rule, construct):
        p = self.p

        def calls_down(n):
            for c in node_calls(n):
                for t in p.resolve_call(caller, c):
                    if isinstance(t, FuncInfo) and (t.name in down or any(
                            isinstance(u, FuncInfo) and u.name in down for c2 in p.calls(t)
                            for u in p.resolve_call(t, c2)) and t.cls is caller.cls and
                            not any(c2 is call for c2 in p.calls(t)) and t is not caller and
                            not self._calls_up(t, call, caller)):
                        return True
            return False

        def transfer(n, label, st, facts):
            if calls_down(n):
                return [0]
            if any(c is call for c in node_calls(n)) and label != 'exc':
                return [1]
            return [st]

        g, at, seen = explore_safe(caller, 0, transfer)
        by_id = {n.id: n for n in g.nodes}
        left = []
        for ex, what in ((g.exit, 'normal exit'), (g.exc_exit, 'exception')):
            for fs, st in at.get(ex.id, ()):
                if st:
                    left.append((what, path_lines(seen, (ex.id, fs, st), by_id)))
        self.res.check(not left, rule, construct, caller.loc(call), 'values shifted in place stay shifted at %s' % (
            ' and '.join(sorted({x[0] for x in left}))), left[0][1] if left else None)

    def _calls_up(self, t, call, caller):
        up = {u.qual for u in self.p.resolve_call(caller, call) if isinstance(u, FuncInfo)}
        return any(isinstance(u, FuncInfo) and u.qual in up for c in self.p.calls(t) for u in self.p.resolve_call(t, c))


def entered(p, res, rule, is_factory):
    """Every call of a scope is the context of a with statement, is returned, or entered by an exit stack."""
    for f in sorted(p.funcs.values(), key=lambda x: x.qual):
        for c in p.calls(f):
            ts = [t for t in p.resolve_call(f, c) if isinstance(t, FuncInfo)]
            if not ts or not any(is_factory(t) for t in ts):
                continue
            par = getattr(c, '_parent', None)
            ok = isinstance(par, (ast.withitem, ast.Return)) or (
                isinstance(par, ast.Call) and isinstance(par.func, ast.Attribute) and par.func.attr == 'enter_context')
            if not ok and isinstance(par, ast.Assign) and isinstance(par.targets[0], ast.Name):
                nm = par.targets[0].id
                ok = any(isinstance(x, ast.withitem) and isinstance(x.context_expr, ast.Name) and
                         x.context_expr.id == nm for x in own_nodes(f.node)) or \
                    any(isinstance(x, ast.Return) and isinstance(x.value, ast.Name) and x.value.id == nm
                        for x in own_nodes(f.node))
            if isinstance(par, ast.IfExp):
                ok = True
            res.check(ok, rule, '%s enters %s' % (f.qual, ts[0].name), f.loc(c),
                      'scope %s is created but not entered with a with statement' % ts[0].name)


def run(prog, res):
    Scopes(prog, res).run()
