"""P05: values are read from a source only when they are asked for."""
import ast

from ..program import ClassInfo, FuncInfo, own_nodes, AnalysisBroken
from ..walk import Walker, Client, St, WalkBudget, NONE, show

R_LAZY = 'describing-slicing-and-copying-do-not-load'
R_GATE = 'source-read-only-when-nothing-was-loaded'
R_ALLOC = 'allocation-flags-mean-allocated'
R_SIB = 'reading-keeps-values-of-siblings'
R_RAW = 'source-payload-indexed-only-when-reading'

# Public operations after which nothing may have been read: (class, names).  Overrides in subclasses are included.
LAZY = [
    ('RequestDataset', '__init__ metadata driver crs dimension_map variable units field_name has_data_variables __len__ '
                       '__iter__ rename_variable create_raw_field create_field get get_field'),
    ('Variable', '__init__ shape size ndim dtype dimensions dimensions_dict dimension_names has_dimensions bounds has_bounds '
                 'has_mask has_allocated_mask has_allocated_value is_empty is_orphaned dist units cfunits fill_value ugid '
                 'group parent copy __getitem__ extract set_name set_ugid set_dimensions set_mask remove_value convert_to_empty '
                 'get_distributed_slice get_scatter_slices iter_dict_slices set_bounds deepcopy create_ugid'),
    ('TemporalVariable', 'calendar'),
    ('VariableCollection', '__init__ __getitem__ copy extract add_variable remove_variable dimensions shapes '
                           'iter_variables_by_dimensions get_by_tag append_to_tags rename_dimension strip is_empty find_by_attribute'),
    ('Field', 'axes_shapes bounds_variables coordinate_variables crs data_variables realization temporal time level x y z '
              'grid geom has_data_variables grid_abstraction iter_data_variables get_field_slice set_time set_x set_y set_crs '
              'set_grid set_geom set_level set_realization'),
    ('Grid', '__init__ __getitem__ copy extract abstraction abstractions_available dtype has_bounds is_vectorized shape '
             'dimensions archetype x y z has_mask mask_variable coordinate_variables get_member_variables '
             'get_distributed_slice is_abstraction_available'),
    ('AbstractGeometryCoordinates', 'shape ndim dimensions node_dim element_dim cindex archetype has_bounds '
                                    'is_vectorized x y get_distributed_slice'),
]
# Reading from the source.
PRIMITIVES = ('init_variable_value', 'get_variable_value')
SUBSETS = ('time_range', 'time_region', 'time_subset_func', 'level_range')
STATE = ('_value', '_mask', '_has_initialized_value')
FLAGS = ('has_allocated_value', 'has_allocated_mask')
GUARD_ATTRS = set(SUBSETS) | set(STATE) | set(FLAGS)
BOUND_LOADS = {'get_value', 'load', 'get_masked_value', 'get_mask', 'v', 'm', 'mv', '_get_value_'}
MAX_CONTEXTS = 6


class LClient(Client):
    want_exc = False

    def __init__(self, lazy, f):
        self.lazy = lazy
        self.sites = {}
        self.names = set()
        for x in own_nodes(f.node):
            if isinstance(x, (ast.Assign, ast.NamedExpr)) and any(
                    isinstance(y, ast.Attribute) and y.attr in GUARD_ATTRS for y in ast.walk(x.value)):
                for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                    if isinstance(t, ast.Name):
                        self.names.add(t.id)

    def inline(self, w, f, call, t, recv):
        return self.lazy.small(t)

    def relevant(self, w, f, node):
        e = node.extra if isinstance(node.extra, ast.AST) else node.ast
        if e is None:
            return False
        for x in ast.walk(e):
            if isinstance(x, ast.Attribute) and (x.attr in GUARD_ATTRS or self.lazy.guardish(x.attr)):
                return True
            if isinstance(x, ast.Name) and (x.id in ('value', 'mask') or x.id in self.names or x.id in f.params):
                return True
        return False

    def keep_attr(self, b, a):
        return a in STATE

    def note(self, node, recv, args, st):
        g = self.lazy.is_guarded(recv, args, st)
        self.sites[id(node)] = self.sites.get(id(node), True) and g

    def call(self, w, f, e, name, recv, args, kwargs, st):
        if recv == ('super',):
            recv = st.env.get(f.params[0]) if f.params else None
        self.note(e, recv, args + tuple(v for _, v in kwargs), st)


class LWalker(Walker):
    def getattr_(self, f, e, b, st, excs):
        self.c.note(e, b, (), st)
        if b[0] == 'g' and b[1] in self.p.classes:
            for k in self.p.mro(self.p.classes[b[1]]):
                v = k.attrs.get(e.attr)
                if isinstance(v, ast.Constant):
                    return self.ev(f, v, st, excs)
        return Walker.getattr_(self, f, e, b, st, excs)

    def ev(self, f, e, st, excs):
        if isinstance(e, ast.Subscript):
            self.c.note(e, None, (), st)
        elif isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out, pre = [], [st]
            for i, x in enumerate(e.values):
                last = i == len(e.values) - 1
                nxt = []
                for s in pre:
                    if last:
                        out += self.ev(f, x, s, excs)
                        continue
                    for s2 in self.assume(f, x, stop, s, excs):
                        out += [(v, s3) for v, s3 in self.ev(f, x, s2, excs)]
                    nxt += self.assume(f, x, not stop, s, excs)
                pre = list(dict.fromkeys(nxt))
            return self._cap(out)
        elif isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            sts = [st]
            for g in e.generators:
                nxt = []
                for s in sts:
                    for _, s2 in self.ev(f, g.iter, s, excs):
                        s3 = [self._bind_target(f, g.target, self.fresh(s2, 'comp', g.iter), s2, excs)]
                        for c in g.ifs:
                            s3 = [s5 for s4 in s3 for s5 in self.assume(f, c, True, s4, excs)]
                        nxt += s3
                sts = list(dict.fromkeys(nxt))
            for s in sts:
                for x in ([e.key, e.value] if isinstance(e, ast.DictComp) else [e.elt]):
                    self.ev(f, x, s, excs)
            v = self.fresh(st, 'comp', e)
            return [(v, self.forget(st, v))]
        elif isinstance(e, ast.Lambda):
            self.ev(f, e.body, st, excs)
        return Walker.ev(self, f, e, st, excs)


class Lazy(object):
    def __init__(self, prog):
        self.p = prog
        self._small, self._guards, self._edges = {}, {}, {}
        self.props = {}
        for f in prog.funcs.values():
            if f.kind == 'property':
                self.props.setdefault(f.name, []).append(f)
        self.given_up = []
        self.contexts = {}

    # -- guards
    def small(self, t):
        r = self._small.get(t.qual)
        if r is None:
            body = [x for x in t.node.body if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant))]
            r = all(isinstance(x, (ast.Return, ast.Assign, ast.If)) for x in body) and len(body) <= 4 and not any(
                isinstance(x, (ast.Call, ast.Subscript)) for x in own_nodes(t.node))
            self._small[t.qual] = r
        return r

    def guardish(self, name):
        """Is this the name of a small property or method about the allocation state?"""
        for f in self.p.by_method_name.get(name, []):
            if self.small(f) and any(isinstance(x, ast.Attribute) and x.attr in GUARD_ATTRS for x in own_nodes(f.node)):
                return True
        return False

    @staticmethod
    def is_guarded(recv, args, st):
        for k, v in st.facts.items():
            if k[0] == 'isnone' and v is False:
                x = k[1]
                if x[0] == 'attr' and x[2] in SUBSETS:
                    return True
                if x[0] == 'attr' and x[2] in ('_value', '_mask') and (x[1] == recv or x[1] in args):
                    return True
                if x[0] == 'p' and x[2] == 'value' and x[1].endswith('.__init__') and recv is not None and recv[0] == 'self':
                    return True
            elif k[0] == 'attr' and v is True:
                if k[2] in FLAGS and (k[1] == recv or k[1] in args):
                    return True
                if k[2] in SUBSETS:
                    return True
                if k[2] == '_has_initialized_value' and (k[1] == recv or k[1] in args):
                    return True
        return False

    def has_tests(self, f, consts):
        consts = frozenset((n, v) for n, v in consts if n != '#given')
        names = {n for n, _ in consts}
        for x in own_nodes(f.node):
            if isinstance(x, ast.Attribute) and (x.attr in GUARD_ATTRS or self.guardish(x.attr)):
                return True
            if isinstance(x, ast.Name) and x.id in names:
                return True
            if isinstance(x, ast.Name) and x.id == 'value' and 'value' in f.params:
                return True
        return bool(names and f.kwarg)

    def guards(self, f, consts):
        key = (f.qual, consts)
        if key in self._guards:
            return self._guards[key]
        r = None
        if self.has_tests(f, consts):
            c = LClient(self, f)
            w = LWalker(self.p, c)
            args, extra = {}, []
            for n, v in consts:
                if n == '#given':
                    continue
                sym = ('c', v) if not isinstance(v, (bool, int)) else ('c', v, type(v).__name__)
                if n in f.params or n in [a.arg for a in f.node.args.kwonlyargs]:
                    args[n] = sym
                else:
                    extra.append((('c', n), sym))
            if extra and f.kwarg:
                args[f.kwarg] = ('dict', tuple(extra))
            try:
                w.run(f, args)
                r = c.sites
            except WalkBudget:
                self.given_up.append(f.qual)
        self._guards[key] = r
        return r

    # -- call graph
    def consts_of(self, t, n, f, consts):
        """Constant arguments of a call, as far as t's parameters are concerned."""
        if not isinstance(n, ast.Call):
            return frozenset()
        out = {}
        keywords = []
        for k in n.keywords:
            d = self.local_dict(f, k.value) if k.arg is None else None
            keywords += [k] if d is None else d
        star = any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in keywords)
        known = dict(consts)
        forwarded = None
        if star and '#given' in known and self.forwards(f, n):
            forwarded = [x for x in known['#given'] if x not in f.params]
            star = False
        pos = [a.arg for a in t.node.args.posonlyargs + t.node.args.args]
        if t.cls is not None and t.kind in ('method', 'class') and pos:
            pos = pos[1:]
        given = set()

        def value(e):
            if isinstance(e, ast.Constant) and (e.value is None or isinstance(e.value, bool)):
                return True, e.value
            if isinstance(e, ast.Name) and e.id in known and e.id in f.params and e.id not in self.p.local_assigns(f):
                return True, known[e.id]
            return False, None

        for i, a in enumerate(n.args):
            if isinstance(a, ast.Starred) or i >= len(pos):
                break
            given.add(pos[i])
            ok, v = value(a)
            if ok:
                out[pos[i]] = v
        for k in keywords:
            if k.arg is None:
                continue
            given.add(k.arg)
            ok, v = value(k.value)
            if ok:
                out[k.arg] = v
        if forwarded is not None:
            given |= set(forwarded)
            for x in forwarded:
                if x in known:
                    out[x] = known[x]
        if not star and len([a for a in n.args if not isinstance(a, ast.Starred)]) <= len(pos):
            out['#given'] = tuple(sorted(given))
        if not star:
            a = t.node.args
            pl = [x.arg for x in a.posonlyargs + a.args]
            for name, d in list(zip(reversed(pl), reversed(a.defaults))) + list(zip([x.arg for x in a.kwonlyargs], a.kw_defaults)):
                if name not in given and isinstance(d, ast.Constant) and (d.value is None or isinstance(d.value, bool)):
                    out[name] = d.value
        return frozenset(out.items())

    def local_dict(self, f, e):
        """Keywords for ``**e`` where e is a local dictionary written out once and not changed."""
        if isinstance(e, ast.Name):
            vals = self.p.local_assigns(f).get(e.id, [])
            if len(vals) != 1 or vals[0][0] != 'val' or e.id in f.params:
                return None
            for x in own_nodes(f.node):
                if isinstance(x, (ast.Subscript, ast.Attribute)) and isinstance(x.value, ast.Name) and x.value.id == e.id and \
                        (isinstance(x.ctx, ast.Store) or isinstance(x, ast.Attribute)):
                    return None
            e = vals[0][1]
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'dict' and not e.args and all(
                k.arg for k in e.keywords):
            return list(e.keywords)
        if isinstance(e, ast.Dict) and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in e.keys):
            return [ast.keyword(arg=k.value, value=v) for k, v in zip(e.keys, e.values)]
        return None

    @staticmethod
    def forwards(f, n):
        """Are the only starred arguments of the call f's own *args and **kwargs?"""
        for a in n.args:
            if isinstance(a, ast.Starred) and not (isinstance(a.value, ast.Name) and a.value.id == f.vararg):
                return False
        for k in n.keywords:
            if k.arg is None and not (isinstance(k.value, ast.Name) and k.value.id == f.kwarg):
                return False
        return True

    def limit(self, t, consts):
        s = self.contexts.setdefault(t.qual, set())
        if consts not in s:
            if len(s) >= MAX_CONTEXTS:
                return frozenset()
            s.add(consts)
        return consts

    def raw_edges(self, f):
        if f.qual in self._edges:
            return self._edges[f.qual]
        out = []
        for n in own_nodes(f.node):
            ts = []
            if isinstance(n, ast.Call):
                ts = [t for t in self.p.resolve_call(f, n) if isinstance(t, FuncInfo)]
                fn = n.func
                if isinstance(fn, ast.Attribute) and fn.attr.startswith('__') and not self.p.infer(f, fn.value) and not (
                        isinstance(fn.value, ast.Call) or isinstance(fn.value, ast.Name) and fn.value.id[:1].isupper()):
                    ts = []  # a dunder method called on an unknown object
                if isinstance(fn, ast.Name) and fn.id in ('len', 'iter', 'list', 'tuple', 'sorted', 'set', 'str', 'repr') and n.args:
                    dn = {'len': '__len__', 'str': '__str__', 'repr': '__repr__'}.get(fn.id, '__iter__')
                    for t in self.p.infer(f, n.args[0]):
                        if isinstance(t, ClassInfo):
                            ts += self.p.family(t, dn)
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                par = getattr(n, '_parent', None)
                if n.attr in BOUND_LOADS and not (isinstance(par, ast.Call) and par.func is n):
                    ts = list(self.p.by_method_name.get(n.attr, []))  # bound method handed on
                elif n.attr in self.props:
                    it = self.p.infer(f, n.value)
                    if it:
                        for t in it:
                            if isinstance(t, ClassInfo):
                                ts += [m for m in self.p.family(t, n.attr) if m.kind == 'property']
                    else:
                        ts = list(self.props[n.attr])
            elif isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                for t in self.p.infer(f, n.value):
                    if isinstance(t, ClassInfo):
                        m = self.p.find_setter(t, n.attr)
                        if m is not None:
                            ts.append(m)
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load):
                for t in self.p.infer(f, n.value):
                    if isinstance(t, ClassInfo):
                        ts += self.p.family(t, '__getitem__')
            elif isinstance(n, (ast.For, ast.comprehension)):
                for t in self.p.infer(f, n.iter):
                    if isinstance(t, ClassInfo):
                        ts += self.p.family(t, '__iter__')
            if ts:
                out.append((n, ts))
        for g in f.nested.values():
            out.append((g.node, [g]))
        self._edges[f.qual] = out
        return out

    def accepts(self, t, n):
        if t.kwarg is not None:
            return True
        names = {a.arg for a in t.node.args.posonlyargs + t.node.args.args + t.node.args.kwonlyargs}
        return all(k.arg is None or k.arg in names for k in n.keywords)

    def narrow(self, f, n, ts, selfcls):
        """[(target, class of its receiver or None)] given the class of f's receiver."""
        e = n.func if isinstance(n, ast.Call) else n
        if isinstance(n, ast.Call) and ts and all(t.name == '__init__' for t in ts) and not (
                isinstance(e, ast.Attribute) and e.attr == '__init__'):
            cs = [c for c in self.p.infer(f, n) if isinstance(c, ClassInfo)]
            return [(t, cs[0] if len(cs) == 1 else None) for t in ts]
        if selfcls is not None and isinstance(e, ast.Attribute):
            m = None
            own = isinstance(e.value, ast.Name) and e.value.id == f.selfname
            if own and isinstance(e.ctx, ast.Store):
                m = self.p.find_setter(selfcls, e.attr)
                return [(m, selfcls)] if m is not None else []
            if own:
                m = self.p.find_method(selfcls, e.attr)
            elif isinstance(e.value, ast.Call) and isinstance(e.value.func, ast.Name) and e.value.func.id == 'super' and f.cls:
                m = self.p.find_method(selfcls, e.attr, after=f.cls)
            elif isinstance(n, ast.Call) and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == f.selfname and \
                    all(t.cls is not None and t.kind == 'method' for t in ts):
                return [(t, selfcls) for t in ts]
            if m is not None:
                if not isinstance(n, ast.Call) and m.kind != 'property':
                    return [(t, None) for t in ts]
                return [(m, selfcls)]
        return [(t, None) for t in ts]

    def open_edges(self, f, consts, selfcls):
        es = self.raw_edges(f)
        if not es:
            return
        g = self.guards(f, consts)
        for n, ts in es:
            if g is not None and isinstance(n, (ast.Call, ast.Attribute, ast.Subscript)) and \
                    not (isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store)):
                if id(n) not in g or g[id(n)]:
                    continue  # not reached, or only with something allocated
            for t, sc in self.narrow(f, n, ts, selfcls):
                if isinstance(n, ast.Call) and not self.accepts(t, n):
                    continue
                if t.parent is f:
                    sc = selfcls
                yield n, t, self.limit(t, self.consts_of(t, n, f, consts)), sc

    def search(self, root):
        start = (root.qual, frozenset(), None)
        prev = {start: None}
        work = [start]
        while work:
            k = work.pop(0)
            f, c, sc = self.p.funcs[k[0]], k[1], k[2]
            if is_primitive(f):
                path = []
                while prev.get(k):
                    pk, n = prev[k]
                    path.append((self.p.funcs[pk[0]], n, k[0]))
                    k = pk
                return path[::-1], prev
            for n, t, tc, tsc in self.open_edges(f, c, self.p.classes[sc] if sc else None):
                nk = (t.qual, tc, tsc.qual if tsc is not None else None)
                if nk not in prev:
                    prev[nk] = (k, n)
                    work.append(nk)
        return None, prev


def is_primitive(f):
    return f.name in PRIMITIVES or (f.name == '_get_value_' and f.cls is not None and f.cls.name == 'SourcedVariable')


def loc(f, n):
    return f.loc(n) if hasattr(n, 'lineno') else f.loc()


def run(prog, res):
    res.rule(R_LAZY, 'no call path from an operation that opens, describes, slices or copies reaches a read of the source, '
                     'except behind a test that values are already allocated or that a subset by value was requested')
    res.rule(R_GATE, 'the driver is asked for values only if none are allocated, none were read before and the variable is not '
                     'protected; afterwards the variable counts as read')
    res.rule(R_ALLOC, 'has_allocated_value / has_allocated_mask are true exactly when an array is held')
    res.rule(R_SIB, 'a driver that reads several variables at once sets only those that hold no values yet')
    res.rule(R_RAW, 'arrays of an open source dataset are indexed only inside functions that exist to read values')
    lz = Lazy(prog)
    reached = set()
    seen_sites = set()
    for cname, names in LAZY:
        c = prog.cls_named(cname)
        if c is None:
            if not getattr(prog, 'fixture', False):
                raise AnalysisBroken('class %s not found' % cname)
            continue
        for name in names.split():
            roots = [m for m in prog.family(c, name) if not m.is_abstract]
            for r in roots:
                if is_primitive(r):
                    continue
                path, prev = lz.search(r)
                reached |= {k[0] for k in prev}
                what = '%s.%s' % (r.cls.name if r.cls else '', r.name)
                if path is None:
                    res.ok(R_LAZY, what, r.loc(), '%d functions' % len(prev))
                    continue
                # report the deepest call outside the loading functions themselves
                k = len(path) - 1
                while k > 0 and path[k][0].name in BOUND_LOADS:
                    k -= 1
                f, n, _ = path[k]
                key = (f.qual, getattr(n, 'lineno', 0))
                text = ' -> '.join(['%s:%s' % (x[0].qual.split(':')[-1], getattr(x[1], 'lineno', '?')) for x in path] + [path[-1][2].split(':')[-1]])
                if key in seen_sites:
                    continue
                seen_sites.add(key)
                res.bad(R_LAZY, '%s|%s' % (what, f.qual), loc(f, n), '%s reads values from the source: %s' % (what, text))
    res.count('functions_analysed', len(reached))
    res.count('walks_given_up', len(lz.given_up))
    gate_rule(prog, res)
    flag_rule(prog, res)
    alloc_rule(prog, res)
    sibling_rule(prog, res)
    raw_rule(prog, res)
    if not getattr(prog, 'fixture', False):
        res.floor(R_LAZY, 90)
        res.floor(R_GATE, 1)
        res.floor(R_ALLOC, 2)
        res.floor(R_SIB, 4)
        res.floor(R_RAW, 2)


class GateClient(Client):
    want_exc = False

    def __init__(self, rule, root):
        self.hits = []
        self.root = root

    def inline(self, w, f, call, t, recv):
        if is_read(call) or t.name == '__init__':
            return False
        return recv is not None and recv[0] == 'self' and t.cls is not None and len(t.node.body) < 25 and \
            mentions(t, STATE + ('protected',))

    def keep_attr(self, b, a):
        return a in STATE + ('protected',)

    def relevant(self, w, f, node):
        return True

    def call(self, w, f, e, name, recv, args, kwargs, st):
        if is_read(e):
            self.hits.append((f, e, recv, args, st))
            out = w.fresh(st, 'call', e)
            env = {k: v for k, v in st.env.items() if not (isinstance(k, tuple) and k[1] == '_value')}
            return [(out, St(env, st.facts, st.tok | {('read', f.qual, e.lineno)}))]


def mentions(t, names):
    return any(isinstance(x, ast.Attribute) and x.attr in names for x in own_nodes(t.node))


def is_read(e):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'init_variable_value'


def gate_rule(prog, res):
    """Every call of driver.init_variable_value outside the drivers."""
    callers = []
    for f in prog.funcs.values():
        if any(is_read(n) for n in own_nodes(f.node)) and f.name != 'init_variable_value':
            callers.append(f)
    # start at the callers' callers within the class so that extracted helpers see their guards
    roots = []
    for f in callers:
        if f.cls is None:
            roots.append(f)
            continue
        ups = [g for g in prog.family(f.cls, '_get_value_') if g.cls is f.cls]
        roots.append(ups[0] if ups else f)
    done = set()
    for f in roots:
        if f.qual in done:
            continue
        done.add(f.qual)
        c = GateClient(None, f)
        w = Walker(prog, c)
        exits = w.run(f)
        for g, e, recv, args, st in c.hits:
            tgt = args[0] if args else None
            missing = []
            if st.facts.get(('attr', tgt, '_has_initialized_value')) is not False:
                missing.append('it was not read before')
            if st.facts.get(('isnone', ('attr', tgt, '_value'))) is not True:
                missing.append('nothing is allocated')
            if st.facts.get(('attr', tgt, 'protected')) is not False:
                missing.append('it is not protected')
            res.check(not missing, R_GATE, '%s|read' % g.qual, g.loc(e),
                      'values are read without having found that ' + ', '.join(missing))
        for kind, val, st in exits or []:
            if kind == 'ret' and any(t[0] == 'read' for t in st.tok):
                ok = any(isinstance(k, tuple) and k[1] == '_has_initialized_value' and v[0] == 'c' and v[1] is True
                         for k, v in st.env.items())
                res.check(ok, R_GATE, '%s|marked' % f.qual, f.loc(), 'a variable is not marked as read after reading its values')


def flag_rule(prog, res):
    """A variable that was read stays read: its own methods do not take the mark back, unless they forget everything that was
    derived from the source (redistribution)."""
    flag = '_has_initialized_value'
    for f in prog.funcs.values():
        if f.cls is None:
            continue
        marks, forgets = [], False
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Assign):
                continue
            for t in n.targets:
                if not (isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == 'self'):
                    continue
                if t.attr == flag:
                    marks.append(n)
                forgets |= t.attr == '_is_empty'
        if not marks:
            continue
        setup = f.name == '__init__'
        if not setup:
            callers = [g for g in prog.funcs.values() for n in own_nodes(g.node)
                       if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == f.name]
            setup = bool(callers) and all(g.name == '__init__' for g in callers)
        for n in marks:
            kept = not (isinstance(n.value, ast.Constant) and n.value.value is False)
            res.check(setup or forgets or kept, R_GATE, '%s|unmarked' % f.qual, f.loc(n),
                      'a variable that was read from its source counts as unread again, so that removed or set values are read anew')


def alloc_rule(prog, res):
    for name, attr in (('has_allocated_value', '_value'), ('has_allocated_mask', '_mask')):
        for f in prog.by_method_name.get(name, []):
            if f.is_abstract or f.kind != 'property':
                continue
            if f.cls is None or not (f.cls.name == 'Variable' or prog.is_subclass(f.cls, 'Variable')):
                continue
            w = Walker(prog, Client())
            vals = set()
            for kind, val, st in w.run(f):
                if kind != 'ret':
                    continue
                sym = ('attr', ('self', f.cls.qual), attr)
                want = ('not', ('isnone', sym))
                if val == want:
                    vals.add(True)
                elif val[0] == 'c' and st.facts.get(('isnone', sym)) is not None:
                    vals.add(bool(val[1]) is (not st.facts[('isnone', sym)]))
                else:
                    vals.add(False)
            res.check(vals == {True}, R_ALLOC, '%s.%s' % (f.cls.name, name), f.loc(), '%s does not tell whether %s is held' % (name, attr))


READERS = {'get_variable_value', 'init_variable_value', '_get_value_', 'get_value'}
PULL = {'array', 'asarray', 'copy', 'list', 'tuple', 'sum', 'min', 'max', 'any', 'all', 'nanmin', 'nanmax', 'unique', 'ravel'}


def raw_rule(prog, res):
    """Arrays behind dataset.variables in driver modules are pulled in only by functions that exist to read values."""
    for f in prog.funcs.values():
        if '.driver' not in f.module.name and not getattr(prog, 'fixture', False):
            continue
        srcs = set()
        for x in own_nodes(f.node):
            if isinstance(x, ast.Assign) and is_ncvar(x.value):
                srcs |= {t.id for t in x.targets if isinstance(t, ast.Name)}
            elif isinstance(x, (ast.For, ast.comprehension)):
                it = x.iter
                while isinstance(it, ast.Call) and it.args and isinstance(it.func, (ast.Name, ast.Attribute)) and \
                        not is_table(it.func):
                    it = it.args[0]
                how = it.func.attr if isinstance(it, ast.Call) and isinstance(it.func, ast.Attribute) else None
                called = ast.unparse(x.iter.func) if isinstance(x.iter, ast.Call) else ''
                if how in ('items', 'values') and is_table(it.func) or isinstance(it, ast.Attribute) and \
                        is_table_attr(it) and called.split('.')[-1] in ('iteritems', 'itervalues'):
                    t = x.target
                    if isinstance(t, ast.Tuple) and len(t.elts) == 2:
                        t = t.elts[1]
                    if isinstance(t, ast.Name):
                        srcs.add(t.id)
        n = 0
        for x in own_nodes(f.node):
            hit = None
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and held(x.value, srcs):
                par = getattr(x, '_parent', None)
                if isinstance(x.slice, ast.Constant) and isinstance(par, ast.Attribute) and par.attr == 'dtype':
                    continue  # one leading element, looked at for its data type only
                hit = x
            elif isinstance(x, ast.Call):
                fn = x.func
                last = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
                if last in PULL and any(held(a, srcs) for a in x.args):
                    hit = x
                elif isinstance(fn, ast.Attribute) and fn.attr in ('__getitem__', '__array__') and held(fn.value, srcs):
                    hit = x
            if hit is not None:
                n += 1
                res.check(f.name in READERS or only_from_readers(prog, f), R_RAW, '%s|%d' % (f.qual, n), f.loc(hit),
                          'a source array is read in a function that does not exist to read values')
        if srcs and not n:
            res.ok(R_RAW, f.qual, f.loc())


def held(e, srcs):
    return is_ncvar(e) or isinstance(e, ast.Name) and e.id in srcs


def is_table_attr(e):
    return isinstance(e, ast.Attribute) and e.attr == 'variables' and not (isinstance(e.value, ast.Name) and e.value.id == 'self')


def is_table(fn):
    return isinstance(fn, ast.Attribute) and is_table_attr(fn.value)


def is_ncvar(e):
    return isinstance(e, ast.Subscript) and is_table_attr(e.value) and not isinstance(e.slice, ast.Slice) and \
        not (isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int))


def only_from_readers(prog, f):
    callers = set()
    for g in prog.funcs.values():
        for c in prog.calls(g):
            if f in [t for t in prog.resolve_call(g, c) if isinstance(t, FuncInfo)]:
                callers.add(g.name)
    return bool(callers) and callers <= READERS


# ---------------------------------------------------------------------------------------------------------------------
class SibClient(Client):
    want_exc = False

    def __init__(self, prog):
        self.p = prog
        self.hits = []

    def keep_attr(self, b, a):
        return False

    def inline(self, w, f, call, t, recv):
        return False

    def relevant(self, w, f, node):
        e = node.extra if isinstance(node.extra, ast.AST) else node.ast
        return e is not None and any(isinstance(x, ast.Attribute) and x.attr in ('name', 'has_allocated_value', '_value', 'parent')
                                     or isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.Is, ast.IsNot))
                                     for x in ast.walk(e))

    def call(self, w, f, e, name, recv, args, kwargs, st):
        if isinstance(e.func, ast.Attribute) and e.func.attr in ('set_value', 'allocate_value'):
            self.hits.append((f, e, e.func.value, recv, st))

    def store(self, w, f, node, key, val, st):
        if isinstance(node, ast.Subscript):
            b = node.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Call) and isinstance(b.func, ast.Attribute) and b.func.attr in ('get_value', 'v'):
                r = w.ev(f, b.func.value, st, [])[0][0]
                self.hits.append((f, node, b.func.value, r, st))
        return st


def sibling_rule(prog, res):
    for f in list(prog.funcs.values()):
        if f.name not in READERS or f.cls is None or not f.params or len(f.params) < 2:
            continue
        if not (prog.is_subclass(f.cls, 'AbstractDriver') or getattr(prog, 'fixture', False)):
            continue
        var = f.params[1]
        c = SibClient(prog)
        try:
            Walker(prog, c).run(f)
        except WalkBudget:
            res.bad(R_SIB, f.qual, f.loc(), 'too complex to analyse')
            continue
        verdict = {}
        for g, node, expr, recv, st in c.hits:
            ok = recv == ('p', f.qual, var) or unallocated(st, recv) or source_filtered(prog, g, expr, node, var, set())
            key = (node.lineno, ast.unparse(expr))
            verdict[key] = (verdict.get(key, (True,))[0] and ok, node)
        for (line, text), (ok, node) in sorted(verdict.items()):
            res.check(ok, R_SIB, '%s|%s' % (f.qual, text), f.loc(node),
                      'reading %s replaces values another variable may already hold (%s)' % (var, text))


def unallocated(st, recv):
    return st.facts.get(('attr', recv, 'has_allocated_value')) is False or \
        st.facts.get(('isnone', ('attr', recv, '_value'))) is True


def open_test(e, name, var):
    """Does the filter expression let through only ``var`` itself and variables holding nothing?"""
    if isinstance(e, ast.BoolOp):
        rs = [open_test(x, name, var) for x in e.values]
        return any(rs) if isinstance(e.op, ast.And) else all(rs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        x = e.operand
        if isinstance(x, ast.Attribute) and x.attr == 'has_allocated_value' and isinstance(x.value, ast.Name) and x.value.id == name:
            return True
        return False
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        l, r = e.left, e.comparators[0]
        if isinstance(e.ops[0], (ast.Eq, ast.Is)):
            a, b = ast.unparse(l), ast.unparse(r)
            for p, q in ((a, b), (b, a)):
                if p in (name, name + '.name') and q in (var, var + '.name'):
                    return True
            if isinstance(e.ops[0], ast.Is) and a == name + '._value' and b == 'None':
                return True
    return False


def source_filtered(prog, f, e, site, var, seen):
    """Does the expression denote only ``var`` itself or variables from a collection filtered to those holding nothing?"""
    if isinstance(e, ast.Name):
        if e.id in seen:
            return True
        seen = seen | {e.id}
        if e.id == var:
            return True
        srcs = prog.local_assigns(f).get(e.id, [])
        loops = [x for x in own_nodes(f.node) if isinstance(x, (ast.For, ast.comprehension)) and
                 any(isinstance(t, ast.Name) and t.id == e.id for t in ast.walk(x.target))]
        inside = [x for x in loops if isinstance(x, ast.For) and any(y is site for y in ast.walk(x))]
        if inside:
            return all(elements_filtered(prog, f, x.iter, var, seen) for x in inside)
        vals = [v for how, v in srcs if how == 'val']
        return bool(vals) and all(source_filtered(prog, f, v, site, var, seen) for v in vals)
    if isinstance(e, ast.Subscript):  # parent[k] for k among the keys of something filtered
        k = e.slice
        if isinstance(k, ast.Attribute) and k.attr == 'name':
            return source_filtered(prog, f, k.value, site, var, seen)
        if isinstance(k, ast.Name):
            loops = [x for x in own_nodes(f.node) if isinstance(x, ast.For) and any(y is site for y in ast.walk(x)) and
                     any(isinstance(t, ast.Name) and t.id == k.id for t in ast.walk(x.target))]
            return bool(loops) and all(keys_filtered(prog, f, x.iter, var) for x in loops)
    return False


def elements_filtered(prog, f, e, var, seen):
    if isinstance(e, (ast.List, ast.Tuple)):
        return all(isinstance(x, ast.Name) and x.id == var for x in e.elts)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.SetComp)):
        g = e.generators[-1]
        if isinstance(e.elt, ast.Name) and isinstance(g.target, ast.Name) and e.elt.id == g.target.id:
            return any(open_test(c, g.target.id, var) for c in g.ifs) or elements_filtered(prog, f, g.iter, var, seen)
        return False
    if isinstance(e, ast.Call) and e.args and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'sorted', 'enumerate', 'iter'):
        return elements_filtered(prog, f, e.args[0], var, seen)
    if isinstance(e, ast.Name):
        if e.id in seen:
            return True
        seen = seen | {e.id}
        vals = [v for how, v in prog.local_assigns(f).get(e.id, []) if how == 'val']
        if not vals or not all(elements_filtered(prog, f, v, var, seen) or isinstance(v, (ast.List,)) and not v.elts for v in vals):
            return False
        for x in own_nodes(f.node):  # built up by append
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and \
                    isinstance(x.func.value, ast.Name) and x.func.value.id == e.id:
                if not (x.args and (isinstance(x.args[0], ast.Name) and (x.args[0].id == var or under_open_test(f, x, x.args[0].id, var)))):
                    return False
        return True
    return False


def under_open_test(f, node, name, var):
    q, child = getattr(node, '_parent', None), node
    while q is not None and q is not f.node:
        if isinstance(q, ast.If) and any(child is s for s in q.body) and open_test(q.test, name, var):
            return True
        child, q = q, getattr(q, '_parent', None)
    return False


def keys_filtered(prog, f, e, var):
    """Keys of a mapping filled by the function's own value reader, whose keys were filtered there (decided separately)."""
    base = e
    while isinstance(base, ast.Call):
        if isinstance(base.func, ast.Attribute) and base.func.attr in ('items', 'keys', 'values'):
            base = base.func.value
        elif base.args:
            base = base.args[0]
        else:
            return False
    if not isinstance(base, ast.Name):
        return False
    vals = [v for how, v in prog.local_assigns(f).get(base.id, []) if how == 'val']
    if not vals:
        return False
    for v in vals:
        if not isinstance(v, ast.Call):
            return False
        ts = [t for t in prog.resolve_call(f, v) if isinstance(t, FuncInfo)]
        ts = [t for t in ts if t.cls is None or f.cls is None or t.cls is f.cls or f.cls in t.cls.subs or t.cls in prog.mro(f.cls)]
        own = [t for t in ts if t.cls is f.cls] or ts
        if not own or not all(result_keys_filtered(prog, t) for t in own):
            return False
    return True


def result_keys_filtered(prog, t):
    if len(t.params) < 2:
        return False
    var = t.params[1]
    rets = {x.value.id for x in own_nodes(t.node) if isinstance(x, ast.Return) and isinstance(x.value, ast.Name)}
    if not rets:
        return False
    for x in own_nodes(t.node):
        if isinstance(x, ast.Assign):
            for g in x.targets:
                b = g
                depth = 0
                while isinstance(b, ast.Subscript):
                    k = b.slice
                    b = b.value
                    depth += 1
                if depth == 1 and isinstance(b, ast.Name) and b.id in rets:
                    if isinstance(k, ast.Name):  # re-assignment of keys that are there already
                        loops = [q for q in own_nodes(t.node) if isinstance(q, ast.For) and any(y is x for y in ast.walk(q)) and
                                 any(isinstance(z, ast.Name) and z.id == k.id for z in ast.walk(q.target))]
                        if loops and all(any(isinstance(z, ast.Name) and z.id in rets for z in ast.walk(q.iter)) for q in loops):
                            continue
                        return False
                    if isinstance(k, ast.Attribute) and k.attr == 'name':
                        if not source_filtered(prog, t, k.value, x, var, set()) and not \
                                under_open_test(t, x, ast.unparse(k.value), var):
                            return False
                    else:
                        return False
    return True
