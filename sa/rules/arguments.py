"""P06: containers handed over by the caller are not changed."""
import ast
import copy
import itertools

from ..cfg import cfg_of
from ..flow import CAP, EMPTY, Flow, compose, handed_out
from ..program import ClassInfo, FuncInfo, dotted, own_nodes

# Parameters that exist to be filled by the callee.
OUT_PARAMS = {'fill', 'found', 'target', 'targets', 'tgds', 'curr', 'store', 'out', 'memo'}
EXEMPT_MODULES = ('ocgis.util.enum', 'ocgis.util.addict', 'ocgis.util.justify', 'ocgis.util.benchmark', 'ocgis.util.itester',
                  'ocgis.util.shp_process')
PUBLIC_DUNDER = {'__init__', '__call__', '__getitem__', '__setitem__', '__contains__', '__eq__'}


class How(str):
    """Text of a mutation together with the mutation it comes from and the flag values under which it happens."""
    root = None


def const_of(c, mro, attr):
    for k in mro:
        if attr in k.attrs:
            v = k.attrs[attr]
            return v if isinstance(v, ast.Constant) else None
        if attr in k.methods or attr in k.setters:
            return None
    return None


def instance_attrs(prog):
    """Attribute names assigned on any instance anywhere (their class-level constants are mere defaults)."""
    out = set()
    for f in prog.funcs.values():
        for n in own_nodes(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                out.add(n.attr)
    return out


class Views(object):
    """Program seen per receiver class: methods are analysed once for every class that inherits them."""

    def __init__(self, prog):
        self.prog = prog
        self.views, self.ctx, self.orig = {}, {}, {}
        self.assigned = instance_attrs(prog)
        self.cur = None

    def __getattr__(self, name):
        return getattr(self.prog, name)

    def view(self, f, c):
        if c is None or f.cls is None or f.kind == 'static' or f.parent is not None:
            return f
        q = '%s@%s' % (f.qual, c.qual)
        v = self.views.get(q)
        if v is None:
            v = self.views[q] = copy.copy(f)
            v.qual = q
            self.ctx[q] = c
            self.orig[q] = f
        return v

    def base(self, f):
        return self.orig.get(f.qual, f)

    def infer(self, f, e, *a):
        c = self.ctx.get(f.qual)
        if c is not None and isinstance(e, ast.Name) and e.id == f.selfname:
            return frozenset([c]) if f.kind != 'class' else frozenset([('class', c)])
        return self.prog.infer(self.base(f), e, *a)

    def local_assigns(self, f):
        return self.prog.local_assigns(self.base(f))

    def map_args(self, t, e, bound=None):
        e = self.expand(e)
        if bound is not None and t.kind == 'method' and e.args and (dotted(bound) or '').split('.')[-1] in \
                self.prog.by_class_name and not isinstance(e.args[0], ast.Starred):
            # an explicit call of a base class method passes the receiver itself
            short = ast.copy_location(ast.Call(func=e.func, args=e.args[1:], keywords=e.keywords), e)
            return self.prog.map_args(t, short, e.args[0])
        return self.prog.map_args(t, e, bound)

    def expand(self, e):
        """Writes out ``*args`` where args is a list literal of the calling function."""
        f = self.cur
        if f is None or not any(isinstance(a, ast.Starred) and isinstance(a.value, ast.Name) for a in e.args):
            return e
        out = []
        for a in e.args:
            vals = self.local_assigns(f).get(a.value.id, []) if isinstance(a, ast.Starred) and isinstance(a.value, ast.Name) \
                else []
            if len(vals) == 1 and vals[0][0] == 'val' and isinstance(vals[0][1], (ast.List, ast.Tuple)) and not any(
                    isinstance(x, ast.Starred) for x in vals[0][1].elts):
                out.extend(vals[0][1].elts)
            else:
                out.append(a)
        return ast.copy_location(ast.Call(func=e.func, args=out, keywords=e.keywords), e)

    def find_setter(self, c, name):
        for k in self.prog.mro(c):
            v = k.attrs.get(name)
            if isinstance(v, ast.Call) and dotted(v.func) == 'property' and len(v.args) > 1:
                d = (dotted(v.args[1]) or '').split('.')
                owner = k
                if len(d) > 1:
                    r = self.prog.lookup(k.module, '.'.join(d[:-1]))
                    owner = r if isinstance(r, ClassInfo) else k
                m = self.prog.find_method(owner, d[-1])
                return self.view(m, c) if m is not None else None
            if name in k.setters or name in k.methods:
                break
        m = self.prog.find_setter(c, name)
        return self.view(m, c) if m is not None else None

    def ctor(self, c):
        m = self.prog.find_method(c, '__init__')
        return [self.view(m, c)] if m is not None else []

    def family(self, c, name):
        out = []
        for k in [c] + sorted(c.subs, key=lambda k: k.qual):
            m = self.prog.find_method(k, name)
            if m is not None:
                out.append(self.view(m, k))
        if len(out) > 10:
            return self.prog.family(c, name)
        return out

    def resolve_call(self, f, e, depth=0, cha=False):
        g = self.base(f)
        c = self.ctx.get(f.qual)
        fn = e.func
        if isinstance(fn, ast.Attribute):
            v = fn.value
            if c is not None and isinstance(v, ast.Name) and v.id == f.selfname:
                m = self.prog.find_method(c, fn.attr)
                return [self.view(m, c)] if m is not None else []
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and c is not None:
                m = self.prog.find_method(c, fn.attr, after=f.cls)
                return [self.view(m, c)] if m is not None else []
        d = dotted(fn)
        if d and not self.prog._is_local(g, d.split('.')[0]):
            r = self.prog.lookup(g.module, d)
            if isinstance(r, ClassInfo):
                return self.ctor(r)
            if isinstance(r, FuncInfo) and r.cls is not None and isinstance(fn, ast.Attribute):
                k = self.prog.lookup(g.module, dotted(fn.value) or '')
                if isinstance(k, ClassInfo):
                    # an explicit call of a base class method: the receiver is ours
                    if c is not None and e.args and isinstance(e.args[0], ast.Name) and e.args[0].id == f.selfname:
                        return [self.view(r, c)]
                    return [self.view(r, k)]
        if isinstance(fn, ast.Attribute):
            out = []
            for t in sorted(self.infer(f, fn.value), key=lambda x: (x[1] if isinstance(x, tuple) else x).qual):
                k = t[1] if isinstance(t, tuple) else t
                for m in self.family(k, fn.attr):
                    if m not in out:
                        out.append(m)
            if out:
                return out
        return self.prog.resolve_call(g, e, cha=False)


class Policy(object):
    def __init__(self, views):
        self.views = views

    def source(self, flow, f, e):
        return ()

    def defaults(self, flow, f):
        return []

    def attribute_write(self, *a):
        pass

    def call(self, *a):
        pass

    def feasible(self, flow, f, test, truth):
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        if isinstance(test, ast.Name):
            v = flow.mode.get(test.id)
            return v is None or v == truth
        if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and len(test.ops) == 1 and \
                isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None and \
                flow.mode.get(test.left.id) is True:
            return truth == isinstance(test.ops[0], (ast.IsNot, ast.NotEq))
        c = self.views.ctx.get(f.qual)
        if c is not None and isinstance(test, ast.Attribute) and isinstance(test.value, ast.Name) and \
                test.value.id == f.selfname and test.attr not in self.views.assigned:
            v = const_of(c, self.views.prog.mro(c), test.attr)
            if v is not None:
                return bool(v.value) == truth
        return True


class ArgFlow(Flow):
    """Follows containers through names, items and calls (not through attributes of objects)."""

    def __init__(self, prog, policy, funcs):
        self.prog, self.policy = prog, policy
        self.ret, self.mut, self.fields, self.stores = {}, {}, {}, {}
        self._iter_tokens, self.hits = {}, {}
        self.kept = {}         # (class qual, attr) -> {(func qual, param): node}: the attribute is the caller's container
        self.attr_mut = {}     # (class qual, attr) -> {(func qual, lineno, how)}
        self.mode = {}
        self._flags = {}
        self.changed = True
        rounds = 0
        while self.changed and rounds < 8:
            self.changed = False
            rounds += 1
            for f in list(funcs) + [v for v in list(prog.views.values()) if v.qual not in funcs.seen]:
                prog.cur = f
                for mode in self.modes(f):
                    self.mode = mode
                    self.function(f)
        self.rounds = rounds

    # -- runs per value of flag parameters
    def flags(self, f):
        k = self.prog.base(f).qual
        if k not in self._flags:
            n = {}
            for x in own_nodes(f.node):
                if isinstance(x, (ast.If, ast.IfExp, ast.While)):
                    t = x.test
                    for y in ([t] + list(t.values) if isinstance(t, ast.BoolOp) else [t]):
                        while isinstance(y, ast.UnaryOp) and isinstance(y.op, ast.Not):
                            y = y.operand
                        if isinstance(y, ast.Name) and y.id in f.params and y.id not in self.prog.local_assigns(f):
                            n[y.id] = n.get(y.id, 0) + 1
            self._flags[k] = sorted(n, key=lambda p: -n[p])[:3]
        return self._flags[k]

    def modes(self, f):
        fl = self.flags(f)
        for vals in itertools.product((True, False), repeat=len(fl)):
            yield dict(zip(fl, vals))

    # -- attributes of objects are opaque
    def ev(self, f, e, env):
        if isinstance(e, ast.Attribute):
            self.ev(f, e.value, env)
            out = set()
            if isinstance(e.value, ast.Name) and e.value.id == f.selfname:
                out |= env.get('.' + e.attr, EMPTY)
                c = self.prog.ctx.get(f.qual)
                if c is not None:
                    out.add((('A', c.qual, e.attr), 0, 0))
            for c in self.prog.infer(f, e.value):
                if isinstance(c, ClassInfo):
                    for m in self.prog.family(c, e.attr):
                        if m.kind == 'property':
                            if isinstance(e.value, ast.Name) and e.value.id == f.selfname:
                                # what the property of this class hands out of its own attributes
                                for a in handed_out(m):
                                    out |= env.get('.' + a, EMPTY)
                                own = self.prog.ctx.get(m.qual)
                                if own is self.prog.ctx.get(f.qual):
                                    out |= {t for t in self.ret.get(m.qual, ()) if t[0][0] == 'A'}
                            out |= self.apply(f, m, None, e, {}, env)
            return frozenset(out)
        if isinstance(e, ast.IfExp):
            self.ev(f, e.test, env)
            out = EMPTY
            if self.policy.feasible(self, f, e.test, True):
                out |= self.ev(f, e.body, env)
            if self.policy.feasible(self, f, e.test, False):
                out |= self.ev(f, e.orelse, env)
            return out
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('pop', 'get') and \
                len(e.args) == 2 and isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, (int, float, str)):
            self.ev(f, e.func.value, env)
            return EMPTY  # the default says it is a flag, a number or a string
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'getattr':
            for a in e.args:
                self.ev(f, a, env)
            return EMPTY
        return super(ArgFlow, self).ev(f, e, env)

    def attr_write(self, f, t, env, node):
        self.ev(f, t.value, env)

    def field_put(self, f, base, attr, ts):
        c = self.prog.ctx.get(f.qual)
        if c is not None and isinstance(base, ast.Name) and base.id == f.selfname:
            for (o, u, d) in ts:
                if o[0] == 'P' and u == 0 and d == 0:
                    s = self.kept.setdefault((c.qual, attr), {})
                    s.setdefault((f.qual, o[1]), True)

    def field_add(self, *a):
        pass

    def step(self, f, n, env):
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name):
            ts = self.ev(f, a.value, env)
            if self.listlike(f, a):
                self.mutate(f, frozenset(t for t in env.get(a.target.id, EMPTY) if t[2] == 0), a, 'augmented assignment')
            else:
                env[a.target.id] = EMPTY
            return env
        return super(ArgFlow, self).step(f, n, env)

    def listlike(self, f, a):
        if not isinstance(a.op, (ast.Add, ast.BitOr)):
            return False
        if isinstance(a.value, (ast.Constant, ast.BinOp, ast.JoinedStr)):
            return False
        d = self.default(f, a.target.id)
        return not (isinstance(d, ast.Constant) and d.value is not None)

    @staticmethod
    def default(f, p):
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        for name, d in itertools.chain(zip(reversed(pos), reversed(a.defaults)),
                                       ((x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults))):
            if name == p:
                return d
        return None

    # -- summaries
    def record(self, f, o, dd, node, how):
        if o[0] == 'P' and o[1] != f.selfname:
            d = self.default(f, o[1])
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, float, str)) and not isinstance(d.value, bool):
                return  # a number or a string
            mode = frozenset(self.mode.items())
            for q in {f.qual, self.prog.base(f).qual}:
                m = self.mut.setdefault(q, {})
                k = (o[1], dd)
                if k not in m:
                    m[k] = [node, how, {mode}]
                    self.changed = True
                elif mode not in m[k][2]:
                    m[k][2].add(mode)
                    self.changed = True
        elif o[0] == 'A':
            s = self.attr_mut.setdefault((o[1], o[2]), {})
            s.setdefault((self.prog.base(f).qual, getattr(node, 'lineno', 0)), (f, node, how, dd))

    def add_ret(self, f, ts):
        for q in {f.qual, self.prog.base(f).qual}:
            s = self.ret.setdefault(q, set())
            if not ts <= s:
                s |= ts
                self.changed = True

    def flag_value(self, t, call, p):
        if call is None:
            return None
        m = self.prog.map_args(t, call, call.func.value if isinstance(call.func, ast.Attribute) else None)
        e = m.get(p)
        if e is None:
            if '*' in m or '**' in m:
                return None
            e = self.default(t, p)
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.Name):
            return self.mode.get(e.id)
        return None

    def apply(self, f, t, call, node, toks, env):
        for (p, dd), (mn, how, modes) in list(self.mut.get(t.qual, {}).items()):
            ts = toks.get(p, EMPTY)
            if not ts:
                continue
            live = False
            for mode in list(modes):
                if all(self.flag_value(t, call, q) in (None, v) for q, v in mode):
                    live = True
                    break
            if not live:
                continue
            root = getattr(how, 'root', None) or (self.prog.base(t), mn, how)
            for o, u, d in ts:
                if dd >= u:
                    h = How('passed to %s' % self.prog.base(t).qual.split(':')[-1])
                    h.root = root
                    self.record(f, o, min(d + dd - u, CAP), node, h)
        out = set()
        for tok in list(self.ret.get(t.qual, ())):
            if tok[0][0] == 'P':
                ts = toks.get(tok[0][1])
                if ts:
                    out |= compose(tok, ts)
        return out


class FuncList(list):
    seen = frozenset()


def analyse(prog):
    cached = prog.__dict__.get('_argflow')
    if cached is None:
        views = Views(prog)
        funcs, seen = FuncList(), set()
        for f in prog.funcs.values():
            if f.cls is None or f.kind == 'static' or f.parent is not None:
                funcs.append(f)
        for c in prog.classes.values():
            for k in prog.mro(c):
                for d in (k.methods, k.setters):
                    for name in d:
                        m = prog.find_setter(c, name) if d is k.setters else prog.find_method(c, name)
                        if m is not None:
                            v = views.view(m, c)
                            if v.qual not in seen:
                                seen.add(v.qual)
                                funcs.append(v)
        funcs.seen = seen | {f.qual for f in funcs}
        cached = prog._argflow = (ArgFlow(views, Policy(views), funcs), funcs, views)
    return cached


# Containers a collection adopts as its own storage (documented), and thin views whose purpose is to write through.
ADOPTED = {'initial_data', 'children', 'groups', 'tags', 'dimensions', 'parent'}
WRITE_THROUGH = {'NcAttributesSimulator'}
# Documented helper functions taking containers (others are internal, and may exist to fill what they are given).
HELPERS = set('''add_shapefile_unique_identifier format_bool get_added_slice get_by_key_list get_bounds_from_1d
    get_bounds_vector_from_centroids get_by_sequence create_ocgis_corners_from_esmf_corners get_extrapolated_corners_esmf
    get_extrapolated_corners_esmf_vector get_formatted_slice get_is_date_between get_is_increasing get_iter get_none_or_1d
    get_none_or_2d get_none_or_slice get_esmf_corners_from_ocgis_corners get_optimal_slice_from_array
    get_ordered_dicts_from_records_array get_reduced_slice get_sorted_uris_by_time_dimension get_trimmed_array_by_mask
    get_tuple iter_array locate pprint_dict project_shapely_geometry reduce_multiply validate_time_subset write_geom_dict
    find_index iter_exploded_geometries'''.split())
HOOKS = {'parse', 'parse_string', 'validate', 'finalize'}


def property_setters(prog):
    out = set()
    for c in prog.classes.values():
        for v in c.attrs.values():
            if isinstance(v, ast.Call) and dotted(v.func) == 'property' and len(v.args) > 1:
                out.add((dotted(v.args[1]) or '').split('.')[-1])
    return out


def public(prog, f, setters):
    if any(f.module.name.startswith(m) for m in EXEMPT_MODULES):
        return False
    if f.parent is not None or f.cls is not None and f.cls.name.startswith('_'):
        return False
    if f.cls is None:
        return f.module.name == 'ocgis.util.helpers' and f.name in HELPERS
    if f.name in setters:
        return True
    if f.name in HOOKS and any(k.name == 'AbstractParameter' for c in [f.cls] + list(f.cls.subs) for k in prog.mro(c)):
        return False  # called with a private copy by the value setter, which is an entry itself
    return not f.name.startswith('_') or f.name in PUBLIC_DUNDER


def run(prog, res):
    res.rule('argument-container-unchanged',
             'No public constructor, method, setter or documented helper function changes, directly or through anything it calls, a dictionary, list or '
             'array the caller passed (followed through names, items, slices and calls, per receiver class).')
    res.rule('kept-container-not-changed-later',
             'If a constructor or setter keeps the container the caller passed in an attribute, no method of the class changes '
             'that attribute in place.')
    flow, funcs, views = analyse(prog)
    setters = property_setters(prog)
    roots, entries = {}, {}
    for f in funcs:
        b = views.base(f)
        if not public(prog, f, setters):
            continue
        ps = [p for p in f.params + [f.vararg, f.kwarg] if p and p != f.selfname and p not in OUT_PARAMS]
        if ps:
            entries.setdefault(b.qual, b)
        for (p, dd), (node, how, modes) in flow.mut.get(f.qual, {}).items():
            if p not in ps:
                continue
            rf, rn, rh = getattr(how, 'root', None) or (b, node, how)
            roots.setdefault((rf.qual, getattr(rn, 'lineno', 0)), (rf, rn, rh, {}))[3].setdefault((b.qual, p), f)
    bad = set()
    for (q, line), (rf, rn, rh, who) in sorted(roots.items()):
        bad.update(e for e, p in who)
        first = sorted(who, key=lambda k: (k[0] != q, k))[0]
        owner = ' of a %s' % views.ctx[who[first].qual].name if who[first].qual in views.ctx else ''
        res.bad('argument-container-unchanged', '%s %s' % (first[0], first[1]), rf.loc(rn),
                'the container the caller passes as %s to %s%s is changed by %s (%s)%s' % (
                    first[1], first[0].split(':')[-1], owner, q.split(':')[-1], rh,
                    '; also reached from %d other entries' % (len(who) - 1) if len(who) > 1 else ''))
    for q, b in sorted(entries.items()):
        if q not in bad:
            res.ok('argument-container-unchanged', q, b.loc())
    seen = set()
    for (c, attr), who in sorted(flow.kept.items()):
        muts = flow.attr_mut.get((c, attr), {})
        for (fq, p) in sorted(who):
            b = views.orig.get(fq)
            if b is None or p in ADOPTED or attr.lstrip('_') in ADOPTED or b.cls.name in WRITE_THROUGH:
                continue
            k = prog.classes[c]
            if prog.find_setter(k, attr) is not None or b.kind == 'setter' and b.name == attr and not muts:
                continue
            if (b.qual, p, attr) in seen and not muts:
                continue
            here = []
            for (mq, line), (mf, mn, how, dd) in sorted(muts.items()):
                if dd == 0:
                    here.append((mq, line, mf, mn, how))
            if (b.name.startswith('_') and b.name not in PUBLIC_DUNDER) or any(
                    b.module.name.startswith(m) for m in EXEMPT_MODULES):
                continue
            if not here:
                seen.add((b.qual, p, attr))
                res.ok('kept-container-not-changed-later', '%s %s -> %s' % (b.qual, p, attr), b.loc())
            elif (b.qual, p, attr, 'bad') not in seen:
                seen.add((b.qual, p, attr, 'bad'))
                mq, line, mf, mn, how = here[0]
                res.bad('kept-container-not-changed-later', '%s %s -> %s' % (b.qual, p, attr), mf.loc(mn),
                        '%s keeps the container passed as %s in self.%s, which %s changes in place (%s)' % (
                            b.qual.split(':')[-1], p, attr, mq.split(':')[-1], how))
    res.count('functions analysed', len(prog.funcs))
    res.count('function and receiver class combinations', len(funcs))
    if not getattr(prog, 'fixture', False):
        res.floor('argument-container-unchanged', 300)
        res.floor('kept-container-not-changed-later', 100)
