"""P08: code refers only to what exists, and calls what it refers to the way it is defined."""
import ast
import builtins
import os
import string

from ..cfg import cfg_of, node_exprs
from ..common import reachable_nodes
from ..program import FUNC, ClassInfo, FuncInfo, Module, dotted, own_nodes

EXEMPT_MODULES = ('ocgis.util.enum', 'ocgis.util.addict', 'ocgis.util.shp_process')
BUILTINS = set(dir(builtins)) | {'__file__', '__name__', '__doc__', '__package__', '__path__', '__class__', 'WindowsError', '__spec__'}
OBJECT = set(dir(object)) | {'__dict__', '__module__', '__name__', '__qualname__', '__weakref__', '__mro__', '__bases__', '__subclasses__',
                             'mro', '__slots__'}
MODATTRS = {'__file__', '__name__', '__doc__', '__path__', '__version__', '__package__', '__dict__'}

# Method arity of builtin containers: (minimum, maximum) positional arguments, keywords allowed.
CONTAINERS = {
    'list': {'append': (1, 1), 'insert': (2, 2), 'extend': (1, 1), 'pop': (0, 1), 'remove': (1, 1), 'index': (1, 3), 'count': (1, 1),
             'reverse': (0, 0), 'sort': (0, 0), 'copy': (0, 0), 'clear': (0, 0)},
    'dict': {'get': (1, 2), 'pop': (1, 2), 'setdefault': (1, 2), 'keys': (0, 0), 'values': (0, 0), 'items': (0, 0), 'copy': (0, 0),
             'clear': (0, 0), 'popitem': (0, 1), 'update': (0, 1), 'fromkeys': (1, 2), 'move_to_end': (1, 2)},
    'str': {'format': (0, 99), 'join': (1, 1), 'split': (0, 2), 'replace': (2, 3), 'startswith': (1, 3), 'endswith': (1, 3),
            'lower': (0, 0), 'upper': (0, 0), 'strip': (0, 1), 'find': (1, 3), 'title': (0, 0), 'encode': (0, 2)},
}
CONTAINERS['list_attrs'], CONTAINERS['dict_attrs'] = set(dir(list)), set(dir(dict))


def exempt(m):
    return any(m.name == e or m.name.startswith(e + '.') for e in EXEMPT_MODULES)


# ---------------------------------------------------------------------------------------------------------- names
def module_names(prog, m, depth=0):
    out = set(m.imports) | set(m.functions) | set(m.classes) | set(m.globals)
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        elif isinstance(n, ast.Global):
            out.update(n.names)
    todo = list(m.tree.body)
    while todo:
        n = todo.pop()
        if isinstance(n, FUNC + (ast.ClassDef,)):
            out.add(n.name)
            continue
        for x in ast.iter_child_nodes(n):
            todo.append(x)
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    if depth < 4:
        for s in m.stars:
            if s in prog.modules:
                out |= module_names(prog, prog.modules[s], depth + 1)
            else:
                return None
    return out


def bound_names(fnode):
    """Names bound in the scope of a function, lambda or comprehension (not in nested functions)."""
    out = set()
    if isinstance(fnode, FUNC + (ast.Lambda,)):
        a = fnode.args
        for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs:
            out.add(x.arg)
        for x in (a.vararg, a.kwarg):
            if x:
                out.add(x.arg)
    todo = list(fnode.body) if isinstance(fnode.body, list) else [fnode.body]
    while todo:
        n = todo.pop()
        if isinstance(n, FUNC + (ast.ClassDef,)):
            out.add(n.name)
            todo.extend(n.decorator_list)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add((a.asname or a.name).split('.')[0])
        todo.extend(ast.iter_child_nodes(n))
    return out


def name_guarded(node):
    n = node
    while n is not None and not isinstance(n, FUNC):
        p = getattr(n, '_parent', None)
        if isinstance(p, ast.Try) and n in p.body:
            for h in p.handlers:
                if h.type is not None and any(isinstance(x, ast.Name) and x.id == 'NameError' for x in ast.walk(h.type)):
                    return True
        n = p
    return False


def check_names(prog, res, live):
    by_node = {id(f.node): f for f in prog.funcs.values()}
    current = [None]
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if exempt(m):
            continue
        glob = module_names(prog, m)
        if glob is None:
            continue

        def visit(node, scopes, owner):
            if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
                if not any(node.id in s for s in scopes) and node.id not in glob and node.id not in BUILTINS \
                        and not name_guarded(node) and (current[0] is None or live(current[0], node)):
                    res.bad('names-exist', '%s %s' % (owner, node.id), m.loc(node),
                            'the name %s is used but defined nowhere' % node.id)
                    bad.append(owner)
                return
            if isinstance(node, FUNC):
                for d in node.decorator_list + node.args.defaults + [x for x in node.args.kw_defaults if x]:
                    visit(d, scopes, owner)
                inner = scopes + [bound_names(node)]
                outer = current[0]
                current[0] = by_node.get(id(node))
                for s in node.body:
                    visit(s, inner, owner + '.' + node.name)
                current[0] = outer
                if owner + '.' + node.name not in bad:
                    res.ok('names-exist', owner + '.' + node.name, m.loc(node))
                return
            if isinstance(node, ast.Lambda):
                visit(node.body, scopes + [bound_names(node)], owner)
                return
            if isinstance(node, ast.ClassDef):
                for d in node.decorator_list + node.bases + [k.value for k in node.keywords]:
                    visit(d, scopes, owner)
                cls = bound_names(node)
                for s in node.body:
                    if isinstance(s, FUNC):
                        for d in s.decorator_list:
                            visit(d, scopes + [cls], owner)
                        visit(s, scopes + [{'__class__'}] if not s.decorator_list else scopes + [cls], owner + '.' + node.name)
                    else:
                        visit(s, scopes + [cls], owner + '.' + node.name)
                return
            for c in ast.iter_child_nodes(node):
                visit(c, scopes, owner)

        bad = []
        visit(m.tree, [], m.name)


# ---------------------------------------------------------------------------------------------------- signatures
def misfit(t, call, bound):
    """Reason why the call does not bind to the signature of t, or None."""
    a = t.node.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    npos_def = len(a.defaults)
    required = pos[:len(pos) - npos_def]
    kwonly = [x.arg for x in a.kwonlyargs]
    kwreq = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    if bound:
        required = required[1:] if pos and pos[0] in required else required
        pos = pos[1:]
    star = any(isinstance(x, ast.Starred) for x in call.args)
    dstar = any(k.arg is None for k in call.keywords)
    n = len([x for x in call.args if not isinstance(x, ast.Starred)])
    if not t.vararg and n > len(pos):
        return 'takes at most %d positional arguments, %d given' % (len(pos), n)
    given = set(pos[:n])
    for k in call.keywords:
        if k.arg is None:
            continue
        if k.arg in given:
            return 'gets %s twice' % k.arg
        if k.arg not in pos and k.arg not in kwonly and not t.kwarg:
            return 'has no parameter %s' % k.arg
        given.add(k.arg)
    if not star and not dstar:
        missing = [p for p in required + kwreq if p not in given]
        if missing:
            return 'misses the required argument %s' % missing[0]
    return None


def string_of(prog, m, e):
    """Value of a string literal or of a class-level string constant."""
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) else None
    if isinstance(e, ast.Attribute):
        k = prog.lookup(m, dotted(e.value) or '')
        if isinstance(k, ClassInfo):
            for c in prog.mro(k):
                if e.attr in c.attrs:
                    return string_of(prog, c.module, c.attrs[e.attr])
    return None


def accepted(prog, t, stack=()):
    """Keywords t takes, following ``**kwargs`` into what it is passed to; None when unbounded."""
    names = set(t.params)
    if not t.kwarg:
        return names
    if t.qual in stack or len(stack) > 8:
        return None
    kw = t.kwarg
    if not any(isinstance(n, ast.Name) and n.id == kw for n in own_nodes(t.node)):
        return None
    for n in own_nodes(t.node):
        if isinstance(n, FUNC):
            if any(isinstance(x, ast.Name) and x.id == kw for x in ast.walk(n)):
                return None
        if not (isinstance(n, ast.Name) and n.id == kw):
            continue
        p = getattr(n, '_parent', None)
        if isinstance(n.ctx, ast.Store):
            v = p.value if isinstance(p, ast.Assign) else None
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr == 'copy' and \
                    isinstance(v.func.value, ast.Name) and v.func.value.id == kw:
                continue
            return None
        if isinstance(p, ast.Attribute):
            c = getattr(p, '_parent', None)
            if p.attr == 'copy':
                continue
            if isinstance(c, ast.Call) and p.attr in ('pop', 'get', 'setdefault') and c.args:
                v = string_of(prog, t.module, c.args[0])
                if v is None:
                    return None
                names.add(v)
                continue
            return None
        if isinstance(p, ast.Subscript) and p.value is n:
            v = string_of(prog, t.module, p.slice)
            if v is None:
                return None
            if isinstance(p.ctx, ast.Load):
                names.add(v)
            continue
        if isinstance(p, ast.Compare) and n in p.comparators and isinstance(p.ops[0], (ast.In, ast.NotIn)):
            v = string_of(prog, t.module, p.left)
            if v is None:
                return None
            names.add(v)
            continue
        if isinstance(p, ast.keyword) and p.arg is None:
            call = getattr(p, '_parent', None)
            ts, exact = targets(prog, t, call)
            if not ts or not exact:
                return None
            for g, b in ts:
                a = accepted(prog, g, stack + (t.qual,))
                if a is None:
                    return None
                names |= a
            continue
        return None
    return names


def unaccepted(prog, t, call, bound):
    if not t.kwarg:
        return None
    key = ('accepted', t.qual)
    cache = prog.__dict__.setdefault('_accepted', {})
    if key not in cache:
        cache[key] = accepted(prog, t)
    a = cache[key]
    if a is None:
        return None
    for k in call.keywords:
        if k.arg is not None and k.arg not in a:
            return 'does not accept %s (nor does anything it passes its keywords to)' % k.arg
    return None


def strict_types(prog, f, e, depth=0):
    """Classes of an expression known without name conventions: constructor calls, self, class objects."""
    if isinstance(e, ast.Name):
        if f.cls is not None and e.id == f.selfname:
            return {('class', f.cls)} if f.kind == 'class' else {f.cls}
        if depth > 3:
            return set()
        if e.id in f.params:
            return set()
        vals = prog.local_assigns(f).get(e.id)
        if vals:
            out = set()
            for how, v in vals:
                if how == 'val':
                    if isinstance(v, ast.Constant) and v.value is None:
                        continue
                    t = strict_types(prog, f, v, depth + 1)
                    if not t:
                        return set()
                    out |= t
                else:
                    return set()
            return out
        if f.parent is not None:
            return set()
        r = prog.lookup(f.module, e.id)
        if isinstance(r, ClassInfo):
            return {('class', r)}
        return set()
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        if d and not prog._is_local(f, d.split('.')[0]):
            r = prog.lookup(f.module, d)
            if isinstance(r, ClassInfo):
                return {r}
        if isinstance(e.func, ast.Name) and e.func.id == 'super':
            return set()
    if isinstance(e, ast.Attribute):
        d = dotted(e)
        if d and not prog._is_local(f, d.split('.')[0]):
            r = prog.lookup(f.module, d)
            if isinstance(r, ClassInfo):
                return {('class', r)}
    return set()


def targets(prog, f, call):
    """(target, bound, exact): exact targets must each fit; of the others at least one must."""
    fn = call.func
    g = f
    if isinstance(fn, ast.Name):
        while g is not None:
            if fn.id in g.nested:
                return [(g.nested[fn.id], False)], True
            if fn.id in g.params or fn.id in prog.local_assigns(g):
                return [], False
            g = g.parent
    d = dotted(fn)
    if d and not prog._is_local(f, d.split('.')[0]):
        r = prog.lookup(f.module, d)
        if isinstance(r, FuncInfo):
            if r.cls is None:
                return [(r, False)], True
            if isinstance(fn, ast.Attribute):
                k = prog.lookup(f.module, dotted(fn.value) or '')
                if isinstance(k, ClassInfo):
                    return [(r, r.kind == 'class')], True
            return [], False
        if isinstance(r, ClassInfo):
            m = prog.find_method(r, '__init__')
            if prog.find_method(r, '__new__') is not None or external_bases(prog, r) and m is None:
                return [], False
            if m is not None:
                return [(m, True)], True
            return [], False
    if not isinstance(fn, ast.Attribute):
        return [], False
    name = fn.attr
    v = fn.value
    cls = f.cls or (f.parent.cls if f.parent is not None else None)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super' and cls is not None:
        out = []
        after = cls
        if v.args:
            r = prog.lookup(f.module, dotted(v.args[0]) or '')
            after = r if isinstance(r, ClassInfo) else cls
        for k in [cls] + sorted(cls.subs, key=lambda c: c.qual):
            if abstract_class(prog, k) and k is not cls:
                continue
            m = prog.find_method(k, name, after=after)
            if m is not None and (m, True) not in out:
                out.append((m, m.kind != 'static'))
        return [(m, b) for m, b in out if m.kind not in ('property',)], True
    types = strict_types(prog, f, v)
    if types:
        out = []
        for t in sorted(types, key=lambda x: (x[1] if isinstance(x, tuple) else x).qual):
            c = t[1] if isinstance(t, tuple) else t
            selfish = isinstance(v, ast.Name) and v.id == f.selfname
            for k in [c] + (sorted(c.subs, key=lambda c: c.qual) if selfish else []):
                if k is not c and f.cls is c and not reaches(prog, k, f):
                    continue
                m = prog.find_method(k, name)
                if m is None or m.kind == 'property':
                    continue
                if isinstance(t, tuple) and m.kind == 'method':
                    b = False
                else:
                    b = m.kind != 'static'
                if (m, b) not in out:
                    out.append((m, b))
        return out, True
    # unknown receiver: methods of that name, when the name is ours alone
    fam = []
    for t in prog.infer(f, v):
        c = t[1] if isinstance(t, tuple) else t
        for m in prog.family(c, name):
            if m.kind in ('method', 'class', 'static') and m not in fam:
                fam.append(m)
    if fam and name not in EXTERNAL_NAMES:
        return [(m, m.kind != 'static') for m in sorted(fam, key=lambda m: m.qual)], False
    cands = [m for m in prog.by_method_name.get(name, []) if m.kind in ('method', 'class', 'static')]
    if cands and name not in EXTERNAL_NAMES:
        return [(m, m.kind != 'static') for m in sorted(cands, key=lambda m: m.qual)], False
    return [], False


def reaches(prog, k, f):
    """Can the method f run on an instance of k: not overridden, or called by the override."""
    for c in prog.mro(k):
        m = c.methods.get(f.name) or c.setters.get(f.name)
        if m is None:
            continue
        if m is f:
            return True
        if not any(isinstance(x, ast.Attribute) and x.attr == f.name and not (
                isinstance(x.value, ast.Name) and x.value.id == m.selfname) for x in own_nodes(m.node)):
            return False
    return True


def unreferenced(prog):
    """Private functions no code refers to (what they would do never happens)."""
    used = {}
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            nm = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if nm is not None:
                used.setdefault(nm, []).append(n)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                used.setdefault(n.value, []).append(n)
    out = set()
    for f in prog.funcs.values():
        if f.name.startswith('_') and not f.name.endswith('__') and f.parent is None:
            inside = {id(x) for g in prog.funcs.values() if g.name == f.name for x in ast.walk(g.node)}
            if all(id(n) in inside for n in used.get(f.name, [])):
                out.add(f.qual)
    return out


def abstract_class(prog, c):
    return c.name.startswith('Abstract')


def external_bases(prog, c):
    return [b for k in prog.mro(c) for b in k.bases if not isinstance(b, ClassInfo) and b not in ('object',)]


EXTERNAL_NAMES = set()
for _t in (list, dict, str, set, tuple, int, float, bytes, frozenset, object, type):
    EXTERNAL_NAMES |= set(dir(_t))
import collections as _c  # noqa
import datetime as _d  # noqa
import logging as _l  # noqa
import zipfile as _z  # noqa
import inspect as _i  # noqa
for _t in (_c.OrderedDict, _c.deque, _d.datetime, _d.timedelta, _l.Logger, _l.Handler, _z.ZipFile, _i.Signature, Exception):
    EXTERNAL_NAMES |= set(dir(_t))
# Names of the libraries used (written by tools/extnames.py), plus ESMF and xarray, which are not installed.
with open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'external_names.txt')) as _fh:
    LIBRARY_NAMES = set(_fh.read().split())
LIBRARY_NAMES |= set('''periodic_dim coords coord_sys has_corners staggerloc typekind ndbounds add_coords get_coords add_item get_item
    destroy esmfvar xarray DataArray to_dataset Coordinate regridding_method rank lower_bounds upper_bounds size Manager Regrid RegridFromFile
    RegridMethod UnmappedAction MeshElemType TypeKind StaggerLoc GridItem CoordSys NormType ExtrapMethod FileFormat FileMode LogKind
    UGRID GRIDSPEC SCRIP grid_type meta sizes num_peri_dims variable_name data_vars filemode large_file RegridFromFile mask areas
    _conform unit cfunits Units equivalent equals conform indices icclim calc_indice calc_percentiles'''.split())
# Method names other libraries use too: an unknown receiver is then not assumed to be one of ours.
EXTERNAL_NAMES |= LIBRARY_NAMES


def check_calls(prog, res, live):
    for f in sorted(prog.funcs.values(), key=lambda f: f.qual):
        if exempt(f.module):
            continue
        for call in prog.calls(f):
            ts, exact = targets(prog, f, call)
            if not ts:
                continue
            c = '%s %s' % (f.qual, callee_text(call))
            bad = [(t, r) for t, b in ts for r in [misfit(t, call, b) or unaccepted(prog, t, call, b)] if r]
            if bad and (exact or len(bad) == len(ts)) and live(f, call):
                t, r = bad[0]
                res.bad('calls-fit', c, f.loc(call), '%s calls %s, which %s' % (f.qual.split(':')[-1], t.qual.split(':')[-1], r))
            else:
                res.ok('calls-fit', c, f.loc(call))


def callee_text(call):
    d = dotted(call.func)
    if d:
        return d
    if isinstance(call.func, ast.Attribute):
        return '.' + call.func.attr
    return 'call'


def node_stores(n):
    a = n.ast
    if n.kind == 'stmt':
        if isinstance(a, FUNC + (ast.ClassDef,)):
            return {a.name}
        if isinstance(a, (ast.Import, ast.ImportFrom)):
            return {(x.asname or x.name).split('.')[0] for x in a.names}
    out = set()
    for e in node_exprs(n):
        out.update(x.id for x in ast.walk(e) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store))
    return out


def check_bound(prog, res):
    """A local name is assigned on at least one path to each place that reads it."""
    for f in sorted(prog.funcs.values(), key=lambda f: f.qual):
        if exempt(f.module):
            continue
        glob = {n for x in own_nodes(f.node) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        inner = set()
        names, handlers = set(), {}
        for x in own_nodes(f.node):
            if isinstance(x, ast.comprehension):
                inner.update(id(y) for y in ast.walk(x.target))
            elif isinstance(x, ast.ExceptHandler) and x.name:
                handlers.setdefault(x.name, []).append(x)
        for x in own_nodes(f.node):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and id(x) not in inner:
                names.add(x.id)
        names = (names | set(handlers)) - glob - set(f.params) - {f.vararg, f.kwarg}
        if not names:
            continue
        g = cfg_of(f)
        state, work = {}, []
        for n in g.nodes:
            if n.kind == 'entry':
                state[n.id] = frozenset()
                work.append(n)
        while work:
            n = work.pop()
            cur = state[n.id]
            nxt = cur | node_stores(n)
            if n.kind == 'handler' and n.ast.name:
                nxt = nxt | {n.ast.name}
            for s, label in n.succ:
                v = cur if label == 'exc' else nxt
                if s.id not in state or not v <= state[s.id]:
                    state[s.id] = v | state.get(s.id, frozenset())
                    work.append(s)
        bad = set()
        for n in g.nodes:
            if n.id not in state:
                continue
            for e in node_exprs(n):
                for x in ast.walk(e):
                    if not (isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in names) or hidden(x, e):
                        continue
                    what = None
                    if x.id not in state[n.id]:
                        what = 'no path to this place assigns %s' % x.id
                    elif x.id in handlers and not any(
                            isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id == x.id and id(y) not in inner
                            for y in own_nodes(f.node)) and not any(
                            x is y for h in handlers[x.id] for s in h.body for y in ast.walk(s)):
                        what = '%s is unbound at the end of the except clause that binds it' % x.id
                    if what and x.id not in bad:
                        bad.add(x.id)
                        res.bad('names-bound', '%s %s' % (f.qual, x.id), f.loc(x), what)
        if not bad:
            res.ok('names-bound', f.qual, f.loc())


def hidden(x, top):
    """Bound by a comprehension or lambda around it."""
    n = x
    while n is not None and n is not top:
        n = getattr(n, '_parent', None)
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)) and any(
                isinstance(y, ast.Name) and y.id == x.id for c in n.generators for y in ast.walk(c.target)):
            return True
        if isinstance(n, ast.Lambda):
            return True
    return False


# ----------------------------------------------------------------------------------------------------- attributes
class Universe(object):
    """Attributes each class can have."""

    def __init__(self, prog):
        self.prog, self.own_, self.open_ = prog, {}, set()
        self.stored = set()
        for f in prog.funcs.values():
            for n in own_nodes(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and not (
                        isinstance(n.value, ast.Name) and n.value.id == f.selfname):
                    self.stored.add(n.attr)
                elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and len(n.args) > 1 \
                        and isinstance(n.args[1], ast.Constant):
                    self.stored.add(n.args[1].value)
        self.all = set(OBJECT) | self.stored
        self.names = set()
        for m in prog.modules.values():
            self.names |= (module_names(prog, m) or set()) | set(m.name.split('.'))
            for k in ast.walk(m.tree):
                if isinstance(k, ast.ClassDef):
                    self.names.add(k.name)
                    self.names.update(y.id for x in k.body if not isinstance(x, FUNC + (ast.ClassDef,)) for y in ast.walk(x)
                                      if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))
                elif isinstance(k, ast.Call) and isinstance(k.func, ast.Attribute) and k.func.attr == 'add_argument':
                    self.names.update(a.value.lstrip('-').replace('-', '_') for a in k.args
                                      if isinstance(a, ast.Constant) and isinstance(a.value, str))
        for k in prog.classes.values():
            self.all |= self.own(k)

    def own(self, k):
        if k not in self.own_:
            s = set(k.methods) | set(k.setters) | set(k.attrs)
            for x in k.node.body:
                if isinstance(x, ast.ClassDef):
                    s.add(x.name)
                elif not isinstance(x, FUNC):
                    s.update(y.id for y in ast.walk(x) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store))
                    s.update(a.asname or a.name for y in ast.walk(x) if isinstance(y, (ast.Import, ast.ImportFrom)) for a in y.names)
                if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == '__slots__' for t in x.targets):
                    s.update(y.value for y in ast.walk(x.value) if isinstance(y, ast.Constant) and isinstance(y.value, str))
            fs = [m for m in self.prog.funcs.values() if m.cls is k]
            for m in fs:
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and \
                            isinstance(n.value, ast.Name) and n.value.id == m.selfname:
                        s.add(n.attr)
                    elif isinstance(n, ast.Call) and isinstance(n.func, (ast.Name, ast.Attribute)):
                        d = dotted(n.func) or ''
                        if d.split('.')[-1] in ('setattr', '__setattr__') and not any(
                                isinstance(a, ast.Constant) and isinstance(a.value, str) for a in n.args) and (
                                d != 'setattr' or n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == m.selfname):
                            self.open_.add(k)
                        if d.endswith('__dict__.update'):
                            self.open_.add(k)
            if k.name in CLOSED:
                # sets only attributes it declares: parameters of its constructor and attributes assigned in it
                self.open_.discard(k)
                m = k.methods.get('__init__')
                s.update(m.params if m is not None else ())
            elif '__getattr__' in k.methods or '__getattribute__' in k.methods:
                self.open_.add(k)
            self.own_[k] = s
        return self.own_[k]

    def attrs(self, k):
        """Attribute names, or None when they cannot be enumerated."""
        out = set(OBJECT)
        for c in self.prog.mro(k):
            out |= self.own(c)
            if c.name in ('IntEnum', 'Enum'):
                out |= set(dir(int)) | {'name', 'value'}
            elif c in self.open_:
                return None
            for b in c.bases:
                if isinstance(b, ClassInfo):
                    continue
                last = str(b).split('.')[-1].split('(')[0]
                t = getattr(builtins, last, None)
                if isinstance(t, type):
                    out |= set(dir(t))
                elif last in ('IntEnum', 'Enum'):
                    out |= set(dir(int)) | {'name', 'value'}
                elif last in ('with_metaclass', 'ABC', 'object'):
                    pass
                elif last in ('OrderedDict', 'UserDict'):
                    out |= set(dir(_c.OrderedDict))
                else:
                    return None
        return out

    def has(self, k, name, subs=True):
        for c in [k] + (sorted(k.subs, key=lambda c: c.qual) if subs else []):
            a = self.attrs(c)
            if a is None or name in a:
                return True
        return name in self.stored


CLOSED = {'Environment', 'OcgOperations'}

def guarded(node, f, name):
    """The attribute is tested for, or its absence is handled."""
    n = node
    while n is not None and n is not f.node:
        p = getattr(n, '_parent', None)
        if isinstance(p, ast.Try) and n in p.body:
            for h in p.handlers:
                names = {x.id for x in ast.walk(h.type) if isinstance(x, ast.Name)} if h.type is not None else {'Exception'}
                if names & {'AttributeError', 'Exception', 'BaseException'}:
                    return True
        n = p
    for x in own_nodes(f.node):
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('hasattr', 'getattr') and len(x.args) > 1 and \
                isinstance(x.args[1], ast.Constant) and x.args[1].value == name:
            return True
    return False


def check_attributes(prog, res, live):
    u = Universe(prog)
    for f in sorted(prog.funcs.values(), key=lambda f: f.qual):
        if exempt(f.module):
            continue
        cls = f.cls
        g = f.parent
        outer = None
        while g is not None and outer is None:
            outer = (g.selfname, g.cls) if g.cls is not None and g.selfname else None
            g = g.parent
        bad = 0
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Attribute) or not isinstance(n.ctx, ast.Load) or n.attr.startswith('__'):
                continue
            what = None
            v = n.value
            if isinstance(v, ast.Name) and cls is not None and v.id == f.selfname:
                if not u.has(cls, n.attr):
                    what = 'no %s has an attribute %s' % (cls.name, n.attr)
            elif isinstance(v, ast.Name) and outer is not None and cls is None and v.id == outer[0] and v.id not in f.params:
                if not u.has(outer[1], n.attr):
                    what = 'no %s has an attribute %s' % (outer[1].name, n.attr)
            else:
                what = static_attr(prog, u, f, n)
            if what and not guarded(n, f, n.attr) and live(f, n):
                bad += 1
                res.bad('attributes-exist', '%s %s' % (f.qual, dotted(n) or '.' + n.attr), f.loc(n), what)
        if not bad:
            res.ok('attributes-exist', f.qual, f.loc())


def foreign_imports(tree, cache={}):
    """Names a module (or function) imports from other libraries."""
    if tree not in cache:
        cache[tree] = {(a.asname or a.name.split('.')[0]) for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom))
                       for a in n.names
                       if not getattr(n, 'level', 0) and (getattr(n, 'module', None) or a.name).split('.')[0] != 'ocgis'}
    return cache[tree]


def outside(prog, f, e, depth=0):
    """Is this something of another library: a name imported from one, or what is obtained from it?"""
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    if not isinstance(e, ast.Name):
        return False
    if e.id in ('ESMF', 'icclim', 'xr'):
        return True
    g = f
    while g is not None:
        if e.id in foreign_imports(g.node):
            return True
        v = prog.local_assigns(g).get(e.id)
        if v:
            return depth < 3 and any(x is not None and outside(prog, g, x, depth + 1) for h, x in v if isinstance(x, ast.AST))
        if e.id in g.params:
            return False
        g = g.parent
    return e.id in foreign_imports(f.module.tree)


def static_attr(prog, u, f, n):
    v = n.value
    d = dotted(v)
    if d and not prog._is_local(f, d.split('.')[0]):
        r = prog.lookup(f.module, d)
        if isinstance(r, Module):
            names = module_names(prog, r)
            if names is not None and n.attr not in names and n.attr not in MODATTRS and \
                    (r.name + '.' + n.attr) not in prog.modules:
                return 'the module %s has no %s' % (r.name, n.attr)
            return None
        if d == 'env' and isinstance(r, tuple) and r[0] == 'global':
            k = prog.cls_named('Environment')
            return None if k is None or u.has(k, n.attr) else 'the environment has no setting %s' % n.attr
        if isinstance(r, ClassInfo):
            return None if u.has(r, n.attr, subs=False) else 'the class %s has no %s' % (r.name, n.attr)
    ts = strict_types(prog, f, v)
    if ts:
        for t in ts:
            c = t[1] if isinstance(t, tuple) else t
            if u.has(c, n.attr, subs=False):
                return None
        return 'no %s has an attribute %s' % (' or '.join(sorted((t[1] if isinstance(t, tuple) else t).name for t in ts)), n.attr)
    if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'super':
        return None
    if n.attr not in u.all and outside(prog, f, v):
        return None
    if n.attr not in u.all and n.attr not in EXTERNAL_NAMES and n.attr not in u.names:
        return 'nothing in ocgis and none of the libraries it uses has an attribute %s' % n.attr
    return None


def check_imports(prog, res):
    for m in sorted(prog.modules.values(), key=lambda m: m.name):
        if exempt(m):
            continue
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.ImportFrom):
                continue
            base = n.module or ''
            if n.level:
                parts = m.name.split('.')
                parts = parts[:len(parts) - n.level + (1 if m.is_pkg else 0)]
                base = '.'.join(parts + ([n.module] if n.module else []))
            if base.split('.')[0] != prog.package:
                continue
            t = prog.modules.get(base)
            where = m.loc(n)
            if t is None:
                if base.split('.')[1:2] in (['test'], ['doc']):
                    continue
                res.bad('imports-exist', '%s %s' % (m.name, base), where, 'the module %s does not exist' % base)
                continue
            names = module_names(prog, t)
            for a in n.names:
                if a.name == '*' or names is None:
                    continue
                ok = a.name in names or (base + '.' + a.name) in prog.modules or a.name in MODATTRS or a.name in ('test',)
                res.check(ok, 'imports-exist', '%s %s.%s' % (m.name, base, a.name), where,
                          '%s imports %s from %s, which does not define it' % (m.name, a.name, base))


# ------------------------------------------------------------------------------------------------- formats, unpacking
def format_misfit(n):
    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == 'format' and \
            isinstance(n.func.value, ast.Constant) and isinstance(n.func.value.value, str):
        try:
            fields = [x[1] for x in string.Formatter().parse(n.func.value.value) if x[1] is not None]
        except ValueError:
            return 'is not a valid format'
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return None
        kws = {k.arg for k in n.keywords}
        auto = 0
        for x in fields:
            head = x.split('.')[0].split('[')[0]
            if head == '':
                head, auto = str(auto), auto + 1
            if head.isdigit():
                if int(head) >= len(n.args):
                    return 'asks for argument %s, %d given' % (head, len(n.args))
            elif head not in kws:
                return 'asks for the argument %s, which is not given' % head
        return ''
    if isinstance(n, ast.BinOp) and isinstance(n.op, ast.Mod) and isinstance(n.left, ast.Constant) and isinstance(n.left.value, str):
        import re
        specs = re.findall(r'%(\([^)]*\))?[-#0 +]*(\*|\d+)?(?:\.(?:\*|\d+))?[hlL]?([a-zA-Z%])', n.left.value)
        need = len([x for x in specs if x[2] != '%'])
        if any(x[0] for x in specs) or any(x[1] == '*' for x in specs):
            return None
        if isinstance(n.right, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in n.right.elts):
            if len(n.right.elts) != need:
                return 'asks for %d arguments, %d given' % (need, len(n.right.elts))
            return ''
        if isinstance(n.right, (ast.Constant, ast.JoinedStr)) and need != 1:
            return 'asks for %d arguments, 1 given' % need
        return '' if need else None
    return None


def check_formats(prog, res):
    for f in sorted(prog.funcs.values(), key=lambda f: f.qual):
        if exempt(f.module):
            continue
        bad, n_ = 0, 0
        for n in own_nodes(f.node):
            r = format_misfit(n)
            if r:
                bad += 1
                res.bad('formats-fit', '%s format' % f.qual, f.loc(n), 'the format string %s' % r)
            elif r == '':
                n_ += 1
        if n_ and not bad:
            res.ok('formats-fit', f.qual, f.loc())


def result_shape(prog, f, t, depth=0):
    """('none',), ('tuple', n) or None: what every normal return of t gives."""
    if depth > 3 or t.is_abstract or t.is_contextmanager or t.kind in ('property', 'setter'):
        return None
    if any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in own_nodes(t.node)):
        return None
    if t.decos and t.kind not in ('static', 'class'):
        return None
    rets = [n for n in own_nodes(t.node) if isinstance(n, ast.Return)]
    vals = [n.value for n in rets if n.value is not None]
    if not vals:
        body = [s for s in t.node.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
        if not body or isinstance(body[-1], ast.Raise) or all(isinstance(s, ast.Pass) for s in body):
            return None
        return ('none',)
    sizes = set()
    for v in vals:
        if isinstance(v, ast.Name):
            d = [x for h, x in prog.local_assigns(t).get(v.id, []) if h == 'val']
            if len(d) == 1 and len(prog.local_assigns(t)[v.id]) == 1 and v.id not in t.params:
                v = d[0]
        if isinstance(v, ast.Tuple) and not any(isinstance(e, ast.Starred) for e in v.elts):
            sizes.add(len(v.elts))
        else:
            return None
    return ('tuple', sizes.pop()) if len(sizes) == 1 and len(vals) == len(rets) else None


def check_results(prog, res):
    for f in sorted(prog.funcs.values(), key=lambda f: f.qual):
        if exempt(f.module):
            continue
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            p = getattr(n, '_parent', None)
            use = None
            if isinstance(p, ast.Assign) and p.value is n and len(p.targets) == 1 and isinstance(p.targets[0], (ast.Tuple, ast.List)) \
                    and not any(isinstance(e, ast.Starred) for e in p.targets[0].elts):
                use = ('unpack', len(p.targets[0].elts))
            elif isinstance(p, ast.For) and p.iter is n:
                use = ('value', 'iterated over')
            elif isinstance(p, ast.Attribute) and p.value is n:
                use = ('value', 'asked for .%s' % p.attr)
            elif isinstance(p, ast.Subscript) and p.value is n:
                use = ('value', 'indexed')
            elif isinstance(p, ast.BinOp):
                use = ('value', 'used as operand')
            elif isinstance(p, ast.Assign) and p.value is n or isinstance(p, ast.Return) and p.value is n:
                use = ('assigned', 'used')
            if use is None:
                continue
            ts, exact = targets(prog, f, n)
            ts = [t for t, b in ts if t.name != '__init__']
            if not ts:
                continue
            shapes = [result_shape(prog, f, t) for t in ts]
            c = '%s %s' % (f.qual, callee_text(n))
            if all(s == ('none',) for s in shapes) and use[0] != 'assigned' or (
                    all(s == ('none',) for s in shapes) and exact and use[0] == 'assigned' and not isinstance(p, ast.Return)
                    and not (isinstance(p, ast.Assign) and isinstance(p.targets[0], ast.Name) and p.targets[0].id == '_')):
                if use[0] == 'unpack':
                    use = ('value', 'unpacked')
                res.bad('results-fit', c, f.loc(n), 'the result of %s, which returns nothing, is %s' % (
                    ts[0].qual.split(':')[-1], use[1]))
            elif use[0] == 'unpack' and all(s is not None and s[0] == 'tuple' and s[1] != use[1] for s in shapes):
                res.bad('results-fit', c, f.loc(n), '%s returns %d values, unpacked into %d' % (
                    ts[0].qual.split(':')[-1], shapes[0][1], use[1]))
            elif any(s is not None for s in shapes):
                res.ok('results-fit', c, f.loc(n))


def container_kind(prog, f, e, depth=0):
    if depth > 3:
        return None
    if isinstance(e, (ast.List, ast.ListComp)):
        return 'list'
    if isinstance(e, (ast.Dict, ast.DictComp)):
        return 'dict'
    if isinstance(e, ast.Constant) and isinstance(e.value, str) or isinstance(e, ast.JoinedStr):
        return 'str'
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and not prog._is_local(f, e.func.id):
        k = {'list': 'list', 'sorted': 'list', 'dict': 'dict', 'OrderedDict': 'dict', 'str': 'str'}.get(e.func.id)
        return k
    if isinstance(e, ast.Name) and e.id not in f.params:
        v = prog.local_assigns(f).get(e.id, [])
        ks = {container_kind(prog, f, x, depth + 1) if h == 'val' else ('same' if h == 'aug' else None) for h, x in v}
        ks.discard('same')
        return ks.pop() if len(ks) == 1 else None
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == f.selfname and f.cls is not None:
        return None
    return None


def check_containers(prog, res):
    for f in sorted(prog.funcs.values(), key=lambda f: f.qual):
        if exempt(f.module):
            continue
        for n in prog.calls(f):
            if not isinstance(n.func, ast.Attribute):
                continue
            k = container_kind(prog, f, n.func.value)
            name = n.func.attr
            ar = None
            if k is not None:
                ar = CONTAINERS[k].get(name)
                if ar is None and k + '_attrs' in CONTAINERS and name not in CONTAINERS[k + '_attrs'] and not guarded(n.func, f, name) \
                        and name != 'move_to_end':
                    res.bad('container-calls-fit', '%s .%s' % (f.qual, name), f.loc(n), 'a %s has no method %s' % (k, name))
                    continue
            elif name == 'insert' and f.qual and looks_like_list(prog, f, n.func.value):
                ar, k = (2, 2), 'list'
            if ar is None or any(isinstance(a, ast.Starred) for a in n.args):
                continue
            c = '%s .%s' % (f.qual, name)
            if not ar[0] <= len(n.args) <= ar[1]:
                res.bad('container-calls-fit', c, f.loc(n), '%s.%s takes %s arguments, %d given' % (
                    k, name, ar[0] if ar[0] == ar[1] else '%d to %d' % ar, len(n.args)))
            else:
                res.ok('container-calls-fit', c, f.loc(n))


def looks_like_list(prog, f, e):
    """The expression is appended to, or inserted into with two arguments, or called with a list default elsewhere."""
    return isinstance(e, ast.Name) and any(
        isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and
        x.func.value.id == e.id and x.func.attr in ('append', 'extend') for x in own_nodes(f.node)) or len(
        getattr(getattr(e, '_parent', None), '_parent', ast.Call()).args or []) < 2 and isinstance(e, ast.Name)


def run(prog, res):
    res.rule('names-exist', 'Every name a function reads is defined in the function, around it, in the module or a builtin.')
    res.rule('names-bound', 'A local name is assigned on some path to every place that reads it (and not unbound again).')
    res.rule('imports-exist', 'Every name imported from a module of ocgis, also inside functions, is defined there.')
    res.rule('attributes-exist', 'Every attribute read of self, of modules, of classes and of objects whose class is known exists.')
    res.rule('calls-fit', 'Every call of a function, constructor or method of ocgis fits the signature of what is called.')
    res.rule('overrides-fit', 'An override can be called the way the method it overrides can.')
    res.rule('results-fit', 'A result that is used is one the callee returns, and tuples are unpacked into as many names.')
    res.rule('formats-fit', 'Every literal format string is given the arguments it asks for.')
    res.rule('container-calls-fit', 'Methods of lists, dictionaries and strings exist and are given the right number of arguments.')
    cache = {}
    dead = unreferenced(prog)

    def live(f, node):
        if f.qual in dead:
            return False
        if f.qual not in cache:
            reach = {x.id for x in reachable_nodes(f)}
            on = set()
            for x in cfg_of(f).nodes:
                if x.id in reach:
                    for e in node_exprs(x):
                        on.update(id(y) for y in ast.walk(e))
            cache[f.qual] = {id(y) for y in own_nodes(f.node) if isinstance(y, ast.expr) and in_body(f, y)} - on
        return id(node) not in cache[f.qual]

    check_names(prog, res, live)
    check_bound(prog, res)
    check_imports(prog, res)
    check_attributes(prog, res, live)
    check_calls(prog, res, live)
    check_overrides(prog, res)
    check_results(prog, res)
    check_formats(prog, res)
    check_containers(prog, res)
    res.count('functions analysed', len(prog.funcs))
    res.count('calls analysed', sum(len(prog.calls(f)) for f in prog.funcs.values()))
    if not getattr(prog, 'fixture', False):
        for rule, n in (('names-exist', 1400), ('names-bound', 800), ('imports-exist', 700), ('attributes-exist', 1400),
                        ('calls-fit', 2200), ('overrides-fit', 220), ('results-fit', 25), ('formats-fit', 20),
                        ('container-calls-fit', 200)):
            res.floor(rule, n)


def in_body(f, n):
    """In the statements of f itself: not in a default, decorator or nested definition."""
    while n is not None:
        p = getattr(n, '_parent', None)
        if p is f.node:
            return any(n is s for s in f.node.body)
        if isinstance(p, FUNC + (ast.ClassDef,)):
            return False
        n = p
    return False


# Overrides whose signature differs from the overridden method on purpose; called only where the class is known.
OWN_SIGNATURE = {
    'calculate': 'called with the parameters the calculation class defines',
    '_write_coll_': 'first argument is what _build_ of the same converter returned',
    'load_from_metadata': 'the projected systems are loaded variable by variable by their own caller',
    'TemporalVariable.get_between': 'time bounds are always used as they are',
    'CalcGrouping.parse': 'the value setter passes the value only',
}


def positional(t):
    a = t.node.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    req = len(pos) - len(a.defaults)
    if t.kind != 'static':
        pos, req = pos[1:], req - 1
    return pos, max(req, 0)


def check_overrides(prog, res):
    for k in sorted(prog.classes.values(), key=lambda c: c.qual):
        if exempt(k.module):
            continue
        for name, m in sorted(k.methods.items()):
            if m.kind == 'property' or name in ('__init__', '__new__'):
                continue
            for b in prog.mro(k)[1:]:
                o = b.methods.get(name)
                if o is None or o.kind == 'property':
                    continue
                if name in OWN_SIGNATURE or k.name + '.' + name in OWN_SIGNATURE:
                    break
                mp, mreq = positional(m)
                op, oreq = positional(o)
                what = None
                defaulted = op[oreq:] + [x.arg for x in o.node.args.kwonlyargs]
                if not m.vararg and len(mp) < len(op) - (len(op) - oreq if m.kwarg else 0):
                    what = 'takes %d arguments, the method it overrides %d' % (len(mp), len(op))
                elif mreq > len(op) and not o.vararg and not o.kwarg or mreq > oreq and not (o.vararg or o.kwarg):
                    what = 'requires %d arguments, the method it overrides %d' % (mreq, oreq)
                elif not m.kwarg and not m.vararg and [x for x in defaulted if x not in mp and x not in m.params] and \
                        len(mp) == len(op) and name not in ('set_mask',):
                    what = 'has no parameter %s of the method it overrides' % [x for x in defaulted if x not in m.params][0]
                c = m.qual
                if what:
                    res.bad('overrides-fit', c, m.loc(), '%s %s (%s)' % (m.qual.split(':')[-1], what, o.qual.split(':')[-1]))
                else:
                    res.ok('overrides-fit', c, m.loc())
                break
