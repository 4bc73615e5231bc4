"""Whole-program model of the ocgis package built from its current source (nothing is imported or executed).

Provides modules, classes (with C3-like MRO), functions (with nested functions and lambdas excluded), import-aware name
resolution, a light flow-insensitive type inference and a call resolver.
"""
import ast
import os
import warnings

from .inline import inline_new
from .normalize import normalize

REPO = os.environ.get('VERIF_REPO', '/repo')
PKG_ROOT = os.path.join(REPO, 'src', 'ocgis')

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)

# Method names so common on builtin/third-party containers that an unknown receiver is assumed not to be ours.
COMMON = set('''get items keys values update pop append extend insert remove sort copy join split format strip replace
startswith endswith lower upper add setdefault index count reverse clear popitem read readline readlines seek tell
flatten ravel reshape min max mean sum std any all astype tolist squeeze fill encode decode title union difference
intersection issubset isdisjoint write close open discard most_common put put_nowait start run next send throw
debug info warn warning error critical log exception addHandler setLevel setFormatter execute'''.split())

# Parameter/variable names whose class is a stable domain convention in this code base.  They only add candidate
# targets to the call graph; nothing is concluded from a name alone.
NAME_HINTS = {
    'field': 'Field', 'src_field': 'Field', 'dst_field': 'Field', 'sfield': 'Field', 'subset_sdim': 'GeometryVariable',
    'grid': 'Grid', 'src_grid': 'Grid', 'dst_grid': 'Grid', 'vm': 'OcgVM',
    'rd': 'RequestDataset', 'dmap': 'DimensionMap', 'dimension_map': 'DimensionMap',
    'driver': 'AbstractDriver', 'ops': 'OcgOperations', 'variable': 'Variable', 'var': 'Variable',
    'crs': 'AbstractCRS', 'coll': 'SpatialCollection',
    'geom': 'GeometryVariable', 'dimension': 'Dimension',
}
ATTR_HINTS = {
    'driver': 'AbstractDriver', 'grid': 'Grid', 'geom': 'GeometryVariable', 'dimension_map': 'DimensionMap',
    'crs': 'AbstractCRS', 'vm': 'OcgVM', 'parent': 'VariableCollection', 'time': 'TemporalVariable',
    'bounds': 'Variable', 'ops': 'OcgOperations', 'field': 'Field', 'request_dataset': 'RequestDataset',
    'realization': 'Variable', 'level': 'Variable', 'wrapped_state': None,
}


class AnalysisBroken(Exception):
    """The analysis cannot give an answer (anchor vanished, source unparsable)."""


class FuncInfo(object):
    __slots__ = ('qual', 'module', 'cls', 'node', 'name', 'parent', 'params', 'vararg', 'kwarg', 'decos', 'kind',
                 'nested', '_locals', '_cfg', '_calls', '_ret', '_annot', '_isgen')

    def __init__(self, qual, module, cls, node, parent=None):
        self.qual, self.module, self.cls, self.node, self.parent = qual, module, cls, node, parent
        self.name = node.name
        a = node.args
        self.params = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args + a.kwonlyargs]
        self.vararg = a.vararg.arg if a.vararg else None
        self.kwarg = a.kwarg.arg if a.kwarg else None
        self.decos = [ast.unparse(d) for d in node.decorator_list]
        self.kind = 'function'
        if cls is not None:
            self.kind = 'method'
            for d in self.decos:
                if d == 'property' or d.endswith('abstractproperty') or d.endswith('cached_property'):
                    self.kind = 'property'
                elif d.endswith('.setter'):
                    self.kind = 'setter'
                elif d.endswith('.deleter'):
                    self.kind = 'deleter'
                elif d == 'staticmethod':
                    self.kind = 'static'
                elif d == 'classmethod':
                    self.kind = 'class'
        self.nested = {}
        self._locals = None
        self._cfg = None
        self._calls = None
        self._ret = None
        self._annot = {}

    @property
    def path(self):
        return self.module.path

    @property
    def is_abstract(self):
        return any('abstract' in d for d in self.decos)

    @property
    def is_contextmanager(self):
        return any(d.split('.')[-1] == 'contextmanager' for d in self.decos)

    @property
    def selfname(self):
        if self.cls is not None and self.kind != 'static' and self.params:
            return self.params[0]
        if self.parent is not None:
            return None
        return None

    def __repr__(self):
        return '<F %s>' % self.qual

    def loc(self, node=None):
        node = node or self.node
        return '%s:%d' % (os.path.relpath(self.module.path, REPO), getattr(node, 'lineno', 0))


class ClassInfo(object):
    def __init__(self, qual, module, node):
        self.qual, self.module, self.node, self.name = qual, module, node, node.name
        self.bases = []  # ClassInfo or dotted string
        self.methods = {}  # name -> FuncInfo (plain, or property getter)
        self.setters = {}
        self.attrs = {}  # class-level assignments
        self._mro = None
        self.subs = set()
        self._attr_types = None

    def __repr__(self):
        return '<C %s>' % self.qual


class Module(object):
    def __init__(self, name, path, src):
        self.name, self.path, self.src = name, path, src
        self.is_pkg = os.path.basename(path) == '__init__.py'
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            self.tree = ast.parse(src, path)
        self.imports = {}
        self.stars = []
        self.functions = {}
        self.classes = {}
        self.globals = {}

    def loc(self, node):
        return '%s:%d' % (os.path.relpath(self.path, REPO), node.lineno)


def set_parents(tree):
    for node in ast.walk(tree):
        for child in ast.iter_child_nodes(node):
            child._parent = node


def own_nodes(node, include_root=False):
    if isinstance(node, FUNC) and not include_root:
        try:
            return node._own
        except AttributeError:
            node._own = list(_own_nodes(node))
            return node._own
    return _own_nodes(node, include_root)


def _own_nodes(node, include_root=False):
    """Walk a function body without entering nested function/class definitions (lambdas/comprehensions are entered)."""
    stack = list(ast.iter_child_nodes(node))
    if isinstance(node, FUNC):
        stack = list(node.body)
    if include_root:
        yield node
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, FUNC + (ast.ClassDef,)):
            continue
        stack.extend(ast.iter_child_nodes(n))


def dotted(expr):
    parts = []
    while isinstance(expr, ast.Attribute):
        parts.append(expr.attr)
        expr = expr.value
    if isinstance(expr, ast.Name):
        parts.append(expr.id)
        return '.'.join(reversed(parts))
    return None


class Program(object):
    def __init__(self, root=None, package='ocgis', exclude=('test', 'doc')):
        self.root = root or PKG_ROOT
        self.package = package
        self.fixture = False
        self.modules = {}
        self.funcs = {}
        self.classes = {}
        self.by_class_name = {}
        self.by_method_name = {}
        self._resolve_cache = {}
        self._infer_stack = set()
        self._infer_cache = {}
        self.param_types = {}
        self._load(exclude)
        self._link()
        for _ in range(2):
            self._infer_params()

    # -- loading ------------------------------------------------------------------------------------------------
    def _load(self, exclude):
        for dirpath, dirnames, filenames in os.walk(self.root):
            dirnames[:] = sorted(d for d in dirnames if d not in exclude and d != '__pycache__')
            for fn in sorted(filenames):
                if not fn.endswith('.py'):
                    continue
                path = os.path.join(dirpath, fn)
                rel = os.path.relpath(path, self.root)[:-3].replace(os.sep, '.')
                name = self.package if rel == '__init__' else self.package + '.' + rel
                if name.endswith('.__init__'):
                    name = name[:-9]
                with open(path, encoding='utf-8') as f:
                    src = f.read()
                self.modules[name] = Module(name, path, src)
        if not self.modules:
            raise AnalysisBroken('no source found under %s' % self.root)
        self.inlined = inline_new({n: m.tree for n, m in self.modules.items()}) if self.root == PKG_ROOT else []
        for m in self.modules.values():
            normalize(m.tree)
            set_parents(m.tree)
            self._collect(m)

    def _collect(self, m):
        for node in ast.walk(m.tree):
            # imports anywhere in the file are visible file-wide: ocgis uses function-level imports to break cycles and
            # never imports two different things under one name in one module
            if isinstance(node, ast.Import):
                for a in node.names:
                    if a.asname:
                        m.imports[a.asname] = a.name
                    else:
                        m.imports.setdefault(a.name.split('.')[0], a.name.split('.')[0])
            elif isinstance(node, ast.ImportFrom):
                base = node.module or ''
                if node.level:
                    pk = m.name.split('.')
                    if not m.is_pkg:
                        pk = pk[:-1]
                    pk = pk[:len(pk) - (node.level - 1)]
                    base = '.'.join(pk + ([node.module] if node.module else []))
                for a in node.names:
                    if a.name == '*':
                        m.stars.append(base)
                    else:
                        m.imports[a.asname or a.name] = base + '.' + a.name
        self._collect_body(m, m.tree.body, None, None, m.name + ':')

    def _collect_body(self, m, body, cls, parent, prefix):
        for node in body:
            if isinstance(node, FUNC):
                self._add_func(m, node, cls, parent, prefix)
            elif isinstance(node, ast.ClassDef):
                if cls is None and parent is None:
                    c = ClassInfo(m.name + ':' + node.name, m, node)
                    m.classes[node.name] = c
                    self.classes[c.qual] = c
                    self.by_class_name.setdefault(node.name, []).append(c)
                    self._collect_class(m, c)
            elif isinstance(node, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                for fieldname in ('body', 'orelse', 'finalbody'):
                    self._collect_body(m, getattr(node, fieldname, []) or [], cls, parent, prefix)
                for h in getattr(node, 'handlers', []) or []:
                    self._collect_body(m, h.body, cls, parent, prefix)
            elif isinstance(node, ast.Assign) and parent is None and cls is None:
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        m.globals.setdefault(t.id, node.value)

    def _collect_class(self, m, c):
        for node in c.node.body:
            if isinstance(node, FUNC):
                self._add_func(m, node, c, None, c.qual + '.')
            elif isinstance(node, ast.Assign):
                for t in node.targets:
                    if isinstance(t, ast.Name):
                        c.attrs[t.id] = node.value
            elif isinstance(node, ast.AnnAssign) and isinstance(node.target, ast.Name) and node.value is not None:
                c.attrs[node.target.id] = node.value

    def _add_func(self, m, node, cls, parent, prefix):
        f = FuncInfo(prefix + node.name, m, cls, node, parent)
        node._func = f
        key = f.qual
        if cls is not None and parent is None:
            if f.kind == 'setter':
                cls.setters[f.name] = f
                f.qual = key = key + '#setter'
            elif f.kind == 'deleter':
                f.qual = key = key + '#deleter'
            else:
                cls.methods[f.name] = f
                self.by_method_name.setdefault(f.name, []).append(f)
        elif parent is None:
            m.functions[f.name] = f
        else:
            parent.nested[f.name] = f
        self.funcs[key] = f
        stack = list(node.body)
        while stack:
            n = stack.pop()
            if isinstance(n, FUNC):
                g = FuncInfo(f.qual + '.' + n.name, m, None, n, f)
                n._func = g
                f.nested[n.name] = g
                self.funcs[g.qual] = g
                # nested functions of nested functions
                inner = [x for x in own_nodes(n) if isinstance(x, FUNC)]
                for x in inner:
                    h = FuncInfo(g.qual + '.' + x.name, m, None, x, g)
                    x._func = h
                    g.nested[x.name] = h
                    self.funcs[h.qual] = h
                continue
            if isinstance(n, ast.ClassDef):
                continue
            stack.extend(ast.iter_child_nodes(n))

    def _link(self):
        for c in self.classes.values():
            for b in c.node.bases:
                d = dotted(b)
                if d is None and isinstance(b, ast.Call):
                    # six.with_metaclass(ABCMeta, Base)
                    for a in b.args[1:]:
                        r = self.lookup(c.module, dotted(a) or '')
                        c.bases.append(r if isinstance(r, ClassInfo) else (dotted(a) or '?'))
                    continue
                r = self.lookup(c.module, d or '')
                c.bases.append(r if isinstance(r, ClassInfo) else (r if isinstance(r, str) else d or '?'))
            for deco in c.node.decorator_list:
                pass
        for c in self.classes.values():
            for k in self.mro(c)[1:]:
                k.subs.add(c)

    def _infer_params(self):
        """Types of parameters from the argument types at call sites (one round)."""
        new = {}
        for f in list(self.funcs.values()):
            for call in self.calls(f):
                for t in self.resolve_call(f, call, cha=False):
                    if not isinstance(t, FuncInfo):
                        continue
                    recv = call.func.value if isinstance(call.func, ast.Attribute) else None
                    for name, e in self.map_args(t, call, recv).items():
                        if name in t.params and isinstance(e, ast.AST) and name != t.selfname:
                            ty = {x for x in self.infer(f, e) if not isinstance(x, tuple)} | \
                                {x for x in self.infer(f, e) if isinstance(x, tuple)}
                            if ty:
                                new.setdefault((t.qual, name), set()).update(ty)
        for k, v in new.items():
            # collapse to the most general classes to keep call graphs small
            inst = {x for x in v if isinstance(x, ClassInfo)}
            inst = {x for x in inst if not any(y is not x and y in self.mro(x) for y in inst)}
            self.param_types[k] = inst | {x for x in v if isinstance(x, tuple)}
        self._infer_cache.clear()
        self._resolve_cache.clear()
        for f in self.funcs.values():
            f._ret = None

    # -- names --------------------------------------------------------------------------------------------------
    def lookup(self, module, name, _depth=0):
        """Resolve a dotted name used in ``module``: ClassInfo, FuncInfo, Module, ('global', Module, name) or a
        dotted string for something outside the package."""
        if not name or _depth > 8:
            return None
        head, _, rest = name.partition('.')
        if head in module.classes:
            return self._descend(module.classes[head], rest, _depth)
        if head in module.functions:
            return module.functions[head] if not rest else None
        if head in module.imports:
            full = module.imports[head] + ('.' + rest if rest else '')
            return self.lookup_dotted(full, _depth + 1)
        if head in module.globals:
            if not rest:
                return ('global', module, head)
            return None
        for star in module.stars:
            if star in self.modules:
                r = self.lookup(self.modules[star], name, _depth + 1)
                if r is not None:
                    return r
        if head in __builtins_set__:
            return name
        return None

    def _descend(self, cls, rest, depth):
        if not rest:
            return cls
        head, _, rest2 = rest.partition('.')
        f = self.find_method(cls, head)
        if f is not None and not rest2:
            return f
        return ('classattr', cls, rest)

    def lookup_dotted(self, full, _depth=0):
        parts = full.split('.')
        if parts[0] != self.package:
            return full
        for i in range(len(parts), 0, -1):
            mn = '.'.join(parts[:i])
            if mn in self.modules:
                m = self.modules[mn]
                if i == len(parts):
                    return m
                rest = '.'.join(parts[i:])
                r = self.lookup(m, rest, _depth + 1)
                return r if r is not None else ('global', m, rest)
        return full

    def cls_named(self, name):
        l = self.by_class_name.get(name)
        return l[0] if l else None

    def mro(self, c):
        if c._mro is not None:
            return c._mro
        c._mro = [c]  # cycle guard
        seqs = []
        for b in c.bases:
            if isinstance(b, ClassInfo):
                seqs.append(list(self.mro(b)))
        seqs.append([b for b in c.bases if isinstance(b, ClassInfo)])
        out = [c]
        seqs = [s for s in seqs if s]
        while seqs:
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            seqs = [[x for x in s if x is not cand] for s in seqs]
            seqs = [s for s in seqs if s]
        c._mro = out
        return out

    def find_method(self, cls, name, after=None):
        m = self.mro(cls)
        if after is not None:
            m = m[m.index(after) + 1:] if after in m else m[1:]
        for k in m:
            if name in k.methods:
                return k.methods[name]
        return None

    def find_setter(self, cls, name):
        for k in self.mro(cls):
            if name in k.setters:
                return k.setters[name]
            v = k.attrs.get(name)
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property' and len(v.args) > 1:
                return self.find_method(cls, (dotted(v.args[1]) or '').split('.')[-1])
            if name in k.methods and k.methods[name].kind != 'property':
                return None
        return None

    def is_subclass(self, c, base_name):
        return any(k.name == base_name for k in self.mro(c))

    def family(self, cls, name):
        """Method found for cls plus overrides in its subclasses."""
        out = []
        f = self.find_method(cls, name)
        if f is not None:
            out.append(f)
        for s in cls.subs:
            if name in s.methods and s.methods[name] not in out:
                out.append(s.methods[name])
        return sorted(out, key=lambda x: x.qual)

    # -- local environments -------------------------------------------------------------------------------------
    def local_assigns(self, f):
        if f._locals is not None:
            return f._locals
        env = {}

        def bind(t, v, how):
            if isinstance(t, ast.Name):
                env.setdefault(t.id, []).append((how, v))
            elif isinstance(t, (ast.Tuple, ast.List)):
                for i, e in enumerate(t.elts):
                    if isinstance(v, (ast.Tuple, ast.List)) and how == 'val' and len(v.elts) == len(t.elts):
                        bind(e, v.elts[i], 'val')
                    else:
                        bind(e, v, 'elt')
            elif isinstance(t, ast.Starred):
                bind(t.value, v, 'elt')

        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    bind(t, n.value, 'val')
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                bind(n.target, n.value, 'val')
            elif isinstance(n, ast.AugAssign):
                bind(n.target, n.value, 'aug')
            elif isinstance(n, ast.For):
                bind(n.target, n.iter, 'iter')
            elif isinstance(n, ast.comprehension):
                bind(n.target, n.iter, 'iter')
            elif isinstance(n, ast.withitem) and n.optional_vars is not None:
                bind(n.optional_vars, n.context_expr, 'with')
            elif isinstance(n, ast.ExceptHandler) and n.name:
                env.setdefault(n.name, []).append(('exc', n))
            elif isinstance(n, ast.NamedExpr):
                bind(n.target, n.value, 'val')
        f._locals = env
        return env

    # -- types --------------------------------------------------------------------------------------------------
    def infer(self, f, expr, depth=0):
        """Set of ClassInfo the expression may evaluate to an instance of (empty: unknown).  ('class', C) for the class
        object itself."""
        if depth > 6:
            return frozenset()
        key = (f.qual, id(expr))
        if key in self._infer_cache:
            return self._infer_cache[key]
        if key in self._infer_stack:
            return frozenset()
        self._infer_stack.add(key)
        try:
            r = frozenset(self._infer(f, expr, depth))
        finally:
            self._infer_stack.discard(key)
        if depth == 0:
            self._infer_cache[key] = r
        return r

    def _hint(self, table, name):
        c = table.get(name)
        if c:
            k = self.cls_named(c)
            if k is not None:
                return {k}
        return set()

    def _infer(self, f, e, depth):
        out = set()
        if isinstance(e, ast.Name):
            if f.cls is not None and e.id == f.selfname:
                return {('class', f.cls)} if f.kind == 'class' else {f.cls}
            g = f
            while g is not None:
                env = self.local_assigns(g)
                if e.id in env:
                    for how, v in env[e.id]:
                        if how == 'val':
                            out |= self.infer(g, v, depth + 1)
                        elif how == 'with':
                            out |= self._infer_with(g, v, depth + 1)
                    break
                if e.id in g.params:
                    if g.cls is not None and g.selfname == e.id:
                        return {g.cls}
                    out |= self.param_types.get((g.qual, e.id), set())
                    break
                g = g.parent
            else:
                r = self.lookup(f.module, e.id)
                if isinstance(r, ClassInfo):
                    return {('class', r)}
                if isinstance(r, tuple) and r[0] == 'global':
                    return self._infer_global(r[1], r[2], depth)
            return out or self._hint(NAME_HINTS, e.id)
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d:
                r = None
                head = d.split('.')[0]
                if not self._is_local(f, head):
                    r = self.lookup(f.module, d)
                if isinstance(r, ClassInfo):
                    return {('class', r)}
                if isinstance(r, tuple) and r[0] == 'global':
                    g = self._infer_global(r[1], r[2], depth)
                    if g:
                        return g
            base = self.infer(f, e.value, depth + 1)
            for b in base:
                c = b[1] if isinstance(b, tuple) else b
                m = self.find_method(c, e.attr)
                if m is not None and m.kind == 'property':
                    out |= self.returns(m, depth + 1)
                elif m is None:
                    out |= self.attr_types(c, e.attr, depth + 1)
            if e.attr == '__class__':
                return {('class', b) for b in base if isinstance(b, ClassInfo)}
            return out or self._hint(ATTR_HINTS, e.attr)
        if isinstance(e, ast.Call):
            if isinstance(e.func, ast.Name) and e.func.id == 'super':
                return {f.cls} if f.cls else set()
            if isinstance(e.func, ast.Name) and e.func.id in ('deepcopy', 'copy') and e.args:
                return self.infer(f, e.args[0], depth + 1)
            if isinstance(e.func, ast.Attribute) and e.func.attr in ('copy', 'deepcopy', 'extract') and not e.args:
                t = self.infer(f, e.func.value, depth + 1)
                if t:
                    return t
            d = dotted(e.func)
            if d in ('copy.copy', 'copy.deepcopy') and e.args:
                return self.infer(f, e.args[0], depth + 1)
            ft = self.infer(f, e.func, depth + 1) if isinstance(e.func, (ast.Name, ast.Attribute)) else set()
            cl = {b[1] for b in ft if isinstance(b, tuple)}
            if cl:
                return cl
            for t in self.resolve_call(f, e, depth + 1, cha=False):
                if isinstance(t, FuncInfo):
                    if t.name == '__init__' and t.cls is not None:
                        out.add(t.cls)
                    else:
                        out |= self.returns(t, depth + 1)
            return out
        if isinstance(e, ast.Subscript):
            # objects slice to their own class in this code base
            b = self.infer(f, e.value, depth + 1)
            return {x for x in b if isinstance(x, ClassInfo) and
                    not self.is_subclass(x, 'AbstractCollection') and self.find_method(x, '__getitem__')}
        if isinstance(e, ast.IfExp):
            return self.infer(f, e.body, depth + 1) | self.infer(f, e.orelse, depth + 1)
        if isinstance(e, ast.BoolOp):
            for v in e.values:
                out |= self.infer(f, v, depth + 1)
            return out
        return out

    def _is_local(self, f, name):
        g = f
        while g is not None:
            if name in g.params or name == g.vararg or name == g.kwarg or name in self.local_assigns(g):
                return True
            g = g.parent
        return False

    def _infer_with(self, f, ctx, depth):
        # ``with scope(x) as y``: y is what the context manager yields
        out = set()
        if isinstance(ctx, ast.Call):
            for t in self.resolve_call(f, ctx, depth + 1, cha=False):
                if isinstance(t, FuncInfo) and t.is_contextmanager:
                    for n in own_nodes(t.node):
                        if isinstance(n, ast.Yield) and n.value is not None:
                            out |= self.infer(t, n.value, depth + 1)
        return out

    def _infer_global(self, module, name, depth):
        if module.name == self.package and name == 'vm' or name == 'vm':
            k = self.cls_named('OcgVM')
            return {k} if k else set()
        if name == 'env':
            k = self.cls_named('Environment')
            return {k} if k else set()
        v = module.globals.get(name)
        if isinstance(v, ast.Call):
            r = self.lookup(module, dotted(v.func) or '')
            if isinstance(r, ClassInfo):
                return {r}
        return set()

    def returns(self, f, depth=0):
        if f._ret is not None:
            return f._ret
        if depth > 5:
            return frozenset()
        out = set()
        f._ret = frozenset()
        for n in own_nodes(f.node):
            if isinstance(n, ast.Return) and n.value is not None:
                out |= {x for x in self.infer(f, n.value, depth + 1) if isinstance(x, ClassInfo)}
        f._ret = frozenset(out)
        if depth > 2:
            f._ret = None
        return frozenset(out)

    def attr_types(self, c, attr, depth=0):
        out = set()
        if depth > 5:
            return out
        for k in self.mro(c):
            if k._attr_types is None:
                k._attr_types = {}
                for m in list(k.methods.values()) + list(k.setters.values()):
                    sn = m.selfname
                    if sn is None:
                        continue
                    for n in own_nodes(m.node):
                        if isinstance(n, ast.Assign):
                            for t in n.targets:
                                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == sn:
                                    k._attr_types.setdefault(t.attr, []).append((m, n.value))
            for m, v in k._attr_types.get(attr, []):
                if isinstance(v, ast.Call):
                    out |= {x for x in self.infer(m, v, depth + 1) if isinstance(x, ClassInfo)}
        return out

    # -- calls --------------------------------------------------------------------------------------------------
    def resolve_call(self, f, call, depth=0, cha=True):
        """Possible targets of a call: FuncInfo for code of ours, dotted strings for external code."""
        key = (f.qual, id(call), cha)
        if key in self._resolve_cache:
            return self._resolve_cache[key]
        r = self._resolve_call(f, call, depth, cha)
        if depth == 0:
            self._resolve_cache[key] = r
        return r

    def _ctor(self, c):
        m = self.find_method(c, '__init__')
        return [m] if m is not None else ['class:' + c.qual]

    def _resolve_call(self, f, call, depth, cha):
        fn = call.func
        if isinstance(fn, ast.Name):
            g = f
            while g is not None:
                if fn.id in g.nested:
                    return [g.nested[fn.id]]
                if fn.id in g.params or fn.id in self.local_assigns(g):
                    t = self.infer(g, fn, depth + 1)
                    out = []
                    for x in t:
                        if isinstance(x, tuple):
                            out += self._ctor(x[1])
                        else:
                            out += self.family(x, '__call__')
                    # local alias of a function: ``func = module.func``
                    for how, v in self.local_assigns(g).get(fn.id, []):
                        if how == 'val':
                            for vv in (v.body, v.orelse) if isinstance(v, ast.IfExp) else (v,):
                                d = dotted(vv)
                                if d and not self._is_local(g, d.split('.')[0]):
                                    r = self.lookup(f.module, d)
                                    if isinstance(r, FuncInfo):
                                        out.append(r)
                                elif isinstance(vv, ast.Attribute):
                                    for b in self.infer(g, vv.value, depth + 1):
                                        c = b[1] if isinstance(b, tuple) else b
                                        out += self.family(c, vv.attr)
                    return out or ['?' + fn.id]
                g = g.parent
            r = self.lookup(f.module, fn.id)
            if isinstance(r, FuncInfo):
                return [r]
            if isinstance(r, ClassInfo):
                return self._ctor(r)
            if isinstance(r, str):
                return [r]
            out = []
            for x in self.infer(f, fn, depth + 1):
                if isinstance(x, ClassInfo):
                    out += self.family(x, '__call__')
            return out or ['?' + fn.id]
        if isinstance(fn, ast.Attribute):
            name = fn.attr
            # super().m()
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                cls = f.cls or (f.parent.cls if f.parent else None)
                if cls is not None:
                    out = []
                    m = self.find_method(cls, name, after=cls)
                    if m is not None:
                        out.append(m)
                    for s in cls.subs:  # cooperative MRO
                        m2 = self.find_method(s, name, after=cls)
                        if m2 is not None and m2 not in out:
                            out.append(m2)
                    return out or ['super.' + name]
            d = dotted(fn)
            if d is not None and not self._is_local(f, d.split('.')[0]):
                r = self.lookup(f.module, d)
                if isinstance(r, FuncInfo):
                    return [r]
                if isinstance(r, ClassInfo):
                    return self._ctor(r)
                if isinstance(r, str):
                    return [r]
            types = self.infer(f, fn.value, depth + 1)
            out = []
            for t in sorted(types, key=lambda x: (x[1] if isinstance(x, tuple) else x).qual):
                c = t[1] if isinstance(t, tuple) else t
                for m in self.family(c, name):
                    if m not in out:
                        out.append(m)
            if out:
                return out
            if types and not cha:
                return []
            if cha and name not in COMMON:
                cands = self.by_method_name.get(name, [])
                if cands:
                    return sorted(cands, key=lambda x: x.qual)
            return ['?.' + name]
        return ['?']

    def calls(self, f):
        if f._calls is None:
            f._calls = [n for n in own_nodes(f.node) if isinstance(n, ast.Call)]
            f._calls.sort(key=lambda n: (n.lineno, n.col_offset))
        return f._calls

    def map_args(self, callee, call, bound=None):
        """Map callee parameter name -> argument expression.  ``bound`` is the receiver expression for methods."""
        out = {}
        params = list(callee.params)
        if callee.cls is not None and callee.kind in ('method', 'class', 'property', 'setter') and params:
            out[params[0]] = bound
            params = params[1:]
        i = 0
        for a in call.args:
            if isinstance(a, ast.Starred):
                out['*'] = a.value
                break
            if i < len(params):
                out[params[i]] = a
            else:
                out.setdefault('*rest', []).append(a)
            i += 1
        for k in call.keywords:
            if k.arg is None:
                out['**'] = k.value
            else:
                out[k.arg] = k.value
        return out

    def find_func(self, modname, name):
        """Anchor lookup: 'Class.method' or 'function' in module; AnalysisBroken if gone from the whole program."""
        m = self.modules.get(modname)
        if m is not None:
            if '.' in name:
                c, _, meth = name.partition('.')
                if c in m.classes:
                    f = self.find_method(m.classes[c], meth)
                    if f is not None:
                        return f
            elif name in m.functions:
                return m.functions[name]
        # moved elsewhere
        if '.' in name:
            c, _, meth = name.partition('.')
            for k in self.by_class_name.get(c, []):
                f = self.find_method(k, meth)
                if f is not None:
                    return f
        else:
            for mm in self.modules.values():
                if name in mm.functions:
                    return mm.functions[name]
        raise AnalysisBroken('anchor %s:%s not found' % (modname, name))


import builtins as _b  # noqa
__builtins_set__ = set(dir(_b))
