"""P07: no operation leaves state behind in the process."""
import ast

from ..cfg import cfg_of
from ..common import root_name
from ..flow import Flow, lit_depth, EMPTY
from ..program import ClassInfo, FuncInfo, Module, dotted, own_nodes

# External calls that change interpreter-wide or process-wide state, by dotted name.
PROCESS_CALLS = {
    'os.chdir', 'os.umask', 'os.putenv', 'os.unsetenv', 'os.setuid', 'os.setgid', 'os.nice', 'os.environ.update',
    'numpy.seterr', 'numpy.seterrcall', 'numpy.set_printoptions', 'numpy.random.seed', 'numpy.random.set_state',
    'random.seed', 'random.setstate', 'locale.setlocale', 'signal.signal', 'warnings.filterwarnings',
    'warnings.simplefilter', 'warnings.resetwarnings', 'sys.setrecursionlimit', 'sys.path.append', 'sys.path.insert',
    'tempfile.tempdir', 'gc.disable', 'gc.enable', 'socket.setdefaulttimeout', 'decimal.setcontext', 'logging.disable',
    'logging.basicConfig', 'time.tzset', 'osgeo.gdal.SetConfigOption', 'osgeo.gdal.UseExceptions',
    'osgeo.osr.UseExceptions', 'osgeo.ogr.UseExceptions', 'osgeo.gdal.DontUseExceptions',
    'osgeo.osr.DontUseExceptions', 'osgeo.ogr.DontUseExceptions', 'atexit.register', 'numpy.ma.core.set_fill_value',
    'importlib.reload', 'faulthandler.enable', 'sys.settrace', 'threading.settrace', 'os.setpgrp', 'os.setsid',
}
# Services whose own methods manage process-wide state on behalf of the user; their *classes'* methods are exempt (communicator
# state is decided by P02), everything else that writes to them is not.
SERVICES = {'OcgVM', 'OcgisLogging', 'DriverRegistry', 'Environment', 'ProgressOcgOperations', 'EnvParm', 'EnvParmImport'}
# Registration functions the user calls to extend the library.
REGISTRATION = {'FunctionRegistry', 'DriverRegistry'}
SCRIPT_MODULES = ('ocgis.util.shp_process', 'ocgis.util.benchmark', 'ocgis.util.enum', 'ocgis.util.justify',
                  'ocgis.util.itester', 'ocgis.util.addict.addict', 'ocgis.util.addict')
CACHE_DECOS = {'lru_cache', 'cache', 'memoize', 'memoized', 'cached'}


class Policy(object):
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.attr_sites = {}
        self.depths = {}
        self.seen = set()

    def depth(self, origin):
        if origin in self.depths:
            return self.depths[origin]
        self.depths[origin] = 0
        kind = origin[0]
        if kind == 'G':
            m = self.prog.modules[origin[1]]
            v = m.globals.get(origin[2])
            d = lit_depth(v, lambda n: self.depth(('G', m.name, n)) if n in m.globals else 0) or self.made_by_us(m, v)
            if d and self._touched_at_module_level(m, origin[2]):
                d = 9
        elif kind == 'C':
            c = self.prog.classes[origin[1]]
            v = c.attrs.get(origin[2])
            d = lit_depth(v, lambda n: self.depth(('C', c.qual, n)) if n in c.attrs else 0) or self.made_by_us(c.module, v)
        else:
            d = origin[3]
        self.depths[origin] = d
        return d

    def made_by_us(self, m, v):
        if not isinstance(v, ast.Call):
            return 0
        r = self.prog.lookup(m, dotted(v.func) or '')
        if isinstance(r, FuncInfo):
            return 9
        if isinstance(r, ClassInfo):
            return 0 if service_class(self.prog, r) else 9
        return 0

    @staticmethod
    def _touched_at_module_level(m, name):
        for n in m.tree.body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                continue
            for x in ast.walk(n):
                if isinstance(x, ast.Subscript) and root_name(x) == name and isinstance(x.ctx, ast.Store):
                    return True
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and root_name(x.func) == name:
                    return True
        return False

    def instance_assigned(self, c, attr):
        for k in self.prog.mro(c):
            m = k.methods.get('__init__')
            if m is None:
                continue
            for n in own_nodes(m.node):
                if isinstance(n, (ast.Assign, ast.AnnAssign)):
                    ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                    for t in ts:
                        for x in ast.walk(t):
                            if isinstance(x, ast.Attribute) and x.attr == attr and isinstance(x.value, ast.Name) and \
                                    x.value.id == m.selfname:
                                return True
        return False

    def class_attr(self, c, attr, via_instance):
        for k in self.prog.mro(c):
            if attr in k.methods or attr in k.setters:
                return EMPTY
            if attr in k.attrs:
                if via_instance and self.instance_assigned(c, attr):
                    return EMPTY
                o = ('C', k.qual, attr)
                return {(o, 0, 0)} if self.depth(o) else EMPTY
        return EMPTY

    def source(self, flow, f, e):
        prog = self.prog
        if isinstance(e, ast.Name):
            if prog._is_local(f, e.id):
                if f.parent is not None and e.id not in f.params and e.id not in prog.local_assigns(f):
                    return EMPTY
                return EMPTY
            r = prog.lookup(f.module, e.id)
            if isinstance(r, tuple) and r[0] == 'global' and r[2] in r[1].globals:
                o = ('G', r[1].name, r[2])
                if self.depth(o):
                    return {(o, 0, 0)}
            return EMPTY
        if isinstance(e, ast.Attribute):
            d = dotted(e)
            if d and not prog._is_local(f, d.split('.')[0]):
                r = prog.lookup(f.module, d)
                if isinstance(r, tuple) and r[0] == 'global' and r[2] in r[1].globals:
                    o = ('G', r[1].name, r[2])
                    return {(o, 0, 0)} if self.depth(o) else EMPTY
                if isinstance(r, tuple) and r[0] == 'classattr' and '.' not in r[2]:
                    return self.class_attr(r[1], r[2], False)
                if r == 'os.environ':
                    return {(('X', 'os', 'environ', 9), 0, 0)}
            out = set()
            for t in prog.infer(f, e.value):
                c = t[1] if isinstance(t, tuple) else t
                out |= set(self.class_attr(c, e.attr, not isinstance(t, tuple)))
                if not isinstance(t, tuple):
                    for s in c.subs:
                        if e.attr in s.attrs:
                            out |= set(self.class_attr(s, e.attr, True))
            return out
        return EMPTY

    def defaults(self, flow, f):
        a = f.node.args
        pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
        pairs = list(zip(reversed(pos), reversed(a.defaults))) + \
            [(x.arg, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        out = []
        for p, d in pairs:
            n = lit_depth(d, lambda nm: self.depth(('G', f.module.name, nm)) if nm in f.module.globals else 0)
            if n:
                out.append((p, frozenset({(('D', f.qual, p, n), 0, 0)})))
        return out

    def attribute_write(self, flow, f, t, node):
        self.attr_sites[(f.qual, node.lineno, ast.unparse(t))] = (f, t, node)

    def call(self, flow, f, e):
        pass

    def feasible(self, flow, f, test, truth):
        """Branches on a class constant are pruned when every class of the family that carries a mutable class-level
        default agrees on the constant (only those classes put a shared object into the analysed value)."""
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        if not (isinstance(test, ast.Attribute) and isinstance(test.value, ast.Name) and f.cls is not None and
                test.value.id == f.selfname):
            return True
        vals = set()
        for c in [f.cls] + sorted(f.cls.subs, key=lambda k: k.qual):
            if not any(self.depth(('C', c.qual, a)) for a in ('default',) if a in c.attrs):
                continue
            for k in self.prog.mro(c):
                if test.attr in k.attrs:
                    v = k.attrs[test.attr]
                    vals.add(bool(v.value) if isinstance(v, ast.Constant) else None)
                    break
            else:
                vals.add(None)
        return vals != {not truth}


def describe(o):
    if o[0] == 'G':
        return 'the module-level object %s.%s' % (o[1], o[2])
    if o[0] == 'C':
        return 'the class-level object %s.%s' % (o[1].split(':')[-1], o[2])
    if o[0] == 'D':
        return 'the default value of parameter %s of %s' % (o[2], o[1].split(':')[-1])
    return 'the process environment os.environ'


def service_class(prog, c):
    return any(k.name in SERVICES for k in prog.mro(c))


def saved_restored(prog, f, t):
    """env.X = value followed by env.X = <name saved from env.X> in a finally block of the same function."""
    key = ast.unparse(t)
    for n in own_nodes(f.node):
        if isinstance(n, ast.Try):
            for s in n.finalbody:
                for a in ast.walk(s):
                    if isinstance(a, ast.Assign) and any(ast.unparse(x) == key for x in a.targets) and \
                            isinstance(a.value, ast.Name):
                        vals = [v for how, v in prog.local_assigns(f).get(a.value.id, [])]
                        if vals and all(isinstance(v, ast.AST) and ast.unparse(v) == key for v in vals):
                            return True
    return False


def module_level_instance(prog, f, e):
    """Name of the module-level ocgis instance, class, module or function the expression denotes, else None."""
    if isinstance(e, ast.Name) and f.kind == 'class' and e.id == f.selfname:
        return 'class %s' % f.cls.name
    if isinstance(e, ast.Call):
        d = dotted(e.func)
        if d == 'type' and len(e.args) == 1:
            return 'class of %s' % ast.unparse(e.args[0])
        return None
    d = dotted(e)
    if d is None:
        return None
    if d.endswith('.__class__'):
        return 'class of %s' % d[:-len('.__class__')]
    head = d.split('.')[0]
    if prog._is_local(f, head):
        for t in prog.infer(f, e):
            if isinstance(t, tuple):
                # a local that only ever denotes class objects
                pass
            elif t.name == 'Environment':
                return 'env'
        # local alias of a module-level object
        vals = prog.local_assigns(f).get(head, [])
        if d == head and len(vals) == 1 and isinstance(vals[0][1], (ast.Name, ast.Attribute)) and head not in f.params:
            return module_level_instance(prog, f, vals[0][1]) if vals[0][1] is not e and \
                dotted(vals[0][1]) != d else None
        return None
    r = prog.lookup(f.module, d)
    if isinstance(r, Module):
        return 'module %s' % r.name
    if isinstance(r, ClassInfo):
        return 'class %s' % r.name
    if isinstance(r, FuncInfo):
        return 'function %s' % r.name
    if isinstance(r, tuple) and r[0] == 'global':
        return '%s.%s' % (r[1].name.split('.')[-1], r[2])
    if isinstance(r, str) and r not in ('self',) and '.' not in r and r in f.module.imports.values():
        return 'module %s' % r
    if isinstance(r, str) and '.' in r:
        return r
    return None


def check_writes(prog, res):
    RW = 'no-attribute-of-shared-object-rebound'
    res.rule(RW, 'no function assigns an attribute of a module, a class object, env or another module-level object, except '
                 'services managing their own state and settings restored in a finally block')
    n = 0
    for f in prog.funcs.values():
        if f.module.name in SCRIPT_MODULES:
            continue
        top = f
        while top.parent is not None:
            top = top.parent
        own_service = top.cls is not None and service_class(prog, top.cls)
        for x in own_nodes(f.node):
            targets = []
            if isinstance(x, ast.Assign):
                targets = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign)):
                targets = [x.target]
            elif isinstance(x, ast.Delete):
                targets = x.targets
            elif isinstance(x, (ast.For,)):
                targets = [x.target]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in ('setattr', 'delattr') and x.args:
                targets = [ast.copy_location(ast.Attribute(value=x.args[0], attr='*' if not isinstance(
                    x.args[1], ast.Constant) else str(x.args[1].value), ctx=ast.Store()), x)]
            elif isinstance(x, ast.Global):
                for nm in x.names:
                    ref = '%s global %s' % (f.qual, nm)
                    res.bad(RW, ref, f.loc(x), 'declares module variable %s global and rebinds it' % nm)
                continue
            flat = []
            for t in targets:
                flat += [y for y in ast.walk(t) if isinstance(y, ast.Attribute) and
                         (isinstance(y.ctx, (ast.Store, ast.Del)))]
            for t in flat:
                n += 1
                who = module_level_instance(prog, f, t.value)
                if who is None:
                    continue
                if own_service and (isinstance(t.value, ast.Name) and t.value.id == f.selfname):
                    continue
                if top.cls is not None and who == 'class %s' % top.cls.name and service_class(prog, top.cls):
                    continue
                ref = '%s %s.%s' % (f.qual, who, t.attr)
                if saved_restored(prog, f, t):
                    res.ok(RW, ref, f.loc(x), 'restored')
                    continue
                res.bad(RW, ref, f.loc(x), 'rebinds attribute %s of %s, which outlives the call and changes later operations'
                        % (t.attr, who))
    res.count('attribute_writes', n)
    res.ok(RW, 'all other attribute writes (%d sites scanned)' % n, 'src/ocgis')


def check_process_calls(prog, res):
    R = 'no-process-wide-setting-changed'
    res.rule(R, 'functions call no interpreter- or process-wide setter (working directory, warnings filters, numpy error '
                'state, random seed, locale, signal handlers, GDAL options); import-time set-up is exempt')
    n = 0
    for f in prog.funcs.values():
        if f.module.name in SCRIPT_MODULES:
            continue
        # inside ``with warnings.catch_warnings()`` / np.errstate the change is scoped
        for call in prog.calls(f):
            n += 1
            for t in prog.resolve_call(f, call, cha=False):
                if isinstance(t, str):
                    nm = {'np.': 'numpy.'}.get(t[:3], t[:3]) + t[3:]
                    if nm in PROCESS_CALLS:
                        if scoped_by_with(call):
                            continue
                        res.bad(R, '%s %s' % (f.qual, nm), f.loc(call), 'changes process-wide state through %s' % nm)
    res.count('calls_scanned', n)
    res.ok(R, '%d calls scanned' % n, 'src/ocgis')


def scoped_by_with(node):
    p = getattr(node, '_parent', None)
    while p is not None:
        if isinstance(p, ast.With):
            for i in p.items:
                d = dotted(i.context_expr.func) if isinstance(i.context_expr, ast.Call) else None
                if d and d.split('.')[-1] in ('catch_warnings', 'errstate', 'printoptions'):
                    return True
        p = getattr(p, '_parent', None)
    return False


def check_caches(prog, res):
    R = 'no-process-wide-memo'
    res.rule(R, 'no function memoises its results for the life of the process')
    n = 0
    for f in prog.funcs.values():
        n += 1
        for d in f.decos:
            if d.split('(')[0].split('.')[-1] in CACHE_DECOS:
                res.bad(R, f.qual, f.loc(), 'results are memoised for the life of the process (%s)' % d)
    res.ok(R, '%d functions scanned' % n, 'src/ocgis')


def run(prog, res):
    R = 'shared-object-not-mutated'
    res.rule(R, 'no module-level container, class-level container or mutable default value is changed in place by a '
                'function, directly, through an alias, a shallow copy, an attribute or a callee (alias flow analysis)')
    pol = Policy(prog, res)
    flow = Flow(prog, pol)
    # the shared objects themselves are the obligations
    shared = {}
    for m in prog.modules.values():
        if m.name in SCRIPT_MODULES:
            continue
        for g in m.globals:
            o = ('G', m.name, g)
            if pol.depth(o):
                shared[o] = m
    for c in prog.classes.values():
        if c.module.name in SCRIPT_MODULES:
            continue
        for a in c.attrs:
            o = ('C', c.qual, a)
            if pol.depth(o):
                shared[o] = c.module
    for f in prog.funcs.values():
        for p, ts in pol.defaults(flow, f):
            for t in ts:
                shared[t[0]] = f.module
    shared[('X', 'os', 'environ', 9)] = None
    hit = {}
    for (q, o, dd, line), (f, node, how) in sorted(flow.hits.items(), key=lambda kv: (kv[0][0], kv[0][3])):
        if o not in shared or pol.depth(o) <= dd:
            continue
        if f.module.name in SCRIPT_MODULES:
            continue
        if registration(prog, f):
            continue
        hit.setdefault(o, []).append((f, node, how))
    for o, m in sorted(shared.items(), key=lambda kv: str(kv[0])):
        if o in hit:
            # report at the direct mutation sites first
            done = set()
            for f, node, how in hit[o]:
                if f.qual in done:
                    continue
                done.add(f.qual)
                res.bad(R, '%s %s' % (f.qual, describe(o)), f.loc(node), '%s is changed in place (%s)' % (describe(o), how))
        else:
            res.ok(R, describe(o), 'src/ocgis')
    res.count('flow_rounds', flow.rounds)
    res.count('shared_objects', len(shared))
    check_writes(prog, res)
    check_process_calls(prog, res)
    check_caches(prog, res)
    if not prog.fixture:
        res.floor(R, 60)


def registration(prog, f):
    while f.parent is not None:
        f = f.parent
    return f.cls is not None and any(k.name in REGISTRATION for k in prog.mro(f.cls))
