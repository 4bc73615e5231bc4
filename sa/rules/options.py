"""P10: what a caller asks for takes effect."""
import ast

from ..common import dep_names
from ..paths import assigned_names
from ..cfg import CFG
from ..inline import baseline
from ..program import ClassInfo, FuncInfo, own_nodes, dotted

# What identifies or describes an object rather than saying how to do something: each object made has its own.
IDENTITY = {'uid', 'name', 'source_name', 'parent', 'aliases', 'alias', 'key', 'path', 'msg', 'dimensions', 'value', 'attrs',
            'units', 'shape', 'pos', 'fill_value', 'size', 'self', 'cls'}
LOGGING = 'ocgis.util.logging_ocgis'

# Parameters that an interface prescribes and that have no meaning in the implementation named.  method or Class.method, param.
NOT_USED = {
    ('create_dimension_map', 'group_metadata'): 'a driver or CRS without metadata of its own',
    ('create_dimension_map', 'strict'): 'a CRS has nothing to be strict about',
    ('create_raw_field', 'group_name'): 'used by drivers with groups only',
    ('get_data_variable_names', 'group_metadata'): 'drivers with a fixed layout',
    ('get_data_variable_names', 'group_dimension_map'): 'drivers with a fixed layout',
    ('get_distributed_dimension_name', 'dimension_map'): 'drivers with one distributed dimension',
    ('get_distributed_dimension_name', 'dimensions_metadata'): 'drivers with one distributed dimension',
    ('get_distributed_dimension_name', 'decomp_type'): 'drivers with one distributed dimension',
    ('iterator_formatter', 'mask'): 'the default formatter writes the value',
    ('_get_crs_main_', 'group_metadata'): 'drivers without CRS metadata',
    ('_init_variable_from_source_main_', 'variable_object'): 'used by some drivers only',
    ('array_resolution', 'axis'): 'unstructured coordinates have no axis',
    ('aggregate_spatial', 'weights'): 'sums and counts are not weighted',
    ('_aggregate_spatial_', 'weights'): 'sums and counts are not weighted',
    ('_preformatting_', 'i'): 'hook for converters',
    ('_get_canonical_dimension_map_', 'create'): 'always made',
    ('zeropercentagecallback', 'p'): 'replaces the callback by one that does nothing',
    ('Variable.get_mask', 'eager'): 'a variable without a source has nothing to load; sourced variables use it',
    ('_as_record_', 'pytype_primitives'): 'done by the caller',
    ('transform_geometry', 'inverse'): 'Cartesian coordinates of geometries are not implemented (raises)',
    ('transform_grid', 'inverse'): 'decided by the coordinates',
    ('load_from_metadata', 'strict'): 'spherical systems are found the same way',
    ('_load_from_metadata_finalize_', 'var'): 'hook',
    ('__get__', 'ownerclass'): 'descriptor protocol', ('__prepare__', 'bases'): 'metaclass protocol',
    ('__reduce_ex__', 'proto'): 'pickle protocol', ('_reduce_ex_by_name', 'proto'): 'pickle protocol',
}
# Calls of functions with an option of the same name that means something else there, or that is decided at this place.
# (option, function called): reason
NOT_PASSED = {
    ('force', 'set_crs'): 'a coordinate system is replaced in any case',
    ('force', 'set_dimensions'): 'bounds live in the collection of their variable, whose dimensions were just replaced',
    ('force', 'add_dimension'): 'a dimension that is not there yet',
    ('update', 'set_mask_by_variable'): 'bounds are masked wherever the variable is',
    ('nullable', 'get_variable'): 'checked by the caller itself',
    ('cascade', 'set_mask'): 'the copy made for a subset cascades its own mask',
    ('data_variables', '_create_request_dataset_'): 'the destination has none',
    ('buffer_value', 'get_spatial_subset'): 'the chunker has buffered the geometry already',
    ('has_root', 'iter_all_group_keys'): 'children have no root',
    ('default', 'get_driver_class'): 'the default is a driver name',
    ('esplit', 'get_rank_bounds'): 'of all ranks at once',
    ('cascade', 'load'): 'members do not cascade again',
    ('eager', 'deepcopy'): 'not implemented (raises) for eager copies',
    ('group_name', 'create_raw_field'): 'one for each child group',
    ('first', 'get_dump_report'): 'children come after the first',
    ('global_attributes_name', 'get_dump_report'): 'children are named by their group',
    ('fill', 'parse_metadata'): 'one for each child group',
    ('try_again', 'do_remove_self_intersects'): 'tried again once',
    ('is_recursing', 'split'): 'the recursion marker itself',
    ('callback', 'ProgressOcgOperations'): 'a default without call-back for engines used on their own',
    ('output_crs', 'SpatialSubsetOperation'): 'applied by the engine once all operations are done',
    ('dtype', 'get_iter'): 'the types told apart by the iteration',
    ('force', 'add_variable'): 'the index variable made here replaces one of that name',
    ('as_field', 'GeomCabinetIterator'): 'records to be united are read as records',
    ('inverse', 'transform_geometry'): 'the inverse of the transform tried first',
    ('write_mode', 'Field.write'): 'the options of variables', ('write_mode', 'VariableCollection.write'): 'the options of variables',
    ('inverse', 'transform_grid', 'transform_grid'): 'decided by the coordinates',
    ('dataset', 'Geom'): 'a single dataset among its keywords, for the data model',
    ('angular_units', 'Spherical'): 'a sphere in degrees below the tripole',
    ('mask', 'Iterator'): 'followers have their own', ('slice_remap', 'Iterator'): 'followers have their own',
    ('melted', 'Iterator'): 'the leader melts', ('repeaters', 'Iterator'): 'the leader repeats',
    ('formatter', 'Iterator'): 'followers have their own', ('clobber_masked', 'Iterator'): 'followers have their own',
    ('followers', 'Iterator'): 'followers have none',
    ('allow_masked', 'Iterator', 'iter'): 'an iterator that only tells the names of repeaters',
    ('primary_mask', 'Iterator', 'iter'): 'an iterator that only tells the names of repeaters',
    ('repeaters', 'get_iter', 'iter'): 'the leader repeats', ('followers', 'get_iter', 'iter'): 'followers have none',
    ('crs', 'GeometryVariable', 'from_records'): 'set on the field, which hands it to its geometry',
    ('force', 'Field', 'add_field'): 'a container without variables',
    ('select_ugid', 'Geom'): 'taken for geom_select_uid, which is passed on',
    ('use_spatial_index', 'AbstractOperationsSpatialObject.get_intersects'): 'grids have no spatial index',
    ('use_spatial_index', 'AbstractOperationsSpatialObject.get_intersection'): 'grids have no spatial index',
    ('optimized_bbox_subset', 'AbstractOperationsSpatialObject.get_intersection'): 'refused before, for intersections',
    ('eager', 'get_mask'): 'the value is loaded by the caller when eager',
    ('dtype', 'from_shapely', 'convert_to'): 'the data type of coordinates, not of geometries',
    ('dtype', 'Variable', 'convert_to'): 'the data type of coordinates, not of the index made here',
}
# Methods that other libraries' objects have too.
COMMON = {'get', 'pop', 'append', 'update', 'copy', 'keys', 'values', 'items', 'format', 'join', 'split', 'read', 'write', 'close',
          'open', 'iter', 'add', 'set', 'reshape', 'Create', 'gather', 'scatter', 'bcast', 'reduce', 'union', 'difference'}
# Classes whose constructor options are settings for what their methods call.
SETTINGS = ('OperationsEngine', 'CalculationEngine', 'SpatialSubsetOperation', 'RegridOperation', 'GridChunker',
            'GeomCabinetIterator', 'AbstractConverter', 'AbstractDriver', 'OcgInterpreter', 'GeometrySplitter', 'Iterator',
            'ArrayIterator', 'Geom')


def options_of(t):
    a = t.node.args
    pos = getattr(a, 'posonlyargs', []) + a.args
    out = {x.arg for x in pos[len(pos) - len(a.defaults):]} if a.defaults else set()
    out |= {x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
    return out


def stub(f):
    """Nothing but documentation, pass, raise or return of a constant; or a raise before anything else."""
    for n in f.node.body:
        if isinstance(n, ast.Raise):
            return True
        if isinstance(n, (ast.If, ast.Assert)) and isinstance(n.test, ast.Constant):
            continue
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) or isinstance(n, (ast.Pass, ast.Raise)):
            continue
        if isinstance(n, ast.Return) and (n.value is None or not any(isinstance(x, (ast.Name, ast.Call)) for x in
                                                                      ast.walk(n.value))):
            continue
        return False
    return True


def key_text(prog, f, e):
    """The string a constant expression stands for: a literal, or an attribute of a class of constants."""
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, str) else None
    d = dotted(e)
    if d and '.' in d:
        o = prog.lookup(f.module, d.rsplit('.', 1)[0])
        for k in (prog.mro(o) if isinstance(o, ClassInfo) else []):
            v = getattr(k, 'attrs', {}).get(d.rsplit('.', 1)[1])
            if v is not None:
                return v.value if isinstance(v, ast.Constant) and isinstance(v.value, str) else None
    return None


def keyword_locals(prog, f):
    """{option: [how, local names, call]} taken out of **kwargs by pop or get."""
    out = {}
    if not f.kwarg:
        return out
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('pop', 'get') and \
                isinstance(n.func.value, ast.Name) and n.func.value.id == f.kwarg and n.args and \
                key_text(prog, f, n.args[0]):
            out.setdefault(key_text(prog, f, n.args[0]), [n.func.attr, set(), n])
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            for x in ast.walk(n.value):
                for o, (how, names, call) in out.items():
                    if isinstance(x, ast.Call) and ast.dump(x) == ast.dump(call):
                        names.add(n.targets[0].id)
    return out


def only_sets(stmts, x):
    return all(isinstance(s, ast.Pass) or isinstance(s, ast.Assign) and all(isinstance(t, ast.Name) and t.id == x
                                                                             for t in s.targets) for s in stmts)


def idle_reads(f, x):
    """Reads of x that only decide whether or how x itself is replaced."""
    out = set()
    for n in ast.walk(f.node):
        part = None
        if isinstance(n, ast.If) and only_sets(n.body, x) and only_sets(n.orelse, x):
            part = n.test
        elif isinstance(n, ast.Assign) and all(isinstance(t, ast.Name) and t.id == x for t in n.targets):
            part = n.value
        elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == x:
            part = n.value
        if part is not None:
            out |= {id(y) for y in ast.walk(part)}
    return out


def derived(f, x):
    """Assignments to x that depend on what it was."""
    out = set()
    for n in ast.walk(f.node):
        if isinstance(n, ast.If) and only_sets(n.body, x) and only_sets(n.orelse, x) and n.orelse and \
                any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(n.test)):
            out |= set(n.body) | set(n.orelse)
    return out


def used(f, x, start=None):
    """Does the value x has on entry (or after ``start``) reach a read that does something with it?"""
    idle = idle_reads(f, x)
    reads = {id(n): n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load)}
    live = {i for i in reads if i not in idle}
    if not live:
        return False
    own = {id(n) for n in own_nodes(f.node)}
    if any(i not in own for i in live):
        return True     # read by a nested function
    g = CFG(f.node)
    inside = {id(y) for n in g.nodes if n.ast is not None and n.kind not in ('entry', 'exit', 'exc_exit')
              for y in ast.walk(n.ast)}
    if any(i not in inside for i in live):
        return True     # behind an exception the graph does not show
    first = [g.entry]
    if start is not None:
        first = [n for n in g.nodes if n.ast is not None and n.kind == 'stmt' and any(y is start for y in ast.walk(n.ast))]
    seen, work = set(), [s for n in first for s, l in n.succ] + [n for n in g.nodes if n.kind == 'handler']
    kept = derived(f, x)
    while work:
        n = work.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        parts = []
        if n.ast is not None:
            if n.kind in ('test', 'iter') and isinstance(n.extra, ast.AST):
                parts = [n.extra]
            elif n.kind in ('stmt', 'return', 'raise'):
                parts = [n.ast]
            elif n.kind == 'with_enter':
                parts = [n.extra.context_expr]
        if any(id(y) in live for p in parts for y in ast.walk(p)):
            return True
        names = assigned_names(n)[0]
        if x in names and n.ast not in kept and not any(id(y) in reads for p in parts for y in ast.walk(p)):
            continue
        work += [s for s, l in n.succ]
    return False


def parents(f):
    out = {}
    for n in ast.walk(f.node):
        for c in ast.iter_child_nodes(n):
            out[c] = n
    return out


def tests(e, names):
    """Does the condition depend on one of names, other than on its being None?"""
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Is, ast.IsNot)):
        return False
    if isinstance(e, ast.Name):
        return e.id in names
    return any(tests(c, names) for c in ast.iter_child_nodes(e))


def decided_by(up, n, names):
    """Is n inside a branch whose condition depends on names, or behind one that left the function?"""
    while n in up:
        p = up[n]
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and p.test is not n and tests(p.test, names):
            return True
        for block in (getattr(p, a, None) for a in ('body', 'orelse', 'finalbody')):
            if isinstance(block, list) and n in block:
                for s in block[:block.index(n)]:
                    if isinstance(s, ast.If) and tests(s.test, names) and any(
                            b and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) for b in (s.body, s.orelse)):
                        return True
        n = p
    return False


def new(prog, f):
    known = prog.__dict__.setdefault('_options_known', set() if getattr(prog, 'fixture', False) else baseline())
    return bool(known) and f.qual not in known


def callee_name(t):
    return t.cls.name if t.name == '__init__' and t.cls is not None else t.name


def exempt(q, t, f):
    full = '%s.%s' % (t.cls.name, t.name) if t.cls is not None else t.name
    return (q, callee_name(t)) in NOT_PASSED or (q, full) in NOT_PASSED or (q, callee_name(t), f.name) in NOT_PASSED


def accepted(prog, t, seen=()):
    """Options a function takes, those it hands on through **kwargs included."""
    cache = prog.__dict__.setdefault('_options_accepted', {})
    if t.qual in cache:
        return cache[t.qual]
    out = set(options_of(t))
    if t.kwarg and t.qual not in seen:
        kw = keyword_locals(prog, t)
        out |= set(kw)
        for n in own_nodes(t.node):
            if isinstance(n, ast.Call) and any(k.arg is None and isinstance(k.value, ast.Name) and k.value.id == t.kwarg
                                               for k in n.keywords):
                for u in targets(prog, t, n):
                    given = {k.arg for k in n.keywords}
                    out |= {q for q in accepted(prog, u, seen + (t.qual,)) if q not in given and
                            not (q in kw and kw[q][0] == 'pop')}
    if not seen:
        cache[t.qual] = out
    return out


def dict_keys(prog, f, e):
    """Keys of a dictionary passed as **e if f builds it from scratch, else None."""
    if isinstance(e, ast.Dict):
        ks = [key_text(prog, f, k) if k is not None else None for k in e.keys]
        return None if None in ks else set(ks)
    if not isinstance(e, ast.Name) or e.id in f.params or e.id == f.kwarg:
        return None
    out = set()
    for how, v in prog.local_assigns(f).get(e.id, []):
        if isinstance(v, ast.Call) and dotted(v.func) in ('dict', 'OrderedDict') and not v.args and \
                all(k.arg for k in v.keywords):
            out |= {k.arg for k in v.keywords}
        elif isinstance(v, ast.Dict):
            ks = dict_keys(prog, f, v)
            if ks is None:
                return None
            out |= ks
        else:
            return None
    for n in own_nodes(f.node):
        if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and \
                n.value.id == e.id:
            k = key_text(prog, f, n.slice)
            if k is None:
                return None
            out.add(k)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                n.func.value.id == e.id and n.func.attr in ('update', 'setdefault'):
            return None
    return out


def given(prog, f, m, q):
    """Is the option q among the arguments m, as far as can be seen?"""
    if q in m or '*' in m:
        return True
    if any(q in dep_names(prog, f, e) for e in m.get('*rest', ())):
        return True
    if '**' in m:
        ks = dict_keys(prog, f, m['**'])
        return ks is None or q in ks
    return False


def defaults_of(f):
    a = f.node.args
    pos = getattr(a, 'posonlyargs', []) + a.args
    out = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults)) if a.defaults else {}
    out.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
    return out


def crossed(prog, res, f, rule):
    """A value named like one setting is not kept as another one."""
    for n in own_nodes(f.node):
        if not isinstance(n, ast.Assign) or not isinstance(n.value, ast.Name) or n.value.id not in f.params:
            continue
        for t in n.targets:
            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.selfname:
                a = t.attr.strip('_')
                res.check(a == n.value.id or a not in f.params, rule, '%s %s kept as %s' % (f.qual, n.value.id, t.attr), f.loc(n),
                          '%s is kept as %s, for which there is a parameter of its own' % (n.value.id, t.attr))


def none_tested_only(prog, f, x):
    """Is x read, but only to ask whether it is None?"""
    reads = {id(n) for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == x and isinstance(n.ctx, ast.Load)}
    asked = {id(n.left) for n in ast.walk(f.node) if isinstance(n, ast.Compare) and len(n.ops) == 1 and
             isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and
             n.comparators[0].value is None}
    return bool(reads) and reads <= asked


def inward(t, neg=False):
    """The test with negations moved to its atoms, so that spelling it by De Morgan's rules makes no difference."""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        return inward(t.operand, not neg)
    if isinstance(t, ast.BoolOp):
        op = t.op if not neg else (ast.Or() if isinstance(t.op, ast.And) else ast.And())
        return ast.copy_location(ast.BoolOp(op, [inward(v, neg) for v in t.values]), t)
    return ast.copy_location(ast.UnaryOp(ast.Not(), t), t) if neg else t


def verdict(t, isx, default):
    """Outcome of a test for an option x that was given: True, False, or the part that prevents telling."""
    if isinstance(t, ast.BoolOp):
        vs = [verdict(v, isx, default) for v in t.values]
        stop = isinstance(t.op, ast.Or)
        if any(v is stop for v in vs):
            return stop
        if all(v is (not stop) for v in vs):
            return not stop
        return next(v for v in vs if not isinstance(v, bool))
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        v = verdict(t.operand, isx, default)
        return not v if isinstance(v, bool) else v
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isx(t.left):
        o, r = t.ops[0], t.comparators[0]
        same = ast.dump(r) == ast.dump(default)
        if isinstance(o, (ast.Is, ast.Eq)) and same:
            return False
        if isinstance(o, (ast.IsNot, ast.NotEq)) and same:
            return True
    return t


def mixes(t, isx, default):
    """Does the undecided part of a test let a given option be replaced?"""
    if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
        t = t.operand
    if not any(isx(y) for y in ast.walk(t)):
        return True         # replaced for a reason of its own
    if isx(t):
        return isinstance(default, ast.Constant) and isinstance(default.value, str) and bool(default.value)   # 'auto' is true
    if isinstance(t, ast.Compare) and len(t.ops) == 1 and isx(t.left) and isinstance(t.ops[0], (ast.In, ast.NotIn)) and \
            isinstance(t.comparators[0], (ast.Tuple, ast.List, ast.Set)):
        es = [ast.dump(e) for e in t.comparators[0].elts]
        return ast.dump(default) in es and len(set(es)) > 1
    return False


def kept_options(prog, c):
    """{attribute: default} of the options that a constructor of c keeps as they are."""
    out = {}
    for k in prog.mro(c):
        i = getattr(k, 'methods', {}).get('__init__')
        if i is None:
            continue
        ds = defaults_of(i)
        for n in own_nodes(i.node):
            if isinstance(n, ast.Assign):
                v = n.value
                if isinstance(v, ast.Call) and (dotted(v.func) or '').split('.')[-1] in ('deepcopy', 'copy') and len(v.args) == 1:
                    v = v.args[0]
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(v, ast.Name) and v.id in ds and t.attr.strip('_') == v.id:
                        out.setdefault(v.id, ds[v.id])
    return out


def replaced_only_by_default(prog, res, f, rule):
    """Where an option is replaced or kept depending on a test of it, it is replaced for its default only."""
    cache = prog.__dict__.setdefault('_options_kept', {})
    own = {}
    if f.cls is not None and f.name != '__init__':
        if f.cls.qual not in cache:
            cache[f.cls.qual] = kept_options(prog, f.cls)
        own = cache[f.cls.qual]
    mine = defaults_of(f)
    if not own and not mine:
        return
    alias = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and isinstance(n.value, ast.Attribute) and isinstance(n.value.value, ast.Name) and \
                n.value.value.id == f.selfname and n.value.attr.strip('_') in own:
            for t in n.targets:
                if isinstance(t, ast.Name) and t.id not in mine:
                    alias[t.id] = n.value.attr.strip('_')
    writes = [t.id for n in own_nodes(f.node) if isinstance(n, ast.Assign) for t in n.targets if isinstance(t, ast.Name)]
    alias = {k: v for k, v in alias.items() if writes.count(k) <= 2}     # otherwise a working variable

    def opt(e):
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == f.selfname and \
                e.attr.strip('_') in own and e.attr.startswith('_'):
            return 'self.' + e.attr.strip('_')
        if isinstance(e, ast.Name):
            return 'self.' + alias[e.id] if e.id in alias else e.id if e.id in mine else None
        return None

    def gives(b):
        return [y for s in b if isinstance(s, (ast.Assign, ast.Return)) for y in [s] if y.value is not None]

    for n in own_nodes(f.node):
        if not isinstance(n, ast.If):
            continue
        for x in sorted({opt(e) for e in ast.walk(n.test)} - {None}):
            d = own[x[5:]] if x.startswith('self.') else mine[x]
            isx = lambda e: opt(e) == x
            keep = [any(isx(y.value) for y in gives(b)) for b in (n.body, n.orelse)]
            swap = [any(isinstance(t, ast.Name) and isx(t) for y in gives(b) if isinstance(y, ast.Assign) for t in y.targets) and
                    not any(isx(z) for y in gives(b) for z in ast.walk(y.value)) for b in (n.body, n.orelse)]
            for i in (0, 1):
                other = (n.orelse, n.body)[i]
                if not (swap[i] or keep[1 - i] and not keep[i] and gives((n.body, n.orelse)[i]) and not any(
                        isx(z) for y in gives((n.body, n.orelse)[i]) for z in ast.walk(y.value))):
                    continue
                if isinstance(d, ast.Constant) and isinstance(d.value, bool):
                    continue
                test = inward(n.test)
                v = verdict(test, isx, d)
                if isinstance(v, bool):
                    bad = v is (i == 0)
                    bad = bad and not (isinstance(d, ast.Constant) and d.value is None and not keep[1 - i])
                else:
                    bad = mixes(v, isx, d) and not (swap[i] and not keep[1 - i] and isinstance(test, ast.BoolOp) and
                                                    isinstance(test.op, ast.And) is (i == 0))
                res.check(not bad, rule, '%s %s' % (f.qual, x), f.loc(n),
                          'the value given for %s is replaced where it is not the default %s' % (x, ast.unparse(d)))


def setters_are_read(prog, res, rule):
    """What the setter of a property keeps is read by something other than a constructor."""
    read = set()
    for f in prog.funcs.values():
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                read.add(n.attr)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str):
                read.add(n.value)
    for c in prog.classes.values():
        for name, s in c.setters.items():
            st = {t.attr for n in own_nodes(s.node) if isinstance(n, ast.Assign) for t in n.targets
                  if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == s.selfname}
            if st:
                res.check(bool(st & read), rule, '%s.%s' % (c.qual, name), s.loc(),
                          'what is set as %s is never read' % name)
        i = c.methods.get('__init__')
        for n in own_nodes(i.node) if i is not None else []:
            if isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id in options_of(i):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == i.selfname and \
                            t.attr.startswith('_'):
                        res.check(t.attr in read, rule, '%s.%s' % (c.qual, t.attr), i.loc(n),
                                  'the option kept as %s is never read' % t.attr)


def run(prog, res):
    fixture = getattr(prog, 'fixture', False)
    funcs = [f for f in prog.funcs.values() if not f.module.name.startswith('ocgis.util.enum')]
    use_rule, fwd, swap = 'option-is-used', 'option-passed-on', 'option-in-its-place'
    res.rule(use_rule, 'The value given for a parameter, or taken out of **kwargs, reaches a read that does more than replace it.')
    res.rule(fwd, 'A function with an option that calls a function of ocgis having an option of that name gives it a value '
                  'depending on its own, and so does a method for the settings its object was made with.')
    res.rule(swap, 'A value named like one parameter of a function is not passed for another one.')
    res.rule('remaining-keywords-passed-on', 'What remains of **kwargs after a function took its own keywords is passed on, '
             'read or refused.')
    kept = 'option-replaced-only-when-default'
    res.rule(kept, 'Where a function replaces or keeps an option depending on a test of it, the option is replaced only if it '
                   'has the default of its signature; what a setter or constructor keeps privately is read somewhere.')
    setters_are_read(prog, res, kept)
    used_exc = set()
    for f in funcs:
        if stub(f):
            continue
        crossed(prog, res, f, swap)
        replaced_only_by_default(prog, res, f, kept)
        kw = keyword_locals(prog, f)
        qn = f.qual.split(':')[-1]
        family = f.cls is not None and f.name != '__init__'
        for x in list(f.params) + ([f.kwarg] if f.kwarg else []):
            if x in (f.selfname, 'cls', 'self', '_'):
                continue
            exc = (f.name, x) if (f.name, x) in NOT_USED else ('.'.join(qn.split('.')[-2:]), x)
            if exc in NOT_USED:
                used_exc.add(exc)
                continue
            if x == f.kwarg and (family or not kw):
                continue    # an override takes and ignores what its siblings need
            if f.cls is not None and f.cls.name == 'DummyMPIComm':
                continue
            ok = used(f, x) and not (x in options_of(f) and none_tested_only(prog, f, x) and not
                                     any('abstract' in (dotted(d) or '') for d in f.node.decorator_list))
            res.check(ok, use_rule, '%s %s' % (f.qual, x), f.loc(), 'the value given for %s is never used' % x)
        for o, (how, names, call) in kw.items():
            for x in names:
                res.check(used(f, x, call), use_rule, '%s %s' % (f.qual, o), f.loc(call),
                          'the value of keyword %s is never used' % o)
        for n in own_nodes(f.node):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call) and isinstance(n.value.func, ast.Attribute) and \
                    n.value.func.attr == 'pop' and isinstance(n.value.func.value, ast.Name) and \
                    n.value.func.value.id == f.kwarg and n.value.args:
                o = key_text(prog, f, n.value.args[0])
                res.check(o in kw and bool(kw[o][1]), use_rule, '%s %s' % (f.qual, o), f.loc(n),
                          'the keyword %s is taken out and dropped' % o)
        calls(prog, res, f, kw, fwd, swap)
        rest(prog, res, f)
    settings(prog, res, fwd)
    executors(prog, res)
    operations(prog, res)
    command_line(prog, res)
    if not fixture:
        res.floor(use_rule, 1800)
        res.floor(fwd, 180)
        res.floor('executing-object-gets-its-settings', 25)
        res.floor('remaining-keywords-passed-on', 50)
        res.floor(swap, 1500)
        res.floor(kept, 80)


def rest(prog, res, f):
    """Keywords a function does not take for itself go somewhere."""
    if not f.kwarg or f.name == '_write_variable_collection_main_':   # options of all drivers arrive at each of them
        return
    up = parents(f)
    reads = [n for n in ast.walk(f.node) if isinstance(n, ast.Name) and n.id == f.kwarg and isinstance(n.ctx, ast.Load)]
    if not reads:
        return
    other = [n for n in reads if not (isinstance(up[n], ast.Attribute) and up[n].attr in ('pop', 'get', 'setdefault') or
                                      isinstance(up[n], ast.Subscript) and isinstance(up[n].ctx, ast.Store))]
    res.check(bool(other), 'remaining-keywords-passed-on', f.qual, f.loc(),
              'keywords that %s does not take for itself are dropped' % f.name)


def targets(prog, f, n, guess=True):
    out = [t for t in prog.resolve_call(f, n, cha=False) if isinstance(t, FuncInfo) and t.module.name != LOGGING]
    if guess and not out and isinstance(n.func, ast.Attribute) and n.func.attr not in COMMON and not isinstance(n.func.value, ast.Call):
        # a receiver of unknown class: if ocgis has methods of that name, they must agree to be of use
        out = [c.methods[n.func.attr] for c in prog.classes.values() if n.func.attr in c.methods]
        out = [t for t in out if t.kind in ('method', 'class', 'static')]
        if out:
            both = set.intersection(*[set(options_of(t)) for t in out])
            out = out[:1] if all(options_of(t) == both for t in out) else []
    return out


def mapping(prog, t, n):
    return prog.map_args(t, n, n.func.value if isinstance(n.func, ast.Attribute) else None)


def calls(prog, res, f, kw, fwd, swap):
    up = None
    for n in own_nodes(f.node):
        if not isinstance(n, ast.Call):
            continue
        sure = targets(prog, f, n, False)
        for t in targets(prog, f, n):
            m = mapping(prog, t, n)
            topts = accepted(prog, t)
            mine_too = options_of(f) if new(prog, f) else f.params     # locals become parameters of extracted functions
            for q in list(mine_too) + [o for o in kw if o not in f.params]:
                if q in IDENTITY or q not in topts or q == f.selfname or exempt(q, t, f):
                    continue
                mine = {q} | (kw[q][1] if q in kw else set())
                con = '%s %s -> %s' % (f.qual, q, callee_name(t))
                e = m.get(q)
                if isinstance(e, ast.AST):
                    ok = bool(dep_names(prog, f, e) & mine) or q in kw and any(
                        isinstance(c, ast.Constant) and c.value == q for c in ast.walk(e)) or reads_attr(prog, f, e, q)
                else:
                    ok = given(prog, f, m, q)
                if not ok:
                    up = up or parents(f)
                    ok = decided_by(up, n, mine)
                res.check(ok, fwd, con, f.loc(n), 'the option %s of %s is not passed on to %s' % (q, f.name, t.qual.split(':')[-1]))
            if t in sure:
                swapped(prog, res, f, n, t, m, swap)


def label(e):
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr.strip('_')
    return None


def swapped(prog, res, f, n, t, m, swap):
    if '*' in m or any(isinstance(a, ast.Starred) for a in n.args):
        return
    for q, e in m.items():
        if isinstance(e, ast.AST) and exempt(label(e), t, f):
            continue
        if not isinstance(e, ast.AST) or q == t.selfname or q in ('self', 'cls'):
            continue
        l = label(e)
        if l is None:
            continue
        bad = False
        if l != q and l in t.params and l != t.selfname:
            other = m.get(l)
            lo = label(other) if isinstance(other, ast.AST) else None
            # two values each named like the other's parameter, or the value named like this parameter goes nowhere
            bad = lo == q or (lo is None and not isinstance(other, ast.AST) and isinstance(e, ast.Name) and
                              l in f.params and q in f.params)
        res.check(not bad, swap, '%s %s -> %s' % (f.qual, l, callee_name(t)), f.loc(n),
                  '%s is passed for the parameter %s of %s, which has a parameter %s' % (l, q, callee_name(t), l))


def settings(prog, res, fwd):
    for c in prog.classes.values():
        if not any(prog.is_subclass(c, s) or c.name == s for s in SETTINGS):
            continue
        opts = set()
        for k in prog.mro(c):
            i = getattr(k, 'methods', {}).get('__init__')
            if i is None:
                continue
            for n in own_nodes(i.node):
                if not isinstance(n, ast.Assign):
                    continue
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id in i.params and \
                            t.attr.strip('_') == n.value.id:
                        opts.add(n.value.id)
                    elif isinstance(t, ast.Attribute) and any(t.attr.strip('_') == o and any(
                            ast.dump(x) == ast.dump(call) for x in ast.walk(n.value) if isinstance(x, ast.Call))
                            for o, (how, names, call) in keyword_locals(prog, i).items()):
                        opts.add(t.attr.strip('_'))
        opts -= IDENTITY
        for f in c.methods.values():
            if f.name == '__init__':
                continue
            for n in own_nodes(f.node):
                if not isinstance(n, ast.Call):
                    continue
                for t in targets(prog, f, n):
                    if t.cls is not None and (t.cls in prog.mro(c) or c in prog.mro(t.cls)):
                        continue
                    m = mapping(prog, t, n)
                    for q in sorted(opts & options_of(t)):
                        if exempt(q, t, f) or q in f.params:
                            continue
                        e = m.get(q)
                        con = '%s self.%s -> %s' % (f.qual, q, callee_name(t))
                        ok = reads_attr(prog, f, e, q) if isinstance(e, ast.AST) else given(prog, f, m, q)
                        res.check(ok, fwd, con, f.loc(n), 'the setting %s is not passed on to %s' % (q, callee_name(t)))


def reads_attr(prog, f, e, q, depth=0):
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and x.attr.strip('_') == q:
            return True
        if isinstance(x, ast.Constant) and x.value == q:
            return True
        if isinstance(x, ast.Name) and depth < 6:
            for how, v in prog.local_assigns(f).get(x.id, []):
                if isinstance(v, ast.AST) and not isinstance(v, ast.ExceptHandler) and reads_attr(prog, f, v, q, depth + 1):
                    return True
    return False


# What the objects that execute an operation are told by whoever creates or calls them there.
# {object: {setting: what it is taken from}}
EXECUTORS = {
    'CalculationEngine': {'calc_sample_size': 'calc_sample_size', 'progress': 'progress', 'spatial_aggregation': 'aggregate'},
    'CalculationEngine.execute': {'file_only': 'file_only', 'tgds': None},
    'RegridOperation': {'regrid_options': 'regrid_options', 'subset_field': None},
    'SpatialSubsetOperation.get_spatial_subset': {'select_nearest': 'select_nearest',
                                                  'optimized_bbox_subset': 'optimized_bbox_subset'},
    'GeometryVariable.get_unioned': {'spatial_average': None},
    'GeomCabinetIterator': {'select_uid': 'select_ugid', 'select_sql_where': 'geom_select_sql_where', 'uid': 'geom_uid',
                            'union': 'union'},
    'Field.from_records': {'data_model': 'data_model', 'uid': 'geom_uid', 'union': 'union'},
    'ProgressOcgOperations': {'callback': 'callback'},
    'GridChunker': {'nchunks_dst': 'nchunks_dst', 'src_grid_resolution': 'src_resolution',
                    'dst_grid_resolution': 'dst_resolution', 'paths': 'wd', 'buffer_value': 'buffer_distance',
                    'genweights': 'genweights', 'esmf_kwargs': 'ignore_degenerate', 'eager': 'eager',
                    'filemode': 'weightfilemode'},
    'GridChunker.write_esmf_weights': {'filemode': 'weightfilemode'},
    'GridChunker.insert_weighted': {'data_variables': 'data_variables'},
}
EXECUTING = ('ocgis.ops.engine', 'ocgis.ops.interpreter', 'ocgis.ops.parms.definition', 'ocgis.ocli')


def executors(prog, res):
    rule = 'executing-object-gets-its-settings'
    res.rule(rule, 'Whoever creates or calls an object that executes part of an operation or command gives it each setting '
                   'that an argument of the operation or command stands for.')
    for f in prog.funcs.values():
        if not f.module.name.startswith(EXECUTING):
            continue
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            for t in prog.resolve_call(f, n, cha=False):
                if not isinstance(t, FuncInfo) or t.cls is None:
                    continue
                k = t.cls.name if t.name == '__init__' else '%s.%s' % (t.cls.name, t.name)
                if k == 'SpatialSubsetOperation.get_spatial_subset' and not f.module.name.startswith('ocgis.ops'):
                    continue
                if k == 'ProgressOcgOperations' and not f.module.name.endswith('interpreter'):
                    continue
                if k not in EXECUTORS:
                    continue
                m = mapping(prog, t, n)
                for q, src in EXECUTORS[k].items():
                    if q not in t.params:
                        continue
                    e = m.get(q)
                    ok = given(prog, f, m, q) and not isinstance(e, ast.Constant)
                    if ok and src is not None and isinstance(e, ast.AST):
                        ok = src in dep_names(prog, f, e) or reads_attr(prog, f, e, src)
                    res.check(ok, rule, '%s %s -> %s' % (f.qual, q, k), f.loc(n), '%s is not given to %s' % (q, k))


# Arguments that other arguments take in: read by Geom.
VIA_GEOM = {'geom_select_sql_where', 'geom_select_uid', 'geom_uid', 'agg_selection', 'select_ugid'}
CONSUMERS = ('ocgis.ops.engine', 'ocgis.ops.interpreter', 'ocgis.conv', 'ocgis.calc', 'ocgis.util', 'ocgis.regrid',
             'ocgis.spatial', 'ocgis.driver', 'ocgis.ops.query')


def operations(prog, res):
    """Arguments of an operation reach the objects that execute it."""
    rule = 'operation-argument-takes-effect'
    res.rule(rule, 'Every argument of OcgOperations becomes the parameter object of its own attribute, every such attribute is '
                   'read by the code that executes operations, and - unless it is a flag - more than tested there.')
    cs = [c for c in prog.classes.values() if c.name == 'OcgOperations' and '__init__' in c.methods]
    if not cs:
        res.broken.append('class OcgOperations not found')
        return
    c, f = cs[0], cs[0].methods['__init__']
    stored = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == f.selfname:
                    stored.setdefault(t.attr, []).append(n.value)
    reads, values = {}, {}
    for g in prog.funcs.values():
        if g.cls is c or not g.module.name.startswith(CONSUMERS):
            continue
        tests = set()
        for n in own_nodes(g.node):
            t = n.test if isinstance(n, (ast.If, ast.IfExp, ast.While, ast.Assert)) else n if isinstance(n, ast.Compare) else None
            if t is not None:
                tests |= {id(x) for x in ast.walk(t) if isinstance(x, ast.Attribute)}
        for n in own_nodes(g.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and ops_like(prog, g, n.value):
                reads.setdefault(n.attr, []).append(g)
                if id(n) not in tests:
                    values.setdefault(n.attr, []).append(g)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == '_get_object_' and n.args and \
                    isinstance(n.args[0], ast.Constant):
                reads.setdefault(n.args[0].value, []).append(g)
                values.setdefault(n.args[0].value, []).append(g)
    for x in f.params:
        if x == f.selfname:
            continue
        homes = [a for a, es in stored.items() if any(x in dep_names(prog, f, e) for e in es)]
        if x == 'select_ugid':
            res.check('geom_select_uid' in homes, rule, 'argument %s' % x, f.loc(), 'select_ugid is not taken for geom_select_uid')
            continue
        ok = x in homes
        res.check(ok, rule, 'argument %s' % x, f.loc(), 'the argument %s does not become the attribute of that name' % x)
        if x in VIA_GEOM:
            ok = any('geom' == a and any(isinstance(y, ast.Attribute) and y.attr == x for e in es for y in ast.walk(e))
                     for a, es in stored.items())
            res.check(ok, rule, 'use of %s' % x, f.loc(), '%s is not taken into account by the geometries' % x)
            continue
        flag = is_flag(prog, f, stored.get(x, []))
        src = reads if flag else values
        if x in ('backend', ):
            continue    # one backend exists
        res.check(bool(src.get(x)), rule, 'use of %s' % x, f.loc(),
                  'nothing that executes operations uses the argument %s' % x)
    if not getattr(prog, 'fixture', False):
        res.floor(rule, 70)


def is_flag(prog, f, es):
    for e in es:
        if isinstance(e, ast.Call):
            for k in [x for x in prog.classes.values() if x.name == (dotted(e.func) or '').split('.')[-1]]:
                if prog.is_subclass(k, 'BooleanParameter') or prog.is_subclass(k, 'StringOptionParameter'):
                    return True
    return False


def ops_like(prog, g, e):
    d = dotted(e) or ''
    last = d.split('.')[-1]
    if last in ('ops', '_ops'):
        return True
    try:
        return any(getattr(k, 'name', None) == 'OcgOperations' for k in prog.infer(g, e))
    except Exception:
        return False


def command_line(prog, res):
    rule = 'command-line-option-reaches-its-command'
    res.rule(rule, 'Every option declared for a command is a parameter of the function behind it, and the other way round.')
    for f in prog.funcs.values():
        opts = {}
        for d in f.node.decorator_list:
            if isinstance(d, ast.Call) and (dotted(d.func) or '').split('.')[-1] in ('option', 'argument') and \
                    (dotted(d.func) or '').startswith('click'):
                names = [a.value for a in d.args if isinstance(a, ast.Constant) and isinstance(a.value, str)]
                plain = [x for x in names if not x.startswith('-')]
                longs = sorted((x for x in names if x.startswith('--')), key=len, reverse=True)
                dest = plain[0] if plain else longs[0].split('/')[0].lstrip('-') if longs else names[0].lstrip('-')
                opts[dest.replace('-', '_').lower()] = d
        if not opts:
            continue
        for o, d in opts.items():
            res.check(o in f.params or f.kwarg, rule, '%s --%s' % (f.qual, o), f.loc(d), 'the option has no parameter')
        for x in f.params:
            res.check(x in opts, rule, '%s %s' % (f.qual, x), f.loc(), 'the parameter has no option')
    if not getattr(prog, 'fixture', False):
        res.floor(rule, 20)
