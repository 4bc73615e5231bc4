"""P17: what is done with one element of a collection does not depend on the elements before it, and is done with each element."""
import ast

from ..cfg import cfg_of, node_exprs
from ..program import ClassInfo, FuncInfo, own_nodes
from .options import parents

CARRIED, LAST, NEXT, OWN = 'iterations-are-independent', 'last-element-does-not-win', 'loops-reach-every-element', 'the-element-is-used'
STABLE, ONCE, SHARED = 'collection-stable-while-iterated', 'iterators-are-used-once', 'elements-do-not-share-containers'
ZIP, PART = 'paired-collections-have-one-length', 'the-whole-collection-is-iterated'
MUTATORS = {'append', 'extend', 'update', 'pop', 'add', 'remove', 'insert', 'clear', 'popitem', 'setdefault', 'appendleft', 'discard'}
SHRINK = {'pop', 'remove', 'popitem', 'clear', 'discard', 'popleft', '__delitem__'}
GROW = {'append', 'extend', 'insert', 'appendleft', 'add', 'update'}
ITERATORS = {'map', 'filter', 'zip', 'iter', 'enumerate', 'reversed'}
ITERTOOLS = {'product', 'chain', 'izip', 'islice', 'permutations', 'combinations', 'zip_longest', 'izip_longest', 'groupby', 'starmap',
             'takewhile', 'dropwhile', 'count', 'cycle', 'repeat'}
SKIP = ('ocgis.util.enum', 'ocgis.contrib')      # copies of other packages

# How many locals of a function deliberately keep a value from one iteration to the next, and why.
EXEMPT = {
    CARRIED: {
        'ocgis.calc.engine:CalculationEngine.execute': (2, 'outputs are collected; a grouping made by a function is kept'),
        'ocgis.collection.field:Field.from_records': (1, 'the schema is made from the first record'),
        'ocgis.regrid.base:regrid_field': (2, 'destination objects are made once'),
        'ocgis.ops.engine:OperationsEngine._process_geometries_': (1, 'a slice has no geometries; a snippet of a snippet is the same'),
        'ocgis.spatial.geom_cabinet:GeomCabinet.iter_geoms': (1, 'the name of the identifier, chosen with the first record'),
        'ocgis.util.broadcaster:broadcast_array_by_dimension_names': (1, 'swaps follow each other'),
        'ocgis.variable.dimension:Dimension.get_distributed_slice': (2, 'offset on the next rank'),
        'ocgis.spatial.geomc:iter_multipart_coordinates': (1, 'start of the next part'),
        'ocgis.util.helpers:arange_from_dimension': (1, 'start on the next rank'),
        'ocgis.variable.dimension:create_distributed_dimension': (1, 'start on the next rank'),
    },
    LAST: {
        'ocgis.calc.engine:CalculationEngine.execute': (1, 'outputs are collected by the functions; all functions have one field'),
        'ocgis.regrid.base:regrid_field': (1, 'objects of the last field are released; shapes are those of every field'),
        'ocgis.spatial.grid_chunker:GridChunker.create_merged_weight_file': (1, 'the weight variables of a file have one size'),
        'ocgis.calc.library.statistics:MovingWindow.calculate': (1, 'windows end where the last one does'),
        'ocgis.vmachine.mpi:variable_gather': (2, 'the parts of one dimension have one type of source index'),
        'ocgis.spatial.grid:Grid.diagnostics': (1, 'label'),
    },
    NEXT: {
        'ocgis.calc.base:AbstractMultivariateFunction.validate': (1, 'one invalid calculation is enough'),
        'ocgis.calc.tile:get_slices': (1, 'the rest of the array is smaller than a tile'),
        'ocgis.driver.base:AbstractDriver.init_variable_from_source': (1, 'ranks outside of the communicator have no variable'),
        'ocgis.driver.csv_:DriverCSV.get_variable_value': (1, 'rows above the local bounds'),
        'ocgis.driver.nc:DriverNetcdfCF._gc_iter_dst_grid_slices_': (1, 'one slice was asked for'),
        'ocgis.driver.nc:DriverNetcdfCF.get_data_variable_names': (1, 'an axis is missing: no data variables'),
        'ocgis.regrid.base:regrid_field': (1, 'only weights are written'),
        'ocgis.spatial.base:iter_spatial_decomposition': (1, 'one part was asked for'),
        'ocgis.spatial.geom_cabinet:GeomCabinet.iter_geoms._o_itr_': (1, 'a slice was asked for'),
        'ocgis.util.helpers:arange_from_dimension': (1, 'the last rank'),
        'ocgis.util.helpers:get_bounds_from_1d': (1, 'there is one bound more than midpoints'),
        'ocgis.variable.base:Variable.get_distributed_slice': (1, 'the result is empty'),
        'ocgis.variable.dimension:create_distributed_dimension': (1, 'the last rank'),
        'ocgis.variable.geom:GeometryVariable.convert_to': (1, 'the z coordinate is the last one'),
        'ocgis.conv.nc:NcConverter._preformatting_': (2, 'validation allows one field'),
        'ocgis.variable.base:VariableCollection.groups_to_variable': (2, 'the children have the same variables'),
    },
    OWN: {},
    ZIP: {
        'ocgis.base:iter_dict_slices': (1, 'one index per size'),
        'ocgis.calc.base:AbstractMultivariateFunction._execute_': (1, 'one slice iterator per variable, all of one shape'),
        'ocgis.calc.eval_function:EvalFunction._execute_': (1, 'one slice iterator per variable, all of one shape'),
        'ocgis.driver.request.core:validate_unit_equivalence': (1, 'both callers compare the lengths'),
        'ocgis.spatial.geomc:reduce_reindex_coordinate_index': (1, 'the new index is made with the length of the unique values'),
        'ocgis.spatial.grid_chunker:GridChunker.create_merged_weight_file': (1, 'two literal lists'),
        'ocgis.spatial.grid_chunker:GridChunker.write_chunks': (1, 'two literal lists'),
        'ocgis.spatial.index:SpatialIndex.add': (1, 'one identifier per geometry'),
        'ocgis.variable.base:get_dslice': (1, 'slices are formatted for the dimensions before'),
        'ocgis.variable.iterator:Iterator.__iter__': (1, 'followers have the dimensions of the variable'),
        'ocgis.variable.temporal:get_time_regions': (1, 'one flag per season'),
        'ocgis.vmachine.mpi:create_nd_slices': (1, 'one split per dimension'),
    },
    SHARED: {
        'ocgis.conv.base:AbstractCollectionConverter.write': (1, 'the write mode of the file'),
        'ocgis.conv.csv_:CsvConverter._write_coll_': (1, 'every entry is set for every field'),
        'ocgis.conv.fiona_:AbstractFionaConverter._write_coll_': (1, 'every entry is set for every field'),
        'ocgis.util.helpers:itersubclasses': (1, 'classes that were seen'),
    },
}


def free(e, out=None, bound=frozenset()):
    """Names an expression reads, without those that comprehensions and lambdas bind."""
    out = set() if out is None else out
    if isinstance(e, ast.Name):
        if isinstance(e.ctx, ast.Load) and e.id not in bound:
            out.add(e.id)
        return out
    if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
        b = set(bound)
        for g in e.generators:
            free(g.iter, out, frozenset(b))
            b |= stored(g.target)
            for c in g.ifs:
                free(c, out, frozenset(b))
        for x in ((e.key, e.value) if isinstance(e, ast.DictComp) else (e.elt,)):
            free(x, out, frozenset(b))
        return out
    if isinstance(e, ast.Lambda):
        a = e.args
        b = bound | {x.arg for x in a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
        for d in a.defaults + [d for d in a.kw_defaults if d]:
            free(d, out, bound)
        return free(e.body, out, frozenset(b))
    for c in ast.iter_child_nodes(e):
        free(c, out, bound)
    return out


def stored(t):
    return {x.id for x in ast.walk(t) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}


def defs_uses(f, n):
    """(names a node binds, names it reads, bound value)"""
    a = n.ast
    d, u, v = set(), set(), None
    me = f.selfname

    def attrs(e, ctx):
        return {'self.' + x.attr for x in ast.walk(e) if isinstance(x, ast.Attribute) and isinstance(x.ctx, ctx) and
                isinstance(x.value, ast.Name) and x.value.id == me} if me else set()
    if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
        for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
            d |= stored(t)
            u |= free(t)
            if isinstance(t, ast.Attribute):
                d |= attrs(t, ast.Store)
            else:
                u |= attrs(t, ast.Load)
        u |= free(a.value) | attrs(a.value, ast.Load)
        v = a.value
    elif n.kind == 'stmt' and isinstance(a, ast.AugAssign):
        u |= free(a.value) | free(a.target) | attrs(a.value, ast.Load)
        if isinstance(a.target, ast.Name):
            d.add(a.target.id)
            u.add(a.target.id)
        v = a
    elif n.kind == 'for':
        d |= stored(a.target)
    elif n.kind == 'with_enter':
        if n.extra.optional_vars is not None:
            d |= stored(n.extra.optional_vars)
        u |= free(n.extra.context_expr) | attrs(n.extra.context_expr, ast.Load)
    else:
        for e in node_exprs(n):
            if isinstance(e, ast.AST):
                u |= free(e) | attrs(e, ast.Load)
    return d, u, v


class Flow(object):
    def __init__(self, f):
        self.f, self.g = f, cfg_of(f)
        self.by = {n.id: n for n in self.g.nodes}
        self.du = {n.id: defs_uses(f, n) for n in self.g.nodes}
        ins = {n.id: set() for n in self.g.nodes}
        names = set()
        for d, _, _ in self.du.values():
            names |= d
        ins[self.g.entry.id] = {(p, 'parameter') for p in f.params} | {(x, 'attribute') for x in names if x.startswith('self.')}
        work, seen = [self.g.entry.id], set()
        while work:
            i = work.pop()
            seen.add(i)
            d = self.du[i][0]
            o = {x for x in ins[i] if x[0] not in d} | {(x, i) for x in d}
            for s, l in self.by[i].succ:
                src = ins[i] if l == 'exc' else o
                if s.id not in seen or not src <= ins[s.id]:
                    ins[s.id] |= src
                    work.append(s.id)
        self.ins = ins

    def head(self, loop):
        for n in self.g.nodes:
            if n.kind == 'for' and n.ast is loop:
                return n
        return None

    def inside(self, loop):
        ids = {id(x) for s in loop.body for x in ast.walk(s)}
        return {n.id for n in self.g.nodes if n.ast is not None and id(n.ast) in ids}

    def exposed(self, x, starts, within, stop):
        """First node that reads x before it is bound."""
        st, seen = list(starts), set()
        while st:
            n = st.pop()
            if n.id in seen or n.id in stop or within is not None and n.id not in within:
                continue
            seen.add(n.id)
            d, u, _ = self.du[n.id]
            if x in u:
                return n
            if x not in d:
                st += [s for s, l in n.succ]
        return None


def base(e):
    """Collection an iterable iterates over."""
    while True:
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in (
                'enumerate', 'list', 'tuple', 'sorted', 'iter', 'reversed') and e.args:
            e = e.args[0]
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.args and e.func.attr in (
                'items', 'values', 'keys', 'iteritems', 'itervalues', 'iterkeys', 'copy'):
            e = e.func.value
        else:
            return e


def unwrapped(e, names=('enumerate', 'list', 'tuple', 'iter')):
    while isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in names and e.args and not (
            e.func.id == 'enumerate' and names == ('list', 'tuple', 'iter')):
        e = e.args[0]
    return e


def is_copied(e):
    e = unwrapped(e, ('enumerate', 'iter'))
    return isinstance(e, ast.Call) and (isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'sorted', 'set', 'dict') or
                                        isinstance(e.func, ast.Attribute) and e.func.attr == 'copy')


def exits(loop):
    """True if the loop is left early on purpose."""
    def walk(stmts):
        for s in stmts:
            if isinstance(s, ast.Break):
                return True
            if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
                if isinstance(s, (ast.For, ast.While)) and walk(s.orelse):
                    return True
                continue
            for k in ('body', 'orelse', 'finalbody'):
                if walk(getattr(s, k, []) or []):
                    return True
            for h in getattr(s, 'handlers', []) or []:
                if walk(h.body):
                    return True
        return False
    return walk(loop.body)


class Tally(object):
    """Exemptions count how many names of a function are meant."""

    def __init__(self, res):
        self.res, self.bad = res, {}

    def add(self, rule, f, name, loc, msg, construct):
        self.bad.setdefault((rule, f.qual), {}).setdefault(name, (loc, msg, construct))

    def report(self):
        for (rule, q), names in sorted(self.bad.items()):
            n = EXEMPT.get(rule, {}).get(q, (0, ''))[0]
            for i, (name, (loc, msg, construct)) in enumerate(sorted(names.items())):
                if len(names) <= n:
                    self.res.ok(rule, '%s (deliberate)' % construct, loc)
                else:
                    self.res.bad(rule, construct, loc, msg)


def run(prog, res):
    fixture = getattr(prog, 'fixture', False)
    res.rule(CARRIED, 'No local or attribute that an iteration binds is read by the next iteration, except running totals.')
    res.rule(LAST, 'What an iteration binds, or the element itself, is not used after the loop as if it stood for all elements.')
    res.rule(NEXT, 'Every loop over a collection can reach its second element.')
    res.rule(OWN, 'A loop uses the element it got and not the first one of the collection.')
    res.rule(STABLE, 'A collection does not grow or shrink while it is iterated, and elements are not removed by old positions.')
    res.rule(ONCE, 'An iterator is not consumed twice.')
    res.rule(SHARED, 'A container that the iterations of a loop change is not handed out by each of them.')
    res.rule(ZIP, 'Collections that are iterated in pairs have one length, or their lengths are compared.')
    res.rule(PART, 'No loop leaves out a fixed part of a collection that the function does not look at otherwise.')
    tally = Tally(res)
    loops = comps = 0
    for f in sorted(prog.funcs.values(), key=lambda x: x.qual):
        if f.module.name.startswith(SKIP):
            continue
        its = [n for n in own_nodes(f.node) if isinstance(n, ast.For)]
        for n in own_nodes(f.node):
            if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                comps += comprehension(f, n, res, tally)
        iters = [n.iter for n in its] + [g.iter for n in own_nodes(f.node) if isinstance(n, (
            ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for g in n.generators]
        iters += [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in (
            'dict', 'list', 'tuple', 'map', 'OrderedDict') and n.args]
        unique = {id(c): c for it in iters for c in [it]}
        pairs(f, list(unique.values()), res, tally)
        partial(f, [n.iter for n in its] + [g.iter for n in own_nodes(f.node) if isinstance(n, (
            ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)) for g in n.generators], res)
        gens = iterators(prog, f)
        if not its and not gens:
            continue
        fl = Flow(f)
        for lp in its:
            h = fl.head(lp)
            if h is None:
                continue
            loops += 1
            inn = fl.inside(lp)
            carried(f, fl, lp, h, inn, res, tally)
            last(f, fl, lp, h, inn, res, tally)
            reach(f, fl, lp, h, inn, res, tally)
            early(f, lp, res, tally)
            element(f, lp, res, tally)
            stable(f, lp, res)
            shared(prog, f, lp, res, tally)
        for w in [n for n in own_nodes(f.node) if isinstance(n, ast.While)]:
            shared(prog, f, w, res, tally)
        once(f, fl, gens, res)
    tally.report()
    res.count('loops', loops)
    res.count('comprehensions', comps)
    if not fixture:
        res.floor(CARRIED, 300)
        res.floor(NEXT, 300)
        res.floor(ONCE, 15)


def carried(f, fl, lp, h, inn, res, tally):
    tgt = stored(lp.target)
    got = {}
    for x, i in fl.ins[h.id]:
        got.setdefault(x, [set(), set()])[1 if i in inn else 0].add(i)
    starts = [s for s, l in h.succ if l == 't']
    clean = True
    for x, (o, b) in sorted(got.items()):
        if not o or not b or x in tgt:
            continue
        vals = [fl.du[i][2] for i in b]
        if all(isinstance(v, ast.Constant) for v in vals) and not exits(lp) and sticky(x, f, fl, lp, b) and fl.exposed(
                x, starts, inn, {h.id}):
            clean = False
            for i in b:
                tally.add(CARRIED, f, '%s in %s: %s' % (x, ast.unparse(lp.iter), ast.unparse(fl.by[i].ast)), f.loc(lp),
                          'the flag %s stays as an earlier iteration left it' % x, '%s %s' % (f.qual, x))
            continue
        if all(v is not None and (isinstance(v, ast.AugAssign) or isinstance(v, ast.Constant) or x in free(v) or attr_in(x, v, f) or
                                  x in derived(v, lp) or extreme(x, fl.by[i].ast, lp)) for i, v in zip(b, vals)) and not transformed(x, f, fl, inn, b, vals):
            continue
        use = fl.exposed(x, starts, inn, {h.id})
        if use is None:
            continue
        if any(v is not None and x in free(v) for v in vals) and not transformed(x, f, fl, inn, b, vals):
            continue        # started with the first element, then updated
        # bound in every iteration that gets as far, and read to continue from it: a walk along a chain
        clean = False
        for i in [i for i in inn if x in fl.du[i][0]]:
            tally.add(CARRIED, f, '%s in %s: %s' % (x, ast.unparse(lp.iter), ast.unparse(fl.by[i].ast)), f.loc(lp),
                      'iterations read %s, which an earlier iteration binds: %s' % (x, ast.unparse(use.ast).split('\n')[0][:60]),
                      '%s %s' % (f.qual, x))
    if clean:
        res.ok(CARRIED, '%s loop over %s' % (f.qual, ast.unparse(lp.iter)[:40]), f.loc(lp))


def sticky(x, f, fl, lp, b):
    """A flag that some iterations set, and none resets, without having looked at it."""
    flags = {x}
    for s in lp.body:
        for y in ast.walk(s):
            if isinstance(y, ast.Assign) and isinstance(y.value, ast.Constant):
                flags |= {z for t in y.targets for z in stored(t)}
    for y in ast.walk(lp):      # set once
        if isinstance(y, ast.If) and x in free(y.test) and y.body and isinstance(y.body[-1], ast.Raise):
            return False
    for i in b:
        stmt = fl.by[i].ast
        if stmt in lp.body:
            continue
        up = [y for s in lp.body for y in ast.walk(s) if isinstance(y, (ast.If, ast.For, ast.While, ast.Try)) and any(
            z is stmt for z in ast.walk(y))]
        if not any(isinstance(y, ast.If) and free(y.test) & flags for y in up):
            return True
    return False


def transformed(x, f, fl, inn, b, vals):
    """A value that a call turns into its next one, and that each iteration uses for more than that, is no running total."""
    if x.startswith('self.') or all(v is None or isinstance(v, ast.AugAssign) or x not in free(v) or arithmetic(v) for v in vals):
        return False
    for i in inn:
        d, u, v = fl.du[i]
        n = fl.by[i]
        if i in b or x not in u or n.kind != 'stmt' or x in d:
            continue
        a = n.ast
        if isinstance(a, ast.Expr) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute) and isinstance(
                a.value.func.value, ast.Name) and a.value.func.value.id == x and a.value.func.attr in MUTATORS:
            continue
        return True
    return False


def derived(v, lp):
    """Names that the value is made from, also through other locals of the loop."""
    out = set(free(v))
    for _ in range(3):
        for s in lp.body:
            for y in ast.walk(s):
                if isinstance(y, ast.Assign) and any(stored(t) & out for t in y.targets) and y.value is not v and arithmetic(y.value):
                    out |= free(y.value)
                elif isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name) and y.target.id in out:
                    out |= free(y.value)
    return out


def arithmetic(v):
    return not any(isinstance(c, ast.Call) and not (isinstance(c.func, ast.Name) and c.func.id in (
        'max', 'min', 'len', 'abs', 'sum', 'int', 'float')) for c in ast.walk(v))


def extreme(x, stmt, lp):
    """A binding that only happens where x compares smaller or larger: a running extreme."""
    for s in lp.body:
        for y in ast.walk(s):
            if isinstance(y, ast.If) and any(z is stmt for b in (y.body, y.orelse) for w in b for z in ast.walk(w)) and any(
                    isinstance(c, ast.Compare) and any(isinstance(o, (ast.Lt, ast.Gt, ast.LtE, ast.GtE)) for o in c.ops) and
                    x in free(c) for c in ast.walk(y.test)):
                return True
    return False


def attr_in(x, v, f):
    return x.startswith('self.') and any(isinstance(y, ast.Attribute) and y.attr == x[5:] and isinstance(y.value, ast.Name) and
                                         y.value.id == f.selfname for y in ast.walk(v))


def last(f, fl, lp, h, inn, res, tally):
    if exits(lp):
        return
    after = [s for s, l in h.succ if l == 'f']
    count = set()
    it = unwrapped(lp.iter, ('list', 'tuple', 'iter'))
    if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and isinstance(
            lp.target, (ast.Tuple, ast.List)):
        count = stored(lp.target.elts[0])
    for x in sorted(stored(lp.target) - count):
        use = fl.exposed(x, after, None, inn | {h.id})
        if use is not None and only_from(fl, x, h, use):
            tally.add(LAST, f, x, f.loc(use.ast), '%s is the last element of the loop over %s' % (x, ast.unparse(lp.iter)[:50]),
                      '%s element %s' % (f.qual, x))
    for s in always(lp.body):
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and not isinstance(
                s.value, ast.Constant):
            x = s.targets[0].id
            if x in free(s.value) or any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(s.value)):
                continue
            # another use of the earlier value keeps it
            if fl.exposed(x, [n for n, l in h.succ if l == 't'], inn, {h.id}) is not None:
                continue
            if not (free(s.value) & loop_names(lp)):
                continue
            use = fl.exposed(x, after, None, inn | {h.id})
            if use is not None:
                tally.add(LAST, f, x, f.loc(use.ast), '%s is what the last iteration over %s made' % (
                    x, ast.unparse(lp.iter)[:50]), '%s %s' % (f.qual, x))
    res.ok(LAST, '%s after loop over %s' % (f.qual, ast.unparse(lp.iter)[:40]), f.loc(lp))


def always(stmts):
    """Statements of every iteration, also those in with and try blocks."""
    for s in stmts:
        yield s
        if isinstance(s, ast.With):
            for x in always(s.body):
                yield x
        elif isinstance(s, ast.Try):
            for x in always(s.body + s.orelse + s.finalbody):
                yield x


def loop_names(lp):
    """Names that differ between iterations."""
    out = stored(lp.target)
    for _ in range(4):
        for s in lp.body:
            for x in ast.walk(s):
                if isinstance(x, ast.Assign) and free(x.value) & out:
                    for t in x.targets:
                        out |= stored(t)
                elif isinstance(x, ast.For) and free(x.iter) & out:
                    out |= stored(x.target)
    return out


def only_from(fl, x, h, use):
    """The value read comes from this loop (and not from another loop that binds the same name)."""
    ds = {i for y, i in fl.ins[use.id] if y == x}
    return h.id in ds


def reach(f, fl, lp, h, inn, res, tally):
    body = [s for s in lp.body if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))]
    first = len(body) == 1 and isinstance(body[0], (ast.Return, ast.Break)) or \
        len(body) == 2 and isinstance(body[0], ast.Assign) and isinstance(body[1], (ast.Return, ast.Break)) and not (
            isinstance(body[0].targets[0], ast.Subscript))
    st, seen, back = [s for s, l in h.succ if l == 't'], set(), False
    while st and not back:
        n = st.pop()
        if n.id == h.id:
            back = True
        elif n.id not in seen and n.id in inn:
            seen.add(n.id)
            st += [s for s, l in n.succ]
    where = '%s loop over %s' % (f.qual, ast.unparse(lp.iter)[:40])
    if back or first:
        res.ok(NEXT, where, f.loc(lp))
    else:
        tally.add(NEXT, f, ast.unparse(lp.iter), f.loc(lp), 'the loop always ends with its first element', where)


def ends(lp):
    """Statements that leave the loop, with the blocks they are in."""
    out = []

    def walk(stmts, inner):
        for s in stmts:
            if isinstance(s, ast.Return) or isinstance(s, ast.Break) and not inner:
                out.append((s, stmts))
            elif isinstance(s, (ast.For, ast.While)):
                walk(s.body, True)
                walk(s.orelse, inner)
            elif not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                for k in ('body', 'orelse', 'finalbody'):
                    walk(getattr(s, k, []) or [], inner)
                for h in getattr(s, 'handlers', []) or []:
                    walk(h.body, inner)
    walk(lp.body, False)
    return out


def early(f, lp, res, tally):
    """A loop that does something with its elements ends before the last one.  Searching is no such thing."""
    ex = ends(lp)
    if not ex:
        return
    skip = {id(z) for b, st in ex if st is not lp.body for y in st for z in ast.walk(y)}
    what = None
    own = set(stored(lp.target)) | {z for s in lp.body for z in stored(s)}
    for s in lp.body:
        for y in ast.walk(s):
            if id(y) in skip or not hasattr(y, 'lineno'):
                continue
            if isinstance(y, (ast.Subscript, ast.Attribute)) and root(y) in own or isinstance(y, ast.Expr) and isinstance(
                    y.value, ast.Call) and root(y.value.func) in own:
                continue    # changes what belongs to the iteration
            if isinstance(y, ast.AugAssign) or isinstance(y, (ast.Subscript, ast.Attribute)) and isinstance(y.ctx, (
                    ast.Store, ast.Del)) or isinstance(y, ast.Yield) or isinstance(y, ast.Raise) and not within_handler(lp, y) or \
                    isinstance(y, ast.Expr) and isinstance(y.value, ast.Call) and (
                        y.value.func.attr if isinstance(y.value.func, ast.Attribute) else getattr(y.value.func, 'id', '')) not in (
                            'debug', 'info', 'warning', 'warn', 'ocgis_lh', 'print'):
                what = y
    for b, st in ex:
        if st is not lp.body:
            for y in st:
                if isinstance(y, (ast.For, ast.While)) and ends_block(st, b):
                    what = y
    where = '%s loop over %s' % (f.qual, ast.unparse(lp.iter)[:40])
    if what is not None:
        for k, (b, st) in enumerate(ex):
            tally.add(NEXT, f, '%s %s' % (ast.unparse(lp.iter), k), f.loc(b), 'elements after this one are not processed: %s' % (
                ast.unparse(what).split('\n')[0][:60]), where)
    else:
        res.ok(NEXT, where + ' (search)', f.loc(lp))


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def ends_block(st, b):
    return st[-1] is b


def within_handler(lp, y):
    return any(isinstance(h, ast.ExceptHandler) and any(z is y for z in ast.walk(h)) for h in ast.walk(lp))


def element(f, lp, res, tally):
    it = base(lp.iter)
    text = ast.unparse(it)
    tgt = stored(lp.target)
    if isinstance(it, (ast.Name, ast.Attribute)):
        for x in firsts([x for s in lp.body for x in ast.walk(s)], text):
            tally.add(OWN, f, ast.unparse(x), f.loc(x), 'every iteration over %s uses %s' % (text, ast.unparse(x)), '%s %s' % (
                f.qual, ast.unparse(x)))
    used = set()
    for s in lp.body:
        used |= free(s) | {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
    named = any(not x.startswith('_') for x in tgt)
    counted = isinstance(lp.iter, ast.Call) and isinstance(lp.iter.func, ast.Name) and lp.iter.func.id in ('range', 'count')
    leaves = all(isinstance(s, (ast.Break, ast.Pass)) for s in lp.body)
    src = {x.id for x in ast.walk(lp.iter) if isinstance(x, ast.Name)}
    if named and not counted and not leaves and tgt and not tgt & used and not src & {'src_value'}:
        # the element may be used after the loop or only counted
        after = any(isinstance(x, ast.Name) and x.id in tgt and isinstance(x.ctx, ast.Load) for x in own_nodes(f.node))
        counts = any(isinstance(x, ast.AugAssign) for s in lp.body for x in ast.walk(s)) or any(
            isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'next' for s in lp.body for x in ast.walk(s))
        if not after and not counts and not fills(lp):
            tally.add(OWN, f, text, f.loc(lp), 'the loop over %s does not use its element' % text[:50], '%s loop over %s' % (
                f.qual, text[:40]))
            return
    res.ok(OWN, '%s loop over %s' % (f.qual, text[:40]), f.loc(lp))


def firsts(body, text):
    """Reads of a fixed element, but for comparisons with it."""
    compared = {id(y) for x in body if isinstance(x, (ast.Compare, ast.Assert)) for y in ast.walk(x)}
    return [x for x in body if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Load) and isinstance(x.slice, ast.Constant) and
            isinstance(x.slice.value, int) and ast.unparse(x.value) == text and id(x) not in compared]


def comprehension(f, c, res, tally):
    elts = [c.key, c.value] if isinstance(c, ast.DictComp) else [c.elt]
    for i, g in enumerate(c.generators):
        it = base(g.iter)
        text = ast.unparse(it)
        rest = elts + g.ifs + [y for h in c.generators[i + 1:] for y in [h.iter] + h.ifs]
        where = '%s comprehension over %s' % (f.qual, text[:40])
        tgt = stored(g.target)
        bad = firsts([x for e in rest for x in ast.walk(e)], text) if isinstance(it, (ast.Name, ast.Attribute)) else []
        read = {x.id for e in rest for x in ast.walk(e) if isinstance(x, ast.Name)}
        counted = isinstance(g.iter, ast.Call) and isinstance(g.iter.func, ast.Name) and g.iter.func.id in ('range', 'count')
        if bad:
            tally.add(OWN, f, ast.unparse(bad[0]), f.loc(bad[0]), 'every iteration over %s uses %s' % (text, ast.unparse(bad[0])),
                      '%s %s' % (f.qual, ast.unparse(bad[0])))
        elif not tgt & read and not counted and any(not x.startswith('_') for x in tgt) and any(
                isinstance(x, (ast.Name, ast.Attribute)) and not isinstance(x.ctx, ast.Store) for e in elts for x in ast.walk(e)):
            tally.add(OWN, f, text, f.loc(c), 'the comprehension over %s does not use its element' % text[:50], where)
        else:
            res.ok(OWN, where, f.loc(c))
    return 1


def lengths(f):
    """True if the function compares the lengths of two things and does something about it."""
    for n in own_nodes(f.node):
        if isinstance(n, ast.Compare) and len([c for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(
                c.func, ast.Name) and c.func.id == 'len']) >= 2:
            return True
    return False


def pairs(f, its, res, tally):
    for it in its:
        for c in ast.walk(it):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ('zip', 'izip') and (
                    len(c.args) > 1 or any(isinstance(a, ast.Starred) for a in c.args)):
                text = ast.unparse(c)
                if lengths(f) or len({ast.unparse(origin(f, a)) for a in c.args}) == 1 and len(c.args) > 1:
                    res.ok(ZIP, '%s %s' % (f.qual, text[:60]), f.loc(c))
                else:
                    tally.add(ZIP, f, text, f.loc(c), '%s stops with the shortest and no lengths are compared' % text[:60], '%s %s' % (
                        f.qual, text[:60]))


def origin(f, e, depth=0):
    e = base(e)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('range', 'xrange') and e.args and (
            len(e.args) == 1 or isinstance(e.args[0], ast.Constant) and e.args[0].value == 0):
        n = e.args[min(1, len(e.args) - 1)]
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'len' and n.args:
            return origin(f, n.args[0], depth)
    if isinstance(e, (ast.ListComp, ast.GeneratorExp)) and len(e.generators) == 1 and not e.generators[0].ifs:
        return origin(f, e.generators[0].iter, depth)
    if isinstance(e, ast.Name) and depth < 4:
        vs = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id
                                                                                   for t in n.targets)]
        if len(vs) == 1 and isinstance(base(vs[0]), (ast.ListComp, ast.GeneratorExp, ast.Name)):
            return origin(f, vs[0], depth + 1)
    return e


def partial(f, its, res):
    """Loops over a part of a collection whose rest the function does not look at."""
    for it in its:
        found = []
        for y in ast.walk(it):
            if isinstance(y, ast.Subscript) and isinstance(y.slice, ast.Slice):
                low, up = (fixed(z) for z in (y.slice.lower, y.slice.upper))
                if low or up:
                    found.append((y, ast.unparse(base(y.value)), low, up))
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('range', 'xrange') and y.args:
                n = y.args[1] if len(y.args) > 1 else y.args[0]
                lens = [c for c in ast.walk(n) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == 'len' and c.args]
                short = isinstance(n, ast.BinOp) and isinstance(n.op, ast.Sub)
                late = len(y.args) > 1 and fixed(y.args[0])
                if lens and (short or late):
                    found.append((y, ast.unparse(lens[0].args[0]), late, short))
            elif isinstance(y, ast.Call) and (isinstance(y.func, ast.Name) and y.func.id == 'islice' or isinstance(
                    y.func, ast.Attribute) and y.func.attr == 'islice') and len(y.args) > 1:
                late, short = len(y.args) > 2 and fixed(y.args[1]), fixed(y.args[-1] if len(y.args) < 4 else y.args[2])
                if late or short:
                    found.append((y, ast.unparse(base(y.args[0])), late, short))
        for y, text, low, up in found:
            inside = {id(z) for z in ast.walk(y)}
            at = []
            for z in own_nodes(f.node):
                if id(z) in inside:
                    continue
                if isinstance(z, ast.Subscript) and isinstance(z.ctx, ast.Load) and ast.unparse(base(z.value)) == text:
                    at.append(z.slice)
                elif isinstance(z, ast.Call) and (isinstance(z.func, ast.Name) and z.func.id == 'next' or isinstance(
                        z.func, ast.Attribute) and z.func.attr in ('pop', 'popleft') and ast.unparse(z.func.value) == text):
                    low = False
            step = [z for z in at if isinstance(z, ast.BinOp)]
            if low and any(isinstance(z, ast.Constant) and isinstance(z.value, int) and z.value >= 0 or isinstance(z, ast.Slice) and
                           z.lower is None for z in at + step) or low and any(isinstance(z.op, ast.Sub) for z in step):
                low = False
            if up and any(isinstance(z, ast.UnaryOp) or isinstance(z, ast.Slice) and z.lower is not None for z in at) or up and any(
                    isinstance(z.op, ast.Add) or 'len(' in ast.unparse(z) for z in step):
                up = False
            if low or up:
                res.bad(PART, '%s %s' % (f.qual, ast.unparse(y)[:60]), f.loc(y), 'the %s of %s is not used' % (
                    'beginning' if low else 'rest', text[:50]))
            else:
                res.ok(PART, '%s %s' % (f.qual, ast.unparse(y)[:60]), f.loc(y))


def fixed(z):
    return isinstance(z, ast.Constant) and bool(z.value) or isinstance(z, ast.UnaryOp)


def fills(lp):
    """A loop that does the same for every element, as often as there are elements, with elements it gets elsewhere."""
    return any(isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'add', 'pop', 'popleft')
               for s in lp.body for x in ast.walk(s))


def stable(f, lp, res):
    it = base(lp.iter)
    text = ast.unparse(it)
    where = '%s loop over %s' % (f.qual, text[:40])
    bad = None
    tgt = stored(lp.target)
    leaving = set()
    for s in ast.walk(lp):
        for k in ('body', 'orelse', 'handlers'):
            b = getattr(s, k, None)
            if isinstance(b, list):
                for i, y in enumerate(b):
                    if any(isinstance(z, (ast.Break, ast.Return, ast.Raise)) for z in b[i + 1:]) or isinstance(y, ast.Return):
                        leaving |= {id(z) for z in ast.walk(y)}
    for s in lp.body:
        for x in ast.walk(s):
            if id(x) in leaving:
                continue
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(it, (ast.Name, ast.Attribute)) and \
                    ast.unparse(x.func.value) == text and not is_copied(lp.iter) and (
                        x.func.attr in SHRINK or x.func.attr in GROW):
                bad = (x, '%s changes while it is iterated' % text)
            elif isinstance(x, ast.Delete) and not is_copied(lp.iter) and any(
                    isinstance(t, ast.Subscript) and ast.unparse(t.value) == text for t in x.targets):
                bad = (x, '%s changes while it is iterated' % text)
            # removal by position, in ascending order
            pos = None
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'pop' and len(x.args) == 1 and isinstance(
                    x.args[0], ast.Name) and x.args[0].id in tgt:
                pos = x.func.value
            elif isinstance(x, ast.Delete) and isinstance(x.targets[0], ast.Subscript) and isinstance(
                    x.targets[0].slice, ast.Name) and x.targets[0].slice.id in tgt:
                pos = x.targets[0].value
            if pos is not None and is_list(f, pos) and not descending(f, lp.iter):
                bad = (x, 'removes elements of %s by positions that earlier removals shift' % ast.unparse(pos))
    if bad:
        res.bad(STABLE, '%s %s' % (f.qual, ast.unparse(bad[0])[:60]), f.loc(bad[0]), bad[1])
    else:
        res.ok(STABLE, where, f.loc(lp))


def is_list(f, e):
    if not isinstance(e, ast.Name):
        return False
    vs = [n.value for n in own_nodes(f.node) if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in
                                                                               n.targets)]
    return bool(vs) and all(isinstance(v, (ast.List, ast.ListComp)) or isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and
                            v.func.id in ('list', 'deque', 'sorted') for v in vs)


def descending(f, e, depth=0):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name):
        if e.func.id == 'reversed':
            return True
        if e.func.id == 'sorted' and any(k.arg == 'reverse' for k in e.keywords):
            return True
        if e.func.id in ('list', 'tuple', 'enumerate', 'iter') and e.args:
            return descending(f, e.args[0], depth)
        if e.func.id == 'range' and len(e.args) == 3:
            return True
    if isinstance(e, ast.Subscript) and isinstance(e.slice, ast.Slice) and e.slice.step is not None:
        return True
    if isinstance(e, ast.Name) and depth < 3:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets) and descending(
                    f, n.value, depth + 1):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and \
                    n.func.value.id == e.id and (n.func.attr == 'reverse' or n.func.attr == 'sort' and n.keywords):
                return True
    return False


def iterators(prog, f):
    """name -> assignments that bind a fresh iterator"""
    out = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and makes_iterator(prog, f, n.value):
            out.setdefault(n.targets[0].id, []).append(n)
    return out


def makes_iterator(prog, f, v):
    if isinstance(v, ast.GeneratorExp):
        return True
    if not isinstance(v, ast.Call):
        return False
    if isinstance(v.func, ast.Name) and v.func.id in ITERATORS or isinstance(v.func, ast.Name) and v.func.id in ITERTOOLS and \
            'itertools' in str(f.module.imports.get(v.func.id)):
        return True
    if isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id == 'itertools':
        return v.func.attr not in ('repeat', 'cycle', 'count')
    ts = [t for t in prog.resolve_call(f, v, cha=True) if isinstance(t, FuncInfo)]
    return bool(ts) and all(is_generator(t) for t in ts)


def is_generator(t):
    return any(isinstance(y, (ast.Yield, ast.YieldFrom)) for y in own_nodes(t.node)) and not any(
        'contextmanager' in ast.unparse(d) for d in t.node.decorator_list)


def consumes(n, x):
    """The node uses up the iterator x."""
    if n.kind == 'iter':
        return x in free(n.extra)
    for e in node_exprs(n):
        if not isinstance(e, ast.AST):
            continue
        for c in ast.walk(e):
            if isinstance(c, ast.Call):
                fn = c.func
                if isinstance(fn, ast.Name) and fn.id in ('next', 'isinstance', 'type', 'print', 'id', 'hasattr', 'iter'):
                    continue
                for a in list(c.args) + [k.value for k in c.keywords]:
                    a = a.value if isinstance(a, ast.Starred) else a
                    if isinstance(a, ast.Name) and a.id == x:
                        return True
            elif isinstance(c, ast.comprehension) and x in free(c.iter):
                return True
            elif isinstance(c, ast.Compare) and any(isinstance(o, (ast.In, ast.NotIn)) for o in c.ops) and any(
                    isinstance(r, ast.Name) and r.id == x for r in c.comparators):
                return True
    return False


def once(f, fl, gens, res):
    for x, assigns in sorted(gens.items()):
        bad = None
        uses = [n for n in fl.g.nodes if consumes(n, x)]
        fresh = {n.id for n in fl.g.nodes if n.kind == 'stmt' and n.ast in assigns}
        for n in uses:
            if not any(y == x and i in fresh for y, i in fl.ins[n.id]):
                continue
            # another consumption is reached without a new iterator; the loop that consumes it does not count by itself
            st, seen = [s for s, l in n.succ if l != 'exc'], set()
            while st and bad is None:
                m = st.pop()
                if m.id in seen:
                    continue
                seen.add(m.id)
                if m in uses:
                    bad = (n, m)
                elif x not in fl.du[m.id][0]:
                    st += [s for s, l in m.succ if l != 'exc']
        if bad:
            res.bad(ONCE, '%s %s' % (f.qual, x), f.loc(bad[1].ast), 'the iterator %s was used up before, or by an earlier '
                    'iteration' % x)
        else:
            res.ok(ONCE, '%s %s' % (f.qual, x), f.loc(assigns[0]))


def shared(prog, f, lp, res, tally):
    body = [x for s in lp.body for x in ast.walk(s)]
    bound = {x.id for x in body if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
    if isinstance(lp, ast.For):
        bound |= stored(lp.target)
    changed = set()
    for x in body:
        if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
            changed.add(x.value.id)
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS and isinstance(
                x.func.value, ast.Name):
            changed.add(x.func.value.id)
    alias = {}
    for x in body:
        if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
            alias.setdefault(x.targets[0].id, []).append(x.value)
    alias = {k: v[0].id for k, v in alias.items() if len(v) == 1 and isinstance(v[0], ast.Name) and v[0].id not in bound}
    changed |= {alias[x] for x in changed if x in alias}
    made = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            made.setdefault(n.targets[0].id, []).append(n.value)
    for nm in sorted(changed - bound):
        if not made.get(nm) or not all(container(v) for v in made[nm]):
            continue
        names = {nm} | {k for k, v in alias.items() if v == nm}
        for x in body:
            how = None
            if isinstance(x, (ast.Yield, ast.Return)) and x.value is not None and whole(x.value, names):
                how = None if isinstance(x, ast.Return) else 'yields'
            elif isinstance(x, ast.Assign) and whole(x.value, names) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in
                                                                          x.targets):
                how = 'stores'
            elif isinstance(x, ast.Call):
                vals = list(x.args) + [k.value for k in x.keywords if k.arg]
                if any(whole(a, names) for a in vals):
                    ts = prog.resolve_call(f, x, cha=True)
                    if isinstance(x.func, ast.Attribute) and x.func.attr in ('append', 'add', 'insert', 'appendleft', 'put') or any(
                            isinstance(t, ClassInfo) or isinstance(t, FuncInfo) for t in ts):
                        how = 'hands over'
            if how:
                tally.add(SHARED, f, nm, f.loc(x), 'every iteration %s %s, which later iterations change' % (how, nm), '%s %s' % (
                    f.qual, nm))
                break
        else:
            res.ok(SHARED, '%s %s' % (f.qual, nm), f.loc(lp))


def whole(e, nm):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('values', 'items', 'keys', 'copy') and not e.args:
        return whole(e.func.value, nm)
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('list', 'tuple', 'dict', 'set') and len(e.args) == 1:
        return whole(e.args[0], nm)
    if isinstance(e, ast.Name):
        return e.id in nm
    if isinstance(e, (ast.Tuple, ast.List)):
        return any(whole(x, nm) for x in e.elts)
    if isinstance(e, ast.Dict):
        return any(whole(x, nm) for x in e.values if x is not None)
    return False


def container(v):
    return isinstance(v, (ast.Dict, ast.List, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or isinstance(v, ast.Call) and (
        isinstance(v.func, ast.Name) and v.func.id in ('dict', 'list', 'set', 'OrderedDict', 'defaultdict', 'deque') or
        isinstance(v.func, ast.Attribute) and (v.func.attr == 'copy' and not v.args or v.func.attr in (
            'deepcopy', 'OrderedDict', 'defaultdict', 'deque')) or
        isinstance(v.func, ast.Name) and v.func.id in ('copy', 'deepcopy'))
