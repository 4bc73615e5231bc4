"""P09: asking an object something leaves it as it was."""
import ast

from .. import effects
from ..program import ClassInfo

# Methods that answer a question or make a new object.
QUERY = ('get_', 'as_', 'iter', 'is_', 'has_', 'copy', 'deepcopy', '__getitem__', '__contains__', '__eq__', '__ne__', '__iter__',
         '__str__', '__repr__', '__len__', 'find_', 'to_', 'write', 'inquire', 'describe', 'items', 'keys', 'values', 'first',
         'dump', 'convert_to', 'convolve_to', 'calculate', 'aggregate_')
# convert_to_empty changes the object; extract moves a variable out of its parent (documented).
QUERY_NAMES = {'get', 'prepare', 'inspect', 'pprint', 'reduce_global', 'diagnostics', 'validate_units', 'v', 'm', 'mv',
               'groups_to_variable', 'split', 'prepare_geometry_variable'}
NOT_QUERY = {'convert_to_empty', 'extract', 'get_or_create'}
# Objects that stand for one execution rather than for data, and the machinery around them.
EXECUTION = {'OperationsEngine', 'CalculationEngine', 'SpatialSubsetOperation', 'OcgDist', 'OcgVM', 'ProgressOcgOperations',
             'GeomCabinetIterator', 'DummyMPIComm', 'ArrayIterator', 'Iterator'}
EXECUTION_BASES = {'AbstractConverter', 'AbstractDriver', 'AbstractParameter'}
# Reading attributes named here materialises what the dimension map says about the variable (documented); the change is on
# the named parameter.  Creating a spatial container on a parent adds its coordinates to the parent.
MATERIALISE = {
    'DimensionMap.get_variable': {'parent', 'self'}, 'DimensionMap.get_topology': {'self'},
    'get_or_create_dict': {'dct'}, 'get_field_property': {'field'},
    'AbstractXYZSpatialContainer.__init__': {'kwargs', 'parent'}, 'Field.geom': {'self'},
    'renamed_dimensions_on_variables': {'vc'}, 'revert_renamed_dimensions_on_variables': {'vc'},
    'AbstractFunction.iter_calculation_targets': {'self'},
}
# The lazy part of objects: what is read or derived on demand.
CACHE_ATTRS = {'_curr_variable', '_is_init', '_driver', '_string_max_length_global'}


def is_query(f):
    if f.name in NOT_QUERY or f.kind in ('static', 'class', 'setter', 'deleter'):
        return False
    if f.name.startswith('_') and not f.name.startswith('__'):
        return False
    return f.kind == 'property' or f.name.startswith(QUERY) or f.name in QUERY_NAMES


# Flags that ask for the change.
ASKED = ('inplace', 'create', 'clean_break', 'update')


class Purity(effects.Effects):
    asked = ASKED

    def worth(self, f, root, path):
        b = self.prog.base(f)
        q = b.qual.split(':')[-1]
        if root in MATERIALISE.get(q, ()) or (f.selfname == root and 'self' in MATERIALISE.get(q, ())):
            return False
        return True


def chain(where):
    out, w = [], where
    while len(w) > 2:
        out.append(w)
        w = w[2]
    return out, w


def root_of(b, where):
    owner, w = b, where
    while len(w) > 2:
        owner, w = w[3], w[2]
    return owner, w[0], w[1]


def asked_for(E, b, modes):
    """The change happens only when a flag asks for it."""
    kf = E.kw_flags(b)
    return all(any((kf[k][0] if k in kf else k) in ASKED and v for k, v in m) for m in modes)


def visible(path, what):
    """Parts of an object's state this rule speaks about: its attributes and the containers held in them."""
    return len(path) == 0 or len(path) == 1 and what == '[]'


# Copies share arrays until these are replaced (documented), and variables share the collection they belong to.
SHARED = {'_value', '_mask', '_parent', 'parent', '*'}
# Objects held in attributes that a copy must have for itself.
OWN_OBJECTS = {'Field': {'dimension_map'}, 'Grid': {'_parent'}, 'Attributes': {'_attrs'}}


def copies(prog, res, E, funcs, views):
    """What a copy shares with the original may not be changed in place afterwards."""
    rule = 'copy-has-own-containers'
    res.rule(rule, 'Every container attribute that some method of a class changes in place is replaced by a container of its '
                   'own in what copy() of that class returns, and so are the objects a copy must own.')
    mutated, inner = {}, {}
    for f in funcs:
        c = views.ctx.get(f.qual)
        if c is None:
            continue
        for (root, path, what), (where, modes, val) in E.eff.get(f.qual, {}).items():
            if root == f.selfname and path and what == '[]' and path[0] not in SHARED:
                if len(path) == 1:
                    mutated.setdefault(c.qual, {}).setdefault(path[0], []).append((f, where))
                elif len(path) == 2 and path[1] == '[]':
                    inner.setdefault(c.qual, {}).setdefault(path[0], []).append((f, where))
    for c in sorted(prog.classes.values(), key=lambda c: c.qual):
        m = prog.find_method(c, 'copy')
        if m is None or m.cls is None or not m.selfname:
            continue
        v = views.view(m, c)
        mine = [t for t in E.ret.get(v.qual, ()) if t[0] == v.selfname]
        toks = [t for t in mine if not t[1] and not t[2]]
        if not toks:
            continue
        need = {a: ws for a, ws in mutated.get(c.qual, {}).items()}
        own = set()
        for k in prog.mro(c):
            own |= OWN_OBJECTS.get(k.name, set())
        for a, ws in inner.get(c.qual, {}).items():
            if any(t[1] == (a,) and t[2] == (a,) and '[]' not in (t[3] or ()) or t[1] == t[2] == (a, '[]') and t[3] is None
                   for t in mine):
                f, where = sorted(ws, key=lambda x: x[0].qual)[0]
                b = views.base(f)
                o, node, how = root_of(b, where)
                res.bad(rule, '%s.%s[]' % (c.qual, a), o.loc(node), 'copies of a %s made by %s share the containers held in %s '
                        'with the original, and %s changes one in place (%s)' % (
                            c.name, m.qual.split(':')[-1], a, b.qual.split(':')[-1], how))
            else:
                res.ok(rule, '%s.%s[]' % (c.qual, a), m.loc())
        for a in sorted(set(need) | own):
            bad = [t for t in toks if t[3] is None or not ({a, a.lstrip('_')} & set(t[3]))] + [
                t for t in mine if t[1] == (a,) and t[2] == (a,) and t[3] is None]
            name = '%s.%s' % (c.qual, a)
            if not bad:
                res.ok(rule, name, m.loc())
                continue
            if a in need:
                f, where = sorted(need[a], key=lambda x: x[0].qual)[0]
                b = views.base(f)
                o, node, how = root_of(b, where)
                res.bad(rule, name, o.loc(node), 'copies of a %s made by %s share %s with the original, and %s changes it in place '
                        '(%s)' % (c.name, m.qual.split(':')[-1], a, b.qual.split(':')[-1], how))
            else:
                res.bad(rule, name, m.loc(), 'copies of a %s made by %s share %s with the original' % (
                    c.name, m.qual.split(':')[-1], a))


def run(prog, res):
    res.rule('query-leaves-object-unchanged',
             'No property, get_/is_/has_/iter/copy/slicing/writing method of a data object changes, directly or through anything '
             'it calls, an attribute of the object or a container held in one, except while the attribute is computed for the '
             'first time.')
    E, funcs, views = effects.analyse(prog, Purity)
    sites, seen = {}, {}
    for f in funcs:
        b = views.base(f)
        c = views.ctx.get(f.qual)
        if b.cls is None or c is None or not is_query(b):
            continue
        names = {k.name for k in prog.mro(c)}
        if c.name in EXECUTION or names & EXECUTION_BASES:
            continue
        seen[b.qual] = b
        for (root, path, what), (where, modes, val) in E.eff.get(f.qual, {}).items():
            if root != f.selfname or not visible(path, what) or what in CACHE_ATTRS:
                continue
            if asked_for(E, b, modes):
                continue
            o, node, how = root_of(b, where)
            sites.setdefault((o.qual, what, '.'.join(path + (what,)) if o is b else what), []).append(
                (b, c, path, what, where, o, node, how))
    report(prog, res, 'query-leaves-object-unchanged', sites, seen, 'of the object it is called on')
    res.rule('query-leaves-arguments-unchanged',
             'No such method assigns to an attribute of an object passed to it (taking the object into a collection aside).')
    sites, seen = {}, {}
    for f in funcs:
        b = views.base(f)
        c = views.ctx.get(f.qual)
        if b.cls is None or not is_query(b) or b.name.startswith('write'):
            continue
        ps = [p for p in b.params if p != b.selfname]
        if not ps:
            continue
        seen[b.qual] = b
        for (root, path, what), (where, modes, val) in E.eff.get(f.qual, {}).items():
            if root not in ps or path or what in ('[]', '_parent') or what in CACHE_ATTRS:
                continue
            if asked_for(E, b, modes):
                continue
            o, node, how = root_of(b, where)
            sites.setdefault((o.qual, what, '%s.%s' % (root, what) if o is b else what), []).append(
                (b, c or b.cls, path, what, where, o, node, how))
    report(prog, res, 'query-leaves-arguments-unchanged', sites, seen, 'of an object passed to it')
    copies(prog, res, E, funcs, views)
    res.count('function and receiver class combinations', len(funcs))
    res.count('effects', sum(len(v) for v in E.eff.values()))
    if not getattr(prog, 'fixture', False):
        res.floor('query-leaves-object-unchanged', 250)
        res.floor('query-leaves-arguments-unchanged', 100)
        res.floor('copy-has-own-containers', 15)


def report(prog, res, rule, sites, seen, whose):
    badq = set()
    for key, ws in sorted(sites.items(), key=lambda x: x[0]):
        ws.sort(key=lambda w: (w[0].qual, w[1].qual))
        b, c, path, what, where, o, node, how = ws[0]
        badq.update(w[0].qual for w in ws)
        via = [w[1].replace('call of ', '') for w in chain(where)[0]]
        res.bad(rule, '%s %s' % (b.qual, '.'.join(path + (what,))), o.loc(node),
                '%s of a %s changes %s %s (%s in %s%s)%s' % (
                    b.qual.split(':')[-1], c.name, '.'.join(path + (what,)).replace('.[]', ' in place'), whose, how,
                    o.qual.split(':')[-1], '' if not via else ', reached through ' + ' > '.join(via[:5]),
                    '' if len(ws) == 1 else '; also reached from %d other queries' % (len({w[0].qual for w in ws}) - 1)))
    for q, b in sorted(seen.items()):
        if q not in badq:
            res.ok(rule, q, b.loc())
