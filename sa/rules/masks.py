"""P16: masked values are missing values wherever something is computed."""
import ast

from ..cfg import cfg_of, node_exprs
from ..paths import explore_safe
from ..program import FuncInfo, dotted, own_nodes
from .options import parents

# Kinds an expression can have: a masked array, the data below a mask, a masked array filled with not-a-number, the mask of
# one step only, a plain array made by numpy, a masked array made here.
M, RAW, NAN, MASK, STEP, PLAIN, FRESH, COORD = 'masked', 'raw', 'nan', 'mask', 'step', 'plain', 'fresh', 'coordinate'
# A masked array made without the mask of what it was computed from; the same array after masked values were stored in it; a
# number of values that is counted with a mask.
NOMASK, FED, COUNT, CLEAN = 'unmasked', 'fed', 'count', 'nothing masked'
# Attributes that hold coordinates, which are not masked.
COORDS = {'time', 'temporal', 'level', 'realization', 'x', 'y', 'crs', 'grid', 'geom', 'tgd', 'temporal_group'}
NONE = frozenset()
# numpy functions that respect masks of masked arrays (ufuncs and functions that call the method of the array).
UFUNCS = set('''add subtract multiply divide true_divide floor_divide power remainder mod negative absolute abs fabs sign exp exp2 log
log2 log10 log1p expm1 sqrt square cbrt reciprocal sin cos tan arcsin arccos arctan arctan2 sinh cosh tanh hypot degrees radians
deg2rad rad2deg rint floor ceil trunc maximum minimum fmax fmin greater greater_equal less less_equal equal not_equal logical_and
logical_or logical_xor logical_not invert bitwise_and bitwise_or isnan isinf isfinite float_power positive'''.split())
METHODS = set('''sum mean std var prod min max amin amax any all cumsum cumprod clip round around ptp argsort argmin argmax nonzero
ma ndim shape size'''.split())
SHAPE = set('''squeeze reshape ravel swapaxes transpose moveaxis rollaxis expand_dims atleast_1d atleast_2d atleast_3d broadcast_to
flip flipud fliplr rot90 copy asanyarray apply_along_axis diff repeat take array_split split'''.split())
LIKE = {'zeros_like', 'ones_like', 'empty_like', 'full_like', 'result_type', 'can_cast', 'dtype', 'broadcast_shapes', 'isscalar'}
MAKE = {'zeros', 'ones', 'empty', 'full'}
MAMAKE = {'array', 'masked_array', 'MaskedArray', 'asarray', 'asanyarray', 'masked_where', 'masked_invalid', 'zeros', 'ones', 'empty'}
PLAINMETHODS = {'compressed', 'tolist', 'item', 'any', 'all', 'tobytes', 'count', 'get_fill_value'}
SHAPEMETHODS = {'reshape', 'flatten', 'ravel', 'swapaxes', 'transpose', 'squeeze', 'copy', 'astype', 'view', 'repeat', 'take', 'resize',
                'fill'}
BLIND_BUILTINS = {'min', 'max', 'sorted'}
THROUGH = {'list', 'tuple', 'zip', 'enumerate', 'iter', 'reversed', 'next', 'filter', 'deque', 'deepcopy', 'copy'}
MASKED_GETTERS = {'get_masked_value', 'mv', 'get_variable_value'}
RAW_GETTERS = {'get_value', 'v'}
SCOPE = ('ocgis.calc',)
SCOPE_FUNCS = ('GeometryVariable.get_unioned',)
# Parameters of the methods calculation classes implement.
INPUTS = {'calculate': ('values', 'value'), 'aggregate_spatial': ('values',), 'aggregate_temporal': ('values',),
          'get_sample_size': ('values',), '_aggregate_spatial_': ('values',)}


def is_false(e):
    return isinstance(e, ast.Constant) and e.value in (False, 0) and e.value is not None or dotted(e) in ('np.ma.nomask', 'ma.nomask')


def is_true(e):
    return isinstance(e, ast.Constant) and e.value in (True, 1)


def is_none(e):
    return isinstance(e, ast.Constant) and e.value is None


def flat(t):
    if isinstance(t, tuple):
        out = NONE
        for x in t:
            out |= flat(x)
        return out
    return t


def join(a, b):
    if isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b):
        return tuple(join(x, y) for x, y in zip(a, b))
    return flat(a) | flat(b)


def of_mask(t):
    return {x[1] for x in flat(t) if isinstance(x, tuple) and x[0] == MASK}


def func_tags(t):
    return [x[1] for x in flat(t) if isinstance(x, tuple) and x[0] == 'func']


def data(t):
    return flat(t) & {M, RAW, NAN}


def base_of(t):
    """Array whose data or value is the target of a store: x.data[...], x.get_value()[...], x[...][...].get_value()[...]"""
    e = t
    while isinstance(e, (ast.Subscript, ast.Attribute, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


class Masks(object):
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self.inputs, self.returns, self.attrs = {}, {}, {}
        self.report = None
        self.reads, self.current = {}, {}

    # -- numpy names ---------------------------------------------------------------------------------------------
    def np_name(self, f, e):
        """'percentile' or 'ma.median' if e denotes something of numpy."""
        d = dotted(e)
        if not d:
            return None
        root, rest = d.split('.', 1) if '.' in d else (d, '')
        target = f.module.imports.get(root) if hasattr(f.module, 'imports') else None
        full = None
        if isinstance(target, str):
            full = target
        elif isinstance(target, tuple):
            full = '.'.join(x for x in target if isinstance(x, str) and x)
        if full is None and root in ('np', 'numpy'):
            full = 'numpy'
        if full is None or full.split('.')[0] != 'numpy':
            return None
        full = full + ('.' + rest if rest else '')
        return full[6:] if full.startswith('numpy.') else ''

    # -- expressions ---------------------------------------------------------------------------------------------
    def ev(self, f, e, st):
        if e is None or isinstance(e, (ast.Constant, ast.Lambda)):
            return NONE
        if isinstance(e, ast.Name):
            if e.id in st:
                return st[e.id]
            n = self.np_name(f, e)
            return frozenset([('func', n)]) if n is not None and n != '' else NONE
        if isinstance(e, ast.Attribute):
            n = self.np_name(f, e)
            if n is not None:
                return frozenset([('func', n)]) if n else NONE
            t = flat(self.ev(f, e.value, st))
            if e.attr in ('data', '_data') and M in t:
                return frozenset([RAW])
            if e.attr in ('mask', '_mask') and M in t:
                r = base_of(e.value)
                return frozenset([(MASK, r or '?')])
            if e.attr in ('T', 'flat', 'real', 'imag'):
                return t
            if e.attr in COORDS:
                return frozenset([COORD])
            if isinstance(e.value, ast.Name) and e.value.id == f.selfname:
                return self.attrs.get(e.attr, NONE)
            return NONE
        if isinstance(e, ast.Subscript):
            v = self.ev(f, e.value, st)
            self.ev(f, e.slice, st)
            if isinstance(v, tuple) and isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int) and \
                    -len(v) <= e.slice.value < len(v):
                return v[e.slice.value]
            v = flat(v)
            if isinstance(e.slice, ast.Constant) and e.slice.value in COORDS:
                return frozenset([COORD])
            if of_mask(v):
                idx = e.slice.elts if isinstance(e.slice, ast.Tuple) else [e.slice]
                if any(isinstance(i, ast.Constant) and isinstance(i.value, int) and not isinstance(i.value, bool) for i in idx):
                    v |= {STEP}
            return v
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts) or isinstance(e, ast.List):
                out = NONE
                for x in e.elts:
                    out |= flat(self.ev(f, x, st))
                return out - {PLAIN, FRESH}
            return tuple(self.ev(f, x, st) for x in e.elts)
        if isinstance(e, (ast.BinOp, ast.Compare, ast.UnaryOp, ast.BoolOp)):
            parts = [e.left, e.right] if isinstance(e, ast.BinOp) else [e.left] + e.comparators if isinstance(e, ast.Compare) else \
                [e.operand] if isinstance(e, ast.UnaryOp) else e.values
            ts = [flat(self.ev(f, p, st)) for p in parts]
            if isinstance(e, ast.Compare) and all(isinstance(o, (ast.Is, ast.IsNot, ast.In, ast.NotIn)) for o in e.ops):
                return NONE
            out = NONE
            for p, t in zip(parts, ts):
                out |= t
                if RAW in t and not isinstance(e, ast.BoolOp):
                    self.bad(f, e, 'masked-values-do-not-take-part', 'computes with %s, the data below a mask' % ast.unparse(p)[:60])
            if isinstance(e, ast.Compare):
                return (out - {PLAIN, FRESH, RAW}) if M in out else NONE
            return out - {FRESH} - ({PLAIN} if M in out else NONE) - {x for x in out if isinstance(x, tuple) and x[0] == 'func'}
        if isinstance(e, ast.IfExp):
            self.ev(f, e.test, st)
            return join(self.ev(f, e.body, st), self.ev(f, e.orelse, st))
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = dict(st)
            for g in e.generators:
                self.bind(f, g.target, self.element(self.ev(f, g.iter, inner)), inner)
                for c in g.ifs:
                    self.ev(f, c, inner)
            if isinstance(e, ast.DictComp):
                return flat(self.ev(f, e.value, inner))
            return flat(self.ev(f, e.elt, inner))
        if isinstance(e, ast.Dict):
            out = NONE
            for v in e.values:
                out |= flat(self.ev(f, v, st))
            return out
        if isinstance(e, ast.Starred):
            return self.ev(f, e.value, st)
        if isinstance(e, (ast.Yield, ast.Await, ast.YieldFrom)):
            if e.value is not None:
                t = self.ev(f, e.value, st)
                self.ret(f, t)
            return NONE
        if isinstance(e, ast.Call):
            return self.call(f, e, st)
        if isinstance(e, ast.Slice):
            for x in (e.lower, e.upper, e.step):
                self.ev(f, x, st)
            return NONE
        if isinstance(e, ast.NamedExpr):
            t = self.ev(f, e.value, st)
            self.bind(f, e.target, t, st)
            return t
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(f, c, st)
        return NONE

    @staticmethod
    def element(t):
        return t if not isinstance(t, tuple) else flat(t)

    def ret(self, f, t):
        old = self.returns.get(f.qual)
        nw = t if old is None else join(old, t)
        if nw != old:
            self.returns[f.qual] = nw
            self.changed = True

    def call(self, f, e, st):
        self.current = st
        args = [(a.value if isinstance(a, ast.Starred) else a) for a in e.args]
        ats = [self.ev(f, a, st) for a in args]
        kts = {k.arg: self.ev(f, k.value, st) for k in e.keywords}
        every = NONE
        for t in ats + list(kts.values()):
            every |= flat(t)
        fn = e.func
        # getattr(np, name)
        if isinstance(fn, ast.Name) and fn.id == 'getattr' and args:
            n = self.np_name(f, args[0])
            if n is not None:
                k = args[1].value if len(args) > 1 and isinstance(args[1], ast.Constant) else '<%s>' % ast.unparse(args[1])
                return frozenset([('func', (n + '.' if n else '') + str(k))])
        ft = func_tags(self.ev(f, fn, st)) if isinstance(fn, (ast.Name, ast.Attribute, ast.Call)) else []
        if isinstance(fn, (ast.Name, ast.Attribute)) and ft:
            out = NONE
            for n in ft:
                out |= flat(self.numpy(f, e, n, args, ats, kts, every))
            return out
        if isinstance(fn, ast.Name):
            if fn.id in BLIND_BUILTINS and M in every:
                self.bad(f, e, 'masked-values-do-not-take-part', 'the built-in %s does not know masks' % fn.id)
                return NONE
            if fn.id in THROUGH:
                if fn.id in ('list', 'tuple', 'iter', 'reversed', 'deque') and len(ats) == 1:
                    return ats[0]
                return every
            if fn.id in ('float', 'int', 'bool', 'str', 'len', 'isinstance', 'hasattr', 'range', 'print', 'type', 'id', 'sum', 'set'):
                return NONE
            if fn.id in ('map',):
                self.by_reference(f, e, st)
                return NONE
            if fn.id == 'eval' and self.in_scope(f):
                return frozenset([M])
            if fn.id in f.params and M in every:
                return frozenset([M])
        if isinstance(fn, ast.Attribute):
            t = flat(self.ev(f, fn.value, st))
            if fn.attr in MASKED_GETTERS and not (M in t):
                got = [u for u in self.targets(f, e)]
                if fn.attr == 'get_variable_value' and got:
                    return self.ocgis(f, e, got, st)
                return frozenset([M])
            if COORD in t:
                return NONE
            if fn.attr in RAW_GETTERS and not e.args and self.in_scope(f):
                if f.cls is not None and not (isinstance(fn.value, ast.Name) and fn.value.id == f.selfname):
                    self.reads.setdefault((f.qual, e.lineno, e.col_offset), (f, e))
                return frozenset([RAW])
            if fn.attr == 'get_mask':
                return frozenset([(MASK, base_of(fn) or '?')])
            if data(t) or of_mask(t) or PLAIN in t:
                return self.method(f, e, fn, t, every)
        got = self.targets(f, e)
        if got:
            return self.ocgis(f, e, got, st)
        if isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name) and fn.value.id in ('itertools',) and fn.attr in (
                'product', 'chain', 'izip'):
            return every
        return NONE

    def targets(self, f, e):
        return [t for t in self.prog.resolve_call(f, e, cha=True) if isinstance(t, FuncInfo)]

    def ocgis(self, f, e, got, st):
        out = None
        for t in got:
            if t.name == '__init__':
                continue
            m = self.prog.map_args(t, e, e.func.value if isinstance(e.func, ast.Attribute) else None)
            for q, a in m.items():
                if q in t.params and isinstance(a, ast.AST) and q != t.selfname:
                    tag = flat(self.ev(f, a, st)) & {M, RAW, NAN}
                    if tag:
                        cur = self.inputs.setdefault(t.qual, {})
                        if not tag <= cur.get(q, NONE):
                            cur[q] = cur.get(q, NONE) | tag
                            self.changed = True
            r = self.returns.get(t.qual)
            if r is not None:
                out = r if out is None else join(out, r)
        return out if out is not None else NONE

    def method(self, f, e, fn, t, every):
        n = fn.attr
        if M in t:
            self.good(f, e, 'masked-values-do-not-take-part')
            if n in PLAINMETHODS:
                return frozenset([COUNT]) if n == 'count' else NONE
            if n == 'filled':
                return self.filled(e.args[0] if e.args else None)
            return t - {FRESH}
        if of_mask(t):
            if n in ('any', 'sum', 'max', 'min') or n == 'all' and not e.args and not e.keywords:
                return NONE if not (e.args or e.keywords) else (t - {STEP}) | ({COUNT} if n == 'sum' else NONE)
            return t
        if RAW in t or NAN in t:
            if n in SHAPEMETHODS or n in ('any', 'all') and False:
                return t
            if n in ('tolist', 'item', 'tobytes', 'append'):
                return NONE
            if n in METHODS or n in ('dot', 'sort'):
                self.bad(f, e, 'masked-values-do-not-take-part', '%s computes with the data below a mask' % ast.unparse(fn)[:60])
            return NONE
        return (t & {PLAIN}) if n in SHAPEMETHODS else NONE

    @staticmethod
    def filled(v):
        if v is None:
            return frozenset([RAW])
        if isinstance(v, ast.Constant) and isinstance(v.value, bool):
            return NONE
        if isinstance(v, ast.Attribute) and v.attr in ('nan', 'NaN', 'NAN'):
            return frozenset([NAN])
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'float':
            return frozenset([NAN])
        return frozenset([RAW])

    def by_reference(self, f, e, st):
        """A function that is handed over is called with the other arguments."""
        tags = NONE
        for a in e.args:
            tags |= data(self.ev(f, a, st))
        for a in e.args:
            if isinstance(a, (ast.Name, ast.Attribute)):
                for t in self.targets(f, ast.copy_location(ast.Call(func=a, args=[], keywords=[]), a)):
                    ps = [p for p in t.params if p != t.selfname]
                    if tags and ps:
                        cur = self.inputs.setdefault(t.qual, {})
                        if not tags <= cur.get(ps[0], NONE):
                            cur[ps[0]] = cur.get(ps[0], NONE) | tags
                            self.changed = True

    def numpy(self, f, e, n, args, ats, kts, every):
        rule = 'masked-values-do-not-take-part'
        if n.split('.')[-1] in ('apply_along_axis', 'apply_over_axes', 'vectorize', 'frompyfunc'):
            self.by_reference(f, e, self.current)
        first = flat(ats[0]) if ats else flat(kts.get('a', kts.get('data', NONE)))
        if n.startswith('ma.'):
            n = n[3:]
            if n in ('getmask', 'getmaskarray'):
                return frozenset([(MASK, base_of(args[0]) or '?')]) if args else NONE
            if n == 'getdata':
                return frozenset([RAW]) if M in first else first
            if n in ('is_masked', 'isMaskedArray', 'isMA', 'count', 'count_masked', 'compressed', 'clump_masked', 'clump_unmasked',
                     'default_fill_value'):
                return NONE
            if n == 'filled':
                return self.filled(args[1] if len(args) > 1 else None) if M in first else first
            if n in MAMAKE:
                mask = kts.get('mask', ats[1] if len(ats) > 1 and n != 'masked_where' else None)
                if mask is not None:
                    node = [k.value for k in e.keywords if k.arg == 'mask'] or args[1:2]
                    self.mask_arg(f, e, node[0], mask)
                    if M in first and is_false(node[0]):
                        pass    # combined with the mask the array has
                if RAW in first and mask is None and n != 'masked_invalid':
                    self.bad(f, e, 'mask-goes-with-data', 'a masked array is made from the data below a mask without that mask')
                fresh = {FRESH} if PLAIN in first or n in MAKE else set()
                if n in ('array', 'masked_array', 'MaskedArray', 'asarray', 'asanyarray', 'zeros', 'ones', 'empty') and M not in first and \
                        CLEAN not in first and not (of_mask(mask) if mask is not None else False) and not (mask is not None and is_true(node[0])):
                    fresh.add(NOMASK)
                return frozenset([M]) | fresh | (first & {COUNT, FED})
            if data(every):
                if RAW in every:
                    self.bad(f, e, rule, 'np.ma.%s is given the data below a mask' % n)
                else:
                    self.good(f, e, rule)
            return frozenset([M]) | ({COUNT} if of_mask(every) or n.split('.')[-1] == 'count' else NONE)
        last = n.split('.')[-1]
        if n in MAKE:
            return frozenset([PLAIN])
        if last in LIKE:
            return frozenset([PLAIN])
        if not data(every):
            if last in SHAPE and PLAIN in first:
                return frozenset([PLAIN])
            if of_mask(every) and (last in UFUNCS or last in SHAPE or last in ('array', 'asarray')):
                return frozenset(x for x in every if x == STEP or isinstance(x, tuple) and x[0] == MASK)
            if of_mask(every) and last in ('all', 'any') and 'axis' in kts:
                return frozenset(x for x in every if isinstance(x, tuple) and x[0] == MASK)
            if of_mask(every):
                return frozenset([COUNT])
            return NONE
        if last in ('array', 'asarray', 'ascontiguousarray', 'copy') and not any(k == 'subok' for k in kts):
            return frozenset([RAW]) if (M in first or RAW in first) else first
        if M in every:
            ok = last in UFUNCS or last in METHODS or last in SHAPE
            self.check(ok, f, e, rule, 'np.%s does not know masks: values below the mask take part' % n)
            if last in ('any', 'all', 'ndim', 'shape', 'size'):
                return NONE
            return frozenset([M]) if ok else NONE
        if NAN in every and RAW not in every:
            ok = last.startswith('nan') or last in ('isnan', 'isfinite') or last in SHAPE
            self.check(ok, f, e, rule, 'np.%s of an array filled with not-a-number' % n)
            return frozenset([NAN]) if last in SHAPE else NONE
        if last in SHAPE:
            return frozenset([RAW])
        self.bad(f, e, rule, 'np.%s computes with the data below a mask' % n)
        return NONE

    def mask_arg(self, f, e, node, tag):
        self.check(STEP not in flat(tag), f, e, 'mask-of-every-step',
                   'the mask of a result is taken from one step: %s' % ast.unparse(node)[:70])

    # -- reporting -----------------------------------------------------------------------------------------------
    def check(self, ok, f, e, rule, msg):
        if ok:
            self.good(f, e, rule)
        else:
            self.bad(f, e, rule, msg)

    def good(self, f, e, rule):
        if self.report is not None:
            self.report.setdefault((f.qual, e.lineno, e.col_offset, rule), None)

    def bad(self, f, e, rule, msg):
        if self.report is not None:
            self.report[(f.qual, e.lineno, e.col_offset, rule)] = (f, e, msg)

    # -- statements ----------------------------------------------------------------------------------------------
    def in_scope(self, f):
        return f.module.name.startswith(SCOPE) or f.qual.split(':')[-1] in SCOPE_FUNCS or getattr(self.prog, 'fixture', False)

    def bind(self, f, t, tag, st):
        if isinstance(t, ast.Name):
            st[t.id] = tag
        elif isinstance(t, (ast.Tuple, ast.List)):
            if isinstance(tag, tuple) and len(tag) == len(t.elts):
                for x, y in zip(t.elts, tag):
                    self.bind(f, x, y, st)
            else:
                for x in t.elts:
                    self.bind(f, x, flat(tag), st)
        elif isinstance(t, ast.Starred):
            self.bind(f, t.value, flat(tag), st)
        elif isinstance(t, ast.Attribute):
            if isinstance(t.value, ast.Name) and t.value.id == f.selfname and data(tag) and t.attr not in ('mask', 'data'):
                old = self.attrs.get(t.attr, NONE)
                if not data(tag) <= old:
                    self.attrs[t.attr] = old | data(tag)
                    self.changed = True
            if t.attr == 'mask' and M in flat(self.ev(f, t.value, st)):
                self.mask_store(f, t, t.value, st)
                self.fed(t.value, tag, st)
        elif isinstance(t, ast.Subscript):
            v = t.value
            if isinstance(v, ast.Attribute) and v.attr == 'mask' and M in flat(self.ev(f, v.value, st)):
                self.mask_store(f, t, v.value, st)
                self.fed(v.value, tag, st)
            elif isinstance(v, ast.Name):
                old = st.get(v.id, NONE)
                add = flat(tag) & {M}
                if isinstance(old, frozenset) and M in add and M not in old and PLAIN not in old and not of_mask(old):
                    st[v.id] = old | add     # a container
                elif isinstance(old, frozenset) and M in old and M in add:
                    st[v.id] = old | {FED}
                elif isinstance(old, frozenset) and PLAIN in old and of_mask(tag):
                    st[v.id] = old | frozenset(x for x in flat(tag) if isinstance(x, tuple) and x[0] == MASK)

    @staticmethod
    def fed(array, tag, st):
        if isinstance(array, ast.Name) and isinstance(st.get(array.id), frozenset) and of_mask(tag):
            st[array.id] = st[array.id] | {FED}

    def mask_store(self, f, t, array, st):
        tag, value = self.stored
        t0 = flat(self.ev(f, array, st))
        if FRESH not in t0 or STEP in flat(tag):
            self.check(STEP not in flat(tag), f, t, 'mask-of-every-step', 'the mask of a result is taken from one step')
        if value is not None and is_false(value):
            self.check(FRESH in t0, f, t, 'masks-are-not-cleared', 'the mask of %s is cleared' % ast.unparse(array)[:50])
        else:
            self.good(f, t, 'masks-are-not-cleared')

    def node(self, f, n, st):
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
            tag = self.ev(f, a.value, st)
            self.stored = (tag, a.value)
            for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                self.bind(f, t, tag, st)
        elif n.kind == 'stmt' and isinstance(a, ast.AugAssign):
            old = flat(self.ev(f, a.target, st)) if isinstance(a.target, ast.Name) else NONE
            new = flat(self.ev(f, a.value, st))
            if RAW in old or RAW in new:
                self.bad(f, a, 'masked-values-do-not-take-part', 'computes with the data below a mask')
            self.stored = (new, None)
            if isinstance(a.target, ast.Name):
                st[a.target.id] = old | new
        elif n.kind == 'for':
            pass
        elif n.kind == 'return':
            self.ret(f, self.ev(f, a.value, st))
        elif n.kind == 'with_enter':
            t = self.ev(f, n.extra.context_expr, st)
            if n.extra.optional_vars is not None:
                self.bind(f, n.extra.optional_vars, t, st)
        else:
            for e in node_exprs(n):
                if isinstance(e, ast.expr):
                    self.ev(f, e, st)
                elif isinstance(e, (ast.Expr, ast.Delete, ast.Raise)):
                    for x in ast.iter_child_nodes(e):
                        if isinstance(x, ast.expr):
                            self.ev(f, x, st)

    def refine(self, f, n, label, st):
        """What the branch of a test tells about an array: that it is not masked."""
        out = st
        for e, truth in conjuncts(n.extra, label == 't'):
            name = None
            if isinstance(e, ast.Call):
                d = dotted(e.func) or ''
                nn = self.np_name(f, e.func) or ''
                if not truth and (nn in ('ma.is_masked', 'ma.isMaskedArray', 'ma.isMA')) and e.args and isinstance(e.args[0], ast.Name):
                    name = e.args[0].id
                elif not truth and d == 'isinstance' and len(e.args) == 2 and isinstance(e.args[0], ast.Name) and \
                        'MaskedArray' in ast.unparse(e.args[1]):
                    name = e.args[0].id
                elif not truth and isinstance(e.func, ast.Attribute) and e.func.attr == 'any' and not e.args:
                    ms = of_mask(self.quiet(f, e.func.value, st))
                    name = list(ms)[0] if len(ms) == 1 else None
            if name and name in out and data(out[name]):
                out = dict(out)
                out[name] = flat(out[name]) - {M, RAW} | {CLEAN}
        return out

    def quiet(self, f, e, st):
        r, self.report = self.report, None
        try:
            return self.ev(f, e, dict(st))
        finally:
            self.report = r

    def function(self, f):
        g = cfg_of(f)
        st0 = {q: self.seed(f, q) for q in f.params}
        at = {g.entry.id: st0}
        by_id = {n.id: n for n in g.nodes}
        work = [g.entry.id]
        runs = 0
        while work and runs < 4000:
            runs += 1
            n = by_id[work.pop()]
            st = dict(at[n.id])
            itert = None
            if n.kind == 'iter':
                itert = self.ev(f, n.extra, st)
                st[('iter', id(n.ast))] = itert
            else:
                self.node(f, n, st)
            for s, label in n.succ:
                nst = st
                if n.kind == 'for' and label == 't':
                    nst = dict(st)
                    self.bind(f, n.ast.target, self.element(st.get(('iter', id(n.ast)), NONE)), nst)
                elif n.kind == 'test' and label in ('t', 'f'):
                    nst = self.refine(f, n, label, st)
                if s.id not in at:
                    at[s.id] = dict(nst)
                    work.append(s.id)
                else:
                    cur, ch = at[s.id], False
                    for k, v in nst.items():
                        j = join(cur[k], v) if k in cur else v
                        if j != cur.get(k):
                            cur[k] = j
                            ch = True
                    if ch:
                        work.append(s.id)
        return g, at

    def seed(self, f, q):
        t = self.inputs.get(f.qual, {}).get(q, NONE)
        if f.cls is not None and (f.name in INPUTS and q in INPUTS[f.name] or f.name == 'calculate' and q in self.required(f.cls)):
            t = t | {M}
        return t

    def required(self, c):
        for k in self.prog.mro(c):
            v = getattr(k, 'attrs', {}).get('required_variables')
            if isinstance(v, (ast.List, ast.Tuple)):
                return {x.value for x in v.elts if isinstance(x, ast.Constant)}
        return ()


def conjuncts(e, truth):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        for x in conjuncts(e.operand, not truth):
            yield x
    elif isinstance(e, ast.BoolOp) and isinstance(e.op, ast.And) and truth or \
            isinstance(e, ast.BoolOp) and isinstance(e.op, ast.Or) and not truth:
        for v in e.values:
            for x in conjuncts(v, truth):
                yield x
    else:
        yield e, truth


def companions(prog, res, an, f, g, at):
    """Data stored into an array is followed by its mask."""
    rule = 'mask-goes-with-data'
    data_nodes, mask_nodes = {}, {}
    up = None
    for n in g.nodes:
        a = n.ast
        if n.id not in at:
            continue
        if n.kind == 'stmt' and isinstance(a, ast.Assign):
            for t in a.targets:
                if isinstance(t, ast.Subscript):
                    v = t.value
                    x = base_of(v)
                    if x is None:
                        continue
                    if isinstance(v, ast.Attribute) and v.attr == 'data' or \
                            isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in RAW_GETTERS:
                        tag = flat(an.quiet(f, a.value, at[n.id]))
                        if tag & {M, RAW, NAN}:
                            data_nodes.setdefault(n.id, set()).add(x)
                    elif isinstance(v, ast.Name) and PLAIN in flat(at[n.id].get(v.id, NONE)) and \
                            M in flat(an.quiet(f, a.value, at[n.id])):
                        data_nodes.setdefault(n.id, set()).add(x)
                    elif isinstance(v, ast.Attribute) and v.attr == 'mask':
                        mask_nodes.setdefault(n.id, set()).add(x)
                elif isinstance(t, ast.Attribute) and t.attr == 'mask' and base_of(t):
                    mask_nodes.setdefault(n.id, set()).add(base_of(t))
        for e in node_exprs(n):
            for c in ast.walk(e):
                if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute):
                    if c.func.attr == 'set_mask' and base_of(c.func) and not (c.args and is_none(c.args[0])):
                        mask_nodes.setdefault(n.id, set()).add(base_of(c.func))
                    elif c.func.attr in ('array', 'masked_array') and c.args and isinstance(c.args[0], ast.Name) and \
                            (len(c.args) > 1 or any(k.arg == 'mask' for k in c.keywords)):
                        mask_nodes.setdefault(n.id, set()).add(c.args[0].id)
    if not data_nodes:
        return
    same_source(res, an, f, g, at)
    # a test that asks whether anything is masked stands for the branch that sets the mask
    up = parents(f)
    for n in g.nodes:
        if n.kind == 'test' and isinstance(n.ast, ast.If) and asks_any(n.extra):
            for m in list(mask_nodes):
                x = by(g, m).ast
                while x is not None and x is not n.ast:
                    x = up.get(x)
                if x is n.ast:
                    mask_nodes.setdefault(n.id, set()).update(mask_nodes[m])

    def transfer(n, label, p, facts):
        if label == 'exc':
            return [frozenset()]
        p = p - {(x, i) for x, i in p if x in mask_nodes.get(n.id, ())}
        if n.id in data_nodes:
            p = p | {(x, n.id) for x in data_nodes[n.id]}
        return [p]
    _, reached, _ = explore_safe(f, frozenset(), transfer)
    late = set()
    for fs, p in reached.get(g.exit.id, ()):
        late |= p
    for i, xs in data_nodes.items():
        for x in xs:
            ok = (x, i) not in late
            if not ok:
                # the mask may have been stored just before
                ok = before(g, i, x, mask_nodes, up)
            res.check(ok, rule, '%s %s' % (f.qual, x), f.loc(by(g, i).ast),
                      'data computed from masked values is stored in %s without its mask' % x)


def source(f, an, e):
    """Name of the masked array whose data e is."""
    if isinstance(e, ast.Attribute) and e.attr in ('data', '_data'):
        return e.value
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and (
            e.func.attr == 'filled' and not an.np_name(f, e.func)):
        return e.func.value
    if isinstance(e, ast.Call) and an.np_name(f, e.func) in ('ma.getdata', 'ma.filled') and e.args:
        return e.args[0]
    return None


def same_source(res, an, f, g, at):
    """An array that gets the data of a masked array gets the mask of the same one."""
    alias = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            alias.setdefault(n.targets[0].id, []).append(n.value)

    def root(x, depth=0):
        vs = alias.get(x, ())
        if len(vs) == 1 and isinstance(vs[0], ast.Name) and depth < 5:
            return root(vs[0].id, depth + 1)
        return x
    datas, masks = {}, {}
    for n in g.nodes:
        a = n.ast
        if n.id not in at or n.kind != 'stmt' or not isinstance(a, ast.Assign):
            continue
        for t in a.targets:
            v = t.value if isinstance(t, ast.Subscript) else t
            if not isinstance(v, ast.Attribute) or v.attr not in ('data', 'mask') or not isinstance(v.value, ast.Name):
                continue
            if v.attr == 'data' and isinstance(t, ast.Subscript):
                s = source(f, an, a.value)
                if isinstance(s, ast.Name):
                    datas.setdefault((v.value.id, ast.dump(t.slice)), set()).add(root(s.id))
            elif v.attr == 'mask':
                ms = {root(m) for m in of_mask(an.quiet(f, a.value, at[n.id]))}
                k = (v.value.id, ast.dump(t.slice) if isinstance(t, ast.Subscript) else '')
                masks.setdefault(k, []).append((ms, a))
    for k, ss in sorted(datas.items()):
        for ms, a in masks.get(k, ()):
            res.check(not ms or '?' in ms or bool(ms & ss), 'mask-goes-with-data', '%s %s from %s' % (f.qual, k[0], sorted(ss)[0]),
                      f.loc(a), 'the mask stored in %s is not the mask of the data stored there' % k[0])


def before(g, i, x, mask_nodes, up):
    a = by(g, i).ast
    p = up.get(a)
    for b in (getattr(p, k, None) for k in ('body', 'orelse', 'finalbody')):
        if isinstance(b, list) and a in b:
            return any(by(g, m).ast in b[:b.index(a)] for m, xs in mask_nodes.items() if x in xs)
    return False


def by(g, i):
    m = g.__dict__.setdefault('_by', {n.id: n for n in g.nodes})
    return m[i]


def asks_any(e):
    return any(isinstance(c, ast.Call) and (isinstance(c.func, ast.Attribute) and c.func.attr in ('any', 'is_masked') or
                                            isinstance(c.func, ast.Name) and c.func.id in ('any', 'len')) for c in ast.walk(e))


def run(prog, res):
    fixture = getattr(prog, 'fixture', False)
    blind, goes, every, clear = ('masked-values-do-not-take-part', 'mask-goes-with-data', 'mask-of-every-step', 'masks-are-not-cleared')
    res.rule(blind, 'A masked array is only given to operations that respect masks; the data below a mask is not computed with.')
    res.rule(goes, 'Data computed from masked values that is stored in an array is followed by its mask on every path.')
    res.rule(every, 'The mask of a result is not the mask of one step of its input.')
    res.rule(clear, 'The mask of an array that came from an input is not cleared.')
    res.rule('results-are-masked', 'What a calculation returns has a mask that comes from the values; sample sizes count unmasked values.')
    res.rule('inputs-are-masked', 'What calculations get and functions enabled in expressions respect masks.')
    an = Masks(prog, res)
    scope = [f for f in prog.funcs.values() if an.in_scope(f)]
    seen = set()
    for _ in range(8):
        an.changed = False
        todo = scope + [prog.funcs[q] for q in list(an.inputs) if q in prog.funcs and not an.in_scope(prog.funcs[q]) and
                        an.inputs[q] and worth(prog.funcs[q])]
        for f in todo:
            an.function(f)
            seen.add(f.qual)
        if not an.changed:
            break
    an.report = {}
    graphs = []
    for q in sorted(seen):
        f = prog.funcs[q]
        graphs.append((f,) + an.function(f))
    funcs = {}
    for (q, line, col, rule), v in sorted(an.report.items(), key=lambda x: x[0]):
        f = prog.funcs[q]
        funcs.setdefault(rule, 0)
        node = v[1] if v else None
        if v:
            res.bad(rule, '%s %s' % (q, ast.unparse(node)[:60].replace('|', '/')), f.loc(node), v[2])
        else:
            res.ok(rule, '%s at %d' % (q, line), '%s:%d' % (f.loc().rsplit(':', 1)[0], line))
    an.report = None
    for f, g, at in graphs:
        if an.in_scope(f):
            companions(prog, res, an, f, g, at)
    for (q, line, col), (f, e) in sorted(an.reads.items(), key=lambda x: x[0]):
        if f.module.name.startswith(SCOPE) or fixture:
            res.bad('inputs-are-masked', '%s %s' % (q, ast.unparse(e)[:60]), f.loc(e), 'reads values without their mask')
    results(prog, res, an, scope)
    given(prog, res, an)
    if not fixture:
        res.floor(blind, 30)
        res.floor(goes, 4)
        res.floor(every, 3)
        res.floor('results-are-masked', 15)
        res.count('functions', len(seen))


def results(prog, res, an, scope):
    rule = 'results-are-masked'
    for f in scope:
        if f.cls is None or f.name not in ('calculate', 'aggregate_spatial', 'aggregate_temporal', 'get_sample_size'):
            continue
        t = flat(an.returns.get(f.qual, NONE))
        if M in t:
            res.check(NOMASK not in t or FED in t, rule, '%s mask' % f.qual, f.loc(),
                      'returns a masked array without the mask of what it was computed from')
        if f.name == 'get_sample_size' and t:
            res.check(COUNT in t, rule, '%s count' % f.qual, f.loc(), 'the sample size is not counted with the mask of the values')


def worth(f):
    return f.module.name.startswith(('ocgis.util', 'ocgis.calc', 'ocgis.variable.geom'))


def given(prog, res, an):
    rule = 'inputs-are-masked'
    for f in prog.funcs.values():
        if f.name == 'get_variable_value' and f.module.name.startswith('ocgis.calc') or f.name == 'get_masked_value':
            t = an.returns.get(f.qual)
            if t is None:
                g, at = an.function(f)
                t = an.returns.get(f.qual, NONE)
            res.check(M in flat(t) and RAW not in flat(t) and NOMASK not in flat(t), rule, f.qual, f.loc(), 'does not return a masked array')
    for m in prog.modules.values():
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == 'ENABLED_NUMPY_UFUNCS' for t in n.targets):
                for x in ast.walk(n.value):
                    if isinstance(x, ast.Constant) and isinstance(x.value, str):
                        res.check(x.value in UFUNCS, rule, 'expression function %s' % x.value, m.loc(n),
                                  'np.%s does not respect masks' % x.value)
