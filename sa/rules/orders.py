"""P14: results do not depend on hash seeds, directory listings, clocks, random numbers, memory contents or message arrival."""
import ast

from ..cfg import cfg_of, node_exprs
from ..common import closure
from ..program import FUNC, ClassInfo, FuncInfo, dotted, own_nodes
from .iterations import stored
from .options import parents

ORDER, PICK, VALUE, UNSET, SOURCE = ('unspecified-order-is-not-kept', 'no-arbitrary-element-is-picked', 'no-clock-or-random-values',
                                     'allocated-memory-is-written', 'messages-name-their-source')
SKIP = ('ocgis.util.enum', 'ocgis.contrib', 'ocgis.util.addict', 'ocgis.util.benchmark', 'ocgis.util.justify')
U, T, D, N = 'set', 'sequence', 'dict', 'contains'
SETS = {'set', 'frozenset'}
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference', 'copy'}
LISTING = {'listdir', 'glob', 'iglob', 'scandir', 'iterdir', 'rglob'}
KEEPS = {'list', 'tuple', 'enumerate', 'zip', 'map', 'filter', 'reversed', 'iter', 'chain', 'array', 'asarray', 'deepcopy', 'copy',
         'deque', 'get_iter', 'izip', 'OrderedDict', 'dict', 'atleast_1d', 'product'}
FREE = {'sorted', 'len', 'set', 'frozenset', 'any', 'all', 'min', 'max', 'sum', 'isinstance', 'bool', 'str', 'repr', 'type', 'unique', 'sort',
        'Counter', 'hasattr', 'id', 'callable', 'print', 'in1d', 'isin'}
MESSAGES = {'ocgis_lh', 'warn', 'debug', 'info', 'error', 'warning', 'format'}
GROWS = {'append', 'extend', 'insert', 'appendleft', 'add_variable', 'add_dimension', 'add_field', 'add_variables', 'add_dimensions', 'write',
         'writerow', 'writerows', 'createVariable', 'createDimension', 'setncattr', 'send', 'Send', 'isend', 'recv', 'add_child', 'writestr',
         'append_to_tags', 'set_variable'}
COLLECTIVE = {'gather', 'bcast', 'scatter', 'reduce', 'barrier', 'Barrier', 'Bcast', 'Gather', 'Scatter', 'allgather', 'allreduce', 'alltoall'}
CLOCK = {'datetime.datetime.now', 'datetime.datetime.utcnow', 'datetime.datetime.today', 'datetime.date.today', 'time.time',
         'time.clock', 'time.localtime', 'time.gmtime', 'time.perf_counter', 'time.monotonic', 'uuid.uuid1', 'uuid.uuid4', 'os.getpid',
         'os.urandom', 'os.times', 'time.ctime', 'time.asctime'}
EMPTY = {'empty', 'empty_like', 'ndarray'}

# What is kept in the order it comes, and why that does not matter.
EXEMPT = {
    VALUE: {
        'ocgis.conv.meta:MetaOCGISConverter.get_rows': (1, 'time stamp in the metadata file'),
        'ocgis.conv.nc:NcConverter._write_archetype_': (1, 'time stamp in the history attribute'),
        'ocgis.ocli:create_history_string': (1, 'time stamp in the history attribute'),
        'ocgis.spatial.base:iter_spatial_decomposition': (2, 'debugging output'),
        'ocgis.util.logging_ocgis:OcgisLogging.configure': (1, 'time stamps in the log'),
    },
}


def worse(a, b):
    for k in (T, D, U, N):
        if k in (a, b):
            return k
    return a or b


def last(e):
    return e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else None


def inner(t):
    while isinstance(t, ast.Subscript) and isinstance(t.value, ast.Subscript):
        t = t.value
    return t if isinstance(t.value, ast.Name) else None


class Kinds(object):
    """Which expressions are sets, or sequences and dictionaries made from sets and listings."""

    def __init__(self, prog):
        self.prog = prog
        self.ret, self.attr = {}, {}
        self.funcs = [f for f in sorted(prog.funcs.values(), key=lambda x: x.qual) if not f.module.name.startswith(SKIP)]
        self.contexts = {(f.qual, frozenset()): f for f in self.funcs}
        self.par = {}
        for i in range(6):
            before = (dict(self.ret), dict(self.attr), len(self.contexts))
            for key, f in sorted(self.contexts.items(), key=lambda x: (x[0][0], sorted(x[0][1]))):
                self.enter(key)
                self.summarise(f)
            if before == (self.ret, self.attr, len(self.contexts)):
                break

    def enter(self, key):
        self.key, self.par = key, dict(key[1])

    def context(self, f, t, c, env):
        """The kinds of the arguments a call passes."""
        out = {}
        for p, e in self.prog.map_args(t, c, None).items():
            if p not in ('*', '**', '*rest') and isinstance(e, ast.AST):
                k = self.kind(f, e, env)
                if k:
                    out[p] = k
        return (t.qual, frozenset(out.items()))

    def owner(self, f, e):
        """Class that defines the attribute e reads."""
        if isinstance(e.value, ast.Name) and e.value.id == f.selfname:
            return f.cls
        try:
            t = self.prog.infer(f, e.value)
        except RecursionError:
            return None
        for x in (t if isinstance(t, (set, list, tuple)) else [t]):
            if isinstance(x, ClassInfo):
                return x
        return None

    def attr_kind(self, f, e):
        c = self.owner(f, e)
        if c is None:
            return None
        for k in self.prog.mro(c):
            if (k.qual, e.attr) in self.attr:
                return self.attr[(k.qual, e.attr)]
        return None

    def elements(self, f, e):
        """Kind of what an attribute contains."""
        if not isinstance(e, ast.Attribute):
            return None
        c = self.owner(f, e)
        if c is not None:
            for k in self.prog.mro(c):
                if (k.qual, e.attr + '[]') in self.attr:
                    return self.attr[(k.qual, e.attr + '[]')]
        return None

    def kind(self, f, e, env):
        if e is None or not isinstance(e, ast.AST):
            return None
        if isinstance(e, ast.Name):
            return env.get(e.id)
        if isinstance(e, (ast.Set, ast.SetComp)):
            if isinstance(e, ast.Set) and len(e.elts) < 2 and not any(isinstance(x, ast.Starred) for x in e.elts):
                return None
            return U
        if isinstance(e, ast.Starred):
            return self.kind(f, e.value, env)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            k, inner = None, dict(env)
            for g in e.generators:
                k = worse(k, self.kind(f, g.iter, inner) or None)
                self.bind_target(f, g.target, g.iter, inner)
            return None if k is None else D if isinstance(e, ast.DictComp) else T
        if isinstance(e, (ast.List, ast.Tuple)):
            ks = [self.kind(f, x.value, env) for x in e.elts if isinstance(x, ast.Starred)]
            if any(ks):
                return T
            return N if any(self.kind(f, x, env) in (T, D, N) for x in e.elts if isinstance(x, (ast.Name, ast.Call, ast.Attribute))) else None
        if isinstance(e, ast.IfExp):
            return worse(self.kind(f, e.body, env), self.kind(f, e.orelse, env))
        if isinstance(e, ast.BoolOp):
            k = None
            for x in e.values:
                k = worse(k, self.kind(f, x, env))
            return k
        if isinstance(e, ast.BinOp):
            a, b = self.kind(f, e.left, env), self.kind(f, e.right, env)
            if isinstance(e.op, (ast.Sub, ast.BitAnd, ast.BitXor)):
                return U if U in (a, b) else None
            if isinstance(e.op, ast.Mod) and isinstance(e.left, ast.Constant):
                return None
            return worse(a, b)
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Slice):
                return self.kind(f, e.value, env)
            return self.elements(f, e.value)
        if isinstance(e, ast.Attribute):
            return self.attr_kind(f, e)
        if isinstance(e, ast.NamedExpr):
            return self.kind(f, e.value, env)
        if isinstance(e, ast.Call):
            return self.call_kind(f, e, env)
        return None

    def call_kind(self, f, e, env):
        nm = last(e.func)
        args = [self.kind(f, a, env) for a in e.args]
        if isinstance(e.func, ast.Name):
            if nm in SETS:
                return U if e.args and not self.small(e.args[0]) or not e.args else None
            if nm in FREE:
                return T if nm == 'sorted' and any(k.arg == 'key' for k in e.keywords) and args and args[0] in (U, T) else None
            if nm in KEEPS:
                return T if any(args) else None
        if isinstance(e.func, ast.Attribute) and nm in ('get', 'pop', 'setdefault') and e.args:
            k = self.elements(f, e.func.value)
            if k:
                return k
        full = dotted(e.func) or ''
        if full in ('os.walk', 'os.listdir', 'os.scandir') or nm in LISTING and full.split('.')[0] in ('glob', 'os', 'pathlib', 'Path'):
            return T
        if isinstance(e.func, ast.Attribute):
            base = self.kind(f, e.func.value, env)
            if base == U:
                return U if nm in SETOPS else None
            if base == D and nm in ('keys', 'values', 'items', 'copy'):
                return D if nm == 'copy' else T
            if base == T and nm in ('copy', 'tolist', 'flatten'):
                return T
            if nm == 'join' and any(args):
                return T
            if nm in KEEPS and any(args) and full.split('.')[0] in ('np', 'numpy', 'itertools', 'copy', 'collections'):
                return T
            if nm in ('union', 'intersection', 'difference', 'symmetric_difference') and U in args:
                return U
        k = None
        ts = self.targets(f, e)
        for t in ts:
            k = worse(k, self.ret.get(self.context(f, t, e, env) if any(args) or e.keywords else (t.qual, frozenset())))
        if not ts and nm == 'deepcopy' and args:
            return args[0]
        return k

    @staticmethod
    def small(a):
        return isinstance(a, (ast.List, ast.Tuple)) and len(a.elts) < 2

    def targets(self, f, c):
        try:
            ts = [t for t in self.prog.resolve_call(f, c)]
        except RecursionError:
            return []
        out = []
        for t in ts:
            if isinstance(t, FuncInfo):
                out.append(t)
            elif isinstance(t, ClassInfo):
                i = self.prog.find_method(t, '__init__')
                if i is not None:
                    out.append(i)
        return out if len(out) <= 6 else []

    def bind_target(self, f, tgt, it, env):
        for x in stored(tgt):
            env.pop(x, None)
        w = [c for c in ast.walk(it) if isinstance(c, ast.Call) and dotted(c.func) == 'os.walk']
        if w and isinstance(tgt, ast.Tuple) and len(tgt.elts) == 3:
            for x in tgt.elts[1:]:
                if isinstance(x, ast.Name):
                    env[x.id] = T

    def transfer(self, f, n, env, loops):
        """Kinds after a node."""
        a = n.ast
        env = dict(env)
        if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AnnAssign)) and a.value is not None:
            k = self.kind(f, a.value, env)
            for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                if isinstance(t, ast.Name):
                    env[t.id] = k
                    if k is None:
                        env.pop(t.id)
                elif isinstance(t, ast.Subscript) and isinstance(t.slice, ast.Slice) and isinstance(t.value, ast.Name):
                    if k is None:
                        env.pop(t.value.id, None)
                    else:
                        env[t.value.id] = k
                elif isinstance(t, ast.Subscript) and inner(t) is not None:
                    t = inner(t)
                    how = self.grown(f, a, loops, t.value.id)
                    if how:
                        counters = {x for lp in how for x in self.counters(lp)}
                        env[t.value.id] = worse(env.get(t.value.id), T if counters & {x.id for x in ast.walk(t.slice) if isinstance(
                            x, ast.Name)} else D)
                else:
                    for x in stored(t):
                        env.pop(x, None)
        elif n.kind == 'stmt' and isinstance(a, ast.AugAssign) and isinstance(a.target, ast.Name):
            k = worse(env.get(a.target.id), self.kind(f, a.value, env))
            if k is None and isinstance(a.op, ast.Add) and self.grown(f, a, loops, a.target.id) and self.sequence(f, a):
                k = T
            if k:
                env[a.target.id] = k
        elif n.kind == 'for':
            self.bind_target(f, a.target, a.iter, env)
        elif n.kind == 'stmt' and isinstance(a, ast.Expr) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute):
            c = a.value
            if isinstance(c.func.value, ast.Name):
                x = c.func.value.id
                if c.func.attr == 'sort':
                    if not any(k.arg == 'key' for k in c.keywords):
                        env.pop(x, None)
                elif c.func.attr in ('append', 'extend', 'insert', 'appendleft'):
                    k = self.kind(f, c.args[0], env) if c.func.attr == 'extend' and c.args else None
                    if k or self.grown(f, a, loops, x):
                        env[x] = T
                elif c.func.attr == 'update' and c.args and env.get(x) != U:
                    k = self.kind(f, c.args[0], env)
                    if k:
                        env[x] = D
        return env

    @staticmethod
    def sequence(f, a):
        """Does an augmented assignment add to a sequence or a text?"""
        return isinstance(a.value, (ast.List, ast.Tuple, ast.JoinedStr)) or isinstance(a.value, ast.Constant) and isinstance(
            a.value.value, str) or isinstance(a.value, ast.BinOp) and any(isinstance(x, (ast.List, ast.JoinedStr)) or isinstance(
                x, ast.Constant) and isinstance(x.value, str) for x in ast.walk(a.value))

    @staticmethod
    def counters(lp):
        it = lp.iter
        if isinstance(it, ast.Call) and last(it.func) == 'enumerate' and isinstance(lp.target, ast.Tuple):
            return stored(lp.target.elts[0])
        out = set()
        for s in lp.body:
            for x in ast.walk(s):
                if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and isinstance(x.op, (ast.Add, ast.Sub)):
                    out.add(x.target.id)
        return out

    @staticmethod
    def grown(f, stmt, loops, name):
        """Unordered loops around a statement that do not bind the name themselves."""
        out = []
        for lp, ids in loops:
            if id(stmt) in ids and not any(isinstance(x, (ast.Assign, ast.For)) and name in set().union(*[stored(t) for t in (
                    x.targets if isinstance(x, ast.Assign) else [x.target])]) for s in lp.body for x in ast.walk(s)):
                out.append(lp)
        return out

    def envs(self, f):
        g = cfg_of(f)
        loops = []
        for rounds in range(3):
            ins = {g.entry.id: dict(self.par)}
            work = [g.entry]
            while work:
                n = work.pop()
                out = self.transfer(f, n, ins[n.id], loops)
                for s, l in n.succ:
                    src = ins[n.id] if l == 'exc' else out
                    cur = ins.get(s.id)
                    new = dict(src) if cur is None else {k: worse(cur.get(k), src.get(k)) for k in set(cur) | set(src)}
                    if new != cur:
                        ins[s.id] = new
                        work.append(s)
            now = []
            for n in g.nodes:
                if n.kind == 'iter' and n.id in ins and self.unordered(f, n.ast, ins[n.id]):
                    now.append((n.ast, {id(x) for s in n.ast.body for x in ast.walk(s)}))
            if [id(x[0]) for x in now] == [id(x[0]) for x in loops]:
                break
            loops = now
        return g, ins, loops

    def unordered(self, f, lp, env):
        k = self.kind(f, lp.iter, env)
        if k is None:
            return False
        it = lp.iter
        if isinstance(it, ast.Call) and dotted(it.func) == 'os.walk' and isinstance(lp.target, ast.Tuple) and len(lp.target.elts) == 3:
            d = last(lp.target.elts[1])
            for s in lp.body:
                for x in ast.walk(s):
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'sort' and last(x.func.value) == d:
                        return False
                    if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Subscript) and last(x.targets[0].value) == d and any(
                            isinstance(y, ast.Call) and last(y.func) == 'sorted' for y in ast.walk(x.value)):
                        return False
        return True

    def summarise(self, f):
        g, ins, loops = self.envs(f)
        for n in g.nodes:
            env = ins.get(n.id)
            if env is None:
                continue
            if n.kind == 'return' and n.ast.value is not None:
                k = self.kind(f, n.ast.value, env)
                if k:
                    self.ret[self.key] = worse(self.ret.get(self.key), k)
            for e in node_exprs(n):
                for x in ast.walk(e):
                    if isinstance(x, ast.Yield) and any(id(n.ast) in ids for lp, ids in loops):
                        self.ret[self.key] = T
                    if isinstance(x, ast.YieldFrom) and self.kind(f, x.value, env):
                        self.ret[self.key] = T
                    if isinstance(x, ast.Call):
                        self.flow_args(f, x, env)
            a = n.ast
            if n.kind == 'stmt' and isinstance(a, ast.Assign):
                k = self.kind(f, a.value, env)
                for t in a.targets:
                    name = None
                    if isinstance(t, ast.Attribute):
                        name = t.attr
                    elif isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute):
                        t = t.value
                        name = t.attr + '[]'
                    if name and k:
                        c = self.owner(f, t)
                        if c is not None:
                            self.attr[(c.qual, name)] = worse(self.attr.get((c.qual, name)), k)

    def flow_args(self, f, c, env):
        ks = [self.kind(f, a, env) for a in c.args] + [self.kind(f, k.value, env) for k in c.keywords]
        if not any(ks):
            return
        for t in self.targets(f, c):
            if not t.module.name.startswith(SKIP):
                self.contexts.setdefault(self.context(f, t, c, env), t)


def run(prog, res):
    fixture = getattr(prog, 'fixture', False)
    res.rule(ORDER, 'A sequence or dictionary made from a set or a directory listing is sorted before its order can be seen.')
    res.rule(PICK, 'No element of a set or a directory listing is picked because it comes first or last.')
    res.rule(VALUE, 'Clock, random numbers, addresses and process numbers reach nothing but time stamps, logs and scratch names.')
    res.rule(UNSET, 'Every array that is allocated without values is written as a whole before it is used.')
    res.rule(SOURCE, 'Every receive names the rank it waits for.')
    kinds = Kinds(prog)
    seen = {}

    def add(rule, f, node, msg, what):
        seen.setdefault((rule, f.qual), []).append((f, node, msg, what))
    unordered = 0
    for key, f in sorted(kinds.contexts.items(), key=lambda x: (x[0][0], sorted(x[0][1]))):
        kinds.enter(key)
        g, ins, loops = kinds.envs(f)
        unordered += order(prog, kinds, f, g, ins, loops, add, res)
        if key[1]:
            continue
        values(prog, f, add, res)
        unset(prog, f, g, add, res)
        messages(prog, f, add, res)
    for (rule, q), items in sorted(seen.items()):
        allowed = 0 if fixture else EXEMPT.get(rule, {}).get(q, (0, ''))[0]
        done = set()
        uniq = [x for x in items if not ((x[1].lineno, x[3]) in done or done.add((x[1].lineno, x[3])))]
        if len(uniq) <= allowed:
            for f, node, msg, what in uniq:
                res.ok(rule, q + ':' + what, f.loc(node), 'exempt: ' + EXEMPT[rule][q][1])
            continue
        for f, node, msg, what in uniq:
            res.bad(rule, q + ':' + what, f.loc(node), msg)
    res.count('unordered_collections', unordered)
    if not fixture:
        res.floor(ORDER, 60)
        res.floor(UNSET, 8)
        res.floor(SOURCE, 8)


def text(e):
    return ast.unparse(e)[:60]


def order(prog, kinds, f, g, ins, loops, add, res):
    par = parents(f)
    count = 0
    for lp, ids in loops:
        loop_effects(prog, kinds, f, lp, ids, loops, add, res)
    checked = set()
    for n in g.nodes:
        env = ins.get(n.id)
        if env is None:
            continue
        for e in node_exprs(n):
            scopes = inner_envs(kinds, f, e, env)
            for x in ast.walk(e):
                if not isinstance(x, ast.expr) or id(x) in checked or isinstance(getattr(x, 'ctx', None), (ast.Store, ast.Del)):
                    continue
                k = kinds.kind(f, x, scopes.get(id(x), env))
                if k is None:
                    if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('pop', 'popitem') and not x.args:
                        b = kinds.kind(f, x.func.value, env)
                        if b == U or b == T:
                            checked.add(id(x))
                            if not single(f, x, x.func.value, par):
                                add(PICK, f, x, '%s takes an element of %s, which has no order' % (text(x), text(x.func.value)), text(x))
                    continue
                checked.add(id(x))
                count += 1
                msg = consumed(prog, kinds, f, x, k, par, env)
                if msg and isinstance(par.get(x), ast.Return) and (kinds.key[1] or followed(prog, kinds, f)):
                    msg = None
                if msg:
                    add(PICK if msg[0] == PICK else ORDER, f, x, msg[1], text(x))
                else:
                    res.ok(ORDER, f.qual + ':' + text(x), f.loc(x))
    return count


def inner_envs(kinds, f, e, env):
    """Kinds of the names comprehensions bind."""
    out = {}
    for c in ast.walk(e):
        if isinstance(c, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = dict(out.get(id(c), env))
            for gen in c.generators:
                kinds.bind_target(f, gen.target, gen.iter, inner)
            first = {id(x) for x in ast.walk(c.generators[0].iter)}
            for x in ast.walk(c):
                if x is not c and id(x) not in first:
                    out[id(x)] = inner
    return out


def consumed(prog, kinds, f, x, k, par, env):
    """None, or what is wrong with the way an expression without order is used."""
    p = par.get(x)
    if p is None or isinstance(p, ast.Expr):
        return None
    if isinstance(p, (ast.comprehension,)):
        return None     # the comprehension is an expression itself
    if isinstance(p, ast.keyword):
        p = par.get(p)
    if isinstance(p, ast.Starred):
        up = par.get(p)
        if isinstance(up, ast.Call) and k == U:
            return ORDER, 'the elements of %s become arguments in no certain order' % text(x)
        return None
    if k == N and not isinstance(p, (ast.Return, ast.Yield)):
        return None
    if isinstance(p, ast.Call):
        if x is p.func:
            return None
        nm = last(p.func)
        if isinstance(p.func, ast.Name) and nm == 'next' or nm == 'next':
            return None if single(f, p, x, par) else (PICK, 'next() takes an element of %s, which has no order' % text(x))
        if nm in ('min', 'max') and any(y.arg == 'key' for y in p.keywords):
            return PICK, '%s takes an arbitrary one of the elements of %s that are alike' % (text(p), text(x))
        if isinstance(p.func, ast.Name) and (nm in FREE or nm in KEEPS or nm in SETS):
            return None
        if nm in MESSAGES or nm in FREE or nm in KEEPS or failing(prog, f, p, par):
            return None
        if isinstance(p.func, ast.Attribute) and (nm in SETOPS or nm in ('update', 'difference_update', 'intersection_update', 'issubset',
                                                                         'issuperset', 'isdisjoint', 'union', 'extend', 'join')):
            return None
        ts = kinds.targets(f, p)
        if ts:
            return None     # followed into the callee
        if k == U:
            return None
        if nm in ('append', 'add', 'insert', 'get', 'index', 'count', 'remove'):
            return None if nm in ('count', 'remove', 'get') else (ORDER, '%s is kept in no certain order by %s' % (text(x), text(p)))
        return ORDER, '%s is passed to %s in no certain order' % (text(x), text(p.func))
    if isinstance(p, ast.Subscript) and x is p.value:
        if k == D or isinstance(p.slice, ast.Slice) and full(p.slice) or isinstance(p.slice, ast.Constant) and isinstance(p.slice.value, str):
            return None
        q = p
        while isinstance(par.get(q), ast.Subscript) and par.get(q).value is q:
            q = par.get(q)
        if isinstance(q.ctx, (ast.Store, ast.Del)):
            return None
        if single(f, p, x, par):
            return None
        return PICK, '%s is an arbitrary element' % text(p)
    if isinstance(p, ast.Return):
        if k == U or f.name.startswith('_') and not f.name.startswith('__') or f.parent is not None:
            return None
        return ORDER, '%s is returned in no certain order' % text(x)
    if isinstance(p, (ast.Assign, ast.AnnAssign)):
        for t in (p.targets if isinstance(p, ast.Assign) else [p.target]):
            if isinstance(t, ast.Subscript) and k == T and not (isinstance(t.slice, ast.Slice)):
                return ORDER, '%s is stored in no certain order' % text(x)
            if isinstance(t, (ast.Tuple, ast.List)):
                return None if single(f, p, x, par) or isinstance(x, ast.Tuple) else (
                    PICK, '%s is unpacked, its elements have no order' % text(x))
        return None
    if isinstance(p, (ast.Yield,)):
        return (ORDER, '%s is handed out in no certain order' % text(x)) if k != U else None
    if isinstance(p, ast.Attribute) and k == T and p.attr in ('index', 'pop', 'popleft'):
        if p.attr == 'index' or not single(f, p, x, par):
            return PICK, '%s depends on an order that is not certain' % text(p)
    return None


def followed(prog, kinds, f):
    """Is what a function returns looked at where it is called?"""
    if f.cls is not None or f.parent is not None:
        return False
    if not hasattr(kinds, 'called'):
        kinds.called = {t.qual for g in kinds.funcs for c in prog.calls(g) for t in kinds.targets(g, c)}
    return f.qual in kinds.called


def full(s):
    return s.lower is None and s.upper is None


def failing(prog, f, c, par):
    """Is the call an argument of a raise, or the making of an exception?"""
    x = c
    while x is not None and not isinstance(x, ast.stmt):
        if isinstance(x, ast.Call) and last(x.func) in MESSAGES:
            return True
        nm = last(x.func) if isinstance(x, ast.Call) else None
        if nm and (nm.endswith(('Error', 'Exception', 'Warning')) or prog.is_subclass(prog.cls_named(nm), 'Exception') if prog.by_class_name.get(
                nm) else nm.endswith(('Error', 'Exception', 'Warning'))):
            return True
        x = par.get(x)
    return isinstance(x, (ast.Raise, ast.Assert))


def single(f, node, coll, par):
    """Is the collection known to have one element where node is evaluated?"""
    names = {ast.unparse(coll)}
    c = coll
    while isinstance(c, ast.Call) and c.args and last(c.func) in ('list', 'tuple', 'iter', 'set', 'sorted'):
        c = c.args[0]
        names.add(ast.unparse(c))
    if isinstance(c, ast.Name):
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and n.targets[0].id == c.id:
                v = n.value
                while isinstance(v, ast.Call) and v.args and last(v.func) in ('list', 'tuple', 'set', 'sorted'):
                    v = v.args[0]
                    names.add(ast.unparse(v))

    def says(test, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return says(test.operand, not truth)
        if isinstance(test, ast.BoolOp):
            return any(says(v, truth) for v in test.values) if isinstance(test.op, ast.And) == truth else False
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Call) and last(test.left.func) == 'len':
            if ast.unparse(test.left.args[0]) in names and isinstance(test.comparators[0], ast.Constant):
                op, v = type(test.ops[0]), test.comparators[0].value
                return (op, v) in (((ast.Eq, 1), (ast.Lt, 2), (ast.LtE, 1)) if truth else ((ast.NotEq, 1), (ast.Gt, 1), (ast.GtE, 2)))
        return False
    x = node
    while x is not None and not isinstance(x, FUNC):
        p = par.get(x)
        if isinstance(p, ast.If) and x is not p.test:
            if says(p.test, any(x is s for s in p.body)):
                return True
        if isinstance(p, ast.IfExp) and x is not p.test:
            if says(p.test, x is p.body):
                return True
        for b in ('body', 'orelse', 'finalbody'):
            blk = getattr(p, b, None) if not isinstance(p, ast.IfExp) else None
            if isinstance(blk, list) and any(x is s for s in blk):
                for s in blk:
                    if s is x:
                        break
                    if isinstance(s, ast.Assert) and says(s.test, True):
                        return True
                    if isinstance(s, ast.If) and says(s.test, False) and leaves(s.body):
                        return True
        if p is None:
            blk = f.node.body
            for s in blk:
                if s is x:
                    break
                if isinstance(s, ast.Assert) and says(s.test, True) or isinstance(s, ast.If) and says(s.test, False) and leaves(s.body):
                    return True
        x = p
    return False


def leaves(body):
    s = body[-1]
    return isinstance(s, (ast.Raise, ast.Return, ast.Continue, ast.Break)) or isinstance(s, ast.Expr) and isinstance(
        s.value, ast.Call) and last(s.value.func) == 'ocgis_lh' and any(k.arg == 'exc' for k in s.value.keywords)


def loop_effects(prog, kinds, f, lp, ids, loops, add, res):
    """What an iteration over a set may not do."""
    name = text(lp.iter)
    bound = stored(lp.target)
    for s in lp.body:
        for x in ast.walk(s):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                bound.add(x.id)
    dep = set(stored(lp.target))
    for _ in range(3):
        for s in lp.body:
            for x in ast.walk(s):
                if isinstance(x, (ast.Assign, ast.AugAssign, ast.For)):
                    v = x.iter if isinstance(x, ast.For) else x.value
                    if {y.id for y in ast.walk(v) if isinstance(y, ast.Name)} & dep:
                        for t in (x.targets if isinstance(x, ast.Assign) else [x.target]):
                            dep |= stored(t)
    bad = 0
    for s in lp.body:
        for x in ast.walk(s):
            if isinstance(x, FUNC + (ast.Lambda,)):
                continue
            if isinstance(x, ast.Return) and x.value is not None and {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)} & dep:
                add(PICK, f, x, 'the first element of %s that qualifies is returned, and there is no order' % name, 'return ' + text(x.value))
                bad += 1
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
                b = root(x.func.value)
                if x.func.attr in GROWS and not (isinstance(x.func.value, ast.Name) and x.func.attr in (
                        'append', 'extend', 'insert', 'appendleft')) and b not in bound:
                    add(ORDER, f, x, '%s is called for the elements of %s in no certain order' % (text(x.func), name), text(x.func))
                    bad += 1
                if x.func.attr in COLLECTIVE and (last(x.func.value) or '') in ('vm', 'comm', 'COMM_WORLD'):
                    add(ORDER, f, x, 'ranks iterate %s in different orders around the collective call %s' % (name, text(x.func)), text(x.func))
                    bad += 1
            if isinstance(x, ast.Call):
                for t in kinds.targets(f, x):
                    if closure(prog, t, talks, 4):
                        add(ORDER, f, x, 'ranks iterate %s in different orders around %s, which communicates' % (name, text(x.func)),
                            text(x.func))
                        bad += 1
                        break
            if isinstance(x, ast.Assign):
                for t in x.targets:
                    if isinstance(t, ast.Attribute) and root(t) not in bound and {y.id for y in ast.walk(x.value) if isinstance(
                            y, ast.Name)} & dep:
                        add(PICK, f, x, '%s is set for every element of %s, in no certain order' % (text(t), name), text(t))
                        bad += 1
    # locals that keep the value of one iteration
    flat = {id(x): x for s in lp.body for x in ast.walk(s)}
    g = cfg_of(f)
    head = [n for n in g.nodes if n.kind == 'for' and n.ast is lp]
    inside = {n.id for n in g.nodes if n.ast is not None and id(n.ast) in ids}
    for x in sorted(bound):
        asg = [a for a in flat.values() if isinstance(a, ast.Assign) and x in set().union(*[stored(t) for t in a.targets])]
        isel = x in stored(lp.target)
        if not isel and not any({y.id for y in ast.walk(a.value) if isinstance(y, ast.Name)} & dep for a in asg):
            continue
        if not isel and all(running(a, x) for a in asg):
            continue
        starts = [s for n in g.nodes if n.id in inside or n in head for s, l in n.succ if s.id not in inside and s not in head and l != 'exc']
        u = used_after(g, starts, x)
        if u is not None and u.ast is not lp:
            add(PICK, f, u.ast if u.ast is not None and hasattr(u.ast, 'lineno') else lp,
                '%s is that of one element of %s, and there is no order' % (x, name), x)
            bad += 1
    if not bad:
        res.ok(ORDER, f.qual + ':for ' + name, f.loc(lp))


def running(a, x):
    v = a.value
    return isinstance(v, ast.Call) and last(v.func) in ('max', 'min', 'maximum', 'minimum') and any(
        isinstance(y, ast.Name) and y.id == x for y in ast.walk(v)) or isinstance(v, ast.BinOp) and isinstance(
            v.op, (ast.Add, ast.Mult, ast.BitOr, ast.BitAnd)) and any(isinstance(y, ast.Name) and y.id == x for y in ast.walk(v))


def used_after(g, starts, x):
    st, seen = list(starts), set()
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        rd = {y.id for e in node_exprs(n) for y in ast.walk(e) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}
        wr = {y.id for e in node_exprs(n) for y in ast.walk(e) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store)}
        if x in rd:
            return n
        if x not in wr:
            st += [s for s, l in n.succ]
    return None


def root(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        e = e.func if isinstance(e, ast.Call) else e.value
    return e.id if isinstance(e, ast.Name) else None


def talks(t):
    for n in own_nodes(t.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in COLLECTIVE and (
                last(n.func.value) or '') in ('vm', 'comm', 'COMM_WORLD'):
            return True
    return False


def values(prog, f, add, res):
    for n in own_nodes(f.node):
        if not isinstance(n, ast.Call):
            continue
        d = dotted(n.func) or ''
        head, _, rest = d.partition('.')
        full = f.module.imports.get(head, head) + ('.' + rest if rest else '')
        if full.startswith(('numpy.random.', 'random.', 'secrets.')) or full in CLOCK or full in ('datetime.now', 'datetime.utcnow'):
            add(VALUE, f, n, '%s gives another value in every run' % text(n), text(n))
        elif d in ('id', 'hash') and len(n.args) == 1:
            if d == 'hash' and f.name == '__hash__' or d == 'id' and compared(f, n):
                res.ok(VALUE, f.qual + ':' + text(n), f.loc(n))
            else:
                add(VALUE, f, n, '%s is another number in every run' % text(n), text(n))


def compared(f, n):
    """Is an address only compared, or used as a key of a look-up?"""
    par = parents(f)
    p = par.get(n)
    while isinstance(p, (ast.ListComp, ast.List, ast.Tuple, ast.Set, ast.SetComp)) or isinstance(p, ast.Call) and last(p.func) in (
            'set', 'list', 'len'):
        n, p = p, par.get(p)
    if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
        x = p.targets[0].id
        ps = [par.get(y) for y in own_nodes(f.node) if isinstance(y, ast.Name) and y.id == x and isinstance(y.ctx, ast.Load)]
        return all(isinstance(q, ast.Compare) or isinstance(q, ast.Call) and last(q.func) in ('add', 'get') for q in ps)
    return isinstance(p, ast.Compare) or isinstance(p, ast.Subscript) or isinstance(p, ast.Call) and isinstance(
        p.func, ast.Attribute) and p.func.attr in ('add', 'get')


def unset(prog, f, g, add, res):
    for n in g.nodes:
        a = n.ast
        if n.kind != 'stmt' or not isinstance(a, ast.Assign):
            continue
        for c in ast.walk(a.value):
            if isinstance(c, ast.Call) and last(c.func) in EMPTY and (dotted(c.func) or '').split('.')[0] in ('np', 'numpy') or isinstance(
                    c, ast.Call) and isinstance(c.func, ast.Name) and f.module.imports.get(c.func.id, '').startswith('numpy.') and last(
                    c.func) in EMPTY:
                if zero(c) or masked(f, c):
                    continue
                t = a.targets[0]
                if c is not a.value or not isinstance(t, ast.Name):
                    if c is a.value and isinstance(t, ast.Attribute):
                        x = ast.unparse(t)
                    else:
                        add(UNSET, f, c, '%s is used before it is written' % text(c), text(c))
                        continue
                else:
                    x = t.id
                u = unwritten(prog, f, g, n, x)
                if u is None:
                    res.ok(UNSET, f.qual + ':' + x, f.loc(a))
                else:
                    add(UNSET, f, a, '%s, allocated without values, is used at line %d although not all of it was written' % (
                        x, u.line), x)
    for c in own_nodes(f.node):
        if isinstance(c, ast.Call) and last(c.func) in EMPTY and (dotted(c.func) or '').split('.')[0] in ('np', 'numpy') and not zero(c) and not masked(f, c):
            s = c
            par = parents(f)
            while s is not None and not isinstance(s, ast.stmt):
                s = par.get(s)
            if not isinstance(s, ast.Assign):
                add(UNSET, f, c, '%s is used before it is written' % text(c), text(c))


def masked(f, c):
    """Is the array hidden below a mask from the start?"""
    p = parents(f).get(c)
    return isinstance(p, ast.Call) and any(k.arg == 'mask' and isinstance(k.value, ast.Constant) and k.value.value is True for k in p.keywords)


def zero(c):
    s = c.args[0] if c.args else None
    return isinstance(s, ast.Constant) and s.value == 0 or isinstance(s, ast.Tuple) and any(
        isinstance(x, ast.Constant) and x.value == 0 for x in s.elts)


def is_store(t, x):
    while isinstance(t, (ast.Subscript, ast.Attribute)):
        if ast.unparse(t.value) == x and isinstance(t, ast.Subscript):
            return t
        t = t.value
    return None


def filled_by(prog, f, n, x):
    """Does a call of a node write into the array it gets?"""
    for e in node_exprs(n):
        for c in ast.walk(e):
            if isinstance(c, ast.Call) and any(isinstance(a, ast.Name) and a.id == x for a in c.args + [k.value for k in c.keywords]):
                for t in prog.resolve_call(f, c):
                    if isinstance(t, FuncInfo):
                        for p, a in prog.map_args(t, c, None).items():
                            if isinstance(a, ast.Name) and a.id == x and writes(prog, t, p, 3):
                                return True
    return False


def writes(prog, t, p, depth):
    for n in own_nodes(t.node):
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            for y in (n.targets if isinstance(n, ast.Assign) else [n.target]):
                if is_store(y, p) is not None:
                    return True
        if depth and isinstance(n, ast.Call) and any(isinstance(a, ast.Name) and a.id == p for a in n.args + [k.value for k in n.keywords]):
            for u in prog.resolve_call(t, n):
                if isinstance(u, FuncInfo):
                    for q, a in prog.map_args(u, n, None).items():
                        if isinstance(a, ast.Name) and a.id == p and writes(prog, u, q, depth - 1):
                            return True
    return False


def columns(f, g, start, x):
    """Statements that complete an array written column by column in one block."""
    c = start.ast.value
    shape = c.args[0] if isinstance(c, ast.Call) and c.args else None
    if not (isinstance(shape, ast.Tuple) and isinstance(shape.elts[-1], ast.Constant) and isinstance(shape.elts[-1].value, int)):
        return set()
    want, out = set(range(shape.elts[-1].value)), set()
    for b in ast.walk(f.node):
        for blk in (getattr(b, 'body', None), getattr(b, 'orelse', None)):
            if isinstance(blk, list):
                got = set()
                for s in blk:
                    if isinstance(s, ast.Assign):
                        for t in s.targets:
                            t = is_store(t, x)
                            if t is not None and isinstance(t.slice, ast.Tuple) and all(whole(e) for e in t.slice.elts[:-1]) and isinstance(
                                    t.slice.elts[-1], ast.Constant):
                                got.add(t.slice.elts[-1].value)
                                if got == want:
                                    out.add(id(s))
    return out


def unwritten(prog, f, g, start, x):
    """First node that uses array x where a path has not written all of it."""
    loops = {}
    for n in g.nodes:
        if n.kind == 'for':
            loops[id(n.ast)] = n
    cols = columns(f, g, start, x)
    full_loops = {i for i, n in loops.items() if writes_each(g, n, x)}
    st, seen = [s for s, l in start.succ if l != 'exc'], set()
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        a = n.ast
        if n.kind in ('exit', 'exc_exit'):
            continue
        if n.kind == 'for' and id(a) in full_loops:
            # leaving a loop whose every iteration writes the array
            continue
        stores = []
        if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AugAssign)):
            ts = a.targets if isinstance(a, ast.Assign) else [a.target]
            stores = [s for t in ts for s in [is_store(t, x)] if s is not None]
            if any(isinstance(t, ast.Name) and t.id == x for t in ts) and x not in reads(n):
                continue
        if any(whole(s.slice) for s in stores) or id(a) in cols or filled_by(prog, f, n, x):
            continue
        if n.kind == 'stmt' and isinstance(a, ast.Expr) and isinstance(a.value, ast.Call) and isinstance(
                a.value.func, ast.Attribute) and a.value.func.attr == 'fill' and ast.unparse(a.value.func.value) == x:
            continue
        if uses(n, x, stores):
            return n
        st += [s for s, l in n.succ if l != 'exc']
    return None


def whole(s):
    if isinstance(s, ast.Tuple):
        return all(whole(e) for e in s.elts)
    return isinstance(s, ast.Slice) and s.lower is None and s.upper is None and s.step is None or isinstance(
        s, ast.Constant) and s.value is Ellipsis


def reads(n):
    return {y.id for e in node_exprs(n) for y in ast.walk(e) if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Load)}


def uses(n, x, stores):
    """Is the array read by a node, other than for its shape and to store into it?"""
    skip = set()
    for s in stores:
        skip.add(id(s.value))
    for e in node_exprs(n):
        for y in ast.walk(e):
            if isinstance(y, ast.Attribute) and y.attr in ('shape', 'size', 'ndim', 'dtype', 'flat', 'fill_value'):
                skip.add(id(y.value))
            elif isinstance(y, ast.Call) and isinstance(y.func, ast.Name) and y.func.id in ('len', 'range', 'isinstance'):
                skip |= {id(z) for z in y.args}
            elif isinstance(y, ast.Call) and last(y.func) in ('ndenumerate', 'enumerate', 'ndindex', 'iter_array', 'Irecv', 'Recv', 'create_Irecv'):
                skip |= {id(z) for w in y.args for z in ast.walk(w)}
        for y in ast.walk(e):
            if isinstance(y, (ast.Name, ast.Attribute)) and isinstance(y.ctx, ast.Load) and id(y) not in skip and ast.unparse(y) == x:
                return True
    return False


def writes_each(g, head, x):
    """Does every iteration of a loop write into the array at the place of its element, and none end the loop early?"""
    lp = head.ast
    names = set(stored(lp.target))
    for s in lp.body:
        for y in ast.walk(s):
            if isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name):
                names.add(y.target.id)
    for _ in range(2):
        for s in lp.body:
            for y in ast.walk(s):
                if isinstance(y, ast.Assign) and {z.id for z in ast.walk(y.value) if isinstance(z, ast.Name)} & names:
                    for t in y.targets:
                        names |= stored(t)
    ids = {id(y) for s in lp.body for y in ast.walk(s)}
    inside = {n.id for n in g.nodes if n.ast is not None and id(n.ast) in ids}

    def stores(n):
        a = n.ast
        if n.kind == 'stmt' and isinstance(a, (ast.Assign, ast.AugAssign)):
            for t in (a.targets if isinstance(a, ast.Assign) else [a.target]):
                s = is_store(t, x)
                if s is not None and {y.id for y in ast.walk(s.slice) if isinstance(y, ast.Name)} & names:
                    return True
        if n.kind == 'for' and n.ast is not lp and writes_each(g, n, x):
            return True
        return False
    st, seen, found = [s for s, l in head.succ if l == 't'], set(), False
    while st:
        n = st.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n is head or n.kind == 'exit' or n.id not in inside:
            if n.kind != 'exc_exit':
                return False
            continue
        if stores(n):
            found = True
            continue
        st += [s for s, l in n.succ if l != 'exc']
    # an early end of the loop after a store leaves the rest unwritten
    for s in lp.body:
        for y in ast.walk(s):
            if isinstance(y, ast.Break) and found:
                return False
    return found


def messages(prog, f, add, res):
    if f.cls is not None and f.cls.name.startswith('Dummy'):
        return
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('recv', 'irecv', 'Recv', 'Irecv') and (
                last(n.func.value) or '') in ('comm', 'COMM_WORLD', 'vm'):
            pos = 0 if n.func.attr in ('recv',) else 1
            src = [k.value for k in n.keywords if k.arg == 'source'] + (n.args[pos:pos + 1] if len(n.args) > pos else [])
            ok = bool(src) and not any(isinstance(y, (ast.Name, ast.Attribute)) and last(y) == 'ANY_SOURCE' for y in ast.walk(src[0])) and \
                not (isinstance(src[0], ast.UnaryOp) and isinstance(src[0].operand, ast.Constant))
            if ok:
                res.ok(SOURCE, f.qual + ':' + text(n), f.loc(n))
            else:
                add(SOURCE, f, n, '%s takes the message of whichever rank is first' % text(n), text(n))
