"""Interprocedural alias-level flow analysis.

A token (origin, up, down) on a value says: the object ``origin`` (after ``down`` element/attribute accesses inside it) is
found ``up`` fresh containers below the value.  up == 0 means the value itself is (a part of) the origin.  Parameters are
symbolic origins ('P', name), so return and mutation summaries are computed once per function and instantiated per call.
"""
import ast

from .cfg import cfg_of, node_exprs
from .common import MUTATORS
from .program import ClassInfo, FuncInfo, dotted, own_nodes

CAP = 3
EMPTY = frozenset()
SHALLOW = {'list', 'dict', 'tuple', 'set', 'frozenset', 'OrderedDict', 'sorted', 'reversed', 'copy', 'iter', 'chain',
           'deque', 'filter', 'defaultdict'}
CONTAINER_CTORS = {'list', 'dict', 'set', 'OrderedDict', 'defaultdict', 'deque', 'Counter', 'bytearray', 'WeakKeyDictionary',
                   'WeakValueDictionary', 'Dict', 'cycle', 'iter'}
IMMUTABLE_METHODS = {'format', 'join', 'lower', 'upper', 'strip', 'split', 'replace', 'startswith', 'endswith', 'keys', 'index',
                     'count', 'title', 'encode', 'decode'}


def lit_depth(e, lookup=None):
    """How many levels of mutable containers the value of a literal expression has (0: immutable, 9: unknown)."""
    if e is None or isinstance(e, (ast.Constant, ast.Attribute, ast.JoinedStr, ast.BinOp, ast.Compare, ast.UnaryOp, ast.Lambda,
                                   ast.BoolOp)):
        return 0
    if isinstance(e, ast.Name):
        return lookup(e.id) if lookup else 0
    if isinstance(e, (ast.List, ast.Set)):
        return 1 + max([lit_depth(x, lookup) for x in e.elts] or [0])
    if isinstance(e, ast.Tuple):
        d = max([lit_depth(x, lookup) for x in e.elts] or [0])
        return d and d + 1
    if isinstance(e, ast.Dict):
        if not e.values:
            return 9
        return 1 + max([lit_depth(x, lookup) for x in e.values] or [0])
    if isinstance(e, (ast.ListComp, ast.SetComp)):
        return 1 + lit_depth(e.elt, lookup)
    if isinstance(e, ast.DictComp):
        return 1 + lit_depth(e.value, lookup)
    if isinstance(e, ast.Call):
        d = dotted(e.func) or ''
        if d.split('.')[-1] in CONTAINER_CTORS or d == 'itertools.count':
            return 9
        return 0
    if isinstance(e, ast.IfExp):
        return max(lit_depth(e.body, lookup), lit_depth(e.orelse, lookup))
    return 0


def none_test(test, truth):
    """Name that is None when the test has the truth value."""
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, truth = test.operand, not truth
    if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and len(test.ops) == 1 and isinstance(
            test.comparators[0], ast.Constant) and test.comparators[0].value is None:
        if isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
            return test.left.id
    return None


def immutable_test(e):
    """x for tests ``isinstance(x, <string or number type>)`` and ``x is None``."""
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'isinstance' and len(e.args) == 2 and \
            isinstance(e.args[0], ast.Name):
        ts = e.args[1].elts if isinstance(e.args[1], ast.Tuple) else [e.args[1]]
        if all((dotted(t) or '').split('.')[-1] in ('str', 'string_types', 'int', 'float', 'bool', 'bytes', 'Number',
                                                    'integer_types') for t in ts):
            return e.args[0].id
    if isinstance(e, ast.Compare) and isinstance(e.left, ast.Name) and len(e.ops) == 1 and isinstance(e.ops[0], ast.Is) and \
            isinstance(e.comparators[0], ast.Constant):
        return e.left.id
    return None


def down1(t):
    o, u, d = t
    return (o, u - 1, d) if u > 0 else (o, 0, min(d + 1, CAP))


def elem(ts):
    return frozenset(down1(t) for t in ts)


def wrap(ts, n=1):
    return frozenset((o, min(u + n, CAP + 1), d) for o, u, d in ts)


def shallow(ts):
    return frozenset((o, u, d) if u > 0 else (o, 1, min(d + 1, CAP)) for o, u, d in ts)


def handed_out(m):
    """Attributes of the receiver that the property m returns as they are."""
    def attrs(e):
        if isinstance(e, ast.IfExp):
            return attrs(e.body) | attrs(e.orelse)
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name) and e.value.id == m.selfname:
            return {e.attr}
        return set()
    names, out = {}, set()
    for n in own_nodes(m.node):
        if isinstance(n, ast.Assign):
            for t in n.targets:
                if isinstance(t, ast.Name):
                    names.setdefault(t.id, set()).update(attrs(n.value))
    for n in own_nodes(m.node):
        if isinstance(n, ast.Return) and n.value is not None:
            out |= names.get(n.value.id, set()) if isinstance(n.value, ast.Name) else attrs(n.value)
    return out


def compose(tok, args):
    """Value described by summary token ('P', p) at up/down when the argument p carries tokens ``args``."""
    (_, up, down) = tok
    out = set()
    for t in args:
        for _ in range(down):
            t = down1(t)
        o, u, d = t
        out.add((o, min(u + up, CAP + 1), d))
    return out


class Flow(object):
    """policy: object with source(flow, f, expr) -> iterable of tokens for expressions that denote origins."""

    def __init__(self, prog, policy, max_rounds=6):
        self.prog, self.policy = prog, policy
        self.ret = {}      # func qual -> tokens
        self.mut = {}      # func qual -> {(origin token key, down): (node, how)}
        self.fields = {}   # (root class qual, attr) -> tokens (non-parameter origins only)
        self.stores = {}   # func qual -> {(param token, classes, attr)}
        self._iter_tokens = {}
        self.hits = {}     # (func qual, origin, down, lineno) -> (f, node, how)
        self.changed = True
        r = 0
        while self.changed and r < max_rounds:
            self.changed = False
            r += 1
            for f in prog.funcs.values():
                self.function(f)
        self.rounds = r

    # -- heap
    def field_keys(self, f, base, attr):
        out = []
        for c in self.prog.infer(f, base):
            if isinstance(c, ClassInfo):
                out.append(c)
        return out

    def field_get(self, f, base, attr):
        out = set()
        for c in self.field_keys(f, base, attr):
            for k in self.prog.mro(c):
                out |= self.fields.get((k.qual, attr), set())
            for k in c.subs:
                out |= self.fields.get((k.qual, attr), set())
        return out

    def field_put(self, f, base, attr, ts):
        if ts:
            self.field_add(f, tuple(c.qual for c in self.field_keys(f, base, attr)), attr, ts)

    def field_add(self, f, classes, attr, ts):
        for t in ts:
            if t[0][0] == 'P':
                st = self.stores.setdefault(f.qual, set())
                k = (t, classes, attr)
                if k not in st:
                    st.add(k)
                    self.changed = True
            else:
                for c in classes:
                    s = self.fields.setdefault((c, attr), set())
                    if t not in s:
                        s.add(t)
                        self.changed = True

    # -- one function
    def function(self, f):
        g = cfg_of(f)
        env0 = {}
        for p in f.params + [x for x in (f.vararg, f.kwarg) if x]:
            if p == f.vararg or p == f.kwarg:
                env0[p] = frozenset({(('P', p), 1, 0)})
            else:
                env0[p] = frozenset({(('P', p), 0, 0)})
        for name, d in self.policy.defaults(self, f):
            env0[name] = env0.get(name, EMPTY) | d
        state = {g.entry.id: env0}
        work = [g.entry]
        by = {n.id: n for n in g.nodes}
        n_steps = 0
        while work:
            n = work.pop()
            n_steps += 1
            if n_steps > 20000:
                break
            env = dict(state[n.id])
            out = self.step(f, n, env)
            for s, label in n.succ:
                if n.kind == 'test' and label in ('t', 'f') and not self.policy.feasible(self, f, n.extra, label == 't'):
                    continue
                cur = out
                if n.kind == 'test' and label in ('t', 'f'):
                    nm = immutable_test(n.extra) if label == 't' else None
                    nm = nm or none_test(n.extra, label == 't')
                    if nm and out.get(nm):
                        cur = dict(out)
                        cur[nm] = EMPTY
                old = state.get(s.id)
                if old is None:
                    state[s.id] = dict(cur)
                    work.append(by[s.id])
                else:
                    ch = False
                    for k, v in cur.items():
                        o = old.get(k, EMPTY)
                        if not v <= o:
                            old[k] = o | v
                            ch = True
                    if ch:
                        work.append(by[s.id])

    def step(self, f, n, env):
        a = n.ast
        if n.kind == 'for':
            its = self._iter_tokens.get(id(a), EMPTY)
            self.bind(f, a.target, elem(its), env)
            return env
        if n.kind == 'iter':
            self._iter_tokens[id(a)] = self._iter_tokens.get(id(a), EMPTY) | self.ev(f, n.extra, env)
            return env
        if n.kind == 'with_enter':
            ts = self.ev(f, n.extra.context_expr, env)
            if n.extra.optional_vars is not None:
                self.bind(f, n.extra.optional_vars, ts, env)
            return env
        if n.kind == 'return':
            if a.value is not None:
                self.add_ret(f, self.ev(f, a.value, env))
            return env
        if n.kind == 'test':
            self.ev(f, n.extra, env)
            return env
        if n.kind != 'stmt':
            for e in node_exprs(n):
                if isinstance(e, ast.expr):
                    self.ev(f, e, env)
            return env
        if isinstance(a, ast.Assign):
            ts = self.ev(f, a.value, env)
            for t in a.targets:
                if isinstance(t, (ast.Tuple, ast.List)) and isinstance(a.value, (ast.Tuple, ast.List)) and \
                        len(t.elts) == len(a.value.elts):
                    vals = [self.ev(f, v, env) for v in a.value.elts]
                    for x, v in zip(t.elts, vals):
                        self.bind(f, x, v, env)
                else:
                    self.bind(f, t, ts, env)
        elif isinstance(a, ast.AugAssign):
            ts = self.ev(f, a.value, env)
            if isinstance(a.target, ast.Name):
                self.mutate(f, env.get(a.target.id, EMPTY) | self.name_source(f, a.target, env), a, 'augmented assignment')
            else:
                self.store(f, a.target, ts, env, a)
                if isinstance(a.target, ast.Subscript) or isinstance(a.target, ast.Attribute):
                    self.mutate(f, self.ev(f, a.target, env), a, 'augmented assignment')
        elif isinstance(a, ast.AnnAssign):
            if a.value is not None:
                self.bind(f, a.target, self.ev(f, a.value, env), env)
        elif isinstance(a, ast.Delete):
            for t in a.targets:
                if isinstance(t, ast.Subscript):
                    self.mutate(f, self.ev(f, t.value, env), a, 'del')
                elif isinstance(t, ast.Attribute):
                    self.attr_write(f, t, env, a)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(a, ast.Expr):
            if isinstance(a.value, ast.Yield):
                if a.value.value is not None:
                    self.add_ret(f, wrap(self.ev(f, a.value.value, env)))
            else:
                self.ev(f, a.value, env)
        return env

    def add_ret(self, f, ts):
        s = self.ret.setdefault(f.qual, set())
        if not ts <= s:
            s |= ts
            self.changed = True

    def bind(self, f, t, ts, env):
        if isinstance(t, ast.Name):
            env[t.id] = frozenset(ts)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(f, x, elem(ts), env)
        elif isinstance(t, ast.Starred):
            self.bind(f, t.value, ts, env)
        else:
            self.store(f, t, ts, env, t)

    def store(self, f, t, ts, env, node):
        if isinstance(t, ast.Subscript):
            self.mutate(f, self.ev(f, t.value, env), node, 'item assignment')
            self.absorb(f, t.value, ts, env)
        elif isinstance(t, ast.Attribute):
            self.attr_write(f, t, env, node)
            self.field_put(f, t.value, t.attr, ts)
            base = None
            for c in self.prog.infer(f, t.value):
                if isinstance(c, ClassInfo):
                    m = self.prog.find_setter(c, t.attr)
                    if m is not None and len(m.params) > 1:
                        if base is None:
                            base = self.ev(f, t.value, env)
                        self.apply(f, m, None, node, {m.params[0]: base, m.params[1]: ts}, env)
            if isinstance(t.value, ast.Name) and t.value.id == f.selfname:
                env['.' + t.attr] = frozenset(ts)

    def absorb(self, f, cont, ts, env):
        """The container expression ``cont`` now holds a value with tokens ts."""
        if not ts:
            return
        w = wrap(ts)
        while isinstance(cont, ast.Subscript):
            cont = cont.value
            w = wrap(w)
        if isinstance(cont, ast.Name):
            env[cont.id] = env.get(cont.id, EMPTY) | w
        elif isinstance(cont, ast.Attribute):
            self.field_put(f, cont.value, cont.attr, w)

    def attr_write(self, f, t, env, node):
        ts = self.ev(f, t.value, env)
        self.policy.attribute_write(self, f, t, node)
        self.mutate(f, ts, node, 'attribute assignment')

    def mutate(self, f, ts, node, how, depth=0):
        for o, u, d in ts:
            if u > depth:
                continue
            dd = min(d + depth - u, CAP)
            self.record(f, o, dd, node, how)

    def record(self, f, o, dd, node, how):
        if o[0] == 'P':
            m = self.mut.setdefault(f.qual, {})
            if (o[1], dd) not in m:
                m[(o[1], dd)] = (node, how)
                self.changed = True
        else:
            self.hits.setdefault((f.qual, o, dd, getattr(node, 'lineno', 0)), (f, node, how))

    # -- expressions
    def name_source(self, f, e, env):
        return frozenset(self.policy.source(self, f, e))

    def ev(self, f, e, env):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr)):
            return EMPTY
        if isinstance(e, ast.Name):
            if e.id in env:
                return env[e.id]
            return self.name_source(f, e, env)
        if isinstance(e, ast.Attribute):
            base = self.ev(f, e.value, env)
            out = set(elem(base))
            if isinstance(e.value, ast.Name) and e.value.id == f.selfname and '.' + e.attr in env:
                return env['.' + e.attr]
            out |= set(self.policy.source(self, f, e))
            out |= self.field_get(f, e.value, e.attr)
            prop = False
            for c in self.prog.infer(f, e.value):
                if isinstance(c, ClassInfo):
                    for m in self.prog.family(c, e.attr):
                        if m.kind == 'property':
                            prop = True
                            out |= self.apply(f, m, None, e, {m.selfname: base}, env)
            return frozenset(out)
        if isinstance(e, ast.Subscript):
            b = self.ev(f, e.value, env)
            if isinstance(e.slice, ast.Slice):
                return shallow(b)
            self.ev(f, e.slice, env)
            return elem(b)
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = EMPTY
            for x in e.elts:
                if isinstance(x, ast.Starred):
                    out |= shallow(self.ev(f, x.value, env))
                else:
                    out |= wrap(self.ev(f, x, env))
            return out
        if isinstance(e, ast.Dict):
            out = EMPTY
            for k, x in zip(e.keys, e.values):
                v = self.ev(f, x, env)
                out |= shallow(v) if k is None else wrap(v)
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for gen in e.generators:
                self.bind(f, gen.target, elem(self.ev(f, gen.iter, env2)), env2)
                for c in gen.ifs:
                    self.ev(f, c, env2)
            if isinstance(e, ast.DictComp):
                self.ev(f, e.key, env2)
                return wrap(self.ev(f, e.value, env2))
            return wrap(self.ev(f, e.elt, env2))
        if isinstance(e, ast.IfExp):
            self.ev(f, e.test, env)
            return self.ev(f, e.body, env) | self.ev(f, e.orelse, env)
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for v in e.values:
                out |= self.ev(f, v, env)
            return out
        if isinstance(e, ast.NamedExpr):
            ts = self.ev(f, e.value, env)
            self.bind(f, e.target, ts, env)
            return ts
        if isinstance(e, ast.Starred):
            return self.ev(f, e.value, env)
        if isinstance(e, ast.Call):
            return self.call(f, e, env)
        if isinstance(e, ast.Lambda):
            return EMPTY
        out = EMPTY
        if isinstance(e, ast.BinOp):
            l, r = self.ev(f, e.left, env), self.ev(f, e.right, env)
            if isinstance(e.op, (ast.Add, ast.BitOr, ast.BitAnd, ast.Sub)):
                return shallow(l) | shallow(r)
            return EMPTY
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                v = self.ev(f, c, env)
                if isinstance(e, (ast.Await, ast.YieldFrom)):
                    out |= v
        if isinstance(e, ast.Yield) and e.value is not None:
            self.add_ret(f, wrap(self.ev(f, e.value, env)))
        return out

    def call(self, f, e, env):
        fn = e.func
        argts = [self.ev(f, a, env) for a in e.args]
        kwts = {k.arg: self.ev(f, k.value, env) for k in e.keywords}
        self.policy.call(self, f, e)
        if isinstance(fn, ast.Name):
            name = fn.id
            if name in SHALLOW and argts:
                out = EMPTY
                for t in argts:
                    out |= shallow(t)
                for t in kwts.values():
                    out |= wrap(t)
                return out
            if name in ('zip', 'enumerate'):
                out = EMPTY
                for t in argts:
                    out |= wrap(elem(t), 2)
                return out
            if name == 'next' and argts:
                self.mutate(f, argts[0], e, 'next()')
                return elem(argts[0])
            if name == 'getattr' and len(e.args) >= 2:
                out = set(elem(argts[0])) | (set(argts[2]) if len(argts) > 2 else set())
                if isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                    fake = ast.copy_location(ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Load()), e)
                    out |= set(self.policy.source(self, f, fake))
                    out |= self.field_get(f, e.args[0], e.args[1].value)
                return frozenset(out)
            if name in ('setattr', 'delattr') and e.args:
                fake = ast.copy_location(ast.Attribute(value=e.args[0], attr='*', ctx=ast.Store()), e)
                if len(e.args) > 1 and isinstance(e.args[1], ast.Constant):
                    fake.attr = str(e.args[1].value)
                self.policy.attribute_write(self, f, fake, e)
                self.mutate(f, argts[0], e, 'setattr')
                if len(argts) > 2:
                    self.field_put(f, e.args[0], fake.attr, argts[2])
                return EMPTY
            if name == 'deepcopy':
                return EMPTY
        recv = EMPTY
        if isinstance(fn, ast.Attribute):
            recv = self.ev(f, fn.value, env)
            d = dotted(fn)
            if d in ('copy.deepcopy',):
                return EMPTY
            if d in ('copy.copy', 'itertools.chain', 'collections.OrderedDict') and argts:
                out = EMPTY
                for t in argts:
                    out |= shallow(t)
                return out
        else:
            self.ev(f, fn, env) if not isinstance(fn, ast.Name) else None
        targets = [t for t in self.prog.resolve_call(f, e, cha=False) if isinstance(t, FuncInfo)]
        out = set()
        if isinstance(fn, ast.Attribute):
            name = fn.attr
            ours = bool(targets)
            if not ours or name in MUTATORS:
                if name in MUTATORS:
                    if not ours:
                        self.mutate(f, recv, e, 'call of %s()' % name)
                        newts = EMPTY
                        for t in argts:
                            newts |= shallow(t) if name in ('extend', 'update') else wrap(t)
                        for k, t in kwts.items():
                            newts |= wrap(t)
                        if name != 'pop':
                            if isinstance(fn.value, ast.Name):
                                env[fn.value.id] = env.get(fn.value.id, EMPTY) | newts
                            elif isinstance(fn.value, ast.Attribute):
                                self.field_put(f, fn.value.value, fn.value.attr, newts)
                        if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                            out |= elem(recv)
                            if name == 'setdefault' and len(argts) > 1:
                                out |= argts[1]
                elif name == 'get':
                    out |= elem(recv)
                    if len(argts) > 1:
                        out |= argts[1]
                elif name in ('values', 'itervalues'):
                    out |= wrap(elem(recv))
                elif name in ('items', 'iteritems'):
                    out |= wrap(elem(recv), 2)
                elif name == 'copy':
                    out |= shallow(recv)
                elif name == '__setitem__':
                    self.mutate(f, recv, e, 'call of __setitem__')
        for t in targets:
            bound = fn.value if isinstance(fn, ast.Attribute) else None
            m = self.prog.map_args(t, e, bound)
            toks = {}
            ids = {id(a): v for a, v in zip(e.args, argts)}
            ids.update({id(k.value): kwts[k.arg] for k in e.keywords if k.arg is not None})
            for p, x in m.items():
                if isinstance(x, ast.AST):
                    if p == t.selfname and x is bound:
                        toks[p] = recv
                    elif id(x) in ids:
                        toks[p] = ids[id(x)]
                    elif p == '**':
                        toks[p] = kwts.get(None, EMPTY)
            star = EMPTY
            if '*' in m:
                star = self.ev(f, m['*'], env)
            if '**' in m:
                star |= kwts.get(None, EMPTY)
            if star:
                for p in t.params:
                    if p not in toks and p != t.selfname:
                        toks[p] = elem(star)
                for p in (t.vararg, t.kwarg):
                    if p:
                        toks[p] = elem(star)
            if t.kwarg:
                extra = EMPTY
                for k in e.keywords:
                    if k.arg is not None and k.arg not in t.params:
                        extra |= kwts[k.arg]
                toks[t.kwarg] = toks.get(t.kwarg, EMPTY) | extra
            if t.name == '__init__':
                toks.setdefault(t.selfname, EMPTY)
            if t.vararg and m.get('*rest'):
                extra = EMPTY
                for a in m['*rest']:
                    extra |= ids.get(id(a), EMPTY)
                toks[t.vararg] = toks.get(t.vararg, EMPTY) | extra
            out |= self.apply(f, t, e, e, toks, env)
        return frozenset(out)

    def apply(self, f, t, call, node, toks, env):
        """Instantiate the summary of t."""
        for (p, dd), (mn, how) in list(self.mut.get(t.qual, {}).items()):
            for o, u, d in toks.get(p, EMPTY):
                if dd >= u:
                    self.record(f, o, min(d + dd - u, CAP), node, 'passed to %s, which changes it' % t.qual.split(':')[-1])
        for tok, classes, attr in list(self.stores.get(t.qual, ())):
            ts = toks.get(tok[0][1])
            if ts:
                self.field_add(f, classes, attr, compose(tok, ts))
        out = set()
        for tok in list(self.ret.get(t.qual, ())):
            if tok[0][0] == 'P':
                ts = toks.get(tok[0][1])
                if ts:
                    out |= compose(tok, ts)
            else:
                out.add(tok)
        return out
