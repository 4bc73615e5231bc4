"""Access-path effect analysis.

What a function changes is described by access paths starting at its parameters: (parameter, path, what) says that the
attribute ``what`` (or '[]', an element) of the object found under ``path`` of the parameter has another value when the
function returns.  A token (root, path, up, sh) on a value says: the object found under ``path`` of the parameter ``root``
is found under ``up`` of the value; sh is None for the object itself and a set of replaced attribute names for a shallow copy
of it.  Summaries are computed per receiver class and per value of flag parameters and instantiated per call.  Values of
attributes of the receiver are tracked to the end of the function, so that a change that is undone is none, and a change
made only while an attribute has not been computed yet (lazy initialisation) is none either.
"""
import ast
import itertools

from .cfg import cfg_of, node_exprs
from .common import MUTATORS
from .program import ClassInfo, FuncInfo, dotted, own_nodes
from .rules.arguments import ArgFlow, Policy, Views

EMPTY = frozenset()
OTHER = ('?', (), (), None)
PMAX, UMAX, TMAX = 3, 2, 30
SHALLOW = {'list', 'dict', 'tuple', 'set', 'OrderedDict', 'sorted', 'reversed', 'copy', 'iter', 'deque'}
PASS_METHODS = {'reshape', 'squeeze', 'ravel', 'view', 'transpose', 'swapaxes'}
PASS_FUNCS = {'np.asarray', 'np.atleast_1d', 'np.atleast_2d', 'np.ma.array', 'np.squeeze', 'np.ravel', 'np.reshape', 'iter',
              'np.transpose'}
ARRAY_MUTATORS = {'fill', 'sort', 'put', 'resize', 'harden_mask', 'soften_mask', 'unshare_mask', 'set_fill_value'}
LAZY_VALUES = {'None', 'constants.UNINITIALIZED', 'UNINITIALIZED'}


def step(t, a):
    root, path, up, sh = t
    if root == '?':
        return None
    if up:
        if up[0] == a or up[0] == '[]' and a.startswith('k:') or a == '[]' and up[0].startswith('k:'):
            return (root, path, up[1:], sh)
        return None
    if a.startswith('k:') and path:
        a = '[]'
    if sh is not None and (a in sh or a in ('mask', 'data')):
        # copies of arrays are full copies
        return None
    if len(path) >= PMAX:
        return None
    return (root, path + (a,), (), None)


def key_step(e):
    """Step for an item with a known key."""
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return 'k:' + e.value
    d = dotted(e)
    if d and d.startswith('KeywordArgument.'):
        return 'k:' + d.split('.')[-1].lower()
    return '[]'


def steps(ts, a):
    out = set()
    for t in ts:
        n = step(t, a)
        if n is not None:
            out.add(n)
    return frozenset(out)


def wrap(ts, a='[]'):
    return frozenset((r, p, (a,) + u, s) for r, p, u, s in ts if len(u) < UMAX and r != '?')


def shallow(ts):
    return frozenset((r, p, u, frozenset() if s is None else s) if not u else (r, p, u, s) for r, p, u, s in ts if r != '?')


def descend(t, path):
    for a in path:
        t = step(t, a)
        if t is None:
            return None
    return t


def compose(tok, args):
    root, path, up, sh = tok
    out = set()
    for t in args:
        n = descend(t, path)
        if n is None:
            continue
        r, p, u, s = n
        if r == '?':
            continue
        if u and sh is not None:
            sh2 = s
        elif sh is not None:
            sh2 = frozenset(sh) | (s or frozenset())
        else:
            sh2 = s
        if len(up) + len(u) <= UMAX:
            out.add((r, p, up + u, sh2))
    return out


def is_lazy_test(f, test, truth, env=None):
    """The test having this truth value says that a private attribute of some object has not been set yet."""
    while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        test, truth = test.operand, not truth
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == truth:
            return any(is_lazy_test(f, v, truth, env) for v in test.values)
        return all(is_lazy_test(f, v, truth, env) for v in test.values)

    def private(e):
        if isinstance(e, ast.Name):
            ts = (env or {}).get(e.id, EMPTY)
            return bool(ts) and all(t[1] and t[1][-1].startswith('_') and not t[2] for t in ts)
        if isinstance(e, ast.Attribute):
            return e.attr.startswith('_') and not e.attr.startswith('__')
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ('len', 'getattr') and e.args:
            if e.func.id == 'getattr':
                return len(e.args) > 1 and not (isinstance(e.args[1], ast.Constant) and not str(e.args[1].value).startswith('_'))
            return private(e.args[0])
        return False

    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        l, r, op = test.left, test.comparators[0], test.ops[0]
        if isinstance(op, (ast.Is, ast.Eq, ast.IsNot, ast.NotEq)) and private(l) and (
                isinstance(r, ast.Constant) and (r.value is None or r.value == 0 or isinstance(r.value, str)) or (dotted(r) or '').endswith('UNINITIALIZED')):
            return isinstance(op, (ast.Is, ast.Eq)) == truth
        if isinstance(op, (ast.In, ast.NotIn)) and (private(r) or isinstance(r, ast.Name) and r.id in (env or {})):
            return isinstance(op, ast.NotIn) == truth
    if isinstance(test, ast.Call) and isinstance(test.func, ast.Name) and test.func.id == 'hasattr':
        return not truth
    if isinstance(test, ast.Attribute) and test.attr.lstrip('_').startswith('has_'):
        return not truth
    if private(test) and not isinstance(test, (ast.Call, ast.Name)):
        return not truth
    return False


class Effects(ArgFlow):
    def __init__(self, prog, policy, funcs, rounds=7):
        self.prog, self.policy = prog, policy
        self.ret, self.eff = {}, {}
        self._iter_tokens, self._flags = {}, {}
        self.mode = {}
        self.dep = {}
        self.changed = True
        n = 0
        todo = None
        while n < rounds:
            n += 1
            self.dirty = set()
            work = list(funcs) + [v for v in list(prog.views.values()) if v.qual not in funcs.seen and not funcs.skip(v.module)]
            for f in work:
                if todo is not None and f.qual in self.done and not (self.calls_of.get(f.qual, set()) & todo):
                    continue
                prog.cur = f
                self.done.add(f.qual)
                for mode in self.modes(f):
                    self.mode = mode
                    self.function(f)
            if not self.dirty:
                break
            todo = self.dirty
        self.rounds = n

    # Flags that ask for a change; through **kwargs they arrive only when the caller asks.
    asked = ()
    done = set()
    calls_of = {}
    kwflags = {}

    def kw_flags(self, f):
        """Local names holding a flag taken from **kwargs, with the keyword and its default."""
        k = self.prog.base(f).qual
        if k not in self.kwflags:
            out = {}
            if f.kwarg:
                for name, vals in self.prog.local_assigns(f).items():
                    if len(vals) == 1 and vals[0][0] == 'val' and isinstance(vals[0][1], ast.Call):
                        c = vals[0][1]
                        if isinstance(c.func, ast.Attribute) and c.func.attr in ('pop', 'get') and dotted(c.func.value) == \
                                f.kwarg and len(c.args) == 2 and isinstance(c.args[1], ast.Constant) and isinstance(
                                    c.args[1].value, bool):
                            key = c.args[0].value if isinstance(c.args[0], ast.Constant) else (
                                dotted(c.args[0]) or '').split('.')[-1].lower()
                            out[name] = (str(key), c.args[1].value)
            self.kwflags[k] = out
        return self.kwflags[k]

    def flags(self, f):
        k = self.prog.base(f).qual
        if k not in self._flags:
            super(Effects, self).flags(f)
            self._flags[k] = (sorted(self.kw_flags(f)) + self._flags[k])[:3]
        return self._flags[k]

    def flag_value(self, t, call, p):
        kf = self.kw_flags(t)
        if p in kf:
            if call is None:
                return None
            key, default = kf[p]
            for k in call.keywords:
                if k.arg == key:
                    return bool(k.value.value) if isinstance(k.value, ast.Constant) else self.mode.get(k.value.id) if \
                        isinstance(k.value, ast.Name) else None
                if k.arg is None:
                    return default if key in self.asked else None
            return default
        v = super(Effects, self).flag_value(t, call, p)
        if v is None and p in self.asked and call is not None and any(k.arg is None for k in call.keywords) and not any(
                k.arg == p for k in call.keywords):
            d = self.default(t, p)
            if isinstance(d, ast.Constant):
                return bool(d.value)
        return v

    # -- one function
    def function(self, f):
        self.cur_calls = self.calls_of.setdefault(f.qual, set())
        g = cfg_of(f)
        env0 = {}
        for p in f.params:
            env0[p] = frozenset({(p, (), (), None)})
        for p in (f.vararg, f.kwarg):
            if p:
                env0[p] = frozenset({(p, (), (), None)})
        flags = self.local_flags(f)
        start = (g.entry.id, (None,) * len(flags))
        state = {start: env0}
        work = [(g.entry, start[1])]
        by = {n.id: n for n in g.nodes}
        count = 0
        while work:
            n, part = work.pop()
            count += 1
            if count > 4000:
                break
            env = dict(state[(n.id, part)])
            before = env if n.kind != 'stmt' else dict(env)
            out = self.step(f, n, env)
            after = part
            if flags and n.kind == 'stmt' and isinstance(n.ast, ast.Assign):
                after = self.assign_flags(flags, part, n.ast)
            for s, label in n.succ:
                cur, to = (before, part) if label == 'exc' else (out, after)
                if n.kind == 'test' and label in ('t', 'f'):
                    if not self.policy.feasible(self, f, n.extra, label == 't'):
                        continue
                    v = self.test_flag(flags, part, n.extra)
                    if v is not None and v != (label == 't'):
                        continue
                    if is_lazy_test(f, n.extra, label == 't', env):
                        cur = dict(out)
                        cur['?lazy'] = frozenset({OTHER})
                    else:
                        nm = self.isnone(n.extra, label == 't')
                        if nm:
                            cur = dict(out)
                            cur[nm] = EMPTY
                k = (s.id, to)
                old = state.get(k)
                if old is None:
                    state[k] = dict(cur)
                    work.append((by[s.id], to))
                elif self.join(f, old, cur):
                    work.append((by[s.id], to))
        ex = None
        for (i, part), st in state.items():
            if i == g.exit.id:
                if ex is None:
                    ex = dict(st)
                else:
                    self.join(f, ex, st)
        if ex is not None and f.selfname:
            me = (f.selfname, (), (), None)
            for k, v in ex.items():
                if k.startswith('.'):
                    orig = step(me, k[1:])
                    if v != frozenset({orig}):
                        node = self.nodes_.get((f.qual, k))
                        self.record(f, f.selfname, (), k[1:], node or (f.node, 'assignment'), v)

    nodes_ = {}

    def local_flags(self, f):
        """Local names that only ever hold True or False and are tested: states are kept apart by their values."""
        k = self.prog.base(f).qual
        if k not in self.lflags:
            out = []
            for name, vals in self.prog.local_assigns(f).items():
                if len(vals) > 1 and all(v[0] == 'val' and isinstance(v[1], ast.Constant) and isinstance(v[1].value, bool)
                                         for v in vals):
                    out.append(name)
            self.lflags[k] = sorted(out)[:2]
        return self.lflags[k]

    lflags = {}

    @staticmethod
    def assign_flags(flags, part, a):
        part = list(part)
        for t in a.targets:
            if isinstance(t, ast.Name) and t.id in flags and isinstance(a.value, ast.Constant):
                part[flags.index(t.id)] = a.value.value
        return tuple(part)

    @staticmethod
    def test_flag(flags, part, test):
        truth = True
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        if isinstance(test, ast.Name) and test.id in flags:
            v = part[flags.index(test.id)]
            return None if v is None else v == truth
        return None

    @staticmethod
    def isnone(test, truth):
        while isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            test, truth = test.operand, not truth
        if isinstance(test, ast.Compare) and isinstance(test.left, ast.Name) and len(test.ops) == 1 and isinstance(
                test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            if isinstance(test.ops[0], (ast.Is, ast.Eq)) == truth:
                return test.left.id
        return None

    def join(self, f, old, cur):
        ch = False
        me = (f.selfname, (), (), None) if f.selfname else None
        if '?lazy' in old and '?lazy' not in cur:
            del old['?lazy']
            ch = True
        for k, v in cur.items():
            if k == '?lazy':
                continue
            o = old.get(k)
            if o is None:
                o = EMPTY
                if k.startswith('.') and me:
                    o = frozenset({step(me, k[1:])})
                    if not v <= o:
                        old[k] = o | v
                        ch = True
                    continue
            if not v <= o:
                old[k] = self.cap(o | v)
                ch = ch or old[k] != o
        for k in list(old):
            if k.startswith('.') and k not in cur and me:
                orig = step(me, k[1:])
                if orig not in old[k]:
                    old[k] = old[k] | {orig}
                    ch = True
        return ch

    @staticmethod
    def cap(ts):
        if len(ts) <= TMAX:
            return ts
        return frozenset(sorted(ts, key=lambda t: (len(t[1]) + len(t[2]), repr(t)))[:TMAX])

    def step(self, f, n, env):
        a = n.ast
        if n.kind == 'for':
            self.bind(f, a.target, steps(self._iter_tokens.get((f.qual, id(a)), EMPTY), '[]'), env)
            return env
        if n.kind == 'iter':
            k = (f.qual, id(a))
            self._iter_tokens[k] = self._iter_tokens.get(k, EMPTY) | self.iterated(f, n.extra, env)
            return env
        if n.kind == 'with_enter':
            ts = self.ev(f, n.extra.context_expr, env)
            if n.extra.optional_vars is not None:
                self.bind(f, n.extra.optional_vars, ts, env)
            return env
        if n.kind == 'return':
            if a.value is not None:
                self.add_ret(f, self.ev(f, a.value, env))
            return env
        if n.kind == 'test':
            self.ev(f, n.extra, env)
            return env
        if n.kind != 'stmt':
            for e in node_exprs(n):
                if isinstance(e, ast.expr):
                    self.ev(f, e, env)
            return env
        if isinstance(a, ast.Assign):
            if isinstance(a.value, (ast.Tuple, ast.List)) and all(
                    isinstance(t, (ast.Tuple, ast.List)) and len(t.elts) == len(a.value.elts) for t in a.targets):
                vals = [self.ev(f, v, env) for v in a.value.elts]
                for t in a.targets:
                    for x, v in zip(t.elts, vals):
                        self.bind(f, x, v, env)
            else:
                ts = self.ev(f, a.value, env)
                for t in a.targets:
                    self.bind(f, t, ts, env)
        elif isinstance(a, ast.AugAssign):
            ts = self.ev(f, a.value, env)
            if isinstance(a.target, ast.Name):
                cur = env.get(a.target.id, EMPTY)
                self.change(f, frozenset(t for t in cur if t[1] and (t[1][-1].lstrip('_') in ('value', 'mask', 'data'))), '[]',
                            a, 'in-place arithmetic', env)
            else:
                self.ev(f, a.target, env)
                self.store(f, a.target, frozenset({OTHER}) | ts, env, a)
        elif isinstance(a, ast.AnnAssign):
            if a.value is not None:
                self.bind(f, a.target, self.ev(f, a.value, env), env)
        elif isinstance(a, ast.Delete):
            for t in a.targets:
                if isinstance(t, ast.Subscript):
                    self.delitem(f, t, env, a)
                elif isinstance(t, ast.Attribute):
                    self.change(f, self.ev(f, t.value, env), t.attr, a, 'del', env)
                elif isinstance(t, ast.Name):
                    env.pop(t.id, None)
        elif isinstance(a, ast.Expr):
            if isinstance(a.value, ast.Yield):
                if a.value.value is not None:
                    self.add_ret(f, wrap(self.ev(f, a.value.value, env)))
            else:
                self.ev(f, a.value, env)
        return env

    def specials(self, f, e, name):
        """Methods of ocgis that implement an operator or attribute of the value of e."""
        c = self.prog.ctx.get(f.qual)
        if c is not None and isinstance(e, ast.Name) and e.id == f.selfname:
            m = self.prog.find_method(c, name)
            return [self.prog.view(m, c)] if m is not None else []
        out = []
        for c in self.prog.infer(f, e):
            if isinstance(c, ClassInfo):
                for m in self.prog.family(c, name):
                    if m not in out:
                        out.append(m)
        return out

    def delitem(self, f, t, env, a):
        base = self.ev(f, t.value, env)
        ours = False
        for m in self.specials(f, t.value, '__delitem__'):
            ours = True
            self.apply(f, m, None, a, {m.params[0]: base}, env)
        if not ours:
            self.change(f, base, '[]', a, 'del', env)

    def iterated(self, f, e, env):
        ts = self.ev(f, e, env)
        out = set(ts)
        for m in self.specials(f, e, '__iter__'):
            out |= self.apply(f, m, None, e, {m.params[0]: ts}, env)
        return frozenset(out)

    def add_ret(self, f, ts):
        ts = {t for t in ts if t[0] != '?'}
        for q in {f.qual, self.prog.base(f).qual}:
            s = self.ret.setdefault(q, set())
            if not ts <= s and len(s) < TMAX:
                s |= ts
                self.dirty.add(q)

    # -- writes
    def bind(self, f, t, ts, env):
        if isinstance(t, ast.Name):
            env[t.id] = self.cap(frozenset(x for x in ts if x[0] != '?'))
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                self.bind(f, x, steps(ts, '[]'), env)
        elif isinstance(t, ast.Starred):
            self.bind(f, t.value, ts, env)
        else:
            self.store(f, t, ts, env, t)

    def store(self, f, t, ts, env, node):
        if isinstance(t, ast.Subscript):
            base = self.ev(f, t.value, env)
            self.ev(f, t.slice, env)
            ours = False
            for m in self.specials(f, t.value, '__setitem__'):
                ours = True
                self.apply(f, m, None, node, dict(zip(m.params, [base, EMPTY, ts])), env, t.value)
            if not ours:
                self.change(f, base, '[]', node, 'item assignment', env)
                if isinstance(t.value, ast.Name) and t.value.id in env:
                    self.refill(t.value.id, (), env)
                elif isinstance(t.value, ast.Attribute) and isinstance(t.value.value, ast.Name) and t.value.value.id in env:
                    self.refill(t.value.value.id, (t.value.attr,), env)
            if isinstance(t.value, ast.Name):
                env[t.value.id] = self.cap(env.get(t.value.id, EMPTY) | wrap(ts, key_step(t.slice)))
        elif isinstance(t, ast.Attribute):
            base = self.ev(f, t.value, env)
            setters = []
            for c in self.prog.infer(f, t.value):
                if isinstance(c, ClassInfo):
                    m = self.prog.find_setter(c, t.attr)
                    if m is not None and len(m.params) > 1 and m not in setters:
                        setters.append(m)
            if setters:
                for m in setters:
                    self.apply(f, m, None, node, {m.params[0]: base, m.params[1]: ts}, env, t.value)
            else:
                self.change(f, base, t.attr, node, 'assignment', env, ts or frozenset({OTHER}))
                self.local_put(t.value, t.attr, ts, env)

    def local_put(self, base, attr, ts, env):
        """The object the local name refers to holds another value in the attribute from here on."""
        if not isinstance(base, ast.Name) or base.id not in env:
            return
        out = set()
        if attr == '__dict__':
            # the copy gets a state of its own
            env[base.id] = frozenset(t for t in env[base.id] if not t[2] and t[3] is None)
            return
        for (r, p, u, s) in env[base.id]:
            if u and u[0] == attr:
                continue
            if not u and s is not None and r != '?':
                s = s | {attr}
            out.add((r, p, u, s))
        env[base.id] = self.cap(frozenset(out) | wrap(ts, attr))

    @staticmethod
    def refill(name, up, env):
        """The entries of a copied container are replaced: it no longer holds those of the original."""
        env[name] = frozenset((r, p, u, s | {'[]'}) if u == up and s is not None and r != '?' else (r, p, u, s)
                              for r, p, u, s in env[name])

    def change(self, f, ts, what, node, how, env, val=frozenset({OTHER})):
        for t in ts:
            r, p, u, s = t
            if r == '?' or u or s is not None:
                continue
            if '?lazy' in env and (r == f.selfname or f.selfname is None):
                continue
            if r == f.selfname and not p and what != '[]':
                env['.' + what] = frozenset(val) or frozenset({OTHER})
                self.nodes_[(f.qual, '.' + what)] = (node, how)
            else:
                self.record(f, r, p, what, (node, how), frozenset({OTHER}))

    def record(self, f, root, path, what, where, val):
        if not self.worth(f, root, path):
            return
        mode = frozenset(self.mode.items())
        for q in {f.qual, self.prog.base(f).qual}:
            m = self.eff.setdefault(q, {})
            k = (root, path, what)
            if k not in m:
                if len(m) > 400:
                    continue
                m[k] = [where, {mode}, set(val)]
                self.dirty.add(q)
            else:
                if mode not in m[k][1]:
                    m[k][1].add(mode)
                    self.dirty.add(q)
                if not val <= m[k][2]:
                    m[k][2] |= val
                    self.dirty.add(q)

    def worth(self, f, root, path):
        return True

    # -- calls
    def apply(self, f, t, call, node, toks, env, recv=None):
        self.cur_calls.add(t.qual)
        writes = {}
        for (root, path, what), (where, modes, val) in list(self.eff.get(t.qual, {}).items()):
            ts = toks.get(root, EMPTY)
            if not ts:
                continue
            if not any(all(self.flag_value(t, call, q) in (None, v) for q, v in mode) for mode in list(modes)):
                continue
            vals = set()
            for v in val:
                if v[0] == '?':
                    vals.add(OTHER)
                else:
                    c = compose(v, toks.get(v[0], EMPTY))
                    vals |= c or {OTHER}
            if not path and what != '[]' and recv is not None and root == t.selfname:
                writes[what] = vals
            elif len(path) == 1 and what == '[]' and isinstance(recv, ast.Name) and recv.id in env and root == t.selfname:
                self.refill(recv.id, path, env)
            for tok in ts:
                n = descend(tok, path)
                if n is None:
                    continue
                r, p, u, s = n
                if u or s is not None or r == '?':
                    continue
                if '?lazy' in env and r == f.selfname:
                    continue
                if r == f.selfname and not p and what != '[]':
                    env['.' + what] = frozenset(vals) or frozenset({OTHER})
                    self.nodes_[(f.qual, '.' + what)] = (node, 'call of %s' % self.prog.base(t).qual.split(':')[-1], where,
                                                         self.prog.base(t))
                else:
                    self.record(f, r, p, what, (node, 'call of %s' % self.prog.base(t).qual.split(':')[-1], where,
                                                self.prog.base(t)), frozenset(vals) or frozenset({OTHER}))
        for what, vals in writes.items():
            self.local_put(recv, what, frozenset(v for v in vals if v[0] != '?'), env)
        out = set()
        for tok in list(self.ret.get(t.qual, ())):
            ts = toks.get(tok[0])
            if ts:
                out |= compose(tok, ts)
        return out

    # -- expressions
    def ev(self, f, e, env):
        if e is None or isinstance(e, (ast.Constant, ast.JoinedStr, ast.Lambda)):
            return EMPTY
        if isinstance(e, ast.Name):
            return env.get(e.id, EMPTY)
        if isinstance(e, ast.Attribute):
            base = self.ev(f, e.value, env)
            props = []
            for m in self.specials(f, e.value, e.attr):
                if m.kind == 'property' and m not in props:
                    props.append(m)
            if props:
                out = set()
                for m in props:
                    out |= self.apply(f, m, None, e, {m.params[0]: base} if m.params else {}, env)
                return frozenset(out)
            if isinstance(e.value, ast.Name) and e.value.id == f.selfname and '.' + e.attr in env:
                return frozenset(t for t in env['.' + e.attr] if t[0] != '?')
            if e.attr in ('data', 'T', 'flat'):
                # views of an array
                arr = frozenset(t for t in base if t[1] and t[1][-1].lstrip('_') in ('value', 'mask') and not t[2])
                return arr | steps(base - arr, e.attr)
            return steps(base, e.attr)
        if isinstance(e, ast.Subscript):
            b = self.ev(f, e.value, env)
            self.ev(f, e.slice, env)
            out, ours = set(), False
            for m in self.specials(f, e.value, '__getitem__'):
                ours = True
                out |= self.apply(f, m, None, e, {m.params[0]: b}, env)
            if ours:
                return frozenset(out)
            if isinstance(e.slice, ast.Slice):
                return shallow(b)
            return steps(b, key_step(e.slice))
        if isinstance(e, (ast.List, ast.Tuple, ast.Set)):
            out = EMPTY
            for x in e.elts:
                out |= shallow(self.ev(f, x.value, env)) if isinstance(x, ast.Starred) else wrap(self.ev(f, x, env))
            return out
        if isinstance(e, ast.Dict):
            out = EMPTY
            for k, x in zip(e.keys, e.values):
                v = self.ev(f, x, env)
                out |= shallow(v) if k is None else wrap(v, key_step(k))
            return out
        if isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            env2 = dict(env)
            for gen in e.generators:
                self.bind(f, gen.target, steps(self.iterated(f, gen.iter, env2), '[]'), env2)
                for c in gen.ifs:
                    self.ev(f, c, env2)
            if isinstance(e, ast.DictComp):
                self.ev(f, e.key, env2)
                r = wrap(self.ev(f, e.value, env2))
            else:
                r = wrap(self.ev(f, e.elt, env2))
            for k in env2:
                if k.startswith('.'):
                    env[k] = env2[k]
            return r
        if isinstance(e, ast.IfExp):
            self.ev(f, e.test, env)
            out = EMPTY
            if self.policy.feasible(self, f, e.test, True):
                out |= self.ev(f, e.body, env)
            if self.policy.feasible(self, f, e.test, False):
                out |= self.ev(f, e.orelse, env)
            return out
        if isinstance(e, ast.BoolOp):
            out = EMPTY
            for v in e.values:
                out |= self.ev(f, v, env)
            return out
        if isinstance(e, ast.NamedExpr):
            ts = self.ev(f, e.value, env)
            self.bind(f, e.target, ts, env)
            return ts
        if isinstance(e, ast.Starred):
            return self.ev(f, e.value, env)
        if isinstance(e, ast.Call):
            return self.call(f, e, env)
        out = EMPTY
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                v = self.ev(f, c, env)
                if isinstance(e, (ast.Await, ast.YieldFrom)):
                    out |= v
        if isinstance(e, ast.Yield) and e.value is not None:
            self.add_ret(f, wrap(self.ev(f, e.value, env)))
        return out

    def call(self, f, e, env):
        fn = e.func
        d = dotted(fn) or ''
        argts = [self.ev(f, a, env) for a in e.args]
        kwts = {k.arg: self.ev(f, k.value, env) for k in e.keywords}
        if isinstance(fn, ast.Name):
            if fn.id in SHALLOW and argts and not self.prog._is_local(self.prog.base(f), fn.id):
                out = EMPTY
                for t in argts:
                    out |= shallow(t)
                for t in kwts.values():
                    out |= wrap(t)
                if fn.id in ('dict', 'OrderedDict'):
                    # made from pairs
                    out |= frozenset((r, p, u[1:], s) for r, p, u, s in out if u[:2] == ('[]', '[]'))
                return out
            if fn.id in ('zip', 'enumerate'):
                out = EMPTY
                for t in argts:
                    out |= wrap(wrap(steps(t, '[]')))
                return out
            if fn.id == 'next' and argts:
                return steps(argts[0], '[]')
            if fn.id == 'getattr' and len(e.args) >= 2:
                if isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                    fake = ast.copy_location(ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Load()), e)
                    return self.ev(f, fake, env)
                return argts[2] if len(argts) > 2 else EMPTY
            if fn.id == 'setattr' and len(e.args) == 3:
                if isinstance(e.args[1], ast.Constant) and isinstance(e.args[1].value, str):
                    fake = ast.copy_location(ast.Attribute(value=e.args[0], attr=e.args[1].value, ctx=ast.Store()), e)
                    self.store(f, fake, argts[2], env, e)
                else:
                    self.change(f, argts[0], '*', e, 'setattr', env)
                return EMPTY
            if fn.id == 'deepcopy':
                return EMPTY
            if fn.id in ('len', 'isinstance', 'str', 'int', 'float', 'bool', 'range', 'type', 'id', 'hash', 'min', 'max', 'sum',
                         'abs', 'any', 'all', 'hasattr', 'super', 'print', 'repr'):
                return EMPTY
        if d == 'copy.deepcopy':
            return EMPTY
        if d in ('copy.copy', 'itertools.chain', 'collections.OrderedDict') and argts:
            return frozenset(itertools.chain.from_iterable(shallow(t) for t in argts))
        if d in PASS_FUNCS and argts:
            return argts[0]
        recv = EMPTY
        bound = None
        if isinstance(fn, ast.Attribute):
            bound = fn.value
            recv = self.ev(f, fn.value, env) if not (isinstance(fn.value, ast.Call) and dotted(fn.value.func) == 'super') \
                else (frozenset({(f.selfname, (), (), None)}) if f.selfname else EMPTY)
        elif not isinstance(fn, ast.Name):
            self.ev(f, fn, env)
        if isinstance(bound, ast.Call) and dotted(bound.func) == 'super' and f.selfname:
            bound = ast.copy_location(ast.Name(id=f.selfname, ctx=ast.Load()), bound)
        targets = [t for t in self.prog.resolve_call(f, e, cha=False) if isinstance(t, FuncInfo)]
        if f.kind == 'class' or targets and isinstance(fn, ast.Attribute) and targets[0].kind == 'class':
            pass
        out = set()
        if isinstance(fn, ast.Attribute) and not targets:
            name = fn.attr
            if name in MUTATORS or name in ARRAY_MUTATORS or name == '__setitem__':
                if name not in ('write', 'close', 'send') and not self.prog.infer(f, fn.value):
                    self.change(f, recv, '[]', e, 'call of %s()' % name, env)
                new = EMPTY
                for t in argts:
                    new |= shallow(t) if name in ('extend', 'update') else wrap(t)
                for k, t in kwts.items():
                    new |= wrap(t)
                if name != 'pop' and isinstance(fn.value, ast.Name):
                    env[fn.value.id] = self.cap(env.get(fn.value.id, EMPTY) | new)
                if name in ('pop', 'popitem', 'setdefault', 'popleft'):
                    out |= steps(recv, key_step(e.args[0]) if e.args else '[]')
                    if name == 'setdefault' and len(argts) > 1:
                        out |= argts[1]
            elif name == 'get':
                out |= steps(recv, key_step(e.args[0]) if e.args else '[]')
                if len(argts) > 1:
                    out |= argts[1]
            elif name in ('values', 'itervalues'):
                out |= shallow(recv)
            elif name in ('items', 'iteritems'):
                out |= wrap(wrap(steps(recv, '[]')))
            elif name == 'copy':
                # a shallow copy of a container, a full one of an array
                out |= frozenset(t for t in shallow(recv) if not (t[1] and t[1][-1].lstrip('_') in ('value', 'mask', 'data')))
            elif name in PASS_METHODS:
                out |= recv
        for t in targets:
            m = self.prog.map_args(t, e, bound)
            toks = {}
            ids = {id(a): v for a, v in zip(e.args, argts)}
            ids.update({id(k.value): kwts[k.arg] for k in e.keywords if k.arg is not None})
            for p, x in m.items():
                if isinstance(x, ast.AST):
                    if p == t.selfname and x is bound:
                        toks[p] = recv
                    elif id(x) in ids:
                        toks[p] = ids[id(x)]
            star = EMPTY
            if '**' in m:
                star |= kwts.get(None, EMPTY)
            if star:
                for p in t.params:
                    if p not in toks and p != t.selfname:
                        toks[p] = steps(star, 'k:' + p)
                if t.kwarg:
                    toks[t.kwarg] = star
            if t.kwarg:
                extra = EMPTY
                for k in e.keywords:
                    if k.arg is not None and k.arg not in t.params:
                        extra |= wrap(kwts[k.arg], 'k:' + k.arg)
                toks[t.kwarg] = toks.get(t.kwarg, EMPTY) | extra
            if t.vararg and m.get('*rest'):
                extra = EMPTY
                for a in m['*rest']:
                    extra |= wrap(ids.get(id(a), EMPTY))
                toks[t.vararg] = toks.get(t.vararg, EMPTY) | extra
            new = t.name == '__init__' and not (isinstance(fn, ast.Attribute) and fn.attr == '__init__')
            if new:
                out |= self.construct(f, t, e, toks, env)
            else:
                out |= self.apply(f, t, e, e, toks, env, bound)
        return self.cap(frozenset(out))

    def construct(self, f, t, call, toks, env):
        """The object made holds what the constructor stored of its arguments."""
        toks.pop(t.selfname, None)
        self.apply(f, t, call, call, toks, env)
        out = set()
        for (root, path, what), (where, modes, val) in list(self.eff.get(t.qual, {}).items()):
            if root != t.selfname or path:
                continue
            for v in val:
                if v[0] != '?' and v[0] != t.selfname:
                    out |= wrap(compose(v, toks.get(v[0], EMPTY)), what)
        return out


class EffPolicy(Policy):
    def feasible(self, flow, f, test, truth):
        neg = truth
        t = test
        while isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            t, neg = t.operand, not neg
        if isinstance(t, ast.Compare) and isinstance(t.left, ast.Attribute) and t.left.attr == '_parent' and isinstance(
                t.comparators[0], ast.Constant) and t.comparators[0].value is None and f.name not in ('parent', 'copy'):
            # every variable and collection member outside an orphaned() scope has a parent
            return isinstance(t.ops[0], (ast.IsNot, ast.NotEq)) == neg
        return super(EffPolicy, self).feasible(flow, f, test, truth)


# Classes analysed once per inheriting class; methods of other classes are analysed for the class that defines them.
PER_CLASS = ('ocgis.base', 'ocgis.collection', 'ocgis.variable', 'ocgis.spatial', 'ocgis.driver')
SKIP = ('ocgis.util.large_array', 'ocgis.ocli', 'ocgis.contrib', 'ocgis.util.enum', 'ocgis.util.addict', 'ocgis.ops.parms',
        'ocgis.messages', 'ocgis.constants')


def analyse(prog, cls=None):
    cached = prog.__dict__.get('_effects')
    if cached is None:
        from .rules.arguments import FuncList
        views = Views(prog)
        funcs, seen = FuncList(), set()
        whole = getattr(prog, 'fixture', False)

        def skip(m):
            return not whole and any(m.name.startswith(x) for x in SKIP)

        for f in prog.funcs.values():
            if (f.cls is None or f.kind == 'static' or f.parent is not None) and not skip(f.module):
                funcs.append(f)
        for c in prog.classes.values():
            if skip(c.module):
                continue
            per = whole or any(c.module.name.startswith(m) for m in PER_CLASS)
            for k in prog.mro(c) if per else [c]:
                for dct in (k.methods, k.setters):
                    for name in dct:
                        m = prog.find_setter(c, name) if dct is k.setters else prog.find_method(c, name)
                        if m is not None:
                            v = views.view(m, c)
                            if v.qual not in seen:
                                seen.add(v.qual)
                                funcs.append(v)
        funcs.seen = seen | {f.qual for f in funcs}
        funcs.skip = skip
        Effects.done, Effects.calls_of, Effects.nodes_, Effects.kwflags, Effects.lflags = set(), {}, {}, {}, {}
        cached = prog._effects = ((cls or Effects)(views, EffPolicy(views), funcs), funcs, views)
    return cached
