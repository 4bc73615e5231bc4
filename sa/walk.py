"""Path-sensitive, interprocedural value-numbering walk over control-flow graphs.

A state is (env, facts, tok): ``env`` maps local names and attributes to symbolic values (nested tuples), ``facts`` maps
symbolic conditions to the truth established on the path, ``tok`` is the client's set of tokens.  Calls the client selects
are walked into (their arguments bound to the caller's values), so extracting a helper does not change what is seen.
Values are only compared for identity; nothing is executed and no arithmetic is solved.
"""
import ast

from .cfg import cfg_of, node_exprs
from .program import FuncInfo, ClassInfo, dotted, own_nodes

MAX_STATES = 40000
MAX_VARIANTS = 64


class WalkBudget(Exception):
    pass


class St(object):
    __slots__ = ('env', 'facts', 'tok', '_h')

    def __init__(self, env, facts, tok):
        self.env, self.facts, self.tok = env, facts, tok
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash((frozenset(self.env.items()), frozenset(self.facts.items()), self.tok))
        return self._h

    def __eq__(self, o):
        return self.tok == o.tok and self.facts == o.facts and self.env == o.env

    def bind(self, key, val):
        env = dict(self.env)
        env[key] = val
        return St(env, self.facts, self.tok)

    def add(self, *toks):
        return St(self.env, self.facts, self.tok | frozenset(toks))

    def drop(self, pred):
        return St(self.env, self.facts, frozenset(t for t in self.tok if not pred(t)))

    def fact(self, key, val):
        f = dict(self.facts)
        f[key] = val
        return St(self.env, f, self.tok)


def contains(sym, part):
    if sym == part:
        return True
    return isinstance(sym, tuple) and any(contains(x, part) for x in sym)


def deeper(sym, n):
    if not isinstance(sym, tuple):
        return False
    if n == 0:
        return True
    return any(deeper(x, n - 1) for x in sym)


def atoms(sym):
    yield sym
    if isinstance(sym, tuple):
        for x in sym:
            for y in atoms(x):
                yield y


def show(sym):
    if not isinstance(sym, tuple) or not sym:
        return str(sym)
    k = sym[0]
    if k == 'c':
        return repr(sym[1])
    if k in ('g', 'p', 'l'):
        return str(sym[-1])
    if k == 'self':
        return 'self'
    if k == 'attr':
        return '%s.%s' % (show(sym[1]), sym[2])
    if k == 'join':
        return 'join(%s)' % ', '.join(show(x) for x in sym[1])
    if k == 'fresh':
        return '<%s>' % (sym[1],)
    if k == 'cat':
        return '(%s)' % ' + '.join(show(x) for x in sym[1])
    if k in ('call', 'ext'):
        return '%s(%s)' % (show(sym[1]), ', '.join(show(x) for x in sym[2]))
    return '%s(%s)' % (k, ', '.join(show(x) for x in sym[1:]))


NONE = ('c', None)
PURE_EXT = {'os.path.exists', 'os.path.lexists', 'os.path.isdir', 'os.path.isfile', 'len', 'isinstance', 'hasattr',
            'os.path.abspath', 'os.path.realpath', 'os.path.split', 'os.path.dirname', 'os.path.basename',
            'os.path.splitext', 'os.path.normpath', 'os.path.expanduser', 'str', 'bool', 'tuple', 'issubclass'}
PURE_METH = {'exists', 'isdir', 'isfile'}


class Client(object):
    """Hooks; all optional."""
    want_exc = True  # follow exceptions out of functions
    keep_calls = False  # value-number unknown calls by (callee, args) instead of making each a fresh value

    def inline(self, w, f, call, target, recv):
        return False

    def call(self, w, f, call, name, recv, args, kwargs, st):
        """Return None or a list of (value, state) replacing the default treatment."""
        return None

    def cond(self, w, f, sym):
        """A condition the client decides: True, False or None."""
        return None

    def keep_attr(self, base, attr):
        """Track values stored to base.attr?"""
        return True

    def relevant(self, w, f, node):
        """Are the facts established by this condition worth remembering?"""
        return True

    def store(self, w, f, node, key, val, st):
        return st

    def exit(self, w, f, kind, val, st):
        pass

    def edge(self, w, f, node, label, st):
        """Return False to cut the path."""
        return True


def stored_attrs(prog):
    """Names assigned as attributes of some object anywhere in the program."""
    r = prog.__dict__.get('_stored_attrs')
    if r is None:
        r = set()
        for f in prog.funcs.values():
            for x in own_nodes(f.node):
                if isinstance(x, ast.Attribute) and isinstance(x.ctx, ast.Store):
                    r.add(x.attr)
        prog.__dict__['_stored_attrs'] = r
    return r


_live_cache = {}


def liveness(f):
    """Names live on entry to each CFG node (names captured by nested functions are always live)."""
    key = id(f.node)
    hit = _live_cache.get(key)
    if hit is not None and hit[0] is f.node:
        return hit[1]
    from .paths import assigned_names
    g = cfg_of(f)
    always = {'#ret'}
    if f.params:
        always.add(f.params[0])
    for x in own_nodes(f.node):
        if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            always |= {y.id for y in ast.walk(x) if isinstance(y, ast.Name)}
    use, dfn = {}, {}
    for n in g.nodes:
        u = set()
        for e in node_exprs(n):
            for x in ast.walk(e):
                if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Store):
                    u.add(x.id)
        if n.kind == 'stmt' and isinstance(n.ast, ast.AugAssign):
            u |= {x.id for x in ast.walk(n.ast.target) if isinstance(x, ast.Name)}
        use[n.id] = u
        dfn[n.id] = assigned_names(n)[0]
    live = {n.id: set(use[n.id]) for n in g.nodes}
    changed = True
    order = list(g.nodes)
    while changed:
        changed = False
        for n in order:
            out = set()
            kept = set()
            for s, label in n.succ:
                if label == 'exc':
                    kept |= live.get(s.id, set())
                out |= live.get(s.id, set())
            new = use[n.id] | (out - dfn[n.id]) | kept
            if new != live[n.id]:
                live[n.id] = new
                changed = True
    for k in live:
        live[k] |= always
    _live_cache[key] = (f.node, live)
    return live


class Walker(object):
    def __init__(self, prog, client, depth=8):
        self.p, self.c, self.depth = prog, client, depth
        self._memo = {}
        self._stack = []
        self.nstates = 0
        self.functions = set()

    # -- entry --------------------------------------------------------------------------------------------------
    def run(self, f, args=None, cls=None, st=None):
        """Walk f.  Returns list of (kind, value, state), kind in ret/exc."""
        env = {}
        for i, name in enumerate(f.params):
            if i == 0 and f.cls is not None and f.kind in ('method', 'property', 'setter', 'class'):
                env[name] = ('self', (cls or f.cls).qual)
            else:
                env[name] = ('p', f.qual, name)
        if args:
            env.update(args)
        base = st or St({}, {}, frozenset())
        e0 = {k: v for k, v in base.env.items() if isinstance(k, tuple)}
        e0.update(env)
        return self._walk(f, St(e0, base.facts, base.tok))

    def _walk(self, f, st0):
        key = (f.qual, st0)
        if key in self._memo:
            return self._memo[key]
        if f.qual in self._stack or len(self._stack) > self.depth:
            return None
        self._stack.append(f.qual)
        self.functions.add(f.qual)
        try:
            r = self._explore(f, st0)
        finally:
            self._stack.pop()
        self._memo[key] = r
        return r

    def _explore(self, f, st0):
        g = cfg_of(f)
        live = liveness(f)
        start = (g.entry, st0)
        seen = {(g.entry.id, st0)}
        work = [start]
        exits = []
        eseen = set()
        while work:
            n, st = work.pop()
            if n is g.exit or n is g.exc_exit:
                if n is g.exc_exit and not self.c.want_exc:
                    continue
                kind = 'ret' if n is g.exit else 'exc'
                val = st.env.get('#ret', NONE)
                env = {k: v for k, v in st.env.items() if isinstance(k, tuple)}
                out = St(env, st.facts, st.tok)
                k = (kind, val, out)
                if k not in eseen:
                    eseen.add(k)
                    self.c.exit(self, f, kind, val, out)
                    exits.append(k)
                continue
            for s, label, st2 in self._step(f, n, st):
                if not self.c.edge(self, f, n, label, st2):
                    continue
                lv = live.get(s.id)
                if lv is not None and any(isinstance(x, str) and x not in lv for x in st2.env):
                    st2 = St({x: v for x, v in st2.env.items() if not isinstance(x, str) or x in lv}, st2.facts, st2.tok)
                k = (s.id, st2)
                if k not in seen:
                    seen.add(k)
                    self.nstates += 1
                    if self.nstates > MAX_STATES:
                        raise WalkBudget(f.qual)
                    work.append((s, st2))
        return exits

    def _step(self, f, n, st):
        excs = []
        post = {}  # label -> states
        k = n.kind
        a = n.ast
        self._f, self._n = f, n
        if k == 'test':
            for truth, lab in ((True, 't'), (False, 'f')):
                if any(l == lab for _, l in n.succ):
                    post[lab] = [s for s in self.assume(f, n.extra, truth, st, excs)]
        elif k == 'iter':
            post['n'] = [s for v, s in self.ev(f, n.extra, st, excs)]
        elif k == 'for':
            v = self.fresh(st, 'for', a)
            base = self.forget(st, v)
            post['t'] = [self._bind_target(f, a.target, v, base, excs)]
            post['f'] = [st]
        elif k == 'with_enter':
            out = []
            for v, s in self.ev(f, n.extra.context_expr, st, excs):
                if n.extra.optional_vars is not None:
                    s = self._bind_target(f, n.extra.optional_vars, ('enter', v), s, excs)
                out.append(s)
            post['n'] = out
        elif k == 'handler':
            s = st
            if a.name:
                v = self.fresh(st, 'exc', a)
                s = self.forget(st, v).bind(a.name, v)
            post['n'] = [s]
        elif k == 'return':
            if a.value is None:
                post['n'] = [st.bind('#ret', NONE)]
            else:
                post['n'] = [s.bind('#ret', v) for v, s in self.ev(f, a.value, st, excs)]
        elif k == 'raise':
            s = [st]
            if a.exc is not None:
                s = [x for _, x in self.ev(f, a.exc, st, excs)]
            excs = list(excs) + s
        elif k == 'stmt':
            post['n'] = self._stmt(f, n, a, st, excs)
        else:
            for s, l in n.succ:
                post[l] = [st]
        out = []
        for s, label in n.succ:
            if label == 'exc' and k not in ('dispatch', 'with_exit'):
                cand = list(excs)
                if k != 'raise':
                    cand.append(st)
                for x in dict.fromkeys(cand):
                    out.append((s, label, x))
            else:
                for x in dict.fromkeys(post.get(label, [])):
                    out.append((s, label, x))
        return out

    # -- values -------------------------------------------------------------------------------------------------
    def fresh(self, st, what, node):
        return ('fresh', '%s@%s:%d:%d' % (what, self._f.qual, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))

    def forget(self, st, sym):
        """The program point defining ``sym`` runs again: what was known about its former value no longer applies."""
        if not any(contains(v, sym) for v in st.env.values()) and not any(contains(v, sym) for v in st.facts) \
                and not any(contains(t, sym) for t in st.tok):
            return st
        old = ('old', sym)
        env = {k: (old if contains(v, sym) else v) for k, v in st.env.items() if not contains(k, sym)}
        facts = {k: v for k, v in st.facts.items() if not contains(k, sym) and not contains(k, old)}
        tok = frozenset(t for t in st.tok if not contains(t, sym) and not contains(t, old))
        return St(env, facts, tok)

    def _cap(self, l):
        l = list(dict.fromkeys(l))
        if len(l) > MAX_VARIANTS:
            raise WalkBudget('variants')
        return l

    def evs(self, f, es, st, excs):
        out = [((), st)]
        for e in es:
            nxt = []
            for vals, s in out:
                for v, s2 in self.ev(f, e, s, excs):
                    nxt.append((vals + (v,), s2))
            out = self._cap(nxt)
        return out

    def ev(self, f, e, st, excs):
        if isinstance(e, ast.Constant):
            try:
                hash(e.value)
            except TypeError:
                return [(('c', repr(e.value)), st)]
            return [(('c', e.value) if not isinstance(e.value, (bool, int, float)) else ('c', e.value, type(e.value).__name__), st)]
        if isinstance(e, ast.Name):
            return [(self.name(f, e.id, st), st)]
        if isinstance(e, ast.Attribute):
            out = []
            for b, s in self.ev(f, e.value, st, excs):
                out += self.getattr_(f, e, b, s, excs)
            return out
        if isinstance(e, ast.Call):
            return self.call(f, e, st, excs)
        if isinstance(e, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in e.elts):
                return [(self.fresh(st, 'seq', e), st)]
            return [(('seq', vs), s) for vs, s in self.evs(f, e.elts, st, excs)]
        if isinstance(e, ast.Dict):
            if any(k is None for k in e.keys):
                return [(self.fresh(st, 'dict', e), st)]
            out = []
            for ks, s in self.evs(f, e.keys, st, excs):
                for vs, s2 in self.evs(f, e.values, s, excs):
                    out.append((('dict', tuple(zip(ks, vs))), s2))
            return out
        if isinstance(e, ast.BinOp):
            out = []
            for vs, s in self.evs(f, [e.left, e.right], st, excs):
                if isinstance(e.op, ast.Add):
                    parts = ()
                    for v in vs:
                        parts += v[1] if v[0] == 'cat' else (v,)
                    out.append((('cat', parts), s))
                else:
                    out.append((('bin', type(e.op).__name__, vs), s))
            return out
        if isinstance(e, ast.JoinedStr):
            vals = [x.value if isinstance(x, ast.FormattedValue) else x for x in e.values]
            return [(('cat', vs), s) for vs, s in self.evs(f, vals, st, excs)]
        if isinstance(e, ast.IfExp):
            out = []
            for truth, br in ((True, e.body), (False, e.orelse)):
                for s in self.assume(f, e.test, truth, st, excs):
                    out += self.ev(f, br, s, excs)
            return self._cap(out)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(self.neg(v), s) for v, s in self.ev(f, e.operand, st, excs)]
        if isinstance(e, ast.BoolOp):
            return [(('and' if isinstance(e.op, ast.And) else 'or', vs), s) for vs, s in self.evs(f, e.values, st, excs)]
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return [(self.cmp(type(e.ops[0]), vs[0], vs[1]), s)
                    for vs, s in self.evs(f, [e.left, e.comparators[0]], st, excs)]
        if isinstance(e, ast.Compare):
            return [(('cmpn', tuple(type(o).__name__ for o in e.ops), vs), s)
                    for vs, s in self.evs(f, [e.left] + e.comparators, st, excs)]
        if isinstance(e, ast.Subscript):
            out = []
            sl = e.slice
            for b, s in self.ev(f, e.value, st, excs):
                if isinstance(sl, ast.Slice):
                    out.append((('slice', b, ast.unparse(sl)), s))
                    continue
                for k, s2 in self.ev(f, sl, s, excs):
                    out.append((self.getitem(b, k, s2), s2))
            return out
        if isinstance(e, ast.Starred):
            return self.ev(f, e.value, st, excs)
        if isinstance(e, ast.NamedExpr):
            return [(v, s.bind(e.target.id, v)) for v, s in self.ev(f, e.value, st, excs)]
        if isinstance(e, ast.Lambda):
            return [(('lambda', f.qual, e.lineno, e.col_offset), st)]
        # comprehensions, yields, await ...: evaluate the calls they contain for their effects
        sts = [st]
        for x in ast.iter_child_nodes(e):
            if isinstance(x, ast.comprehension):
                sts = [s for s0 in sts for _, s in self.ev(f, x.iter, s0, excs)]
            elif isinstance(x, ast.expr) and not isinstance(e, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
                sts = [s for s0 in sts for _, s in self.ev(f, x, s0, excs)]
        v = self.fresh(st, type(e).__name__, e)
        return [(v, self.forget(s, v)) for s in sts]

    def name(self, f, n, st):
        if n in st.env:
            return st.env[n]
        if n in ('True', 'False', 'None'):
            return ('c', {'True': True, 'False': False, 'None': None}[n])
        if self.p._is_local(f, n):
            return ('l', f.qual, n)
        r = self.p.lookup(f.module, n)
        if isinstance(r, (FuncInfo, ClassInfo)):
            return ('g', r.qual)
        if isinstance(r, str):
            return ('g', r)
        return ('g', n)

    def getattr_(self, f, e, b, st, excs):
        key = (b, e.attr)
        if key in st.env:
            return [(st.env[key], st)]
        if b[0] == 'self':
            c = self.p.classes.get(b[1])
            if c is not None:
                m = self.p.find_method(c, e.attr)
                if m is not None and m.kind == 'property' and self.c.inline(self, f, e, m, b):
                    r = self._invoke(f, m, {m.params[0]: b}, st, excs)
                    if r is not None:
                        return r
                for k in self.p.mro(c):
                    if e.attr in k.attrs:
                        v = k.attrs[e.attr]
                        if isinstance(v, ast.Constant) and e.attr not in stored_attrs(self.p):
                            return self.ev(f, v, st, excs)
                        break
        return [(('attr', b, e.attr), st)]

    def getitem(self, b, k, st):
        if b[0] == 'dict':
            for kk, vv in b[1]:
                if kk == k:
                    return vv
        if b[0] == 'seq' and k[0] == 'c' and isinstance(k[1], int) and -len(b[1]) <= k[1] < len(b[1]):
            return b[1][k[1]]
        return ('item', b, k)

    @staticmethod
    def neg(v):
        if v[0] == 'not':
            return v[1]
        if v[0] == 'c':
            return ('c', not v[1], 'bool')
        return ('not', v)

    def cmp(self, op, l, r):
        if l[0] == 'c' and r[0] == 'c':
            if op in (ast.Is, ast.Eq):
                return ('c', l[1] == r[1] and (l[1] is None) == (r[1] is None), 'bool')
            if op in (ast.IsNot, ast.NotEq):
                return ('c', not (l[1] == r[1] and (l[1] is None) == (r[1] is None)), 'bool')
        if l[0] == 'c' and op in (ast.Eq, ast.NotEq, ast.Is, ast.IsNot):
            l, r = r, l
        if op in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq):
            if r == NONE:
                v = ('isnone', l)
            else:
                v = ('eq', l, r)
            return v if op in (ast.Is, ast.Eq) else ('not', v)
        if op is ast.NotIn:
            return ('not', ('in', l, r))
        if op is ast.In:
            return ('in', l, r)
        flip = {ast.GtE: (ast.Lt, False), ast.LtE: (ast.Gt, False)}
        if op in flip:
            return ('not', (flip[op][0].__name__, l, r))
        return (op.__name__, l, r)

    # -- conditions ---------------------------------------------------------------------------------------------
    def truth(self, f, v, st):
        if v[0] == 'c':
            return bool(v[1])
        if v[0] == 'not':
            t = self.truth(f, v[1], st)
            return None if t is None else not t
        if v[0] in ('and', 'or'):
            ts = [self.truth(f, x, st) for x in v[1]]
            stop = v[0] == 'or'
            if any(t is stop for t in ts):
                return stop
            return (not stop) if all(t is (not stop) for t in ts) else None
        if v in st.facts:
            return st.facts[v]
        if v[0] == 'isnone':
            if v[1][0] in ('c', 'seq', 'dict', 'join', 'cat', 'self', 'lambda', 'new'):
                return v[1] == NONE
            if st.facts.get(v[1]) is True:
                return False
        if v[0] in ('new', 'self', 'lambda'):
            return True
        if v[0] == 'seq' or v[0] == 'dict':
            return len(v[1]) > 0
        if ('isnone', v) in st.facts and st.facts[('isnone', v)]:
            return False
        return self.c.cond(self, f, v)

    def assume_val(self, f, v, want, st):
        """States in which value v has the wanted truth."""
        t = self.truth(f, v, st)
        if t is not None:
            return [st] if t == want else []
        if v[0] == 'not':
            return self.assume_val(f, v[1], not want, st)
        if v[0] in ('and', 'or'):
            stop = v[0] == 'or'
            if want != stop:  # all
                out = [st]
                for x in v[1]:
                    out = [s2 for s in out for s2 in self.assume_val(f, x, want, s)]
                return out
            out = []
            pre = [st]
            for x in v[1]:
                for s in pre:
                    out += self.assume_val(f, x, stop, s)
                pre = [s2 for s in pre for s2 in self.assume_val(f, x, not stop, s)]
            return out
        if not self.c.relevant(self, f, self._n):
            return [st]
        return [st.fact(v, want)]

    def assume(self, f, e, want, st, excs):
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(f, e.operand, not want, st, excs)
        if isinstance(e, ast.BoolOp):
            stop = isinstance(e.op, ast.Or)
            out = []
            pre = [st]
            for i, x in enumerate(e.values):
                if want == stop:
                    for s in pre:
                        out += self.assume(f, x, stop, s, excs)
                pre = [s2 for s in pre for s2 in self.assume(f, x, not stop, s, excs)]
            return self._cap(out if want == stop else pre)
        out = []
        for v, s in self.ev(f, e, st, excs):
            out += self.assume_val(f, v, want, s)
        return self._cap(out)

    # -- statements ---------------------------------------------------------------------------------------------
    def _bind_target(self, f, t, v, st, excs):
        if isinstance(t, ast.Name):
            if deeper(v, 14):  # values that grow in a loop are no longer told apart
                v = self.fresh(st, 'deep', t)
                st = self.forget(st, v)
            st = st.bind(t.id, v)
            return self.c.store(self, f, t, t.id, v, st)
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Starred):
                    st = self._bind_target(f, x.value, ('rest', v, i), st, excs)
                elif v[0] == 'seq' and i < len(v[1]):
                    st = self._bind_target(f, x, v[1][i], st, excs)
                else:
                    st = self._bind_target(f, x, ('item', v, ('c', i, 'int')), st, excs)
            return st
        if isinstance(t, ast.Attribute):
            b, s = self.ev(f, t.value, st, excs)[0]
            key = (b, t.attr)
            old = ('attr', b, t.attr)
            facts = {k: x for k, x in s.facts.items() if not contains(k, old)}
            s = St(s.env, facts, s.tok)
            if self.c.keep_attr(b, t.attr):
                s = s.bind(key, v)
            return self.c.store(self, f, t, key, v, s)
        if isinstance(t, ast.Subscript):
            b, s = self.ev(f, t.value, st, excs)[0]
            if isinstance(t.slice, ast.Slice):
                return self.c.store(self, f, t, (b, '[]'), v, s)
            k, s = self.ev(f, t.slice, s, excs)[0]
            if b[0] == 'dict' and isinstance(t.value, ast.Name):
                items = tuple((kk, vv) for kk, vv in b[1] if kk != k) + ((k, v),)
                s = s.bind(t.value.id, ('dict', items))
            return self.c.store(self, f, t, (b, '[]'), v, s)
        if isinstance(t, ast.Starred):
            return self._bind_target(f, t.value, v, st, excs)
        return st

    def _stmt(self, f, n, a, st, excs):
        if isinstance(a, ast.Assign):
            out = []
            for v, s in self.ev(f, a.value, st, excs):
                for t in a.targets:
                    s = self._bind_target(f, t, v, s, excs)
                out.append(s)
            return self._cap(out)
        if isinstance(a, ast.AnnAssign):
            if a.value is None:
                return [st]
            return [self._bind_target(f, a.target, v, s, excs) for v, s in self.ev(f, a.value, st, excs)]
        if isinstance(a, ast.AugAssign):
            out = []
            load = ast.copy_location(ast.parse(ast.unparse(a.target), mode='eval').body, a.target)
            for b, s in self.ev(f, load, st, excs):
                for v, s2 in self.ev(f, a.value, s, excs):
                    nv = self.fresh(s2, 'aug', a)
                    if isinstance(a.op, ast.Add) and b[0] in ('c', 'cat', 'attr', 'p', 'join') and not contains(b, nv):
                        nv2 = ('cat', (b[1] if b[0] == 'cat' else (b,)) + (v,))
                        if len(nv2[1]) < 8:
                            nv = nv2
                    s2 = self.forget(s2, nv) if nv[0] == 'fresh' else s2
                    out.append(self._bind_target(f, a.target, nv, s2, excs))
            return self._cap(out)
        if isinstance(a, ast.Expr):
            return [s for _, s in self.ev(f, a.value, st, excs)]
        if isinstance(a, ast.Delete):
            s = st
            for t in a.targets:
                if isinstance(t, ast.Name):
                    env = dict(s.env)
                    env.pop(t.id, None)
                    s = St(env, s.facts, s.tok)
            return [s]
        if isinstance(a, (ast.Import, ast.ImportFrom)):
            s = st
            for x in a.names:
                nm = (x.asname or x.name).split('.')[0]
                if isinstance(a, ast.ImportFrom) and a.module:
                    full = '%s.%s' % (a.module, x.name)
                else:
                    full = x.name if x.asname else x.name.split('.')[0]
                r = self.p.lookup_dotted(full)
                s = s.bind(nm, ('g', r.qual if isinstance(r, (FuncInfo, ClassInfo)) else full))
            return [s]
        if isinstance(a, (ast.FunctionDef, ast.AsyncFunctionDef)):
            q = f.nested.get(a.name)
            return [st.bind(a.name, ('g', q.qual if q is not None else a.name))]
        return [st]

    # -- calls --------------------------------------------------------------------------------------------------
    def call(self, f, e, st, excs):
        # receiver / function value
        out = []
        if isinstance(e.func, ast.Attribute):
            fn = e.func
            if isinstance(fn.value, ast.Call) and isinstance(fn.value.func, ast.Name) and fn.value.func.id == 'super':
                recvs = [(('super',), st)]
            else:
                recvs = self.ev(f, fn.value, st, excs)
        else:
            recvs = [(None, s) for _, s in ([(None, st)] if isinstance(e.func, ast.Name) else self.ev(f, e.func, st, excs))]
        for recv, s0 in recvs:
            for args, s1 in self.evs(f, [a for a in e.args], s0, excs):
                kws = [k for k in e.keywords]
                for kv, s2 in self.evs(f, [k.value for k in kws], s1, excs):
                    kwargs = tuple(zip([k.arg for k in kws], kv))
                    out += self._call(f, e, recv, args, kwargs, s2, excs)
        return self._cap(out)

    def targets(self, f, e, recv, st):
        """(list of FuncInfo or dotted names, bound receiver)"""
        p = self.p
        fn = e.func
        if isinstance(fn, ast.Attribute):
            selfsym = st.env.get(f.params[0]) if f.params and f.cls is not None and f.kind in ('method', 'class') else None
            if recv == ('super',):
                if selfsym is not None and selfsym[0] == 'self' and f.cls is not None:
                    c = p.classes.get(selfsym[1])
                    m = p.find_method(c, fn.attr, after=f.cls) if c is not None else None
                    return ([m] if m else ['super.' + fn.attr]), selfsym
                return ['super.' + fn.attr], None
            if recv[0] == 'self':
                c = p.classes.get(recv[1])
                if c is not None:
                    m = p.find_method(c, fn.attr)
                    if m is not None:
                        return [m], recv
            if recv[0] == 'g':
                r = p.lookup_dotted(recv[1] + '.' + fn.attr)
                c = p.classes.get(recv[1])
                if c is not None:
                    m = p.find_method(c, fn.attr)
                    if m is not None:
                        return [m], (recv if m.kind == 'class' else None)
                if isinstance(r, FuncInfo):
                    return [r], None
                if isinstance(r, ClassInfo):
                    return self._ctor(r), None
                if r is None or isinstance(r, str):
                    mod = recv[1]
                    if mod.split('.')[0] != p.package or isinstance(r, str):
                        return [r if isinstance(r, str) else mod + '.' + fn.attr], None
        elif isinstance(fn, ast.Name) and fn.id in st.env:
            v = st.env[fn.id]
            if v[0] == 'g':
                r = p.lookup_dotted(v[1])
                if v[1] in p.funcs:
                    return [p.funcs[v[1]]], None
                if isinstance(r, FuncInfo):
                    return [r], None
                if isinstance(r, ClassInfo) or v[1] in p.classes:
                    return self._ctor(p.classes.get(v[1]) or r), None
                return [v[1]], None
        ts = p.resolve_call(f, e)
        return ts, recv

    def _ctor(self, c):
        m = self.p.find_method(c, '__init__')
        return [m] if m is not None else ['class:' + c.qual]

    def _call(self, f, e, recv, args, kwargs, st, excs):
        ts, bound = self.targets(f, e, recv, st)
        names = [t.qual if isinstance(t, FuncInfo) else t for t in ts]
        name = names[0] if len(names) == 1 else '|'.join(sorted(set(names)))
        r = self.c.call(self, f, e, name, recv, args, kwargs, st)
        if r is not None:
            return r
        # path joins and pure tests
        if name in ('os.path.join', 'posixpath.join') and not kwargs and not any(isinstance(a, ast.Starred) for a in e.args):
            parts = ()
            for x in args:
                parts += x[1] if x[0] == 'join' else (x,)
            return [(('join', parts), st)]
        if name in PURE_EXT or (isinstance(e.func, ast.Attribute) and e.func.attr in PURE_METH):
            return [(('ext', ('g', name), args + tuple(v for _, v in kwargs)), st)]
        if isinstance(e.func, ast.Name) and e.func.id in PURE_EXT:
            return [(('ext', ('g', e.func.id), args + tuple(v for _, v in kwargs)), st)]
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'get' and recv and recv[0] == 'dict' and args:
            for kk, vv in recv[1]:
                if kk == args[0]:
                    return [(vv, st)]
        if isinstance(e.func, ast.Attribute) and e.func.attr == 'pop' and recv and recv[0] == 'dict' and args and \
                isinstance(e.func.value, ast.Name):
            hit = [vv for kk, vv in recv[1] if kk == args[0]]
            st2 = st.bind(e.func.value.id, ('dict', tuple((kk, vv) for kk, vv in recv[1] if kk != args[0])))
            if hit or len(args) > 1:
                return [(hit[0] if hit else args[1], st2)]
        if isinstance(e.func, ast.Name) and e.func.id == 'dict' and not args and all(k for k, _ in kwargs):
            return [(('dict', tuple((('c', k), v) for k, v in kwargs)), st)]
        fts = [t for t in ts if isinstance(t, FuncInfo) and not t.is_abstract]
        if fts and len(fts) <= 4 and all(not self._generator(t) for t in fts) and all(
                self.c.inline(self, f, e, t, bound) for t in fts):
            out = []
            ok = True
            for t in fts:
                b = self._bind_args(t, e, bound, args, kwargs, st)
                x = self._invoke(f, t, b, st, excs)
                if x is None:
                    ok = False
                    break
                out += x
            if ok:
                return self._cap(out)
        if self.c.keep_calls:
            return [(('call', ('g', name), ((recv,) if recv else ()) + args + tuple(kwargs)), st)]
        v = self.fresh(st, 'call', e)
        return [(v, self.forget(st, v))]

    @staticmethod
    def _generator(t):
        g = getattr(t, "_isgen", None)
        if g is None:
            g = t._isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in own_nodes(t.node))
        return g

    def _bind_args(self, t, e, bound, args, kwargs, st):
        params = list(t.params)
        env = {}
        a = t.node.args
        is_ctor = t.name == '__init__'
        if t.cls is not None and t.kind in ('method', 'class', 'property', 'setter') and params:
            if bound is not None and bound[0] != 'g':
                recv = bound
            elif t.kind == 'class' and bound is not None:
                recv = ('self', bound[1])
            elif is_ctor:
                recv = ('self', t.cls.qual)
                if isinstance(e, ast.Call):
                    d = dotted(e.func)
                    r = self.p.lookup(self._f.module, d) if d else None
                    if isinstance(r, ClassInfo):
                        recv = ('self', r.qual)
            else:
                recv = None
            if recv is None and args:
                # unbound call Base.method(self, ...)
                pass
            elif recv is not None:
                # ``Base.__init__(self, ...)``: explicit receiver
                if is_ctor and isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and \
                        e.func.attr == '__init__' and bound is None and args and args[0][0] == 'self':
                    pass
                else:
                    env[params[0]] = recv
                    params = params[1:]
        star = any(isinstance(x, ast.Starred) for x in getattr(e, 'args', []))
        pos = [x for x in params if x in {y.arg for y in a.posonlyargs + a.args}]
        rest = ()
        for i, v in enumerate(args):
            if isinstance(e.args[i], ast.Starred):
                rest += (('star', v),)
            elif i < len(pos) and not rest:
                env[pos[i]] = v
            else:
                rest += (v,)
        kw = {}
        for k, v in kwargs:
            if k is None:
                if v[0] == 'dict':
                    for kk, vv in v[1]:
                        if kk[0] == 'c':
                            kw[kk[1]] = vv
                        else:
                            kw.setdefault('**', ())
                            kw['**'] += ((kk, vv),)
                else:
                    kw['***'] = v
            else:
                kw[k] = v
        named = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
        extra = []
        for k, v in kw.items():
            if k in named:
                env[k] = v
            elif k == '**':
                extra += list(v)
            elif k != '***':
                extra.append((('c', k), v))
        defaults = {}
        pl = [x.arg for x in a.posonlyargs + a.args]
        for nme, d in zip(reversed(pl), reversed(a.defaults)):
            defaults[nme] = d
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        for nme in named:
            if nme not in env:
                d = defaults.get(nme)
                if d is not None and '***' not in kw and not star:
                    env[nme] = self.ev(t, d, St({}, {}, frozenset()), [])[0][0]
                else:
                    env[nme] = ('p', t.qual, nme)
        if a.vararg is not None:
            env[a.vararg.arg] = ('seq', rest) if not any(r[0] == 'star' for r in rest) else (
                rest[0][1] if len(rest) == 1 else ('p', t.qual, a.vararg.arg))
        if a.kwarg is not None:
            if '***' in kw and not extra:
                env[a.kwarg.arg] = kw['***']
            elif '***' in kw:
                env[a.kwarg.arg] = ('p', t.qual, a.kwarg.arg)
            else:
                env[a.kwarg.arg] = ('dict', tuple(extra))
        return env

    def _invoke(self, f, t, env, st, excs):
        e0 = {k: v for k, v in st.env.items() if isinstance(k, tuple)}
        e0.update(env)
        saved = (self._f, self._n)
        r = self._walk(t, St(e0, st.facts, st.tok))
        self._f, self._n = saved
        if r is None:
            return None
        out = []
        loc = {k: v for k, v in st.env.items() if not isinstance(k, tuple)}
        for kind, val, s in r:
            e2 = dict(s.env)
            e2.update(loc)
            ns = St(e2, s.facts, s.tok)
            if kind == 'ret':
                if t.name == '__init__':
                    val = env.get(t.params[0], val) if t.params else val
                out.append((val, ns))
            else:
                excs.append(ns)
        return out


def relevant_tests(prog, f, is_event):
    """The ``if``/``while``/``assert`` statements of f whose outcome can matter for reaching an event or for a value an event
    or another relevant condition uses."""
    names = set()
    stmts = [n for n in own_nodes(f.node) if isinstance(n, (ast.If, ast.While, ast.Assert, ast.IfExp))]
    events = [n for n in own_nodes(f.node) if isinstance(n, ast.Call) and is_event(n)]

    def names_of(e):
        return {x.id for x in ast.walk(e) if isinstance(x, ast.Name)}

    for e in events:
        for a in list(e.args) + [k.value for k in e.keywords]:
            names |= names_of(a)
    rel = set()
    changed = True
    while changed:
        changed = False
        for s in stmts:
            if id(s) in rel:
                continue
            hit = False
            for x in ast.walk(s):
                if isinstance(x, ast.Call) and is_event(x):
                    hit = True
                elif isinstance(x, (ast.Name,)) and isinstance(x.ctx, ast.Store) and x.id in names:
                    hit = True
                elif isinstance(x, (ast.Return, ast.Raise)) and names_of(s.test) & names:
                    hit = True
                if hit:
                    break
            q = getattr(s, '_parent', None)
            while not hit and q is not None and q is not f.node:
                if id(q) in rel and any(isinstance(x, (ast.Return, ast.Raise, ast.Break, ast.Continue))
                                        for x in ast.walk(s)):
                    hit = True
                q = getattr(q, '_parent', None)
            if isinstance(s, ast.Assert) and names_of(s.test) & names:
                hit = True
            if hit:
                rel.add(id(s))
                names |= names_of(s.test)
                changed = True
        # names feeding relevant names
        for n in own_nodes(f.node):
            if isinstance(n, ast.Assign) and not isinstance(n.value, ast.Call):
                for t in n.targets:
                    if isinstance(t, ast.Name) and t.id in names:
                        new = names_of(n.value) - names
                        if new:
                            names |= new
                            changed = True
    return rel
