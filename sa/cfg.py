"""Control-flow graphs with exceptional edges for Python functions.

Nodes are created back to front; ``finally`` bodies and ``with`` exits are duplicated per continuation, so a path through
the graph is a path of the program and every early return, break, continue and raise runs the right clean-up code.
"""
import ast

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
SAFE_CALLS = {'isinstance', 'len', 'hasattr', 'id', 'type', 'bool', 'super', 'callable'}


class Node(object):
    __slots__ = ('id', 'kind', 'ast', 'succ', 'extra', '_calls', '_assigned')

    def __init__(self, id, kind, node=None, extra=None):
        self.id, self.kind, self.ast, self.extra = id, kind, node, extra
        self._calls = None
        self._assigned = None
        self.succ = []  # (Node, label)  label in n,t,f,exc

    @property
    def line(self):
        return getattr(self.ast, 'lineno', 0)

    def __repr__(self):
        return '<N%d %s L%s>' % (self.id, self.kind, self.line)


class Ctx(object):
    __slots__ = ('ret', 'exc', 'brk', 'cont')

    def __init__(self, ret, exc, brk=None, cont=None):
        self.ret, self.exc, self.brk, self.cont = ret, exc, brk, cont


def expr_may_raise(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in SAFE_CALLS:
                continue
            if isinstance(n.func, ast.Name) and n.func.id == 'getattr' and len(n.args) == 3:
                continue
            return True
        if isinstance(n, (ast.Subscript, ast.Yield, ast.YieldFrom, ast.Await)):
            return True
    return False


class CFG(object):
    def __init__(self, fnode):
        self.fnode = fnode
        self.nodes = []
        self.exit = self._new('exit', fnode)
        self.exc_exit = self._new('exc_exit', fnode)
        ctx = Ctx(self.exit, self.exc_exit)
        self.entry = self._new('entry', fnode)
        first = self.block(fnode.body, self.exit, ctx)
        self.entry.succ.append((first, 'n'))
        self._prune()

    def _new(self, kind, node=None, extra=None):
        n = Node(len(self.nodes), kind, node, extra)
        self.nodes.append(n)
        return n

    def _prune(self):
        seen = set()
        stack = [self.entry]
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            stack.extend(s for s, _ in n.succ)
        self.nodes = [n for n in self.nodes if n.id in seen or n in (self.exit, self.exc_exit)]

    def preds(self):
        out = {n.id: [] for n in self.nodes}
        for n in self.nodes:
            for s, l in n.succ:
                out[s.id].append((n, l))
        return out

    # -- construction -------------------------------------------------------------------------------------------
    def block(self, stmts, nxt, ctx):
        for s in reversed(stmts):
            nxt = self.stmt(s, nxt, ctx)
        return nxt

    def stmt(self, s, nxt, ctx):
        if isinstance(s, ast.If):
            n = self._new('test', s, s.test)
            n.succ.append((self.block(s.body, nxt, ctx), 't'))
            n.succ.append((self.block(s.orelse, nxt, ctx), 'f'))
            if expr_may_raise(s.test):
                n.succ.append((ctx.exc, 'exc'))
            return n
        if isinstance(s, ast.While):
            n = self._new('test', s, s.test)
            inner = Ctx(ctx.ret, ctx.exc, nxt, n)
            n.succ.append((self.block(s.body, n, inner), 't'))
            const_true = isinstance(s.test, ast.Constant) and bool(s.test.value)
            if not const_true:
                n.succ.append((self.block(s.orelse, nxt, ctx), 'f'))
            if expr_may_raise(s.test):
                n.succ.append((ctx.exc, 'exc'))
            return n
        if isinstance(s, (ast.For, ast.AsyncFor)):
            it = self._new('iter', s, s.iter)  # evaluates the iterable once
            n = self._new('for', s)
            inner = Ctx(ctx.ret, ctx.exc, nxt, n)
            n.succ.append((self.block(s.body, n, inner), 't'))
            n.succ.append((self.block(s.orelse, nxt, ctx), 'f'))
            n.succ.append((ctx.exc, 'exc'))
            it.succ.append((n, 'n'))
            if expr_may_raise(s.iter):
                it.succ.append((ctx.exc, 'exc'))
            return it
        if isinstance(s, ast.Try) or s.__class__.__name__ == 'TryStar':
            return self._try(s, nxt, ctx)
        if isinstance(s, (ast.With, ast.AsyncWith)):
            return self._with(s, list(s.items), nxt, ctx)
        if isinstance(s, ast.Return):
            n = self._new('return', s)
            n.succ.append((ctx.ret, 'n'))
            if s.value is not None and expr_may_raise(s.value):
                n.succ.append((ctx.exc, 'exc'))
            return n
        if isinstance(s, ast.Raise):
            n = self._new('raise', s)
            n.succ.append((ctx.exc, 'exc'))
            return n
        if isinstance(s, ast.Break):
            n = self._new('stmt', s)
            n.succ.append((ctx.brk or nxt, 'n'))
            return n
        if isinstance(s, ast.Continue):
            n = self._new('stmt', s)
            n.succ.append((ctx.cont or nxt, 'n'))
            return n
        if isinstance(s, ast.Assert):
            n = self._new('test', s, s.test)
            n.succ.append((nxt, 't'))
            n.succ.append((ctx.exc, 'f'))
            return n
        n = self._new('stmt', s)
        n.succ.append((nxt, 'n'))
        if not isinstance(s, FUNC + (ast.ClassDef, ast.Pass, ast.Global, ast.Nonlocal)) and self._stmt_may_raise(s):
            n.succ.append((ctx.exc, 'exc'))
        return n

    @staticmethod
    def _stmt_may_raise(s):
        if isinstance(s, (ast.Import, ast.ImportFrom)):
            return False
        if isinstance(s, ast.Delete):
            return True
        if isinstance(s, ast.Assign) and any(isinstance(t, ast.Subscript) for t in s.targets):
            # plain container stores ``d['key'] = value`` are treated as non-raising unless the value can raise
            return expr_may_raise(s.value) or any(
                isinstance(t, ast.Subscript) and not isinstance(t.slice, ast.Constant) for t in s.targets)
        if isinstance(s, (ast.Assign, ast.AugAssign, ast.AnnAssign, ast.Expr)):
            return expr_may_raise(s)
        return expr_may_raise(s)

    def _with(self, s, items, nxt, ctx):
        if not items:
            return self.block(s.body, nxt, ctx)
        item = items[0]
        memo = {}

        def leave(target, exceptional=False):
            if target is None:
                return None
            if target.id not in memo:
                n = self._new('with_exit', s, item)
                n.succ.append((target, 'exc' if exceptional else 'n'))
                memo[target.id] = n
            return memo[target.id]

        inner = Ctx(leave(ctx.ret), leave(ctx.exc, True), leave(ctx.brk), leave(ctx.cont))
        n = self._new('with_enter', s, item)
        n.succ.append((self._with(s, items[1:], leave(nxt), inner), 'n'))
        if expr_may_raise(item.context_expr):
            n.succ.append((ctx.exc, 'exc'))
        return n

    def _try(self, s, nxt, ctx):
        memo = {}

        def fin(target, label='n'):
            if target is None:
                return None
            if not s.finalbody:
                return target
            k = target.id
            if k not in memo:
                memo[k] = self.block(s.finalbody, target, ctx)
            return memo[k]

        outer = Ctx(fin(ctx.ret), fin(ctx.exc), fin(ctx.brk), fin(ctx.cont))
        after = fin(nxt)
        if s.handlers:
            disp = self._new('dispatch', s)
            catch_all = False
            for h in s.handlers:
                hn = self._new('handler', h)
                hn.succ.append((self.block(h.body, after, outer), 'n'))
                disp.succ.append((hn, 'n'))
                if h.type is None or (isinstance(h.type, ast.Name) and h.type.id in ('Exception', 'BaseException')):
                    catch_all = True
            if not catch_all:
                disp.succ.append((outer.exc, 'exc'))
            bctx = Ctx(outer.ret, disp, outer.brk, outer.cont)
        else:
            bctx = outer
        els = self.block(s.orelse, after, outer)
        return self.block(s.body, els, bctx)


def cfg_of(f):
    if f._cfg is None:
        f._cfg = CFG(f.node)
    return f._cfg


def node_exprs(n):
    """Expressions evaluated when control passes through CFG node ``n``."""
    a = n.ast
    k = n.kind
    if k == 'test':
        return [n.extra] + ([a.msg] if isinstance(a, ast.Assert) and a.msg is not None else [])
    if k == 'iter':
        return [n.extra]
    if k == 'for':
        return [a.target]
    if k == 'with_enter':
        return [n.extra.context_expr] + ([n.extra.optional_vars] if n.extra.optional_vars is not None else [])
    if k in ('with_exit', 'entry', 'exit', 'exc_exit', 'dispatch'):
        return []
    if k == 'handler':
        return [a.type] if a.type is not None else []
    if isinstance(a, FUNC + (ast.ClassDef,)):
        return []
    return [a]


def node_calls(n):
    if n._calls is None:
        n._calls = _node_calls(n)
    return n._calls


def _node_calls(n):
    out = []
    for e in node_exprs(n):
        for x in ast.walk(e):
            if isinstance(x, ast.Call):
                out.append(x)
    out.sort(key=lambda c: (getattr(c, 'end_lineno', 0), getattr(c, 'end_col_offset', 0)))
    return out
