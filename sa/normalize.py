"""Brings different spellings of the same code into one form before it is analysed, so that rules judge what code does:

  not (a is b)                      ->  a is not b         (likewise in, ==; a constant on the left moves to the right)
  if not c: A else: B               ->  if c: B else: A    (likewise is not, not in, !=)
  if a: if b: A                     ->  if a and b: A
  if c: ...return else: B           ->  if c: ...return, then B
  x = a if c else b, return likewise ->  if statement
  t = <condition>; if t: A          ->  if <condition>: A      (t is used nowhere else)
  t = <no call>; f(t)               ->  f(<no call>)           (t is used nowhere else, f(t) is the next statement)
  t = []; for x in y: t.append(e)   ->  t = [e for x in y]     (x is used nowhere else)
  t = <constant>                    ->  nothing            (t is used nowhere)
  t = e; x = t                      ->  x = e                  (t is used nowhere else; likewise for x in t, with t)
  i = 0; while i < len(s): x = s[i]; i += 1; A      ->  for x in s: A      (i is used nowhere else)
  for i in range(len(s)): x = s[i]; A               ->  for x in s: A      (i is used nowhere else)

Line numbers stay those of the source."""
import ast

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
FLIP = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
TERMINAL = (ast.Return, ast.Raise, ast.Continue, ast.Break)


class Expr(ast.NodeTransformer):
    def visit_UnaryOp(self, n):
        self.generic_visit(n)
        o = n.operand
        if isinstance(n.op, ast.Not):
            if isinstance(o, ast.Compare) and len(o.ops) == 1 and type(o.ops[0]) in FLIP:
                o.ops = [FLIP[type(o.ops[0])]()]
                return o
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and type(n.ops[0]) in (ast.Is, ast.IsNot, ast.Eq, ast.NotEq) and isinstance(n.left, ast.Constant) \
                and not isinstance(n.comparators[0], ast.Constant):
            n.left, n.comparators[0] = n.comparators[0], n.left
        return n


def negated(e):
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return e.operand
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.IsNot, ast.NotIn, ast.NotEq)):
        return ast.copy_location(ast.Compare(left=e.left, ops=[FLIP[type(e.ops[0])]()], comparators=e.comparators), e)
    return None


class Uses(object):
    """How often each name of a function is read and written (nested functions included)."""

    def __init__(self, f):
        self.loads, self.stores, self.fixed = {}, {}, set()
        for n in ast.walk(f):
            if isinstance(n, ast.Name):
                d = self.loads if isinstance(n.ctx, ast.Load) else self.stores
                d[n.id] = d.get(n.id, 0) + (1 if isinstance(n.ctx, (ast.Load, ast.Store)) else 2)
            elif isinstance(n, (ast.Global, ast.Nonlocal)):
                self.fixed.update(n.names)
            elif isinstance(n, ast.arg):
                self.fixed.add(n.arg)
            elif isinstance(n, ast.ExceptHandler) and n.name:
                self.fixed.add(n.name)
            elif isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name):
                self.fixed.add(n.target.id)

    def temp(self, name, loads=1):
        return name not in self.fixed and self.stores.get(name) == 1 and self.loads.get(name, 0) == loads


def header(s):
    """The part of a statement evaluated first, as (object, field)."""
    if isinstance(s, ast.If):
        return [(s, 'test')]
    if isinstance(s, (ast.Return, ast.Expr, ast.Assign, ast.AugAssign)) and s.value is not None:
        return [(s, 'value')] + ([(s, 'targets')] if isinstance(s, ast.Assign) else [])
    if isinstance(s, ast.For):
        return [(s, 'iter')]
    if isinstance(s, ast.With):
        return [(i, 'context_expr') for i in s.items]
    if isinstance(s, ast.Raise) and s.exc is not None:
        return [(s, 'exc')]
    return []


class Replace(ast.NodeTransformer):
    def __init__(self, name, value):
        self.name, self.value, self.done = name, value, False

    def visit_Name(self, n):
        if n.id == self.name and isinstance(n.ctx, ast.Load):
            self.done = True
            return self.value
        return n

    def _stop(self, n):
        return n

    visit_Lambda = visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _stop


def substitute(s, name, value):
    for obj, field in header(s):
        r = Replace(name, value)
        v = getattr(obj, field)
        if isinstance(v, list):
            setattr(obj, field, [r.visit(x) for x in v])
        else:
            setattr(obj, field, r.visit(v))
        if r.done:
            return True
    return False


def plain(e):
    """An expression without calls or other effects, cheap enough to be written where it is used."""
    return isinstance(e, (ast.Attribute, ast.Name, ast.Constant, ast.BinOp, ast.Subscript, ast.Compare, ast.BoolOp, ast.UnaryOp)) and \
        not any(isinstance(x, (ast.Call, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp,
                               ast.SetComp, ast.NamedExpr)) for x in ast.walk(e))


def noop(s):
    return isinstance(s, ast.Pass) or isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)


def unread(s, uses):
    """A constant stored in a local that nothing reads."""
    return isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and \
        isinstance(s.value, ast.Constant) and s.targets[0].id not in uses.fixed and not uses.loads.get(s.targets[0].id)


def as_comprehension(a, loop, uses):
    """t = []; for x in y: [if c:] t.append(e)"""
    if not (isinstance(a, ast.Assign) and len(a.targets) == 1 and isinstance(a.targets[0], ast.Name) and isinstance(a.value, ast.List)
            and not a.value.elts and isinstance(loop, ast.For) and not loop.orelse and len(loop.body) == 1):
        return None
    t, s, ifs = a.targets[0].id, loop.body[0], []
    while isinstance(s, ast.If) and not s.orelse and len(s.body) == 1:
        ifs.append(s.test)
        s = s.body[0]
    if not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Attribute) and
            s.value.func.attr == 'append' and isinstance(s.value.func.value, ast.Name) and s.value.func.value.id == t and
            len(s.value.args) == 1 and not s.value.keywords and not isinstance(s.value.args[0], ast.Starred)):
        return None
    elt = s.value.args[0]
    inside = [x for y in [elt, loop.target] + ifs for x in ast.walk(y)]
    if any(isinstance(x, (ast.Yield, ast.YieldFrom, ast.Await)) for x in inside + list(ast.walk(loop.iter))):
        return None
    if any(isinstance(x, ast.Name) and x.id == t for x in inside + list(ast.walk(loop.iter))):
        return None
    for x in ast.walk(loop.target):
        if isinstance(x, ast.Name):
            here = sum(isinstance(y, ast.Name) and y.id == x.id and isinstance(y.ctx, ast.Load) for y in inside)
            if x.id in uses.fixed or uses.stores.get(x.id) != 1 or uses.loads.get(x.id, 0) != here:
                return None
        elif not isinstance(x, (ast.Tuple, ast.List, ast.expr_context)):
            return None
    comp = ast.ListComp(elt=elt, generators=[ast.comprehension(target=loop.target, iter=loop.iter, ifs=ifs, is_async=0)])
    ast.copy_location(comp, s.value)
    return ast.copy_location(ast.Assign(targets=a.targets, value=comp), a)


def is_len(e, s=None):
    return isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == 'len' and len(e.args) == 1 and \
        isinstance(e.args[0], ast.Name) and (s is None or e.args[0].id == s)


def item(st, i):
    """x = s[i]: (x, name of s)"""
    if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.value, ast.Subscript) and is_name(st.value.slice, i) and \
            isinstance(st.value.value, ast.Name):
        return st.targets[0], st.value.value.id
    return None


def as_for(a, loop, uses):
    """i = 0; while i < len(s): x = s[i]; i += 1"""
    if not (isinstance(loop, ast.While) and not loop.orelse and isinstance(a.value, ast.Constant) and a.value.value == 0 and
            len(loop.body) > 1):
        return None
    i, t = a.targets[0].id, loop.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], ast.Lt) and is_name(t.left, i) and
            is_len(t.comparators[0])):
        return None
    got, s = item(loop.body[0], i), t.comparators[0].args[0].id
    if got is None or got[1] != s or uses.stores.get(i) != 2 or uses.loads.get(i) != 2:
        return None

    def step(x):
        return isinstance(x, ast.AugAssign) and is_name(x.target, i) and isinstance(x.op, ast.Add) and \
            isinstance(x.value, ast.Constant) and x.value.value == 1
    rest = loop.body[1:]
    if step(rest[0]):
        rest = rest[1:]
    elif step(rest[-1]) and not any(isinstance(y, ast.Continue) for x in rest for y in ast.walk(x)):
        rest = rest[:-1]
    else:
        return None
    uses.loads[s] = uses.loads.get(s, 2) - 1
    return ast.copy_location(ast.For(target=got[0], iter=ast.copy_location(ast.Name(id=s, ctx=ast.Load()), loop), body=rest or [
        ast.copy_location(ast.Pass(), loop)], orelse=[]), loop)


def over_range(loop, uses):
    """for i in range(len(s)): x = s[i]"""
    it = loop.iter
    if isinstance(loop.target, ast.Name) and isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'range' and \
            len(it.args) == 1 and is_len(it.args[0]) and len(loop.body) > 1:
        i, s = loop.target.id, it.args[0].args[0].id
        got = item(loop.body[0], i)
        if got is not None and got[1] == s and uses.loads.get(i) == 1 and uses.stores.get(i) == 1:
            loop.target, loop.body = got[0], loop.body[1:]
            loop.iter = ast.copy_location(ast.Name(id=s, ctx=ast.Load()), it)
            uses.loads[s] = uses.loads.get(s, 2) - 1


def block(body, uses, in_function):
    out = []
    for s in body:
        statement(s, uses, in_function)
        out.append(s)
    # else after a block that leaves
    flat = []
    todo = list(reversed(out))
    while todo:
        s = todo.pop()
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and in_function and (
                isinstance(s, ast.Return) or len(s.targets) == 1 and isinstance(s.targets[0], (ast.Name, ast.Attribute))):
            e = s.value
            if isinstance(s, ast.Return):
                mk = lambda v: ast.copy_location(ast.Return(value=v), v)  # noqa
            else:
                mk = lambda v: ast.copy_location(ast.Assign(targets=[copy(s.targets[0])], value=v), s)  # noqa
            s = ast.copy_location(ast.If(test=e.test, body=[mk(e.body)], orelse=[mk(e.orelse)]), s)
            statement(s, uses, in_function)
            todo.append(s)
            continue
        if isinstance(s, ast.For) and in_function:
            over_range(s, uses)
        if isinstance(s, ast.If):
            if s.orelse:
                neg = negated(s.test)
                if neg is not None:
                    s.test, s.body, s.orelse = neg, s.orelse, s.body
            if not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse:
                inner = s.body[0]
                mine = s.test.values if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) else [s.test]
                rest = inner.test.values if isinstance(inner.test, ast.BoolOp) and isinstance(inner.test.op, ast.And) else [inner.test]
                s.test = ast.copy_location(ast.BoolOp(op=ast.And(), values=mine + rest), s.test)
                s.body = inner.body
            if s.orelse and in_function:
                if isinstance(s.body[-1], TERMINAL):
                    todo.extend(reversed(s.orelse))
                    s.orelse = []
        flat.append(s)
    if not in_function:
        return flat
    kept = [s for s in flat if not unread(s, uses)]
    flat = kept or [ast.copy_location(ast.Pass(), flat[0])] if flat else flat
    i = 0
    while i < len(flat):
        s = flat[i]
        j = i + 1
        while j < len(flat) and noop(flat[j]):
            j += 1
        if j < len(flat) and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
            t, nxt = s.targets[0].id, flat[j]
            loop = as_for(s, nxt, uses)
            if loop is not None:
                flat[i:j + 1] = [loop]
                i = max(i - 1, 0)
                continue
            c = as_comprehension(s, nxt, uses)
            if c is not None:
                flat[i:j + 1] = [c]
                continue
            if uses.temp(t):
                direct = isinstance(nxt, ast.If) and is_name(first(nxt.test), t) \
                    or isinstance(nxt, ast.Assign) and is_name(nxt.value, t) \
                    or isinstance(nxt, ast.For) and is_name(nxt.iter, t) \
                    or isinstance(nxt, ast.With) and is_name(nxt.items[0].context_expr, t)
                if (direct or plain(s.value)) and substitute(nxt, t, s.value):
                    uses.stores[t] = uses.loads[t] = 0
                    if isinstance(nxt, ast.If):
                        nxt.test = Expr().visit(nxt.test)
                        if nxt.orelse and negated(nxt.test) is not None:
                            nxt.test, nxt.body, nxt.orelse = negated(nxt.test), nxt.orelse, nxt.body
                    flat[i:j] = []
                    i = max(i - 1, 0)
                    continue
        i += 1
    return flat


def first(e):
    """The part of a condition that is evaluated first."""
    while isinstance(e, (ast.UnaryOp, ast.BoolOp, ast.Compare)):
        e = e.operand if isinstance(e, ast.UnaryOp) else e.values[0] if isinstance(e, ast.BoolOp) else e.left
    return e


def is_name(e, t):
    return isinstance(e, ast.Name) and e.id == t


def copy(t):
    if isinstance(t, ast.Name):
        return ast.copy_location(ast.Name(id=t.id, ctx=ast.Store()), t)
    import copy as c
    return c.deepcopy(t)


def statement(s, uses, in_function):
    if isinstance(s, FUNC):
        s.body = block(s.body, Uses(s), True)
        return
    if isinstance(s, ast.ClassDef):
        s.body = block(s.body, None, False)
        return
    for field in ('body', 'orelse', 'finalbody'):
        b = getattr(s, field, None)
        if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
            setattr(s, field, block(b, uses, in_function))
    for h in getattr(s, 'handlers', []):
        h.body = block(h.body, uses, in_function)


def normalize(tree):
    Expr().visit(tree)
    tree.body = block(tree.body, None, False)
    ast.fix_missing_locations(tree)
    return tree
