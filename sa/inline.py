"""Puts helper functions that were split off an existing function back where they are called, before the program is analysed.

Only functions the original tree does not have (sa/baseline_functions.txt) are considered, so that a rule sees the same code
whether or not part of a function was moved to a helper.  A call is replaced when it can be bound to exactly one definition
and stands in one of the forms

    return helper(...)        helper(...)        x = helper(...)        and, for helpers of one expression, anywhere

Helpers that are generators, are decorated (other than staticmethod and classmethod), are recursive or return from inside a
loop are left alone, and so are calls with arguments that cannot be mapped."""
import ast
import copy
import os

FUNC = (ast.FunctionDef, ast.AsyncFunctionDef)
HERE = os.path.dirname(os.path.abspath(__file__))
MAX_SITES, MAX_NODES = 6, 4000


def baseline():
    with open(os.path.join(HERE, 'baseline_functions.txt')) as f:
        return set(f.read().split())


def functions(modname, tree):
    """(qualified name, definition, containing class or None, list that holds it)"""
    def rec(body, cls, prefix):
        for s in body:
            if isinstance(s, FUNC):
                yield prefix + s.name, s, cls, body
            elif isinstance(s, ast.ClassDef):
                for x in rec(s.body, s, prefix + s.name + '.'):
                    yield x
            elif isinstance(s, (ast.If, ast.Try)):
                for b in ('body', 'orelse', 'finalbody'):
                    for x in rec(getattr(s, b, []), cls, prefix):
                        yield x
    return [(modname + ':' + q, f, c, b) for q, f, c, b in rec(tree.body, None, '')]


class Helper(object):
    def __init__(self, modname, qual, node, cls, body):
        self.modname, self.qual, self.node, self.cls, self.body = modname, qual, node, cls, body
        decs = [d.id if isinstance(d, ast.Name) else '?' for d in node.decorator_list]
        self.static, self.clsm = decs == ['staticmethod'], decs == ['classmethod']
        self.ok = isinstance(node, ast.FunctionDef) and (not decs or self.static or self.clsm) and not node.args.kwonlyargs and \
            not getattr(node.args, 'posonlyargs', None)
        self.stmts = node.body
        if self.stmts and isinstance(self.stmts[0], ast.Expr) and isinstance(self.stmts[0].value, ast.Constant) and \
                isinstance(self.stmts[0].value.value, str):
            self.stmts = self.stmts[1:]
        for n in self.walk():
            if isinstance(n, (ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal)):
                self.ok = False
            if isinstance(n, ast.Call) and name_of(n.func) == node.name:
                self.ok = False
        self.size = sum(1 for _ in ast.walk(node))

    def walk(self):
        for s in self.stmts:
            for n in ast.walk(s):
                yield n


def name_of(e):
    return e.id if isinstance(e, ast.Name) else e.attr if isinstance(e, ast.Attribute) else None


def has_return(s):
    todo = [s]
    while todo:
        n = todo.pop()
        if isinstance(n, ast.Return):
            return True
        if isinstance(n, FUNC + (ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
    return False


def leaves(stmts):
    """Does the block never fall through?"""
    if not stmts:
        return False
    s = stmts[-1]
    if isinstance(s, (ast.Return, ast.Raise, ast.Continue, ast.Break)):
        return True
    return isinstance(s, ast.If) and bool(s.orelse) and leaves(s.body) and leaves(s.orelse)


class No(Exception):
    pass


def convert(stmts, mk, end):
    """Statements in which returning is replaced by mk(value); end: what falling off the end does."""
    out = []
    for i, s in enumerate(stmts):
        rest = stmts[i + 1:]
        if isinstance(s, ast.Return):
            return out + mk(s.value, s)
        if not has_return(s):
            out.append(s)
            continue
        if isinstance(s, ast.If):
            b = s.body if leaves(s.body) else s.body + copy.deepcopy(rest)
            o = s.orelse if s.orelse and leaves(s.orelse) else s.orelse + rest
            n = ast.copy_location(ast.If(test=s.test, body=convert(b, mk, end) or [ast.copy_location(ast.Pass(), s)],
                                         orelse=convert(o, mk, end)), s)
            return out + [n]
        if isinstance(s, ast.With) and (not rest or leaves(s.body)):
            s.body = convert(s.body, mk, end) or [ast.copy_location(ast.Pass(), s)]
            return out + [s]
        if isinstance(s, ast.Try) and not rest and not any(has_return(x) for x in s.finalbody) and \
                not (s.orelse and any(has_return(x) for x in s.body)):
            s.body = convert(s.body, mk, None if s.orelse else end) or [ast.copy_location(ast.Pass(), s)]
            for h in s.handlers:
                h.body = convert(h.body, mk, end) or [ast.copy_location(ast.Pass(), h)]
            if s.orelse:
                s.orelse = convert(s.orelse, mk, end) or [ast.copy_location(ast.Pass(), s)]
            return out + [s]
        raise No()
    if end is not None and stmts is not None:
        out += end()
    return out


class Subst(ast.NodeTransformer):
    def __init__(self, exprs, names):
        self.exprs, self.names = exprs, names

    def visit_Name(self, n):
        if n.id in self.exprs and isinstance(n.ctx, ast.Load):
            return copy.deepcopy(self.exprs[n.id])
        if n.id in self.names:
            n.id = self.names[n.id]
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.name in self.names:
            n.name = self.names[n.name]
        return n


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


def bind(h, call, caller_names, at, keep=()):
    """(statements that set the parameters, body of the helper) for one call."""
    a = h.node.args
    params = [x.arg for x in a.args]
    args = list(call.args)
    exprs = {}
    if h.cls is not None and not h.static:
        if not params or not isinstance(call.func, ast.Attribute):
            raise No()
        exprs[params[0]] = call.func.value
        params = params[1:]
    star = [x for x in args if isinstance(x, ast.Starred)]
    if star:
        if len(star) > 1 or args[-1] is not star[0] or not a.vararg or not isinstance(star[0].value, ast.Name):
            raise No()
        args = args[:-1]
        if len(args) != len(params):
            raise No()
        exprs[a.vararg.arg] = star[0].value
    elif a.vararg:
        extra = args[len(params):]
        args = args[:len(params)]
        exprs[a.vararg.arg] = ast.Tuple(elts=extra, ctx=ast.Load())
    if len(args) > len(params):
        raise No()
    for p, e in zip(params, args):
        exprs[p] = e
    more = []
    for k in call.keywords:
        if k.arg is None:
            if not a.kwarg or not isinstance(k.value, ast.Name) or a.kwarg.arg in exprs:
                raise No()
            exprs[a.kwarg.arg] = k.value
        elif k.arg in params and k.arg not in exprs:
            exprs[k.arg] = k.value
        else:
            more.append(k)
    if more:
        raise No()
    if a.kwarg and a.kwarg.arg not in exprs:
        exprs[a.kwarg.arg] = ast.Dict(keys=[], values=[])
    for p, d in zip(reversed(params), reversed(a.defaults)):
        if p not in exprs:
            if not isinstance(d, ast.Constant):
                raise No()
            exprs[p] = d
    if any(p not in exprs for p in params):
        raise No()
    stmts = copy.deepcopy(h.stmts)
    nodes = [n for s in stmts for n in ast.walk(s)]
    stored = {n.id for n in nodes if isinstance(n, ast.Name) and not isinstance(n.ctx, ast.Load)} | \
        {n.name for n in nodes if isinstance(n, ast.ExceptHandler) and n.name} | \
        {(x.asname or x.name).split('.')[0] for n in nodes if isinstance(n, (ast.Import, ast.ImportFrom)) for x in n.names} | \
        {n.name for n in nodes if isinstance(n, FUNC + (ast.ClassDef,))}
    inner = {x.arg for n in nodes if isinstance(n, FUNC + (ast.Lambda,)) for x in n.args.args + n.args.kwonlyargs}
    plainnames = {n.id for n in nodes if isinstance(n, ast.Name)}
    setup, names = [], {}
    for p in list(exprs):
        e = exprs[p]
        uses = sum(isinstance(n, ast.Name) and n.id == p for n in nodes)
        if p in inner:
            raise No()
        root = e
        while isinstance(root, ast.Attribute):
            root = root.value
        if p not in stored and (isinstance(e, (ast.Name, ast.Constant)) or simple(e) and not isinstance(e, ast.Attribute)) and not (
                isinstance(root, ast.Name) and root.id in stored and root.id != p):
            continue
        if p in stored and isinstance(e, ast.Name) and e.id == p:
            if e.id in caller_names['params'] or True:
                del exprs[p]
                continue
        if uses == 0 and simple(e):
            continue
        nm = p
        while nm in caller_names['all'] or nm in names.values():
            nm += '_h'
        names[p] = nm
        del exprs[p]
        setup.append(ast.copy_location(ast.Assign(targets=[ast.Name(id=nm, ctx=ast.Store())], value=copy.deepcopy(e)), at))
    for x in sorted(stored - set(names) - set(exprs)):
        if x in h_params(h) or x in keep:
            continue
        if x in caller_names['all']:
            if x in inner or any(isinstance(n, (ast.Import, ast.ImportFrom) + FUNC + (ast.ClassDef,)) and (
                    x in [getattr(n, 'name', None)] + [(y.asname or y.name).split('.')[0] for y in getattr(n, 'names', [])])
                    for n in nodes):
                continue
            nm = x + '_h'
            while nm in caller_names['all'] or nm in plainnames:
                nm += '_h'
            names[x] = nm
    sub = Subst(exprs, names)
    stmts = [sub.visit(s) for s in stmts]
    return setup, stmts


def h_params(h):
    a = h.node.args
    return {x.arg for x in a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}


class Site(object):
    """Replaces the calls of one helper in one function."""

    def __init__(self, h, caller):
        self.h, self.caller = h, caller
        self.left = self.count = 0
        a = caller.args
        self.names = {'params': {x.arg for x in a.args}, 'all': {n.id for n in ast.walk(caller) if isinstance(n, ast.Name)} |
                      {x.arg for x in a.args + a.kwonlyargs}}

    def match(self, e):
        if not isinstance(e, ast.Call) or name_of(e.func) != self.h.node.name:
            return False
        if self.h.cls is None:
            return isinstance(e.func, ast.Name)
        return isinstance(e.func, ast.Attribute) and isinstance(e.func.value, ast.Name)

    def block(self, body):
        out = []
        for s in body:
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(s, field, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, field, self.block(b))
            for x in getattr(s, 'handlers', []):
                x.body = self.block(x.body)
            try:
                out.extend(self.replace(s))
            except No:
                out.append(s)
        return out

    def replace(self, s):
        h = self.h
        at = s
        if isinstance(s, ast.Return) and self.match(s.value):
            setup, body = bind(h, s.value, self.names, at)
            if not leaves(body):
                body = body + [ast.copy_location(ast.Return(value=None), at)]
        elif isinstance(s, ast.Expr) and self.match(s.value):
            setup, body = bind(h, s.value, self.names, at)

            def mk(v, at):
                if v is None or isinstance(v, (ast.Name, ast.Constant)):
                    return []
                return [ast.copy_location(ast.Expr(value=v), at)]
            body = convert(body, mk, None)
        elif isinstance(s, ast.Assign) and self.match(s.value):
            setup, body = bind(h, s.value, self.names, at, self.same(s))

            def mk(v, at):
                v = v if v is not None else ast.copy_location(ast.Constant(value=None), at)
                if len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(v, ast.Tuple) and \
                        len(v.elts) == len(s.targets[0].elts) and all(isinstance(x, ast.Name) for x in s.targets[0].elts + v.elts):
                    if [x.id for x in v.elts] == [x.id for x in s.targets[0].elts]:
                        return []
                if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(v, ast.Name) and v.id == s.targets[0].id:
                    return []
                return [ast.copy_location(ast.Assign(targets=copy.deepcopy(s.targets), value=v), at)]
            body = convert(body, mk, lambda: mk(None, at))
        elif len(h.stmts) == 1 and isinstance(h.stmts[0], ast.Return) and h.stmts[0].value is not None:
            return [self.expression(s)]
        else:
            return [s]
        self.count += 1
        for x in setup + body:
            self.names['all'] |= {n.id for n in ast.walk(x) if isinstance(n, ast.Name)}
        return setup + body or [ast.copy_location(ast.Pass(), at)]

    def same(self, s):
        """Names the helper returns into variables of the same name."""
        rets = [n.value for n in self.h.walk() if isinstance(n, ast.Return)]
        t = s.targets[0]
        ts = t.elts if isinstance(t, ast.Tuple) else [t]
        if len(s.targets) > 1 or len(rets) != 1 or rets[0] is None:
            return set()
        vs = rets[0].elts if isinstance(rets[0], ast.Tuple) else [rets[0]]
        if len(vs) != len(ts) or not all(isinstance(x, ast.Name) for x in ts + vs):
            return set()
        return {x.id for x, y in zip(ts, vs) if x.id == y.id}

    def expression(self, s):
        site = self

        class E(ast.NodeTransformer):
            def visit_Call(self, n):
                self.generic_visit(n)
                if site.match(n):
                    try:
                        setup, body = bind_expression(site.h, n, site.names)
                    except No:
                        return n
                    site.count += 1
                    return body
                return n

            def visit_FunctionDef(self, n):
                return n
        own = {}
        for field in ('body', 'orelse', 'finalbody', 'handlers'):
            if hasattr(s, field) and isinstance(getattr(s, field), list):
                own[field] = getattr(s, field)
                setattr(s, field, [])
        s = E().visit(s)
        for field, b in own.items():
            setattr(s, field, b)
        return s


def bind_expression(h, call, names):
    setup, body = bind(h, call, names, call)
    exprs = {}
    for s in setup:
        uses = sum(isinstance(n, ast.Name) and n.id == s.targets[0].id for b in body for n in ast.walk(b))
        if uses > 1 and not simple(s.value):
            raise No()
        exprs[s.targets[0].id] = s.value
    v = Subst(exprs, {}).visit(body[0]).value
    return [], v


def inline_new(trees):
    """trees: {module name: tree}, changed in place.  Returns the helpers put back."""
    known = baseline()
    done = []
    for _ in range(4):
        new, names = [], {}
        for mod, tree in trees.items():
            for q, f, c, b in functions(mod, tree):
                names[f.name] = names.get(f.name, 0) + 1
                if q not in known:
                    new.append(Helper(mod, q, f, c, b))
        new = [h for h in new if h.ok and names[h.node.name] == 1]
        if not new:
            break
        refs = {}
        for tree in trees.values():
            for n in ast.walk(tree):
                nm = name_of(n) if isinstance(n, (ast.Name, ast.Attribute)) else None
                if nm is not None:
                    refs[nm] = refs.get(nm, 0) + 1
        newnames = {h.node.name for h in new}
        progress = False
        for h in new:
            n = refs.get(h.node.name, 0)
            if not 0 < n <= MAX_SITES or h.size * n > MAX_NODES:
                continue
            # helpers that call other new helpers wait for those
            if any(isinstance(x, ast.Call) and name_of(x.func) in newnames - {h.node.name} for x in h.walk()) and _ < 3:
                continue
            count = 0
            for mod, tree in trees.items():
                for q, f, c, b in functions(mod, tree):
                    if f is h.node:
                        continue
                    for g in [f] + [x for x in ast.walk(f) if isinstance(x, FUNC) and x is not f]:
                        if not any(name_of(x) == h.node.name for x in ast.walk(g) if isinstance(x, (ast.Name, ast.Attribute))):
                            continue
                        if h.cls is None and mod != h.modname and h.node.name not in imported(tree):
                            continue
                        if any(isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id == 'super' for x in h.walk()) and \
                                c is not h.cls:
                            continue
                        if mod != h.modname and foreign_names(h, trees[h.modname], tree):
                            continue
                        s = Site(h, g)
                        g.body = s.block(g.body)
                        count += s.count
            if count:
                progress = True
                done.append(h.qual)
            if count == n:
                h.body.remove(h.node)
                if not h.body:
                    h.body.append(ast.copy_location(ast.Pass(), h.node))
        if not progress:
            break
    for tree in trees.values():
        ast.fix_missing_locations(tree)
    return done


def imported(tree):
    return {(a.asname or a.name).split('.')[0] for n in ast.walk(tree) if isinstance(n, (ast.Import, ast.ImportFrom)) for a in n.names}


def foreign_names(h, home, there):
    """Does the helper use module-level names the other module lacks?"""
    def top(tree):
        out = imported(tree)
        for s in tree.body:
            if isinstance(s, FUNC + (ast.ClassDef,)):
                out.add(s.name)
            elif isinstance(s, ast.Assign):
                out.update(x.id for t in s.targets for x in ast.walk(t) if isinstance(x, ast.Name))
        return out
    used = {n.id for n in h.walk() if isinstance(n, ast.Name)}
    return bool((used & top(home)) - top(there))
