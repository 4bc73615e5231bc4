"""Helpers shared by rules."""
import ast

from .paths import Facts, absval, explore_safe
from .program import FuncInfo, ClassInfo, dotted, own_nodes

MUTATORS = {'append', 'extend', 'insert', 'pop', 'popitem', 'remove', 'clear', 'update', 'setdefault', 'add', 'discard',
            'sort', 'reverse', 'appendleft', 'extendleft', 'popleft'}


def norm(attr):
    return attr.lstrip('_')


def root_name(e):
    while isinstance(e, (ast.Attribute, ast.Subscript, ast.Call)):
        if isinstance(e, ast.Call):
            e = e.func
            if isinstance(e, ast.Name):
                return None
            e = e.value if isinstance(e, ast.Attribute) else e
        else:
            e = e.value
    return e.id if isinstance(e, ast.Name) else None


def call_facts(prog, g, call):
    """Facts about parameters of g known from constant arguments and defaults at this call."""
    facts = Facts()
    a = g.node.args
    pos = [x.arg for x in getattr(a, 'posonlyargs', []) + a.args]
    defaults = {}
    for name, d in zip(reversed(pos), reversed(a.defaults)):
        defaults[name] = d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if d is not None:
            defaults[x.arg] = d
    given = prog.map_args(g, call, call.func.value if isinstance(call.func, ast.Attribute) else None)
    for name in g.params:
        e = given.get(name)
        if name not in given and '*' not in given and '**' not in given:
            e = defaults.get(name)
        if isinstance(e, ast.AST):
            v = absval(e)
            if v is not None:
                facts = facts.set(name, v, {name})
    return facts


def reachable_nodes(f, facts=None):
    """CFG nodes of f reachable under the given facts."""
    g, at, _ = explore_safe(f, 0, lambda n, l, p, fs: [p], facts=facts)
    return [n for n in g.nodes if n.id in at]


def mutated_names(f):
    out = set()
    for n in own_nodes(f.node):
        if isinstance(n, (ast.Assign, ast.AugAssign, ast.Delete)):
            ts = n.targets if not isinstance(n, ast.AugAssign) else [n.target]
            for t in ts:
                if isinstance(t, ast.Subscript):
                    r = t.value
                    while isinstance(r, ast.Subscript):
                        r = r.value
                    if isinstance(r, ast.Name):
                        out.add(r.id)
                elif isinstance(n, ast.AugAssign) and isinstance(t, ast.Name):
                    out.add(t.id)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            if isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
    return out


def dep_names(prog, f, e, depth=0, seen=None):
    """Names an expression depends on through local assignments."""
    seen = seen if seen is not None else set()
    for n in ast.walk(e):
        if isinstance(n, ast.Name) and n.id not in seen:
            seen.add(n.id)
            for how, v in prog.local_assigns(f).get(n.id, []):
                if isinstance(v, ast.AST) and not isinstance(v, ast.ExceptHandler):
                    dep_names(prog, f, v, depth + 1, seen)
    return seen


def closure(prog, f, pred, depth=8, seen=None):
    """Does f or anything it may call satisfy pred(func)?"""
    seen = seen if seen is not None else set()
    if f.qual in seen:
        return False
    seen.add(f.qual)
    if pred(f):
        return True
    if depth == 0:
        return False
    for c in prog.calls(f):
        for t in prog.resolve_call(f, c):
            if isinstance(t, FuncInfo) and closure(prog, t, pred, depth - 1, seen):
                return True
    return False


def init_text(prog, attr):
    """Source texts assigned to self.<attr> by any __init__."""
    cache = prog.__dict__.setdefault('_init_text', {})
    if attr in cache:
        return cache[attr]
    out = cache[attr] = set()
    for c in prog.classes.values():
        m = c.methods.get('__init__')
        if m is None:
            continue
        for n in own_nodes(m.node):
            if isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Attribute) and norm(t.attr) == attr and isinstance(t.value, ast.Name):
                        out.add(ast.unparse(n.value))
        if attr in c.attrs:
            out.add(ast.unparse(c.attrs[attr]))
        if '_' + attr in c.attrs:
            out.add(ast.unparse(c.attrs['_' + attr]))
    return out


def last_part(text):
    return text.split('.')[-1]
