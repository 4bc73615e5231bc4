"""Path-sensitive forward exploration of a CFG.

A state is (facts, prop): ``facts`` records what branch conditions and constant assignments established about names and
atomic conditions (used to discard contradictory paths such as a flag set to False and then tested true); ``prop`` is the
state of the property automaton, advanced by the client's ``transfer``.
"""
import ast

from .cfg import cfg_of, node_exprs

MAX_STATES = 60000


class Budget(Exception):
    pass


def names_in(e):
    try:
        return e._names
    except AttributeError:
        e._names = _names_in(e)
        return e._names


def _names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


_PURE_NODES = (ast.Name, ast.Attribute, ast.Constant, ast.Compare, ast.BoolOp, ast.UnaryOp, ast.BinOp, ast.operator,
         ast.cmpop, ast.unaryop, ast.boolop, ast.Load, ast.Subscript, ast.Slice, ast.Tuple, ast.List)


def pure(e):
    try:
        return e._pure
    except AttributeError:
        e._pure = _pure(e)
        return e._pure


def _pure(e):
    for n in ast.walk(e):
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id in ('isinstance', 'len', 'hasattr', 'bool', 'callable', 'get_iter'):
                continue
            if isinstance(n.func, ast.Attribute) and n.func.attr in ('exists', 'isdir', 'isfile', 'inquire_opened_state'):
                continue
            return False
        if not isinstance(n, _PURE_NODES) and not isinstance(n, ast.keyword):
            return False
    return True


class Facts(object):
    """Immutable mapping key -> abstract value. Keys: source text of a name/attribute (value facts: 'T','F','N','NN',
    ('c', const)) or of an atomic condition (truth facts True/False)."""
    __slots__ = ('d', '_h')

    def __init__(self, d=None):
        self.d = d or {}
        self._h = None

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset((k, v[0]) for k, v in self.d.items()))
        return self._h

    def __eq__(self, o):
        return {k: v[0] for k, v in self.d.items()} == {k: v[0] for k, v in o.d.items()}

    def set(self, key, val, names):
        d = dict(self.d)
        d[key] = (val, frozenset(names))
        return Facts(d)

    def get(self, key):
        v = self.d.get(key)
        return v[0] if v else None

    def kill(self, names, prefixes=()):
        if not any((v[1] & names) for v in self.d.values()) and not prefixes:
            return self
        d = {k: v for k, v in self.d.items() if not (v[1] & names) and not any(p in k for p in prefixes)}
        return Facts(d)

    # -- conditions
    def truth(self, e):
        if isinstance(e, ast.Constant):
            return bool(e.value)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            t = self.truth(e.operand)
            return None if t is None else (not t)
        if isinstance(e, ast.BoolOp):
            ts = [self.truth(v) for v in e.values]
            if isinstance(e.op, ast.And):
                if any(t is False for t in ts):
                    return False
                return True if all(t is True for t in ts) else None
            if any(t is True for t in ts):
                return True
            return False if all(t is False for t in ts) else None
        if not pure(e):
            return None
        key = unparse(e)
        v = self.get('?' + key)
        if v is not None:
            return v
        val = self.get(key)
        if val is not None:
            if val in ('T',):
                return True
            if val in ('F', 'N'):
                return False
            if isinstance(val, tuple):
                return bool(val[1])
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r, op = e.left, e.comparators[0], e.ops[0]
            if isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)) and isinstance(r, ast.Constant):
                lv = self.get(unparse(l))
                res = None
                if r.value is None:
                    if lv == 'N':
                        res = True
                    elif lv is not None:
                        res = False
                elif lv is not None and lv != 'NN':
                    known = {'T': True, 'F': False, 'N': None}.get(lv, lv[1] if isinstance(lv, tuple) else lv)
                    res = known == r.value
                if res is not None:
                    return res if isinstance(op, (ast.Is, ast.Eq)) else not res
            # negated twin recorded?
            twin = self._twin(e)
            if twin is not None:
                v = self.get('?' + twin)
                if v is not None:
                    return not v
        return None

    @staticmethod
    def _twin(e):
        flip = {ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not', ast.IsNot: 'is', ast.Gt: '<=', ast.LtE: '>',
                ast.Lt: '>=', ast.GtE: '<', ast.In: 'not in', ast.NotIn: 'in'}
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            return '%s %s %s' % (unparse(e.left), flip[type(e.ops[0])], unparse(e.comparators[0]))
        return None

    def assume(self, e, truth):
        """Facts after condition e evaluated to truth; None if contradictory."""
        t = self.truth(e)
        if t is not None and t != truth:
            return None
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return self.assume(e.operand, not truth)
        if isinstance(e, ast.BoolOp):
            if isinstance(e.op, ast.And) == truth:
                f = self
                for v in e.values:
                    f = f.assume(v, truth)
                    if f is None:
                        return None
                return f
            # one unknown left: the others are decided
            open_ = [v for v in e.values if self.truth(v) is None]
            if len(open_) == 1:
                return self.assume(open_[0], truth)
            return self
        if isinstance(e, ast.NamedExpr):
            return self
        if not pure(e):
            return self
        key = unparse(e)
        names = names_in(e)
        f = self.set('?' + key, truth, names)
        if isinstance(e, ast.Compare) and len(e.ops) == 1:
            l, r, op = e.left, e.comparators[0], e.ops[0]
            if isinstance(r, ast.Constant) and isinstance(op, (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                pos = truth == isinstance(op, (ast.Is, ast.Eq))
                lk = unparse(l)
                if r.value is None:
                    f = f.set(lk, 'N' if pos else 'NN', names_in(l))
                elif pos:
                    f = f.set(lk, absval(r), names_in(l))
        elif isinstance(e, (ast.Name, ast.Attribute)):
            if truth:
                if f.get(key) is None:
                    f = f.set(key, 'NN', names)
        return f


def absval(e):
    if isinstance(e, ast.Constant):
        if e.value is None:
            return 'N'
        if e.value is True:
            return 'T'
        if e.value is False:
            return 'F'
        if isinstance(e.value, (int, str, float)):
            return ('c', e.value)
    return None


def assigned_names(n):
    if n._assigned is None:
        n._assigned = _assigned_names(n)
    return n._assigned


def unparse(e):
    try:
        return e._txt
    except AttributeError:
        e._txt = ast.unparse(e)
        return e._txt


def _assigned_names(n):
    """Names (and attribute texts) assigned by passing a CFG node."""
    names, attrs = set(), set()
    a = n.ast
    targets = []
    if n.kind == 'for':
        targets = [a.target]
    elif n.kind == 'with_enter':
        if n.extra.optional_vars is not None:
            targets = [n.extra.optional_vars]
    elif n.kind == 'handler':
        if a.name:
            names.add(a.name)
    elif n.kind == 'stmt':
        if isinstance(a, ast.Assign):
            targets = list(a.targets)
        elif isinstance(a, (ast.AugAssign, ast.AnnAssign)):
            targets = [a.target]
        elif isinstance(a, ast.Delete):
            targets = list(a.targets)
        elif isinstance(a, (ast.Import, ast.ImportFrom)):
            for x in a.names:
                names.add((x.asname or x.name).split('.')[0])
    for e in node_exprs(n):
        for x in ast.walk(e):
            if isinstance(x, ast.NamedExpr):
                targets.append(x.target)
    while targets:
        t = targets.pop()
        if isinstance(t, ast.Name):
            names.add(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            targets.extend(t.elts)
        elif isinstance(t, ast.Starred):
            targets.append(t.value)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            attrs.add(unparse(t))
    return names, attrs


def step_facts(n, label, facts):
    """Facts after leaving node n along label, or None if the edge is infeasible."""
    if n.kind == 'test':
        if label in ('t', 'f'):
            if isinstance(n.ast, ast.While):
                # loop condition: names change in the body, kill handled by assignments
                pass
            return facts.assume(n.extra, label == 't')
        return facts
    names, attrs = assigned_names(n)
    if names or attrs:
        facts = facts.kill(names, attrs)
    if label == 'exc':
        return facts
    a = n.ast
    if n.kind == 'stmt' and isinstance(a, ast.Assign):
        v = absval(a.value)
        for t in a.targets:
            if isinstance(t, (ast.Name, ast.Attribute)):
                key = unparse(t)
                if v is not None:
                    facts = facts.set(key, v, names_in(t))
                elif isinstance(a.value, (ast.Dict, ast.List, ast.Tuple, ast.ListComp, ast.DictComp, ast.JoinedStr,
                                          ast.BinOp, ast.Set)):
                    facts = facts.set(key, 'NN', names_in(t))
                elif isinstance(a.value, (ast.Name, ast.Attribute)):
                    sv = facts.get(unparse(a.value))
                    if sv is not None:
                        facts = facts.set(key, sv, names_in(t))
                elif isinstance(a.value, (ast.Compare, ast.BoolOp, ast.UnaryOp)):
                    tv = facts.truth(a.value)
                    if tv is not None:
                        facts = facts.set(key, 'T' if tv else 'F', names_in(t))
    return facts


def explore(f, init, transfer, facts=None, cfg=None, relevant=None, max_states=MAX_STATES, trace=True):
    """transfer(node, label, prop, facts) -> iterable of new props (empty: path pruned).  Returns dict
    node.id -> set of (facts, prop) on arrival, and parents for path reconstruction."""
    g = cfg or cfg_of(f)
    start = (g.entry.id, facts or Facts(), init)
    seen = {start: None}
    work = [start]
    by_id = {n.id: n for n in g.nodes}
    at = {}
    while work:
        st = work.pop()
        nid, fs, prop = st
        at.setdefault(nid, set()).add((fs, prop))
        n = by_id[nid]
        for s, label in n.succ:
            f2 = step_facts(n, label, fs)
            if f2 is None:
                continue
            for p2 in transfer(n, label, prop, fs):
                nst = (s.id, f2, p2)
                if nst not in seen:
                    seen[nst] = st
                    if len(seen) > max_states:
                        raise Budget()
                    work.append(nst)
    return g, at, seen


def explore_safe(f, init, transfer, **kw):
    """Exploration that falls back to a path-insensitive (no facts) run when the state budget is exceeded."""
    try:
        return explore(f, init, transfer, **kw)
    except Budget:
        kw.pop('facts', None)
        return _explore_nofacts(f, init, transfer, **kw)


def _explore_nofacts(f, init, transfer, cfg=None, **kw):
    g = cfg or cfg_of(f)
    empty = Facts()
    start = (g.entry.id, empty, init)
    seen = {start: None}
    work = [start]
    by_id = {n.id: n for n in g.nodes}
    at = {}
    while work:
        st = work.pop()
        nid, fs, prop = st
        at.setdefault(nid, set()).add((fs, prop))
        n = by_id[nid]
        for s, label in n.succ:
            for p2 in transfer(n, label, prop, empty):
                nst = (s.id, empty, p2)
                if nst not in seen:
                    seen[nst] = st
                    work.append(nst)
    return g, at, seen


def path_lines(seen, st, by_id):
    out = []
    while st is not None:
        n = by_id[st[0]]
        if n.line and (not out or out[-1] != n.line):
            out.append(n.line)
        st = seen[st]
    return list(reversed(out))
