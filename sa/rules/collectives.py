"""P04: collective communication is matched on all ranks (rank-dependence dataflow over control-flow graphs).

Every branch whose condition depends on something only the calling rank knows must execute the same collective calls on all
of its arms up to the point where the arms meet; values produced on one rank are broadcast from that rank before use; files
made by one rank are followed by a synchronisation; explicit message tags are sent and received in pairs.
"""
import ast

from ..cfg import cfg_of, node_calls, node_exprs
from ..program import FuncInfo, dotted, own_nodes

COLL = {'gather': 'gather', 'bcast': 'bcast', 'scatter': 'scatter', 'reduce': 'reduce', 'barrier': 'barrier',
        'Barrier': 'barrier', 'allgather': 'allgather', 'allreduce': 'allreduce', 'alltoall': 'alltoall',
        'Bcast': 'bcast', 'Gather': 'gather', 'Scatter': 'scatter', 'Reduce': 'reduce', 'Allreduce': 'allreduce',
        'Allgather': 'allgather', 'create_subcomm': 'create', 'create_subcomm_by_emptyable': 'create',
        'scoped_by_emptyable': 'scope', 'scoped': 'scope', 'scoped_barrier': 'barrier', 'Create': 'create',
        'get_live_ranks_from_object': 'live_ranks', 'barrier_print': 'barrier', 'Create_group': 'create'}
ROOTED = {'gather', 'Gather', 'reduce', 'Reduce'}
UNIFORM = {'bcast', 'get_live_ranks_from_object', 'allgather', 'allreduce', 'create_subcomm', 'create_subcomm_by_emptyable'}
VMNAMES = {'vm', 'the_vm', 'lvm', 'vm_obj', 'comm', 'comm_world', 'MPI_COMM'}
SENDS = {'send', 'isend', 'Send', 'Isend'}
RECVS = {'recv', 'irecv', 'Recv', 'Irecv'}
FS_EFFECT = {'os.mkdir', 'os.makedirs', 'tempfile.mkdtemp', 'get_temp_path', 'shutil.copy', 'shutil.copy2',
             'shutil.copyfile', 'os.remove', 'os.rename', 'os.unlink', 'shutil.rmtree', 'shutil.move'}
SEQ_CAP = 200
LOCAL = {'has_mask', 'has_masked_values', 'bounds_local', 'has_allocated_value', 'has_value', 'extent'}
DISTRIBUTED = {'create_unique_global_array'}  # collective, but every rank gets its own part of the result
PURE = {'array', 'asarray', 'len', 'any', 'all', 'bool', 'min', 'max', 'int', 'sum', 'not_equal', 'logical_not', 'enumerate', 'range',
        'logical_and', 'logical_or', 'abs', 'float', 'str', 'sorted', 'list', 'tuple', 'set', 'zip'}


def is_vm(prog, f, e, depth=3):
    if depth == 0:
        return False
    if isinstance(e, ast.Name):
        if e.id in VMNAMES:
            return True
        for how, v in prog.local_assigns(f).get(e.id, []):
            if isinstance(v, (ast.Name, ast.Attribute)) and not (isinstance(v, ast.Name) and v.id == e.id):
                if is_vm(prog, f, v, depth - 1):
                    return True
        return False
    if isinstance(e, ast.Attribute):
        return e.attr in VMNAMES
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == 'get_subcomm':
        return True
    return False


def leaf(prog, f, c):
    """Name of the collective operation this call performs itself, else None."""
    fn = c.func
    if isinstance(fn, ast.Attribute) and fn.attr in COLL and is_vm(prog, f, fn.value):
        return COLL[fn.attr]
    if isinstance(fn, ast.Name) and fn.id in ('get_nonempty_ranks', 'barrier_print', 'vm_scope', 'vm_scoped_barrier'):
        return {'get_nonempty_ranks': 'live_ranks', 'barrier_print': 'barrier', 'vm_scope': 'scope',
                'vm_scoped_barrier': 'barrier'}[fn.id]
    return None


def is_abort(c):
    return isinstance(c.func, ast.Attribute) and c.func.attr in ('abort', 'Abort')


class Analysis(object):
    def __init__(self, prog, res):
        self.prog, self.res = prog, res
        self._close()
        self._may()

    def skip(self, f):
        return f.cls is not None and f.cls.name in ('OcgVM', 'DummyMPIComm')

    def funcs(self):
        return [f for f in self.prog.funcs.values() if not self.skip(f)]

    def _close(self):
        """Functions that communicate on every normal path when there is more than one rank (least fixpoint)."""
        prog = self.prog
        self.must = {}
        self.must_props = set()
        cand = {}
        for f in self.funcs():
            if f.is_abstract:
                continue
            cand[f.qual] = f
        changed = True
        while changed:
            changed = False
            for q, f in cand.items():
                if q in self.must:
                    continue
                if self._always(f):
                    self.must[q] = True
                    changed = True
            getters = {}
            for q, f in cand.items():
                if f.kind == 'property':
                    getters.setdefault(f.name, []).append(q)
            self.must_props = {n for n, qs in getters.items() if all(q in self.must for q in qs)}

    def _may(self):
        """Functions that communicate on some path (every resolved target counts)."""
        prog = self.prog
        callers, work = {}, []
        for f in self.funcs():
            if any(leaf(prog, f, c) for c in prog.calls(f)):
                work.append(f.qual)
            for c in prog.calls(f):
                for t in prog.resolve_call(f, c):
                    if isinstance(t, FuncInfo) and not self.skip(t):
                        callers.setdefault(t.qual, set()).add(f.qual)
        self.may = set(work)
        while work:
            for p in callers.get(work.pop(), ()):
                if p not in self.may:
                    self.may.add(p)
                    work.append(p)

    def _always(self, f):
        has = False
        for c in self.prog.calls(f):
            if leaf(self.prog, f, c) or self._must_call(f, c):
                has = True
                break
        if not has:
            return False
        g = cfg_of(f)
        stack, seen = [g.entry], set()
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            if n.kind == 'exit':
                return False
            if n.kind != 'with_exit' and self.node_events(f, n):
                continue
            parallel = self._size_arm(f, n)
            for s, l in self.edges(n):
                if parallel is not None and l in ('t', 'f') and l != parallel:
                    continue
                stack.append(s)
        return True

    def _size_arm(self, f, n):
        """Label of the branch taken when there is more than one rank, for a test on the number of ranks."""
        if n.kind != 'test' or not isinstance(n.extra, ast.Compare) or len(n.extra.ops) != 1:
            return None
        l, r, op = n.extra.left, n.extra.comparators[0], n.extra.ops[0]
        if isinstance(l, ast.Attribute) and l.attr in ('size', 'size_global') and is_vm(self.prog, f, l.value) and \
                isinstance(r, ast.Constant) and r.value == 1:
            if isinstance(op, (ast.Gt, ast.NotEq)):
                return 't'
            if isinstance(op, (ast.Eq, ast.LtE)):
                return 'f'
        return None

    def _must_call(self, f, c):
        ts = [t for t in self.prog.resolve_call(f, c) if isinstance(t, FuncInfo) and not self.skip(t)]
        if ts and all(t.qual in self.must for t in ts):
            return ts[0]
        return None

    # -- events
    def node_events(self, f, n, may=False):
        ev = []
        if self.must_props:
            for e in node_exprs(n):
                for x in ast.walk(e):
                    if isinstance(x, ast.Attribute) and x.attr in self.must_props and isinstance(x.ctx, ast.Load):
                        ev.append(('read ' + x.attr, x))
        for c in node_calls(n):
            l = leaf(self.prog, f, c)
            if l:
                ev.append((l, c))
                continue
            t = self._must_call(f, c)
            if t is None and may:
                ts = [x for x in self.prog.resolve_call(f, c) if isinstance(x, FuncInfo)]
                if ts and all(x.qual in self.may for x in ts):
                    t = ts[0]
            if t is not None:
                ev.append(('call ' + t.name, c))
        return ev

    # -- one function
    def scope(self, f, node):
        out = []
        a = node
        while a is not None and a is not f.node:
            p = getattr(a, '_parent', None)
            if isinstance(p, ast.With) and a in p.body:
                for it in p.items:
                    c = it.context_expr
                    if isinstance(c, ast.Call) and leaf(self.prog, f, c) == 'scope':
                        out.append(id(p))
            a = p
        return tuple(out)

    def expr_kinds(self, f, e, taint):
        """Kinds of rank dependence of expression e: 'rank', 'null' (not in the current communicator), 'root'."""
        out = set()
        stack = [e]
        while stack:
            x = stack.pop()
            if isinstance(x, ast.Call):
                fn = x.func
                if isinstance(fn, ast.Attribute) and is_vm(self.prog, f, fn.value):
                    if fn.attr in ROOTED:
                        out.add('root')
                    elif fn.attr in RECVS or fn.attr in ('scatter', 'Scatter', 'Get_rank'):
                        out.add('rank')
                    continue
                last = fn.attr if isinstance(fn, ast.Attribute) else getattr(fn, 'id', None)
                if last in DISTRIBUTED:
                    out.add('rank')
                    continue
                if last in PURE or self._passes(f, x):
                    stack.extend(x.args)
                continue
            if isinstance(x, ast.Attribute):
                if x.attr == 'is_null' and is_vm(self.prog, f, x.value):
                    out.add('null')
                elif x.attr in ('rank', 'rank_global') and is_vm(self.prog, f, x.value):
                    out.add('rank')
                elif x.attr in LOCAL and not is_vm(self.prog, f, x.value):
                    out.add('rank')
                elif x.attr == 'size' and not is_vm(self.prog, f, x.value) and self._against_zero(x):
                    out.add('rank')
                elif x.attr == 'is_empty':
                    if '=live ' + ast.unparse(x.value) not in taint:
                        out.add('rank')
                else:
                    d = dotted(x)
                    if d is not None and d in taint:
                        out |= taint[d]
                continue
            if isinstance(x, ast.Name):
                if x.id == 'MPI_RANK':
                    out.add('rank')
                elif x.id in taint:
                    out |= taint[x.id]
                continue
            if isinstance(x, (ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp)):
                stack.extend(g.iter for g in x.generators)
                continue
            if isinstance(x, ast.Lambda):
                continue
            stack.extend(ast.iter_child_nodes(x))
        return out

    def _below_mask(self, f, stmt):
        """The statement runs for the unmasked elements only: how often is different on every rank."""
        x = stmt
        while x is not f.node and x is not None:
            up = getattr(x, '_parent', None)
            if isinstance(up, ast.If) and x is not up.test:
                for y in ast.walk(up.test):
                    if isinstance(y, ast.Name):
                        for how, v in self.prog.local_assigns(f).get(y.id, []):
                            if how == 'val' and isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and \
                                    v.func.attr in ('get_mask', 'getmaskarray'):
                                return True
            x = up
        return False

    @staticmethod
    def _against_zero(x):
        """``x.size == 0``: whether the part of this rank has elements."""
        p = x._parent
        return isinstance(p, ast.Compare) and len(p.ops) == 1 and any(
            isinstance(y, ast.Constant) and y.value == 0 for y in [p.left] + p.comparators)

    def _passes(self, f, c):
        """The result of the call depends on what it is given, and nothing in it makes the ranks agree."""
        ts = self.prog.resolve_call(f, c)
        return bool(ts) and all(isinstance(t, FuncInfo) and t.qual not in self.may and t.name != '__init__' for t in ts)

    def edges(self, n):
        """Successors used for matching: normal control flow and explicit raises."""
        if any(is_abort(c) for c in node_calls(n)):
            return []
        if n.kind == 'raise':
            return [(s, l) for s, l in n.succ]
        if n.kind == 'dispatch':
            return list(n.succ)
        if n.kind in ('with_exit',):
            return list(n.succ)
        out = [(s, l) for s, l in n.succ if l != 'exc']
        return out

    def analyse(self, f):
        prog, res = self.prog, self.res
        g = cfg_of(f)
        ids = {n.id: n for n in g.nodes}
        # reachable sub-graph through the matching edges
        succ, seen, order = {}, set(), []
        stack = [g.entry]
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            order.append(n)
            succ[n.id] = [(s, l) for s, l in self.edges(n)]
            stack.extend(s for s, _ in succ[n.id])
        pred = {i: [] for i in seen}
        for i in seen:
            for s, _ in succ[i]:
                pred[s.id].append(i)
        pdom = self._postdom(order, succ, g)
        self.f, self.succ = f, succ

        tests = [n for n in order if n.kind in ('test', 'for') and not isinstance(n.ast, ast.Assert) and len({s.id for s, _ in succ[n.id]}) > 1]
        implicit = {}  # node id -> kinds from enclosing tainted tests
        while True:
            taint_in = self._dataflow(f, g, order, succ, pred, implicit)
            new = {}
            kinds = {}
            for n in tests:
                e = n.extra if n.kind == 'test' else n.ast.iter
                k = self.expr_kinds(f, e, taint_in.get(n.id, {}))
                if 'root' in k:
                    k = (k - {'root'}) | {'rank'}
                if k:
                    kinds[n.id] = k
                    body = list(n.ast.body) + list(n.ast.orelse)
                    inside = {id(y) for st in body for y in ast.walk(st) if isinstance(y, ast.stmt)}
                    for m in order:
                        if m.kind == 'stmt' and id(m.ast) in inside:
                            new.setdefault(m.id, set()).update(k)
            if new == implicit:
                break
            implicit = new
        self.taint_in, self.kinds, self.tests = taint_in, kinds, tests
        for n in order:
            for e in node_exprs(n):
                self._check_inline(f, n, e, taint_in.get(n.id, {}))
        for n in tests:
            if n.id not in kinds:
                continue
            k = kinds[n.id]
            sc = self.scope(f, n.ast)
            arms = []
            for s, l in succ[n.id]:
                arms.append((l, self._sequences(f, s, n, pdom.get(n.id), k, sc, self._rank_only(f, n))))
            live = [(l, q) for l, q in arms if q]
            if len(live) < 2 or all(q == {()} for _, q in live):
                res.count('rank_dependent_branches_without_communication')
                continue
            where = '%s:%s' % (f.qual, self._what(n))
            good = len({frozenset(q) for _, q in live}) <= 1
            show = ' / '.join('{%s}' % '; '.join(','.join(x) or 'none' for x in sorted(q)[:3]) for _, q in arms)
            res.check(good, 'same-collectives-on-every-rank', where, f.loc(n.ast),
                      'the condition %r is known only to the calling rank, but its outcomes make different collective '
                      'calls: %s' % (ast.unparse(n.extra if n.kind == 'test' else n.ast.iter)[:80], show))

    def _rank_only(self, f, n):
        e = n.extra if n.kind == 'test' else None
        return e is not None and isinstance(e, ast.Compare) and any(
            isinstance(x, ast.Attribute) and x.attr == 'rank' and is_vm(self.prog, f, x.value) or
            isinstance(x, ast.Name) and x.id == 'MPI_RANK' for x in ast.walk(e))

    def _what(self, n):
        e = n.extra if n.kind == 'test' else n.ast.iter
        return ast.unparse(e)[:60]

    def _check_inline(self, f, n, e, taint):
        for x in ast.walk(e):
            parts = []
            if isinstance(x, ast.IfExp):
                parts = [(x.test, [x.body, x.orelse])]
            elif isinstance(x, ast.BoolOp):
                parts = [(v, x.values[i + 1:]) for i, v in enumerate(x.values[:-1])]
            for t, rest in parts:
                k = self.expr_kinds(f, t, taint) - {'null'}
                if not k:
                    continue
                for r in rest:
                    for c in ast.walk(r):
                        if isinstance(c, ast.Call) and leaf(self.prog, f, c):
                            self.res.bad('same-collectives-on-every-rank', '%s:%s' % (f.qual, ast.unparse(t)[:60]), f.loc(c),
                                         'collective call inside an expression that is evaluated only when %r, which only '
                                         'the calling rank knows' % ast.unparse(t)[:60])

    def _sequences(self, f, start, test, stop, kinds, sc, may=False):
        out = set()
        count = [0]
        drop_same_scope = kinds == {'null'}

        def walk(n, seq, onpath):
            if count[0] > SEQ_CAP * 40 or len(out) > SEQ_CAP:
                return
            count[0] += 1
            if n.id == stop or n.id == test.id:
                out.add(seq)
                return
            if n.kind == 'exit':
                out.add(seq)
                return
            if n.kind == 'exc_exit':
                return  # failing ranks are not considered
            if n.id in onpath:
                return
            ev = self._events(f, n, drop_same_scope, sc, may)
            if any(is_abort(c) for c in node_calls(n)):
                return
            ss = self.succ.get(n.id, [])
            for s, _ in ss:
                walk(s, seq + ev, onpath | {n.id})
        walk(start, (), frozenset())
        return out

    def _events(self, f, n, drop_same_scope, sc, may=False):
        if n.kind == 'with_exit':
            return ()
        ev = self.node_events(f, n, may)
        if not ev:
            return ()
        if drop_same_scope:
            s = self.scope(f, n.ast if n.kind != 'with_enter' else n.ast)
            if s == sc or (len(s) > len(sc) and s[-len(sc):] == sc and sc):
                return ()
        return tuple(l for l, c in ev)

    def _dataflow(self, f, g, order, succ, pred, implicit):
        state = {g.entry.id: {}}
        work = [g.entry.id]
        first = True
        rounds = 0
        while work:
            i = work.pop(0)
            rounds += 1
            if rounds > 20000:
                break
            n = self.ids_of(g)[i]
            st = self._transfer(f, n, state.get(i, {}), implicit.get(i, set()))
            for s, _ in succ[i]:
                old = state.get(s.id)
                if old is None:
                    state[s.id] = dict(st)
                    work.append(s.id)
                else:
                    ch = False
                    for k in [k for k in old if k.startswith('=live ') and k not in st]:
                        del old[k]
                        ch = True
                    for k, v in st.items():
                        if k.startswith('=live '):
                            continue
                        if not v <= old.get(k, set()):
                            old[k] = old.get(k, set()) | v
                            ch = True
                    if ch and s.id not in work:
                        work.append(s.id)
        return state

    def ids_of(self, g):
        if getattr(self, '_idg', None) is not g:
            self._idg, self._ids = g, {n.id: n for n in g.nodes}
        return self._ids

    def _transfer(self, f, n, st, imp):
        st = self._transfer0(f, n, st, imp)
        for c in node_calls(n):
            if isinstance(c.func, ast.Attribute) and c.func.attr in ('scoped_by_emptyable', 'create_subcomm_by_emptyable') \
                    and len(c.args) >= 2 and is_vm(self.prog, f, c.func.value):
                if c.func.attr == 'scoped_by_emptyable' or any(k.arg == 'is_current' for k in c.keywords):
                    st = dict(st)
                    st['=live ' + ast.unparse(c.args[1])] = {'live'}
        if n.kind == 'with_exit':
            c = n.extra.context_expr
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'scoped_by_emptyable' \
                    and len(c.args) >= 2:
                st = dict(st)
                st.pop('=live ' + ast.unparse(c.args[1]), None)
        return st

    def _transfer0(self, f, n, st, imp):
        a = n.ast
        pairs = []
        if n.kind == 'stmt':
            if isinstance(a, ast.Assign):
                for t in a.targets:
                    if isinstance(t, ast.Tuple) and isinstance(a.value, ast.Tuple) and len(t.elts) == len(a.value.elts):
                        pairs += list(zip(t.elts, a.value.elts))
                    else:
                        pairs.append((t, a.value))
            elif isinstance(a, ast.AugAssign):
                pairs.append((a.target, ast.BinOp(left=_load(a.target), op=a.op, right=a.value)))
            elif isinstance(a, ast.AnnAssign) and a.value is not None:
                pairs.append((a.target, a.value))
            elif isinstance(a, ast.Expr) and isinstance(a.value, ast.Call) and isinstance(a.value.func, ast.Attribute) \
                    and a.value.func.attr in ('append', 'extend', 'add', 'update', 'insert'):
                d = dotted(a.value.func.value)
                k = set()
                for x in a.value.args:
                    k |= self.expr_kinds(f, x, st)
                if d and self._below_mask(f, a):
                    k.add('rank')
                if d and k:
                    st = dict(st)
                    st[d] = st.get(d, set()) | k
                    return st
        elif n.kind == 'for':
            pairs.append((a.target, a.iter))
        elif n.kind == 'with_enter' and n.extra.optional_vars is not None:
            pairs.append((n.extra.optional_vars, n.extra.context_expr))
        if not pairs:
            return st
        out = dict(st)
        for t, v in pairs:
            k = self.expr_kinds(f, v, st)
            whole_uniform = isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in UNIFORM \
                and is_vm(self.prog, f, v.func.value)
            if imp and (isinstance(v, ast.Constant) or
                        isinstance(v, (ast.List, ast.Dict, ast.Tuple)) and not list(ast.iter_child_nodes(v))[:-1]):
                k = k | imp
            if whole_uniform:
                k = set()
            elements = set()
            if n.kind == 'for' and isinstance(v, ast.Name) and not k:
                k = st.get('*' + v.id, set())
            elif 'rank' in imp and not whole_uniform:
                elements = {'rank'}
            for x in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                if isinstance(x, ast.Starred):
                    x = x.value
                d = dotted(x) if isinstance(x, (ast.Name, ast.Attribute)) else None
                if d is not None:
                    if k:
                        out[d] = k
                    else:
                        out.pop(d, None)
                    if elements:
                        out['*' + d] = elements
                    else:
                        out.pop('*' + d, None)
                elif isinstance(x, ast.Subscript):
                    d = dotted(x.value)
                    if d is not None and k:
                        out[d] = out.get(d, set()) | k
        return out

    def _postdom(self, order, succ, g):
        """Immediate post-dominators with a virtual exit (-1) joining every node that has no successor."""
        ids = [n.id for n in order]
        allset = set(ids) | {-1}
        s2 = {i: ([s.id for s, _ in succ[i]] or [-1]) for i in ids}
        dead = {i for i in ids if not succ[i] and i not in (g.exit.id, g.exc_exit.id)}
        pd = {i: set(allset) for i in ids}
        pd[-1] = {-1}
        changed = True
        rev = list(reversed(ids))
        while changed:
            changed = False
            for i in rev:
                ss = [x for x in s2[i] if x not in dead] or s2[i]
                new = set.intersection(*[pd[x] for x in ss]) | {i}
                if new != pd[i]:
                    pd[i] = new
                    changed = True
        out = {}
        for i in ids:
            c = pd[i] - {i}
            best = None
            for x in c:
                if best is None or len(pd[x]) > len(pd[best]):
                    best = x
            out[i] = best
        return out


def _load(t):
    return t


# ---------------------------------------------------------------------------------------------------------------------------
# values produced on one rank

def rank_test(prog, f, e, loose=False):
    """(root text, label of the arm run by that rank only) of a test comparing the rank with a fixed rank."""
    if isinstance(e, ast.BoolOp) and (loose or isinstance(e.op, ast.And)):
        for v in e.values:
            r = rank_test(prog, f, v, loose)
            if r is not None and r[1] == 't':
                return r
        return None
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        r = rank_test(prog, f, e.operand)
        return None if r is None else (r[0], 'f' if r[1] == 't' else 't')
    if isinstance(e, ast.Compare) and len(e.ops) == 1 and isinstance(e.ops[0], (ast.Eq, ast.NotEq)):
        l, r = e.left, e.comparators[0]
        for x, y in ((l, r), (r, l)):
            if isinstance(x, ast.Attribute) and x.attr == 'rank' and is_vm(prog, f, x.value) or \
                    isinstance(x, ast.Name) and x.id == 'MPI_RANK' or _is_rank_alias(prog, f, x):
                return ast.unparse(y), 't' if isinstance(e.ops[0], ast.Eq) else 'f'
    return None


def _is_rank_alias(prog, f, x):
    if not isinstance(x, ast.Name):
        return False
    vs = prog.local_assigns(f).get(x.id, [])
    return bool(vs) and all(isinstance(v, ast.Attribute) and v.attr == 'rank' and is_vm(prog, f, v.value) for _, v in vs)


def arm_of(prog, f, stmt, loose=False):
    """Innermost test on a fixed rank around stmt: (root text, is the arm run by that rank, the If) else None."""
    a = stmt
    while a is not None and a is not f.node:
        p = getattr(a, '_parent', None)
        if isinstance(p, ast.If):
            r = rank_test(prog, f, p.test, loose)
            if r is not None:
                inside = 't' if any(a is x for x in p.body) else ('f' if any(a is x for x in p.orelse) else None)
                if inside is not None:
                    return r[0], inside == r[1], p
        if isinstance(p, ast.BoolOp) and isinstance(p.op, ast.And):
            for v in p.values[:[i for i, v in enumerate(p.values) if v is a][0]]:
                r = rank_test(prog, f, v, loose)
                if r is not None:
                    return r[0], r[1] == 't', v
        for field in ('body', 'orelse', 'finalbody'):
            b = getattr(p, field, None)
            if isinstance(a, ast.stmt) and isinstance(b, list) and any(x is a for x in b):
                for x in reversed(b[:[i for i, y in enumerate(b) if y is a][0]]):
                    if isinstance(x, ast.If) and not x.orelse and isinstance(x.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)):
                        r = rank_test(prog, f, x.test, loose)
                        if r is not None and not isinstance(x.test, ast.BoolOp):
                            return r[0], r[1] == 'f', x
        a = p
    return None


def guarded_by_name(f, node, name):
    """Is node inside a conditional whose test mentions name, or inside a test on is_null?"""
    a = node
    while a is not None and a is not f.node:
        p = getattr(a, '_parent', None)
        if isinstance(p, (ast.If, ast.IfExp, ast.While)) and a is not p.test:
            t = ast.unparse(p.test)
            if any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(p.test)) or 'is_null' in t:
                return True
        a = p
    return False


def root_values(prog, res, f, an):
    """Names assigned from a gather/reduce, or assigned on one rank and None elsewhere, must be broadcast before other ranks
    use them."""
    if 'root' in f.params:
        res.count('functions_documenting_a_root_result')
        return
    g = cfg_of(f)
    interesting = False
    for n in own_nodes(f.node):
        if isinstance(n, ast.If) and rank_test(prog, f, n.test) is not None:
            interesting = True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ROOTED and is_vm(prog, f, n.func.value):
            interesting = True
    if not interesting:
        return
    state = {g.entry.id: {p: frozenset([('df', 0)]) for p in f.params}}
    work = [g.entry]
    nodes = {n.id: n for n in g.nodes}
    while work:
        n = work.pop()
        st = state[n.id]
        out = st
        if n.kind == 'stmt' and isinstance(n.ast, (ast.Assign, ast.AnnAssign)) and n.ast.value is not None:
            v = n.ast.value
            ts = n.ast.targets if isinstance(n.ast, ast.Assign) else [n.ast.target]
            arm = arm_of(prog, f, n.ast)
            for t in ts:
                pairs = [(t, v)]
                if isinstance(t, (ast.Tuple, ast.List)):
                    if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) == len(t.elts):
                        pairs = list(zip(t.elts, v.elts))
                    else:
                        pairs = [(x, None) for x in t.elts]
                for x, y in pairs:
                    if not isinstance(x, ast.Name):
                        continue
                    if isinstance(y, ast.Call) and isinstance(y.func, ast.Attribute) and y.func.attr in ROOTED and \
                            is_vm(prog, f, y.func.value):
                        k = 'root'
                    elif isinstance(y, ast.Constant) and y.value is None:
                        k = 'nn'
                    elif arm is not None and arm[1] and not _turn_loop(f, arm[2], arm[0]) and y is not None and not isinstance(y, ast.Constant):
                        k = 'ro'
                    else:
                        k = 'df'
                    out = dict(out)
                    out[x.id] = frozenset([(k, n.line)])
        elif n.kind in ('for', 'with_enter'):
            t = n.ast.target if n.kind == 'for' else n.extra.optional_vars
            if t is not None:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name):
                        out = dict(out)
                        out[x.id] = frozenset([('df', n.line)])
        for s, l in an.edges(n):
            old = state.get(s.id)
            if old is None:
                state[s.id] = dict(out)
                work.append(s)
            else:
                ch = False
                for k in set(out) | set(old):
                    v = out.get(k, frozenset([('un', 0)])) | old.get(k, frozenset([('un', 0)]))
                    if v != old.get(k):
                        old[k] = v
                        ch = True
                if ch:
                    work.append(s)
    done = set()
    for n in g.nodes:
        st = state.get(n.id)
        if st is None or n.kind == 'with_exit':
            continue
        for e in node_exprs(n):
            for x in ast.walk(e):
                if not (isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load) and x.id in st):
                    continue
                ks = {k for k, _ in st[x.id]}
                if not ('root' in ks or ('ro' in ks and ('nn' in ks or 'un' in ks))) or 'df' in ks:
                    continue
                arm = arm_of(prog, f, x)
                key = '%s:%s' % (f.qual, x.id)
                p = x._parent
                ok = arm is not None and (arm[1] or 'root' not in ks and False)
                if not ok:
                    q = p
                    if isinstance(q, ast.keyword):
                        q = q._parent
                    if isinstance(q, ast.Call) and isinstance(q.func, ast.Attribute) and \
                            q.func.attr in ('bcast', 'scatter', 'Bcast', 'Scatter') and is_vm(prog, f, q.func.value):
                        ok = True
                    elif isinstance(p, ast.Compare) and any(isinstance(o, (ast.Is, ast.IsNot)) for o in p.ops):
                        ok = True
                    elif guarded_by_name(f, x, x.id):
                        ok = True
                    elif isinstance(q, ast.Call) and any(isinstance(t, FuncInfo) and 'root' in t.params
                                                         for t in prog.resolve_call(f, q)):
                        ok = True  # the callee documents which rank provides the value
                    elif any(isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'rank_print'
                             for c in _ancestors(f, x)):
                        ok = True
                if (key, ok) in done:
                    continue
                done.add((key, ok))
                res.check(ok, 'root-only-value-is-broadcast', key, f.loc(x),
                          '%s is known on one rank only (%s) but is used by every rank without a broadcast' % (
                              x.id, 'collected by a gather or reduce' if 'root' in ks else 'None or unset on the others'))


def _turn_loop(f, x, root):
    """The loop over ranks in which x is one rank's turn, else None."""
    while x is not None and x is not f.node:
        p = getattr(x, '_parent', None)
        if isinstance(p, ast.For) and x in p.body and root in {y.id for y in ast.walk(p.target) if isinstance(y, ast.Name)}:
            return p
        x = p
    return None


def _ancestors(f, x):
    a = x
    while a is not None and a is not f.node:
        a = getattr(a, '_parent', None)
        yield a


def bcast_roots(prog, res, f):
    """A value computed under ``rank == R`` is broadcast from R."""
    assigned = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Assign):
            arm = arm_of(prog, f, n)
            if arm is not None and arm[1] and not (isinstance(n.value, ast.Constant) and n.value.value is None):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                            assigned.setdefault(x.id, []).append((n.lineno, arm[0]))
    gathers = {}
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and is_vm(prog, f, n.func.value):
            if n.func.attr == 'bcast' and n.args and isinstance(n.args[0], ast.Name):
                arm = arm_of(prog, f, n)
                root = _root_arg(n)
                before = [(l, r) for l, r in assigned.get(n.args[0].id, []) if l < n.lineno]
                if before and arm is None:
                    r = max(before)[1]
                    res.check(_same(prog, f, root, r), 'broadcast-from-the-rank-that-computed', '%s:%s' % (f.qual, n.args[0].id),
                              f.loc(n), '%s is computed on rank %s but broadcast from rank %s' % (n.args[0].id, r, root))
            elif n.func.attr in ROOTED:
                p = n._parent
                if isinstance(p, ast.Assign) and len(p.targets) == 1 and isinstance(p.targets[0], ast.Name):
                    gathers.setdefault(p.targets[0].id, []).append((n.lineno, _root_arg(n, 2 if n.func.attr == 'reduce' else 1)))
    for n in own_nodes(f.node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in gathers:
            before = [(l, r) for l, r in gathers[n.id] if l < n.lineno]
            arm = arm_of(prog, f, n)
            if not before:
                continue
            r = max(before)[1]
            p = n._parent
            if isinstance(p, ast.Call) and isinstance(p.func, ast.Attribute) and p.func.attr == 'bcast':
                res.check(_same(prog, f, _root_arg(p), r), 'broadcast-from-the-rank-that-computed',
                          '%s:%s' % (f.qual, n.id), f.loc(n), '%s is gathered on rank %s but broadcast from rank %s' % (
                              n.id, r, _root_arg(p)))
            elif arm is not None and arm[1]:
                res.check(_same(prog, f, arm[0], r), 'broadcast-from-the-rank-that-computed', '%s:%s' % (f.qual, n.id),
                          f.loc(n), '%s is gathered on rank %s but used on rank %s' % (n.id, r, arm[0]))


def _root_arg(c, pos=1):
    for k in c.keywords:
        if k.arg == 'root':
            return ast.unparse(k.value)
    if len(c.args) > pos:
        return ast.unparse(c.args[pos])
    return '0'


def _same(prog, f, a, b):
    if a == b:
        return True
    # in a loop over ranks every rank has its turn as the root
    for n in own_nodes(f.node):
        if isinstance(n, ast.For) and a in {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)} and any(
                isinstance(y, ast.Attribute) and y.attr in ('ranks', 'size') for y in ast.walk(n.iter)):
            return True
    return False


def one_rank_files(prog, res, f, an):
    """A file-system effect of one rank is followed by a synchronisation on every normal path to the end of the function."""
    g = cfg_of(f)
    for n in g.nodes:
        for c in node_calls(n):
            eff = _fs_effect(prog, f, c)
            if eff is None:
                continue
            arm = arm_of(prog, f, n.ast, loose=True)
            if arm is None:
                continue
            turn = _turn_loop(f, arm[2], arm[0])
            if turn is None and eff != 'directory':
                continue
            bad = _escapes(prog, f, an, g, n, turn)
            res.check(not bad, 'one-rank-files-are-synchronised', '%s:%s' % (f.qual, ast.unparse(c.func)), f.loc(c),
                      'files are touched by one rank only here, and the other ranks can go on (line %s) without a barrier or '
                      'broadcast' % (bad.line if bad else 0))


def _fs_effect(prog, f, c):
    d = dotted(c.func)
    last = d.split('.')[-1] if d else None
    for t in prog.resolve_call(f, c):
        if isinstance(t, str):
            if t in ('os.mkdir', 'os.makedirs', 'tempfile.mkdtemp'):
                return 'directory'
            if t in ('shutil.copy', 'shutil.copy2', 'shutil.copyfile',
                     'shutil.copytree', 'os.rename', 'shutil.move'):
                return 'creates'
            if t in ('shutil.rmtree', 'os.remove', 'os.unlink'):
                return 'removes'
            if t in ('open', 'io.open', 'codecs.open'):
                return 'creates' if len(c.args) > 1 and isinstance(c.args[1], ast.Constant) and c.args[1].value[:1] in 'wa' else None
    if last == 'driver_scope':
        for k in c.keywords:
            if k.arg == 'mode' and not (isinstance(k.value, ast.Constant) and k.value.value in ('r', 'rb')):
                return 'creates'
    return None


def _escapes(prog, f, an, g, start, turn):
    """A node at which the calling rank leaves (function end or next turn) without a collective, else None."""
    seen, stack = set(), [s for s, l in an.edges(start)]
    while stack:
        n = stack.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.kind == 'exit':
            return n
        if n.kind == 'exc_exit':
            continue
        if n.kind == 'for' and turn is not None and n.ast is turn:
            return n
        if n.kind != 'with_exit' and an.node_events(f, n):
            continue
        succ = an.edges(n)
        if n.kind == 'for' and any(isinstance(y, ast.Attribute) and y.attr == 'ranks' for y in ast.walk(n.ast.iter)):
            succ = [(s, l) for s, l in succ if l == 't'] or succ
        stack.extend(s for s, _ in succ)
    return None


def tags(prog, res):
    """Every explicit message tag that is sent in a module is received in it and the reverse."""
    sent, recv = {}, {}

    def expand(f, e):
        """The constant a tag expression stands for."""
        if isinstance(e, ast.Name):
            vs = prog.local_assigns(f).get(e.id, [])
            if len(vs) == 1 and isinstance(vs[0][1], ast.AST):
                return ast.unparse(vs[0][1])
            if e.id in f.params:
                return ('param', e.id)
        return ast.unparse(e)

    def note(f, kind, e, c, depth=0):
        if e is None:
            t = 'no tag'
        else:
            t = expand(f, e)
        if isinstance(t, tuple):
            if depth > 4:
                return
            # follow the callers of this function
            for h in prog.funcs.values():
                for cc in prog.calls(h):
                    if any(x is f for x in prog.resolve_call(h, cc)):
                        v = prog.map_args(f, cc, None).get(t[1])
                        if isinstance(v, ast.AST):
                            note(h, kind, v, cc, depth + 1)
            return
        (sent if kind == 's' else recv).setdefault((f.module.name, t), []).append((f, c))

    for f in prog.funcs.values():
        if f.cls is not None and f.cls.name == 'DummyMPIComm':
            continue
        for c in prog.calls(f):
            if isinstance(c.func, ast.Attribute) and c.func.attr in SENDS | RECVS and is_vm(prog, f, c.func.value):
                e = next((k.value for k in c.keywords if k.arg == 'tag'), None)
                note(f, 's' if c.func.attr in SENDS else 'r', e, c)
    for a, b, w in ((sent, recv, 'received'), (recv, sent, 'sent')):
        for k, sites in sorted(a.items()):
            f, c = sites[0]
            res.check(k in b, 'message-tags-are-paired', '%s:%s' % (k[0], k[1]), f.loc(c),
                      'messages with tag %s are never %s in this module' % (k[1], w))
    m = prog.cls_named('MPITag')
    if m is not None:
        vals = {}
        for n, v in sorted(m.attrs.items()):
            if isinstance(v, ast.Constant):
                vals.setdefault(v.value, []).append(n)
        for v, ns in vals.items():
            res.check(len(ns) == 1, 'message-tags-are-paired', 'MPITag:%s' % ','.join(ns), '%s:%d' % (
                m.module.path, m.node.lineno), 'message tags %s share the value %s' % (', '.join(ns), v))


def _about_null(prog, f, e):
    for x in ast.walk(e):
        if isinstance(x, ast.Attribute) and x.attr in ('is_null', 'rank'):
            return True
        if isinstance(x, ast.Name):
            if x.id == 'MPI_RANK' or 'NULL' in x.id:
                return True
            for how, v in prog.local_assigns(f).get(x.id, []):
                if how == 'val' and isinstance(v, ast.AST) and any(
                        isinstance(y, ast.Attribute) and y.attr == 'is_null' for y in ast.walk(v)):
                    return True
    return False


def scoped_parts(prog, res, f, an):
    """In a scope for some of the ranks, only those ranks communicate; what they compute is sent on by one of them."""
    scopes = {}
    for w in own_nodes(f.node):
        if isinstance(w, ast.With):
            for it in w.items:
                c = it.context_expr
                if isinstance(c, ast.Call) and leaf(prog, f, c) == 'scope':
                    scopes[id(w)] = (w, c)
    if not scopes:
        return

    def inside(x):
        for a in _ancestors(f, x):
            if id(a) in scopes and not any(x is y for it in a.items for y in ast.walk(it)):
                return scopes[id(a)]

    def guarded(x, w):
        a = x
        while a is not w and a is not None:
            p = a._parent
            if isinstance(p, (ast.If, ast.IfExp, ast.While)) and a is not p.test and _about_null(prog, f, p.test):
                return True
            for field in ('body', 'orelse', 'finalbody'):
                b = getattr(p, field, None)
                if isinstance(a, ast.stmt) and isinstance(b, list) and any(y is a for y in b):
                    for y in b[:[i for i, z in enumerate(b) if z is a][0]]:
                        if isinstance(y, ast.If) and isinstance(y.body[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break)) \
                                and _about_null(prog, f, y.test):
                            return True
            a = p
        return False
    for c in prog.calls(f):
        sc = inside(c)
        if sc is None or not (leaf(prog, f, c) or an._must_call(f, c)):
            continue
        res.check(guarded(c, sc[0]), 'scoped-ranks-only', '%s:%s' % (f.qual, ast.unparse(c.func)), f.loc(c),
                  'ranks outside of the scope %s call %s without a communicator' % (ast.unparse(sc[1])[:60], ast.unparse(c.func)))
    for c in prog.calls(f):
        if not (isinstance(c.func, ast.Attribute) and c.func.attr == 'bcast' and is_vm(prog, f, c.func.value) and c.args and
                isinstance(c.args[0], ast.Name)):
            continue
        defs = [n for n in own_nodes(f.node) if isinstance(n, ast.Assign) and n.lineno < c.lineno and any(
            isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id == c.args[0].id for t in n.targets for x in ast.walk(t))]
        computed = [n for n in defs if not (isinstance(n.value, ast.Constant) and n.value.value is None)]
        scs = [inside(n) for n in computed]
        if not computed or any(x is None for x in scs) or inside(c) is not None:
            continue
        args = list(scs[-1][1].args) + [k.value for k in scs[-1][1].keywords]
        root = _root_arg(c)
        first = any(isinstance(x, (ast.List, ast.Tuple)) and x.elts and ast.unparse(x.elts[0]) == root for x in args)
        res.check(first or not root.isdigit(), 'broadcast-from-the-rank-that-computed', '%s:%s' % (f.qual, c.args[0].id), f.loc(c),
                  '%s is computed by the ranks of the scope %s but broadcast from rank %s, which may not be one of them' % (
                      c.args[0].id, ast.unparse(scs[-1][1])[:60], root))


def sources(prog, res):
    """A rank that receives names the rank that sends: messages only one rank sends are received from that rank."""
    sends, recvs = {}, {}
    for f in prog.funcs.values():
        if f.cls is not None and f.cls.name == 'DummyMPIComm':
            continue
        for c in prog.calls(f):
            if isinstance(c.func, ast.Attribute) and c.func.attr in SENDS | RECVS and is_vm(prog, f, c.func.value):
                e = next((ast.unparse(k.value) for k in c.keywords if k.arg == 'tag'), '')
                (sends if c.func.attr in SENDS else recvs).setdefault((f.qual, e), []).append((f, c))
    for key, sites in sorted(recvs.items()):
        froms = set()
        for f, c in sends.get(key, []):
            arm = arm_of(prog, f, c)
            while arm is not None and not (arm[1] and arm[0].isdigit()):
                arm = arm_of(prog, f, arm[2])
            froms.add(arm[0] if arm is not None else None)
        if len(froms) != 1 or None in froms:
            continue
        r = froms.pop()
        for f, c in sites:
            src = next((ast.unparse(k.value) for k in c.keywords if k.arg == 'source'), None)
            if src is not None:
                res.check(src == r, 'message-tags-are-paired', '%s:source' % f.qual, f.loc(c),
                          'received from rank %s, but only rank %s sends' % (src, r))


def run(prog, res):
    res.rule('same-collectives-on-every-rank', 'Every branch whose condition only the calling rank knows makes the same '
             'sequence of collective calls on all of its arms')
    res.rule('root-only-value-is-broadcast', 'A value gathered or computed on one rank only is broadcast before another rank '
             'uses it')
    res.rule('broadcast-from-the-rank-that-computed', 'A broadcast starts at the rank that computed or gathered the value')
    res.rule('one-rank-files-are-synchronised', 'A file or directory made by one rank is followed by a collective call on every '
             'path before the function ends (in a loop over ranks: before the next turn)')
    res.rule('scoped-ranks-only', 'Inside a scope for some ranks, collective calls are made by ranks with a communicator only')
    res.rule('message-tags-are-paired', 'Explicit message tags are distinct, and each one sent is received')
    a = Analysis(prog, res)
    n = 0
    for f in sorted(a.funcs(), key=lambda x: x.qual):
        if f.qual in a.may:
            n += 1
            a.analyse(f)
        root_values(prog, res, f, a)
        bcast_roots(prog, res, f)
        one_rank_files(prog, res, f, a)
        scoped_parts(prog, res, f, a)
    sources(prog, res)
    tags(prog, res)
    res.count('functions_that_may_communicate', n)
    res.count('functions_that_always_communicate', len(a.must))
    if not prog.fixture:
        res.floor('same-collectives-on-every-rank', 5)
        res.floor('root-only-value-is-broadcast', 10)
        res.floor('broadcast-from-the-rank-that-computed', 8)
        res.floor('one-rank-files-are-synchronised', 3)
        res.floor('message-tags-are-paired', 8)
