"""Loop summaries: a symbolic-trip-count loop body is evaluated once on a
symbolic iteration; its effect on each loop-carried variable is classified as
local / accumulation / parallel store / first-order recurrence / append, and
replaced by the corresponding closed term.  Everything else is `unknown` or an
uninterpreted `while` term over the canonical step function."""
import ast
from . import terms as tm
from .terms import (T, const, add, sub, mul, div, ite, lt, le, eq, band, bor, bnot, TRUE, FALSE, NONE, ZERO, ONE,
                    cval, unknown, fresh, subst, sym, el)
from .interp import Arr, Cell, Tup, Choice, ListAcc, State, has_ctl


def assigned_names(node):
    out = []
    for n in ast.walk(node):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and n.id not in out:
            out.append(n.id)
    return out


def mentions_any(t, atoms):
    return bool(tm.atoms_of(t, lambda x: x in atoms))


def prev_atoms(t, name):
    return tm.atoms_of(t, lambda x: x.op == "el" and x.args[0] == name)


_pid = [0]


def has_return(stmts):
    st = list(stmts)
    while st:
        n = st.pop()
        if isinstance(n, ast.Return):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        st.extend(ast.iter_child_nodes(n))
    return False


def summarise_for(I, s, n, item):
    if n.op == "ite" or n.unk:
        # trip count is a case distinction: summarise per case is not needed in practice
        if n.unk:
            return I.kill_assigned(s, "loop with unknown trip count")
    if has_ctl(s.body) and (any(isinstance(x, ast.Break) for b in s.body for x in ast.walk(b))) or has_return(s.body):
        return for_as_while(I, s, n, item)
    # continue: rewrite as guarded body by the branch machinery
    names = assigned_names(s)
    I.cut_heap()
    st0 = I.st
    k = fresh("k", hi=sub(n, ONE) if n.op != "ite" else None)

    # ---- dry run: which pre-existing heap cells change?
    dry = st0.fork()
    nr = len(I.raises)
    nn = len(I.notes)
    I.st = dry
    I.assign(s.target, item(k))
    body_run(I, s.body)
    after = I.st
    del I.raises[nr:]
    del I.notes[nn:]
    I.st = st0
    changed = [c for c in st0.heap if after.heap.get(c) is not st0.heap[c]]

    # ---- symbolic run
    run = st0.fork()
    I.st = run
    _pid[0] += 1
    tag = "prev~%d" % _pid[0]
    carry = {}      # name -> (sym, init)
    arrs = {}       # heap id -> (placeholder name, init Arr)
    accs = {}
    bad = []
    for nm in names:
        v = st0.env.get(nm)
        if isinstance(v, T) and nm not in target_names(s.target):
            if v.op in ("str", "none") or v.unk:
                c = tm.sym("%s.%s" % (tag, nm), kind="obj")
            else:
                w = after.env.get(nm)
                w = w if isinstance(w, T) and not w.unk else None
                c = tm.sym("%s.%s" % (tag, nm), int=tm.isint(v) and w is not None and tm.isint(w),
                           real=tm.isreal(v) and w is not None and tm.isreal(w))
            carry[nm] = (c, v)
            run.env[nm] = c
    for c in changed:
        content = st0.heap[c]
        if isinstance(content, Arr) and not content.islist:
            nm = "%s#%d" % (tag, c)
            arrs[c] = (nm, content)
            run.heap[c] = Arr(content.shape, lambda *i, nm=nm: el(nm, *i), content.islist)
        elif isinstance(content, Arr):
            nm = "%s#%d" % (tag, c)
            arrs[c] = (nm, content)
            run.heap[c] = Arr(content.shape, lambda *i, nm=nm: el(nm, *i), True)
        elif isinstance(content, tuple):
            accs[c] = content
            run.heap[c] = ListAcc(content)
        else:
            bad.append(c)
    # names rebound to arrays that existed before: carried arrays by name
    carr = {}
    for nm in names:
        v = st0.env.get(nm)
        if isinstance(v, Cell) and nm not in target_names(s.target) and nm not in carry:
            a = I.arr(v) if v.kind in ("arr", "list") else None
            if a is not None:
                pn = "%s@%s" % (tag, nm)
                carr[nm] = (pn, a, v)
                cell = Cell(v.kind)
                run.heap[cell.id] = Arr(a.shape, lambda *i, pn=pn: el(pn, *i), a.islist)
                run.env[nm] = cell
                carr[nm] = (pn, a, v, cell)
    I.assign(s.target, item(k))
    live0 = I.st.live
    body_run(I, s.body)
    end = I.st
    # raises inside the body: existential over iterations (keep the condition, iteration symbol free)
    I.st = st0
    if end.live is not live0 and end.live is FALSE:
        return I.kill_assigned(s, "loop body never completes")

    # ---- classify scalars
    at = {}      # carry symbol -> value at start of iteration k
    final = {}
    pending = {}
    for nm, (c, init) in carry.items():
        new = end.env.get(nm)
        if not isinstance(new, T):
            final[nm] = unknown("loop-carried value of changing kind")
            at[c] = unknown("loop-carried value")
            continue
        if new is c:
            final[nm] = init
            at[c] = init
            continue
        at_ = tm.ATTR[c.args[0]]
        if at_.kind != "obj" and (at_.int and not tm.isint(new) or at_.real and not tm.isreal(new)):
            final[nm] = unknown("loop-carried value of changing kind")
            at[c] = unknown("loop-carried value")
            continue
        pending[nm] = (c, init, new)
    placeholders = set(c for c, _ in carry.values())

    def open_syms(t, own=None):
        return [x for x in tm.atoms_of(t, lambda x: x in placeholders or
                                       (x.op == "el" and x.args[0].startswith(tag)))]

    ctx = Ctx(I, k, n, tag, arrs, carr, end)
    # arrays first pass: those whose new content does not depend on pending scalars
    resolved_arr = {}
    progress = True
    todo_arr = set(arrs)
    while progress and (pending or todo_arr):
        progress = False
        for nm in list(pending):
            c, init, new = pending[nm]
            new2 = ctx.replace(subst(new, at) if at else new, resolved_arr)
            left = [x for x in tm.atoms_of(new2, lambda x: (x in placeholders and x not in at) or
                                           (x.op == "el" and x.args[0].startswith(tag)))]
            others = [x for x in left if x is not c]
            if others:
                pending[nm] = (c, init, new)
                continue
            if not left:
                nk = lambda i, t=new2: subst(t, {k: i})
                at[c] = ite(eq(k, ZERO), init, nk(sub(k, ONE)))
                final[nm] = ite(le(n, ZERO), init, nk(sub(n, ONE)))
            else:
                g = sub(new2, c) if _numeric(new2) else None
                if g is not None and not mentions_any(g, {c}):
                    s_at = tm.summ(k, lambda j: subst(g, {k: j}))
                    at[c] = add(init, s_at)
                    final[nm] = add(init, tm.summ(n, lambda j: subst(g, {k: j})))
                else:
                    at[c], final[nm] = scan(new2, c, k, init, n)
            del pending[nm]
            progress = True
        for c in list(todo_arr):
            r = ctx.array(c, at, resolved_arr, placeholders)
            if r is not None:
                resolved_arr[c] = r
                todo_arr.discard(c)
                progress = True
    for nm in pending:
        final[nm] = I.unk("loop-carried scalar %s" % nm)
        at[pending[nm][0]] = unknown("loop-carried scalar %s" % nm)
    for c in todo_arr:
        I.note("loop store pattern not recognised")
        resolved_arr[c] = (I.unk_arr(arrs[c][1], "loop store pattern"), None)

    # ---- install results
    def finalise(v):
        if isinstance(v, T):
            t = ctx.replace(subst(v, at) if at else v, resolved_arr)
            if [x for x in tm.atoms_of(t, lambda x: x.op == "el" and x.args[0].startswith(tag))]:
                return unknown("loop-carried array read after the loop")
            return subst(t, {k: sub(n, ONE)})
        return None
    for c, (a, _) in resolved_arr.items():
        st0.heap[c] = a
    for c in accs:
        content = end.heap.get(c)
        st0.heap[c] = ctx.append_result(c, accs[c], content, at, resolved_arr)
    for c in bad:
        st0.heap[c] = unknown("loop-mutated object")
    for nm in names:
        if nm in final:
            st0.env[nm] = final[nm]
        elif nm in carr:
            a = ctx.named(nm, at, resolved_arr)
            st0.env[nm] = I.new(a) if a is not None else I.unk("loop-carried array %s" % nm)
        else:
            v = end.env.get(nm)
            if isinstance(v, T):
                st0.env[nm] = finalise(v)
            elif isinstance(v, Cell) and v.kind in ("arr", "list"):
                a = I.arr_in(v, end.heap)
                if a is not None and not isinstance(end.heap.get(v.id), ListAcc):
                    st0.env[nm] = I.new(Arr([finalise(x) for x in a.shape],
                                            lambda *i, a=a: finalise(a.get(*i)), a.islist))
                else:
                    st0.env[nm] = unknown("loop-local value")
            elif v is not None:
                st0.env[nm] = v if not isinstance(v, (Tup, Choice)) else unknown("loop-local value")
    if s.orelse:
        I.block(s.orelse)


def body_run(I, body):
    """body with `continue` handled as a guarded remainder"""
    if has_ctl(body):
        dead = []
        I.ctl_block(body, dead)
        for d in dead:
            cur = I.st
            I.st = I.merge_states(d.live, d, cur)
    else:
        I.block(body)


def _numeric(t):
    while t.op == "ite":
        t = t.args[1]
    return t.op not in ("str", "none", "true", "false", "lam")


def scan(new, c, k, init, n):
    """first-order recurrence  s <- new(k, s), s0 = init"""
    j, x = fresh("j"), sym(fresh("x").args[0] + "r")
    step = tm.close(subst(new, {k: j, c: x}), [j, x])
    lam = tm.mk("lam", (tm.string("j"), tm.string("s")), step)
    return tm.app("scan", lam, init, k), tm.app("scan", lam, init, n)


def target_names(t):
    return [n.id for n in ast.walk(t) if isinstance(n, ast.Name)]


class Ctx:
    def __init__(self, I, k, n, tag, arrs, carr, end):
        self.I, self.k, self.n, self.tag, self.arrs, self.carr, self.end = I, k, n, tag, arrs, carr, end

    def replace(self, t, resolved):
        """start-of-iteration reads of resolved arrays"""
        mp = {}
        for c, (final, shift) in resolved.items():
            nm, init = self.arrs[c]
            for a in prev_atoms(t, nm):
                idx = a.args[1:]
                if shift is None:
                    mp[a] = unknown("loop array")
                    continue
                ax, off, rev = shift
                # rows written before iteration k:  row - off < k  (or > for reversed)
                row = idx[ax]
                done = lt(sub(row, off), self.k) if not rev else lt(sub(off, row), self.k)
                mp[a] = ite(done, final.get(*idx), init.get(*idx))
        if not mp:
            return t
        return subst(t, mp)

    def array(self, c, at, resolved, placeholders):
        nm, init = self.arrs[c]
        new = self.end.heap[c]
        if not isinstance(new, Arr):
            return (self.I.unk_arr(init, "array replaced by something else"), None)
        if new.rank != init.rank:
            return (self.I.unk_arr(init, "array rank changes"), None)
        r = self.stores(nm, init, new, at, resolved, placeholders)
        return r

    def named(self, nm, at, resolved):
        """array variable rebound in every iteration"""
        pn, init, v, cell = self.carr[nm]
        w = self.end.env.get(nm)
        if not isinstance(w, Cell):
            return None
        if w is cell and self.end.heap.get(cell.id) is not None:
            new = self.end.heap[cell.id]
        else:
            new = self.I.arr_in(w, self.end.heap)
        if new is None or not isinstance(new, Arr) or new.rank != init.rank:
            return None
        # local: no reference to the previous content
        idx = [fresh("i", hi=sub(d, ONE) if d.op != "ite" else None) for d in init.shape]
        E = self.replace(subst(new.get(*idx), at) if at else new.get(*idx), resolved)
        own = el(pn, *idx)
        pa = [x for x in tm.atoms_of(E, lambda x: x.op == "el" and x.args[0].startswith(self.tag))]
        if not pa:
            m = lambda *i: subst(E, dict(list(zip(idx, i)) + [(self.k, sub(self.n, ONE))]))
            return Arr(new.shape, m, new.islist)
        if pa == [own]:
            g = sub(E, own)
            if not prev_atoms(g, pn):
                def get(*i):
                    gg = subst(g, dict(zip(idx, i)))
                    return add(init.get(*i), tm.summ(self.n, lambda j: subst(gg, {self.k: j})))
                return Arr(init.shape, get, init.islist)
            def get2(*i):
                x = sym(fresh("c").args[0] + "c")
                e = subst(subst(E, {own: x}), dict(zip(idx, i)))
                return scan(e, x, self.k, init.get(*i), self.n)[1]
            return Arr(init.shape, get2, init.islist)
        return None

    def stores(self, nm, init, new, at, resolved, placeholders):
        k, n = self.k, self.n
        rank = init.rank
        idx = [fresh("i", hi=sub(d, ONE) if d.op != "ite" else None) for d in init.shape]
        E = new.get(*idx)
        if at:
            E = subst(E, at)
        E = self.replace(E, resolved)
        own = el(nm, *idx)
        if E is own:
            return (init, (0, ZERO, False))
        pend = [x for x in tm.atoms_of(E, lambda x: x in placeholders)]
        if pend:
            return None
        foreign = [x for x in tm.atoms_of(E, lambda x: x.op == "el" and x.args[0].startswith(self.tag)
                                          and x.args[0] != nm)]
        if foreign:
            return None
        # which axis is driven by the iteration?
        for ax in range(rank):
            r = self.axis_store(nm, init, E, own, idx, ax)
            if r is not None:
                return r
        r = self.wrapped(nm, init, E, own, idx)
        if r is not None:
            return r
        # pure accumulation a[...] += g(k, ...)
        if _numeric(E):
            g = sub(E, own)
            if not prev_atoms(g, nm):
                def get(*i):
                    gg = subst(g, dict(zip(idx, i)))
                    return add(init.get(*i), tm.summ(n, lambda j: subst(gg, {k: j})))
                return (Arr(init.shape, get, init.islist), None)
        return (self.I.unk_arr(init, "loop store pattern"), None)

    def wrapped(self, nm, init, E, own, idx):
        """rows k + off where k + off may be negative: those (the first ones)
        count from the end of the axis, the later ones from its start"""
        k = self.k
        for c in top_atoms(E):
            if c.op != "thr" or c.args[1] != 0 or mentions_any(c, set(idx)):
                continue
            o = sub(c.args[0], k)
            if mentions_any(o, {k}):
                continue
            neg_, pos = tm.cof_any(E, c, True), tm.cof_any(E, c, False)
            for ax in range(init.rank):
                r1 = self.axis_store(nm, init, neg_, own, idx, ax, tm.node(c, TRUE, FALSE))
                if r1 is None:
                    continue
                r2 = self.axis_store(nm, r1[0], pos, own, idx, ax, tm.node(c, FALSE, TRUE))
                if r2 is not None and r2[1][1] is o and r1[1][1] is add(o, init.shape[ax]):
                    return (r2[0], None)
        return None

    def axis_store(self, nm, init, E, own, idx, ax, guard=None):
        k, n, i = self.k, self.n, idx[ax]
        # candidate tests: base = +-(i - k) or +-(i + k)
        for rev in (False, True):
            base = sub(i, k) if not rev else add(i, k)
            if base.op != "poly":
                continue
            cands = set()
            bs = None
            for a in top_atoms(E):
                if a.op == "thr":
                    d = a.args[0]
                    rest = None
                    for sg in (1, -1):
                        df = sub(d, mul(const(sg), base))
                        if not mentions_any(df, {k, i}):
                            cands.add((sg, df, a.args[1]))
            for sg, df, t in sorted(cands, key=lambda x: x[2]):
                # equality test: sg*base + df == t  (as b<t false, b<t+1 true)
                # i.e. base == sg*(t - df)
                off = mul(const(sg), sub(const(t), df))
                for o in (off, sub(off, ONE), add(off, ONE)):
                    if guard is not None and rev:
                        continue
                    r = self.try_offset(nm, init, E, own, idx, ax, o, rev, guard)
                    if r is not None:
                        return r
        return None

    def try_offset(self, nm, init, E, own, idx, ax, off, rev, guard=None):
        """row `k+off` (or `off-k`) is written in iteration k, nothing else."""
        k, n, i = self.k, self.n, idx[ax]
        # other rows must stay as they were: i = row + d, d >= 1 or d <= -1
        d = fresh("d", lo=1)
        row = add(k, off) if not rev else sub(off, k)
        for sgn in (1, -1):
            j = add(row, mul(const(sgn), d))
            t = subst(E, {i: j})
            if t is not subst(own, {i: j}):
                return None
        # iteration that writes row i
        kk = sub(i, off) if not rev else sub(off, i)
        V = subst(E, {i: row})
        prevs = prev_atoms(V, nm)
        mp = {}
        rec = None
        for a in prevs:
            r = a.args[1 + ax]
            delta = sub(r, row)
            if rev:
                delta = tm.neg(delta)
            lo, hi = tm.bounds(delta)
            if lo >= 0:          # not yet written
                mp[a] = init.get(*a.args[1:])
            elif delta is const(-1) and all(x is y for q, (x, y) in enumerate(zip(a.args[1:], own.args[1:])) if q != ax):
                rec = a
            else:
                return None
        if mp:
            V = subst(V, mp)
        inr = band(le(ZERO, kk), lt(kk, n))
        if guard is not None:
            if rec is not None or any(a.args[1 + ax] is not row for a in prevs):
                return None
            inr = band(inr, subst(guard, {k: kk}))
        if rec is None:
            def get(*ii):
                q = dict(zip(idx, ii))
                w = subst(V, {k: kk})
                return ite(subst(inr, q), subst(w, q), init.get(*ii))
            return (Arr(init.shape, get, init.islist), (ax, off, rev))
        if rev:
            return None
        x = sym(fresh("c").args[0] + "c")
        step = subst(V, {rec: x})
        first = list(idx)
        first[ax] = sub(off, ONE)
        lo, hi = tm.bounds(first[ax])
        if hi < 0:
            return None
        init0 = init.get(*first)

        def get(*ii):
            q = dict(zip(idx, ii))
            st = subst(step, {u: w for u, w in q.items() if u is not i})
            i0 = subst(init0, q)
            v = scan(st, x, k, i0, add(subst(kk, q), ONE))[1]
            return ite(subst(inr, q), v, init.get(*ii))
        return (Arr(init.shape, get, init.islist), (ax, off, rev))

    def append_result(self, c, base, content, at, resolved):
        I, k, n = self.I, self.k, self.n
        if not isinstance(content, ListAcc) or content.bad or not content.items:
            if isinstance(content, ListAcc) and not content.bad and not content.items:
                return base
            I.note("list mutated in a loop")
            u = unknown("list mutated in a loop")
            return Arr((unknown("list length"),), lambda *i: u, True)
        m = len(content.items)
        arrs = []
        for v in content.items:
            if isinstance(v, T):
                arrs.append(Arr((), lambda v=v: v))
            else:
                a = I.arr_in(v, self.end.heap)
                if a is None:
                    u = unknown("appended value")
                    return Arr((unknown("list length"),), lambda *i: u, True)
                arrs.append(a)

        def fin(t, kk):
            t = self.replace(subst(t, at) if at else t, resolved)
            if [x for x in tm.atoms_of(t, lambda x: x.op == "el" and x.args[0].startswith(self.tag))]:
                return unknown("appended value depends on carried array")
            return subst(t, {k: kk})
        nb = len(base)
        barr = I.static_arr(base, True) if nb else None
        shape = (add(const(nb), mul(const(m), n)),) + tuple(fin(x, ZERO) for x in arrs[0].shape)

        def get(t, *rest):
            t2 = sub(t, const(nb))
            if m == 1:
                v = fin(arrs[0].get(*rest), t2)
            else:
                q = tm.func("floor", div(t2, const(m)))
                r = sub(t2, mul(const(m), q))
                v = arrs[-1] and fin(arrs[-1].get(*rest), q)
                for j in range(m - 2, -1, -1):
                    v = ite(eq(r, const(j)), fin(arrs[j].get(*rest), q), v)
            if nb:
                v = ite(lt(t, const(nb)), barr.get(t, *rest) if barr is not None else unknown("list base"), v)
            return v
        return Arr(shape, get, True)


def top_atoms(t):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.op == "ite" and x not in seen:
            seen.add(x)
            if x.args[0] not in out:
                out.append(x.args[0])
            st += [x.args[1], x.args[2]]
    return out


# ---------------------------------------------------------------- while loops
def while_term(I, names, init, cond, step, rets):
    """uninterpreted loop: canonical step function over the carried scalars."""
    raise NotImplementedError


def run_state_loop(I, s, names, st0, test, body):
    """general loop over scalar state; the assumed kinds of the state (integer,
    non-negative) are weakened until the step preserves them"""
    weak = {}
    for _ in range(6):
        n = len(I.notes)
        r = _run_state_loop(I, s, names, st0, test, body, weak)
        if r is not RETRY:
            return r
        del I.notes[n:]
    return None


RETRY = object()


def _run_state_loop(I, s, names, st0, test, body, weak):
    """builds `while` terms.  test() -> condition, body() executes one iteration."""
    _pid[0] += 1
    tag = "w~%d" % _pid[0]
    syms = {}
    run = st0.fork()
    run.rets = []
    run.brk = run.cont = FALSE
    run.live = TRUE
    carried = [nm for nm in names if isinstance(st0.env.get(nm), T)]
    for nm in carried:
        v = st0.env[nm]
        w = weak.get(nm, 0)
        isi = v.op != "str" and tm.isint(v) and w < 2
        sy = tm.sym("%s.%s" % (tag, nm), int=isi, lo=0 if isi and w < 1 and tm.nonneg(v) else None)
        syms[nm] = sy
        run.env[nm] = sy
    heap0 = dict(run.heap)
    I.st = run
    nr = len(I.raises)
    c = test()
    run.live = band(run.live, c)
    dead = []
    I.ctl_block(body, dead) if has_ctl(body) else I.block(body)
    end = I.st
    raised = I.raises[nr:]
    del I.raises[nr:]
    I.st = st0
    changed = [h for h in heap0 if end.heap.get(h) is not heap0[h]]
    if changed or raised:
        return None
    for nm in assigned_names(s):
        if nm not in carried and nm in st0.env:
            return None
    # next state, exit kinds: 0 continue, 1 break, 2.. return
    kind = ite(c, ZERO, ONE)
    rets = []
    for (rc, v, h) in end.rets:
        if not isinstance(v, T):
            return None
        kind = ite(rc, const(2 + len(rets)), kind)
        rets.append(v)
    nxt = {}
    for nm in carried:
        v = end.env.get(nm, syms[nm])
        if end.live is FALSE:
            v = syms[nm]
        if not isinstance(v, T):
            return None
        for d in dead:
            w = d.env.get(nm)
            if not isinstance(w, T):
                return None
            v = ite(d.live, w, v)
        nxt[nm] = ite(c, v, syms[nm])
    again = False
    for nm in carried:
        at = tm.ATTR[syms[nm].args[0]]
        if at.int and not tm.isint(nxt[nm]):
            weak[nm] = 2
            again = True
        elif at.lo is not None and not tm.nonneg(nxt[nm]):
            weak[nm] = 1
            again = True
    if again:
        return RETRY
    for d in dead:
        kind = ite(d.live, ONE, kind)
    # a leading run where values are unaffected is irrelevant; canonical order of state
    order = sorted(carried, key=lambda nm: st0.env[nm].key + tm.close(nxt[nm], [syms[x] for x in sorted(carried)]).key)
    used = set()
    allt = [kind] + rets
    work = list(allt)
    while True:
        new = [nm for nm in order if nm not in used and any(mentions_any(t, {syms[nm]}) for t in work)]
        if not new:
            break
        for nm in new:
            used.add(nm)
            work.append(nxt[nm])
    state = [nm for nm in order if nm in used]
    ss = [syms[nm] for nm in state]
    lamk = tuple(tm.string("s") for _ in ss)
    mkl = lambda t: tm.mk("lam", lamk, tm.close(t, ss))
    core = [mkl(kind)] + [mkl(nxt[nm]) for nm in state]
    inits = [st0.env[nm] for nm in state]

    def out(t):
        return tm.app("while", mkl(t), const(len(state)), *(core + inits))
    res = {}
    for nm in carried:
        if nm in used:
            res[nm] = out(nxt[nm])
        else:
            # depends on state only through nxt: value after the loop is unknown unless unchanged
            res[nm] = st0.env[nm] if nxt[nm] is syms[nm] else None
    kfin = out(kind)
    return dict(res=res, kind=kfin, rets=[out(r) for r in rets])


def finish_state_loop(I, s, r, names):
    st = I.st
    if r is None:
        return I.kill_assigned(s, "loop not summarised")
    for j, v in enumerate(r["rets"]):
        c = band(st.live, eq(r["kind"], const(2 + j)))
        st.rets.append((c, v, st.heap))
        st.live = band(st.live, bnot(c))
    for nm in names:
        if nm in r["res"]:
            v = r["res"][nm]
            st.env[nm] = v if v is not None else unknown("loop variable")
        else:
            st.env[nm] = unknown("loop-local variable")


def summarise_while(I, s):
    names = [n for n in assigned_names(s)]
    st0 = I.st
    r = counted_while(I, s, names)
    if r:
        return
    r = run_state_loop(I, s, names, st0, lambda: I.cond(s.test), s.body)
    finish_state_loop(I, s, r, names)
    if s.orelse:
        I.note("while-else")


def counted_while(I, s, names):
    """`while i < n: ...; i += c` without other exits is a for loop over range."""
    if has_ctl(s.body) or has_return(s.body) or s.orelse:
        return False
    t = s.test
    if not (isinstance(t, ast.Compare) and len(t.ops) == 1):
        return False
    var, other, op = None, None, type(t.ops[0]).__name__
    if isinstance(t.left, ast.Name) and op in ("Lt", "LtE"):
        var, other = t.left.id, t.comparators[0]
    elif isinstance(t.comparators[0], ast.Name) and op in ("Gt", "GtE"):
        var, other = t.comparators[0].id, t.left
    if var is None or var not in names:
        return False
    if not s.body:
        return False
    last = s.body[-1]
    stepv = None
    if isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == var and isinstance(last.op, ast.Add):
        stepv = last.value
    elif isinstance(last, ast.Assign) and len(last.targets) == 1 and isinstance(last.targets[0], ast.Name) and last.targets[0].id == var \
            and isinstance(last.value, ast.BinOp) and isinstance(last.value.op, ast.Add) and isinstance(last.value.left, ast.Name) and last.value.left.id == var:
        stepv = last.value.right
    if stepv is None:
        return False
    rest = s.body[:-1]
    if any(var in assigned_names(b) for b in rest):
        return False
    inner = set(x for b in s.body for x in assigned_names(b))
    for e in (other, stepv):
        for n in ast.walk(e):
            if isinstance(n, ast.Name) and n.id in inner:
                return False
    lo = I.st.env.get(var)
    hi = I.eval(other)
    st = I.eval(stepv)
    if not (isinstance(lo, T) and isinstance(hi, T) and isinstance(st, T)):
        return False
    if op in ("LtE", "GtE"):
        hi = add(hi, ONE)
    rng = I.np.call("range", [lo, hi, st], {})
    f = ast.For(target=ast.Name(var, ast.Store()), iter=None, body=rest or [ast.Pass()], orelse=[])
    ast.copy_location(f, s)
    ast.fix_missing_locations(f)
    f.lineno = s.lineno
    n, item, static = I.seq(rng)
    if cval(n) is not None and cval(n) <= 40:
        I.unroll(f, [item(const(k)) for k in range(int(max(cval(n), 0)))])
    else:
        summarise_for(I, f, n, item)
    I.st.env[var] = add(rng.lo, mul(rng.n, rng.step))
    return True


def for_as_while(I, s, n, item):
    """for loop with break/return as a state loop over the iteration counter"""
    names = [x for x in assigned_names(s)]
    st0 = I.st
    cnt = "\x00cnt"
    st0.env[cnt] = ZERO

    def test():
        return lt(I.st.env[cnt], n)
    tgt = s.target
    bump = ast.parse("pass").body

    class Body(list):
        pass
    # body: target = item(cnt); body...; cnt += 1   (cnt bumped first to survive `continue`)
    pre = _Exec(lambda: (I.assign(tgt, item(I.st.env[cnt])),
                         I.st.env.__setitem__(cnt, add(I.st.env[cnt], ONE))))
    body = [pre] + list(s.body)
    tn = set(target_names(tgt))
    r = run_state_loop(I, s, [x for x in names if x not in tn] + [cnt], st0, test, body)
    st0.env.pop(cnt, None)
    if r is not None:
        r["res"].pop(cnt, None)
    finish_state_loop(I, s, r, names)


class _Exec(ast.Pass):
    """pseudo statement"""
    _fields = ()

    def __init__(self, f):
        super().__init__()
        self.f = f
        self.lineno = 0
