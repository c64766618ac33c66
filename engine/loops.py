"""Loops as recurrences.

A loop body is interpreted once over symbols for the values its locations have at the head
of an arbitrary iteration (`mu`).  Counting loops get a bounded index symbol `idx(key,lo,hi)`;
the recurrence next(L) = f(mu, idx) is then closed into one of
   sum(idx, body)            accumulation
   mapupd(base, idxs, ws)    element-wise (re)definition of a container
   appendmap(base, idx, b)   one append per iteration
   filtermap(base, idx, c, b) conditional append
   lastsel(base, idx, c, b)  last selected
   exists/first(idx, c)      search loops (early exit)
   fix(...)                  anything else: an opaque least fixpoint of the system
No iteration is ever unrolled.
"""
from terms import *
import interp as IM


def mu(key, k):
    return mk("mu", key, k)


def _freshkey(I, node):
    return (I.fr.id if I.frames else 0, id(node))


def relevant(st, loc):
    """locations that exist before the loop (others are body locals)"""
    root = loc[0]
    if isinstance(root, str):
        return True
    if root[0] not in ("L", "ret", "tmp", "cap", "fct"):
        return True
    for n in range(len(loc), 0, -1):
        if loc[:n] in st.store:
            return True
    n = len(loc)
    return any(k[:n] == loc for k in st.store)


def minimise(W):
    W = sorted(W, key=len)
    out = []
    for l in W:
        if any(l[:len(o)] == o for o in out):
            continue
        out.append(l)
    return out


def loc_sortkey(l):
    return (len(l), repr(l))


def havoc(I, s, W, key, vals):
    for l in minimise(W):
        n = len(l)
        for k in [k for k in s.store if len(k) > n and k[:n] == l]:
            del s.store[k]
        s.store[l] = vals.get(l) if vals.get(l) is not None else mu(key, l)


def one_iter(I, s, fcond, fbody, finc, base_facts=None):
    """one symbolic iteration.  returns (cond term, alive at end, breaks, others, facts at body start)"""
    saved = I.exits
    I.exits = []
    old = I.curst
    I.curst = s
    try:
        return one_iter_(I, s, fcond, fbody, finc, saved)
    finally:
        I.curst = old


def one_iter_(I, s, fcond, fbody, finc, saved):
    c = fcond(s)
    if not s.dead:
        I.emit("loopcond", None, cond=c)
    if s.dead:
        ex = I.exits
        I.exits = saved
        return c, False, [], ex, s.facts
    d = I.decide(s, c)
    if d is FALSE:
        ex = I.exits
        I.exits = saved
        s.dead = True
        return FALSE, False, [], ex, s.facts
    if d is not TRUE:
        I.assume(s, c)
    bf = s.facts
    fbody(s)
    conts, breaks, others = [], [], []
    for k, x, dd in I.exits:
        if k == "continue":
            conts.append(x)
        elif k == "break":
            breaks.append(x)
        else:
            others.append((k, x, dd))
    I.exits = saved
    if conts:
        sts = conts + ([s.copy()] if not s.dead else [])
        m = I.merge_list(sts, bf)
        s.become(m)
        s.facts = bf
        s.dead = False
    if not s.dead and finc:
        finc(s)
    return c, not s.dead, breaks, others, bf


def run_loop(I, node, st, fcond, fbody, finc):
    key = _freshkey(I, node)
    I.nloops += 1 if not I.silent else 0
    # ---- which locations change
    W = set(I.loopmemo.get(key, ()))
    W = {l for l in W if relevant(st, l)}
    for l in W:
        IM.SHAPE.pop(mu(key, l), None)
    end = None
    for _ in range(8):
        s = st.copy()
        havoc(I, s, W, key, {})
        got = set()
        sw, I.writes = I.writes, [got]
        I.silent += 1
        try:
            c, alive, brk, oth, bf = one_iter(I, s, fcond, fbody, finc)
        finally:
            I.silent -= 1
            I.writes = sw
        new = {l for l in got if relevant(st, l)}
        if c is FALSE and not W:
            break
        if new <= W or all(any(l[:n] in W for n in range(1, len(l) + 1)) for l in new):
            end = s
            break
        W |= new
    I.loopmemo[key] = set(W)
    W = minimise(W)
    for l in W:
        I.record_write(l)
        IM.SHAPE.pop(mu(key, l), None)
    v0 = {}
    for l in W:
        x = st.store.get(l)
        if isinstance(x, T) or x is None:
            kids = any(k[:len(l)] == l and len(k) > len(l) for k in st.store)
            v0[l] = I.snapshot(st, l, I.readloc_t(st, l)) if kids else I.readloc_t(st, l)
        else:
            v0[l] = I.asT(x, st) if not isinstance(x, IM.Ref) else mk("addr", x.loc, x.sels)
    # ---- containers whose elements change but whose shape does not
    if end is not None and alive:
        shaped = False
        for l in W:
            m = mu(key, l)
            nvl = end.store.get(l)
            if isinstance(nvl, T) and nvl is not m and elementwise(nvl, m):
                shaped = True
                IM.SHAPE[m] = v0[l]
        if shaped:
            s = st.copy()
            havoc(I, s, W, key, {})
            sw, I.writes = I.writes, [set()]
            I.silent += 1
            try:
                c, alive, brk, oth, bf = one_iter(I, s, fcond, fbody, finc)
            finally:
                I.silent -= 1
                I.writes = sw
            end = s
    # ---- induction variables and the canonical counter
    step = {}
    idx = None
    rev = False
    ctr = None
    if end is not None and alive:
        for l in W:
            nv = end.store.get(l)
            if isinstance(nv, T):
                m = mu(key, l)
                if v0[l].op == "iter" and nv.op == "iter":
                    continue
                d = sub(nv, m)
                if is_num(d) and d.args[0] != 0:
                    step[l] = d.args[0]
                elif nv.op == "iteradd" and nv.args[0] is m and is_num(nv.args[1]):
                    step[l] = nv.args[1].args[0]
        for l in W:
            if l in step and abs(step[l]) == 1 and ctr is None:
                m = mu(key, l)
                init = v0[l]
                isit = init.op == "iter"
                for cc in (c.args if c.op == "and" else (c,)):
                    lohi = _bounds(cc, m, init, step[l], W, key)
                    if lohi is not None:
                        lo, hi = lohi
                        ctr = l
                        rev = step[l] < 0
                        idx = mk("idx", key, lo, hi)
                        rest = [x for x in (c.args if c.op == "and" else (c,)) if x is not cc]
                        break
    vals = {}
    if ctr is not None:
        init = v0[ctr]
        if init.op == "iter":
            vals[ctr] = mk("iter", init.args[0], idx)
            lo0 = init.args[1]
        else:
            vals[ctr] = idx
            lo0 = init
        for l in step:
            if l is not ctr and v0[l].op != "iter":
                k = sub(idx, lo0) if not rev else sub(lo0, idx)
                vals[l] = add(v0[l], scale(k, step[l]))
            elif l is not ctr:
                k = sub(idx, lo0) if not rev else sub(lo0, idx)
                vals[l] = IM.itadd(v0[l], scale(k, step[l]))
        if lt(lo, hi, True) is FALSE:
            return  # never entered
    # ---- final pass
    s = st.copy()
    havoc(I, s, W, key, vals)
    if idx is not None:
        I.assume(s, le(lo, idx, True))
        I.assume(s, lt(idx, hi, True))
    loopbase = s.facts
    se = I.events
    sub_ev = []
    if not I.silent:
        I.events = sub_ev
    swr, I.writes = I.writes, (I.writes or []) + [set()]
    try:
        c, alive, brk, oth, bf = one_iter(I, s, fcond, fbody, finc)
    finally:
        I.events = se
        I.writes = swr
    if c is FALSE:
        return
    mus = [mu(key, l) for l in W]
    lev = I.emit("loop", node, sub=sub_ev, idx=idx, cond=c, key=key, mod=W, mus=dict(zip(W, mus)), rev=rev, v0=dict(v0), step=dict(step), ctr=ctr,
                 brk=len(brk), exits=len(oth), vals=dict(vals), alive=alive, brks=brk, oth=oth)
    nv = {}
    for l in W:
        if alive:
            x = s.store.get(l)
            kids = any(k[:len(l)] == l and len(k) > len(l) for k in s.store)
            if x is None:
                x = I.readloc_t(s, l)
            elif isinstance(x, IM.Ref):
                x = mk("addr", x.loc, x.sels)
            elif not isinstance(x, T):
                x = mk("opaque", "fn")
            nv[l] = I.snapshot(s, l, x) if kids else x
        else:
            nv[l] = mu(key, l)
    if lev is not None:
        lev.d["nv"] = nv
        lev.d["endfacts"] = s.facts
        lev.d["loopbase"] = loopbase
    N = Closer(I, key, W, v0, nv, idx, c, vals, rev, brk, oth, bf, ctr, step, alive)
    N.finish(st, s)


def elementwise(t, m):
    while True:
        if t is m:
            return True
        if t.op in ("upd", "mapupd", "sorted", "permuted"):
            t = t.args[0]
        elif t.op == "ite":
            return elementwise(t.args[1], m) and elementwise(t.args[2], m)
        elif t.op == "fix":
            # an inner loop that only rewrites elements
            mus, v0s, nvs = t.args[2], t.args[3], t.args[4]
            return bool(mus) and elementwise(v0s[0], m) and elementwise(nvs[0], mus[0])
        else:
            return False


def _bounds(c, m, init, stp, W, key):
    def inv(t):
        return not contains(t, lambda x: x.op == "mu" and x.args[0] == key)
    isit = init.op == "iter"
    lo0 = init.args[1] if isit else init
    if c.op == "ipos":
        cc, d = as_lin(c.args[0])
        if m in d and abs(d[m]) == 1:
            co = d.pop(m)
            rest = from_lin(cc, d)
            if not inv(rest):
                return None
            if co == -1 and stp == 1:
                return lo0, rest          # rest - m > 0
            if co == 1 and stp == -1:
                return neg(rest) if False else sub(ONE, rest), add(lo0, ONE)   # m + rest > 0  => m >= 1-rest ; m <= init
    if c.op == "not" and c.args[0].op == "eq":
        a, b = c.args[0].args
        for x, y in ((a, b), (b, a)):
            if x is m and inv(y):
                if stp == 1:
                    return lo0, (y.args[1] if isit and y.op == "iter" else y)
            if x.op == "lin" and stp == 1 and not isit:
                cc, d = as_lin(sub(x, y))
                if d.get(m) in (1, -1):
                    co = d.pop(m)
                    rest = scale(from_lin(cc, d), -co)
                    if inv(rest):
                        return lo0, rest
    if c.op == "not" and c.args[0].op == "iterop==" or c.op == "iterop!=":
        a, b = (c.args[0].args if c.op == "not" else c.args)
        for x, y in ((a, b), (b, a)):
            if x is m and inv(y) and y.op == "iter" and isit and y.args[0] is init.args[0] and stp == 1:
                return lo0, y.args[1]
    return None


class Closer:
    def __init__(self, I, key, W, v0, nv, idx, cond, vals, rev, brk, oth, bf, ctr, step, alive):
        self.__dict__.update(locals())
        self.mus = {mu(key, l): l for l in W}
        self.memo = {}

    def hasmu(self, t):
        return contains(t, lambda x: x.op == "mu" and x.args[0] == self.key)

    def finish(self, st, s):
        I = self.I
        base = st.facts
        search = False
        exits = [(b, "break", None) for b in self.brk] + [(x, k, d) for k, x, d in self.oth]
        if exits and self.idx is not None:
            ok = all(self.nv[l] is mu(self.key, l) or l in self.vals or not self.hasmu(self.nv[l]) and False for l in self.W)
            if ok:
                search = True
        n = len(self.bf)
        outs = []
        found_all = FALSE
        if search:
            conds = []
            for x, k, d in exits:
                f = x.facts[n:]
                conds.append(AND(*f) if f else TRUE)
            anyc = OR(*conds)
            if any(self.hasmu(cc) for cc in conds):
                search = False
            else:
                fst = mk("first", self.idx, anyc)
                for (x, k, d), cc in zip(exits, conds):
                    y = self.tr_state(x, {self.idx: fst})
                    ex = mk("exists", self.idx, anyc)
                    fx = [ex]
                    if len(exits) > 1 and cc is not anyc:
                        fx.append(subst(cc, {self.idx: fst}))
                    y.facts = base
                    for q in fx:
                        I.assume(y, q)
                    outs.append((y, k, d))
                found_all = mk("exists", self.idx, anyc)
        if exits and not search:
            sysid = self.system()
            for i, (x, k, d) in enumerate(exits):
                f = x.facts[n:]
                cc = AND(*f) if f else TRUE
                m = {}
                for l in self.W:
                    m[mu(self.key, l)] = mk("fixat", sysid, i, mu(self.key, l))
                if self.idx is not None:
                    m[self.idx] = mk("fixat", sysid, i, self.idx)
                y = self.tr_state(x, m)
                ec = mk("loopexit", sysid, i, cc)
                y.facts = base
                I.assume(y, ec)
                outs.append((y, k, d))
                found_all = OR(found_all, ec)
        # normal termination
        normal = st.copy()
        only_exit = self.cond is TRUE or (self.idx is None and not self.alive and False)
        for l in self.W:
            v = self.close(l, bool(exits) and not search)
            k = len(l)
            for q in [q for q in normal.store if len(q) > k and q[:k] == l]:
                del normal.store[q]
            normal.store[l] = v
        if exits:
            I.assume(normal, NOT(found_all)) if found_all is not FALSE else None
        sts = []
        for y, k, d in outs:
            if k == "break":
                sts.append(y)
            else:
                I.exits.append((k, y, d))
        if self.cond is not TRUE:
            if not self.alive and not self.brk:
                # the body never completes normally: falling out means it was never entered
                normal = st.copy()
                ent = self.cond if self.idx is None else lt(self.idx.args[1], self.idx.args[2], True)
                ent = self.at_entry(ent)
                I.assume(normal, NOT(ent))
            sts.append(normal)
        if not sts:
            st.dead = True
            return
        if len(sts) == 1:
            f = sts[0].facts
            st.become(sts[0])
            st.facts = f
        else:
            m = I.merge_list(sts, base)
            m.facts = base
            st.become(m)
        if self.idx is None and self.cond is not TRUE and not self.brk and not self.hasmu(self.cond):
            I.assume(st, NOT(self.cond))

    def at_entry(self, t):
        return subst(t, {mu(self.key, l): self.v0[l] for l in self.W})

    def tr_state(self, x, m):
        y = IM.State({}, x.facts)
        memo = {}
        for k, v in x.store.items():
            k2 = k
            if isinstance(v, T):
                y.store[k2] = subst(v, m, memo)
            elif isinstance(v, IM.Ref):
                y.store[k2] = IM.Ref(v.loc, tuple(tuple(subst(q, m, memo) if isinstance(q, T) else q for q in sl) for sl in v.sels))
            else:
                y.store[k2] = v
        return y

    def system(self):
        """the whole recurrence as one term"""
        if "sys" not in self.memo:
            order = sorted(self.W, key=loc_sortkey)
            order = [l for l in order if l not in self.vals]
            n = len(self.bf)
            ex = tuple(AND(*x.facts[n:]) if x.facts[n:] else TRUE for x in self.brk) + tuple(AND(*x.facts[n:]) if x.facts[n:] else TRUE for _, x, _ in self.oth)
            self.memo["sys"] = mk("system", self.idx if self.idx is not None else mk("noidx"), self.cond if self.idx is None else TRUE,
                                  tuple(mu(self.key, l) for l in order), tuple(self.v0[l] for l in order), tuple(self.nv[l] for l in order), ex, ONE if self.rev else ZERO)
        return self.memo["sys"]

    def fix(self, l, target=None):
        """opaque fixpoint of the recurrences l depends on"""
        need = []
        todo = [l]
        while todo:
            x = todo.pop(0)
            if x in need:
                continue
            need.append(x)
            for t in subterms(self.nv[x]):
                if t.op == "mu" and t in self.mus and self.mus[t] not in need and self.mus[t] not in self.vals:
                    todo.append(self.mus[t])
            if self.idx is None:
                for t in subterms(self.cond):
                    if t.op == "mu" and t in self.mus and self.mus[t] not in need:
                        todo.append(self.mus[t])
        return mk("fix", self.idx if self.idx is not None else mk("noidx"), self.cond if self.idx is None else TRUE,
                  tuple(mu(self.key, x) for x in need), tuple(self.v0[x] for x in need), tuple(self.nv[x] for x in need), ONE if self.rev else ZERO)

    def close(self, l, haveexits):
        v0, nv, idx = self.v0[l], self.nv[l], self.idx
        m = mu(self.key, l)
        if nv is m:
            return v0
        if haveexits:
            return mk("fixend", self.system(), m)
        if idx is not None:
            lo, hi = idx.args[1], idx.args[2]
            if l in self.vals:
                trip = sub(hi, lo)
                nonempty = le(lo, hi, True)
                if l is self.ctr or l == self.ctr:
                    endv = hi if not self.rev else sub(lo, ONE)
                    startv = lo if not self.rev else sub(hi, ONE)
                    r = endv if nonempty is TRUE or size_nonneg(trip) else ite(lt(lo, hi, True), endv, startv)
                    return mk("iter", v0.args[0], r) if v0.op == "iter" else r
                tr = trip if nonempty is TRUE or size_nonneg(trip) else ite(lt(lo, hi, True), trip, ZERO)
                return IM.itadd(v0, scale(tr, self.step[l]))
            r = self.close_idx(m, v0, nv)
            if r is not None:
                return r
        if idx is None and not self.hasmu(nv) and not self.hasmu(self.cond):
            return ite(self.cond, nv, v0)
        return self.fix(l)

    def close_idx(self, m, v0, nv, depth=0):
        idx = self.idx
        if nv is m:
            return v0
        if not self.hasmu(nv):
            if not mentions(nv, idx):
                lo, hi = idx.args[1], idx.args[2]
                return ite(lt(lo, hi, True), nv, v0)
            lo, hi = idx.args[1], idx.args[2]
            last = sub(hi, ONE) if not self.rev else lo
            return ite(lt(lo, hi, True), subst(nv, {idx: last}), v0)
        # accumulation
        d = self.delta(nv, m)
        if d is not None and not self.hasmu(d):
            return add(v0, mksum(idx, d))
        # append
        a = self.append(nv, m)
        if a is not None:
            c, b = a
            if not self.hasmu(b) and not self.hasmu(c) and not self.rev:
                if c is TRUE:
                    return mk("appendmap", v0, idx, b)
                return mk("filtermap", v0, idx, c, b)
            if not self.hasmu(c) and not self.rev and c is TRUE:
                # body reads the container it appends to only through its size: position known
                sz = IM.size(m)
                b2 = subst(b, {mk("size", m): add(IM.size(v0), sub(idx, idx.args[1]))})
                if not self.hasmu(b2):
                    return mk("appendmap", v0, idx, b2)
        # last selected
        if nv.op == "ite" and not self.hasmu(nv.args[0]):
            c, x, y = nv.args
            if y is m and not self.hasmu(x):
                return mk("lastsel", v0, idx, c, x)
            if x is m and not self.hasmu(y):
                return mk("lastsel", v0, idx, NOT(c), y)
        # element-wise
        ws = self.updates(nv, m)
        if ws is not None:
            r = self.close_updates(m, v0, ws, depth)
            if r is not None:
                return r
        # running extremum
        e = self.extremum(nv, m)
        if e is not None:
            return mk(e[0], v0, idx, e[1])
        return None

    def extremum(self, nv, m):
        if nv.op == "ite" and nv.args[0].op in ("lt", "le"):
            c, x, y = nv.args
            a, b = c.args
            if a is m and b is x and y is m and not self.hasmu(b):
                return ("runmax", b)
            if b is m and a is x and y is m and not self.hasmu(a):
                return ("runmin", a)
        if nv.op in ("max", "min") and m in nv.args:
            o = [q for q in nv.args if q is not m]
            if len(o) == 1 and not self.hasmu(o[0]):
                return ("run" + nv.op, o[0])
        return None

    def delta(self, nv, m):
        if nv is m:
            return ZERO
        if nv.op == "ite" and not self.hasmu(nv.args[0]):
            a, b = self.delta(nv.args[1], m), self.delta(nv.args[2], m)
            if a is None or b is None:
                return None
            return ite(nv.args[0], a, b)
        d = sub(nv, m)
        if not mentions(d, m):
            return d
        return None

    def append(self, nv, m):
        if nv.op == "push" and nv.args[0] is m:
            return TRUE, nv.args[1]
        if nv.op == "ite":
            c, x, y = nv.args
            if y is m and x.op == "push" and x.args[0] is m:
                return c, x.args[1]
            if x is m and y.op == "push" and y.args[0] is m:
                return NOT(c), y.args[1]
            if x.op == "push" and y.op == "push" and x.args[0] is m and y.args[0] is m:
                return TRUE, ite(c, x.args[1], y.args[1])
        return None

    def updates(self, nv, m):
        """nv as a list of (idxs, path, value) element writes over m, in order"""
        if nv is m:
            return []
        if nv.op == "upd":
            b = self.updates(nv.args[0], m)
            if b is None:
                return None
            path, v = nv.args[1], nv.args[2]
            # flatten nested updates of the selected element
            cur = at_path(nv.args[0], path)
            while v.op == "upd" and v.args[0] is at_path(nv.args[0], path):
                path = path + v.args[1]
                v = v.args[2]
            return b + [((), path, v)]
        if nv.op == "mapupd":
            b = self.updates(nv.args[0], m)
            if b is None:
                return None
            return b + [(nv.args[1] + w[0], w[1], w[2]) for w in nv.args[2]]
        if nv.op == "ite" and not self.hasmu(nv.args[0]):
            a, b = self.updates(nv.args[1], m), self.updates(nv.args[2], m)
            if a is None or b is None:
                return None
            c = nv.args[0]
            out = []
            pa = {(x[0], x[1]): x[2] for x in a}
            pb = {(x[0], x[1]): x[2] for x in b}
            if len(pa) != len(a) or len(pb) != len(b):
                return None
            keys = [(x[0], x[1]) for x in a] + [(x[0], x[1]) for x in b if (x[0], x[1]) not in pa]
            for kk in keys:
                x = pa.get(kk)
                y = pb.get(kk)
                if x is None:
                    x = at_path(m, kk[1])
                if y is None:
                    y = at_path(m, kk[1])
                out.append((kk[0], kk[1], ite(c, x, y)))
            return out
        return None

    def close_updates(self, m, v0, ws, depth):
        idx = self.idx
        allmention = all(any(mentions(q, idx) for s in p for q in s if isinstance(q, T)) for _, p, _ in ws)
        pathmu = any(self.hasmu(q) for _, p, _ in ws for s in p for q in s if isinstance(q, T))
        if pathmu:
            return None
        if allmention:
            out = []
            rep = {}
            for idxs, p, v in ws:
                rep[at_path(m, p)] = at_path(v0, p)
            for idxs, p, v in ws:
                if self.hasmu(v) and not any(direct(q, idx) for s in p for q in s if isinstance(q, T)):
                    return None   # the same elements are updated in several iterations
                v2 = subst(v, rep)
                if self.hasmu(v2):
                    # the container's size is unchanged by element writes
                    v2 = subst(v2, {mk("size", m): IM.size(v0), mk("rows", m): IM.rows(v0), mk("cols", m): IM.cols(v0)})
                if self.hasmu(v2):
                    return None
                out.append(((idx,) + tuple(i for i in idxs), p, v2))
            return mapupd(v0, out)
        if len(ws) == 1 and not ws[0][0] and depth < 3:
            # accumulation into one fixed element
            _, p, v = ws[0]
            cell = mk("mu", self.key, ("cell", len(self.mus)))
            v2 = subst(v, {at_path(m, p): cell})
            if mentions(v2, m):
                return None
            r = self.close_idx(cell, at_path(v0, p), v2, depth + 1)
            if r is None:
                return None
            return upd_path(v0, p, r)
        return None


def direct(t, idx):
    """does t depend on the loop index itself, not only through the bounds of an inner index?"""
    if t is idx:
        return True
    if t.op == "idx":
        return False

    def rec(a):
        return direct(a, idx) if isinstance(a, T) else any(rec(x) for x in a) if isinstance(a, tuple) else False
    return any(rec(a) for a in t.args)


def size_nonneg(t):
    c, d = as_lin(t)
    return c >= 0 and all(v > 0 and x.op in ("size", "rows", "cols") for x, v in d.items())


def at_path(t, path):
    for s in path:
        t = SEL(t, s)
    return t


_dummy = None


def SEL(t, s):
    global _dummy
    if _dummy is None:
        _dummy = IM.Interp.__new__(IM.Interp)
    return IM.Interp.sel(_dummy, t, s)


def upd_path(t, path, v):
    SEL(t, path[0])
    return IM.Interp.updpath(_dummy, t, path, v)


def mksum(idx, body):
    if body is ZERO:
        return ZERO
    if not mentions(body, idx):
        return mul(sub(idx.args[2], idx.args[1]), body)
    if body.op == "lin":
        r = mul(const(body.args[0]), sub(idx.args[2], idx.args[1]))
        for x, c in body.args[1]:
            r = add(r, scale(mksum(idx, x), c))
        return r
    if body.op == "mul":
        out, inn = ONE, ONE
        for x, e in body.args[0]:
            f = rebuild("mul", (((x, e),),))
            if mentions(x, idx):
                inn = mul(inn, f)
            else:
                out = mul(out, f)
        if out is not ONE:
            return mul(out, mksum(idx, inn))
    return mk("sum", idx, body)


def mapupd(base, ws):
    return mk("mapupd", base, (), tuple(ws))


def _rb_mapupd(base, idxs, ws):
    return mk("mapupd", base, idxs, ws)


REBUILD["sum"] = lambda i, b: mksum(i, b) if i.op == "idx" else mk("sum", i, b)
