"""Interprocedural value-graph construction.

`Interp.run(fn)` walks the structured, resolved body of a function, following calls into
every function of the repository, and builds

  * a store: abstract location -> value number (terms.T).  Branches join with gated phis
    (`ite`), loops become recurrences that are closed into maps / sums / searches / opaque
    fixpoints; nothing is ever executed and no concrete value is ever chosen,
  * an event tree: the sequence / branch / loop / call structure of the observable
    operations (writes, calls that leave the analysed code, tests, exits) with the value
    numbers they act on.

Analyses (typestate automata, interval and polarity interpretations, dependency and effect
analyses ...) are folds over these two structures.
"""
from fractions import Fraction
from terms import *
from ir import walk


class Unsupported(Exception):
    pass


class Ref:
    __slots__ = ("loc", "sels")

    def __init__(self, loc, sels=()):
        self.loc = loc
        self.sels = sels

    def __eq__(self, o):
        return isinstance(o, Ref) and o.loc == self.loc and o.sels == self.sels

    def __hash__(self):
        return hash((self.loc, self.sels))

    def __repr__(self):
        return "Ref%s%s" % (self.loc, list(self.sels))


class Closure:
    __slots__ = ("fn", "caps", "this", "frame", "node")

    def __init__(self, fn, caps, this, frame, node):
        self.fn, self.caps, self.this, self.frame, self.node = fn, caps, this, frame, node

    def __repr__(self):
        return "Closure(%s:%s)" % (self.fn["f"], self.fn["l"])


class FnV:
    __slots__ = ("fn",)

    def __init__(self, fn):
        self.fn = fn

    def __eq__(self, o):
        return isinstance(o, FnV) and o.fn is self.fn

    def __hash__(self):
        return hash(self.fn["id"])


class State:
    __slots__ = ("store", "facts", "dead")

    def __init__(self, store=None, facts=()):
        self.store = store if store is not None else {}
        self.facts = facts
        self.dead = False

    def copy(self):
        s = State(dict(self.store), self.facts)
        s.dead = self.dead
        return s

    def become(self, o):
        self.store, self.facts, self.dead = o.store, o.facts, o.dead


class Ev:
    """event-tree node"""
    __slots__ = ("k", "d", "node", "fn", "sub", "facts")

    def __init__(self, k, fn=None, node=None, sub=None, **d):
        self.k, self.fn, self.node, self.sub, self.d = k, fn, node, sub, d

    def line(self):
        return self.node.get("l") if self.node else None


def isref(prog, t):
    return bool(prog.typ(t).get("ref"))


class Region:
    """a parallel loop while its body is analysed"""

    def __init__(self, node, fn):
        self.node, self.fn, self.inside, self.idx = node, fn, set(), None


class Frame:
    __slots__ = ("fn", "id", "this", "parent", "call", "depth", "caps")

    def __init__(self, fn, id, this, parent, call, depth):
        self.fn, self.id, self.this, self.parent, self.call, self.depth = fn, id, this, parent, call, depth
        self.caps = {}


_frame_ids = {}


def frame_id(parent, nodeid, fnid):
    k = (parent, nodeid, fnid)
    if k not in _frame_ids:
        _frame_ids[k] = len(_frame_ids) + 1
    return _frame_ids[k]


IMPURE = {"rand", "std::rand", "time", "std::time", "srand", "std::srand", "clock", "random_shuffle"}


# values of library constants (the bits of an open mode are only compared with each other)
LIBCONST = {"std::ios_base::app": 1, "std::ios_base::ate": 2, "std::ios_base::binary": 4, "std::ios_base::in": 8, "std::ios_base::out": 16, "std::ios_base::trunc": 32,
            "std::numeric_limits<double>::max_digits10": 17, "std::numeric_limits<double>::digits10": 15, "std::numeric_limits<float>::max_digits10": 9,
            "std::numeric_limits<float>::digits10": 6, "std::numeric_limits<double>::digits": 53, "std::numeric_limits<long double>::max_digits10": 21}


class Interp:
    MAXDEPTH = 60
    MAXREC = 5

    def __init__(self, prog, opaque=None, hook=None, maxsteps=4000000):
        self.p = prog
        ext = {i for i, f in enumerate(prog.files) if "/external/" in f}
        user = opaque or (lambda fn: False)
        self.opaque = lambda fn: fn.get("f") in ext or user(fn)
        self.hook = hook
        self.streams = ()   # library classes whose objects the hook builds in place
        self.rootcls = {}   # root of a location -> class of the object there
        self.events = []
        self.exits = []
        self.frames = []
        self.loopdepth = 0
        self.statics = {}    # static local -> (declaration, constructor, arguments)
        self.loopmemo = {}
        self.writes = None  # list of sets during probing
        self.silent = 0
        self.notes = set()
        self.steps = 0
        self.maxsteps = maxsteps
        self.inlined = set()
        self.on_access = None
        self.par = []        # parallel regions being executed
        self.locks = []      # locations of the mutexes held
        self.quiet = 0       # reads of sizes are not accesses to the elements
        self.on_index = None
        self.nodes_keep = []
        self._pseudo = {}
        self.kinds = {}
        self.curst = None
        self.ncalls = 0
        self.nloops = 0
        self.nbranches = 0

    # ------------------------------------------------------------------ basics
    def pseudo(self, node, tag):
        """a distinct node identity for an operation modelled on behalf of `node`"""
        k = (id(node), tag)
        if k not in self._pseudo:
            self._pseudo[k] = {"k": "pseudo", "l": node.get("l"), "of": node}
        return self._pseudo[k]

    @property
    def fr(self):
        return self.frames[-1]

    def emit(self, k, node=None, sub=None, **d):
        if self.silent:
            return None
        e = Ev(k, fn=self.fr.fn if self.frames else None, node=node, sub=sub, **d)
        e.facts = self.curst.facts if self.curst is not None else ()
        self.events.append(e)
        return e

    def T(self, i):
        return self.p.typ(i)

    def isstruct(self, ti):
        t = self.T(ti)
        if t.get("b") != "rec" or t.get("ptr"):
            return False
        c = self.p.classes[t["rid"]]
        return bool(c.get("repo")) and not c.get("lam")

    # ------------------------------------------------------------------ store
    def readloc(self, st, loc):
        v = st.store.get(loc)
        if v is not None:
            return v
        for n in range(len(loc) - 1, 0, -1):
            a = st.store.get(loc[:n])
            if a is not None:
                if isinstance(a, Ref):
                    return self.read(st, Ref(a.loc, a.sels + tuple(("fld", f) for f in loc[n:])))
                if isinstance(a, Closure):
                    return mk("opaque", "closurefield")
                for f in loc[n:]:
                    a = self.sel(a, ("fld", f))
                return a
        return mk("init", loc)

    def read(self, st, ref):
        if self.on_access and not self.silent and not self.quiet:
            self.on_access("r", ref, st, self)
        loc = ref.loc
        b = self.readloc(st, loc)
        if isinstance(b, Ref):
            return self.read(st, Ref(b.loc, b.sels + ref.sels))
        if isinstance(b, (Closure, FnV)):
            return b
        # struct snapshot when specific fields override
        if not ref.sels:
            return self.snapshot(st, loc, b)
        b = self.snapshot(st, loc, b)
        for s in ref.sels:
            b = self.sel(b, s)
        return b

    def snapshot(self, st, loc, base):
        n = len(loc)
        fs = [(k, v) for k, v in st.store.items() if len(k) > n and k[:n] == loc]
        if not fs:
            return base
        items = []
        for k, v in sorted(fs, key=lambda kv: kv[0][n:]):
            if isinstance(v, Ref):
                v = mk("addr", v.loc, v.sels)
            elif not isinstance(v, T):
                v = mk("opaque", "fn")
            items.append(("/".join(map(str, k[n:])), v))
        return mk("struct", base, tuple(items))

    def sel(self, b, s):
        k = s[0]
        if k == "fld":
            if b.op == "struct":
                nm = s[1]
                deeper = []
                for n, v in b.args[1]:
                    if n == nm:
                        return v
                    if n.startswith(nm + "/"):
                        deeper.append((n[len(nm) + 1:], v))
                inner = self.sel(b.args[0], s)
                if deeper:
                    return mk("struct", inner, tuple(deeper))
                return inner
            if b.op == "init":
                return mk("init", b.args[0] + (s[1],))
            if b.op == "ite":
                return ite(b.args[0], self.sel(b.args[1], s), self.sel(b.args[2], s))
            if b.op == "upd":
                path = b.args[1]
                if path and path[0] == s:
                    if len(path) == 1:
                        return b.args[2]
                    return self.updpath(self.sel(b.args[0], s), path[1:], b.args[2])
                if path and path[0][0] == "fld":
                    return self.sel(b.args[0], s)
            if b.op == "obj" or b.op == "objd":
                return mk("fld", b, s[1])
            return mk("fld", b, s[1])
        if k == "at":
            return at(b, *s[1:])
        if k == "get":
            return get(b, s[1])
        if k == "view":  # identity-like views
            return b
        if b.op == "ite":
            return ite(b.args[0], self.sel(b.args[1], s), self.sel(b.args[2], s))
        if b.op == "upd" and len(b.args[1]) == 1 and b.args[1][0] == s:
            return b.args[2]
        return mk("sel", b, s)

    def updpath(self, base, path, v):
        if not path:
            return v
        s = path[0]
        if s[0] == "view":
            return self.updpath(base, path[1:], v)
        if len(path) > 1:
            v = self.updpath(self.sel(base, s), path[1:], v)
        if s[0] == "get" and base.op == "tuple":
            a = list(base.args)
            if s[1] < len(a):
                a[s[1]] = v
                return mk("tuple", *a)
        if base.op == "upd" and base.args[1] == (s,):
            base = base.args[0]
        return mk("upd", base, (s,), v)

    def record_write(self, loc):
        if self.writes is not None:
            for w in self.writes:
                w.add(loc)

    def write(self, st, ref, v, node=None, how="="):
        loc = ref.loc
        b = None
        if ref.sels:
            b = self.readloc(st, loc)
            if isinstance(b, Ref):
                return self.write(st, Ref(b.loc, b.sels + ref.sels), v, node, how)
        else:
            cur = st.store.get(loc)
            if isinstance(cur, Ref) and how != "bind":
                return self.write(st, cur, v, node, how)
            # an ancestor may be a reference
            for n in range(len(loc) - 1, 0, -1):
                a = st.store.get(loc[:n])
                if isinstance(a, Ref):
                    return self.write(st, Ref(a.loc, a.sels + tuple(("fld", f) for f in loc[n:])), v, node, how)
        if self.on_access and not self.silent and not self.quiet:
            self.on_access("w", ref, st, self, node=node, value=v)
        self.record_write(loc)
        if isinstance(v, Ref) and how != "bind":
            v = self.rv(v, st)
        if ref.sels:
            b = self.snapshot(st, loc, b)
            nv = self.updpath(b, ref.sels, v if isinstance(v, T) else self.asT(v, st))
            self._clear(st, loc)
            st.store[loc] = nv
        else:
            self._clear(st, loc)
            st.store[loc] = v
        if how != "bind" and how != "init0":
            self.emit("write", node, ref=ref, value=v, how=how)

    def _clear(self, st, loc):
        n = len(loc)
        dead = [k for k in st.store if len(k) > n and k[:n] == loc]
        for k in dead:
            del st.store[k]

    def copystruct(self, st, dst, src, node=None, how="copy"):
        """dst, src: Ref to struct"""
        if not isinstance(src, Ref):
            return self.write(st, dst, src, node, how)
        src = self.deref_chain(st, src)
        dst = self.deref_chain(st, dst)
        if src == dst:
            return
        if dst.sels or src.sels:
            return self.write(st, dst, self.read(st, src), node, how)
        if self.on_access and not self.silent and not self.quiet:
            self.on_access("r", src, st, self)
            self.on_access("w", dst, st, self, node=node)
        sl, dl = src.loc, dst.loc
        n = len(sl)
        items = [(k, v) for k, v in st.store.items() if len(k) > n and k[:n] == sl]
        base = self.readloc(st, sl)
        self.record_write(dl)
        self._clear(st, dl)
        st.store[dl] = base
        for k, v in items:
            st.store[dl + k[n:]] = v
        self.emit("write", node, ref=dst, value=None, how=how, src=src)

    def deref_chain(self, st, ref):
        while True:
            loc = ref.loc
            hit = None
            for n in range(len(loc), 0, -1):
                a = st.store.get(loc[:n])
                if isinstance(a, Ref):
                    hit = Ref(a.loc, a.sels + tuple(("fld", f) for f in loc[n:]) + ref.sels)
                    # pure field selectors on an un-selected loc extend the loc
                    if not a.sels:
                        ext = list(a.loc)
                        rest = list(loc[n:])
                        ext += rest
                        hit = Ref(tuple(ext), ref.sels)
                    break
                if a is not None:
                    break
            if hit is None:
                return ref
            ref = hit

    def asT(self, v, st):
        if isinstance(v, T):
            return v
        if isinstance(v, Ref):
            return self.asT(self.read(st, v), st)
        if isinstance(v, Closure):
            return mk("closure", v.fn["id"], v.frame)
        if isinstance(v, FnV):
            return mk("fn", v.fn["q"])
        return mk("opaque", "none")

    def rv(self, v, st):
        if isinstance(v, Ref):
            r = self.read(st, v)
            return r
        return v

    def val(self, e, st):
        """rvalue term (or Closure / FnV)"""
        return self.rv(self.eval(e, st), st)

    def tval(self, e, st):
        return self.asT(self.eval(e, st), st)

    def field(self, ref, name):
        if ref.sels:
            return Ref(ref.loc, ref.sels + (("fld", name),))
        return Ref(ref.loc + (name,), ())

    def deref(self, v, st):
        if isinstance(v, Ref):
            v = self.read(st, v)
        if isinstance(v, Ref):
            return v
        if isinstance(v, T):
            if v.op == "addr":
                return Ref(v.args[0], v.args[1])
            return Ref((("P", v),))
        return Ref((("P", mk("opaque", "ptr")),))

    # ------------------------------------------------------------------ merging
    def merge(self, c, a, b):
        """state = c ? a : b  (both alive)"""
        out = State({}, ())
        keys = set(a.store) | set(b.store)
        sa, sb = a.store, b.store
        for k in keys:
            va, vb = sa.get(k), sb.get(k)
            if va is vb:
                out.store[k] = va
                continue
            if va is None or vb is None:
                # location created on one side only
                if va is None:
                    va = self._side(a, k)
                else:
                    vb = self._side(b, k)
                if va is None or vb is None:
                    # dead local of the other branch
                    continue
            if va == vb:
                out.store[k] = va
                continue
            if isinstance(va, T) and isinstance(vb, T):
                out.store[k] = ite(c, va, vb)
            else:
                ta = va if isinstance(va, T) else (mk("addr", va.loc, va.sels) if isinstance(va, Ref) else mk("opaque", "fn"))
                tb = vb if isinstance(vb, T) else (mk("addr", vb.loc, vb.sels) if isinstance(vb, Ref) else mk("opaque", "fn"))
                out.store[k] = ite(c, ta, tb)
        n = 0
        for x, y in zip(a.facts, b.facts):
            if x is not y:
                break
            n += 1
        out.facts = a.facts[:n]
        return out

    def _side(self, st, k):
        root = k[0]
        if isinstance(root, tuple) and root[0] == "L" and len(k) == 1:
            return None
        for n in range(len(k) - 1, 0, -1):
            if k[:n] in st.store:
                return self.readloc(st, k)
        if isinstance(root, tuple) and root[0] in ("L", "tmp", "ret"):
            return None
        return self.readloc(st, k)

    def merge_list(self, sts, base):
        """sts: states in program order with facts extending base facts; returns one state"""
        sts = [s for s in sts if s is not None and not s.dead]
        if not sts:
            return None
        cur = sts[-1]
        for s in reversed(sts[:-1]):
            # condition of s relative to base
            conds = s.facts[len(base):]
            c = AND(*conds) if conds else TRUE
            if c is TRUE:
                cur = s
                continue
            m = self.merge(c, s, cur)
            cur = m
        out = cur.copy()
        out.facts = tuple(base) if len(sts) > 1 else sts[0].facts
        return out

    def assume(self, st, c):
        if c is TRUE:
            return st
        if c.op == "and":
            for x in c.args:
                self.assume(st, x)
            return st
        if c not in st.facts:
            st.facts = st.facts + (c,)
        return st

    def decide(self, st, c):
        """is c decided by the facts?"""
        if c is TRUE or c is FALSE:
            return c
        if c in st.facts:
            return TRUE
        if NOT(c) in st.facts:
            return FALSE
        if c.op == "and":
            if all(x in st.facts for x in c.args):
                return TRUE
            if any(NOT(x) in st.facts for x in c.args):
                return FALSE
        if c.op == "not" and c.args[0].op == "and":
            r = self.decide(st, c.args[0])
            return NOT(r) if r in (TRUE, FALSE) else c
        if c.op == "ipos":
            d = c.args[0]
            if d.op == "lin" or d.op:
                lo = self.intlow(st, d)
                if lo is not None and lo > 0:
                    return TRUE
                hi = self.intlow(st, neg(d))
                if hi is not None and hi >= 0:
                    return FALSE
        return c

    def intlow(self, st, d):
        """a lower bound of an integer-valued linear term from facts d' > 0 (single-step)"""
        if is_num(d):
            return d.args[0]
        best = None
        for f in st.facts:
            if f.op == "ipos":
                k = sub(d, f.args[0])
                if is_num(k):
                    b = k.args[0] + 1
                    best = b if best is None else max(best, b)
        c, lin = as_lin(d)
        if all(v > 0 for v in lin.values()) and all(nonneg_int(x) for x in lin):
            best = c if best is None else max(best, c)
        return best

    # ------------------------------------------------------------------ entry points
    def run(self, fn, this=None, args=None, st=None, ctor=False):
        """analyse one function as an entry point"""
        st = st or State()
        self.entry_state = st
        self.events = []
        self.exits = []
        if this is None and "cls" in fn and not fn.get("sm"):
            this = Ref(("this",))
        argv = []
        for i, p in enumerate(fn["p"]):
            if args is not None and i < len(args) and args[i] is not None:
                argv.append(args[i])
            else:
                argv.append(Ref((("arg", i),)))
        caps = None
        if fn.get("lam"):   # the body of a closure: its captures come from the closure object
            c = this
            for _ in range(8):
                if not isinstance(c, Ref) or c.sels:
                    break
                c = st.store.get(c.loc)
            if isinstance(c, Closure):
                this, caps = c.this, c.caps
        r = self.inline(fn, this, argv, st, {"l": fn["l"], "k": "entry"}, top=True, caps=caps)
        return r, st

    def inline(self, fn, this, argv, st, node, top=False, caps=None):
        if len(self.frames) > self.MAXDEPTH:
            raise Unsupported("inlining depth at " + fn["q"])
        pid = self.frames[-1].id if self.frames else 0
        fid = frame_id(pid, id(node) if not top else 0, fn["id"])
        fr = Frame(fn, fid, this, self.frames[-1] if self.frames else None, node, len(self.frames))
        if caps:
            fr.caps = caps
        if not self.silent:
            self.inlined.add(fn["id"])
        saved_events = self.events
        saved_exits = self.exits
        sub = []
        if not self.silent:
            self.events = sub
        self.exits = []
        base = st.facts
        retloc = (("ret", fid),)
        self._clear(st, retloc)
        st.store.pop(retloc, None)
        self.frames.append(fr)
        for r in self.par:
            r.inside.add(fid)
        try:
            for p, a in zip(fn["p"], argv):
                loc = (("L", fid, p["id"]),)
                self.bind(st, loc, p["t"], a)
            if fn.get("ctor"):
                self.ctor_inits(fn, this, st)
            if not st.dead:
                self.exec(fn["body"], st)
            rets = []
            others = []
            for k, s, d in self.exits:
                if k == "ret":
                    rets.append(s)
                else:
                    others.append((k, s, d))
            if not st.dead:
                rets.append(st.copy())
            m = self.merge_list(rets, base) if rets else None
        finally:
            self.frames.pop()
            self.events = saved_events
            self.exits = saved_exits
        self.exits.extend(others)
        self.emit("call", node, sub=sub, callee=fn, this=this, args=argv)
        if m is None:
            st.dead = True
            return mk("opaque", "noreturn")
        if rets and len(rets) == 1 and not others:
            # facts learned in a straight-line callee stay valid
            m.facts = rets[0].facts
        elif others:
            # the callee may leave by exception: what it established on its normal path holds after
            norm = [s.facts[len(base):] for s in rets]
            if len(norm) == 1:
                m.facts = rets[0].facts
        st.become(m)
        st.dead = False
        rt = self.T(fn["rt"])
        if rt.get("b") == "void" and not rt.get("ptr"):
            return mk("opaque", "void")
        if fn.get("ctor"):
            return this
        v = st.store.get(retloc)
        if v is None:
            has = [k for k in st.store if k[:1] == retloc]
            if has or self.isstruct(fn["rt"]):
                return Ref(retloc)
            return mk("opaque", "noret", fn["q"])
        if rt.get("ref"):
            if isinstance(v, Ref):
                return v
            if isinstance(v, T) and v.op == "addr":
                return Ref(v.args[0], v.args[1])
            return v if isinstance(v, T) else v
        if self.isstruct(fn["rt"]):
            return Ref(retloc)
        if isinstance(v, Ref):
            return self.read(st, v)
        return v

    def bind(self, st, loc, ti, a):
        t = self.T(ti)
        self.record_write(loc)
        if t.get("ref"):
            if isinstance(a, Ref):
                self._clear(st, loc)
                st.store[loc] = self.deref_chain(st, a) if a.loc != loc else a
            else:
                st.store[loc] = a if not isinstance(a, type(None)) else mk("opaque", "none")
            return
        if isinstance(a, Ref):
            if self.isstruct(ti):
                self.silent += 1
                try:
                    self.copystruct(st, Ref(loc), a)
                finally:
                    self.silent -= 1
                return
            a = self.read(st, a)
        self._clear(st, loc)
        st.store[loc] = a

    def ctor_inits(self, fn, this, st):
        for i in fn.get("inits", ()):
            if st.dead:
                return
            if "fd" in i:
                ref = self.field(this, i["n"])
                c, fl = self.p.fieldcls.get(i["fd"], (None, None))
                ft = fl["t"] if fl else -1
                if not i.get("init"):
                    continue
                self.init_loc(st, ref, ft, i["init"], i)
            elif "base" in i:
                if i.get("init"):
                    self.construct_into(this, i["init"], st)
            elif i.get("deleg") and i.get("init"):
                self.construct_into(this, i["init"], st)

    def construct_into(self, ref, e, st):
        """evaluate a construction expression with `ref` as the object under construction"""
        if e["k"] == "ctor":
            fn = self.p.fns[e["fn"]]
            if fn.get("repo") and fn.get("body") and not self.opaque(fn):
                args = [self.eval(a, st) for a in e["a"]]
                if (fn.get("implicit") or fn.get("defaulted")) and (e.get("copy") or e.get("move")) and args:
                    self.copystruct(st, ref, args[0] if isinstance(args[0], Ref) else args[0], e)
                    return
                self.inline(fn, ref, args, st, e)
                return
            args = [self.eval(a, st) for a in e["a"]]
            if (e.get("copy") or e.get("move")) and args:
                self.copystruct(st, ref, args[0], e)
                return
            if self.hook and fn.get("ctor"):
                if self.hook(self, fn, ref, args, e, st) is not None:
                    return
            if not args:
                self.default_struct(st, ref, e)
                return
            ts = tuple(self.asT(a, st) for a in args)
            self.write(st, ref, mk("ctor", fn["q"], *ts), e, "init")
            return
        v = self.eval(e, st)
        if isinstance(v, Ref):
            self.copystruct(st, ref, v, e)
        else:
            self.write(st, ref, v, e, "init")

    def default_struct(self, st, ref, e):
        """implicit default constructor: members keep their default initialisers"""
        t = self.T(e.get("t", -1))
        if t.get("b") != "rec":
            return
        c = self.p.classes[t["rid"]]
        self.default_members(st, ref, t["rid"], e)

    def default_members(self, st, ref, cid, e):
        for b in self.p.classes[cid].get("bases", ()):
            self.default_members(st, ref, b, e)
        for f in self.p.classes[cid].get("fields", ()):
            fr = self.field(ref, f["n"])
            if f.get("init"):
                self.init_loc(st, fr, f["t"], f["init"], e)
            elif self.isstruct(f["t"]):
                ft = self.T(f["t"])
                self.default_members(st, fr, ft["rid"], e)
            elif self.T(f["t"]).get("b") in ("int", "float", "bool", "ptr", "enum"):
                self.write(st, fr, mk("uninit", f["n"]), e, "uninit")
            else:
                self.write(st, fr, default_value(self.T(f["t"])), e, "init0")

    def init_loc(self, st, ref, ti, e, node):
        t = self.T(ti)
        if t.get("ref"):
            v = self.eval(e, st)
            if isinstance(v, Ref):
                v = self.deref_chain(st, v)
            self.record_write(ref.loc)
            if ref.sels:
                return
            self._clear(st, ref.loc)
            st.store[ref.loc] = v
            return
        if self.isstruct(ti):
            if e["k"] in ("ctor",):
                self.construct_into(ref, e, st)
            elif e["k"] == "ilist":
                self.ilist_into(st, ref, ti, e)
            elif e["k"] == "zero":
                return
            else:
                v = self.eval(e, st)
                if isinstance(v, Ref):
                    self.copystruct(st, ref, v, node, "init")
                else:
                    self.write(st, ref, v, node, "init")
            return
        if self.streams and e["k"] == "ctor" and not (e.get("copy") or e.get("move")):
            fn = self.p.fns[e["fn"]]
            if "cls" in fn and self.p.classes[fn["cls"]]["q"] in self.streams:
                args = [self.eval(a, st) for a in e["a"]]
                if self.hook(self, fn, ref, args, e, st) is not None:
                    return
        v = self.val(e, st)
        if st.dead:
            return
        self.write(st, ref, v, node, "init")

    def ilist_into(self, st, ref, ti, e):
        cid = self.T(ti)["rid"]
        fields = self.p.classes[cid].get("fields", [])
        if len(e["a"]) == 1 and e["a"][0] and self.T(e["a"][0].get("t", -1)).get("rid") == cid:
            self.construct_into(ref, e["a"][0], st)
            return
        for f, x in zip(fields, e["a"]):
            if x is None:
                continue
            self.init_loc(st, self.field(ref, f["n"]), f["t"], x, e)

    # ------------------------------------------------------------------ statements
    def exec(self, s, st):
        if s is None or st.dead:
            return
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step budget")
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is None:
            raise Unsupported("statement %s" % k)
        old = self.curst
        self.curst = st
        try:
            m(s, st)
        finally:
            self.curst = old

    def s_block(self, s, st):
        declared = []
        held = len(self.locks)
        for x in s["c"]:
            if st.dead:
                break
            self.exec(x, st)
            if x["k"] == "decl":
                declared += x["v"]
        del self.locks[held:]
        for v in reversed(declared):
            t = self.T(v["t"])
            if t.get("b") == "rec" and not t.get("ref") and not t.get("ptr") and not v.get("static"):
                self.emit("scope_end", s, var=v, type=t, loc=(("L", self.fr.id, v["id"]),), end=s.get("el"))

    def s_null(self, s, st):
        pass

    def s_expr(self, s, st):
        self.eval(s["e"], st)

    def s_decl(self, s, st):
        for v in s["v"]:
            if st.dead:
                return
            if v.get("static"):
                # static local: initialised once; treated as a persistent root
                if v.get("init") and not v.get("tls"):
                    pass
                loc = (("G", v["g"]),)
                if v.get("init"):
                    self.emit("static_init", s, var=v, loc=loc)
                    if loc not in st.store and v.get("cx"):
                        self.init_loc(st, Ref(loc), v["t"], v["init"], s)
                    else:
                        # arguments are evaluated for their events; value stays symbolic
                        cp = st.copy()
                        self.eval_static_init(v, cp, loc, st)
                continue
            loc = (("L", self.fr.id, v["id"]),)
            self._clear(st, loc)
            st.store.pop(loc, None)
            if v.get("init") is None:
                t = self.T(v["t"])
                if t.get("b") in ("int", "float", "bool", "ptr", "enum", "array"):
                    st.store[loc] = mk("uninit", v["n"])
                else:
                    st.store[loc] = default_value(t)
                self.record_write(loc)
                continue
            self.init_loc(st, Ref(loc), v["t"], v["init"], s)
            if self.T(v["t"]).get("rec", "").startswith("Eigen::Map") and isinstance(st.store.get(loc), T) and "Map<const" not in self.T(v["t"])["s"]:
                raise Unsupported("a variable that maps the elements of a matrix")
            if not st.dead and loc not in st.store and not any(k[:1] == loc for k in st.store):
                st.store[loc] = default_value(self.T(v["t"]))

    def eval_static_init(self, v, cp, loc, st):
        e = v["init"]
        try:
            if e["k"] == "ctor":
                args = [self.tval(a, cp) for a in e["a"]]
                self.statics[loc] = (v, e["fn"], tuple(args))
                if loc not in st.store:
                    st.store[loc] = mk("static", v["n"], self.p.fns[e["fn"]]["q"], *args)
            else:
                x = self.asT(self.eval(e, cp), cp)
                if loc not in st.store:
                    st.store[loc] = mk("static", v["n"], "", x)
        except Unsupported:
            pass

    def s_ret(self, s, st):
        retloc = (("ret", self.fr.id),)
        fn = self.fr.fn
        if s.get("e") is not None:
            rt = self.T(fn["rt"])
            if rt.get("ref"):
                v = self.eval(s["e"], st)
                if isinstance(v, Ref):
                    v = self.deref_chain(st, v)
                if not st.dead:
                    self._clear(st, retloc)
                    st.store[retloc] = v
            elif rt.get("b") == "void":
                self.eval(s["e"], st)
            elif self.isstruct(fn["rt"]):
                self.silent_init(st, Ref(retloc), fn["rt"], s["e"], s)
            else:
                v = self.val(s["e"], st)
                if not st.dead:
                    self._clear(st, retloc)
                    st.store[retloc] = v
        if st.dead:
            return
        val = st.store.get(retloc)
        self.emit("return", s, value=val, facts=st.facts)
        c = st.copy()
        self.exits.append(("ret", c, s))
        st.dead = True

    def silent_init(self, st, ref, ti, e, node):
        self.init_loc(st, ref, ti, e, node)

    def s_break(self, s, st):
        self.emit("break", s)
        self.exits.append(("break", st.copy(), s))
        st.dead = True

    def s_continue(self, s, st):
        self.emit("continue", s)
        self.exits.append(("continue", st.copy(), s))
        st.dead = True

    def branch(self, node, c, st, fthen, felse):
        """generic two-way branch; fthen/felse take a state"""
        d = self.decide(st, c)
        if d is TRUE or d is FALSE:
            (fthen if d is TRUE else felse)(st)
            return
        self.nbranches += 1
        base = st.facts
        a, b = st.copy(), st.copy()
        self.assume(a, c)
        self.assume(b, NOT(c))
        se = self.events
        ea, eb = [], []
        if not self.silent:
            self.events = ea
        fthen(a)
        if not self.silent:
            self.events = eb
        felse(b)
        self.events = se
        if not self.silent and (ea or eb):
            self.emit("if", node, cond=c, then=ea, els=eb)
        if a.dead and b.dead:
            st.dead = True
            return
        if a.dead:
            st.become(b)
            return
        if b.dead:
            st.become(a)
            return
        m = self.merge(c, a, b)
        m.facts = base
        st.become(m)

    def s_if(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        if s.get("cv"):
            self.exec(s["cv"], st)
        c = self.cond(s["cond"], st)
        if st.dead:
            return
        self.branch(s, c, st, lambda a: self.exec(s["then"], a), lambda b: self.exec(s["else"], b) if s["else"] else None)

    def cond(self, e, st):
        c = self.tval(e, st)
        return tobool(c)

    def s_while(self, s, st):
        self.loop(s, st, lambda x: self.cond(s["cond"], x), lambda x: self.exec(s["body"], x), None)

    def s_do(self, s, st):
        first = {"k": "block", "c": []}

        def body(x):
            self.exec(s["body"], x)
        # while(true){ body; if(!cond) break; }

        def body2(x):
            ex = self.exits
            self.exits = []
            body(x)
            cont = [c for c in self.exits if c[0] == "continue"]
            rest = [c for c in self.exits if c[0] != "continue"]
            self.exits = ex
            self.exits.extend(rest)
            sts = [c[1] for c in cont] + ([x.copy()] if not x.dead else [])
            if sts:
                m = self.merge_list(sts, x.facts if not cont else self._common(sts))
                x.become(m)
                c = self.cond(s["cond"], x)
                self.branch(s, c, x, lambda a: None, lambda b: self.s_break(s, b))
        self.loop(s, st, lambda x: TRUE, body2, None)

    def _common(self, sts):
        f = sts[0].facts
        for s in sts[1:]:
            n = 0
            for a, b in zip(f, s.facts):
                if a is not b:
                    break
                n += 1
            f = f[:n]
        return f

    def s_for(self, s, st):
        if s.get("init"):
            self.exec(s["init"], st)
        if st.dead:
            return
        self.loop(s, st, (lambda x: self.cond(s["cond"], x)) if s.get("cond") else (lambda x: TRUE),
                  lambda x: self.exec(s["body"], x),
                  (lambda x: self.eval(s["inc"], x)) if s.get("inc") else None)

    def s_rfor(self, s, st):
        rng = self.eval(s["range"], st)
        if st.dead:
            return
        if not isinstance(rng, Ref):
            loc = (("tmp", self.fr.id, id(s)),)
            st.store[loc] = rng if isinstance(rng, T) else self.asT(rng, st)
            rng = Ref(loc)
        il = (("L", self.fr.id, ("rf", id(s))),)
        st.store[il] = ZERO
        v = s["v"]
        vl = (("L", self.fr.id, v["id"]),)
        elemstruct = self.isstruct(v["t"])

        def cond(x):
            n = size(self.asT(rng, x))
            return lt(self.readloc(x, il), n, True)

        def body(x):
            i = self.readloc(x, il)
            eref = Ref(rng.loc, rng.sels + (("at", i),))
            eref2 = self.deref_chain(x, eref)
            t = self.T(v["t"])
            if t.get("ref"):
                x.store[vl] = eref2
                self.record_write(vl)
            else:
                self.bind(x, vl, v["t"], eref2)
            self.exec(s["body"], x)

        def inc(x):
            self.record_write(il)
            x.store[il] = add(self.readloc(x, il), ONE)
        self.loop(s, st, cond, body, inc)
        if not st.dead:
            st.store.pop(il, None)

    def s_try(self, s, st):
        entry = st.copy()
        saved = self.exits
        self.exits = []
        w = set()
        sw = self.writes
        self.writes = (sw or []) + [w]
        se = self.events
        eb = []
        if not self.silent:
            self.events = eb
        self.exec(s["body"], st)
        self.events = se
        self.writes = sw
        mine = self.exits
        self.exits = saved
        hs = []
        handlers = []
        for i, h in enumerate(s["h"]):
            x = entry.copy()
            for loc in w:
                root = loc[0]
                if loc in entry.store or (isinstance(root, str)) or any(k[:len(loc)] == loc for k in entry.store):
                    x.store[loc] = ite(mk("exc", s["l"], i, "mid"), self._peek(st, loc), self.readloc(entry, loc)) if False else mk("afterthrow", self.readloc_t(entry, loc))
            if h.get("v"):
                x.store[(("L", self.fr.id, h["v"]["id"]),)] = mk("exception", h["v"]["n"])
            c = mk("caught", s["l"], i)
            x.facts = x.facts + (c,)
            eh = []
            if not self.silent:
                self.events = eh
            self.exec(h["body"], x)
            self.events = se
            handlers.append(dict(events=eh, v=h.get("v"), node=h))
            if not x.dead:
                hs.append(x)
        # explicit throws inside the body reach a handler (over-approximated above)
        for k, x, d in mine:
            if k == "throw":
                self.exits.append(("throw", x, d)) if not self._catches(s, d) else None
            else:
                self.exits.append((k, x, d))
        self.emit("try", s, body=eb, handlers=handlers)
        sts = hs + ([st.copy()] if not st.dead else [])
        if not sts:
            st.dead = True
            return
        m = self.merge_list(sts, entry.facts)
        st.become(m)
        st.dead = False

    def readloc_t(self, st, loc):
        v = self.readloc(st, loc)
        return v if isinstance(v, T) else mk("opaque", "ref")

    def _catches(self, s, d):
        for h in s["h"]:
            if not h.get("v"):
                return True
            ht = self.T(h["v"]["t"])["s"].replace("const ", "").replace("&", "").strip()
            tt = d.get("tt", "")
            if ht == tt or ht.endswith("std::exception"):
                return True
        return False

    def s_switch(self, s, st):
        v = self.tval(s["cond"], st)
        body = s["body"]
        stmts = body["c"] if body["k"] == "block" else [body]
        flat = []  # (labels, stmt)
        for x in stmts:
            labels = []
            y = x
            while y is not None and y["k"] in ("case", "default"):
                labels.append(("default",) if y["k"] == "default" else ("case", y["e"]))
                y = y["body"]
            flat.append((labels, y))
        conds = []
        casec = []
        for i, (labels, y) in enumerate(flat):
            for l in labels:
                if l[0] == "case":
                    casec.append(eq(v, self.tval(l[1], st)))
        outs = []
        base = st.facts
        saved = self.exits
        self.exits = []
        branches = []
        hasdef = False
        prev = []
        for i, (labels, y) in enumerate(flat):
            if not labels:
                continue
            cs = []
            for l in labels:
                if l[0] == "default":
                    hasdef = True
                    cs.append(AND(*[NOT(c) for c in casec]))
                else:
                    cs.append(eq(v, self.tval(l[1], st)))
            c = OR(*cs)
            x = st.copy()
            self.assume(x, c)
            se = self.events
            ev = []
            if not self.silent:
                self.events = ev
            for (_, z) in flat[i:]:
                if x.dead:
                    break
                self.exec(z, x)
            self.events = se
            branches.append((c, ev))
            if not x.dead:
                outs.append(x)
        mine = self.exits
        self.exits = saved
        for k, x, d in mine:
            if k == "break":
                outs.append(x)
            else:
                self.exits.append((k, x, d))
        if not hasdef:
            x = st.copy()
            self.assume(x, AND(*[NOT(c) for c in casec]))
            outs.append(x)
        # nested ifs in the event tree
        tree = []
        for c, ev in reversed(branches):
            e = Ev("if", fn=self.fr.fn, node=s, cond=c, then=ev, els=tree)
            tree = [e]
        if not self.silent:
            self.events.extend(tree)
        m = self.merge_list(outs, base)
        if m is None:
            st.dead = True
        else:
            m.facts = base
            st.become(m)

    def s_label(self, s, st):
        raise Unsupported("label")

    def s_goto(self, s, st):
        raise Unsupported("goto")

    def s_case(self, s, st):
        self.exec(s["body"], st)

    def s_default(self, s, st):
        self.exec(s["body"], st)

    def s_sother(self, s, st):
        raise Unsupported("statement " + s.get("ck", "?"))

    # ------------------------------------------------------------------ loops
    def loop(self, node, st, fcond, fbody, finc):
        import loops
        loops.run_loop(self, node, st, fcond, fbody, finc)

    # ------------------------------------------------------------------ expressions
    def eval(self, e, st):
        if e is None:
            return mk("opaque", "none")
        self.steps += 1
        if self.steps > self.maxsteps:
            raise Unsupported("step budget")
        if st.dead:
            return mk("opaque", "dead")
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            return mk("opaque", e["k"])
        old = self.curst
        self.curst = st
        try:
            return m(e, st)
        finally:
            self.curst = old

    def e_lit(self, e, st):
        lk = e["lk"]
        v = e["v"]
        if lk in ("int", "enum"):
            return const(int(v))
        if lk == "bool":
            return TRUE if v == "1" else FALSE
        if lk == "float":
            try:
                return const(Fraction(v))
            except (ValueError, OverflowError):
                return mk("flit", v)
        if lk == "null":
            return mk("null")
        return mk("str", v)

    def e_zero(self, e, st):
        t = self.T(e["t"])
        if t.get("b") in ("int", "float", "enum"):
            return ZERO
        if t.get("b") == "bool":
            return FALSE
        return default_value(t)

    def e_ref(self, e, st):
        dk = e["dk"]
        if dk == "func":
            return FnV(self.p.fns[e["fn"]])
        if dk in ("global", "slocal"):
            g = self.p.gvars[e["g"]]
            if g["q"] in LIBCONST:
                return const(LIBCONST[g["q"]])
            if g["q"].startswith("Eigen::") or g["q"].startswith("std::"):
                return Ref((("G", g["q"]),))
            if (g.get("cx") or g.get("constq")) and g.get("init") and not g.get("static") and "G" not in g:
                loc = (("G", e["g"]),)
                if loc not in st.store:
                    try:
                        return self.eval(g["init"], st)
                    except Unsupported:
                        pass
            return Ref((("G", e["g"]),))
        if dk in ("var", "param"):
            # innermost frame that owns or captures it
            fr = self.fr
            if e["d"] in fr.caps:
                c = fr.caps[e["d"]]
                return c
            loc = (("L", fr.id, e["d"]),)
            v = st.store.get(loc)
            if v is None and not any(k[:1] == loc for k in st.store):
                # captured by a default capture in an enclosing lambda frame
                f = fr
                while f is not None:
                    if e["d"] in f.caps:
                        return f.caps[e["d"]]
                    l2 = (("L", f.id, e["d"]),)
                    if l2 in st.store or any(k[:1] == l2 for k in st.store):
                        loc = l2
                        v = st.store.get(loc)
                        break
                    f = f.parent
            if isinstance(v, Ref):
                return v
            if isinstance(v, (Closure, FnV)):
                return v
            if isinstance(v, T) and v.op == "addr" and self.T(e["t"]).get("ref"):
                return Ref(v.args[0], v.args[1])
            return Ref(loc)
        return mk("opaque", e["n"])

    def e_this(self, e, st):
        fr = self.fr
        while fr is not None and fr.this is None:
            fr = fr.parent
        if fr is None:
            return mk("opaque", "this")
        t = fr.this
        if isinstance(t, Ref):
            return mk("addr", t.loc, t.sels)
        return mk("addr", (("P", self.asT(t, st)),), ())

    def objref(self, e, st, arrow):
        """the object designated by base expression e"""
        if arrow:
            if e["k"] == "this":
                fr = self.fr
                while fr is not None and fr.this is None:
                    fr = fr.parent
                if fr is not None:
                    return fr.this if isinstance(fr.this, Ref) else Ref((("P", self.asT(fr.this, st)),))
            v = self.eval(e, st)
            return self.deref(v, st)
        v = self.eval(e, st)
        return v

    def e_mem(self, e, st):
        b = self.objref(e["c"][0], st, e.get("arrow"))
        if isinstance(b, Ref):
            if e["n"] in ("first", "second") and not (self.isstruct(e["c"][0].get("t", -1))):
                r = Ref(b.loc, b.sels + (("get", 0 if e["n"] == "first" else 1),))
                return r
            r = self.field(b, e["n"])
            if not r.sels:
                v = st.store.get(r.loc)
                if isinstance(v, Ref):
                    return v
                if isinstance(v, (Closure, FnV)):
                    return v
                return self.deref_chain(st, r)
            return self.deref_chain(st, r)
        if isinstance(b, T):
            if e["n"] in ("first", "second"):
                return get(b, 0 if e["n"] == "first" else 1)
            return self.sel(b, ("fld", e["n"]))
        return mk("opaque", e["n"])

    def e_un(self, e, st):
        op = e["op"]
        c = e["c"][0]
        if op == "&":
            v = self.eval(c, st)
            if isinstance(v, Ref):
                return mk("addr", v.loc, v.sels)
            if isinstance(v, FnV):
                return v
            return mk("addrof", self.asT(v, st))
        if op == "*":
            v = self.eval(c, st)
            if isinstance(v, FnV):
                return v
            v2 = self.asT(v, st)
            if v2.op == "iter":
                return self.iter_deref(v2, st)
            return self.deref(v2, st)
        if op in ("++", "--"):
            r = self.eval(c, st)
            if isinstance(r, Ref):
                old = self.asT(r, st)
                nv = itadd(old, ONE if op == "++" else const(-1))
                self.write(st, r, nv, e, op)
                return old if e.get("post") else r
            return mk("opaque", op)
        v = self.tval(c, st)
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return NOT(tobool(v))
        return mk("un" + op, v)

    def isint(self, e):
        return self.T(e.get("t", -1)).get("b") in ("int", "enum", "bool")

    def e_bin(self, e, st):
        op = e["op"]
        l, r = e["c"]
        if op in ("&&", "||"):
            a = self.cond(l, st)
            if st.dead:
                return FALSE
            d = self.decide(st, a)
            if op == "&&" and d is FALSE:
                return FALSE
            if op == "||" and d is TRUE:
                return TRUE
            if d is TRUE or d is FALSE:
                return self.cond(r, st)
            s2 = st.copy()
            self.assume(s2, a if op == "&&" else NOT(a))
            se = self.events
            ev = []
            if not self.silent:
                self.events = ev
            b = self.cond(r, s2)
            self.events = se
            if ev and not self.silent:
                self.emit("if", e, cond=a if op == "&&" else NOT(a), then=ev, els=[])
            if s2.dead:
                self.assume(st, NOT(a) if op == "&&" else a)
                return FALSE if op == "&&" else TRUE
            if s2.store != st.store:
                f = st.facts
                m = self.merge(a if op == "&&" else NOT(a), s2, st)
                m.facts = f
                st.become(m)
            return AND(a, b) if op == "&&" else OR(a, b)
        if op == ",":
            self.eval(l, st)
            return self.eval(r, st)
        a = self.tval(l, st)
        b = self.tval(r, st)
        return self.binop(op, a, b, self.isint(l) and self.isint(r), e)

    def floats(self, e):
        """are the operands of the comparison floating-point numbers?"""
        c = (e or {}).get("c") or []
        return len(c) == 2 and all(self.T(x.get("t", -1)).get("b") == "float" for x in c if x)

    def binop(self, op, a, b, isint, e=None):
        for x, y in ((a, b), (b, a)):
            if x.op == "iter" or y.op == "iter":
                return iter_op(op, a, b)
        if op == "+":
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            if isint:
                if is_num(a) and is_num(b) and b.args[0] != 0:
                    q = abs(a.args[0]) // abs(b.args[0])
                    return const(q if (a.args[0] >= 0) == (b.args[0] >= 0) else -q)
                return mk("idiv", a, b)
            return div(a, b)
        if op == "%":
            if is_num(a) and is_num(b) and b.args[0] != 0:
                q = abs(a.args[0]) % abs(b.args[0])
                return const(q if a.args[0] >= 0 else -q)
            return mk("mod", a, b)
        if op == "<":
            return lt(a, b, isint)
        if op == ">":
            return lt(b, a, isint)
        if op == "<=":
            return le(a, b, isint)
        if op == ">=":
            return le(b, a, isint)
        if op in ("==", "!="):
            r = mk("notnan", a) if a is b and not isint and self.floats(e) and not is_num(a) else eq(a, b)
            return r if op == "==" else NOT(r)
        return mk("bin" + op, a, b)

    def e_asg(self, e, st):
        op = e["op"]
        l, r = e["c"]
        if op == "=":
            v = self.eval(r, st)
            ref = self.eval(l, st)
            if isinstance(ref, Ref):
                if not st.dead:
                    self.write(st, ref, self.rv(v, st), e)
                return ref
            return v
        b = self.tval(r, st)
        ref = self.eval(l, st)
        if isinstance(ref, Ref):
            a = self.asT(ref, st)
            v = self.binop(op[:-1], a, b, self.isint(l) and self.isint(r), e)
            self.write(st, ref, v, e, op)
            return ref
        return mk("opaque", "asg")

    def e_cond(self, e, st):
        c0, a0, b0 = e["c"]
        c = self.cond(c0, st)
        if st.dead:
            return mk("opaque", "dead")
        d = self.decide(st, c)
        if d is TRUE:
            return self.eval(a0, st)
        if d is FALSE:
            return self.eval(b0, st)
        res = {}
        lv = e.get("lv")

        def f(k, x):
            def g(s):
                v = self.eval(x, s)
                if isinstance(v, Ref) and not lv:
                    v = self.asT(v, s)
                res[k] = v
            return g
        dead = {}

        def wrap(k, x):
            g = f(k, x)

            def h(s):
                g(s)
                dead[k] = s.dead
            return h
        self.branch(e, c, st, wrap("a", a0), wrap("b", b0))
        if st.dead:
            return mk("opaque", "dead")
        if dead.get("a"):
            return res["b"]
        if dead.get("b"):
            return res["a"]
        va, vb = res["a"], res["b"]
        if va is vb or va == vb:
            return va
        if isinstance(va, Ref) and isinstance(vb, Ref):
            if lv:
                return self.deref(ite(c, mk("addr", va.loc, va.sels), mk("addr", vb.loc, vb.sels)), st) if False else ite(c, self.asT(va, st), self.asT(vb, st))
        return ite(c, self.asT(va, st), self.asT(vb, st))

    def e_cast(self, e, st):
        ck = e["ck"]
        v = self.eval(e["c"][0], st)
        if ck in ("IntegralToBoolean", "FloatingToBoolean"):
            return tobool(self.asT(v, st))
        if ck in ("PointerToBoolean", "MemberPointerToBoolean"):
            return NOT(eq(self.asT(v, st), mk("null")))
        if ck == "FloatingToIntegral":
            x = self.asT(v, st)
            if is_num(x):
                f = x.args[0]
                return const(int(f))
            if isinttype(x):
                return x
            return mk("trunc", x)
        if ck in ("IntegralCast", "IntegralToFloating", "FloatingCast", "BitCast", "NullToPointer", "ToVoid", "Dependent", "LValueBitCast", "IntegralComplexCast", "BooleanToSignedIntegral"):
            if ck == "ToVoid":
                return mk("opaque", "void")
            if isinstance(v, Ref) and ck in ("BitCast", "LValueBitCast"):
                return v
            x = self.asT(v, st)
            if x in (TRUE, FALSE) and ck != "ToVoid":
                return ONE if x is TRUE else ZERO
            return x
        if ck in ("BaseToDerived", "Dynamic", "NoOp", "LValueToRValue", "DerivedToBase"):
            return v
        return v

    def e_idx(self, e, st):
        b = self.eval(e["c"][0], st)
        i = self.tval(e["c"][1], st)
        if isinstance(b, Ref):
            bt = self.T(e["c"][0].get("t", -1))
            if bt.get("ptr") or bt.get("b") == "ptr":
                p = self.asT(b, st)
                if p.op == "addr":
                    return Ref(p.args[0], p.args[1] + (("at", i),))
                if p.op == "data":
                    return Ref(p.args[0].args[0], p.args[0].args[1] + (("at", i),)) if p.args[0].op == "addr" else at(p.args[0], i)
                if p.op in ("init", "newarr"):
                    return Ref((("P", p),), (("at", i),))
                return Ref((("P", p),), (("at", i),))
            return Ref(b.loc, b.sels + (("at", i),))
        b = self.asT(b, st)
        if b.op == "addr":
            return Ref(b.args[0], b.args[1] + (("at", i),))
        return at(b, i)

    def e_new(self, e, st):
        root = ("N", self.fr.id, id(e))
        self.emit("new", e, arr=bool(e.get("arr")), root=root, size=self.tval(e["size"], st) if e.get("size") else None)
        ref = Ref((root,))
        st.store.pop(ref.loc, None)
        self._clear(st, ref.loc)
        if e.get("init") and not e.get("arr"):
            self.init_loc(st, ref, e["at"], e["init"], e)
        elif not e.get("arr"):
            st.store[ref.loc] = mk("uninit", "new")
        else:
            st.store[ref.loc] = mk("uninit", "new[]")
        return mk("addr", ref.loc, ())

    def e_delete(self, e, st):
        v = self.tval(e["c"][0], st)
        self.emit("delete", e, arr=bool(e.get("arr")), value=v)
        return mk("opaque", "void")

    def e_lambda(self, e, st):
        caps = {}
        this = None
        fr = self.fr
        byval = {}
        for c in e["caps"]:
            if c.get("this"):
                f = fr
                while f is not None and f.this is None:
                    f = f.parent
                this = f.this if f else None
            elif c.get("init"):
                v = self.eval(c["init"], st)
                caps[c["d"]] = self.asT(v, st) if not isinstance(v, (Closure, FnV)) else v
            else:
                ref = self.e_ref({"dk": "var", "d": c["d"], "n": c["n"], "t": -1}, st)
                if c["byref"]:
                    caps[c["d"]] = ref
                else:
                    if isinstance(ref, Ref):
                        v = self.read(st, ref)
                        loc = (("cap", fr.id, id(e), c["d"]),)
                        # captured by value: private copy
                        if isinstance(v, (Closure, FnV)):
                            caps[c["d"]] = v
                        else:
                            self._clear(st, loc)
                            st.store[loc] = v
                            caps[c["d"]] = Ref(loc)
                    else:
                        caps[c["d"]] = ref
        return Closure(self.p.fns[e["fn"]], caps, this, fr.id, e)

    def e_ilist(self, e, st):
        t = self.T(e["t"])
        if t.get("b") in ("int", "float", "bool", "ptr") and len(e["a"]) == 1:
            return self.eval(e["a"][0], st)
        if t.get("b") in ("int", "float") and not e["a"]:
            return ZERO
        if self.isstruct(e["t"]):
            loc = (("tmp", self.fr.id, id(e)),)
            self._clear(st, loc)
            st.store.pop(loc, None)
            self.ilist_into(st, Ref(loc), e["t"], e)
            return Ref(loc)
        return mk("list", *[self.tval(a, st) for a in e["a"] if a is not None])

    def e_throw(self, e, st):
        v = None
        tt = ""
        if e.get("c"):
            v = self.eval(e["c"][0], st)
            tt = self.T(e["c"][0].get("t", -1))["s"].replace("const ", "").strip()
        self.emit("throw", e, value=self.asT(v, st) if v is not None else None, type=tt)
        d = dict(e)
        d["tt"] = tt
        self.exits.append(("throw", st.copy(), d))
        st.dead = True
        return mk("opaque", "throw")

    def e_sizeof(self, e, st):
        if "v" in e:
            return const(int(e["v"]))
        return mk("sizeof", e.get("at", -1))

    def e_stmtexpr(self, e, st):
        self.exec(e["body"], st)
        return mk("opaque", "void")

    def e_other(self, e, st):
        vs = [self.tval(c, st) for c in e.get("c", ())]
        if len(vs) == 1 and e.get("ck") in ("CXXRewrittenBinaryOperator", "OpaqueValueExpr", "SubstNonTypeTemplateParmPackExpr"):
            return vs[0]
        return mk("opaque", e.get("ck", "?"), *vs)

    # ------------------------------------------------------------------ calls
    def e_ctor(self, e, st):
        fn = self.p.fns[e["fn"]]
        t = self.T(e["t"])
        if self.isstruct(e["t"]):
            if (e.get("copy") or e.get("move")) and e["a"] and (fn.get("implicit") or fn.get("defaulted") or not fn.get("body")):
                v = self.eval(e["a"][0], st)
                if e.get("move") or True:
                    if isinstance(v, Ref):
                        loc = (("tmp", self.fr.id, id(e)),)
                        self.silent += 1
                        try:
                            self.copystruct(st, Ref(loc), v)
                        finally:
                            self.silent -= 1
                        return Ref(loc)
                return v
            loc = (("tmp", self.fr.id, id(e)),)
            self._clear(st, loc)
            st.store.pop(loc, None)
            self.construct_into(Ref(loc), e, st)
            if loc not in st.store and not any(k[:1] == loc for k in st.store):
                st.store[loc] = mk("obj", t.get("rec", "?"))
            return Ref(loc)
        if t.get("b") == "rec" and self.p.classes[t["rid"]].get("lam"):
            return self.eval(e["a"][0], st) if e["a"] else mk("opaque", "lambda")
        import models
        args = [self.eval(a, st) for a in e["a"]]
        if st.dead:
            return mk("opaque", "dead")
        return models.construct(self, fn, t, args, e, st)

    def e_call(self, e, st):
        self.ncalls += 1
        if "fn" not in e:
            cal = self.eval(e["callee"], st) if e.get("callee") else mk("opaque", "callee")
            args = [self.eval(a, st) for a in e["a"]]
            if isinstance(cal, Ref):
                cal = self.read(st, cal)
            if isinstance(cal, FnV):
                return self.invoke(cal.fn, None, args, e, st)
            if isinstance(cal, Closure):
                return self.invoke_callable(cal, args, e, st)
            ts = tuple(self.asT(a, st) for a in args)
            r = mk("app", self.asT(cal, st), *ts)
            self.emit("ext", e, callee=None, q="(indirect)", obj=self.asT(cal, st), args=ts, argv=args, result=r)
            return r
        fn = self.p.fns[e["fn"]]
        obj = None
        if e.get("m") and "obj" in e:
            if e.get("arrow"):
                obj = self.objref(e["obj"], st, True)
            else:
                obj = self.eval(e["obj"], st)
        # evaluation order: arguments
        args = []
        for a in e["a"]:
            args.append(self.eval(a, st))
            if st.dead:
                return mk("opaque", "dead")
        return self.invoke(fn, obj, args, e, st)

    def invoke(self, fn, obj, args, e, st):
        if st.dead:
            return mk("opaque", "dead")
        if self.hook:
            r = self.hook(self, fn, obj, args, e, st)
            if r is not None:
                return r
        if fn.get("noret"):
            # assertion failure / abort: this path is assumed away
            self.emit("dead", e)
            st.dead = True
            return mk("opaque", "noreturn")
        q = fn["q"]
        if q.startswith("Params::") or "::defaults::" in q and "cls" in fn and fn.get("sm"):
            if not args:
                return mk("cfg", q)
            return mk("cfg", q, *[self.asT(a, st) for a in args])
        if isinstance(obj, Closure) and fn.get("lam"):
            return self.invoke_callable(obj, args, e, st, fn)
        if isinstance(obj, Ref) and fn.get("lam"):
            o = self.read(st, obj)
            if isinstance(o, Closure):
                return self.invoke_callable(o, args, e, st, fn)
        if fn.get("lam") and isinstance(obj, T) and fn.get("repo"):
            # unknown closure value: its captures are unknown
            pass
        elif fn.get("repo") and fn.get("body") is not None and not self.opaque(fn):
            if fn.get("defaulted") and (fn.get("casg") or fn.get("masg")):
                return self.assign_struct(obj, args[0], e, st)
            if not (fn.get("implicit") and (fn.get("casg") or fn.get("masg"))):
                if not self.deep(fn, st):
                    if obj is not None and not isinstance(obj, Ref):
                        loc = (("tmp", self.fr.id, ("o", id(e))),)
                        st.store[loc] = self.asT(obj, st)
                        obj = Ref(loc)
                    if fn.get("sm") or "cls" not in fn:
                        obj = None
                    elif isinstance(obj, Ref):
                        obj = self.deref_chain(st, obj)
                    return self.inline(fn, obj, args, st, e)
        if (fn.get("casg") or fn.get("masg")) and isinstance(obj, Ref) and self.isstruct_cls(fn):
            return self.assign_struct(obj, args[0], e, st)
        import models
        return models.call(self, fn, obj, args, e, st)

    def deep(self, fn, st):
        """is this call of a recursive function left unanalysed?  If so the ghost logs no longer tell everything that happened."""
        if sum(1 for f in self.frames if f.fn["id"] == fn["id"]) < self.MAXREC:
            return False
        for loc in [l for l in st.store if len(l) == 1 and isinstance(l[0], tuple) and l[0][0] == "G"]:
            self.record_write(loc)
            st.store[loc] = mk("opaque", "recursion")
        return True

    def isstruct_cls(self, fn):
        c = self.p.classes[fn["cls"]]
        return bool(c.get("repo")) and not c.get("lam")

    def assign_struct(self, obj, a, e, st):
        if isinstance(a, Ref):
            self.copystruct(st, obj, a, e, "assign")
        else:
            self.write(st, obj, self.asT(a, st), e, "assign")
        return obj

    def invoke_callable(self, f, args, e, st, fn=None):
        """call a value: closure, function, functor object (Ref to struct) or unknown"""
        if isinstance(f, Ref):
            v = st.store.get(f.loc) if not f.sels else None
            if isinstance(v, (Closure, FnV)):
                f = v
            elif isinstance(v, Ref):
                if len(v.loc) == 1 and not v.sels and self.loc_class(v) is None:
                    cid = self.loc_class(f)
                    if cid is not None:   # a reference to an object of a declared class
                        self.rootcls[v.loc[0]] = cid
                return self.invoke_callable(v, args, e, st, fn)
        if isinstance(f, FnV):
            return self.invoke(f.fn, None, args, e, st)
        if isinstance(f, Closure):
            g = f.fn
            if fn is not None and fn.get("body") is not None:
                g = fn
            if g.get("body") is None:
                # generic lambda: pick the instantiation whose parameters match
                cands = [x for x in self.p.fns if x.get("lam") and x.get("body") is not None and x.get("f") == g.get("f") and x.get("l") == g.get("l")]
                if not cands:
                    return mk("app", mk("closure", f.fn["id"], f.frame), *[self.asT(a, st) for a in args])
                g = cands[0]
            if self.deep(g, st):
                return mk("app", mk("closure", g["id"], f.frame), *[self.asT(a, st) for a in args])
            return self.inline_closure(g, f, args, e, st)
        if isinstance(f, Ref):
            # functor object: find operator()
            ti = None
            return self.call_functor(f, args, e, st)
        if isinstance(f, T) and f.op == "init" and self.loc_class(Ref(f.args[0])) is not None:
            return self.call_functor(Ref(f.args[0]), args, e, st)
        ts = tuple(self.asT(a, st) for a in args)
        r = mk("app", self.asT(f, st), *ts)
        self.emit("ext", e, callee=None, q="(indirect)", obj=self.asT(f, st), args=ts, argv=args, result=r)
        return r

    def inline_closure(self, g, clo, args, e, st):
        return self.inline(g, clo.this, args, st, e, caps=clo.caps)

    def call_functor(self, f, args, e, st, fnhint=None):
        v = self.read(st, f)
        if isinstance(v, (Closure, FnV)):
            return self.invoke_callable(v, args, e, st)
        ti = getattr(self, "_functor_type", None)
        if fnhint is not None:
            return self.invoke(fnhint, f, args, e, st)
        cid = self.loc_class(f)
        if cid is None and isinstance(v, T) and v.op == "init":   # a copy of an object known by its declaration
            cid = self.loc_class(Ref(v.args[0]))
            f = Ref(v.args[0]) if cid is not None else f
        if cid is not None:
            ops = [m for m in self.p.methods(cid, "operator()") if len(m["p"]) == len(args)]
            if len(ops) == 1 and not self.deep(ops[0], st):
                return self.invoke(ops[0], f, args, e, st)
        ts = tuple(self.asT(a, st) for a in args)
        r = mk("app", self.asT(v, st), *ts)
        self.emit("ext", e, callee=None, q="(functor)", obj=self.asT(v, st), args=ts, argv=args, result=r)
        return r

    def loc_class(self, ref):
        """class of the object at a location, when it can be read off a declaration"""
        if ref.sels:
            return None
        root, cid = ref.loc[0], None
        cid = self.rootcls.get(root)
        if cid is not None:
            pass
        elif isinstance(root, tuple) and root[0] == "arg" and self.frames and root[1] < len(self.frames[0].fn["p"]):
            cid = self.T(self.frames[0].fn["p"][root[1]]["t"]).get("rid")
        elif isinstance(root, tuple) and root[0] == "L":
            for fr in self.frames:
                if fr.id == root[1]:
                    for p in fr.fn["p"]:
                        if p.get("id") == root[2]:
                            cid = self.T(p["t"]).get("rid")
        for n in ref.loc[1:]:
            if cid is None:
                return None
            fl = [x for x in self.p.all_fields(cid) if x["n"] == n]
            cid = self.T(fl[0]["t"]).get("rid") if fl else None
        return cid

    def iter_deref(self, it, st):
        c, pos = it.args[0], it.args[1]
        if c.op == "addr":
            return self.deref_chain(st, Ref(c.args[0], c.args[1] + (("at", pos),)))
        return at(c, pos)


# ---------------------------------------------------------------------- value helpers
def nonneg_int(x):
    return x.op in ("size", "rows", "cols") or (x.op == "idx" and False)


def isinttype(x):
    return x.op in ("size", "rows", "cols", "trunc", "idx") or (x.op == "floor")


def tobool(c):
    if c.op == "c" and not isinstance(c.args[0], bool):
        try:
            return TRUE if c.args[0] != 0 else FALSE
        except Exception:
            return c
    return c


def default_value(t):
    s = t.get("s", "")
    r = t.get("rec", "")
    if r.startswith("std::vector") or r.startswith("std::deque") or r.startswith("std::list") or r == "tbb::concurrent_vector" or "concurrent_vector" in r:
        return mk("empty")
    if r.startswith("Eigen::"):
        return mk("emat")
    if r.startswith("std::basic_string"):
        return mk("str", "")
    return mk("obj", r or s)


SHAPE = {}  # loop-carried container -> container of the same shape (only elements change)


def size(t):
    o = t.op
    if o == "mu" and t in SHAPE:
        return size(SHAPE[t])
    if o == "empty":
        return ZERO
    if o == "emat":
        return ZERO
    if o == "push":
        return add(size(t.args[0]), ONE)
    if o == "list":
        return const(len(t.args))
    if o == "upd":
        return size(t.args[0])
    if o in ("mapupd", "sorted", "permuted"):
        return size(t.args[0])
    if o == "vecn":
        return t.args[0]
    if o == "resized":
        return t.args[1]
    if o == "appendmap":  # base, idx, body
        i = t.args[1]
        return add(size(t.args[0]), sub(i.args[2], i.args[1]))
    if o == "ite":
        a, b = size(t.args[1]), size(t.args[2])
        return ite(t.args[0], a, b)
    if o in ("vscale", "vmap", "lincomb"):
        pass
    if o == "sizedvec":
        return t.args[0]
    if o == "init" or True:
        return mk("size", t)


def differ(i, j):
    """provably different indices"""
    d = sub(i, j)
    return is_num(d) and d.args[0] != 0


def at(t, *idx):
    o = t.op
    if len(idx) == 1:
        i = idx[0]
        if o == "push":
            n = size(t.args[0])
            if n is i:
                return t.args[1]
            d = sub(n, i)
            if is_num(d) and d.args[0] > 0:
                return at(t.args[0], i)
        if o == "list" and is_num(i):
            k = int(i.args[0])
            if 0 <= k < len(t.args):
                return t.args[k]
        if o == "vecn" and len(t.args) > 1:
            return t.args[1]
    if o == "upd":
        path, v = t.args[1], t.args[2]
        s = path[0]
        if s[0] == "at" and len(s) == len(idx) + 1:
            if s[1:] == idx:
                return v
            if any(differ(a, b) for a, b in zip(s[1:], idx)):
                return at(t.args[0], *idx)
    if o == "ite":
        return ite(t.args[0], at(t.args[1], *idx), at(t.args[2], *idx))
    if o == "mapupd":
        r = at_mapupd(t, idx)
        if r is not None:
            return r
    if o == "appendmap" and len(idx) == 1:
        base, i, body = t.args
        n = size(base)
        k = sub(idx[0], n)
        trip = sub(i.args[2], i.args[1])
        if inrange(k, ZERO, trip):
            return subst(body, {i: add(k, i.args[1])})
        d = sub(n, idx[0])
        if is_num(d) and d.args[0] > 0:
            return at(base, *idx)
    if o in ("ewise",):
        pass
    return mk("at", t, *idx)


def inrange(k, lo, hi):
    """lo <= k < hi, decided from the index symbol's own range or constants"""
    if k.op == "idx":
        jlo, jhi = k.args[1], k.args[2]
        a, b = sub(jlo, lo), sub(hi, jhi)
        if is_num(a) and is_num(b) and a.args[0] >= 0 and b.args[0] >= 0:
            return True
    if le(lo, k, True) is TRUE and lt(k, hi, True) is TRUE:
        return True
    c, d = as_lin(k)
    ids = [(x, v) for x, v in d.items() if x.op == "idx"]
    if len(ids) == 1 and ids[0][1] == 1:
        x = ids[0][0]
        off = sub(k, x)
        a, b = sub(add(x.args[1], off), lo), sub(hi, add(x.args[2], off))
        if is_num(a) and is_num(b) and a.args[0] >= 0 and b.args[0] >= 0:
            return True
    return False


def at_mapupd(t, idx):
    base, _, ws = t.args
    for idxs, path, v in reversed(ws):
        if not path or path[0][0] != "at" or len(path[0]) != len(idx) + 1:
            return None
        sub_ = {}
        ok = True
        miss = False
        for p, j in zip(path[0][1:], idx):
            if p in idxs:
                if p in sub_ and sub_[p] is not j:
                    ok = False
                    break
                lo, hi = subst(p.args[1], sub_), subst(p.args[2], sub_)
                if not inrange(j, lo, hi):
                    if lt(j, lo, True) is TRUE or le(hi, j, True) is TRUE:
                        miss = True
                        break
                    ok = False
                    break
                sub_[p] = j
            elif p is j:
                continue
            elif differ(p, j):
                miss = True
                break
            else:
                ok = False
                break
        if miss:
            continue
        if not ok or len(sub_) != len(idxs):
            return None
        if len(path) > 1:
            import loops
            return loops.upd_path(at(base, *idx), tuple(tuple(subst(q, sub_) if isinstance(q, T) else q for q in s) for s in path[1:]), subst(v, sub_))
        return subst(v, sub_)
    return at(base, *idx)


def rows(t):
    o = t.op
    if o == "mu" and t in SHAPE:
        return rows(SHAPE[t])
    if o in ("upd", "mapupd"):
        return rows(t.args[0])
    if o in ("resized2", "reshaped"):
        return t.args[1]
    if o == "ite":
        return ite(t.args[0], rows(t.args[1]), rows(t.args[2]))
    if o == "resized":
        return t.args[1]
    return mk("rows", t)


def cols(t):
    o = t.op
    if o == "mu" and t in SHAPE:
        return cols(SHAPE[t])
    if o in ("upd", "mapupd"):
        return cols(t.args[0])
    if o in ("resized2", "reshaped"):
        return t.args[2]
    if o == "ite":
        return ite(t.args[0], cols(t.args[1]), cols(t.args[2]))
    return mk("cols", t)


def get(t, k):
    if t.op == "tuple" and k < len(t.args):
        return t.args[k]
    if t.op == "ite":
        return ite(t.args[0], get(t.args[1], k), get(t.args[2], k))
    if t.op == "upd":
        s = t.args[1][0]
        if s[0] == "get":
            if s[1] == k:
                if len(t.args[1]) == 1:
                    return t.args[2]
            else:
                return get(t.args[0], k)
    return mk("get", t, k)


def itadd(a, k):
    if a.op == "iter":
        return mk("iter", a.args[0], add(a.args[1], k))
    if a.op == "ite":
        return ite(a.args[0], itadd(a.args[1], k), itadd(a.args[2], k))
    if a.op == "addr" and False:
        return a
    return add(a, k)


def iter_op(op, a, b):
    if a.op == "iter" and b.op == "iter":
        if a.args[0] is b.args[0]:
            x, y = a.args[1], b.args[1]
            if op == "-":
                return sub(x, y)
            if op == "==":
                return eq(x, y)
            if op == "!=":
                return NOT(eq(x, y))
            if op == "<":
                return lt(x, y, True)
            if op == ">":
                return lt(y, x, True)
            if op == "<=":
                return le(x, y, True)
            if op == ">=":
                return le(y, x, True)
        return mk("iterop" + op, a, b)
    if a.op == "iter" and op in ("+", "-"):
        return itadd(a, b if op == "+" else neg(b))
    if b.op == "iter" and op == "+":
        return itadd(b, a)
    return mk("iterop" + op, a, b)


REBUILD["at"] = lambda t, *i: at(t, *i)
REBUILD["size"] = lambda t: size(t)
REBUILD["get"] = lambda t, k: get(t, k)
REBUILD["rows"] = lambda t: rows(t)
REBUILD["cols"] = lambda t: cols(t)
