"""Concurrent iterations of the library's parallel regions never conflict."""
from base import *
from ir import walk
import os

EXPLANATION = """Every function instance of the library that starts a parallel region (a loop, for_each, max, sort or replicate of tools/parallel.hpp in the
TBB build) is analysed with everything it calls inlined, as are the parallel optimizer on the library's own objectives. While the body of a region is
interpreted, every read and write of memory is recorded with its access path, the path condition and the mutexes held. Two accesses of two
iterations conflict when they can name the same object, one writes and no mutex is common; an object is private to an iteration when it is a
variable of a function entered in the body or thread-local."""
EXPECT = {"no-conflict": 20}
ASSUMPTIONS = ["the user's own functors are safe to call concurrently", "distinct elements of a vector or matrix are distinct objects", "a container read as a whole is attributed to the elements actually used"]
PRIVATE = ("L", "ret", "tmp", "cap")


def run(ctx):
    ctx.rule("no-conflict", "no two iterations of a parallel region access the same object, one of them writing, without a common mutex")
    ctx.need("coreT", "expT")
    items = []
    for u in ("coreT", "expT"):
        P = ctx.prog(u)
        seen = set()
        for f in P.fns:
            if not f.get("body") or f["id"] in seen:
                continue
            if f["n"].startswith("par_") and f["n"] in ("par_acqui", "par_cacqui", "par_hp"):
                items.append((u, f["id"]))
                seen.add(f["id"])
            elif f.get("repo") and "ParallelRepeater" not in f["q"] and "tools::par::" not in f["q"] and direct(P, f):
                items.append((u, f["id"]))
                seen.add(f["id"])
    ctx.pmap(one, items)


def direct(P, f):
    for x in walk(f["body"]):
        if isinstance(x, dict) and "fn" in x and x.get("k") in ("call", "mcall"):
            q = P.fns[x["fn"]]["q"]
            if q.startswith("limbo::tools::par::") and q.rsplit("::", 1)[1].split("<")[0] in ("loop", "for_each", "max", "sort", "replicate"):
                return True
    return False


def peek(I, st, ref):
    I.quiet += 1
    try:
        return I.read(st, ref)
    finally:
        I.quiet -= 1


class Acc:
    __slots__ = ("kind", "path", "locks", "reg", "node", "fn", "facts", "value")

    def __init__(self, *a):
        self.kind, self.path, self.locks, self.reg, self.node, self.fn, self.facts, self.value = a


def one(ctx, item):
    u, fid = item
    P = ctx.prog(u)
    f = P.fns[fid]
    cls = P.classes[f["cls"]] if "cls" in f else None
    name = (short_ta(P, f["cls"]) if cls else "") + "::" + f["n"] + ("(%s)" % ", ".join(re.sub(r"limbo::|<Params>|const | &", "", P.typ(p["t"])["s"])[:60] for p in f["p"]) if not cls else "")
    wh = "%s %s%s" % (P.where(f), cls["q"].replace("limbo::", "") if cls else "", name)

    def body():
        accs, regs = [], []
        I = Interp(P)

        def on(kind, ref, st, I, node=None, value=None):
            for r in I.par:
                root = ref.loc[0]
                if isinstance(root, tuple) and root[0] in PRIVATE and root[1] in r.inside:
                    continue
                if isinstance(root, tuple) and root[0] == "G" and (not isinstance(root[1], int) or P.gvars[root[1]].get("tls")):
                    continue
                if synchronised(P, I, ref):
                    continue
                path = tuple(("fld", x) for x in ref.loc[1:]) + tuple(s for s in ref.sels if s[0] != "view")
                if kind == "r":
                    value = peek(I, st, ref)
                accs.append(Acc(kind, (root,) + path, frozenset(I.locks), r, node, I.fr.fn, st.facts, value))
                if r not in regs:
                    regs.append(r)
        I.on_access = on
        this = Ref(("obj",)) if cls else None
        if cls:
            I.rootcls["obj"] = f["cls"]
        I.run(f, this, [mk("sym", p["n"]) if arg_value(P, p) else Ref((("arg", i),)) for i, p in enumerate(f["p"])], State())
        ctx.analysed |= I.inlined
        n, unsure = 0, None
        for r in regs:
            a = [x for x in accs if x.reg is r]
            ws = [x for x in a if x.kind == "w"]
            n += len(a)
            done = set()
            for w in ws:
                for o in a:
                    k = (w.path, o.path, o.kind)
                    if k in done or o.path[0] != w.path[0] or w.locks & o.locks:
                        continue
                    done.add(k)
                    c = conflict(w, o, r)
                    line = (w.node or {}).get("l") or w.fn.get("l")
                    if c:
                        at = "%s:%s" % (P.rel(w.fn), line)
                        ctx.bad("no-conflict", at, "iterations of the parallel region in %s conflict on %s: written here, %s in %s" % (
                            wh, pname(P, w.path), "also written" if o.kind == "w" else "read", o.fn["n"] or "the loop body"), key="no-conflict:%s:%s" % (P.rel(w.fn), pname(P, w.path)))
                        return
                    if c is None:
                        dbg = (w.path, o.path)
                        unsure = "%s at line %s" % (pname(P, w.path), line)
        ctx.count("accesses", n)
        if unsure:
            ctx.undecided("no-conflict", wh, "index not recognised: " + unsure)
        elif not regs and f["n"] not in ("par_hp", "par_acqui", "par_cacqui"):
            ctx.ok("no-conflict", wh, "no shared access in a parallel region")
        else:
            ctx.ok("no-conflict", wh, "%d accesses to shared objects in %d regions, none conflicting" % (n, len(regs)))
    attempt(ctx, "no-conflict", wh, body)


def arg_value(P, p):
    t = P.typ(p["t"])
    return not (t.get("ref") or t.get("ptr")) and not (t.get("b") == "rec" and P.classes[t["rid"]].get("repo"))


def synchronised(P, I, ref):
    c = I.loc_class(Ref(ref.loc)) if not ref.sels else None
    q = P.classes[c]["q"] if c is not None else ""
    return "mutex" in q or "atomic" in q or "concurrent_vector" in q


def pname(P, path):
    r = path[0]
    s = str(r[1]) if isinstance(r, tuple) and r[0] in ("G",) and not isinstance(r[1], int) else P.gvars[r[1]]["q"] if isinstance(r, tuple) and r[0] == "G" else ""
    for x in path[1:]:
        s += "." + x[1] if x[0] == "fld" else "[%s]" % ",".join("i" if isinstance(y, T) and y.op == "idx" else "." for y in x[1:])
    return s.lstrip(".") or "a captured variable"


def mentions_reg(t, r, seen=None):
    from terms import subterms
    if not isinstance(t, T):
        return False
    for x in subterms(t):
        if x is r.idx:
            return True
        if isinstance(r.idx, tuple) and (x is r.idx[0] or x is r.idx[1] or x.op == "idx" and len(x.args) > 2 and x.args[1] is r.idx[0]):
            return True
    return False


def own(t, r):
    """offset c when the term is the region's index plus a constant"""
    from terms import as_lin, sub, is_num
    ix = r.idx
    if isinstance(ix, tuple):
        from terms import subterms
        c = [x for x in subterms(t) if x.op == "idx" and len(x.args) > 2 and x.args[1] is ix[0] and x.args[2] is ix[1]]
        if len(c) != 1:
            return None
        ix = c[0]
    d = sub(t, ix)
    return d.args[0] if is_num(d) else None


def ordered(t, acc, r):
    """the path condition orders this index with respect to the region's"""
    from terms import subterms
    ix = [x for x in subterms(t) if x.op == "idx"]
    return any(c.op in ("lt", "le", "ipos", "pos") and mentions_reg(c, r) and any(x in ix for x in subterms(c)) for f in acc.facts for c in subterms(f))


def conflict(w, o, r):
    """True: the same object in two iterations; False: never; None: not known"""
    unsure = False
    for x, y in zip(w.path[1:], o.path[1:]):
        if x[0] != y[0]:
            return None
        if x[0] in ("fld", "get"):
            if x[1] != y[1]:
                return False
            continue
        apart = False
        for p, q in zip(x[1:], y[1:]):
            if not isinstance(p, T) or not isinstance(q, T):
                if p != q:
                    apart = True
                continue
            a, b = own(p, r), own(q, r)
            if a is not None and b is not None:
                if a == b:
                    apart = True     # another iteration has another index
            elif p.op == "c" and q.op == "c":
                if p.args != q.args:
                    apart = True
            elif mentions_reg(p, r) and a is None or mentions_reg(q, r) and b is None:
                unsure = True
            elif a is None and ordered(p, w, r) or b is None and ordered(q, o, r):
                unsure = True
        if apart:
            return False
    if any(own(y, r) is not None for x in (w, o) for c in x.facts if c.op == "eq" for y in c.args if isinstance(y, T)):
        return None     # one particular iteration
    if unsure:
        return None
    if o.kind == "r" and isinstance(w.value, T) and w.value is o.value and w.path[-1][0] == "fld":
        return False    # where the two are the same object, it is assigned to itself
    if o.kind == "r" and len(o.path) < len(w.path):
        return False    # the whole is read to use parts of it (assumption)
    return True
