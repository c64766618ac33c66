"""Saved models load back to the same model."""
from gpbase import *
import p06

EXPLANATION = """save() and load() of every model instantiation are analysed as one composition over an abstract archive: each archive.save(value, name)
stores the value's term under the archive directory and name, each archive.load(object, name) writes the term stored under that key into the object; the
archives' own encodings are the subject of another property. The loaded model - started from nothing, or from a model that
already holds other data, other hyper-parameters and a computed inverse kernel - must equal the saved one in every observable."""
EXPECT = {"load-restores": 300, "names": 20, "loads-what-was-saved": 20}
ASSUMPTIONS = ["an archive returns the value stored under a name (decided separately for the two archives)", "decided over the reals"]
S2, O2, KP2, MP2 = (mk("sym", n) for n in ("S2", "O2", "kp2", "mp2"))


def is_archive(fn):
    return fn["q"].startswith("limbo::serialize::") and "cls" in fn


class Store:
    def __init__(self):
        self.m = []  # (key term, value term, facts, line)
        self.missing = []
        self.dup = []

    def hook(self, I, fn, obj, args, e, st):
        if not is_archive(fn) or fn["n"] not in ("save", "load"):
            return None
        d = I.asT(I.inline_dir(obj, st), st) if False else self.dirof(I, obj, st)
        name = I.asT(args[1], st)
        key = mk("pair", d, name)
        if I.silent:
            if fn["n"] == "load":
                v = self.find(key)
                if v is not None:
                    I.write(st, args[0], v, e, "load")
                else:
                    I.write(st, args[0], mk("opaque", "unsaved"), e, "load")
            return mk("opaque", "void")
        if fn["n"] == "save":
            for k, v, f, l in self.m:
                if k is key:
                    self.dup.append((key, e.get("l")))
            self.m.append((key, I.asT(args[0], st), st.facts, e.get("l")))
        else:
            v = self.find(key)
            if v is None:
                self.missing.append((key, e.get("l"), I.fr.fn))
                v = mk("opaque", "unsaved")
            I.write(st, args[0], v, e, "load")
        return mk("opaque", "void")

    def dirof(self, I, obj, st):
        if isinstance(obj, Ref):
            r = I.deref_chain(st, obj)
            return I.asT(I.read(st, Ref(r.loc + ("_dir_name",))), st) if self.hasdir(I) else I.asT(r, st)
        return obj

    def hasdir(self, I):
        return True

    def find(self, key):
        from terms import subst
        for k, v, f, l in reversed(self.m):
            if k is key:
                return v
        ix = [t for t in freeidx(key)]
        for k, v, f, l in reversed(self.m):
            fi = freeidx(k)
            if len(fi) == len(ix) and fi:
                m = dict(zip(fi, ix))
                if subst(k, m) is key:
                    return subst(v, m)
        return None


def freeidx(t, acc=None, seen=None):
    acc = [] if acc is None else acc
    seen = set() if seen is None else seen
    if isinstance(t, T):
        if t.id in seen:
            return acc
        seen.add(t.id)
        if t.op == "idx":
            acc.append(t)
            return acc
        for a in t.args:
            freeidx(a, acc, seen)
    elif isinstance(t, tuple):
        for a in t:
            freeidx(a, acc, seen)
    return acc


def run(ctx):
    ctx.rule("load-restores", "after load every observable equals that of the saved model, whatever the loading model held before")
    ctx.rule("loads-what-was-saved", "every object load reads was written by save under the same name")
    ctx.rule("names", "no two objects of one model are saved under the same name")
    P = ctx.prog("core")
    ctx.pmap(one, [(c, rc, pre, arch) for c in gps(P) for rc in (True, False) for pre in ("empty", "used") for arch in ("TextArchive", "BinaryArchive")])


def pick(P, c, name, arch, n):
    ms = [m for m in P.methods(c, name) if m.get("body") and len(m["p"]) == n and arch in P.typ(m["p"][0]["t"])["s"]]
    if not ms:
        raise LookupError("%s(%s) not instantiated" % (name, arch))
    return ms[0]


def one(ctx, item):
    c, rc, pre, arch = item
    P = ctx.prog("core")
    tr = 8 if ctx.tier == "quick" else 30
    w = "%s, recompute=%s, into a model that is %s" % (arch, rc, pre)

    def body():
        sv, ld = pick(P, c, "save", arch, 1), pick(P, c, "load", arch, 2)
        wh = "%s (save) / %s (load) %s" % (P.where(sv), P.where(ld), short_ta(P, c))
        store = Store()
        a = GPS(P, c)
        extra = {S2: ("list", "vec"), O2: ("list", "vec"), KP2: "vec", MP2: "vec"}
        a.kinds.update(extra)
        a0 = a.assign
        a.assign = lambda seed: {**a0(seed), S2: rlist(rng(seed, "s2"), 3, 2), O2: rlist(rng(seed, "o2"), 3, 2)}
        a.ctor()
        a.call("compute", S, O, TRUE)
        a.set_kernel()
        a.set_mean()
        a.call("recompute", TRUE, TRUE)
        AR = Ref(("archive",))
        a.I.hook = store.hook
        a.runfn(sv, [AR])
        a.I.hook = None
        da = p06.observe(a)
        b = GPS(P, c)
        b.kinds, b.sizes = a.kinds, a.sizes
        b.ctor()
        if pre == "used":
            b.call("compute", S2, O2, TRUE)
            b.set_kernel(KP2)
            b.set_mean(MP2)
            b.call("recompute", TRUE, TRUE)
            b.call("compute_inv_kernel")
            b.call("compute_log_lik")
        b.I.hook = store.hook
        b.runfn(ld, [AR, TRUE if rc else FALSE])
        b.I.hook = None
        ctx.analysed |= a.analysed | b.analysed
        if store.dup:
            ctx.bad("names", wh, "saved twice under one name: %s (line %s)" % (show(store.dup[0][0], 8), store.dup[0][1]), "names:GP")
        else:
            ctx.ok("names", wh, "%d objects saved under distinct names (%s)" % (len(store.m), w))
        if store.missing:
            k, l, fn = store.missing[0]
            ctx.bad("loads-what-was-saved", "%s:%s" % (P.rel(fn), l), "load reads %s, which save never writes" % show(k, 8), "loads-what-was-saved:GP")
            return
        ctx.ok("loads-what-was-saved", wh, w)
        db = p06.observe(b)
        hp = [("kernel parameters", a.I.asT(a.sub(a.kernel(), "h_params"), a.st), b.I.asT(b.sub(b.kernel(), "h_params"), b.st)),
              ("mean parameters", a.I.asT(a.sub(a.mean(), "h_params"), a.st), b.I.asT(b.sub(b.mean(), "h_params"), b.st))]
        e = a.env(b)
        nz = mk("cfg", "Params::kernel::optimize_noise")
        for n in list(da) + hp:
            n, x, y = (n, da[n], db[n]) if isinstance(n, str) else n
            attempt(ctx, "load-restores", wh, lambda: eq(ctx, "load-restores", wh + " -> " + n, x, y, e, w, trials=tr, key="load-restores:GP:%s:%s" % (n, rc)))
        # further use of the loaded model
        a.call("add_sample", S1, O1)
        b.call("add_sample", S1, O1)
        da, db = p06.observe(a), p06.observe(b)
        for n in da:
            attempt(ctx, "load-restores", wh, lambda: eq(ctx, "load-restores", wh + " -> " + n + " after a further sample", da[n], db[n], e, w, trials=tr, key="load-restores:GP:%s:%s" % (n, rc)))
    attempt(ctx, "load-restores", "%s %s" % (short_ta(P, c), arch), body)
