"""Helpers shared by the checks."""
import random
import re
import traceback

import numpy as np

import fp
import interp
from interp import Interp, Ref, State, Unsupported
from terms import FALSE, ONE, T, TRUE, ZERO, const, mk, show

KCFG = mk("cfg", "Params::kernel_squared_exp_ard::k")


def short_ta(P, cid):
    ta = P.classes[cid].get("ta") or []
    return "<" + ", ".join(re.sub(r"limbo::|<Params>|Params, |, Params", "", t) for t in ta if t != "Params")[:90] + ">"


def classes(P, q):
    """class ids of the instantiations of template/class q"""
    return [i for i, c in enumerate(P.classes) if c["q"] == q]


def has_body(P, cid, name):
    return any(m.get("body") for m in P.methods(cid, name))


class Session:
    """a composition of API calls on one object, as value-graph terms"""

    def __init__(self, P, cid, root="obj", kinds=None, assign=None, shape=None, **kw):
        self.P, self.cid, self.root = P, cid, root
        self.I = Interp(P, **kw)
        self.st = State()
        self.this = Ref((root,))
        self.kinds = dict(kinds or {})
        self.assign = assign
        self.shape = shape
        self.events = []
        self.analysed = set()

    def method(self, name, n=None, pred=None):
        ms = [m for m in self.P.methods(self.cid, name) if m.get("body")]
        if n is not None:
            ms = [m for m in ms if len(m["p"]) == n]
        if pred:
            ms = [m for m in ms if pred(m)]
        if not ms:
            raise LookupError("%s has no analysable method %s/%s" % (self.P.classes[self.cid]["q"], name, n))
        return ms[0]

    def ctor(self, *args, n=None):
        nm = self.P.classes[self.cid]["q"].split("::")[-1].split("<")[0]
        want = len(args) if n is None else n
        ms = [m for m in self.P.methods(self.cid, nm, inherited=False) if m.get("ctor") and m.get("body") is not None and len(m["p"]) == want]
        if not ms:
            raise LookupError("no constructor %s/%d" % (nm, want))
        return self.runfn(ms[0], args)

    def runfn(self, f, args=()):
        args = [const(a) if isinstance(a, (int, bool)) and not isinstance(a, T) else a for a in args]
        for a, p in zip(args, f["p"]):
            if isinstance(a, T) and a.op == "sym" and a not in self.kinds:
                self.kinds[a] = fp.kind_of(self.P, p["t"])
        r, _ = self.I.run(f, this=self.this, args=list(args), st=self.st)
        self.events.append((f, self.I.events))
        self.analysed |= self.I.inlined
        return r

    def call(self, name, *args, n=None, pred=None):
        if n is None and args:
            cands = [m for m in self.P.methods(self.cid, name) if m.get("body") and len(m["p"]) >= len(args)]
            cands.sort(key=lambda m: len(m["p"]))
            if cands:
                n = len(cands[0]["p"])
        return self.runfn(self.method(name, n, pred), args)

    def get(self, name, *args, n=None, pred=None):
        """the value an accessor returns, as a term"""
        return self.I.asT(self.call(name, *args, n=n, pred=pred), self.st)

    def sub(self, ref, name, *args, n=None):
        """call a method on an object reached by reference"""
        cid = self.cls_of(ref)
        s = Session.__new__(Session)
        s.__dict__.update(self.__dict__)
        s.cid, s.this = cid, ref
        r = s.call(name, *args, n=n)
        return r

    def cls_of(self, ref):
        cid = self.cid
        for n in ref.loc[1:]:
            fl = [f for f in self.P.all_fields(cid) if f["n"] == n]
            cid = self.P.typ(fl[0]["t"]).get("rid")
        return cid

    def env(self, *others):
        kinds = dict(self.kinds)
        kinds.update(self.I.kinds)
        for o in others:
            kinds.update(o.kinds)
            kinds.update(o.I.kinds)

        def mkenv(seed):
            a = self.assign(seed) if callable(self.assign) else dict(self.assign or {})
            return fp.Env(seed, self.P, None, kinds=kinds, roots={self.root: self.cid}, assign=a, shape=self.shape)
        return mkenv


def where(P, f, line=None):
    return P.where(f, line)


def attempt(ctx, rule, wh, thunk):
    """run one obligation; a failure of the analysis leaves it undecided"""
    try:
        return thunk()
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        ctx.undecided(rule, wh, "not analysable: %s: %s (%s:%d)" % (type(ex).__name__, str(ex)[:200], tb.name, tb.lineno))
        return None


def eq(ctx, rule, wh, a, b, mkenv, what, trials=12, need=4, key=None):
    v = fp.equal(a, b, mkenv, trials=trials, need=need)
    ctx.count("random_interpretations", v.trials)
    d = "%s: %s" % (what, v.detail)
    if v.eq is False and v.blind:
        d += " [not decided: opaque %s]" % sorted(map(str, v.blind))[:4]
    ctx.check(v.holds, rule, wh, d, key)
    return v


def holds(ctx, rule, wh, pred, mkenv, what, trials=24, need=4, key=None):
    v = fp.always(pred, mkenv, trials=trials, need=need, misfit=True)
    ctx.count("random_interpretations", v.trials)
    d = "%s: %s" % (what, v.detail)
    if v.eq is False and v.blind:
        d += " [not decided: opaque %s]" % sorted(map(str, v.blind))[:4]
    ctx.check(v.holds, rule, wh, d, key)
    return v


def rng(seed, tag):
    return random.Random("%s/%s" % (seed, tag))


def rvec(r, n, lo=-1.0, hi=1.0):
    return np.array([[r.uniform(lo, hi)] for _ in range(n)])


def rlist(r, n, d, lo=-1.0, hi=1.0):
    return [rvec(r, d, lo, hi) for _ in range(n)]


# ---- events
def walk_ev(evs, path=()):
    """all events, pre-order, with the chain of enclosing events"""
    for e in evs:
        yield e, path
        for s in subs(e):
            yield from walk_ev(s, path + (e,))


def subs(e):
    if e.k == "if":
        return [e.d["then"], e.d["els"]]
    if e.k == "try":
        return [e.d["body"]] + [h["events"] for h in e.d["handlers"]]
    return [e.sub] if e.sub else []


# ---- failing assertions
def idxs_of(t, acc, seen):
    """free loop indices, outermost first; False when the term mentions a loop-carried variable"""
    if isinstance(t, T):
        if t.id in seen:
            return True
        seen.add(t.id)
        if t.op == "mu":
            return False
        if t.op in ("fix", "system", "fixat", "fixend", "loopexit", "lastsel", "sum", "exists", "first", "filtermap", "appendmap", "mapupd", "runmax", "runmin", "argmax", "argmin"):
            return True   # binds its own variables
        for a in t.args:
            if not idxs_of(a, acc, seen):
                return False
        if t.op == "idx" and t not in acc:
            acc.append(t)
    elif isinstance(t, tuple):
        return all(idxs_of(a, acc, seen) for a in t)
    return True


def aborts(s, ncalls=None):
    """(event, facts, indices) of the assertion failures of a session whose path condition can be evaluated"""
    for f, evs in s.events[:ncalls]:
        for e, path in walk_ev(evs):
            if e.k != "dead":
                continue
            ix, seen = [], set()
            if all(idxs_of(c, ix, seen) for c in e.facts):
                yield e, e.facts, ix


def reached(env, facts, ix):
    def rec(k):
        if k < len(ix):
            return any(env.over(ix[k], lambda _: rec(k + 1)))
        return all(env.truth(env.ev(c)) for c in facts)
    return rec(0)


def no_abort(ctx, rule, wh, s, env, what, key=None, trials=8, ncalls=None):
    """no assertion fails in this (permitted) history"""
    n = 0
    for e, facts, ix in aborts(s, ncalls):
        n += 1
        w = "%s:%s" % (s.P.rel(e.fn), e.node.get("l")) if e.node and e.fn else wh
        v = fp.always(lambda en: not reached(en, facts, ix), env, trials=trials, need=min(4, trials))
        if v.eq is False and not v.blind:
            ctx.bad(rule, w, "%s: an assertion fails here on a permitted call sequence (%s)" % (what, wh), key or rule + ":" + w)
            return
    ctx.ok(rule, wh, "%s: %d assertions cannot fail" % (what, n))
