"""No operation reads a member before it has been given a value."""
from base import *
from p13 import arg_value, peek
from bobase import role

EXPLANATION = """Every public constructor of every library class the drivers instantiate is analysed followed by each public operation of the class, everything
inlined. A read of a scalar member (of the object or of its sub-objects) that no store precedes has an indeterminate value; it is reported when a
random interpretation of the symbolic arguments reaches it."""
EXPECT = {"defined-read": 100}
ASSUMPTIONS = ["members of class type are initialised by their own constructors (analysed when they are the library's)", "arguments are themselves fully initialised"]
SCALAR = ("int", "float", "bool", "enum", "char")


def run(ctx):
    ctx.rule("defined-read", "an operation on a freshly constructed object reads no scalar member that nothing has set")
    ctx.need("core", "exp")
    items = []
    for u in ("core", "exp"):
        P = ctx.prog(u)
        for c in range(len(P.classes)):
            if P.classes[c].get("repo") and P.classes[c]["q"].startswith("limbo::"):
                items.append((u, c))
    ctx.pmap(one, items)


def ctors(P, c):
    return [f for f in P.fns if f.get("ctor") and f.get("cls") == c and f.get("body") is not None and not f.get("copy") and not f.get("move") and f.get("pub")]


def plain(P, c):
    return P.classes[c]["q"].split("::")[-1].split("<")[0]


def analysable(P, c):
    """the default constructor of the class is implicit, or its code is there"""
    if any(not k["p"] for k in ctors(P, c)):
        return True
    if P.methods(c, plain(P, c), inherited=False):
        return False    # never constructed by the drivers
    if not all(analysable(P, b) for b in P.classes[c].get("bases", ())):
        return False
    ts = [P.typ(f["t"]) for f in P.classes[c].get("fields", ()) if not f.get("init")]
    return all(analysable(P, t["rid"]) for t in ts if t.get("b") == "rec" and P.classes[t["rid"]].get("repo"))


def default(I, P, st, ref, c):
    """an object of a class without analysable constructor: its bases and members are default constructed"""
    for b in P.classes[c].get("bases", ()):
        ks = [k for k in ctors(P, b) if not k["p"]]
        if ks:
            I.run(ks[0], ref, [], st)
        else:
            default(I, P, st, ref, b)
    for f in P.classes[c].get("fields", ()):
        fr, t = I.field(ref, f["n"]), P.typ(f["t"])
        ks = [k for k in ctors(P, t["rid"]) if not k["p"]] if t.get("b") == "rec" and P.classes[t["rid"]].get("repo") and not f.get("init") else []
        if f.get("init"):
            I.init_loc(st, fr, f["t"], f["init"], f)
        elif ks:
            I.run(ks[0], fr, [], st)
        elif I.isstruct(f["t"]):
            default(I, P, st, fr, t["rid"])


def public(P, c):
    out, seen = [], set()
    todo = [c]
    while todo:
        k = todo.pop(0)
        for m in P.classes[k].get("methods", ()):
            f = P.fns[m["fn"]]
            if m.get("acc", 0) == 0 and f.get("body") and not f.get("ctor") and not f["n"].startswith("operator=") and (f["n"], len(f["p"]), f.get("const")) not in seen:
                seen.add((f["n"], len(f["p"]), f.get("const")))
                out.append(f)
        todo += P.classes[k].get("bases", ())
    return out


def args_of(I, f, tag, kinds, roots):
    """symbolic arguments; those passed by reference live in locations of their own"""
    P, out = I.p, []
    for i, p in enumerate(f["p"]):
        if arg_value(P, p):
            out.append(mk("sym", "%s:%s" % (tag, p["n"])))
            kinds[out[-1]] = fp.kind_of(P, p["t"])
        else:
            root = (tag, i)
            out.append(Ref((root,)))
            roots[root] = ("t", p["t"])
            if P.typ(p["t"]).get("rid") is not None:
                I.rootcls[root] = P.typ(p["t"])["rid"]
    return out


def one(ctx, item):
    u, c = item
    P = ctx.prog(u)
    cls = P.classes[c]
    if not any(True for _ in P.all_fields(c)):
        return
    q = cls["q"].replace("limbo::", "")
    ks = ctors(P, c)
    if not ks:
        if not analysable(P, c):
            return
        ks = [None]
    for k in ks:
        for f in public(P, c):
            wh = "%s %s%s after %s" % (P.where(f), q, short_ta(P, c), "%s/%d" % (k["n"], len(k["p"])) if k else "default construction")
            attempt(ctx, "defined-read", wh, lambda: check(ctx, P, c, k, f, wh))


def answers(env, t, k):
    """what the model an object was built on answers, and an aggregator"""
    if t.op != "call" or not isinstance(t.args[0], str):
        return None
    n, key = t.args[0], "q%d" % t.args[1].id if len(t.args) > 1 and isinstance(t.args[1], T) else "q"
    r, size = env.rnd(n + key), env.seed % 4
    if n == "model.query":
        return np.array([[0.3 + r.random()]]), 0.1 + r.random()
    if n == "model.mu":
        return np.array([[0.3 + r.random()]])
    if n == "model.sigma":
        return 0.1 + r.random()
    if n == "model.nb_samples":
        return size
    if n == "model.samples":
        return [fp.rvec(r, 2) for _ in range(size)] if hasattr(fp, "rvec") else [np.array([[r.random()], [r.random()]]) for _ in range(size)]
    if n == "Agg::operator()":
        return float(np.asarray(env.ev(t.args[-1])).ravel()[0])
    return None


def env_int(e, x):
    return int(4 * e.rnd("int%s" % x.args[0]).random())


def arm(v, undef):
    """path conditions under which a merged value is the indeterminate one"""
    if isinstance(v, T):
        if undef(v):
            yield ()
        elif v.op == "ite":
            for fs in arm(v.args[1], undef):
                yield (v.args[0],) + fs
            for fs in arm(v.args[2], undef):
                yield (mk("not", v.args[0]),) + fs


def scalar_field(P, c, path):
    if not path:
        return None
    for n in path:
        fl = [x for x in P.all_fields(c) if x["n"] == n] if c is not None else []
        if not fl:
            return None
        t = P.typ(fl[0]["t"])
        c = t.get("rid")
    if fl[0].get("hasinit") and not fl[0].get("init"):
        return None         # the initialiser is there, but not instantiated by the drivers
    return fl[0] if t.get("b") in SCALAR and not t.get("ref") else None


def check(ctx, P, c, k, f, wh):
    I = Interp(P)
    I.rootcls["obj"] = c
    st = State()
    this = Ref(("obj",))
    reads, kinds, roots = [], {}, {"obj": c}
    if k:
        _, st = I.run(k, this, args_of(I, k, "ctor", kinds, roots), st)
    else:
        I.entry_state, I.events, I.exits = st, [], []
        I.frames.append(interp.Frame(f, "default", this, None, {}, 0))
        default(I, P, st, this, c)
        I.frames.pop()

    def hook(I, fn, obj, args, e, st):
        if role(P, fn) != "model" or fn.get("ctor") or not isinstance(obj, Ref):
            return None
        o = I.deref_chain(st, obj)
        if o.loc[0] not in roots or o.loc[0] == "obj":
            return None
        ts = tuple(I.asT(a, st) for a in args)
        if fn.get("const"):
            return mk("call", "model." + fn["n"], I.asT(o, st), *ts)
        I.write(st, o, mk("call", "model!" + fn["n"], I.asT(o, st), *ts), e, "model." + fn["n"])
        return mk("opaque", "void")

    def on(kind, ref, st, I, node=None, value=None):
        if kind != "r" or ref.sels or ref.loc[0] != "obj":
            return
        fl = scalar_field(P, c, ref.loc[1:])
        if fl is None:
            return
        v = peek(I, st, ref)
        for fs in arm(v, lambda x: x.op == "init" and x.args[0] == ref.loc or x.op == "uninit"):
            reads.append((ref.loc, I.fr.fn, node, tuple(st.facts) + fs))
    I.on_access = on
    I.hook = hook
    I.run(f, this, args_of(I, f, "op", kinds, roots), st)
    ctx.analysed |= I.inlined
    ctx.count("operations", 1)
    kinds.update(I.kinds)

    def env(seed):
        e = fp.Env(seed, P, None, kinds=kinds, roots=roots, shape=answers, dim=2)
        for x, k in kinds.items():      # 0 and 1 are arguments like any other
            if k == "int" and x not in I.kinds:
                e.assign[x] = env_int(e, x)
        return e
    unsure = None
    for loc, fn, node, facts in reads:
        ix, seen = [], set()
        at = "%s:%s" % (P.rel(fn), fn["l"])
        if not all(idxs_of(x, ix, seen) for x in facts):
            unsure = at
            continue
        if facts:
            v = fp.always(lambda e: not reached(e, facts, ix), env, trials=80, need=8)
            if v.eq is not False or v.blind:
                unsure = at if v.eq is not True else unsure
                continue
        own = P.classes[c]["q"].replace("limbo::", "")
        ctx.bad("defined-read", at, "%s reads the member %s, which has no value: %s" % (fn["n"], ".".join(loc[1:]), wh), key="defined-read:%s:%s" % (P.rel(fn), ".".join(loc[1:])))
        return
    if unsure:
        ctx.undecided("defined-read", wh, "a read before any store at %s may be unreachable" % unsure)
    else:
        ctx.ok("defined-read", wh, "no member read before it is set")
