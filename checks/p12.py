"""Archives give back exactly what was saved."""
import struct

from base import *
from terms import subterms

EXPLANATION = """save() and load() of both archives are analysed as one composition over an abstract file system: the files and streams are values of the
graph (every open, every write of text, formatted matrix or raw bytes is appended to a ghost log; a read takes bytes, cells, lines or numbers from a
position of a content). The graph of what load leaves in its argument is then interpreted: written values become the text the formatting
parameters prescribe or the raw bytes of their type, and reads parse those; the result must be bit for bit the saved value, for random shapes and
values over the whole double range."""
EXPECT = {"round-trip": 10, "names": 4, "files": 6}
ASSUMPTIONS = ["Eigen's IOFormat and iostreams print and parse as documented (decimal text with the given number of significant digits; 17 digits identify a double)",
               "objects are not empty (an empty matrix has no text form; the models never save one)", "int has 4 bytes and Eigen::Index 8, as in the build"]
FS = (("G", "fs"),)
V, L, NM, NM2, DIR = (mk("sym", n) for n in ("v", "list", "name", "name2", "dir"))
BIN, TRUNC, APP, ATE, IN, OUT = 4, 32, 1, 2, 8, 16


def deref_t(P, t):
    return P.typ(t)


STREAMS = {"std::basic_%sstream" % x for x in ("of", "if", "f", "string", "istring", "ostring")}


class AR(Session):
    def __init__(self, P, cid):
        super().__init__(P, cid, "arch", kinds={V: "mat", L: ("list", "vec"), NM: "str", NM2: "str", DIR: "str"})
        self.I.hook = self.hook
        self.I.streams = STREAMS
        self.st.store[FS] = mk("sym", "fs")
        self.scl = {}

    def push(self, st, *ent):
        self.I.record_write(FS)
        st.store[FS] = mk("push", st.store[FS], mk("entry", *ent))

    # ------------------------------------------------------------ streams
    def part(self, o, n):
        return Ref(o.loc + (n,), ()) if not o.sels else None

    def rd(self, I, st, o, n, dflt):
        v = st.store.get(o.loc + (n,))
        return v if isinstance(v, T) else dflt

    def wr(self, I, st, o, n, v, e):
        I.write(st, Ref(o.loc + (n,)), v, e, "stream")

    def hook(self, I, fn, obj, args, e, st):
        q, n = fn["q"], fn["n"]
        cls = self.P.classes[fn["cls"]]["q"] if "cls" in fn else ""
        if q.startswith("boost::filesystem::") or q.startswith("std::filesystem::"):
            if n in ("create_directory", "create_directories"):
                p = I.asT(args[0], st)
                self.push(st, "mkdir", p.args[-1] if p.op == "ctor" else p)
                return TRUE
        if cls == "Eigen::IOFormat" and fn.get("ctor"):
            if fn.get("copy") or fn.get("move"):
                return None
            v = mk("call", "IOFormat", *[I.asT(a, st) for a in args])
            if obj is None:
                return v
            I.write(st, obj, v, e, "init")
            return mk("opaque", "void")
        if n == "format" and q.startswith("Eigen::"):
            return mk("call", "fmt", I.asT(obj, st), I.asT(args[0], st))
        if q in ("std::stod", "std::atof", "std::strtod", "atof", "strtod"):
            return mk("call", "stod" if q == "std::stod" else "atof", I.asT(args[0], st))
        if q in ("std::stof", "std::atoi", "std::stoi", "std::stol"):
            return mk("call", q[5:], I.asT(args[0], st))
        if q == "std::getline":
            o = I.deref_chain(st, args[0])
            d = I.asT(args[2], st) if len(args) > 2 else const(10)
            b, p = self.rd(I, st, o, "buf", None), self.rd(I, st, o, "pos", ZERO)
            if b is None:
                return None
            ok = mk("call", "linok", b, p)
            I.write(st, args[1], mk("call", "line", b, p, d), e, "getline")
            self.wr(I, st, o, "pos", mk("call", "linenext", b, p, d), e)
            self.wr(I, st, o, "ok", ok, e)
            return o
        if cls in STREAMS and fn.get("ctor") and not (fn.get("copy") or fn.get("move")):
            if not isinstance(obj, Ref):
                obj = Ref((("strm", I.fr.id, id(e)),))
                I.rootcls[obj.loc[0]] = fn["cls"]
                self.ctor_(I, st, cls, obj, args, e)
                return obj
            self.ctor_(I, st, cls, obj, args, e)
            return mk("opaque", "void")
        if cls.startswith("std::basic_") and "string<" not in cls and cls != "std::basic_string" and isinstance(obj, Ref):
            o = I.deref_chain(st, obj)
            r = self.method_(I, st, fn, n, cls, o, args, e)
            if r is not None:
                return r
        if n == "operator<<" and isinstance(args[0] if obj is None else obj, Ref):
            o = I.deref_chain(st, args[0] if obj is None else obj)
            a = args[-1]
            t = I.asT(a, st) if not isinstance(a, Ref) or self.rd(I, st, I.deref_chain(st, a), "buf", None) is None else a
            if isinstance(t, T) and t.op == "fn":
                if "endl" in str(t.args[0]):
                    self.emit(I, st, o, mk("str", "\n"), e)
                return o
            if isinstance(t, T) and t.op == "call" and t.args[0] in ("prec",):
                self.emit(I, st, o, t, e)
                return o
            if "rdbuf" in str(t) if not isinstance(t, Ref) else False:
                pass
            vt = self.P.typ(fn["p"][-1]["t"])["s"].replace("const ", "")
            if vt == "char" and t.op == "c":
                t = mk("str", chr(int(t.args[0])))
            self.emit(I, st, o, t, e)
            return o
        if n == "operator>>" and isinstance(args[0] if obj is None else obj, Ref):
            o = I.deref_chain(st, args[0] if obj is None else obj)
            b, p = self.rd(I, st, o, "buf", None), self.rd(I, st, o, "pos", ZERO)
            if b is None:
                return None
            ty = self.P.typ(fn["p"][-1]["t"])["s"].replace("&", "").strip()
            I.write(st, args[-1], mk("call", "tok", b, p, mk("str", ty)), e, ">>")
            self.wr(I, st, o, "pos", mk("call", "toknext", b, p), e)
            self.wr(I, st, o, "ok", mk("call", "tokok", b, p), e)
            return o
        if q == "std::setprecision":
            return mk("call", "prec", I.asT(args[0], st))
        return None

    def ctor_(self, I, st, cls, o, args, e):
        self.scl[o.loc] = cls
        a = [I.asT(x, st) for x in args]
        if "stringstream" in cls:
            b = a[0] if a and not (a[0].op == "c") else mk("str", "")
            self.wr(I, st, o, "buf", b, e)
            self.wr(I, st, o, "pos", ZERO, e)
            self.wr(I, st, o, "ok", TRUE, e)
            return
        if a:
            self.open_(I, st, cls, o, a, e)

    def open_(self, I, st, cls, o, a, e):
        if "ifstream" in cls:
            b = mk("call", "content", st.store[FS], a[0])
            self.wr(I, st, o, "buf", b, e)
            self.wr(I, st, o, "pos", ZERO, e)
            self.wr(I, st, o, "ok", mk("call", "exists", st.store[FS], a[0]), e)
        else:
            self.push(st, "open", a[0], a[1] if len(a) > 1 else const(OUT))
            self.wr(I, st, o, "path", a[0], e)

    def emit(self, I, st, o, t, e):
        p = self.rd(I, st, o, "path", None)
        if p is not None:
            self.push(st, "out", p, t)
            return
        b = self.rd(I, st, o, "buf", None)
        if b is not None:
            self.wr(I, st, o, "buf", mk("call", "append", b, t), e)

    def pointee(self, e, k):
        """byte width and signedness of what a (char*) argument points at"""
        x = (e.get("a") or [None] * (k + 1))[k]
        while x and x.get("k") == "cast":
            x = x["c"][0]
        t = self.P.typ(x.get("t", -1)) if x else {}
        return mk("str", t.get("s", "?"))

    def method_(self, I, st, fn, n, cls, o, args, e):
        if n == "open":
            self.open_(I, st, self.scls(I, o, cls), o, [I.asT(a, st) for a in args], e)
            return mk("opaque", "void")
        if n in ("close", "flush", "clear", "sync", "exceptions", "setf", "unsetf"):
            return mk("opaque", "void")
        ok = self.rd(I, st, o, "ok", TRUE)
        if n in ("good", "operator bool", "is_open"):
            return ok
        if n in ("fail", "bad", "operator!"):
            from terms import NOT
            return NOT(ok)
        if n == "eof":
            return mk("call", "ateof", self.rd(I, st, o, "buf", mk("str", "")), self.rd(I, st, o, "pos", ZERO))
        if n == "precision" and args:
            self.emit(I, st, o, mk("call", "prec", I.asT(args[0], st)), e)
            return mk("opaque", "num")
        if n == "write":
            self.emit(I, st, o, mk("call", "raw", self.value_at(I, st, args[0]), I.asT(args[1], st), self.pointee(e, 0)), e)
            return o
        if n == "read":
            b, p = self.rd(I, st, o, "buf", None), self.rd(I, st, o, "pos", ZERO)
            if b is None:
                return None
            k = I.asT(args[1], st)
            r = self.ref_at(I, st, args[0])
            if r is not None:
                I.write(st, r, mk("call", "unraw", b, p, k, self.pointee(e, 0), I.asT(r, st)), e, "read")
            from terms import add
            self.wr(I, st, o, "pos", add(p, k), e)
            return o
        if n == "str" and not args or n == "rdbuf":
            return self.rd(I, st, o, "buf", None)
        return None

    def scls(self, I, o, cls):
        return self.scl.get(o.loc, cls)

    def ref_at(self, I, st, a):
        if isinstance(a, Ref):
            return a
        t = I.asT(a, st)
        if t.op == "data":
            t = t.args[0]
        if t.op == "addr":
            return Ref(t.args[0], t.args[1])
        return None

    def value_at(self, I, st, a):
        r = self.ref_at(I, st, a)
        if r is not None:
            return I.asT(r, st)
        t = I.asT(a, st)
        return t.args[0] if t.op == "data" else t


# ---------------------------------------------------------------- interpretation
def gfmt(x, p):
    x = float(np.real(x))
    if x != x:
        return "nan"
    if x in (float("inf"), float("-inf")):
        return "inf" if x > 0 else "-inf"
    return "%.*g" % (max(p, 1), x)


class Ops:
    """text and bytes of what was written, values of what was read"""

    def __init__(self, P):
        self.P = P

    def shape(self, env, t, k):
        if t.op == "call" and isinstance(t.args[0], str):
            f = getattr(self, "f_" + t.args[0], None)
            if f is not None:
                return f(env, t, [a if isinstance(a, str) else env.ev(a) for a in t.args[1:]])
        if t.op == "ctor" and t.args[0].startswith("Eigen::IOFormat"):
            return self.f_IOFormat(env, t, [a if isinstance(a, str) else env.ev(a) for a in t.args[1:]])
        return None

    def text(self, env, v, prec=6):
        if isinstance(v, str):
            return v
        if isinstance(v, np.ndarray):
            return self.matrix(env, v, ("IOFormat", -1, 0, " ", "\n", "", "", "", "", " "), prec)
        if isinstance(v, tuple) and v and v[0] == "formatted":
            return self.matrix(env, v[1], v[2], prec)
        if isinstance(v, tuple) and v and v[0] == "bytes":
            return v[1]
        if isinstance(v, (int, float, np.floating)) and not isinstance(v, bool):
            return gfmt(v, prec)
        raise fp.Undef("text")

    def matrix(self, env, v, f, prec):
        _, p, flags, sep, rsep, rpre, rsuf, mpre, msuf, fill = f
        p = prec if p == -1 else 15 if p == -2 else p
        c = [[gfmt(x, p) for x in row] for row in np.asarray(v)]
        if not c or not c[0]:
            return mpre + msuf
        w = 0 if flags & 1 else max(len(x) for r in c for x in r)
        return mpre + rsep.join(rpre + sep.join(x.rjust(w, fill) for x in r) + rsuf for r in c) + msuf

    def f_IOFormat(self, env, t, a):
        d = ["IOFormat", -1, 0, " ", "\n", "", "", "", "", " "]
        for k, x in enumerate(a[:9]):
            d[k + 1] = chr(int(x)) if k == 8 and not isinstance(x, str) else x if isinstance(x, str) else int(np.real(env.scalar(x)))
        return tuple(d)

    def f_fmt(self, env, t, a):
        if not (isinstance(a[1], tuple) and a[1][0] == "IOFormat"):
            raise fp.Undef("format")
        return ("formatted", np.asarray(a[0]), a[1])

    def f_prec(self, env, t, a):
        return ("prec", int(np.real(env.scalar(a[0]))))

    def f_raw(self, env, t, a):
        v, n, ty = a
        n = env.integer(n)
        ty = ty.replace("const ", "").replace("*", "").strip()
        if isinstance(v, np.ndarray) and ty in ("double", "float", "char", "void"):
            b = np.asarray(v, dtype="f4" if ty == "float" else "f8").tobytes(order="F")
        else:
            f = {"int": "<i", "unsigned int": "<I", "long": "<q", "unsigned long": "<Q", "double": "<d", "float": "<f", "long long": "<q", "unsigned long long": "<Q", "short": "<h", "unsigned short": "<H", "char": "<b", "signed char": "<b", "unsigned char": "<B"}.get(ty)
            if f is None:
                raise fp.Undef("raw " + ty)
            x = env.scalar(v)
            if f not in ("<d", "<f"):    # what the conversion to the variable's type leaves
                w = 8 * struct.calcsize(f)
                x = int(np.real(x)) % (1 << w)
                x -= (1 << w) if f[1].islower() and x >> (w - 1) else 0
            b = struct.pack(f, float(np.real(x)) if f in ("<d", "<f") else x)
        if n < 0 or n > len(b):
            raise fp.Misfit("raw bytes outside the object: %d of %d" % (n, len(b)))
        return ("bytes", b[:n].decode("latin-1"))

    def f_append(self, env, t, a):
        return self.text(env, a[0]) + self.text(env, a[1])

    def files(self, env, log):
        fs, prec = dict(self.before), {}
        for _, *x in log:
            if x[0] == "open":
                m = int(np.real(env.scalar(x[2])))
                if not m & APP and (m & TRUNC or not m & IN):
                    fs[x[1]] = ""
                fs.setdefault(x[1], "")
                prec[x[1]] = 6
            elif x[0] == "out":
                if isinstance(x[2], tuple) and x[2] and x[2][0] == "prec":
                    prec[x[1]] = x[2][1]
                    continue
                fs[x[1]] = fs.get(x[1], "") + self.text(env, x[2], prec.get(x[1], 6))
        return fs
    before = {}

    def f_content(self, env, t, a):
        return self.files(env, a[0]).get(a[1], "")

    def f_exists(self, env, t, a):
        return a[1] in self.files(env, a[0])

    def f_line(self, env, t, a):
        b, p, d = self.text(env, a[0]), env.integer(a[1]), chr(env.integer(a[2]))
        e = b.find(d, p)
        return b[p:] if e < 0 else b[p:e]

    def f_linok(self, env, t, a):
        return env.integer(a[1]) < len(self.text(env, a[0]))

    def f_linenext(self, env, t, a):
        b, p, d = self.text(env, a[0]), env.integer(a[1]), chr(env.integer(a[2]))
        e = b.find(d, p)
        return len(b) + 1 if e < 0 else e + 1

    def f_ateof(self, env, t, a):
        return env.integer(a[1]) > len(self.text(env, a[0]))

    def token(self, env, a):
        b, p = self.text(env, a[0]), env.integer(a[1])
        while p < len(b) and b[p].isspace():
            p += 1
        q = p
        while q < len(b) and not b[q].isspace():
            q += 1
        return b[p:q], q

    def f_tok(self, env, t, a):
        s, _ = self.token(env, a)
        if "string" in a[2]:
            return s
        try:
            return float(s) if "double" in a[2] or "float" in a[2] else float(int(s))
        except ValueError:
            return 0.0

    def f_toknext(self, env, t, a):
        return self.token(env, a)[1]

    def f_tokok(self, env, t, a):
        return bool(self.token(env, a)[0])

    def f_stod(self, env, t, a):
        try:
            x = float(a[0])
        except ValueError:
            raise fp.Misfit("std::stod(%r) throws" % a[0][:40])
        if x != 0 and abs(x) < 2.2250738585072014e-308:
            raise fp.Misfit("std::stod throws out_of_range on a subnormal number (%r)" % a[0])
        return x

    def f_atof(self, env, t, a):
        try:
            return float(a[0])
        except ValueError:
            return 0.0

    def f_stof(self, env, t, a):
        return float(np.float32(self.f_stod(env, t, a)))

    def f_stoi(self, env, t, a):
        return float(int(self.f_stod(env, t, a)))
    f_atoi = f_stol = f_stoi

    def f_unraw(self, env, t, a):
        b, p, n, ty, cur = a[0], env.integer(a[1]), env.integer(a[2]), a[3], a[4]
        raw = self.text(env, b)[p:p + n].encode("latin-1")
        ty = ty.replace("*", "").strip()
        if isinstance(cur, np.ndarray) and ty in ("double", "float", "char", "void"):
            want = cur.size * (4 if ty == "float" else 8)
            if n > want:
                raise fp.Misfit("reads past the matrix")
            x = np.frombuffer(raw[:len(raw) // 8 * 8], dtype="f4" if ty == "float" else "f8")
            full = np.full(cur.size, 3.3e33)
            full[:len(x)] = x[:cur.size]
            return full.reshape(cur.shape, order="F")
        f = {"int": "<i", "unsigned int": "<I", "long": "<q", "unsigned long": "<Q", "double": "<d", "float": "<f", "long long": "<q", "unsigned long long": "<Q", "short": "<h", "unsigned short": "<H", "char": "<b", "signed char": "<b", "unsigned char": "<B"}.get(ty)
        if f is None:
            raise fp.Undef("unraw " + ty)
        if len(raw) < struct.calcsize(f):
            if n < struct.calcsize(f):
                raw = raw + b"\0" * (struct.calcsize(f) - len(raw))
            else:
                return cur if not isinstance(cur, fp.Opq) else 0.0
        if n > struct.calcsize(f):
            raise fp.Misfit("reads past the variable")
        return struct.unpack(f, raw[:struct.calcsize(f)])[0]


def wild(r):
    """a double from the whole range"""
    k = r.randrange(6)
    if k == 0:
        return float(r.randrange(-5, 6))
    if k == 1:
        return r.uniform(-1, 1)
    if k == 2:
        return r.uniform(-1, 1) * 10.0 ** r.randrange(-300, 300)
    if k == 3:
        return struct.unpack("<d", struct.pack("<Q", (r.getrandbits(52) | (r.randrange(1, 2046) << 52) | (r.getrandbits(1) << 63))))[0]
    if k == 4:
        return r.choice((0.0, 1e-310, 5e-324, 1.7976931348623157e308, 0.1, 1 / 3.0, 123456789.123456789, 1e16 + 2))
    return r.gauss(0, 1)


def wmat(r, n, m):
    return np.array([[wild(r) for _ in range(m)] for _ in range(n)]).reshape(n, m)


def exact(a, b):
    if isinstance(a, list) or isinstance(b, list):
        return isinstance(a, list) and isinstance(b, list) and len(a) == len(b) and all(exact(x, y) for x, y in zip(a, b))
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and bool(np.all(np.real(a) == np.real(b)))


def run(ctx):
    ctx.rule("round-trip", "what load puts into its argument is bit for bit what was saved under that name, whatever the argument and the file held before")
    ctx.rule("names", "objects of different names go to different files of the archive's directory, and load reads the file save wrote")
    ctx.rule("files", "save creates the directory before it opens the file, and leaves every other file alone")
    P = ctx.prog("core")
    items = []
    for a in ("TextArchive", "BinaryArchive"):
        for c in classes(P, "limbo::serialize::" + a):
            items += [(c, k) for k in ("mat", "vec", "list", "names")]
    ctx.pmap(one, items)


def sig(P, c, n, what):
    for m in P.methods(c, n):
        t = P.typ(m["p"][0]["t"])["s"] if m["p"] else ""
        isl = "std::vector<" in t
        v1 = "-1, 1>" in t
        if m.get("body") and (isl if what == "list" else (not isl and (v1 if what == "vec" else not v1))):
            return m
    raise LookupError("%s(%s) is not instantiated" % (n, what))


def one(ctx, item):
    c, k = item
    P = ctx.prog("core")
    tr = 16 if ctx.tier == "quick" else 80
    q = P.classes[c]["q"].split("::")[-1]

    def body():
        ops = Ops(P)

        def mkenv(s, before):
            def f(seed):
                r = rng(seed, "arch")
                kinds = dict(s.kinds)
                kinds.update(s.I.kinds)
                e = fp.Env(seed, P, None, kinds=kinds, roots={"arch": c}, shape=ops.shape)
                n, m = 1 + seed % 4, 1 + (seed // 4) % 3
                e.assign.update({NM: "obj%d" % (seed % 5), NM2: "obj%dx" % (seed % 5), DIR: "d%d/e" % (seed % 3), V: wmat(r, n, 1 if k == "vec" else m), L: [wmat(r, m, 1) for _ in range(n if seed % 8 != 3 else 300)],
                                 mk("sym", "fs"): [], PRE: wmat(r, 1 + seed % 2, 1), PREM: wmat(r, 2, 3), PREL: [wmat(r, 2, 1) for _ in range(seed % 3)]})
                ops.before = before(e) if before else {}
                return e
            return f
        PRE, PREM, PREL = mk("sym", "pre"), mk("sym", "prem"), mk("sym", "prel")
        s = AR(P, c)
        s.kinds.update({PRE: "vec", PREM: "mat", PREL: ("list", "vec")})
        s.ctor(DIR)
        if k == "names":
            names(ctx, P, c, s, mkenv(s, None), q)
            return
        val = L if k == "list" else V
        sv, ld = sig(P, c, "save", "mat" if k != "list" else "list"), sig(P, c, "load", k)
        wh = "%s (save) / %s (load)" % (P.where(sv), P.where(ld))
        ctx.analysed.add(sv["id"])
        ctx.analysed.add(ld["id"])
        out = Ref(("out",))
        for pre in ("new", "used", "overwrite"):
            s = AR(P, c)
            s.kinds.update({PRE: "vec", PREM: "mat", PREL: ("list", "vec")})
            s.ctor(DIR)
            if pre == "overwrite":   # something longer is there already, and another object is saved in between
                s.runfn(sv, [mk("concat", L, L) if k == "list" else PREM, NM])
            s.st.store[out.loc] = {"mat": PREM, "vec": PRE, "list": PREL}[k] if pre != "new" else {"mat": mk("emat"), "vec": mk("emat"), "list": mk("empty")}[k]
            s.runfn(sv, [val, NM])
            s.runfn(sv, [mk("concat", L, L) if k == "list" else PREM, NM2])
            s.runfn(ld, [out, NM])
            got = s.I.asT(s.st.store[out.loc], s.st)
            ctx.analysed |= s.analysed
            what = {"new": "into a new object", "used": "into an object that holds something else", "overwrite": "after overwriting a longer object"}[pre]

            def pred(e):
                try:
                    return exact(e.ev(got), e.ev(val)), "a %s does not come back as it was saved" % {"mat": "matrix", "vec": "vector", "list": "list of vectors"}[k]
                except fp.Misfit as ex:
                    return False, "load fails: %s" % ex
            attempt(ctx, "round-trip", wh, lambda: holds(ctx, "round-trip", "%s: %s %s" % (wh, k, pre), pred, mkenv(s, None), what, trials=tr, key="round-trip:%s:%s:%s" % (q, k, pre)))
            if pre == "new" and k == "list":
                narrow(ctx, s, wh, q, val)
            if pre == "new":
                fsx(ctx, s, wh, mkenv, tr, q, k)
            attempt(ctx, "round-trip", wh, lambda: no_abort(ctx, "round-trip", wh, s, mkenv(s, None), what))
    attempt(ctx, "round-trip", q, body)


def narrow(ctx, s, wh, q, val):
    """a length written in fewer than four bytes cannot come back for every list"""
    bad = []
    for t in subterms(s.st.store[FS]):
        if t.op == "call" and t.args[0] == "raw" and isinstance(t.args[3], T):
            ty = t.args[3].args[0].replace("const ", "").replace("*", "").strip()
            if ty in ("short", "unsigned short", "char", "signed char", "unsigned char", "bool") and any(x.op in ("len", "size") and any(y is val for y in subterms(x)) for x in subterms(t.args[1])):
                bad.append(ty)
    if bad:
        ctx.bad("round-trip", wh, "the length of a list is written as %s: longer lists come back truncated" % bad[0], "round-trip:%s:length" % q)
    else:
        ctx.ok("round-trip", wh, "the length of a list is not narrowed")


def fsx(ctx, s, wh, mkenv, tr, q, k):
    log = s.st.store[FS]

    def pred(e):
        made = set()
        opened = set()
        for _, *x in e.ev(log):
            if x[0] == "mkdir":
                made.add(x[1])
            elif x[0] == "open":
                d = x[1].rsplit("/", 1)[0]
                if d not in made:
                    return False, "%s is opened before its directory is made" % x[1]
                if d != e.ev(DIR):
                    return False, "%s is outside the directory of the archive" % x[1]
                opened.add(x[1])
        return (len(opened) == 2, "2 objects go to %d files" % len(opened))
    attempt(ctx, "files", wh, lambda: holds(ctx, "files", "%s: %s" % (wh, k), pred, mkenv(s, None), "directory and files", trials=tr, key="files:%s:%s" % (q, k)))


def names(ctx, P, c, s, env, q):
    f = [m for m in P.methods(c, "fname") if m.get("body")]
    if not f:
        return
    a, b = s.get("fname", NM), s.get("fname", NM2)
    d = s.get("directory")
    wh = P.where(f[0])
    holds(ctx, "names", wh, lambda e: e.ev(a) != e.ev(b), env, "different names are different files", trials=12, key="names:%s:distinct" % q)
    holds(ctx, "names", wh, lambda e: e.ev(d) == e.ev(DIR) and e.ev(a).startswith(e.ev(DIR) + "/"), env, "the file is in the archive's directory", trials=12, key="names:%s:dir" % q)
