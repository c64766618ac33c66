"""Equality of value-graph terms by random interpretation (Gulwani & Necula, POPL 2004:
"Global value numbering using random interpretation"; the same idea as polynomial identity
testing).  Two value numbers that are not already the same node of the hash-consed graph are
compared by interpreting both over random values of their leaves: arithmetic, Eigen and
container operators get their algebraic meaning, everything else is an uninterpreted
function.  Nothing of the analysed program is compiled or run; the terms are algebraic
expressions the value-graph construction produced, with loops already closed to sums, maps
and searches.  A difference only counts as definite when no operator outside the
understood fragment takes part in it."""
import cmath
import functools
import hashlib
import math
import random
import re

import numpy as np
from terms import *


class Undef(Exception):
    """the interpretation is not defined here (domain error, unknown operator)"""


class Misfit(Undef):
    """sizes that do not fit: an operation on operands of different shapes, an access outside a container"""


class Opq:
    """an uninterpreted value: equal iff built from equal parts"""
    __slots__ = ("h",)

    def __init__(self, h):
        self.h = h

    def __eq__(self, o):
        return isinstance(o, Opq) and o.h == self.h

    def __hash__(self):
        return hash(self.h)

    def __repr__(self):
        return "Opq%x" % (self.h & 0xffff)


# ---------------------------------------------------------------- kinds from types
def split_targs(s):
    out, d, cur = [], 0, ""
    for ch in s:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def kind_str(s):
    s = s.strip()
    s = re.sub(r"\bconst\b", "", s).strip()
    s = s.rstrip("&").strip()
    if s.endswith("*"):
        return "opq"
    if s in ("double", "float", "long double"):
        return "num"
    if s in ("bool",):
        return "bool"
    if re.match(r"^(unsigned |signed )*(int|long|short|char|size_t)( long| int)*$", s) or s in ("std::size_t", "size_t", "unsigned"):
        return "int"
    m = re.match(r"^(?:Eigen::)(Matrix|Array)<\w+, (-?\d+), (-?\d+).*>$", s)
    if m:
        r, c = m.group(2), m.group(3)
        if c == "1":
            return "vec"
        if r == "1":
            return "rvec"
        return "mat"
    m = re.match(r"^(?:std::(?:__1::|__cxx11::)?)?(vector|deque|list|array)<(.*)>$", s)
    if m:
        return ("list", kind_str(split_targs(m.group(2))[0]))
    m = re.match(r"^tbb::(?:\w+::)*concurrent_vector<(.*)>$", s)
    if m:
        return ("list", kind_str(split_targs(m.group(1))[0]))
    m = re.match(r"^std::(pair|tuple)<(.*)>$", s)
    if m:
        return ("tuple",) + tuple(kind_str(x) for x in split_targs(m.group(2)))
    m = re.match(r"^boost::optional<(.*)>$", s)
    if m:
        return ("opt", kind_str(m.group(1)))
    if "basic_string" in s:
        return "str"
    return "opq"


def kind_of(prog, ti):
    t = prog.typ(ti)
    if t.get("ptr"):
        return "opq"
    b = t.get("b")
    if b == "float":
        return "num"
    if b == "int" or b == "enum":
        return "int"
    if b == "bool":
        return "bool"
    return kind_str(t.get("s", ""))


def loc_kind(prog, fn, loc, this_cls=None, roots=None):
    """kind of an initial location, resolved through declared field types"""
    root = loc[0]
    cid = None
    k = None
    if roots and root in roots:
        cid = roots[root]
        if isinstance(cid, tuple):      # ("t", type index): an argument passed by reference
            k, cid = kind_of(prog, cid[1]), prog.typ(cid[1]).get("rid")
        if len(loc) == 1:
            return k or "opq"
    elif root == "this":
        cid = this_cls if this_cls is not None else (fn or {}).get("cls")
        if cid is None:
            return None
        if len(loc) == 1:
            return "opq"
    elif isinstance(root, tuple) and root[0] == "arg" and fn is not None and root[1] < len(fn["p"]):
        ti = fn["p"][root[1]]["t"]
        k = kind_of(prog, ti)
        cid = prog.typ(ti).get("rid")
        if len(loc) == 1:
            return k
    else:
        return None
    for n in loc[1:]:
        if cid is None:
            return None
        fl = [f for f in prog.all_fields(cid) if f["n"] == n]
        if not fl:
            return None
        k = kind_of(prog, fl[0]["t"])
        cid = prog.typ(fl[0]["t"]).get("rid") if not prog.typ(fl[0]["t"]).get("ptr") else None
    return k


UNDERSTOOD_FN = {"exp": np.exp, "log": np.log, "sin": np.sin, "cos": np.cos, "tan": np.tan, "tanh": np.tanh}
# operators that may legitimately hide an equality this module cannot see
BLIND = {"modby", "opaque", "app", "closure", "fn", "tick", "afterthrow", "caught",
         "exception", "exc", "iterop", "mu", "uninit", "uninitm", "addr", "E", "hash", "modby"}


_VOL = {}
_NONE = frozenset()
CMPA, CMPB = mk("sym", "cmp#a"), mk("sym", "cmp#b")
PRLO, PRHI, PRCUR, PRA, PRB = (mk("sym", "pr#" + n) for n in ("lo", "hi", "cur", "a", "b"))
LOCAL_SYMS = {CMPA, CMPB, PRLO, PRHI, PRCUR, PRA, PRB}


def _vol(t):
    """loop variables and comparator arguments a term depends on from outside"""
    r = _VOL.get(t)
    if r is not None:
        return r
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _VOL:
            stack.pop()
            continue
        sub = [y for y in _terms(x.args) if y not in _VOL]
        if sub and x.op != "mu":
            stack.extend(sub)
            continue
        stack.pop()
        if x.op == "mu" or x in LOCAL_SYMS:
            _VOL[x] = frozenset((x,))
        elif x.op in ("fix", "system"):
            _VOL[x] = _vols(x.args[3]) | (_vols((x.args[0], x.args[1]) + x.args[4:]) - set(x.args[2]))
        elif x.op in ("fixend", "fixat"):
            _VOL[x] = _vols(x.args[:1])
        else:
            _VOL[x] = _vols(x.args) or _NONE
    return _VOL[t]


def _terms(a):
    for x in a:
        if isinstance(x, T):
            yield x
        elif isinstance(x, tuple):
            yield from _terms(x)


def _vols(a):
    r = _NONE
    for x in _terms(a):
        v = _VOL[x]
        if v:
            r = r | v if r else v
    return r


def _fv(t):
    """free index symbols of a term"""
    if t._fv is not None:
        return t._fv
    op = t.op
    if op == "idx":
        r = frozenset((t,)) | _fvs(t.args[1:])
    elif op in ("sum", "runmax_", "exists", "first"):
        i = t.args[0]
        r = (_fvs(t.args[1:]) - {i}) | (_fvs(i.args[1:]) if i.op == "idx" else frozenset())
    elif op in ("appendmap", "filtermap", "lastsel", "runmax", "runmin"):
        i = t.args[1]
        r = _fv(t.args[0]) | (_fvs(t.args[2:]) - {i}) | _fvs(i.args[1:])
    elif op == "mapupd":
        r = _fv(t.args[0])
        for idxs, path, v in t.args[2]:
            w = _fvs((path, v)) - set(idxs)
            for i in idxs:
                w |= _fvs(i.args[1:])
            w -= set(idxs)
            r |= w
    elif op == "fix":
        i = t.args[0]
        r = _fvs(t.args[1:])
        if i.op == "idx":
            r = (r - {i}) | _fvs(i.args[1:])
    else:
        r = _fvs(t.args)
    t._fv = r
    return r


_EMPTY = frozenset()


def _fvs(x):
    if isinstance(x, T):
        return _fv(x)
    if isinstance(x, tuple):
        r = _EMPTY
        for y in x:
            if isinstance(y, (T, tuple)):
                f = _fvs(y)
                if f:
                    r = r | f
        return r
    return _EMPTY


class Env:
    """one random interpretation"""

    def __init__(self, seed, prog=None, fn=None, kinds=None, assign=None, shape=None, this_cls=None, signed=False, dim=3, kindfn=None, roots=None):
        self.roots = roots
        self.seed = seed
        self.prog, self.fn, self.kinds = prog, fn, kinds or {}
        self.assign = dict(assign or {})
        self.shape = shape
        self.kindfn = kindfn
        self.this_cls = this_cls
        self.signed = signed
        self.dim = dim
        self.memo = {}      # values that depend on the variables of the loop being run
        self.memo0 = {}     # all others
        self.bind = {}
        self.blind = set()
        self.unkinded = set()
        rnd = random.Random(seed * 7919 + 13)
        self.off = rnd.random()
        self.depth = 0

    def clone(self, extra):
        """the same interpretation with some terms reassigned"""
        e = Env(self.seed, self.prog, self.fn, self.kinds, self.assign, self.shape, self.this_cls, self.signed, self.dim, self.kindfn, self.roots)
        e.assign.update(extra)
        e.off = self.off
        e.blind = self.blind
        for a in ("throws", "worldok"):
            if hasattr(self, a):
                setattr(e, a, getattr(self, a))
        return e

    def deriv(self, t, p, extra=None):
        """d t / d p (column vector p), by the complex-step rule; one column per component of p"""
        base = np.array(self.ev(p), dtype=complex).reshape(-1, 1)
        cols = []
        for m in range(base.shape[0]):
            q = base.copy()
            q[m, 0] += 1e-25j
            ex = dict(extra or {})
            ex[p] = q
            v = self.clone(ex).numv(self.clone(ex).ev(t))
            cols.append(np.imag(np.array(v, dtype=complex)).reshape(-1) / 1e-25)
        return np.array(cols).T if cols else np.zeros((1, 0))

    # ------------------------------------------------------------ hashing
    def digest(self, x):
        def f(v):
            if isinstance(v, (bool, np.bool_)):
                return "b%d" % v
            if isinstance(v, (int, np.integer)):
                return self.num(float(v))
            if isinstance(v, (float, np.floating)):
                return self.num(v)
            if isinstance(v, (complex, np.complexfloating)):
                return self.num(v.real) + "j" + self.num(v.imag)
            if isinstance(v, np.ndarray):
                return "m%s[%s]" % (v.shape, ",".join(f(y) for y in v.ravel().tolist()))
            if isinstance(v, (list, tuple)):
                return "(%s)" % ",".join(f(y) for y in v)
            if isinstance(v, dict):
                return "{%s}" % ",".join(k + ":" + f(y) for k, y in sorted(v.items(), key=lambda kv: str(kv[0])))
            if isinstance(v, Opq):
                return "o%x" % v.h
            return "s" + str(v)
        return int(hashlib.md5((str(self.seed) + f(x)).encode()).hexdigest()[:15], 16)

    def num(self, v):
        if v != v:
            return "nan"
        if math.isinf(v):
            return "inf" if v > 0 else "-inf"
        if v == 0:
            return "0"
        e = math.floor(math.log10(abs(v)))
        return "%d" % math.floor(v / 10.0 ** (e - 7) + self.off) + "e%d" % e if abs(v) > 1e-12 else "0"

    def rnd(self, *key):
        return random.Random(self.digest(("r",) + key))

    def fresh(self, kind, *key):
        """a random value of the given kind, a function of key"""
        r = self.rnd(*key)
        if kind == "num":
            v = r.uniform(0.25, 1.6)
            return -v if self.signed and r.random() < 0.35 else v
        if kind == "int":
            return r.choice((1, 2, 3, 4))
        if kind == "bool":
            return r.random() < 0.5
        if kind in ("vec", "rvec", "mat"):
            n = self.dim
            sh = (n, 1) if kind == "vec" else (1, n) if kind == "rvec" else (n, n)
            return np.array([[r.uniform(-1.5, 1.5) for _ in range(sh[1])] for _ in range(sh[0])])
        if isinstance(kind, tuple) and kind[0] == "list":
            return [self.fresh(kind[1], "el", i, *key) for i in range(self.dim + 1)]
        if isinstance(kind, tuple) and kind[0] == "tuple":
            return tuple(self.fresh(k, "tu", i, *key) for i, k in enumerate(kind[1:]))
        if isinstance(kind, tuple) and kind[0] == "opt":
            return ("opt", self.fresh(kind[1], "op", *key))
        return Opq(self.digest(("q",) + key))

    # ------------------------------------------------------------ evaluation
    def kind(self, t):
        if self.kindfn:
            k = self.kindfn(t)
            if k is not None:
                return k
        k = self.kinds.get(t)
        if k is not None:
            return k
        if t.op == "init" and self.prog is not None:
            return loc_kind(self.prog, self.fn, t.args[0], self.this_cls, self.roots)
        if t.op == "at":
            k = self.kind(t.args[0])
            if isinstance(k, tuple) and k[0] == "list":
                return k[1]
            if k in ("vec", "mat", "rvec"):
                return "num"
        if t.op == "get":
            k = self.kind(t.args[0])
            if isinstance(k, tuple) and k[0] == "tuple" and t.args[1] < len(k) - 1:
                return k[1 + t.args[1]]
        if t.op in ("size", "rows", "cols"):
            return "int"
        return None

    def ev(self, t):
        if t in self.assign:
            return self.assign[t]
        if t.op == "c":
            v = t.args[0]
            if isinstance(v, bool):
                return v
            try:
                return float(v) if v.denominator != 1 else int(v)
            except AttributeError:
                return Opq(self.digest(("c", str(v))))
        fv = _fv(t)
        key = t
        if fv and self.bind:
            key = (t, tuple(sorted((i.id, self.bind[i]) for i in fv if i in self.bind)))
        memo = self.memo if _vol(t) else self.memo0
        try:
            r = memo[key]
        except KeyError:
            self.depth += 1
            r = self._ev(t)
            self.depth -= 1
            memo[key] = r
        return r

    def T_(self, x):
        if isinstance(x, T):
            return self.ev(x)
        if isinstance(x, tuple):
            return tuple(self.T_(y) for y in x)
        return x

    def numv(self, v, what=None):
        """as a number or array"""
        if isinstance(v, (bool, np.bool_)):
            return int(v)
        if isinstance(v, (int, float, complex, np.ndarray, np.floating, np.integer, np.complexfloating)):
            return v
        if isinstance(v, Opq):
            self.blind.add("opaque value used as a number")
            return random.Random(v.h).uniform(0.3, 1.5)
        raise Undef("number expected, got %r" % (v,))

    def scalar(self, v):
        v = self.numv(v)
        if isinstance(v, np.ndarray):
            if v.size == 1:
                return v.ravel()[0]
            raise Undef("scalar expected")
        return v

    def integer(self, v):
        v = self.scalar(v)
        if isinstance(v, complex):
            v = v.real
        if abs(v - round(v)) > 1e-9:
            self.blind.add("non-integer index")
        return int(round(v))

    def arr(self, v):
        v = self.numv(v)
        if isinstance(v, np.ndarray):
            return v
        return np.array([[v]])

    def addv(self, a, b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            if a.shape == b.shape:
                return a + b
            if a.size == 1:
                return a.ravel()[0] + b
            if b.size == 1:
                return a + b.ravel()[0]
            if a.shape == b.shape[::-1] and 1 in a.shape:
                return a + b.T
            raise Misfit("shape mismatch %s %s" % (a.shape, b.shape))
        return a + b

    def mulv(self, a, b):
        if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
            if a.shape == b.shape:
                return a * b
            if a.size == 1:
                return a.ravel()[0] * b
            if b.size == 1:
                return a * b.ravel()[0]
            raise Misfit("shape mismatch %s %s" % (a.shape, b.shape))
        return a * b

    def powi(self, a, e):
        if e < 0:
            if isinstance(a, np.ndarray):
                if np.any(a == 0):
                    raise Undef("0 division")
            elif a == 0:
                raise Undef("0 division")
            return 1.0 / (a ** (-e)) if e != -1 else 1.0 / a
        return a ** e

    def _ev(self, t):
        op = t.op
        if op.startswith("E.vw."):
            r = self.vwop(t, op[5:], [self.ev(x) for x in t.args])
            if r is not None:
                return r
        if op.startswith("E."):
            r = self.eop(t, op[2:], [self.ev(x) for x in t.args if isinstance(x, T)])
            if r is not None:
                return r
        f = getattr(self, "o_" + op.replace("*", "_mul").replace("/", "_div"), None)
        if f is not None:
            return f(t, *t.args)
        return self.other(t)

    def other(self, t):
        op = t.op
        k = self.kind(t)
        if op == "tick" and getattr(self, "worldok", False):
            pass
        elif op in BLIND or op.startswith("E.") or op.startswith("iterop") or op.startswith("m:") or op.startswith("o:"):
            self.blind.add(op)
        if op in ("call", "cfg", "app") and t.args and isinstance(t.args[0], str):
            nm = t.args[0]
        else:
            nm = op
        if op == "call" and nm in ("__builtin_huge_val", "__builtin_huge_valf", "__builtin_inf", "__builtin_inff"):
            return float("inf")
        if k is None:
            k = "num" if op in ("cfg", "limit") else None
        if k is None:
            self.unkinded.add(t)
        parts = tuple(self.T_(a) for a in t.args)
        if op in ("init", "sym"):
            parts = (show(t, 20),)
        if op == "cfg":
            parts = (show(t, 20),)
            if nm.split("::")[-1] in ("noise",):
                return self.rnd("cfg", show(t, 20)).uniform(0.05, 0.4)
        if self.shape is not None:
            v = self.shape(self, t, k)
            if v is not None:
                return v
        return self.fresh(k or "opq", op, *parts)

    # leaves and arithmetic
    def o_idx(self, t, key, lo, hi):
        if t in self.bind:
            return self.bind[t]
        a, b = self.integer(self.ev(lo)), self.integer(self.ev(hi))
        if b <= a:
            raise Undef("empty loop range")
        return self.rnd("idx", t.id if False else "i", a, b).randrange(a, b)

    def o_lin(self, t, c, xs):
        r = int(c) if c.denominator == 1 else float(c)
        for x, k in xs:
            v = self.numv(self.ev(x))
            k = int(k) if k.denominator == 1 else float(k)
            v = v * k
            r = v if (isinstance(r, int) and r == 0) else self.addv(r, v)
        return r

    def o_mul(self, t, fs):
        r = None
        for x, e in fs:
            v = self.powi(self.numv(self.ev(x)), e)
            r = v if r is None else self.mulv(r, v)
        return r

    def o_fdiv0(self, t, a):
        raise Undef("division by zero")

    def fun(self, t, x, np_f, dom=None):
        v = self.numv(self.ev(x))
        if dom is not None:
            vv = np.real(v)
            if not np.all(dom(vv)):
                raise Undef("domain")
        return np_f(v)

    def o_sqrt(self, t, x):
        return self.fun(t, x, np.sqrt, lambda v: v >= 0)

    def o_log(self, t, x):
        if x is ZERO:
            return float("-inf")
        return self.fun(t, x, np.log, lambda v: v > 0)

    def o_log2(self, t, x):
        return self.fun(t, x, np.log2, lambda v: v > 0)

    def o_log10(self, t, x):
        return self.fun(t, x, np.log10, lambda v: v > 0)

    def o_log1p(self, t, x):
        return self.fun(t, x, np.log1p, lambda v: v > -1)

    def o_exp(self, t, x):
        return self.fun(t, x, np.exp, lambda v: np.abs(v) < 300)

    def o_sin(self, t, x):
        return self.fun(t, x, np.sin)

    def o_cos(self, t, x):
        return self.fun(t, x, np.cos)

    def o_tanh(self, t, x):
        return self.fun(t, x, np.tanh)

    def o_abs(self, t, x):
        v = self.numv(self.ev(x))
        if np.iscomplexobj(v):
            return np.where(np.real(v) < 0, -v, v)[()] if isinstance(v, np.ndarray) else (-v if v.real < 0 else v)
        return np.abs(v)

    def o_erf(self, t, x):
        v = self.scalar(self.ev(x))
        return cerf(v)

    def o_erfc(self, t, x):
        v = self.scalar(self.ev(x))
        return 1 - cerf(v)

    def o_tgamma(self, t, x):
        return math.gamma(self.scalar(self.ev(x)))

    def o_floor(self, t, x):
        return np.floor(np.real(self.numv(self.ev(x))))

    def o_ceil(self, t, x):
        return np.ceil(np.real(self.numv(self.ev(x))))

    def o_round(self, t, x):
        v = np.real(self.numv(self.ev(x)))
        return np.sign(v) * np.floor(np.abs(v) + 0.5)

    def o_trunc(self, t, x):
        v = self.ev(x)
        v = np.real(self.numv(v))
        return int(np.trunc(v)) if not isinstance(v, np.ndarray) else np.trunc(v)

    o_ftrunc = o_trunc

    def o_idiv(self, t, a, b):
        x, y = self.integer(self.ev(a)), self.integer(self.ev(b))
        if y == 0:
            raise Misfit("division by zero")
        return int(x / y)

    def o_mod(self, t, a, b):
        x, y = self.integer(self.ev(a)), self.integer(self.ev(b))
        if y == 0:
            raise Misfit("division by zero")
        return int(math.fmod(x, y))

    def o_pow(self, t, a, b):
        x, y = self.scalar(self.ev(a)), self.scalar(self.ev(b))
        if np.real(x) <= 0:
            raise Undef("pow domain")
        return x ** y

    def o_max(self, t, a, b):
        x, y = self.scalar(self.ev(a)), self.scalar(self.ev(b))
        return x if np.real(x) >= np.real(y) else y

    def o_min(self, t, a, b):
        x, y = self.scalar(self.ev(a)), self.scalar(self.ev(b))
        return x if np.real(x) <= np.real(y) else y

    def o_limit(self, t, n, ty):
        if n in ("max",):
            return 1e15 if "double" in ty else 2 ** 31 - 1
        if n == "lowest":
            return -1e15
        if n == "infinity":
            return 1e15
        if n == "epsilon":
            return 2.2e-16
        if n == "min":
            return 1e-300 if "double" in ty else -2 ** 31
        return self.other(t)

    # booleans
    def truth(self, v):
        if isinstance(v, (bool, np.bool_)):
            return bool(v)
        if isinstance(v, Opq):
            return bool(random.Random(v.h).random() < 0.5)
        return bool(np.real(self.scalar(v)) != 0)

    def o_and(self, t, *xs):
        return all(self.truth(self.ev(x)) for x in xs)

    def o_not(self, t, x):
        return not self.truth(self.ev(x))

    def cmpv(self, a, b):
        x, y = self.scalar(self.ev(a)), self.scalar(self.ev(b))
        return np.real(x), np.real(y)

    def o_ipos(self, t, d):
        return bool(np.real(self.scalar(self.ev(d))) > 1e-12)

    def o_lt(self, t, a, b):
        x, y = self.cmpv(a, b)
        return bool(x < y)

    def o_le(self, t, a, b):
        x, y = self.cmpv(a, b)
        return bool(x <= y)

    def o_notnan(self, t, a):
        v = self.ev(a)
        return not (isinstance(v, (float, np.floating)) and np.isnan(v))

    def o_isnan(self, t, a):
        v = self.ev(a)
        return isinstance(v, (float, np.floating)) and bool(np.isnan(v))

    def o_isinf(self, t, a):
        v = self.ev(a)
        return isinstance(v, (float, np.floating)) and bool(np.isinf(v))

    def o_eq(self, t, a, b):
        return same(self.ev(a), self.ev(b), 1e-9)

    def o_ite(self, t, c, a, b):
        return self.ev(a) if self.truth(self.ev(c)) else self.ev(b)

    # loops
    def rng(self, i):
        lo, hi = self.integer(self.ev(i.args[1])), self.integer(self.ev(i.args[2]))
        return range(lo, max(lo, hi))

    def over(self, i, f):
        old = self.bind.get(i)
        out = []
        if i.op != "idx":
            raise Undef("no index")
        for k in self.rng(i):
            self.bind[i] = k
            out.append(f(k))
        if old is None:
            self.bind.pop(i, None)
        else:
            self.bind[i] = old
        return out

    def o_sum(self, t, i, body):
        r = 0
        for v in self.over(i, lambda k: self.numv(self.ev(body))):
            r = v if isinstance(r, int) and r == 0 else self.addv(r, v)
        return r

    def lst(self, v):
        if isinstance(v, list):
            return v
        if isinstance(v, Opq):
            self.blind.add("opaque container")
            return [Opq(self.digest(("lst", v, i))) for i in range(self.dim + 1)]
        if isinstance(v, np.ndarray):
            return list(v.ravel())
        raise Undef("container expected")

    def o_appendmap(self, t, base, i, body):
        return list(self.lst(self.ev(base))) + self.over(i, lambda k: self.ev(body))

    def o_filtermap(self, t, base, i, c, body):
        r = list(self.lst(self.ev(base)))
        for x in self.over(i, lambda k: (self.truth(self.ev(c)), self.ev(body) if self.truth(self.ev(c)) else None)):
            if x[0]:
                r.append(x[1])
        return r

    def o_lastsel(self, t, base, i, c, body):
        r = self.ev(base)
        for x in self.over(i, lambda k: (True, self.ev(body)) if self.truth(self.ev(c)) else (False, None)):
            if x[0]:
                r = x[1]
        return r

    def o_runmax(self, t, base, i, body):
        r = self.scalar(self.ev(base))
        for v in self.over(i, lambda k: self.scalar(self.ev(body))):
            r = v if np.real(v) > np.real(r) else r
        return r

    def o_runmin(self, t, base, i, body):
        r = self.scalar(self.ev(base))
        for v in self.over(i, lambda k: self.scalar(self.ev(body))):
            r = v if np.real(v) < np.real(r) else r
        return r

    def o_exists(self, t, i, c):
        return any(self.over(i, lambda k: self.truth(self.ev(c))))

    def o_first(self, t, i, c):
        for k, b in enumerate(self.over(i, lambda k: self.truth(self.ev(c)))):
            if b:
                return self.rng(i)[k]
        raise Undef("first of nothing")

    def extremum(self, c, lo, hi, key, ismax):
        xs = self.lst(self.ev(c))
        lo, hi = self.integer(self.ev(lo)), self.integer(self.ev(hi))
        if hi > len(xs) or lo < 0:
            raise Misfit("range outside the container")
        if hi <= lo:
            return hi
        A, B = mk("sym", "cmp#a"), mk("sym", "cmp#b")

        def less(x, y):
            if key.op == "nokey":
                return np.real(self.scalar(x)) < np.real(self.scalar(y))
            memo, sa = self.memo, (self.assign.get(A), self.assign.get(B))
            try:
                self.memo = {}
                self.assign[A], self.assign[B] = x, y
                return self.truth(self.ev(key))
            finally:
                self.memo = memo
                for k, v in ((A, sa[0]), (B, sa[1])):
                    if v is None:
                        self.assign.pop(k, None)
                    else:
                        self.assign[k] = v
        b = lo
        for k in range(lo + 1, hi):
            if less(xs[b], xs[k]) if ismax else less(xs[k], xs[b]):
                b = k
        return b

    def o_argmax(self, t, c, lo, hi, key):
        return self.extremum(c, lo, hi, key, True)

    def o_argmin(self, t, c, lo, hi, key):
        return self.extremum(c, lo, hi, key, False)

    LIMIT = 400

    def recur(self, i, cond, mus, v0s, nvs, rev, exits=()):
        """what the recurrence defines: (exit taken or None, index there, values of the variables)"""
        vals = [self.ev(v) for v in v0s]
        saved = {m: self.assign.get(m) for m in mus}
        memo = self.memo
        bounded = i.op == "idx"
        old = self.bind.get(i) if bounded else None
        try:
            if bounded:
                ks = list(self.rng(i))
                if rev is ONE:
                    ks.reverse()
            else:
                ks = range(self.LIMIT + 1)
            for k in ks:
                self.memo = {}
                if bounded:
                    self.bind[i] = k
                for m, v in zip(mus, vals):
                    self.assign[m] = v
                if not bounded:
                    if not self.truth(self.ev(cond)):
                        return None, k, vals
                    if k == self.LIMIT:
                        raise Undef("loop does not end within %d iterations" % k)
                for n, c in enumerate(exits):
                    if self.truth(self.ev(c)):
                        return n, k, vals
                vals = [self.ev(n) for n in nvs]
            return None, None, vals
        finally:
            self.memo = memo
            for m in mus:
                if saved[m] is None:
                    self.assign.pop(m, None)
                else:
                    self.assign[m] = saved[m]
            if bounded:
                if old is None:
                    self.bind.pop(i, None)
                else:
                    self.bind[i] = old

    def with_syms(self, t, d):
        """the value of a term under a temporary assignment"""
        memo, old = self.memo, {k: self.assign.get(k) for k in d}
        try:
            self.memo = {}
            self.assign.update(d)
            return self.ev(t)
        finally:
            self.memo = memo
            for k, v in old.items():
                if v is None:
                    self.assign.pop(k, None)
                else:
                    self.assign[k] = v

    def o_preduce(self, t, r, init, body, red):
        """a parallel reduction under one schedule: a random tree of splits, folds and joins, drawn from the seed"""
        lo, hi = self.integer(self.ev(r.args[0])), self.integer(self.ev(r.args[1]))
        ident = self.ev(init)
        rnd = random.Random("%s/%s/%s" % (self.seed, lo, hi))

        def fold(a, b, acc):
            k = rnd.randrange(3) if b - a > 1 else 0
            if k == 0:
                return self.with_syms(body, {PRLO: a, PRHI: b, PRCUR: acc})
            m = rnd.randrange(a + 1, b)
            if k == 1:
                return fold(m, b, fold(a, m, acc))
            left = fold(a, m, acc)
            return self.with_syms(red, {PRA: left, PRB: fold(m, b, ident)})
        return fold(lo, hi, ident) if lo < hi else ident

    def o_fix(self, t, i, cond, mus, v0s, nvs, z):
        return self.recur(i, cond, mus, v0s, nvs, z)[2][0]

    def o_system(self, t, i, cond, mus, v0s, nvs, exits, z):
        return self.recur(i, cond, mus, v0s, nvs, z, exits)

    def o_loopexit(self, t, sys, n, c):
        return self.ev(sys)[0] == n

    def o_fixat(self, t, sys, n, m):
        e, k, vals = self.ev(sys)
        if e != n:
            raise Undef("exit not taken")
        if m.op == "idx":
            return k
        mus = sys.args[2]
        if m not in mus:
            return self.derived(sys, m, k)
        return vals[mus.index(m)]

    def o_fixend(self, t, sys, m):
        e, k, vals = self.ev(sys)
        if e is not None:
            raise Undef("left by an exit")
        mus = sys.args[2]
        if m not in mus:
            return self.derived(sys, m, None)
        return vals[mus.index(m)]

    def derived(self, sys, m, k):
        self.blind.add("loop variable")
        raise Undef("loop variable outside the recurrence")

    # containers
    def o_empty(self, t):
        return []

    def o_emat(self, t):
        return np.zeros((0, 1))

    def o_list(self, t, *xs):
        return [self.ev(x) for x in xs]

    def o_push(self, t, a, x):
        return list(self.lst(self.ev(a))) + [self.ev(x)]

    def o_popped(self, t, a):
        return list(self.lst(self.ev(a)))[:-1]

    def o_vecn(self, t, n, v=None):
        return [self.ev(v) if v is not None else Opq(1)] * self.integer(self.ev(n))

    def o_slice(self, t, c, a, b):
        return list(self.lst(self.ev(c)))[self.integer(self.ev(a)):self.integer(self.ev(b))]

    def o_concat(self, t, a, b):
        return list(self.lst(self.ev(a))) + list(self.lst(self.ev(b)))

    def o_entry(self, t, *xs):
        return tuple(["entry"] + [self.T_(x) for x in xs])

    def o_tuple(self, t, *xs):
        return tuple(self.ev(x) for x in xs)

    throws = False   # whether exceptions a handler swallows are part of the interpretation

    def o_caught(self, t, *a):
        if self.throws == "never":
            return False
        if not self.throws:
            return self.other(t)
        return self.rnd("caught", *a).random() < 0.3

    def o_afterthrow(self, t, v):
        if not self.throws:
            return self.other(t)
        return self.ev(v)   # thrown before anything was changed

    def o_some(self, t, x):
        return ("opt", self.ev(x))

    def o_none(self, t):
        return ("none",)

    def o_isset(self, t, x):
        v = self.ev(x)
        if isinstance(v, tuple) and v and v[0] == "opt":
            return True
        if v == ("none",):
            return False
        return bool(self.rnd("isset", v).random() < 0.5)

    def o_optget(self, t, x):
        v = self.ev(x)
        if isinstance(v, tuple) and v and v[0] == "opt":
            return v[1]
        if v == ("none",):
            raise Misfit("an empty optional is read")
        return self.fresh(self.kind(t) or "opq", "optget", v)

    def o_get(self, t, a, k):
        v = self.ev(a)
        if isinstance(v, tuple) and k < len(v):
            return v[k]
        return self.other(t)

    def o_size(self, t, a):
        v = self.ev(a)
        if isinstance(v, list):
            return len(v)
        if isinstance(v, np.ndarray):
            return v.size
        return self.other(t)

    def o_rows(self, t, a):
        v = self.ev(a)
        if isinstance(v, np.ndarray):
            return v.shape[0]
        return self.other(t)

    def o_cols(self, t, a):
        v = self.ev(a)
        if isinstance(v, np.ndarray):
            return v.shape[1]
        return self.other(t)

    def o_at(self, t, a, *ix):
        v = self.ev(a)
        return self.select(v, ("at",) + tuple(self.ev(i) for i in ix), t)

    def o_sel(self, t, a, s):
        return self.select(self.ev(a), self.T_(s), t)

    def o_upd(self, t, base, path, v):
        return self.update(self.ev(base), self.T_(path), self.ev(v), t)

    def o_mapupd(self, t, base, _, ws):
        cur = self.ev(base)
        for idxs, path, v in ws:
            def rec(k):
                nonlocal cur
                if k == len(idxs):
                    cur = self.update(cur, self.T_(path), self.ev(v), t)
                    return
                self.over(idxs[k], lambda q: rec(k + 1))
            rec(0)
        return cur

    def region(self, shape, s):
        """(row slice, col slice) of an Eigen view"""
        n, a = s[0], [self.integer(x) for x in s[1:]]
        R, C = shape
        vec = C == 1
        if n == "row":
            return slice(a[0], a[0] + 1), slice(0, C)
        if n == "col":
            return slice(0, R), slice(a[0], a[0] + 1)
        if n == "head":
            return (slice(0, a[0]), slice(0, C)) if vec else (slice(0, R), slice(0, a[0]))
        if n == "tail":
            return (slice(R - a[0], R), slice(0, C)) if vec else (slice(0, R), slice(C - a[0], C))
        if n == "segment":
            return (slice(a[0], a[0] + a[1]), slice(0, C)) if vec else (slice(0, R), slice(a[0], a[0] + a[1]))
        if n == "topRows":
            return slice(0, a[0]), slice(0, C)
        if n == "bottomRows":
            return slice(R - a[0], R), slice(0, C)
        if n == "leftCols":
            return slice(0, R), slice(0, a[0])
        if n == "rightCols":
            return slice(0, R), slice(C - a[0], C)
        if n == "middleRows":
            return slice(a[0], a[0] + a[1]), slice(0, C)
        if n == "middleCols":
            return slice(0, R), slice(a[0], a[0] + a[1])
        if n == "topLeftCorner":
            return slice(0, a[0]), slice(0, a[1])
        if n == "bottomRightCorner":
            return slice(R - a[0], R), slice(C - a[1], C)
        if n == "topRightCorner":
            return slice(0, a[0]), slice(C - a[1], C)
        if n == "bottomLeftCorner":
            return slice(R - a[0], R), slice(0, a[1])
        if n == "block":
            return slice(a[0], a[0] + a[2]), slice(a[1], a[1] + a[3])
        return None

    def inb(self, sl, shape):
        for q, n in zip(sl, shape):
            if q.start < 0 or q.stop > n or q.start > q.stop:
                raise Misfit("view out of range")
        return sl

    def select(self, v, s, t=None):
        n = s[0]
        if isinstance(v, list) and n == "at":
            k = self.integer(s[1])
            if 0 <= k < len(v):
                return v[k]
            raise Misfit("index out of range")
        if n == "at" and (isinstance(v, np.ndarray) or (isinstance(v, (int, float, complex)) and not isinstance(v, bool))):
            v = self.arr(v)
            if len(s) == 2:
                k = self.integer(s[1])
                f = v.ravel(order="F")
                if 0 <= k < f.size:
                    return f[k]
                raise Misfit("index out of range")
            i, j = self.integer(s[1]), self.integer(s[2])
            if 0 <= i < v.shape[0] and 0 <= j < v.shape[1]:
                return v[i, j]
            raise Misfit("index out of range")
        if n == "get" and isinstance(v, tuple):
            return v[s[1]]
        if n == "opt" and isinstance(v, tuple) and v and v[0] == "opt":
            return v[1]
        if n == "opt" and v == ("none",):
            raise Misfit("an empty optional is read")
        if isinstance(v, np.ndarray):
            if n == "diagonal":
                return np.array([[v[i, i]] for i in range(min(v.shape))])
            if n in ("tri",):
                md = str(s[1])
                if md in ("1",):
                    return np.tril(v)
                if md in ("2",):
                    return np.triu(v)
            if n == "sym":
                md = str(s[1])
                if md == "1":
                    return np.tril(v) + np.tril(v, -1).T
                if md == "2":
                    return np.triu(v) + np.triu(v, 1).T
            if n == "view":
                return v
            r = self.region(v.shape, s)
            if r is not None:
                self.inb(r, v.shape)
                return v[r[0], r[1]].copy()
        if isinstance(v, dict) and n == "fld":
            if s[1] in v:
                return v[s[1]]
        k = self.kind(t) if t is not None else None
        if k is None and not (n == "at" and len(s) == 2 and isinstance(s[1], int) and not isinstance(v, (dict, tuple, list, np.ndarray))):
            self.blind.add("sel " + str(n))     # (an element of an input the interpretation does not look into is just another input)
        return self.fresh(k or "opq", "sel", v if not isinstance(v, dict) else str(sorted(v)), tuple(str(x) if not isinstance(x, (int, float)) else x for x in s))

    def update(self, v, path, x, t=None):
        if not path:
            return x
        s = path[0]
        n = s[0]
        if n == "view":
            return self.update(v, path[1:], x, t)
        if len(path) > 1:
            x = self.update(self.select(v, s, None), path[1:], x, t)
        if isinstance(v, list) and n == "at":
            k = self.integer(s[1])
            if not 0 <= k < len(v):
                raise Misfit("index out of range")
            r = list(v)
            r[k] = x
            return r
        if isinstance(v, tuple) and n == "get":
            r = list(v)
            r[s[1]] = x
            return tuple(r)
        if n == "opt" and isinstance(v, tuple) and v and v[0] == "opt":
            return ("opt", x)
        if isinstance(v, np.ndarray):
            r = v.astype(complex) if np.iscomplexobj(x) else v.copy()
            if n == "at":
                if len(s) == 2:
                    k = self.integer(s[1])
                    if not 0 <= k < v.size:
                        raise Misfit("index out of range")
                    i, j = k % v.shape[0], k // v.shape[0]
                else:
                    i, j = self.integer(s[1]), self.integer(s[2])
                if not (0 <= i < v.shape[0] and 0 <= j < v.shape[1]):
                    raise Misfit("index out of range")
                r[i, j] = self.scalar(x)
                return r
            if n == "diagonal":
                xv = np.broadcast_to(self.arr(x).ravel(), (min(v.shape),))
                for i in range(min(v.shape)):
                    r[i, i] = xv[i]
                return r
            if n == "tri":
                md = str(s[1])
                xv = self.arr(x)
                if xv.shape == v.shape and md in ("1", "2"):
                    m = np.tril(np.ones(v.shape)) if md == "1" else np.triu(np.ones(v.shape))
                    return np.where(m > 0, xv, r)
            g = self.region(v.shape, s)
            if g is not None:
                self.inb(g, v.shape)
                xv = self.arr(x)
                tgt = r[g[0], g[1]]
                if xv.shape != tgt.shape:
                    if xv.size == 1:
                        xv = np.full(tgt.shape, xv.ravel()[0])
                    elif xv.shape[::-1] == tgt.shape and 1 in xv.shape:
                        xv = xv.T
                    else:
                        raise Misfit("shape mismatch in view assignment %s %s" % (xv.shape, tgt.shape))
                r[g[0], g[1]] = xv
                return r
        if isinstance(v, dict) and n == "fld":
            r = dict(v)
            r[s[1]] = x
            return r
        self.blind.add("upd " + str(n))
        return Opq(self.digest(("upd", v if not isinstance(v, dict) else str(v), str(s), x if not isinstance(x, dict) else str(x))))

    def o_struct(self, t, base, items):
        r = {}
        for n, v in items:
            d = r
            parts = n.split("/")
            for p in parts[:-1]:
                d = d.setdefault(p, {})
                if not isinstance(d, dict):
                    break
            if isinstance(d, dict):
                d[parts[-1]] = self.ev(v)
        r["#base"] = self.ev(base)
        return r

    # Eigen
    def o_mconst(self, t, n, m, v):
        return np.full((self.integer(self.ev(n)), self.integer(self.ev(m))), self.scalar(self.ev(v)) * 1.0)

    def o_identity(self, t, n):
        return np.eye(self.integer(self.ev(n)))

    def o_ctsize(self, t, s):
        m = re.match(r".*, (\d+), (\d+)", s)
        return self.dim

    def o_resized(self, t, base, n, fill):
        n = self.integer(self.ev(n))
        b = self.ev(base)
        if n < 0:
            raise Undef("negative size")
        if isinstance(b, list):
            f = Opq(7) if fill is None or fill.op in ("uninitm", "uninit", "opaque") else self.ev(fill)
            return (b + [f] * n)[:n]
        if not isinstance(b, np.ndarray):
            return self.other(t)
        b = b.ravel(order="F")
        r = np.full((n, 1), 7.77e7, dtype=b.dtype if b.size else float)
        k = min(n, b.size)
        r[:k, 0] = b[:k]
        return r

    def o_resized2(self, t, base, n, m, fill):
        n, m = self.integer(self.ev(n)), self.integer(self.ev(m))
        b = self.ev(base)
        if not isinstance(b, np.ndarray) or n < 0 or m < 0:
            return self.other(t)
        if n * m > 10 ** 7:
            raise Misfit("a matrix of %d x %d" % (n, m))
        f = (7.77e7, -4.4e7, 1e-3)[self.seed % 3] if fill.op == "uninitm" else self.scalar(self.ev(fill))
        r = np.full((n, m), f, dtype=b.dtype if b.size else float)
        a, c = min(n, b.shape[0]), min(m, b.shape[1])
        if b.size:
            r[:a, :c] = b[:a, :c]
        return r

    def o_reshaped(self, t, base, n, m):
        n, m = self.integer(self.ev(n)), self.integer(self.ev(m))
        b = self.ev(base)
        if not isinstance(b, np.ndarray) or n < 0 or m < 0:
            return self.other(t)
        if n * m == b.size:
            return b.ravel(order="F").reshape((n, m), order="F")
        return np.full((n, m), (7.77e7, -4.4e7, 1e-3)[self.seed % 3])

    def o_resizedlike(self, t, base, like):
        b, l = self.ev(base), self.arr(self.ev(like))
        if not isinstance(b, np.ndarray):
            return self.other(t)
        r = l.copy()
        a, c = min(l.shape[0], b.shape[0]), min(l.shape[1], b.shape[1])
        r[:a, :c] = b[:a, :c]
        return r

    def o_comma(self, t, *xs):
        vs = [self.numv(self.ev(x)) for x in xs]
        if all(not isinstance(v, np.ndarray) for v in vs):
            return np.array([[v] for v in vs])
        return np.concatenate([self.arr(v) for v in vs], axis=0)

    def o_bcast(self, t, x):
        return self.numv(self.ev(x))

    def o_transp(self, t, x):
        return self.arr(self.ev(x)).T

    def o_mm(self, t, a, b):
        x, y = self.ev(a), self.ev(b)
        for z in (x, y):
            if isinstance(z, (int, float)) and z == 0:
                return 0  # a zero matrix whose shape the normal form has forgotten
        x, y = self.arr(x), self.arr(y)
        if x.shape[1] != y.shape[0]:
            if x.size == 1 or y.size == 1:
                return self.mulv(x, y)
            raise Misfit("shape mismatch in product")
        return x @ y

    def o_scal(self, t, x):
        return self.scalar(self.ev(x))

    def o_ew_mul(self, t, a, b):
        return self.mulv(self.numv(self.ev(a)), self.numv(self.ev(b)))

    def o_ew_div(self, t, a, b):
        y = self.numv(self.ev(b))
        if np.any(y == 0):
            raise Misfit("division by zero")
        return self.mulv(self.numv(self.ev(a)), 1.0 / y)

    def o_ewf(self, t, f, x):
        v = self.numv(self.ev(x))
        if f == "exp":
            if np.any(np.abs(np.real(v)) > 300):
                raise Undef("exp")
            return np.exp(v)
        if f == "log":
            if np.any(np.real(v) <= 0):
                raise Undef("log")
            return np.log(v)
        if f == "sqrt":
            if np.any(np.real(v) < 0):
                raise Undef("sqrt")
            return np.sqrt(v)
        if f in ("abs",):
            return np.where(np.real(v) < 0, -v, v)
        if f in ("sin", "cos", "tanh"):
            return getattr(np, f)(v)
        return self.other(t)

    def o_ewpow(self, t, a, b):
        v = self.numv(self.ev(a))
        q = self.scalar(self.ev(b))
        if np.imag(q) == 0 and float(np.real(q)).is_integer() and 0 <= np.real(q) <= 16:
            return v ** int(np.real(q))
        if np.any(np.real(v) <= 0):
            raise Undef("pow")
        return v ** q

    def o_msum(self, t, x):
        v = self.numv(self.ev(x))
        return v.sum() if isinstance(v, np.ndarray) else v

    def o_mprod(self, t, x):
        v = self.numv(self.ev(x))
        return v.prod() if isinstance(v, np.ndarray) else v

    def o_mmaxCoeff(self, t, x):
        v = self.arr(self.ev(x)).ravel()
        return v[np.argmax(np.real(v))]

    def o_mminCoeff(self, t, x):
        v = self.arr(self.ev(x)).ravel()
        return v[np.argmin(np.real(v))]

    def o_margmax(self, t, x, k):
        v = self.arr(self.ev(x)).ravel(order="F")
        return int(np.argmax(np.real(v)))

    def o_margmin(self, t, x, k):
        v = self.arr(self.ev(x)).ravel(order="F")
        return int(np.argmin(np.real(v)))

    def o_trace(self, t, x):
        return np.trace(self.arr(self.ev(x)))

    def o_minv(self, t, x):
        v = self.arr(self.ev(x))
        if v.shape[0] != v.shape[1]:
            raise Undef("inverse")
        return np.linalg.inv(v)

    def o_decomp(self, t, n, x):
        return ("decomp", n, self.arr(self.ev(x)))

    def o_chol(self, t, x):
        return chol(self.arr(self.ev(x)))

    def o_trisolve(self, t, a, b):
        x, y = self.ev(a), self.arr(self.ev(b))
        if isinstance(x, tuple) and x and x[0] == "decomp":
            x = x[2]
        x = self.arr(x)
        if x.shape[0] != y.shape[0] or x.shape[0] != x.shape[1]:
            raise Misfit("solve shape")
        return np.linalg.solve(x, y)

    def eop(self, t, name, xs):
        if name == "reverse" and isinstance(xs[0], np.ndarray):
            return xs[0][::-1, ::-1]
        if name in ("isNaN", "isInf", "isFinite") and isinstance(xs[0], np.ndarray):
            return {"isNaN": np.isnan, "isInf": np.isinf, "isFinite": np.isfinite}[name](xs[0])
        if name == "allFinite" and isinstance(xs[0], np.ndarray):
            return bool(np.all(np.isfinite(xs[0])))
        if name == "hasNaN" and isinstance(xs[0], np.ndarray):
            return bool(np.any(np.isnan(xs[0])))
        if name in ("all", "any") and isinstance(xs[0], np.ndarray) and xs[0].dtype == bool:
            return bool((np.all if name == "all" else np.any)(xs[0]))
        if name == "count" and isinstance(xs[0], np.ndarray) and xs[0].dtype == bool:
            return int(np.sum(xs[0]))
        if name in ("operator<", "operator>", "operator<=", "operator>=") and len(xs) == 2:
            a, b = xs
            if isinstance(a, np.ndarray) and (isinstance(b, (int, float, np.number)) or isinstance(b, np.ndarray) and b.shape == a.shape):
                return {"<": np.less, ">": np.greater, "<=": np.less_equal, ">=": np.greater_equal}[name[8:]](np.real(a), np.real(b))
        if name == "same" and len(xs) == 2 and all(isinstance(x, np.ndarray) for x in xs):
            if xs[0].shape != xs[1].shape:
                raise Misfit("shapes compared")
            return bool(np.all(xs[0] == xs[1]))
        if name in ("operator==", "operator!=") and len(xs) == 2 and isinstance(xs[0], np.ndarray):
            a, b = xs
            if isinstance(b, (int, float, np.number)) or isinstance(b, np.ndarray) and b.shape == a.shape:
                return np.equal(a, b) if name[-2] == "=" else np.not_equal(a, b)
        if name == "isZero" and isinstance(xs[0], np.ndarray):
            return bool(np.all(np.abs(xs[0]) <= (float(np.real(xs[1])) if len(xs) > 1 else 1e-12)))
        if name == "isApprox" and len(xs) >= 2 and isinstance(xs[0], np.ndarray) and isinstance(xs[1], np.ndarray) and xs[0].shape == xs[1].shape:
            a, b = xs[0], xs[1]
            p = float(np.real(xs[2])) if len(xs) > 2 else 1e-12
            return bool(np.sum(np.abs(a - b) ** 2) <= p * p * min(np.sum(np.abs(a) ** 2), np.sum(np.abs(b) ** 2)))
        if name == "norm" and isinstance(xs[0], np.ndarray):
            v = self.arr(xs[0])
            return np.sqrt(np.sum(v * v))
        if name == "replicate" and len(xs) == 3:
            return np.tile(self.arr(xs[0]), (self.integer(xs[1]), self.integer(xs[2])))
        if name == "determinant":
            return np.linalg.det(self.arr(xs[0]))
        if name in ("cwiseMax", "cwiseMin") and len(xs) == 2:
            a, b = xs
            return (np.maximum if name[-1] == "x" else np.minimum)(np.real(self.numv(a)), np.real(self.numv(b)))
        if name == "normalized":
            v = self.arr(xs[0])
            n = np.sqrt(np.sum(v * v))
            return v / n
        if name == "stableNorm":
            v = self.arr(xs[0])
            return np.sqrt(np.sum(v * v))
        if name == "matrixL" and isinstance(xs[0], tuple):
            return chol(xs[0][2])
        if name in ("matrixLLT",) and isinstance(xs[0], tuple):
            return None
        return None

    def o_vw(self, t, n, x):
        return ("vw", n, self.arr(self.ev(x)))

    def vwop(self, t, name, xs):
        v = xs[0]
        if not (isinstance(v, tuple) and v and v[0] == "vw"):
            return None
        ax = 0 if v[1] == "colwise" else 1
        m = v[2]
        red = {"sum": np.sum, "mean": np.mean, "prod": np.prod, "maxCoeff": np.max, "minCoeff": np.min}
        if name in red and len(xs) == 1:
            return red[name](m, axis=ax, keepdims=True)
        if name == "squaredNorm":
            return np.sum(m * m, axis=ax, keepdims=True)
        if name == "norm":
            return np.sqrt(np.sum(m * m, axis=ax, keepdims=True))
        if len(xs) == 2 and name in ("operator+", "operator-", "operator*", "operator/"):
            w = self.arr(xs[1])
            want = m.shape[0] if ax == 0 else m.shape[1]
            if w.size != want:
                raise Misfit("shape mismatch")
            w = w.reshape(-1, 1) if ax == 0 else w.reshape(1, -1)
            if name == "operator/" and np.any(w == 0):
                raise Misfit("division by zero")
            return m + w if name[-1] == "+" else m - w if name[-1] == "-" else m * w if name[-1] == "*" else m / w
        if name == "replicate":
            return None
        return None

    def o_permuted(self, t, c, w, lo, hi):
        v = self.ev(c)
        if isinstance(v, Opq):
            raise Undef("opaque")
        n = len(v) if isinstance(v, list) else v.size
        lo, hi = self.integer(self.ev(lo)), self.integer(self.ev(hi))
        if not 0 <= lo <= hi <= n:
            raise Undef("range")
        ix = list(range(lo, hi))
        self.rnd("permuted", self.digest(self.ev(w))).shuffle(ix)
        ix = list(range(lo)) + ix + list(range(hi, n))
        return [v[i] for i in ix] if isinstance(v, list) else np.array([v.ravel()[i] for i in ix]).reshape(v.shape)

    def o_sorted(self, t, c, key, lo=None, mid=None, last=None):
        """std::sort / std::stable_sort / std::partial_sort (whose rest comes in unspecified order)"""
        v = self.ev(c)
        if isinstance(v, Opq):
            self.blind.add("sorted")
            raise Undef("opaque")
        xs = list(v) if isinstance(v, list) else list(v.ravel())
        n = len(xs)
        lo = 0 if lo is None else self.integer(self.ev(lo))
        hi = n
        if last is not None:
            hi = self.integer(self.ev(last.args[1] if last.op == "iter" else last))
        m = hi if mid is None else self.integer(self.ev(mid))
        if last is None:
            hi = m
        if not 0 <= lo <= m <= hi <= n:
            raise Misfit("sorted range")
        if key.op == "nokey":
            if any(isinstance(x, Opq) for x in xs[lo:hi]):
                self.blind.add("sorted")
                raise Undef("opaque")
            part = sorted(xs[lo:hi], key=lambda x: float(np.real(self.scalar(x))))
        else:
            a_, b_ = mk("sym", "cmp#a"), mk("sym", "cmp#b")

            def less(x, y):
                e = self.clone({a_: x, b_: y})
                e.bind = dict(self.bind)
                return e.truth(e.ev(key))
            part = sorted(xs[lo:hi], key=functools.cmp_to_key(lambda x, y: -1 if less(x, y) else 1 if less(y, x) else 0))
        rest = part[m - lo:]
        if rest:
            self.rnd("partial", self.digest(tuple(map(self.digest, rest)))).shuffle(rest)
        out = xs[:lo] + part[:m - lo] + rest + xs[hi:]
        return out if isinstance(v, list) else np.array(out).reshape(v.shape)

    def o_erased(self, t, c, pos):
        v = self.ev(c)
        if isinstance(v, Opq):
            self.blind.add("erased")
            raise Undef("opaque")
        xs = list(v) if isinstance(v, list) else list(v.ravel())
        k = self.integer(self.ev(pos))
        if not 0 <= k < len(xs):
            raise Misfit("erase range")
        del xs[k]
        return xs

    def o_erasedr(self, t, c, lo, hi):
        v = self.ev(c)
        if isinstance(v, Opq):
            self.blind.add("erased")
            raise Undef("opaque")
        xs = list(v) if isinstance(v, list) else list(v.ravel())
        a, b = self.integer(self.ev(lo)), self.integer(self.ev(hi))
        if not 0 <= a <= b <= len(xs):
            raise Misfit("erase range")
        del xs[a:b]
        return xs

    def matv(self, v):
        if not isinstance(v, np.ndarray) or v.dtype == object:
            raise Undef("opaque matrix")
        return v

    def o_permrows(self, t, p, m):
        p, m = self.ev(p), self.matv(self.ev(m))
        r = np.array(m)
        ix = [int(round(float(np.real(k)))) for k in np.asarray(p).ravel()]
        if len(ix) != m.shape[0] or sorted(ix) != list(range(len(ix))):
            raise Undef("not a permutation of the rows")
        for i, k in enumerate(ix):
            r[k] = m[i]
        return r

    def o_permcols(self, t, m, p):
        p, m = self.ev(p), self.matv(self.ev(m))
        ix = [int(round(float(np.real(k)))) for k in np.asarray(p).ravel()]
        if len(ix) != m.shape[1] or sorted(ix) != list(range(len(ix))):
            raise Undef("not a permutation of the columns")
        return m[:, ix]

    def o_perminv(self, t, p):
        v = self.ev(p)
        ix = [int(round(float(np.real(k)))) for k in np.asarray(v).ravel()]
        out = np.zeros(v.shape)
        for i, k in enumerate(ix):
            out[k, 0] = i
        return out

    def o_linspaced(self, t, n, a, b):
        return np.linspace(self.scalar(self.ev(a)), self.scalar(self.ev(b)), self.integer(self.ev(n))).reshape(-1, 1)

    def o_iter(self, t, c, pos):
        return ("iter", self.T_(c.args) if c.op != "addr" else str(c.args[0]), self.ev(pos))

    def o_addr(self, t, loc, sels):
        return Opq(self.digest(("addr", show(mk("addr", loc, sels), 20))))

    def o_strcat(self, t, *xs):
        vs = [self.ev(x) for x in xs]
        if all(isinstance(v, str) for v in vs):
            return "".join(vs)
        return self.other(t)

    def o_strq(self, t, n, s, *a):
        s, a = self.ev(s), [self.ev(x) for x in a]
        if not isinstance(s, str):
            return self.other(t)
        NPOS = 2 ** 64 - 1
        try:
            if n == "substr":
                p, k = self.integer(a[0]) if a else 0, self.integer(a[1]) if len(a) > 1 else NPOS
                if p > len(s):
                    raise Misfit("substr past the end")
                return s[p:] if k < 0 or k >= NPOS else s[p:p + k]
            w = a[0] if isinstance(a[0], str) else chr(self.integer(a[0]))
            if n == "compare":
                return (s > w) - (s < w)
            lo = self.integer(a[1]) if len(a) > 1 else None
            if lo is not None:
                return self.other(t)
            if n in ("find", "rfind"):
                r = getattr(s, n)(w)
            else:
                hits = [i for i, c in enumerate(s) if c in w]
                r = -1 if not hits else hits[0] if n == "find_first_of" else hits[-1]
            return NPOS if r < 0 else r
        except (TypeError, ValueError):
            return self.other(t)

    def o_tostr(self, t, x):
        v = self.ev(x)
        if isinstance(v, (int, np.integer)) and not isinstance(v, bool):
            return "%d" % v
        if isinstance(v, float) and v == int(v) and self.kind(x) == "int":
            return "%d" % v
        return self.other(t)

    def o_str(self, t, s):
        return str(s)

    def o_flit(self, t, *a):
        try:
            return float(a[0])
        except Exception:
            return self.other(t)


def chol(v):
    """Cholesky factor over the reals, extended to dual (complex-step) entries"""
    n = v.shape[0]
    if n != v.shape[1]:
        raise Misfit("chol shape")
    L = np.zeros(v.shape, dtype=v.dtype if v.dtype == complex else float)
    for j in range(n):
        d = v[j, j] - np.sum(L[j, :j] * L[j, :j])
        if np.real(d) <= 1e-13:
            raise Undef("not positive definite")
        L[j, j] = np.sqrt(d)
        for i in range(j + 1, n):
            L[i, j] = (v[i, j] - np.sum(L[i, :j] * L[j, :j])) / L[j, j]
    return L


def cerf(z):
    if isinstance(z, complex) or isinstance(z, np.complexfloating):
        # first order: erf'(x) = 2/sqrt(pi) exp(-x^2)
        return complex(math.erf(z.real), z.imag * 2 / math.sqrt(math.pi) * math.exp(-z.real ** 2))
    return math.erf(z)


def same(a, b, tol=1e-7):
    if isinstance(a, (bool, np.bool_)) or isinstance(b, (bool, np.bool_)):
        if isinstance(a, (bool, np.bool_, int, np.integer)) and isinstance(b, (bool, np.bool_, int, np.integer)):
            return int(a) == int(b)
    if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        if isinstance(a, (Opq, list, tuple, dict, str)) or isinstance(b, (Opq, list, tuple, dict, str)):
            return False
        x = a if isinstance(a, np.ndarray) else np.array([[a]])
        y = b if isinstance(b, np.ndarray) else np.array([[b]])
        if x.shape != y.shape and x.shape == y.shape[::-1] and 1 in x.shape:
            y = y.T
        if x.shape != y.shape:
            if x.size == 0 and y.size == 0:
                return True
            return False
        return bool(np.all(np.abs(x - y) <= tol * (1 + np.maximum(np.abs(x), np.abs(y)))))
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, (int, float, complex, np.number)) and isinstance(b, (int, float, complex, np.number)):
        return abs(a - b) <= tol * (1 + max(abs(a), abs(b)))
    return a == b


class Verdict:
    def __init__(self, eq, blind, trials, detail=""):
        self.eq, self.blind, self.trials, self.detail = eq, blind, trials, detail

    @property
    def holds(self):
        """True / False / None (undecided)"""
        if self.eq is None:
            return None
        if self.eq:
            return True
        return False if not self.blind else None


def equal(a, b, mkenv, trials=24, need=4):
    """are the two terms equal?  mkenv(seed) -> Env"""
    if a is b and not callable(a):
        return Verdict(True, set(), 0, "identical value numbers")
    n = 0
    blind = set()
    mis = []   # one side defined, the other one with operands that do not fit
    for k in range(trials):
        e = mkenv(k + 1)
        try:
            try:
                x = a(e) if callable(a) else e.ev(a)
            except Misfit as ex:
                y = b(e) if callable(b) else e.ev(b)
                mis.append((str(ex), "first", set(e.blind)))
                raise
            try:
                y = b(e) if callable(b) else e.ev(b)
            except Misfit as ex:
                mis.append((str(ex), "second", set(e.blind)))
                raise
        except (Undef, OverflowError, ZeroDivisionError, FloatingPointError, ValueError, TypeError, IndexError, np.linalg.LinAlgError) as ex:
            last = ex
            continue
        if isinstance(x, np.ndarray) and not np.all(np.isfinite(x)):
            continue
        n += 1
        if not same(x, y):
            # confirm under a second rounding of the uninterpreted functions
            e2 = mkenv(k + 1)
            e2.off = (e2.off + 0.37) % 1.0
            try:
                x2, y2 = (a(e2) if callable(a) else e2.ev(a)), (b(e2) if callable(b) else e2.ev(b))
                if same(x2, y2):
                    continue
            except Exception:
                continue
            return Verdict(False, e.blind | blind, n, "differ: %s vs %s" % (brief(x), brief(y)))
        if n >= trials * 3 // 4 and n >= need:
            break
    if n == 0 and len(mis) >= need and len({w for _, w, _ in mis}) == 1:
        return Verdict(False, set().union(*(b_ for _, _, b_ in mis)), len(mis), "the %s value is undefined (%s) wherever the other one is defined" % (mis[0][1], mis[0][0]))
    if n < need:
        return Verdict(None, blind, n, "not enough valid interpretations (%s)" % (locals().get("last"),))
    return Verdict(True, blind, n, "%d random interpretations" % n)


def always(pred, mkenv, trials=24, need=4, misfit=False):
    """does the predicate hold in every interpretation?  pred(env) -> True / False / None (does not apply), or a
    (value, explanation) pair; with misfit, a value that is undefined in every interpretation because an access leaves its
    container (or sizes do not fit) fails"""
    n = 0
    mis, mb = [], set()
    for k in range(trials):
        e = mkenv(k + 1)
        e.worldok = True    # the predicate has to hold for every outcome of a random event
        try:
            r = pred(e)
        except Misfit as ex:
            last = ex
            mis.append(str(ex))
            mb |= e.blind
            continue
        except (Undef, OverflowError, ZeroDivisionError, FloatingPointError, np.linalg.LinAlgError) as ex:
            last = ex
            continue
        why = ""
        if isinstance(r, tuple):
            r, why = r
        if r is None:
            continue
        n += 1
        if not r:
            return Verdict(False, e.blind, n, why or "fails in an interpretation")
    if misfit and n < need and len(mis) >= need:
        return Verdict(False, mb, len(mis), "undefined wherever it applies (%s)" % mis[0])
    if n < need:
        return Verdict(None, set(), n, "not enough applicable interpretations (%s)" % (locals().get("last"),))
    return Verdict(True, set(), n, "%d random interpretations" % n)


def brief(v):
    if isinstance(v, np.ndarray):
        return "array%s%s" % (v.shape, np.round(v.ravel()[:6], 5).tolist())
    if isinstance(v, float):
        return "%.7g" % v
    return str(v)[:200]
