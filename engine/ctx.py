"""Shared runner: builds the extractor, extracts /repo's current source, runs one check,
writes its evidence and reports."""
import hashlib
import json
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_DEV_REPO", "/repo")   # overridden only while developing the checks
BUILD = os.path.join(VERIF, "build")
EVID = os.environ.get("VERIF_DEV_EVIDENCE", VERIF + "/evidence")
LLVM = "/usr/lib/llvm-18"

BASEFLAGS = ["-std=c++14", "-I" + REPO + "/src", "-I/usr/include/eigen3", "-w", "-resource-dir", LLVM + "/lib/clang/18"]
TBB = ["-DUSE_TBB", "-DUSE_TBB_ONEAPI"]
NL = ["-DUSE_NLOPT"]
UNITS = {
    # name: (source, flags)
    "core": (VERIF + "/drivers/core.cpp", NL),
    "coreT": (VERIF + "/drivers/core.cpp", NL + TBB),
    "exp": (VERIF + "/drivers/exp.cpp", NL),
    "mac": (VERIF + "/drivers/macros.cpp", []),
    "expT": (VERIF + "/drivers/exp.cpp", NL + TBB),
    "ehvi_calc": (REPO + "/src/ehvi/ehvi_calculations.cc", []),
    "ehvi_multi": (REPO + "/src/ehvi/ehvi_multi.cc", []),
    "ehvi_ehvi": (REPO + "/src/ehvi/ehvi_sliceupdate.cc", []),
}


class CheckError(Exception):
    pass


def _hash_files(paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        try:
            with open(p, "rb") as f:
                h.update(f.read())
        except OSError:
            h.update(b"?")
    return h.hexdigest()[:20]


def tree(root, exts=None):
    out = []
    for d, ds, fs in os.walk(root):
        ds.sort()
        for f in sorted(fs):
            if exts is None or os.path.splitext(f)[1] in exts:
                out.append(os.path.join(d, f))
    return out


def build_tool():
    src = VERIF + "/tool/extract.cpp"
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "limbo-extract-" + _hash_files([src]))
    if os.path.exists(out):
        return out
    inc = subprocess.check_output(["llvm-config-18", "--includedir"], text=True).strip()
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-I" + inc, src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1",
           "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("cannot build the extractor:\n" + r.stderr[-4000:])
    os.replace(tmp, out)
    return out


def extract(units):
    """returns {unit: path or CheckError}"""
    tool = build_tool()
    key = _hash_files([tool] + tree(REPO + "/src") + tree(VERIF + "/drivers"))
    d = os.path.join(BUILD, "x-" + key)
    os.makedirs(d, exist_ok=True)
    for o in os.listdir(BUILD):
        if o.startswith("x-") and o != "x-" + key:
            p = os.path.join(BUILD, o)
            try:
                old = time.time() - os.path.getmtime(p) > 3600
            except OSError:
                continue    # another check removed it
            if old:
                subprocess.run(["rm", "-rf", p])
    procs = {}
    res = {}
    for u in units:
        out = os.path.join(d, u + ".json")
        if os.path.exists(out):
            res[u] = out
            continue
        src, fl = UNITS[u]
        tmp = out + ".%d" % os.getpid()
        cmd = [tool, tmp, src, REPO + "/src:" + VERIF + "/drivers", "--"] + BASEFLAGS + fl
        procs[u] = (subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True), tmp, out)
    for u, (p, tmp, out) in procs.items():
        err = p.communicate()[1]
        if p.returncode or not os.path.exists(tmp):
            res[u] = CheckError("the analysed program (%s) does not compile:\n%s" % (u, err[-3000:]))
        else:
            os.replace(tmp, out)
            res[u] = out
    return res


class Ctx:
    def __init__(self, pid, tier):
        self.pid = pid
        self.tier = tier
        self.obs = []
        self.keys = set()
        self.progs = {}
        self._ext = {}
        self.counts = {}
        self.notes = []
        self.analysed = set()
        self.rules = {}

    def need(self, *units):
        todo = [u for u in units if u not in self._ext]
        if todo:
            self._ext.update(extract(todo))

    def prog(self, u):
        from ir import Prog
        if u not in self.progs:
            self.need(u)
            p = self._ext[u]
            if isinstance(p, CheckError):
                raise p
            self.progs[u] = Prog(p, u)
        return self.progs[u]

    def rule(self, name, text):
        self.rules[name] = text

    def _add(self, status, rule, where, detail, key):
        key = key or (rule + " " + where)
        self.obs.append(dict(status=status, rule=rule, where=where, detail=detail, key=key))

    def ok(self, rule, where, detail=""):
        self._add("ok", rule, where, detail, None)

    def bad(self, rule, where, detail, key=None):
        self._add("violation", rule, where, detail, key)

    def undecided(self, rule, where, detail):
        self._add("undecided", rule, where, detail, None)

    def check(self, cond, rule, where, detail, key=None):
        """cond: True (holds) / False (definitely violated) / None (undecided)"""
        if cond is True:
            self.ok(rule, where, detail)
        elif cond is False:
            self.bad(rule, where, detail, key)
        else:
            self.undecided(rule, where, detail)
        return cond

    def pmap(self, fn, items):
        """fn(ctx, item) on every item, in parallel worker processes; obligations are merged in order"""
        import multiprocessing as mp
        items = list(items)
        global _PM
        _PM = (self, fn, items)
        n = min(int(os.environ.get("VERIF_JOBS", "8")), len(items))
        if n <= 1:
            for i in items:
                fn(self, i)
            return
        with mp.get_context("fork").Pool(n, initializer=sys.setrecursionlimit, initargs=(50000,)) as pool:
            for r in pool.imap(_pm_one, range(len(items)), chunksize=1):
                if "err" in r:
                    raise RuntimeError("worker failed:\n" + r["err"])
                self.obs += r["obs"]
                self.notes += r["notes"]
                self.rules.update(r["rules"])
                self.analysed |= r["analysed"]
                for k, v in r["counts"].items():
                    self.count(k, v)

    def count(self, name, n=1):
        self.counts[name] = self.counts.get(name, 0) + n

    def expect(self, rule, n):
        k = len([o for o in self.obs if o["rule"] == rule])
        if k < n:
            self.notes.append("rule %s: only %d obligations found (at least %d expected); anchors moved" % (rule, k, n))


def _pm_one(i):
    ctx, fn, items = _PM
    c = Ctx(ctx.pid, ctx.tier)
    c.progs, c._ext = ctx.progs, ctx._ext
    try:
        fn(c, items[i])
    except Exception:
        return dict(err=traceback.format_exc())
    return dict(obs=c.obs, notes=c.notes, rules=c.rules, analysed=c.analysed, counts=c.counts)


def known_findings():
    out = []
    p = VERIF + "/known_findings.txt"
    if os.path.exists(p):
        for l in open(p):
            l = l.rstrip("\n")
            if l.startswith("KNOWN-FINDING:"):
                d = {}
                rest = l[len("KNOWN-FINDING:"):].strip()
                parts = rest.split(" | ")
                d["property"] = parts[0].replace("property=", "").strip()
                d["key"] = parts[1].strip() if len(parts) > 1 else ""
                d["what"] = parts[2].strip() if len(parts) > 2 else ""
                out.append(d)
    return out


def main(pid, module, tier, level="other"):
    t0 = time.time()
    sys.setrecursionlimit(50000)
    import threading
    threading.stack_size(512 * 1024 * 1024)
    ctx = Ctx(pid, tier)
    rc = 0
    err = None
    try:
        module.run(ctx)
        for r, n in getattr(module, "EXPECT", {}).items():
            ctx.expect(r, n)
    except CheckError as e:
        err = str(e)
    except Exception:
        err = traceback.format_exc()
    # merge instantiations of the same construct
    seen = {}
    for o in ctx.obs:
        k = (o["status"], o["rule"], o["where"], o["key"])
        if k in seen:
            seen[k]["n"] = seen[k].get("n", 1) + 1
        else:
            seen[k] = o
    obs = list(seen.values())
    viol = [o for o in obs if o["status"] == "violation"]
    # an internal error never turns a found violation into silence, nor invents one
    known = [k for k in known_findings() if k["property"] == pid]
    new = []
    for o in viol:
        m = [k for k in known if k["key"] == o["key"]]
        if m:
            print("KNOWN-FINDING: property=%s %s: %s" % (pid, o["key"], m[0]["what"]))
        else:
            new.append(o)
    nok = sum(1 for o in obs if o["status"] == "ok")
    nun = sum(1 for o in obs if o["status"] == "undecided")
    byrule = {}
    for o in obs:
        d = byrule.setdefault(o["rule"], dict(ok=0, undecided=0, violation=0, text=ctx.rules.get(o["rule"], "")))
        d[o["status"]] += 1
    os.makedirs(EVID, exist_ok=True)
    ev = dict(
        property=pid, tier=tier, seed=int(os.environ.get("VERIF_SEED", "1") or 1), level=level,
        coverage=dict(
            explanation=getattr(module, "EXPLANATION", "").strip() + " Each obligation is one rule applied to one construct of the current source; `undecided` ones were not decided and raise no alarm.",
            obligations=len(obs), discharged=nok, undecided=nun, violated=len(viol), rules=byrule,
            functions_analysed=len(ctx.analysed), counts=ctx.counts,
            samples=[dict(rule=o["rule"], where=o["where"], status=o["status"], detail=o["detail"][:400]) for o in obs if o["status"] == "ok"][:12],
            undecided_list=[dict(rule=o["rule"], where=o["where"], why=o["detail"][:300]) for o in obs if o["status"] == "undecided"][:60],
            violation_list=[dict(rule=o["rule"], where=o["where"], detail=o["detail"][:2000], key=o["key"]) for o in viol],
            notes=ctx.notes),
        assumptions=getattr(module, "ASSUMPTIONS", []),
        wall_s=round(time.time() - t0, 2),
        violations=len(new))
    if err:
        ev["coverage"]["error"] = err[-3000:]
    json.dump(ev, open(EVID + "/%s.json" % pid, "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d undecided, %d violations (%d listed as known); %d functions analysed; %.1fs" % (
        pid, len(obs), nok, nun, len(viol), len(viol) - len(new), len(ctx.analysed), time.time() - t0))
    for n in ctx.notes:
        print("note: " + n)
    if "-v" in sys.argv:
        for o in obs:
            print("  [%s] %s @ %s: %s" % (o["status"], o["rule"], o["where"], o["detail"][:300]))
    if new:
        rp = EVID + "/%s.violations.txt" % pid
        with open(rp, "w") as f:
            for o in new:
                f.write("property %s, rule %s (%s)\nat %s\n%s\nkey: %s\n\n" % (pid, o["rule"], ctx.rules.get(o["rule"], ""), o["where"], o["detail"], o["key"]))
        for o in new:
            print("  violated: %s @ %s: %s  [key: %s]" % (o["rule"], o["where"], o["detail"][:600], o["key"]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if err:
        print("ERROR: " + err, file=sys.stderr)
        return 2
    if not obs:
        print("ERROR: nothing to check was found", file=sys.stderr)
        return 2
    return 0
