"""Type-checks translation units with limbo-link (tool/link.cpp): compile errors, instantiated entities, linkage of definitions."""
import json
import os
import subprocess
from concurrent.futures import ThreadPoolExecutor
from ctx import VERIF, REPO, BUILD, LLVM, BASEFLAGS, CheckError, _hash_files, tree


def build_link():
    src = VERIF + "/tool/link.cpp"
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "limbo-link-" + _hash_files([src]))
    if os.path.exists(out):
        return out
    inc = subprocess.check_output(["llvm-config-18", "--includedir"], text=True).strip()
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++", "-std=c++17", "-O1", "-fno-rtti", "-w", "-I" + inc, src, "-o", tmp, LLVM + "/lib/libclang-cpp.so.18.1",
           "-L" + LLVM + "/lib", "-lLLVM-18", "-Wl,-rpath," + LLVM + "/lib"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise CheckError("cannot build limbo-link:\n" + r.stderr[-3000:])
    os.replace(tmp, out)
    return out


def check_units(units, root):
    """units: {name: (source path or text, flags)} -> {name: report}"""
    tool = build_link()
    d = os.path.join(BUILD, "l-%d" % os.getpid())
    os.makedirs(d, exist_ok=True)

    def one(it):
        n, (src, fl) = it
        if "\n" in src:
            p = os.path.join(d, n + ".cpp")
            open(p, "w").write(src)
            src = p
        out = os.path.join(d, n + ".json")
        r = subprocess.run([tool, out, src, root, "--"] + BASEFLAGS + fl, capture_output=True, text=True)
        if r.returncode or not os.path.exists(out):
            raise CheckError("limbo-link failed on %s: %s" % (n, r.stderr[-2000:]))
        return n, json.load(open(out))
    try:
        with ThreadPoolExecutor(int(os.environ.get("VERIF_JOBS", "8"))) as ex:
            return dict(ex.map(one, units.items()))
    finally:
        subprocess.run(["rm", "-rf", d])


def place(e):
    """(file, line) of the construct in the repository an error is about, and the path of instantiations that leads to it"""
    def isrepo(x):
        return x.get("file", "").startswith(REPO + "/")
    chain = [e] + [s for s in e["stack"]]
    at = [x for x in chain if isrepo(x)]
    path = " <- ".join("%s:%s" % (x["file"].replace(REPO + "/", "").replace(VERIF + "/", ""), x["line"]) for x in chain[:8] if "file" in x)
    return (at[0]["file"], at[0]["line"]) if at else None, path
