"""Loads the JSON documents written by limbo-extract and answers questions about the
resolved program (functions, classes, types, call graph)."""
import json


class Prog:
    def __init__(self, path, name):
        d = json.load(open(path))
        self.name = name
        self.fns = d["functions"]
        self.classes = d["classes"]
        self.types = d["types"]
        self.files = d["files"]
        self.gvars = d["gvars"]
        self.patterns = d["patterns"]
        self.byq = {}
        for f in self.fns:
            self.byq.setdefault(f["q"], []).append(f)
        self.fieldcls = {}
        for c in self.classes:
            for fl in c.get("fields", ()):
                self.fieldcls[fl["id"]] = (c, fl)

    def file(self, f):
        return self.files[f["f"]]

    def rel(self, f):
        p = self.file(f)
        return p[6:] if p.startswith("/repo/") else p

    def where(self, f, line=None):
        return "%s:%s" % (self.rel(f), line or f["l"])

    def typ(self, t):
        return self.types[t] if t is not None and t >= 0 else {"s": "?", "b": "other"}

    def cls(self, i):
        return self.classes[i]

    def find(self, q, repo=True):
        return [f for f in self.byq.get(q, []) if (not repo or f.get("repo"))]

    def findsuf(self, suf, repo=True):
        out = []
        for q, fs in self.byq.items():
            if q == suf or q.endswith("::" + suf):
                out += [f for f in fs if (not repo or f.get("repo"))]
        return out

    def fdesc(self, f):
        c = ""
        if "cls" in f:
            ta = self.classes[f["cls"]].get("ta")
            if ta:
                c = "<" + ", ".join(ta)[:120] + ">"
        return f["q"] + c

    def repo_fns(self):
        return [f for f in self.fns if f.get("repo")]

    def bases(self, cid, acc=None):
        acc = acc if acc is not None else []
        for b in self.classes[cid].get("bases", ()):
            acc.append(b)
            self.bases(b, acc)
        return acc

    def all_fields(self, cid):
        out = []
        for b in self.classes[cid].get("bases", ()):
            out += self.all_fields(b)
        out += self.classes[cid].get("fields", [])
        return out

    def methods(self, cid, name=None, inherited=True):
        out = []
        for m in self.classes[cid].get("methods", ()):
            if name is None or m["n"] == name:
                out.append(self.fns[m["fn"]])
        if inherited:
            for b in self.classes[cid].get("bases", ()):
                out += self.methods(b, name)
        return out

    def derived_from(self, cid, q):
        if self.classes[cid]["q"] == q:
            return True
        return any(self.derived_from(b, q) for b in self.classes[cid].get("bases", ()))


def walk(n):
    """all dict nodes of a body, pre-order"""
    if isinstance(n, dict):
        yield n
        for k, v in n.items():
            if isinstance(v, (dict, list)):
                yield from walk(v)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)
