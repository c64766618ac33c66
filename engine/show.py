"""pretty printers used while developing and in reports"""
from terms import *
from interp import Ref, Closure, FnV


def sv(v, d=5):
    if isinstance(v, T):
        return show(v, d)
    return repr(v)


def tree(evs, P, ind=0, out=None, depth=5, maxd=40, kinds=None):
    out = out if out is not None else []
    p = "  " * ind
    for e in evs:
        if e.k == "call":
            out.append("%scall %s L%s" % (p, e.d["callee"]["q"], e.line()))
            if ind < maxd:
                tree(e.sub, P, ind + 1, out, depth, maxd)
        elif e.k == "if":
            out.append("%sif %s L%s" % (p, sv(e.d["cond"], depth), e.line()))
            tree(e.d["then"], P, ind + 1, out, depth, maxd)
            if e.d["els"]:
                out.append(p + "else")
                tree(e.d["els"], P, ind + 1, out, depth, maxd)
        elif e.k == "loop":
            out.append("%sloop%s idx=%s cond=%s L%s mod=%s" % (p, " PAR" if e.d.get("par") else "", sv(e.d["idx"], depth) if e.d["idx"] is not None else None, sv(e.d["cond"], depth), e.line(), e.d["mod"]))
            tree(e.sub, P, ind + 1, out, depth, maxd)
        elif e.k == "try":
            out.append("%stry" % p)
            tree(e.d["body"], P, ind + 1, out, depth, maxd)
            for h in e.d["handlers"]:
                out.append("%scatch" % p)
                tree(h["events"], P, ind + 1, out, depth, maxd)
        elif e.k == "write":
            out.append("%swrite %s := %s (%s) L%s" % (p, e.d["ref"], sv(e.d["value"], depth) if e.d["value"] is not None else "copy of %s" % e.d.get("src"), e.d["how"], e.line()))
        elif e.k == "ext":
            out.append("%sext %s obj=%s args=%s L%s" % (p, e.d["q"], sv(e.d["obj"], 3) if e.d["obj"] is not None else None, [sv(a, 3) for a in e.d["args"]], e.line()))
        else:
            out.append("%s%s %s L%s" % (p, e.k, {k: sv(v, 3) for k, v in e.d.items() if k in ("value", "type", "root", "loc")}, e.line()))
    return out
