"""Sign analysis of value-graph terms: sound, incomplete."""
from terms import FALSE, ONE, T, TRUE, ZERO, as_lin, const, is_num, mk, sub


def minus(a, b):
    return sub(a, b)


ASSUME_NONNEG = ("Params::kernel::noise", "sigma_sq", "::l", "jitter", "alpha", "epsilon", "samples", "bins", "iterations", "max_points")


def lower(t, facts=()):
    """facts: tuple of (cond term, truth).  Returns 'pos', 'nonneg' or None for a real term."""
    if is_num(t):
        return "pos" if t.args[0] > 0 else "nonneg" if t.args[0] == 0 else None
    for c, tr in facts:
        r = _fact(t, c, tr, facts)
        if r:
            return r
    op = t.op
    if op in ("exp",):
        return "pos"
    if op in ("sqrt", "abs", "size", "rows", "cols", "norm", "squaredNorm"):
        return "nonneg"
    if op == "limit":
        return "pos" if "epsilon" in str(t.args) or "min" in str(t.args) or "max" in str(t.args) else None
    if op == "cfg":
        return "nonneg" if any(str(t.args[0]).endswith(s) for s in ASSUME_NONNEG) else None
    if op == "lin":
        k = t.args[0]
        if k < 0:
            return None
        res = "pos" if k > 0 else "nonneg"
        for x, c in t.args[1]:
            s = lower(x, facts) if c > 0 else upper(x, facts)
            if s is None:
                return None
            if s == "pos":
                res = "pos"
        return res
    if op == "mul":
        res = "pos"
        for x, e in t.args[0]:
            if isinstance(e, int) and e % 2 == 0 or getattr(e, "denominator", 1) == 1 and e % 2 == 0:
                s = lower(x, facts) == "pos" and "pos" or "nonneg"
            else:
                s = lower(x, facts)
            if s is None:
                return None
            if s == "nonneg":
                res = "nonneg"
        return res
    if op == "ite":
        c, a, b = t.args
        x = lower(a, facts + ((c, True),))
        y = lower(b, facts + ((c, False),))
        if x and y:
            return "pos" if x == y == "pos" else "nonneg"
        return None
    if op == "max":
        x, y = lower(t.args[0], facts), lower(t.args[1], facts)
        return "pos" if "pos" in (x, y) else "nonneg" if "nonneg" in (x, y) else None
    if op == "min":
        x, y = lower(t.args[0], facts), lower(t.args[1], facts)
        return None if None in (x, y) else ("pos" if x == y == "pos" else "nonneg")
    return None


def upper(t, facts):
    from terms import neg
    if t.op in ("ite",):
        c, a, b = t.args
        x = upper(a, facts + ((c, True),))
        y = upper(b, facts + ((c, False),))
        return None if None in (x, y) else "nonneg"
    if is_num(t):
        return lower(neg(t))
    for c, tr in facts:
        r = _fact(neg(t), c, tr, facts)
        if r:
            return r
    return None


def _fact(t, c, tr, facts):
    """does the branch condition bound t from below by zero?"""
    if not isinstance(c, T):
        return None
    if c.op == "not":
        return _fact(t, c.args[0], not tr, facts)
    if c.op == "and" and tr:
        for x in c.args:
            r = _fact(t, x, True, ())
            if r:
                return r
        return None
    if c.op in ("lt", "le"):
        a, b = c.args
        strict = c.op == "lt"
        if not tr:
            a, b, strict = b, a, not strict
        # a < b (or <=): b - a >= 0;  t = (b - a) + rest with rest >= 0
        rest = sub(t, sub(b, a))
        r = lower(rest, ()) if rest is not t else None
        if r:
            return "pos" if strict or r == "pos" else "nonneg"
    if c.op == "ipos":
        d = c.args[0]
        if tr and d is t:
            return "pos"
    return None


def nonneg(t):
    return lower(t) is not None
