"""Reading branch conditions: what a path learns from the side it takes."""
from ir import strip_cast, deref, last, pp

FLIP = {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "==": "==", "!=": "!="}
NEG = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}



class Alias:
    """single-assignment locals of a graph stand for their initialisers"""

    def __init__(s, g):
        dec, bad = {}, set()
        for n in g.nodes:
            t = n.ev
            if n.kind not in ("ev", "iret") or t is None:
                continue
            if t[0] == "decls":
                for d in t[1:]:
                    if d[3] is not None:
                        if d[1] in dec and dec[d[1]] != d[3]:
                            bad.add(d[1])
                        dec[d[1]] = d[3]
            elif t[0] == "asg" and t[2] and t[2][0] == "v":
                bad.add(t[2][1])
            elif t[0] == "un" and t[1] in ("++", "--", "p++", "p--") and t[2][0] == "v":
                bad.add(t[2][1])
            elif t[0] == "call" and t[2] is not None and t[2][0] == "v" and last(t[1]) in ("operator++", "operator--", "operator=", "operator+=", "operator-="):
                bad.add(t[2][1])
        s.dec = {k: v for k, v in dec.items() if k not in bad}
        s.all = dec

    def __call__(s, t, d=0):
        t = strip_cast(t) if t else t
        while t is not None and d < 12:
            d += 1
            if t[0] == "v" and t[1] in s.dec:
                t = strip_cast(s.dec[t[1]])
            elif t[0] == "ctor" and len(t[2]) == 1:
                t = strip_cast(t[2][0])
            else:
                break
        return t

    def full(s, t, d=0):
        """substituted everywhere"""
        if not isinstance(t, tuple) or d > 12:
            return t
        if t and t[0] == "v" and t[1] in s.dec:
            return s.full(s.dec[t[1]], d + 1)
        return tuple(s.full(x, d) if isinstance(x, tuple) else x for x in t)


def ceval(t, env):
    """value of an expression over known variables, None if unknown"""
    t = strip_cast(t) if t else None
    if t is None:
        return None
    if t[0] == "lit":
        return int(t[1]) if isinstance(t[1], (int, bool)) else None
    if t[0] == "enum":
        return t[2] if len(t) > 2 and isinstance(t[2], int) else None
    if t[0] == "v":
        return env.get(t[1])
    if t[0] == "un" and t[1] == "!":
        v = ceval(t[2], env)
        return None if v is None else int(not v)
    if t[0] == "un" and t[1] == "~":
        v = ceval(t[2], env)
        return None if v is None else ~v
    if t[0] == "bin":
        a, b = ceval(t[2], env), ceval(t[3], env)
        if t[1] == "&&":
            if a == 0 or b == 0:
                return 0
            return None if a is None or b is None else 1
        if t[1] == "||":
            if a or b:
                return 1
            return None if a is None or b is None else 0
        if t[1] == "&" and (a == 0 or b == 0):
            return 0
        if a is None or b is None:
            return None
        return {"&": a & b, "|": a | b, "==": int(a == b), "!=": int(a != b), "<": int(a < b), ">": int(a > b),
                "<=": int(a <= b), ">=": int(a >= b), "+": a + b, "-": a - b}.get(t[1])
    return None


def leaf(expr):
    """(expr, sign): the comparison that a branch decides, negations removed"""
    s = True
    e = strip_cast(expr)
    while e[0] == "un" and e[1] == "!":
        e = strip_cast(e[2])
        s = not s
    return e, s


def rightmost(e):
    """a condition's branch node carries the whole expression decided so far: its last operand is the new information"""
    e, s = leaf(e)
    while e[0] == "bin" and e[1] in ("&&", "||"):
        e2, s2 = leaf(e[3])
        e, s = e2, s == s2
    return e, s


def boolean(t):
    """looks like a truth value"""
    t = strip_cast(t) if t else None
    if t is None:
        return False
    if t[0] == "un" and t[1] == "!":
        return True
    if t[0] == "bin" and t[1] in ("==", "!=", "<", ">", "<=", ">=", "&&", "||"):
        return True
    if t[0] == "call" and last(t[1]) in ("empty", "operator==", "operator!=", "valid", "isOnlyRef", "operator<"):
        return True
    return False


def cond(expr, truth, a, f, al=None, merge=None, d=0):
    """the automaton state after `expr` turned out `truth`: f(a, leaf, truth) is applied to the comparisons that decide it.
    Named conditions (single-assignment bools) are looked through; merge(list of states, a) joins alternatives."""
    e, s = leaf(expr)
    tr = truth == s
    if d > 8 or a is None:
        return a
    if e[0] == "v" and al is not None and e[1] in al.dec and boolean(al.dec[e[1]]):
        return cond(al.dec[e[1]], tr, a, f, al, merge, d + 1)
    if e[0] == "bin" and e[1] in ("&&", "||"):
        if (e[1] == "&&") == tr:
            a = cond(e[2], tr, a, f, al, merge, d + 1)
            return None if a is None else cond(e[3], tr, a, f, al, merge, d + 1)
        x = cond(e[2], tr, a, f, al, merge, d + 1)
        y = cond(e[2], not tr, a, f, al, merge, d + 1)
        y = cond(e[3], tr, y, f, al, merge, d + 1) if y is not None else None
        alts = [z for z in (x, y) if z is not None]
        if not alts:
            return None
        if len(alts) == 1 or alts[0] == alts[1]:
            return alts[0]
        return merge(alts, a) if merge else a
    return f(a, e, tr)


def decide(expr, truth, a, f, al=None, merge=None):
    """cond() for a branch node, whose expression carries operands that earlier nodes have decided"""
    e, s = rightmost(expr)
    return cond(e, truth == s, a, f, al, merge)


def brancher(on, al=None, merge=None):
    """a branch hook for flow.run out of on(a, leaf expression, truth, node)"""
    return lambda a, e, t, n: decide(e, t, a, lambda x, ee, tt: on(x, ee, tt, n), al, merge)


class Mini:
    """A tiny abstract machine over the values of selected variables and members, kept in the automaton state as a sorted
    tuple of (printed expression, value).  track(key) selects what is remembered."""

    def __init__(s, track, al=None, const=None):
        s.track, s.al, s.const = track, al, const or {}

    def key(s, t):
        t = strip_cast(t) if t else None
        if t is None:
            return None
        if t[0] == "v":
            return t[1]
        if t[0] in ("m", "g", "call"):
            k = pp(deref(t) if t[0] == "m" else t)
            return k[6:] if k.startswith("this->") else k
        return None

    def val(s, t, env):
        return s._val(t, dict(env))

    def _val(s, t, env):
        t = strip_cast(t) if t else None
        if t is None:
            return None
        k = s.key(t)
        if k is not None and k in env:
            return env[k]
        if k is not None and k in s.const:
            return s.const[k]
        if t[0] == "v" and s.al is not None and t[1] in s.al.dec and boolean(s.al.dec[t[1]]):
            return s._val(s.al.dec[t[1]], env)
        if t[0] == "ctor" and len(t[2]) == 1:
            return s._val(t[2][0], env)
        if t[0] == "un" and t[1] in ("!", "~", "-"):
            v = s._val(t[2], env)
            return None if v is None else (int(not v) if t[1] == "!" else ~v if t[1] == "~" else -v)
        if t[0] == "cond":
            v = s._val(t[1], env)
            return None if v is None else s._val(t[2] if v else t[3], env)
        if t[0] == "bin":
            a, b = s._val(t[2], env), s._val(t[3], env)
            if t[1] in ("&&", "||", "&", "|", "==", "!=", "<", ">", "<=", ">=", "+", "-"):
                return ceval(("bin", t[1], ("v", "a"), ("v", "b")), {"a": a, "b": b})
            return None
        return ceval(t, {})

    def put(s, env, k, v):
        if k is None or not s.track(k):
            return env
        d = dict(env)
        if v is None:
            d.pop(k, None)
        else:
            d[k] = v
        return tuple(sorted(d.items()))

    def event(s, env, t):
        """the values after an event"""
        if t is None:
            return env
        if t[0] == "decls":
            for d in t[1:]:
                env = s.put(env, d[1], s.val(d[3], env) if d[3] is not None else None)
        elif t[0] == "asg":
            k = s.key(t[2])
            if k is not None and s.track(k):
                v = s.val(t[3], env)
                if t[1] != "=":
                    op = t[1][:-1]
                    old = s.val(t[2], env)
                    v = ceval(("bin", op, ("v", "a"), ("v", "b")), {"a": old, "b": v})
                    if v is None and op == "|" and (old or 0) == 1:
                        v = 1
                env = s.put(env, k, v)
        elif t[0] == "un" and t[1] in ("++", "--", "p++", "p--"):
            env = s.put(env, s.key(t[2]), None)
        return env

    def on(s, env, e, truth):
        """after leaf condition e turned out truth: new values, or None when impossible"""
        v = s.val(e, env)
        if v is not None:
            return env if bool(v) == bool(truth) else None
        k = s.key(e)
        if k is not None and s.track(k):
            return s.put(env, k, int(truth))
        if e[0] == "bin" and e[1] in ("==", "!="):
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                k = s.key(x)
                w = s.val(y, env)
                if k is not None and w is not None and s.track(k):
                    if (e[1] == "==") == truth:
                        return s.put(env, k, w)
                    if w == 0:
                        return env
        return env

    def branch(s, on, al=None, merge=None, env=lambda a: a[0]):
        """branch hook for flow.run: conditions whose value is known decide, the others are given to on(a, leaf, truth, node)"""
        def br(a, e, t, n):
            v = s.val(e, env(a))
            if v is not None:
                return a if bool(v) == t else None
            return decide(e, t, a, lambda x, ee, tt: on(x, ee, tt, n), al, merge)
        return br
