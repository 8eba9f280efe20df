"""Decision tables: along every path the truth of a function's recognised conditions is collected and compared, at the
places where the function acts, with what its contract says must (or must not) hold there.

Three-valued logic: True, False, None (not decided on this path)."""
from rules import *
from branching import *
from ir import pp, walk, last, strip_cast


def And(*xs):
    xs = [x() if callable(x) else x for x in xs]
    return False if False in xs else None if None in xs else True


def Or(*xs):
    xs = [x() if callable(x) else x for x in xs]
    return True if True in xs else None if None in xs else False


def Not(x):
    return None if x is None else not x


def expand(al, t, d=0):
    """all terms an expression depends on, through single-assignment variables"""
    for x in walk(t):
        yield x
        if x[0] == "v" and x[1] in al.all and d < 5 and al.all[x[1]] is not None and al.all[x[1]] != x:
            yield from expand(al, al.all[x[1]], d + 1)


def names(al, t):
    """last names of everything mentioned by an expression"""
    out = set()
    for x in expand(al, t):
        if x[0] == "call":
            out.add(last(x[1]))
        elif x[0] == "m":
            out.add(last(x[2]))
        elif x[0] in ("g", "enum", "fn"):
            out.add(last(x[1]))
    return out


class Upd:
    """an event's result that also changes what is known"""

    def __init__(s, ex, upd):
        s.ex, s.upd = ex, upd


class Table:
    """classify(leaf) -> (name, polarity) | None;  elem: names of conditions about the current element of a loop"""

    def __init__(s, g, classify, elem=(), al=None):
        s.g, s.cl, s.elem = g, classify, set(elem)
        s.al = al or Alias(g)
        s.memo = {}
        # bool variables that are assigned more than once
        s.flags = {d[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "decls" for d in n.ev[1:]
                   if d[2].replace("const", "").strip() in ("bool", "_Bool") and d[1] not in s.al.dec}

    def flag(s, tr, v, e):
        d = dict(tr)
        x = s.ev(tr, e) if e is not None else None
        d.pop("$" + v, None)
        if x is not None:
            d["$" + v] = x
        return tuple(sorted(d.items()))

    def leaf(s, e):
        k = id(e)
        if k not in s.memo:
            s.memo[k] = (e, s.cl(e))
        return s.memo[k][1]

    def learn(s, tr, e, truth):
        """truths after leaf e; None when contradictory"""
        e, sg = leaf(e)
        for _ in range(4):
            if e[0] == "v" and e[1] in s.al.dec:
                e, s2 = leaf(s.al.dec[e[1]])
                sg = sg == s2
        if e[0] == "v" and e[1] in s.flags:
            r = ("$" + e[1], True)
        else:
            r = s.leaf(e)
        if r is None:
            return tr
        nm, pol = r[0], r[1] == (truth == sg)
        d = dict(tr)
        if nm in d:
            return tr if d[nm] == pol else None
        d[nm] = pol
        return tuple(sorted(d.items()))

    def ev(s, tr, e):
        """three-valued value of a boolean expression"""
        e = strip_cast(e)
        if e[0] == "lit":
            return bool(e[1])
        if e[0] == "un" and e[1] == "!":
            return Not(s.ev(tr, e[2]))
        if e[0] == "bin" and e[1] in ("&&", "||"):
            return (And if e[1] == "&&" else Or)(s.ev(tr, e[2]), s.ev(tr, e[3]))
        if e[0] == "v" and e[1] in s.al.dec:
            return s.ev(tr, s.al.dec[e[1]])
        if e[0] == "cond":
            v = s.ev(tr, e[1])
            return None if v is None else s.ev(tr, e[2] if v else e[3])
        r = ("$" + e[1], True) if e[0] == "v" and e[1] in s.flags else s.leaf(e)
        if r is None or r[0] not in dict(tr):
            return None
        v = dict(tr)[r[0]]
        return v if r[1] else not v

    def movers(s):
        """the variables that the conditions about the current element depend on"""
        out = set()
        for n in s.g.nodes:
            if n.kind != "branch" or n.ev is None:
                continue
            for e in walk(n.ev):
                r = s.leaf(e) if e[0] in ("call", "bin", "m", "v") else None
                if r and (r[0] in s.elem or "@" in r[0]):
                    out |= {x[1] for x in expand(s.al, e) if x[0] == "v"}
        return out

    def forget(s, tr, v):
        """the conditions about the current element (and those marked as about this variable) are open again"""
        return tuple(x for x in tr if x[0] not in s.elem and not x[0].endswith("@" + v))

    def run(s, event, init=(), at_pass=None, iters=(), at_exit=None, cap=60, catches=False):
        """event(extra, truths, node) -> extra, or Upd(extra, {name: truth or None});
        at_pass(extra, truths, node, var) -> extra when an iteration variable advances"""
        iters = iters or s.movers()

        def step(a, n, facts):
            tr, ex = a
            t = n.ev
            if n.kind == "exit":
                if at_exit:
                    at_exit(ex, dict(tr), n)
                return [a]
            if catches and n.kind in ("catch", "excexit"):
                return [(tr, event(ex, dict(tr), n))]
            if n.kind != "ev" or t is None:
                return [a]
            v = advanced(t)
            if v is not None and v in iters:
                if at_pass:
                    ex = at_pass(ex, dict(tr), n, v)
                tr = s.forget(tr, v)
            ex = event(ex, dict(tr), n)
            if isinstance(ex, Upd):
                d = {k: x for k, x in tr if k not in ex.upd}
                d.update({k: x for k, x in ex.upd.items() if x is not None})
                tr, ex = tuple(sorted(d.items())), ex.ex
            if t[0] == "decls":
                for x in t[1:]:
                    if x[1] in s.flags:
                        tr = s.flag(tr, x[1], x[3])
            elif t[0] == "asg" and strip_cast(t[2])[0] == "v" and strip_cast(t[2])[1] in s.flags:
                o = strip_cast(t[2])
                tr = s.flag(tr, o[1], t[3] if t[1] == "=" else ("bin", "||" if t[1] == "|=" else "&&", o, t[3]) if t[1] in ("|=", "&=") else None)
            return [(tr, ex)]

        def on(a, e, truth, n):
            tr = s.learn(a[0], e, truth)
            return None if tr is None else (tr, a[1])
        br = brancher(on, s.al)

        def branch(a, e, truth, n):
            # a whole && / || is decided again after its operands when temporaries are cleaned up in between
            v = s.ev(a[0], e)
            if v is not None:
                return a if v == bool(truth) else None
            return br(a, e, truth, n)
        run(s.g, ((), init), step, only=lambda f: False, cap=cap, branch=branch, maxstates=80000)


def advanced(t):
    """the variable an iteration event moves forward"""
    if t[0] == "call" and last(t[1]) == "operator++":
        o = strip_cast(t[2]) if t[2] is not None else strip_cast(t[3][0]) if t[3] else None
        return o[1] if o is not None and o[0] == "v" else None
    if t[0] == "un" and t[1] in ("++", "p++"):
        o = strip_cast(t[2])
        return o[1] if o[0] == "v" else None
    return None
