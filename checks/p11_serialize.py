"""P11: the writer of a block and its reader agree: block counts, header fields, order and sizes of the packed parts."""
import re
from rules import *
import lockset as LS
from branching import *
from checks.p12_deserialize import Reader
from facts import Broken
from ir import pp, walk, last, strip_cast

CORE = ['MEQ/src/', 'MeqServer/src/', 'OCTOPUSSY/src/', 'OCTOPython/src/', 'AppAgent/AppAgent/', 'DMI/src/', 'TimBase/src/', 'VisCube/src/']
ASSUMPTIONS = ["a class is written by functions called toBlock or pack (and helpers of the same class) and read by fromBlock, unpack or allocate",
               "BlockSet::push, pushNew and pushCopy add the blocks they are given (checked under P12 and P08 for ownership, not for contents)",
               "values are compared as linear expressions over the program's own names; products and other non-linear parts are opaque"]


def check(c):
    F = c.load(CORE)
    blockcounts(c, F)
    packsizes(c, F)
    headers(c, F)
    parts(c, F)


def near(F, j):
    return inline_near(j["q"].rsplit("::", 1)[0], files=(j["f"],), no=("toBlock", "fromBlock", "pack", "unpack", "packSize", "clear", "validateContent"))


# ---------------------------------------------------------------- linear accounting

def ladd(a, b, k=1):
    d = dict(a)
    for s, n in b.items():
        d[s] = d.get(s, 0) + k * n
        if not d[s]:
            del d[s]
    return d


def key(t):
    """name of a variable or place (inlined copies keep their own)"""
    t = strip_cast(t)
    return t[1] if t[0] == "v" else pp(t)


def fz(d):
    return tuple(sorted(d.items(), key=str))


def plainly(d):
    """a difference made of constants and of results the rule understands"""
    return all(x == 1 or isinstance(x, str) and re.search(r"(toBlock|pack)\([^()]*\)$|\.size$", x) for x in d)


def small(d):
    return len(d) <= 5 and all(abs(n) <= (400 if x == 1 else 2 if "(" in str(x) and not isinstance(x, tuple) else 16) for x, n in d.items())


class Account:
    """values of the local variables relative to a counted quantity Q

    Each variable has up to two forms: without Q (a constant or sum of results of this iteration) and with Q."""

    def __init__(s, g, adds, syms=None):
        s.g, s.adds = g, adds           # adds(node event) -> list of expressions added to Q | None
        s.syms = syms
        s.ignore = set()

    def init(s):
        # (Q or None, ((var, plain or None, rel or None)...))
        return (fz({}), ())

    def forms(s, st, t):
        """(plain, rel) forms of an expression"""
        Q, vs = st
        t = strip_cast(t) if t else None
        if t is None:
            return None, None
        if t[0] == "lit" and isinstance(t[1], (int, bool)):
            p = {1: int(t[1])} if t[1] else {}
            return p, None
        if t[0] == "sizeof" and len(t) > 2 and isinstance(t[2], int):
            return {1: t[2]}, None
        if t[0] == "call" and t[1].startswith(("std::", "DMI::BlockSet")) and last(t[1]) in ("length", "copy", "size") and t[2] is not None and (not t[3] or last(t[1]) == "copy"):
            return {pp(strip_cast(t[2])) + ".size": 1}, None
        if t[0] == "call" and s.const is not None and s.const(t) is not None:
            return {1: s.const(t)}, None
        if t[0] in ("v", "idx", "m") or t[0] == "un" and t[1] == "*":
            k = key(t)
            for v, p, r in vs:
                if v == k:
                    return (dict(p) if p is not None else None), (dict(r) if r is not None else None)
            if t[0] == "v":
                return {k: 1}, None
            return {k: 1}, None
        if t[0] == "asg":
            return s.forms(st, t[2] if t[1] == "=" else t[2])
        if t[0] == "bin" and t[1] in ("+", "-"):
            p1, r1 = s.forms(st, t[2])
            p2, r2 = s.forms(st, t[3])
            sg = 1 if t[1] == "+" else -1
            p = ladd(p1, p2, sg) if p1 is not None and p2 is not None else None
            r = None
            if r1 is not None and p2 is not None:
                r = ladd(r1, p2, sg)
            elif r2 is not None and p1 is not None and sg == 1:
                r = ladd(r2, p1)
            return p, r
        if t[0] == "bin" and t[1] == "*":
            p1, _ = s.forms(st, t[2])
            p2, _ = s.forms(st, t[3])
            for a, b in ((p1, p2), (p2, p1)):
                if a is not None and b is not None and set(a) <= {1}:
                    k = a.get(1, 0)
                    return {x: n * k for x, n in b.items() if n * k}, None
            if p1 is not None and p2 is not None:
                return {"*".join(sorted((str(fz(p1)), str(fz(p2))))): 1}, None
            return None, None
        if t[0] == "un" and t[1] == "&":
            return None, None
        if t[0] == "cond":
            a, b = s.forms(st, t[2]), s.forms(st, t[3])
            if a == b:
                return a
            if a[0] is not None and b[0] is not None:
                return {("?", pp(strip_cast(t[1])), fz(a[0]), fz(b[0])): 1}, None
            return {key(t): 1}, None
        return {key(t): 1}, None

    def known(s, st, leaf, truth):
        """conditional values whose condition has been decided"""
        k = pp(strip_cast(leaf))
        Q, vs = st

        def f(x):
            if x is None:
                return None
            d = {}
            for y, n in x:
                if isinstance(y, tuple) and y[1] == k:
                    d = ladd(d, dict(y[2] if truth else y[3]), n)
                else:
                    d = ladd(d, {y: n})
            return fz(d)
        return (f(Q), tuple((v, f(a), f(b)) for v, a, b in vs)), f

    def set(s, st, k, form):
        Q, vs = st
        if k not in s.only:
            return (Q, tuple((v, s.drop(p2, k), s.drop(r2, k)) for v, p2, r2 in vs))
        p, r = form
        rest = tuple(x for x in vs if x[0] != k and not (len(x[0]) > len(k) and k in re.split(r"\W+", x[0])))
        # other forms that mention the variable as a symbol are stale
        rest = tuple((v, s.drop(p2, k), s.drop(r2, k)) for v, p2, r2 in rest)
        r = s.rel(Q, p, r)
        if p is not None and not small(p):
            p = None
        if r is not None and not small(r):
            r = None
        Q2 = Q
        if Q is not None and any(k == x for x, n in Q):
            Q2 = None
        return (Q2, tuple(sorted(rest + ((k, fz(p) if p is not None else None, fz(r) if r is not None else None),))))

    def rel(s, Q, p, r):
        if p is not None and r is None and Q is not None:
            d = ladd(p, dict(Q), -1)
            if set(d) <= {1}:
                r = ladd({"Q": 1}, d)
        return r

    def drop(s, form, k):
        if form is None:
            return None
        for x, n in form:
            if isinstance(x, tuple):
                if k in re.split(r"\W+", str(x)):
                    return None
            elif isinstance(x, str) and (x == k or x.startswith(k + ".") or x.startswith(k + "->")):
                return None
        return form

    def add(s, st, e):
        Q, vs = st
        p, r = e if isinstance(e, list) else s.forms(st, e)
        if p is None:
            return (None, tuple((v, a, None) for v, a, b in vs))
        Q2 = None
        if Q is not None:
            q = ladd(dict(Q), p)
            if small(q):
                Q2 = fz(q)
        out = []
        for v, a, b in vs:
            if b is not None:
                b2 = ladd(dict(b), p, -dict(b).get("Q", 0))
                b = fz(b2) if small(b2) else None
            if b is None and a is not None and Q2 is not None:
                b = s.rel(Q2, dict(a), None)
                b = fz(b) if b is not None else None
            out.append((v, a, b))
        return (Q2, tuple(out))

    def forget(s, st, k):
        Q, vs = st
        if Q is not None and any(isinstance(x, str) and x == k for x, n in Q):
            Q = None
        return (Q, tuple((v, s.drop(a, k), s.drop(b, k)) for v, a, b in vs if v != k))

    def step(s, st, n):
        t = n.ev
        if n.kind != "ev" or t is None:
            return st
        for e in s.adds(t, st) or ():
            st = s.add(st, e)
        if t[0] == "decls":
            for d in t[1:]:
                if d[3] is not None and d[1] not in s.ignore:
                    st = s.set(st, d[1], s.forms(st, d[3]))
                else:
                    st = s.forget(st, d[1])
        elif t[0] == "asg":
            k = key(t[2])
            if strip_cast(t[2])[0] not in ("v", "m", "idx", "un") or k in s.ignore:
                return st
            if t[1] == "=":
                st = s.set(st, k, s.forms(st, t[3]))
            elif t[1] in ("+=", "-="):
                st = s.set(st, k, s.forms(st, ("bin", t[1][0], t[2], t[3])))
            else:
                st = s.forget(st, k)
        elif t[0] == "un" and t[1] in ("p++", "++", "p--", "--") and strip_cast(t[2])[0] in ("v", "m"):
            k = key(t[2])
            if k not in s.ignore:
                st = s.set(st, k, s.forms(st, ("bin", "+" if "+" in t[1] else "-", t[2], ("lit", 1))))
        return st

    def on_false(s, st, t):
        """an integer expression was found to be zero"""
        t = strip_cast(t)
        if t[0] == "un" and t[1] == "!":
            return st
        if t[0] == "bin":
            if t[1] in (">", "!=", "==") and strip_cast(t[3]) == ("lit", 0):
                t = t[2]
            elif t[1] in ("<", "!=", "==") and strip_cast(t[2]) == ("lit", 0):
                t = t[3]
            else:
                return st
        p, r = s.forms(st, t)
        if p is not None and len(p) == 1:
            x, n = next(iter(p.items()))
            if x != 1:
                Q, vs = st
                def z(f):
                    return None if f is None else tuple(y for y in f if y[0] != x)
                return (z(Q), tuple((v, z(a), z(b)) for v, a, b in vs))
        return st

    def compare(s, st, t):
        """'eq' / 'ne' / '?' for expression t against Q"""
        Q, vs = st
        p, r = s.forms(st, t)
        if p is not None and Q is not None:
            d = ladd(p, dict(Q), -1)
            if not d:
                return "eq", ""
        if r is not None:
            d = ladd(r, {"Q": 1}, -1)
            if not d:
                return "eq", ""
            if "Q" not in d and plainly(d):
                return "ne", "differs by " + " + ".join(f"{n}*{x}" if x != 1 else str(n) for x, n in d.items())
        if p is not None and Q is not None and plainly(ladd(p, dict(Q), -1)):
            d = ladd(p, dict(Q), -1)
            return "ne", "differs by " + " + ".join(f"{n}*{x}" if x != 1 else str(n) for x, n in d.items())
        return "?", ""


def relevant(g, adds, A):
    """names the returned and stored counts and the counted amounts depend on"""
    rel = set()

    def names(t):
        if t is None or not isinstance(t, tuple):
            return set()
        if t[0] in ("v", "m", "idx") or t[0] == "un" and t[1] == "*":
            return {key(t)}
        if t[0] == "call" and (t[1].startswith("std::") or last(t[1]) in ("toBlock", "pack")):
            return set()
        out = set()
        for x in t[1:]:
            if isinstance(x, tuple):
                if x and isinstance(x[0], str):
                    out |= names(x)
                else:
                    for y in x:
                        out |= names(y)
        return out
    defs = []
    for n in g.nodes:
        t = n.ev
        if t is None or n.kind != "ev":
            continue
        if t[0] == "ret" and t[1] is not None:
            rel |= names(t[1])
        elif t[0] == "call" and last(t[1]) == "fillHeader":
            rel |= names(t[3][-1])
        if t[0] == "decls":
            defs += [(d[1], d[3]) for d in t[1:] if d[3] is not None]
        elif t[0] == "asg":
            defs.append((key(t[2]), t[3]))
        for e in adds(t, None) or ():
            if not isinstance(e, list):
                rel |= names(e)
    n = -1
    while n != len(rel):
        n = len(rel)
        for v, e in defs:
            if v in rel:
                rel |= names(e)
    return rel


def account(c, rid, F, j, adds, subject, extra=None, ignore=(), const=None):
    g = build(F, j, near(F, j))
    A = Account(g, adds)
    A.ignore = set(ignore)
    A.const = const
    A.only = relevant(g, adds, A)
    al = Alias(g)
    res = {}

    def step(a, n, facts):
        st, fills, dec = a
        t = n.ev
        if dec and n.kind == "ev" and t is not None:
            o = strip_cast(t[2]) if t[0] == "asg" or t[0] == "call" and t[2] is not None and "c" not in t[4] else None
            while o is not None and o[0] in ("call", "idx") and o[0] == "idx":
                o = strip_cast(o[1])
            if o is not None and o[0] == "m":
                dec = tuple(x for x in dec if x[0] != o[2])
        if extra is not None and n.kind == "ev" and n.ev is not None:
            f = extra(A, st, n.ev)
            if f:
                fills = f
        st2 = A.step(st, n)
        if fills and n.kind == "ev":
            # the recorded count, relative to Q, follows Q
            for e in A.adds(n.ev, st) or ():
                p, r = e if isinstance(e, list) else A.forms(st, e)
                if p is None:
                    fills = ("?", None)
                elif fills[0] == "rel":
                    fills = ("rel", fz(ladd(dict(fills[1]), p, -1)))
        if n.kind == "ev" and n.ev is not None and n.ev[0] == "ret" and n.ev[1] is not None and not getattr(n, "inl", False):
            res.setdefault(n.line, []).append((A.compare(st2, n.ev[1]), fills, n))
        return [(st2, fills, dec)]

    def on(a, leaf, truth, n):
        st, f = A.known(a[0], leaf, truth)
        fills = a[1]
        if fills and fills[0] == "rel":
            fills = ("rel", f(fills[1]))
        l = strip_cast(leaf)
        if truth == (l[0] == "bin" and l[1] == "=="):
            st = A.on_false(st, leaf)
        dec = a[2]
        if l[0] == "call" and last(l[1]) == "valid" and l[2] is not None and strip_cast(l[2])[0] == "m" and strip_cast(strip_cast(l[2])[1]) == ("this",):
            k = strip_cast(l[2])[2]
            if (k, not truth) in dec:
                return None
            dec = tuple(sorted(set(dec) | {(k, truth)}))
        return (st, fills, dec)
    try:
        run(g, (A.init(), None, ()), step, only=lambda f: False, cap=400, branch=brancher(on, al, None), maxstates=60000)
    except Broken:
        c.site(rid, j["q"], "too many paths")
    for line, rs in sorted(res.items()):
        ok = True
        unk = False
        for (v, why), fills, n in rs:
            if v == "ne":
                c.bad(rid, j["q"], "returned count", j["f"], line, f"{last(j['q'])} returns a number which {why} from the number of {subject}")
                ok = False
                break
            if v == "?":
                unk = True
            if fills and fills[0] == "rel" and fills[1] is not None and dict(fills[1]) and plainly(dict(fills[1])):
                d = dict(fills[1])
                c.bad(rid, j["q"], "count in header", j["f"], line, "the count stored in the header differs from the number of " + subject + " by " + " + ".join(f"{m}*{x}" if x != 1 else str(m) for x, m in d.items()))
                ok = False
                break
        c.site(rid, j["q"], f"line {line}: " + ("unknown" if unk and ok else "ok" if ok else "bad"))


def constant(F, t):
    """the number a conversion function called here always returns, if it is a constant"""
    if t[0] != "call" or last(t[1]) != "toBlock" or F.subclasses(owner(t[1])):
        return None
    if t[1] not in CONST:
        CONST[t[1]] = None
        js = F.fns(t[1])
        if len(js) == 1:
            g = build(F, js[0])
            rs = {n.ev[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "ret"}
            if len(rs) == 1 and next(iter(rs)) and next(iter(rs))[0] == "lit":
                CONST[t[1]] = next(iter(rs))[1]
    return CONST[t[1]]


CONST = {}
PUSH = ("push", "pushNew", "pushFront")


def blockcounts(c, F):
    c.rule("block-count", "in every function that converts an object to blocks, the number returned, and the number stored in the header it fills, is the number of blocks it pushed on that path (nested conversions included)")
    for j in F.all():
        if last(j["q"]) != "toBlock" or not j["params"] or "BlockSet" not in j["params"][0][1]:
            continue
        bs = j["params"][0][0]

        def adds(t, st):
            if t[0] != "call":
                return None
            if t[1].startswith("DMI::BlockSet::"):
                if last(t[1]) in PUSH:
                    return [[{1: 1}, None]]
                if last(t[1]) in ("pushCopy", "pushMove") and len(t[3]) == 1:
                    return [[{pp(strip_cast(t[3][0])) + ".size": 1}, None]]
                return [[None, None]] if strip_cast(t[2] or ("this",)) == ("v", bs) and last(t[1]) in ("pop", "clear", "pushCopy", "pushMove", "popMove") else None
            if last(t[1]) == "toBlock" and len(t[3]) == 1:
                k = constant(F, t)
                if k is not None:
                    return [[{1: k}, None]]
                return [[{key(t): 1}, None]]
            if any(strip_cast(x) == ("v", bs) for x in t[3]) and last(t[1]) not in ("operator<<", "fillHeader"):
                return [[None, None]]
            return None

        def extra(A, st, t):
            if t[0] == "call" and last(t[1]) == "fillHeader" and len(t[3]) == 2:
                p, r = A.forms(st, t[3][1])
                Q = st[0]
                if r is not None:
                    return ("rel", fz(ladd(r, {"Q": 1}, -1)))
                if p is not None and Q is not None:
                    return ("rel", fz(ladd(p, dict(Q), -1)))
                return ("?", None)
        account(c, "block-count", F, j, adds, "blocks pushed", extra, const=lambda t: constant(F, t))
    c.expect("block-count", 7)


def packsizes(c, F):
    c.rule("pack-size", "every function that packs an object into a block of a given room takes from the room exactly the number of bytes it returns")
    for j in F.all():
        if last(j["q"]) != "pack" or len(j["params"]) < 2 or "&" not in j["params"][-1][1] or "unsigned long" not in j["params"][-1][1]:
            continue
        room = j["params"][-1][0]

        def adds(t, st):
            if t[0] == "call" and last(t[1]) == "pack" and t[3] and strip_cast(t[3][-1]) == ("v", room):
                return [[{key(t): 1}, None]]
            if t[0] == "asg" and t[1] == "-=" and strip_cast(t[2]) == ("v", room):
                return [t[3]]
            if t[0] == "asg" and strip_cast(t[2]) == ("v", room) or t[0] == "call" and any(strip_cast(x) == ("v", room) for x in t[3]) and not t[1].startswith("std::"):
                return [[None, None]]
            return None
        account(c, "pack-size", F, j, adds, "bytes taken from the room", None, ignore=(room,))
    c.expect("pack-size", 6)


# ---------------------------------------------------------------- header fields

def pairs(F):
    """(writer, reader) functions of one class"""
    R = {}
    for j in F.all():
        n = last(j["q"])
        if n in ("fromBlock", "unpack"):
            R.setdefault((j["q"].rsplit("::", 1)[0], n), []).append(j)
    for j in F.all():
        n = {"toBlock": "fromBlock", "pack": "unpack"}.get(last(j["q"]))
        if n and len(R.get((j["q"].rsplit("::", 1)[0], n), [])) >= 1:
            rs = R[(j["q"].rsplit("::", 1)[0], n)]
            if len(rs) == 1 or n == "unpack":
                # several instantiations of a template are compared one by one by their first parameter
                for r in rs:
                    if len(rs) == 1 or r["params"][0][1].replace("const ", "") == j["params"][0][1].replace("const ", ""):
                        yield j, r
                        break


def owner(q):
    return q.rsplit("::", 1)[0]


def fieldof(t):
    """(field name, is an element of an array field) for header->f and header->f[i]"""
    t = strip_cast(t)
    if t[0] == "idx":
        r = fieldof(t[1])
        return (r[0], True) if r else None
    if t[0] == "m":
        return t[2], False
    return None


def writes(t):
    """fields assigned by an event, with the value"""
    if t[0] == "asg" and t[1] == "=":
        f = fieldof(t[2])
        if f:
            yield f[0], t[3], t[2]
    elif t[0] == "call" and last(t[1]) == "operator=" and t[2] is not None and t[3]:
        f = fieldof(t[2])
        if f:
            yield f[0], t[3][0], t[2]


def onthis(t):
    t = strip_cast(t)
    while t[0] in ("m", "idx"):
        t = strip_cast(t[1])
        if t == ("this",):
            return True
    return False


def nothis(t):
    """the base of a member expression is not this object"""
    t = strip_cast(t)
    while t[0] == "idx":
        t = strip_cast(t[1])
    return t[0] == "m" and strip_cast(t[1]) != ("this",)


def expand(al, t, d=0):
    """all terms an expression depends on, through single-assignment variables"""
    for x in walk(t):
        yield x
        if x[0] == "v" and x[1] in al.all and d < 4 and al.all[x[1]] is not None and al.all[x[1]] != x:
            yield from expand(al, al.all[x[1]], d + 1)


def members(al, t):
    return {x[2] for x in expand(al, t) if x[0] == "m" and strip_cast(x[1]) == ("this",)}


def headers(c, F):
    c.rule("header-written", "every field of a block header that the reader of a class uses is written by its writer on every path that makes a new block (elements of the header's arrays: in every pass of the loop that fills them)")
    c.rule("header-pairing", "a header field that the reader copies into a member of the object is written from that member")
    for w, r in pairs(F):
        gw, gr = build(F, w, near(F, w), access=lambda q: True), build(F, r, near(F, r), access=lambda q: True)
        alw, alr = Alias(gw), Alias(gr)
        wr = {}
        for n in gw.nodes:
            if n.kind == "ev" and n.ev is not None:
                for f, v, l in writes(n.ev):
                    if nothis(l):
                        wr.setdefault(f, []).append((n, v))
        classes = {owner(f) for f in wr}
        rd = {}
        for n in gr.nodes:
            if n.ev is not None and n.kind in ("ev", "branch", "switch"):
                for x in walk(n.ev):
                    if x[0] == "m" and owner(x[2]) in classes and strip_cast(x[1]) != ("this",):
                        rd.setdefault(x[2], n)
        rr = Reader(F, r, gr)
        for n in gr.nodes:
            if n.ev is not None and n.kind in ("ev", "branch", "switch"):
                for x in walk(n.ev):
                    if x[0] == "m" and rr.reads(x) and owner(x[2]) not in classes and owner(owner(x[2])) == owner(r["q"]):
                        rd.setdefault(x[2], n)
                        classes.add(owner(x[2]))
        hdr = {f for f in rd if owner(f) in classes}
        # a header class is one the writer fills and the reader only reads
        rw = {owner(f) for n in gr.nodes if n.kind == "ev" and n.ev is not None for f, v, l in writes(n.ev) if nothis(l)}
        hdr = {f for f in hdr if owner(f) not in rw}
        if not hdr:
            continue
        comps = [set(x) for x in LS.loops(gw)]
        def array(f):
            fs = (F.classes.get(owner(f)) or {}).get("fields", ())
            return any(x[0] == last(f) and x[1].endswith("]") for x in fs)
        inloop = {f for f in hdr if f in wr and all(any(n.id in x for x in comps) for n, v in wr[f])}
        straight = {f for f in hdr - inloop if not array(f)}
        bad = unwritten(gw, straight)
        if bad is None:
            continue
        makers(c, F, w, r, straight)
        for f in sorted(straight):
            c.site("header-written", w["q"], last(f))
            if f in bad:
                c.bad("header-written", w["q"], last(f), w["f"], bad[f], f"the block made here can be handed out with header field {last(f)} never written, which {r['q']} reads")
        for f in sorted(inloop):
            c.site("header-written", w["q"], last(f) + " per element")
            for comp in comps:
                ws = {n.id for n, v in wr[f] if n.id in comp}
                if not ws or any(set(x) < comp and ws <= x for x in comps):
                    continue
                # comparisons of the cached value count as well
                for n in gw.nodes:
                    if n.id in comp and n.kind == "branch" and n.ev is not None and any(x[0] == "m" and x[2] == f for x in walk(n.ev)):
                        ws.add(n.id)
                n = skipping(gw, comp, ws)
                if n is not None:
                    c.bad("header-written", w["q"], last(f) + "[]", w["f"], n.line, f"a pass of this loop can leave its element of {last(f)} unwritten, which {r['q']} reads")
        # pairing
        for n in gr.nodes:
            if n.kind != "ev" or n.ev is None:
                continue
            for m, v, l in writes(n.ev):
                if strip_cast(l)[0] != "m" or strip_cast(strip_cast(l)[1]) != ("this",):
                    continue
                e = strip_cast(alr(v))
                while e and e[0] == "ctor" and len(e[2]) == 1:
                    e = strip_cast(alr(e[2][0]))
                if e and e[0] == "m" and e[2] in hdr and e[2] in wr:
                    ms = [members(alw, x) for k, x in wr[e[2]]]
                    c.site("header-pairing", r["q"], f"{last(e[2])} -> {last(m)}")
                    if any(ms) and not any(m in s for s in ms):
                        k, x = wr[e[2]][0]
                        c.bad("header-pairing", w["q"], last(e[2]), w["f"], k.line, f"header field {last(e[2])} is written from {', '.join(sorted(last(y) for s in ms for y in s))} but read back into {last(m)}")
    c.expect("header-written", 12)
    c.expect("header-pairing", 6)


def unwritten(gw, straight):
    """header fields not written on some path that makes a block, with the line where it is made; None if undecided"""
    bad = {}

    def step(a, n, facts):
        t = n.ev
        if n.kind == "exit":
            if a[0] and a[0] != "zero":
                for f in straight - set(a[1]):
                    bad.setdefault(f, a[0])
            return [a]
        if n.kind == "ev" and t is not None:
            if t[0] == "new" and t[1] == "DMI::SmartBlock":
                return [("zero" if zeroed(t) else n.line, ())]
            new = {f for f, v, l in writes(t) if f in straight}
            if new:
                return [(a[0], tuple(sorted(set(a[1]) | new)))]
            # the whole header is copied or cleared at once
            if t[0] == "call" and last(t[1]) in ("memcpy", "memset", "memmove") and not any(x[0] == "m" and owner(x[2]) in {owner(f) for f in straight} or x[0] == "bin" for x in walk(t[3][0])) or t[0] == "asg" and t[1] == "=" and strip_cast(t[2])[0] == "un" and strip_cast(t[2])[1] == "*" and strip_cast(t[2])[2][0] != "un":
                return [("zero" if a[0] else None, ())]
        return [a]
    try:
        run(gw, (None, ()), step, only=lambda f: False, cap=40, maxstates=60000)
    except Broken:
        return None
    return bad


def makers(c, F, w, r, straight):
    """other functions of the class that make a block of this format"""
    cls = owner(w["q"])
    hc = {owner(f) for f in straight}
    for j in F.all():
        if owner(j["q"]) != cls or j is w or j["f"] != w["f"]:
            continue
        g = build(F, j, near(F, j), access=lambda q: True)
        if not any(n.kind == "ev" and n.ev is not None and n.ev[0] == "new" and n.ev[1] == "DMI::SmartBlock" and any(x[0] == "sizeof" and x[1] in hc for x in walk(n.ev)) for n in g.nodes):
            continue
        own = {f for n in g.nodes if n.kind == "ev" and n.ev is not None for f, v, l in writes(n.ev) if f in straight}
        if not own:
            continue
        bad = unwritten(g, straight)
        if bad is None:
            continue
        c.site("header-written", j["q"], ", ".join(sorted(last(f) for f in straight)))
        for f in sorted(bad):
            c.bad("header-written", j["q"], last(f), j["f"], bad[f], f"the block made here can be kept with header field {last(f)} never written, which {r['q']} reads")


def zeroed(t):
    """the block is created filled with zeros"""

    a = t[2][2] if t[2] and t[2][0] == "ctor" else ()
    return len(a) > 1 and isinstance(a[1][-1], int) and bool(a[1][-1] & ZERO)


ZERO = 0x80000


def skipping(g, comp, ws):
    """a node from which a pass of the loop returns to its head without touching ws"""
    heads = [n for n in g.nodes if n.id in comp and any(p not in comp for p in preds(g).get(n.id, ()))]
    for h in heads:
        if h.id in ws:
            return None
        # entering the body: successors of the head inside the loop
        seen, todo = set(), []
        for m, l in h.succ:
            if m.id in comp and not exc(l):
                todo.append(m)
        body = [x for x in todo]
        while todo:
            n = todo.pop()
            if n.id in seen or n.id in ws or n.id not in comp:
                continue
            seen.add(n.id)
            for m, l in n.succ:
                if exc(l):
                    continue
                if m.id == h.id:
                    # only a pass that did something else counts: the loop condition alone is not a pass
                    return n
                todo.append(m)
    return None


def exc(l):
    return l is not None and (l == "exc" or isinstance(l, tuple) and l and l[0] == "exc")


def preds(g):
    if not hasattr(g, "_preds"):
        p = {}
        for n in g.nodes:
            for m, l in n.succ:
                p.setdefault(m.id, set()).add(n.id)
        g._preds = p
    return g._preds


# ---------------------------------------------------------------- order of the packed parts

def token(t):
    """what is packed or unpacked: the member, or the class of the packing function"""
    o = t[2] if t[2] is not None else (t[3][0] if t[3] else None)
    o = strip_cast(o) if o else None
    while o is not None and o[0] == "un":
        o = strip_cast(o[2])
    if o is not None and o[0] == "m" and not o[2].startswith("std::"):
        return o[2]
    return owner(t[1]) if t[2] is None else None


def is_pack(t, *names):
    return t is not None and t[0] == "call" and last(t[1]) in names and len(t[3]) >= 2


def parts(c, F):
    c.rule("part-order", "the variable-length parts of a block are unpacked in the order they were packed, each with the size recorded for it, and the reading position moves by exactly that size")
    for w, r in pairs(F):
        out = []
        for j, names in ((w, ("pack",)), (r, ("unpack",))):
            g = build(F, j, near(F, j), access=lambda q: True)
            seqs = set()

            def step(a, n, facts, names=names):
                if n.kind == "exit":
                    seqs.add(a)
                if n.kind == "ev" and is_pack(n.ev, *names):
                    k = token(n.ev)
                    if k is not None and k not in a:
                        return [a + (k,)]
                return [a]
            try:
                run(g, (), step, only=lambda f: False, cap=40, maxstates=40000)
            except Broken:
                seqs = set()
            out.append((g, seqs))
        (gw, sw), (gr, sr) = out
        if not sw or not sr or max(map(len, sw)) < 1:
            continue
        a, b = max(sorted(sw), key=len), max(sorted(sr), key=len)
        common = [x for x in a if x in b]
        c.site("part-order", w["q"], ", ".join(last(x) for x in common))
        if [x for x in b if x in common] != common:
            n = [n for n in gr.nodes if n.kind == "ev" and is_pack(n.ev, "unpack")]
            c.bad("part-order", r["q"], "order", r["f"], n[0].line, f"parts are packed in the order {', '.join(map(last, common))} but unpacked in the order {', '.join(last(x) for x in b if x in common)}")
        sizes(c, w, r, gw, gr)
        advance(c, r, gr, "unpack")
        advance(c, w, gw, "pack")
    c.expect("part-order", 4)


def sizes(c, w, r, gw, gr):
    alw, alr = Alias(gw), Alias(gr)
    rec = {}
    for n in gw.nodes:
        if n.kind == "ev" and n.ev is not None:
            for f, v, l in writes(n.ev):
                for x in expand(alw, v):
                    if x[0] == "call" and last(x[1]) in ("pack", "packSize"):
                        k = token(x)
                        if k and nothis(l):
                            rec.setdefault(f, set()).add(k)
    for n in gr.nodes:
        if n.kind == "ev" and is_pack(n.ev, "unpack"):
            k = token(n.ev)
            e = strip_cast(alr(n.ev[3][-1]))
            if k and e and e[0] == "m" and e[2] in rec:
                c.site("part-order", r["q"], f"{last(k)} sized by {last(e[2])}")
                if k not in rec[e[2]] and any(k in x for x in rec.values()):
                    c.bad("part-order", r["q"], last(k), r["f"], n.line, f"{last(k)} is unpacked with the size recorded for {', '.join(map(last, sorted(rec[e[2]])))}")


def advance(c, j, g, name):
    """between two parts read or written through one pointer the pointer moves by the size of the first"""
    al = Alias(g)
    found = {}

    def step(a, n, facts):
        # a: (pointer, size text, terms added, line) of the last part, or ()
        t = n.ev
        if n.kind != "ev" or t is None:
            return [a]
        if is_pack(t, name):
            ps = [strip_cast(x) for x in t[3]]
            i = 0 if t[2] is not None else 1
            p = ps[i] if i < len(ps) else None
            if p is not None and p[0] == "v":
                if a and a[0] == p[1] and a[3] != n.line:
                    judge(a, n, None)
                size = pp(strip_cast(t[3][-1])) if name == "unpack" else pp(t)
                return [(p[1], size, (), n.line)]
            return [()]
        if a:
            if t[0] == "asg" and strip_cast(t[2]) == ("v", a[0]):
                if t[1] == "+=":
                    e = strip_cast(t[3])
                    k = pp(e)
                    if e[0] not in ("v", "m"):
                        k = k if k == a[1] else "?"
                    if name == "pack" and e[0] == "v":
                        k = a[1] if (e[1] == a[4] if len(a) > 4 else False) else k
                    return [(a[0], a[1], a[2] + (k,) if len(a[2]) < 4 else a[2], a[3]) + a[4:]]
                return [()]
            if t[0] == "un" and t[1] in ("p++", "++") and strip_cast(t[2]) == ("v", a[0]):
                return [()]
            if name == "pack":
                for v, e in ([(d[1], d[3]) for d in t[1:]] if t[0] == "decls" else [(t[2][1], t[3])] if t[0] == "asg" and t[2][0] == "v" else []):
                    if e is not None and pp(strip_cast(e)) == a[1]:
                        return [a[:4] + (v,)]
        return [a]

    def judge(a, n, _):
        ok = a[2] == (a[1],)
        found.setdefault((a[3], n.line), []).append((ok, a))
    try:
        run(g, (), step, only=lambda f: False, cap=40, maxstates=40000)
    except Broken:
        return
    for (l1, l2), xs in sorted(found.items()):
        c.site("part-order", j["q"], f"line {l1} to {l2}")
        for ok, a in xs:
            if not ok and (not a[2] or "?" not in a[2] and name == "unpack"):
                c.bad("part-order", j["q"], f"{name} step", j["f"], l2, f"the position moves by {' + '.join(a[2]) or 'nothing'} past a part of {a[1] if name == 'unpack' else 'another'} size" if name == "unpack" else "the part packed here overwrites the one packed before it: the position was not moved")
                break
