"""P12: malformed serialized input: nothing is read, sized or indexed from a received block before the block's size was checked for it."""
from rules import *
import lockset as LS
from branching import *
from ir import pp, walk, last, strip_cast

CORE = ['MEQ/src/', 'MeqServer/src/', 'OCTOPUSSY/src/', 'OCTOPython/src/', 'AppAgent/AppAgent/', 'DMI/src/', 'TimBase/src/', 'VisCube/src/']
ASSUMPTIONS = ["a class that reads blocks does so in functions called fromBlock, unpack or allocate (or helpers of theirs)",
               "block sizes are far below 2^60 bytes, so that sums of checked terms do not wrap",
               "elements with a packed form of a fixed size take at least one byte"]
ORDER = {"BObj": 0}


def check(c):
    F = c.load(CORE)
    readers(c, F)
    blocksets(c, F)
    types(c, F)


def strip(t):
    """casts, references, dereferences and one-argument copies removed"""
    t = strip_cast(t) if t else None
    while t is not None:
        if t[0] == "un" and t[1] == "&":
            t = strip_cast(t[2])
        elif t[0] == "call" and last(t[1]) in ("operator->", "operator*", "deref") and t[2] is not None and not t[3]:
            t = strip_cast(t[2])
        elif t[0] == "ctor" and len(t[2]) == 1:
            t = strip_cast(t[2][0])
        else:
            break
    return t


def name(t):
    """key of a variable, member or element, None for other expressions"""
    t = strip(t)
    if t is None:
        return None
    if t[0] in ("v", "m", "g"):
        return pp(t)
    if t[0] == "idx" or t[0] == "call" and last(t[1]) == "operator[]":
        return pp(t)
    if t[0] == "un" and t[1] == "*":
        return pp(t)
    return None


SIZE = "?size"


def is_block_size(t, al, params):
    t = strip_cast(al(t))
    if t is None:
        return False
    if t[0] == "m" and last(t[2]) == "datasize":
        return True
    if t[0] == "call" and last(t[1]) == "size" and t[1].startswith("DMI::SmartBlock"):
        return True
    return t[0] == "v" and t[1] in params


class Reader:
    """what one reading function knows about its block at each point"""

    def __init__(s, F, j, g):
        s.F, s.j, s.g, s.al = F, j, g, Alias(g)
        s.params = {p[0] for p in j["params"] if p[1] in ("unsigned long", "size_t", "unsigned int") and j["q"].split("::")[-1] != "fromBlock"}
        s.ptrs = {p[0] for p in j["params"] if p[1].replace(" ", "") in ("constvoid*", "constchar*")}
        s.signed = {}
        s.tainted = set()
        change = True
        while change:
            change = False
            for n in g.nodes:
                for v, ty, e in s.assigns(n.ev):
                    if ty:
                        s.signed.setdefault(v, not ("unsigned" in ty or ty in ("bool", "size_t")) and "*" not in ty)
                    if e is None:
                        continue
                    if v not in s.ptrs and s.isptr(e) and not (ty and "*" not in ty and "&" not in ty):
                        s.ptrs.add(v)
                        change = True
                    if v not in s.tainted and not s.isptr(e) and any(s.reads(x) or (name(x) in s.tainted) for x in walk(e)):
                        s.tainted.add(v)
                        change = True
        s.loopvars = {}
        for comp in LS.loops(g):
            vs = set()
            for n in g.nodes:
                if n.id in comp and n.kind == "branch" and n.ev is not None and any(t.id not in comp for t, l in n.succ):
                    vs |= {k for x in walk(n.ev) for k in [name(x)] if k}
            for i in comp:
                s.loopvars[i] = vs
        s.blockkeys = {pp(x) for n in g.nodes if n.ev is not None for x in walk(n.ev) if s.reads(x)}
        # variables whose history matters: those in comparisons, lengths and allocations
        rel = set()
        for n in g.nodes:
            t = n.ev
            if t is None:
                continue
            if n.kind == "branch" and any(is_block_size(x, s.al, s.params) for x in walk(t)):
                rel |= {k for x in walk(t) for k in [name(x)] if k}
            elif t[0] in ("call", "ctor") and any(s.isptr(x) for x in (t[3] if t[0] == "call" else t[2])) or t[0] == "new" or t[0] == "call" and last(t[1]) == "resize" or t[0] == "asg" and t[1] == "*=":
                rel |= {k for x in walk(t) for k in [name(x)] if k}
        change = True
        while change:
            change = False
            for n in g.nodes:
                for v, ty, e in s.assigns(n.ev):
                    if v in rel and e is not None:
                        new = {k for x in walk(e) for k in [name(x)] if k} - rel
                        if new:
                            rel |= new
                            change = True
        s.rel = rel

    def assigns(s, t):
        if t is None:
            return
        if t[0] == "decls":
            for d in t[1:]:
                yield d[1], d[2], d[3]
        elif t[0] == "asg":
            k = name(t[2])
            if k:
                yield k, None, t[3]
        elif t[0] == "call" and t[1].startswith("DMI::SmartBlock") and t[2] is None:
            return

    def isptr(s, t):
        """points into the received block"""
        t = strip_cast(t) if t else None
        if t is None:
            return False
        if t[0] == "un" and t[1] in ("&", "*") and s.isptr(t[2]):
            return t[1] == "&" or (strip_cast(t[2])[0] == "call" and last(strip_cast(t[2])[1]) in ("pdata", "data"))
        if t[0] == "un" and t[1] in ("p++", "p--", "++", "--"):
            return s.isptr(t[2])
        if t[0] == "bin" and t[1] in ("+", "-"):
            return s.isptr(t[2]) or (t[1] == "+" and s.isptr(t[3]))
        if t[0] == "call" and last(t[1]) in ("data", "cdata", "pdata") and t[2] is not None and "std::" not in t[1]:
            return True
        if t[0] == "m" and last(t[2]) == "block" and t[2].startswith("DMI::SmartBlock"):
            return True
        if t[0] == "m" and s.arrayfield(t) and s.isptr(t[1]):
            return True
        if t[0] == "ctor" and len(t[2]) == 1:
            return s.isptr(t[2][0])
        if t[0] == "call" and last(t[1]) in ("operator->", "operator*") and t[2] is not None and not t[3]:
            return s.isptr(t[2])
        return name(t) in s.ptrs

    def field(s, q):
        c = s.F.classes.get(q.rsplit("::", 1)[0])
        if not c:
            return None
        fs = c["fields"]
        for i, f in enumerate(fs):
            if f[0] == last(q):
                end = fs[i + 1][5] if i + 1 < len(fs) else c.get("size", -1)
                return f[1], f[5], end, c
        return None

    def arrayfield(s, t):
        f = s.field(t[2])
        return bool(f) and f[0].endswith("]")

    def head(s, t):
        """the pointer is still at the start of the block (not derived from an array member or an offset)"""
        t = strip_cast(t)
        if t is None:
            return False
        if t[0] in ("un",) and t[1] in ("p++", "++", "&", "*"):
            return s.head(t[2])
        if t[0] == "bin" or t[0] == "idx":
            return False
        if t[0] == "m" and s.arrayfield(t) and s.isptr(t[1]):
            return False
        if t[0] == "ctor" and len(t[2]) == 1:
            return s.head(t[2][0])
        if t[0] == "v" and t[1] in s.al.all and t[1] in s.ptrs and s.al.all[t[1]] != t:
            return s.head(s.al.all[t[1]])
        return True

    def reads(s, t):
        """('head', bytes) / ('tail',) when evaluating t itself loads from the block"""
        if t[0] == "m" and not s.arrayfield(t) and s.isptr(t[1]) and not (t[2].startswith(("DMI::SmartBlock", "DMI::CountedRef"))):
            f = s.field(t[2])
            if f is None:
                return ("head", 1) if s.head(t[1]) else ("tail",)
            return ("head", f[2]) if s.head(t[1]) else ("tail",)
        if t[0] == "un" and t[1] == "*" and s.isptr(t[2]):
            p = strip_cast(t[2])
            while p[0] == "call" and last(p[1]) in ("operator->", "operator*"):
                p = strip_cast(p[2])
            if p[0] == "call" and last(p[1]) in ("pdata", "data") or p[0] == "this":
                return None
            return ("head", 1, name(p[2]) if p[0] == "un" else name(p)) if s.head(t[2]) else ("tail",)
        if t[0] == "idx" and s.isptr(t[1]):
            return ("tail",)
        return None

    def terms(s, t, acc, depth=0):
        """(constant part, variables) of a size expression, with what was accumulated into its variables"""
        t0 = strip(t)
        if t0 is None or depth > 12:
            return 0, frozenset()
        if t0[0] == "lit" and isinstance(t0[1], int):
            return t0[1], frozenset()
        if t0[0] == "enum":
            return t0[2], frozenset()
        if t0[0] == "g" and len(t0) > 2 and isinstance(t0[2], int):
            return t0[2], frozenset()
        if t0[0] == "sizeof":
            return (t0[2] or 0), frozenset()
        if is_block_size(t0, s.al, s.params):
            return 0, frozenset((SIZE,))
        if t0[0] == "bin" and t0[1] == "+":
            a, b = s.terms(t0[2], acc, depth + 1), s.terms(t0[3], acc, depth + 1)
            return a[0] + b[0], a[1] | b[1]
        if t0[0] == "bin" and t0[1] == "*":
            a, b = s.terms(t0[2], acc, depth + 1), s.terms(t0[3], acc, depth + 1)
            if not a[1] and not b[1]:
                return a[0] * b[0], frozenset()
            # (c + vars) * d: at least c * d
            k = a[0] * b[0] if (a[1] and not b[1] or b[1] and not a[1]) else 0
            return k, a[1] | b[1]
        if t0[0] == "bin" and t0[1] == "-":
            a, b = s.terms(t0[2], acc, depth + 1), s.terms(t0[3], acc, depth + 1)
            return a[0] - b[0] - (1 << 40 if b[1] else 0), a[1]
        if t0[0] == "bin":
            a, b = s.terms(t0[2], acc, depth + 1), s.terms(t0[3], acc, depth + 1)
            return 0, a[1] | b[1]
        if t0[0] == "cond":
            a, b = s.terms(t0[2], acc, depth + 1), s.terms(t0[3], acc, depth + 1)
            return min(a[0], b[0]), a[1] | b[1]
        if t0[0] == "asg":
            a, b = s.terms(t0[3], acc, depth + 1), s.terms(t0[2], acc, depth + 1)
            return a[0], a[1] | (b[1] if name(t0[2]) else frozenset())
        k = name(t0)
        if k is not None:
            d = dict(acc)
            if k in d:
                return d[k][0], d[k][1] | {k}
            return 0, frozenset((k,))
        vs = set()
        for x in t0[3] if t0[0] == "call" else ():
            vs |= s.terms(x, acc, depth + 1)[1]
        vs.add(pp(t0))
        return 0, frozenset(vs)


def blocks_of(F, j):
    """the function takes blocks from the set given to it"""
    return last(j["q"]) == "fromBlock" and any("BlockSet" in p[1] for p in j["params"])


def subjects(F):
    out = []
    for j in F.all():
        q = j["q"]
        n = last(q)
        ps = [p[1].replace(" ", "") for p in j["params"]]
        if n == "fromBlock" and any("BlockSet" in p for p in ps):
            out.append(j)
        elif n in ("unpack", "allocate") and any(p == "constvoid*" for p in ps) and any(p == "unsignedlong" for p in ps):
            out.append(j)
        elif q.startswith("DMI::DynamicTypeManager::construct") and any("BlockSet" in p for p in ps):
            out.append(j)
    return out


def readers(c, F):
    H = c.rule("P12-head", "a field in the fixed part of a received block (header fields, the leading count, the type tag) is read only after the block's size was found to reach past it")
    T = c.rule("P12-tail", "the variable part of a block (element counts, sizes, shape, ID bytes) is read only after the block's size was compared with an extent that includes the number of elements read")
    L = c.rule("P12-length", "a length taken from a block and passed on with a pointer into it (copy, unpack, string, ID) was included in a size comparison, and not negative if it is signed")
    N = c.rule("P12-count", "an allocation, resize or array bound taken from a block was bounded by a comparison before")
    S = c.rule("P12-product", "when sizes from a block are multiplied up in a loop, each product is bounded before it is formed")
    B = c.rule("P12-blocks", "the number of blocks taken from the set is counted, and compared with the number the header announces before the object is accepted")
    for j in subjects(F):
        q = j["q"]
        own = q.rsplit("::", 1)[0]
        g = build(F, j, inline_near(own + "::", files=(j["f"],), no=("fromBlock", "unpack", "allocate")), access=lambda q: True)
        R = Reader(F, j, g)
        if not R.ptrs and not R.blockkeys:
            continue
        isfb = blocks_of(F, j)
        setv = [p[0] for p in j["params"] if "BlockSet" in p[1]]
        inloop = set().union(*LS.loops(g)) if LS.loops(g) else set()
        bad = {}
        pops = any(n.ev is not None and n.ev[0] == "call" and last(n.ev[1]) == "pop" for n in g.nodes)
        where = "%s:%d" % (j["f"], j["l"])
        seen = set()
        # the counter compared with the header's block count
        ann = {d[1] for n in g.nodes if n.ev is not None and n.ev[0] == "decls" for d in n.ev[1:]
               if d[3] is not None and any(x[0] == "call" and last(x[1]) == "checkHeader" or x[0] == "m" and last(x[2]) == "blockcount" and "Header" in x[2] for x in walk(d[3]))}

        def announced(t):
            t = strip_cast(t)
            return t is not None and (t[0] == "v" and t[1] in ann or t[0] == "call" and last(t[1]) == "checkHeader"
                                      or t[0] == "m" and last(t[2]) == "blockcount" and t[2].endswith("Header::blockcount"))
        counters = set()
        for n in g.nodes:
            if n.kind == "branch" and n.ev is not None:
                for x in walk(n.ev):
                    if x[0] == "bin" and x[1] in ("==", "!=", "<", ">", "<=", ">="):
                        for a, b in ((x[2], x[3]), (x[3], x[2])):
                            if announced(a) and strip_cast(b)[0] == "v":
                                counters.add(strip_cast(b)[1])

        def note(rid, k, n, msg):
            bad.setdefault((rid, k), (n, msg))

        def site(rid, n, what):
            if (rid, n.id, what) not in seen:
                seen.add((rid, n.id, what))
                c.site(rid, "%s:%d" % (n.file or j["f"], n.line), what)

        # state: (K, T, L, A, moved, bounded, blocks - counted, compared)
        def ok_bounds(a, vs, direct=(), strict=False):
            for v in vs:
                if v == SIZE or "++" in v or not strict and v not in R.tainted and v not in R.blockkeys:
                    continue
                if strict and v in a[5]:
                    continue
                if v not in a[1] and v not in a[5]:
                    return v, "is never compared with the size of the block"
                if v in direct and R.signed.get(v, signedfield(v)) and v not in a[2]:
                    return v, "may be negative"
            return None

        def signedfield(v):
            ts = fieldtype.get(v)
            if not ts:
                return v in R.blockkeys
            return "unsigned" not in ts and ts not in ("bool", "size_t")

        fieldtype = {}
        for n in g.nodes:
            if n.ev is not None:
                for x in walk(n.ev):
                    if x[0] == "m":
                        f = R.field(x[2])
                        if f:
                            fieldtype[pp(x)] = f[0]

        def load(a, t, n):
            """checks of one load"""
            r = R.reads(t)
            if r is None:
                return
            if r[0] == "head" and len(r) > 2 and r[2] in a[4]:
                r = ("tail",)
            if r[0] == "head":
                site(H, n, pp(t)[:60])
                if a[0] < max(r[1], 1):
                    note(H, pp(t), n, "%s is read from the received block before the block is known to be %s" % (pp(t), "long enough to hold it (%d of %d bytes checked)" % (max(a[0], 0), r[1])))
            else:
                site(T, n, pp(t)[:60])
                if not (a[1] & R.loopvars.get(n.id, frozenset())) and not any(v in a[1] or v in a[5] for x in walk(t) for v in [name(x)] if v and v not in R.ptrs):
                    note(T, pp(t), n, "%s is read beyond the fixed part of the received block, whose size was not compared with the number of elements" % pp(t))

        def step(a, n, facts):
            t = n.ev
            if n.kind == "exit" and isfb and pops and not a[7]:
                note(B, "uncompared", n, "the object is accepted without comparing the number of blocks announced in its header with the number taken")
            if n.kind not in ("ev", "iret", "branch", "switch") or t is None:
                return [a]
            if t[0] in ("decls",):
                subs = [x for d in t[1:] if d[3] is not None and not d[2].endswith("&") for x in walk(d[3])]
            elif t[0] == "throw":
                return [a]
            else:
                subs = list(walk(t))
            if n.kind == "ev" and t[0] == "call" and last(t[1]) in ("operator->", "operator*", "pdata", "data", "cdata"):
                return [a]
            for x in subs:
                load(a, x, n)
            if n.kind not in ("ev", "iret"):
                return [a]
            K, Ts, Ls, A, mv, U, dn, cmp_ = a
            A = dict(A)
            # pointer + length handed on
            args = None
            if t[0] == "call":
                args = t[3]
            elif t[0] == "ctor":
                args = t[2]
            if args:
                for i, x in enumerate(args):
                    if not R.isptr(x) or (t[0] == "call" and last(t[1]) in ("operator[]",)):
                        continue
                    nm = last(t[1])
                    if i + 1 < len(args) and not R.isptr(args[i + 1]) or (nm in ("memcpy", "memmove", "copy") and len(args) > 2):
                        ln = args[2] if nm in ("memcpy", "memmove") else args[i + 1]
                        if strip_cast(ln)[0] == "str":
                            continue
                        k, vs = R.terms(ln, tuple(A.items()))
                        site(L, n, "%s(.., %s)" % (nm, pp(ln)[:40]))
                        w = ok_bounds(a, vs, {name(x) for x in walk(ln)}, strict=nm in ("memcpy", "memmove"))
                        if w:
                            note(L, nm + pp(ln), n, "%s is called with a length from the received block (%s), and %s %s" % (nm, pp(ln), w[0], w[1]))
                        elif SIZE in vs and K < -k or SIZE not in vs and not vs and K < k:
                            note(L, nm + pp(ln), n, "%s is called with the length %s, and the block is not known to be that long" % (nm, pp(ln)))
                    elif nm == "checkHeader":
                        site(H, n, "checkHeader")
                        if K < 8:
                            note(H, "checkHeader", n, "the type tag and block count are read before the block is known to be long enough to hold them")
            # allocations
            al_ = None
            if t[0] == "new" and len(t) > 3 and t[3]:
                al_ = t[3]
            elif t[0] == "call" and last(t[1]) == "resize" and t[3]:
                al_ = t[3][0]
            if al_ is not None:
                k, vs = R.terms(al_, tuple(A.items()))
                if any(v in R.tainted or v.split(".")[0] in R.ptrs for v in vs):
                    site(N, n, pp(t)[:60])
                    w = ok_bounds(a, vs)
                    if w:
                        note(N, pp(t), n, "%s: %s comes from the received block and %s" % (pp(t), w[0], w[1]))
            # products
            if t[0] == "asg" and t[1] == "*=" and n.id in inloop:
                v = name(t[2])
                k, vs = R.terms(t[3], tuple(A.items()))
                if any(x in R.tainted for x in vs):
                    site(S, n, pp(t)[:60])
                    if v not in U and v not in Ts and not any("0:" + x in U for x in vs):
                        note(S, pp(t), n, "%s: the product of sizes from the received block was not bounded before" % pp(t))
            # movement of pointers
            for x in subs:
                if x[0] == "un" and x[1] in ("p++", "++") and R.isptr(x[2]):
                    k = name(x[2])
                    if k and t[0] != "un":
                        mv = mv | {k}
                    elif k and n.kind == "ev" and x is t:
                        mv = mv | {k + "'"}
            # assignments
            for v, ty, e in R.assigns(t):
                Ts, Ls, U = Ts - {v}, Ls - {v}, U - {v, "0:" + v}
                A.pop(v, None)
                if e is None:
                    continue
                if v in R.ptrs:
                    mv = mv - {v, v + "'"}
                    continue
                if t[0] == "asg" and t[1] != "=":
                    k0, vs0 = R.terms(t[2], a[3])
                    k, vs = R.terms(e, a[3])
                    if t[1] in ("+=", "*=") and v in R.rel:
                        A[v] = (k0 if t[1] == "+=" else 0, vs | (vs0 - {v}))
                    continue
                k, vs = R.terms(e, a[3])
                if v in R.rel:
                    A[v] = (k, vs - {v})
                if vs and all(x in Ls or not R.signed.get(x, signedfield(x)) for x in vs) and k >= 0:
                    Ls = Ls | {v}
                src = name(e)
                if src and src in a[1]:
                    Ts = Ts | {v}
                if src and src in a[5]:
                    U = U | {v}
            # reassigned variables are no longer what was accumulated into others: those keep their (checked) parts
            # blocks
            if isfb:
                if t[0] == "call" and any(y[0] == "v" and y[1] in setv for x in (t[3] + ((t[2],) if t[2] else ())) for y in [strip(x)] if y):
                    nm = last(t[1])
                    if nm in ("pop", "popMove", "fromBlock", "construct"):
                        dn = min(dn + 1, 2)
                        site(B, n, nm)
                if t[0] == "decls":
                    for d in t[1:]:
                        if d[1] in counters and strip_cast(d[3])[0] == "lit" if d[3] is not None else False:
                            dn = max(dn - (1 if strip_cast(d[3])[1] else 0), -2)
                elif t[0] == "asg" and name(t[2]) in counters and any(y[0] == "m" and last(y[2]) == "cursize" or y[0] == "call" and last(y[1]) == "size" and y[2] and name(y[2]) in setv for y in walk(R.al.full(t[3]))):
                    dn = dn if dn < 1 else dn - 1      # counted by the shrinking of the set
                elif t[0] == "asg" and t[1] == "+=" and name(t[2]) in counters or t[0] == "un" and t[1] in ("++", "p++") and name(t[2]) in counters:
                    dn = max(dn - 1, -2)
                elif t[0] == "asg" and t[1] == "=" and name(t[2]) in counters and any(name(x) in counters for x in walk(t[3])):
                    dn = max(dn - 1, -2)
            if len(A) > 24:
                A = dict(sorted(A.items(), key=str)[-24:])
            return [(K, Ts, Ls, tuple(sorted(A.items(), key=str)), mv, U, dn, cmp_)]

        def on(a, e, truth, n):
            K, Ts, Ls, A, mv, U, dn, cmp_ = a
            if e[0] == "bin" and e[1] in FLIP:
                for x, op, y in ((e[2], e[1], e[3]), (e[3], FLIP[e[1]], e[2])):
                    if not truth:
                        op = NEG[op]
                    kx, vx = R.terms(x, A)
                    ky, vy = R.terms(y, A)
                    if announced(x) and (op == "==" or strip_cast(y)[0] == "lit" and op in ("<=", "<")):
                        cmp_ = "n" if strip_cast(y)[0] == "v" and strip_cast(y)[1] in counters and op == "==" else (cmp_ or "c")
                        if cmp_ == "n" and dn != 0 and counters:
                            note(B, "count%d" % dn, n, "the number of blocks taken from the set is %s when it is compared with the announced number" % ("counted short" if dn > 0 else "counted too often"))
                    # size >= extent
                    if vx == {SIZE} and SIZE not in vy and op in (">=", ">", "=="):
                        neg = [v for v in {name(z) for z in walk(y)} & vy if v != SIZE and (v in R.tainted or v in fieldtype) and R.signed.get(v, signedfield(v)) and v not in Ls]
                        kk = ky - kx + (op == ">")
                        if kk >= K:      # the extent compared includes the fixed part
                            Ts = Ts | {v for v in vy if "++" not in v}
                        else:
                            U = U | vy
                        if not neg or not vy:
                            K = max(K, kk)
                        if op == "==" and len(vy) == 1 and list(vy)[0] in neg:
                            Ls = Ls | vy
                    # bounds of single values
                    k = name(x)
                    if k is not None and SIZE not in vx:
                        if op in (">=", ">", "==") and not vy and ky - (op == "<") + (op == ">") >= 0:
                            Ls = Ls | {k}
                        if op in (">=", ">") and vy and all(v in Ls for v in vy):
                            Ls = Ls | {k}
                        if op in ("<=", "<", "=="):
                            yd = strip_cast(R.al(y))
                            if yd[0] == "bin" and yd[1] == "/" and not R.terms(yd[2], A)[1]:
                                U = U | {k}
                            if not vy or not any(v in R.tainted and v not in Ts and v not in U for v in vy):
                                U = U | {k}
                            if vy and all(v in Ls or not R.signed.get(v, signedfield(v)) for v in vy) and op == "==":
                                Ls = Ls | {k}
                    elif op in ("<=", "<", "==") and len(vx) == 1 and SIZE not in vx:
                        U = U | vx
            elif R.reads(e) is None and name(e) and not truth:
                k = name(e)
                Ls, U = Ls | {k}, U | {k, "0:" + k}
            return (K, Ts, Ls & keep, A, mv, U & keep, dn, cmp_)

        keep = frozenset(R.rel | R.tainted | R.blockkeys)
        keep |= {"0:" + x for x in keep}
        F0 = frozenset()
        res = run(g, (0, F0, F0, (), F0, F0, 0, ""), step, branch=brancher(on, R.al), only=lambda f: False, cap=6)
        for (rid, k), (n, msg) in sorted(bad.items(), key=lambda x: str(x[0])):
            c.bad(rid, q, k.replace("|", "/")[:80], n.file or j["f"], n.line, "%s (in %s)" % (msg, q))
    c.expect(H, 8)
    c.expect(L, 8)
    c.expect(T, 6)
    c.expect(B, 8)


def blocksets(c, F):
    R = c.rule("P12-set", "a block is taken out of a block set only after the set was found not to be too short, and a number of blocks only if it is not negative")
    RF = "DMI::BlockSet::refs"

    def isrefs(t):
        t = strip(t)
        return t is not None and t[0] == "m" and t[2] == RF
    for j in F.all():
        if not j["q"].startswith("DMI::BlockSet::"):
            continue
        g = build(F, j, inline_near("DMI::BlockSet::", files=(j["f"],)), access=lambda q: True)
        takes = [n for n in g.nodes if n.kind in ("ev", "iret") and n.ev[0] == "call" and last(n.ev[1]) in ("front", "back", "pop_front", "pop_back") and n.ev[2] is not None and isrefs(n.ev[2])]
        if not any(last(n.ev[1]) == "pop_front" for n in takes):
            continue
        counts = {p[0] for p in j["params"] if p[1] == "int"}
        al = Alias(g)
        bad = {}

        def sized(t):
            t = strip_cast(al(t))
            if t is None:
                return False
            return t[0] == "m" and last(t[2]) == "cursize" or t[0] == "call" and last(t[1]) == "size" and (t[2] is None or t[2][0] == "this" or isrefs(t[2]))

        # (nonempty, count not negative, count at most size)
        def on(a, e, truth, n):
            ne, lo, hi = a
            if e[0] == "call" and last(e[1]) == "empty" and (isrefs(e[2]) or e[2] and e[2][0] == "this"):
                return (not truth, lo, hi)
            if sized(e):
                return (truth, lo, hi)
            if e[0] == "bin" and e[1] in FLIP:
                for x, op, y in ((e[2], e[1], e[3]), (e[3], FLIP[e[1]], e[2])):
                    op = op if truth else NEG[op]
                    x, y = strip_cast(x), strip_cast(y)
                    if x[0] == "v" and x[1] in counts:
                        if y[0] == "lit" and (op in (">=", "==") and y[1] >= 0 or op == ">" and y[1] >= -1):
                            lo = True
                        if sized(y) and op in ("<=", "<", "=="):
                            hi = True
                    if sized(x) and y[0] == "lit" and (op == ">" and y[1] >= 0 or op in (">=", "==") and y[1] > 0 or op == "!=" and y[1] == 0):
                        ne = True
            return (ne, lo, hi)

        def step(a, n, facts):
            if n in takes:
                c.site(R, "%s:%d" % (n.file or j["f"], n.line), pp(n.ev))
                if not a[0] and not (a[2] and counts):
                    bad.setdefault("short", (n, "%s takes a block out of the set without checking that enough are left" % j["q"]))
                if counts and a[2] and not a[1]:
                    bad.setdefault("negative", (n, "%s accepts a negative number of blocks" % j["q"]))
                if not counts and last(n.ev[1]).startswith("pop"):
                    return [(False,) + a[1:]]
            if n.kind == "exit" and counts and a[2] and not a[1]:
                bad.setdefault("negative", (n, "%s accepts a negative number of blocks" % j["q"]))
            return [a]
        run(g, (False, False, False), step, branch=brancher(on, al), only=lambda f: False)
        for k, (n, msg) in sorted(bad.items()):
            c.bad(R, j["q"], k, n.file or j["f"], n.line, msg)
    c.expect(R, 4)


def types(c, F):
    R = c.rule("P12-type", "an object of a type named in a block is constructed only through a constructor found in the registry, and is used only if construction gave one")
    for j in F.all():
        if not j["q"].startswith("DMI::DynamicTypeManager::construct"):
            continue
        g = build(F, j, inline_near("DMI::DynamicTypeManager::", files=(j["f"],), no=("construct",)), access=lambda q: True)
        al = Alias(g)
        ptrs = {}
        for n in g.nodes:
            if n.kind == "ev" and n.ev[0] == "decls":
                for d in n.ev[1:]:
                    for x in walk(d[3]) if d[3] is not None else ():
                        if x[0] == "call" and last(x[1]) in ("find", "lookup") and "egistry" in pp(x):
                            ptrs[d[1]] = "registry"
        used = [n for n in g.nodes if n.kind == "ev" and n.ev[0] == "call" and any(x[0] == "v" and x[1] in ptrs for x in ([strip(n.ev[2])] if n.ev[2] else []) + [strip(n.ev[1]) if isinstance(n.ev[1], tuple) else None] if x)]
        calls = [n for n in g.nodes if n.kind == "ev" and n.ev[0] == "call" and n.ev[1].startswith("?") and any(x[0] == "v" and x[1] in ptrs for x in walk(n.ev))]
        if not ptrs:
            continue
        bad = {}

        def on(a, e, truth, n):
            for x in [e] if e[0] != "bin" else [e[2], e[3]]:
                x = strip_cast(x)
                if x and x[0] == "v" and x[1] in ptrs:
                    if e[0] != "bin":
                        return truth
                    if e[1] in ("==", "!="):
                        return truth == (e[1] == "!=")
            return a

        def step(a, n, facts):
            if n in used or n in calls:
                c.site(R, "%s:%d" % (n.file or j["f"], n.line), pp(n.ev)[:60])
                if not a:
                    bad.setdefault("null", (n, "the constructor found for a type is called without checking that there is one"))
            return [a]
        run(g, False, step, branch=brancher(on, al), only=lambda f: False)
        for k, (n, msg) in sorted(bad.items()):
            c.bad(R, j["q"], k, n.file or j["f"], n.line, msg)
    c.expect(R, 1)
