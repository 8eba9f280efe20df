"""P14: the data containers (records, lists, vectors, numeric arrays): bounds, protection, write access, locks."""
from rules import *
import lockset as LS
from branching import *
from tables import *
from ir import pp, walk, last, strip_cast
from checks.p07_visibilities import fns, mem, callof, evs, has_call, vars_of, setvars

DIRS = ['DMI/src/']
ASSUMPTIONS = ["field ids and indices reach the containers through their public functions",
               "the standard containers do what their documentation says",
               "derived classes reach the content only through the base class's functions"]
VEC, REC, LST, NUM, HOOK = "DMI::Vec", "DMI::Record", "DMI::List", "DMI::NumArray", "DMI::Container::Hook"
OPS = {"<": ("<", True), ">=": ("<", False), ">": ("<=", False), "<=": ("<=", True), "==": ("==", True), "!=": ("==", False)}


def check(c):
    F = c.load(DIRS)
    for k, v in dict(vec="elements of a vector are used only at an index known to lie within it; one past the end is reported as absent",
                     vectype="a vector takes only elements of its own type (or convertible numbers), shrinks only from its end, and gives write access only to its private data",
                     array="elements and slices of a numeric array are computed only from positions checked against every axis",
                     arraytype="a numeric array is handed out only as what it is, and for writing only after it was made private",
                     record="fields are looked up under a non-empty name, used only if found, and replaced or removed only if not protected and with permission",
                     list="a list position is used only if it lies within the list",
                     hook="a chained access reaches into containers only, and changes an element only in a container that may be written",
                     hooktype="a value is handed out or overwritten only as a matching type",
                     lock="a container's content is used while its lock is held").items():
        c.rule(k, v)
    vec(c, F)
    array(c, F)
    record(c, F)
    lists(c, F)
    hook(c, F)
    hookstart(c, F)
    protection(c, F)
    locks(c, F)


def has_arg(t, nm):
    return any(x[0] in ("enum", "g") and last(x[1]) == nm for x in walk(t))


def flagbit(e, *nms):
    """flags & NAME"""
    e = strip_cast(e)
    return e[0] == "bin" and e[1] == "&" and any(has_arg(e, n) for n in nms)


VALS = {"WRITE": 2, "ASSIGN": 0x1000000}


def writing(e):
    """flags & (WRITE [|ASSIGN])"""
    e = strip_cast(e)
    if e[0] != "bin" or e[1] != "&":
        return False
    lits = [x[1] for x in walk(e) if x[0] == "lit" and isinstance(x[1], int)]
    return has_arg(e, "WRITE") or any(v & 2 and v & ~(2 | VALS["ASSIGN"]) == 0 for v in lits)


def eqcmp(e):
    """(is equality, operands) of an == / != comparison"""
    e = strip_cast(e)
    if e[0] == "bin" and e[1] in ("==", "!="):
        return e[1] == "==", [strip_cast(e[2]), strip_cast(e[3])]
    if e[0] == "call" and last(e[1]) in ("operator==", "operator!="):
        xs = ([e[2]] if e[2] is not None else []) + list(e[3])
        if len(xs) == 2:
            return last(e[1]) == "operator==", [strip_cast(x) for x in xs]
    return None


def relation(e):
    """(op in < <= ==, truth, a, b)"""
    e = strip_cast(e)
    if e[0] == "bin" and e[1] in OPS:
        op, tr = OPS[e[1]]
        return op, tr, strip_cast(e[2]), strip_cast(e[3])
    return None


class Names:
    """one name for a variable and its plain copies"""

    def __init__(s, al):
        s.al = al

    def __call__(s, t):
        t = strip_cast(t) if t is not None else None
        for _ in range(6):
            if t is None or t[0] != "v":
                return None
            d = s.al.dec.get(t[1])
            if d is None or strip_cast(d)[0] != "v":
                return t[1]
            t = strip_cast(d)
        return t[1]


def through(classify, al, size):
    """conditions on copies of a size or axis length, and on masked flags compared with zero"""
    def f(e):
        r = classify(e)
        e = strip_cast(e)
        if r is None and e[0] == "call" and last(e[1]) in ("operator==", "operator!="):
            xs = ([e[2]] if e[2] is not None else []) + list(e[3])
            if len(xs) == 2:
                ys = [al(x) if strip_cast(x)[0] == "v" and size(al(x)) else x for x in xs]
                if ys != xs:
                    r = classify((e[0], e[1], ys[0] if e[2] is not None else None, tuple(ys[1:] if e[2] is not None else ys)) + tuple(e[4:]))
        if r is not None or e[0] != "bin" or e[1] not in OPS:
            return r
        a, b = strip_cast(e[2]), strip_cast(e[3])
        a2, b2 = (al(x) if x[0] == "v" and size(al(x)) else x for x in (a, b))
        if (a2, b2) != (a, b):
            r = classify((e[0], e[1], a2, b2) + tuple(e[4:]))
        if r is None and e[1] in ("==", "!=") and b == ("lit", 0) and al(a)[0] == "bin" and al(a)[1] == "&":
            r = classify(al(a))
            r = r and (r[0], r[1] == (e[1] == "!="))
        return r
    return f


def helper_of(j, c2):
    """a free function next to j"""
    return c2["f"] == j["f"] and "::" not in c2["q"].replace("(anonymous namespace)::", "").replace("DMI::", "") and "(ctor)" not in c2["q"]


def counting(g):
    """variables that start at a non-negative number and only grow"""
    ok, no = set(), set()
    for n in evs(g):
        t = n.ev
        if t[0] == "decls":
            for d in t[1:]:
                x = strip_cast(d[3]) if d[3] is not None else None
                if x is not None and x[0] == "lit" and isinstance(x[1], int) and x[1] >= 0:
                    ok.add(d[1])
                else:
                    no.add(d[1])
        elif t[0] == "asg" and strip_cast(t[2])[0] == "v":
            x = strip_cast(t[3])
            if not (t[1] in ("=", "+=") and x[0] == "lit" and isinstance(x[1], int) and x[1] >= 0):
                no.add(strip_cast(t[2])[1])
        elif t[0] == "un" and t[1] in ("--", "p--") and strip_cast(t[2])[0] == "v":
            no.add(strip_cast(t[2])[1])
    return ok - no


def drop(d, t):
    up = {}
    for v in setvars(t):
        up.update({k: None for k in d if k.endswith("@" + v)})
    return up


# ---------------------------------------------------------------- vectors

NOINL = ("resolveObject", "resize", "init", "get", "clear", "makeNewHeader", "toBlock", "fromBlock", "cloneOther", "makeWritable", "insert", "validateContent", "sdebug", "debug", "(ctor)")


def vecsize(t):
    t = strip_cast(t)
    return mem(t, "mysize_") or callof(t, "mysize") and t[1].startswith(VEC) or callof(t, "size") and t[2] is not None and mem(t[2], "elems_")


def accesses(t):
    """(index expression, what) of the uses of a vector's elements"""
    for x in walk(t):
        if callof(x, "operator[]", "at") and x[2] is not None and mem(x[2], "elems_"):
            yield x[3][0], "elems_"
        elif x[0] == "idx" and mem(x[1], "elems_"):
            yield x[2], "elems_"
        elif x[0] == "bin" and x[1] == "+":
            for a, b in ((x[2], x[3]), (x[3], x[2])):
                b = strip_cast(b)
                if any(y[0] == "m" and (last(y[2]) == "spvec" or last(y[2]) == "data" and any(mem(z, "phead_") for z in walk(y))) for y in walk(a)) and b[0] == "bin" and b[1] == "*":
                    for f in (b[2], b[3]):
                        if not any(y[0] == "m" and last(y[2]) == "size" for y in walk(f)):
                            yield f, "data"
        elif callof(x, "resolveObject") and x[1].startswith(VEC):
            yield x[3][0], "object"


def vec(c, F):
    ic = inline_class(VEC + "::")
    for j in fns(F, VEC):
        nm = last(j["q"])
        if nm in ("(ctor)", "init") or nm.startswith("~"):
            continue
        g = build(F, j, lambda c2, t: helper_of(j, c2) or ic(c2, t) and last(c2["q"]) not in NOINL, access=lambda q: True)
        if not any(True for n in evs(g) for x in accesses(n.ev)) and not has_call(g, "resize") or nm == "resize":
            continue
        al = Alias(g)
        N = Names(al)
        cnt = counting(g)
        params = {p[0] for p in j["params"]}
        types = {p[0]: p[1] for p in j["params"]}
        ltypes = {d[1]: d[2] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:]}

        def classify(e):
            e = strip_cast(e)
            r = relation(e)
            if r:
                op, tr, a, b = r
                for x, y, flip in ((a, b, 0), (b, a, 1)):
                    v = N(x)
                    y = strip_cast(y)
                    if v is not None and vecsize(y):
                        k = {("<", 0): ("lt", True), ("<=", 0): ("le", True), ("<", 1): ("le", False), ("<=", 1): ("lt", False)}.get((op, flip), ("eq", True))
                        return (k[0] + "@" + v, k[1] == tr)
                    if v is not None and y[0] == "bin" and y[1] == "-" and vecsize(y[2]) and strip_cast(y[3]) == ("lit", 1) and op == "==":
                        return ("last@" + v, tr)
                    if y[0] == "lit" and y[1] in (0, -1, 1):
                        # x < 0, 0 <= x, x > -1, x == 0 ...
                        if v is not None and op == "==" and y[1] == 0:
                            return ("zero@" + v, tr)
                        k = {("<", 0, 0): False, ("<=", 0, -1): False, ("<=", 1, 0): True, ("<", 1, -1): True}.get((op, flip, y[1]))
                        if k is not None:
                            return (("nn@" + v) if v is not None else "nn:" + pp(x), k == tr)
                        if mem(x, "size") or x[0] == "m" and last(x[2]) == "size":
                            k = {("<=", 0, 1): False, ("<", 1, 1): True}.get((op, flip, y[1]))
                            if k is not None:
                                return ("many", k == tr)
                        if vecsize(x) and op == "==" and y[1] == 1:
                            return ("one", tr)
            q = eqcmp(e)
            if q:
                ns = [names(al, x) for x in q[1]]
                if any("mytype" in m for m in ns) and len(vars_of(e)) >= 1:
                    return ("same", q[0])
            if callof(e, "isConvertible"):
                return ("conv", True)
            if callof(e, "valid") and (e[2] is None or strip_cast(e[2]) == ("this",)):
                return ("valid", True)
            if any(x[0] == "m" and last(x[2]) == "mytype" for x in walk(e)) and not q and not r:
                return ("valid", True)
            if writing(e):
                return ("wr", True) if any(x[0] == "lit" and isinstance(x[1], int) and x[1] & VALS["ASSIGN"] for x in walk(e)) or has_arg(e, "ASSIGN") else ("w2", True)
            if e[0] == "v":
                v = N(e)
                if v == "nonconst" or types.get(v) == "bool":
                    return ("p:" + v, True)
                if types.get(v) == "int" or ltypes.get(v, "").replace("const", "").strip() in ("int", "uint", "unsigned int", "long", "size_t", "unsigned long"):
                    return ("zero@" + v, False)
            vs = {N(x) for x in walk(e) if x[0] == "v"} - {None}
            if len(vs) == 1 and any("TypeId" in str(types.get(v)) or "AtomicID" in str(d) for v in vs for d in [next((str(x[2]) for n in evs(g) if n.ev[0] == "decls" for x in n.ev[1:] if x[1] == v), "")]) and not q and not r:
                return ("typed", True)
            return None
        T = Table(g, through(classify, al, vecsize), al=al)
        bad = {}
        made = 0

        def inside(d, v):
            z = d.get("zero@" + v)
            nn = v in cnt or d.get("nn@" + v) or z or d.get("eq@" + v) or d.get("last@" + v)
            lt = d.get("lt@" + v) or d.get("last@" + v) or (d.get("le@" + v) or z) and d.get("eq@" + v) is False
            return bool(nn and lt)

        def event(ex, d, n):
            t = n.ev
            mw, dw, ext = ex
            if n.kind != "ev":
                return ex
            up = drop(d, t)
            if t[0] in ("decls", "asg"):
                for v, e in ([(x[1], x[3]) for x in t[1:]] if t[0] == "decls" else [(strip_cast(t[2])[1], t[3])] if t[1] == "=" and strip_cast(t[2])[0] == "v" else []):
                    if e is None:
                        continue
                    e = strip_cast(e)
                    if e == ("lit", 0):
                        up["zero@" + v] = True
                    elif N(e) is not None and N(e) != v:
                        up.update({k.split("@")[0] + "@" + v: d[k] for k in d if k.endswith("@" + N(e))})
                    elif d.get("nn:" + pp(e)) is not None:
                        up["nn@" + v] = d["nn:" + pp(e)]
                    elif callof(e, "size") or vecsize(e):
                        pass
            for ix, what in accesses(t):
                c.site("vec", f"{n.file}:{n.line}", f"{what}[{pp(ix)}] in {nm}")
                ix = strip_cast(ix)
                v = N(ix)
                if nm == "resolveObject" and v in params:
                    continue
                if ix == ("lit", 0) and d.get("one"):
                    continue
                dd = dict(d)
                if v is None or not inside(dd, v):
                    bad.setdefault("bounds " + what, ("vec", n.line, f"{pp(ix)} is not known to be an index of an existing element"))
            if callof(t, "resize") and t[1].startswith(VEC):
                a = strip_cast(t[3][0])
                if a[0] == "bin" and a[1] == "+" and strip_cast(a[3]) == ("lit", 1):
                    b = strip_cast(a[2])
                    for k in [k for k in d if "@" in k]:
                        v = k.split("@")[1]
                        if vecsize(b) and (d.get("eq@" + v) or inside(d, v) or d.get("le@" + v)) or N(b) == v:
                            up["lt@" + v] = True
                            if N(b) == v and not d.get("eq@" + v) and not (d.get("le@" + v)):
                                bad.setdefault("extend", ("vec", n.line, "the vector is extended to an index beyond its end"))
                            if d.get("eq@" + v):
                                up["nn@" + v] = True
                            up["eq@" + v] = False
                    if nm == "insert":
                        if not (d.get("same") or d.get("conv") or d.get("typed") is False):
                            bad.setdefault("insert type", ("vectype", n.line, "an element of any type is added to a vector of a fixed type"))
                elif N(a) is not None and nm == "remove":
                    if not d.get("last@" + N(a)):
                        bad.setdefault("remove", ("vectype", n.line, "removing an element drops others along with it"))
            elif callof(t, "init") and t[1].startswith(VEC):
                for k in [k for k in d if k.startswith("zero@") and d[k]]:
                    up["lt@" + k[5:]] = True
                    up["eq@" + k[5:]] = False
                    up["nn@" + k[5:]] = True
                up["same"] = True
            elif callof(t, "makeWritable"):
                mw = 1
            elif callof(t, "dewr"):
                dw = 1
            if nm == "get" and t[0] == "asg" and mem(t[2], "ptr"):
                if d.get("wr") is not False and not (mw and d.get("wr") is None and False) and not (d.get("wr") and mw):
                    bad.setdefault("private", ("vectype", n.line, "write access is given to data that may be shared"))
                if d.get("wr") is not False and d.get("p:nonconst") is not True:
                    bad.setdefault("const", ("vectype", n.line, "write access is given through a read-only path"))
                if any(mem(x, "elems_") for x in walk(t[3])):
                    if d.get("w2") is not False and not dw and d.get("wr") is not False:
                        bad.setdefault("cow", ("vectype", n.line, "an object is given out for writing while it may be shared"))
                    if d.get("many") is not False:
                        bad.setdefault("vector mode", ("vectype", n.line, "separate objects are given out as one contiguous block"))
            if nm == "put" and callof(t, "xfer", "copy") and any(N(x) in params for x in t[3]):
                if not (d.get("same") or d.get("valid") is False):
                    bad.setdefault("put type", ("vectype", n.line, "an object of another type is put into the vector"))
                if not mw:
                    bad.setdefault("put private", ("vectype", n.line, "the vector is changed without making its data private"))
            if nm == "remove" and callof(t, "resize") and not mw:
                bad.setdefault("remove private", ("vectype", n.line, "the vector is changed without making its data private"))
            if nm == "insert" and t[0] == "asg" and mem(t[2], "ptr"):
                c.site("vectype", f"{n.file}:{n.line}", nm)
                if not mw:
                    bad.setdefault("insert private", ("vectype", n.line, "the vector is changed without making its data private"))
            return Upd((mw, dw, ext), up) if up else (mw, dw, ext)
        T.run(event, (0, 0, 0))
        c.site("vectype", f"{j['f']}:{j['l']}", nm)
        for k, (rid, line, msg) in bad.items():
            c.bad(rid, j["q"], k, j["f"], line, msg)
    c.expect("vec", 12)
    c.expect("vectype", 5)


# ---------------------------------------------------------------- numeric arrays

def elem_of(t):
    """(vector, index) of X[i]"""
    t = strip_cast(t)
    if callof(t, "operator[]") and t[2] is not None:
        return strip_cast(t[2]), strip_cast(t[3][0])
    if t[0] == "idx":
        return strip_cast(t[1]), strip_cast(t[2])
    return None


def array(c, F):
    for j in fns(F, NUM):
        nm = last(j["q"])
        if not j["f"].endswith((".cc", ".h")) or nm in ("(ctor)",):
            continue
        g = build(F, j, lambda c2, t: helper_of(j, c2) or c2["q"].startswith(NUM + "::") and last(c2["q"]) not in ("parseHIID", "makeWritable", "makeSubArray", "init", "clear", "makeArray", "(ctor)", "get", "validateContent", "sdebug", "debug"), access=lambda q: True)
        ids = {p[0] for p in j["params"] if "HIID" in p[1]}
        if nm != "parseHIID" and not ids and not any(n.ev[0] == "ret" and n.ev[1] is not None and any(x[0] == "m" and last(x[2]) in ("itsArray", "itsArrayData") for x in walk(n.ev)) for n in evs(g)):
            continue
        al = Alias(g)
        N = Names(al)
        bad = {}

        def shape(t):
            e = elem_of(t)
            return e is not None and mem(e[0], "itsShape")

        def ndim(t):
            m = names(al, t)
            return "itsShape" in m and "operator[]" not in m or t[0] == "call" and last(t[1]) in ("size", "nelements", "rank")

        def classify(e):
            e = strip_cast(e)
            r = relation(e)
            if r:
                op, tr, a, b = r
                for x, y, flip in ((a, b, 0), (b, a, 1)):
                    ex_, ey = elem_of(x), elem_of(y)
                    if ey and mem(ey[0], "itsShape") and ex_ and ex_[0][0] == "v" and pp(ex_[1]) == pp(ey[1]):
                        k = {("<", 0): ("<", True), ("<=", 0): ("<=", True), ("<", 1): ("<=", False), ("<=", 1): ("<", False)}.get((op, flip))
                        if k:
                            return (f"{'lt' if k[0] == '<' else 'le'}:{ex_[0][1]}@{N(ex_[1]) or '?'}", k[1] == tr)
                    if ex_ and ex_[0][0] == "v" and y[0] == "lit" and y[1] in (0, -1, 1):
                        k = {("<", 0, 0): ("nn", False), ("<=", 0, -1): ("nn", False), ("<=", 1, 0): ("nn", True), ("<", 1, -1): ("nn", True), ("<", 1, 0): ("pos", True), ("<=", 0, 0): ("pos", False), ("<", 0, 1): ("pos", False), ("<=", 1, 1): ("pos", True)}.get((op, flip, y[1]))
                        if k:
                            return (f"{k[0]}:{ex_[0][1]}@{N(ex_[1]) or '?'}", k[1] == tr)
                    if ex_ and ey and ex_[0][0] == ey[0][0] == "v" and pp(ex_[1]) == pp(ey[1]) and not flip and op in ("<", "<="):
                        # x < y ; !(x <= y) is y < x
                        p, q2 = (ex_[0][1], ey[0][1]) if op == "<" else (ey[0][1], ex_[0][1])
                        return (f"ord:{p}:{q2}@{N(ex_[1]) or '?'}", (op == "<") == tr)
                    v = N(x)
                    if v is not None and op in ("<", "<=") and ndim(y):
                        k = {("<", 0): ("dim", True), ("<=", 1): ("dim", False)}.get((op, flip))
                        if k:
                            return (f"dim@{v}", k[1] == tr)
                    if ndim(x) and y[0] == "lit" and y[1] == 0:
                        k = {("<", 1): ("some", True), ("<=", 0): ("some", False), ("==", 0): ("some", False), ("==", 1): ("some", False)}.get((op, flip))
                        if k:
                            return (k[0], k[1] == tr)
                    if op == "==" and y == ("lit", 0) and v is not None and "length" in names(al, x):
                        return ("null", tr)
                if op == "==" and any("length" in names(al, x) for x in (a, b)) and any(ndim(x) for x in (a, b)):
                    return ("full", tr)
                if op == "==" and any(ndim(x) for x in (a, b)):
                    return ("rank", tr)
            q = eqcmp(e)
            if q:
                ns = [names(al, x) for x in q[1]]
                if any("itsScaType" in m for m in ns):
                    return ("tid", q[0])
                if any("itsType" in m for m in ns):
                    return ("type", q[0])
                if any("itsShape" in m for m in ns):
                    return ("rank", q[0])
            if writing(e):
                return ("wr", True)
            if e[0] == "v" and N(e) == "nonconst":
                return ("nonconst", True)
            if callof(e, "valid") or mem(e, "itsArrayValid"):
                return ("valid", True)
            if callof(e, "empty") and e[2] is not None and mem(e[2], "itsShape"):
                return ("some", False)
            return None
        T = Table(g, through(classify, al, shape), al=al)
        # loops over the axes: variables that index a checked vector
        checked = {}
        for n in g.nodes:
            if n.kind == "branch" and n.ev is not None:
                for e in walk(n.ev):
                    r = T.leaf(e) if e[0] in ("bin", "call") else None
                    if r and r[0].startswith(("lt:", "nn:")):
                        k, v = r[0].split("@")
                        checked.setdefault(v, set()).add(k)

        def fromid(e):
            return any(x[0] == "v" and x[1] in ids for x in walk(e))
        slots = set()

        def event(ex, d, n):
            t = n.ev
            mw, st = ex[0], dict(ex[1])
            if n.kind != "ev":
                return ex
            up = drop(d, t)
            for v in setvars(t):
                if v in checked and advanced(t) != v:
                    for k in checked[v]:
                        x = next((strip_cast(y[3]) for y in t[1:] if y[1] == v and y[3] is not None), None) if t[0] == "decls" else strip_cast(t[3]) if t[0] == "asg" else None
                        st["all:" + k] = 1 if x == ("lit", 0) or x is not None and x[0] == "bin" and x[1] == "-" and strip_cast(x[3]) == ("lit", 1) and "itsShape" in names(al, x[2]) else 2
            # a new value for one axis
            if t[0] == "asg" and t[1] == "=" and elem_of(t[2]) and elem_of(t[2])[0][0] == "v":
                w, i = elem_of(t[2])
                w, iv, val = w[1], N(i) or "?", strip_cast(t[3])
                for k in d:
                    if k.endswith("@" + iv) and w in k.split("@")[0].split(":")[1:]:
                        up[k] = None
                if nm == "parseHIID" and fromid(val):
                    c.site("array", f"{n.file}:{n.line}", f"{w} in {nm}")
                    nn = [k for k in d if k.startswith("idnn") and d[k]]
                    slots.add(w)
                    pos = [p[0] for p in j["params"]]
                    role = pos.index(w) if w in pos else -1
                    if role == 1:
                        st["pend:" + w] = ("lt:" + w, iv, pp(val))
                        st["last"] = pp(val)
                    elif role == 2:
                        if val[0] == "bin" and val[1] == "+" and strip_cast(val[3]) == ("lit", 1) and pp(strip_cast(val[2])) == st.get("last"):
                            pass
                        else:
                            st["pend:" + w] = ("le:" + w, iv, pp(val))
                            st["pend2:" + w] = ("ord:%s:%s" % (pos[1], w), iv, pp(val))
                    elif role == 3:
                        st["pend:" + w] = ("pos:" + w, iv, pp(val))
            for k in [k for k in st if k.startswith("pend")]:
                x = st[k]
                if d.get(x[0] + "@" + x[1]) is True:
                    del st[k]
            moved = {v for v in setvars(t) if advanced(t) == v}
            if nm == "parseHIID" and (moved or t[0] == "ret"):
                for k in [k for k in st if k.startswith("pend")]:
                    if t[0] == "ret" or any(v not in [st[k][1]] for v in moved):
                        bad.setdefault("range " + st[k][0].split(":")[0], ("array", n.line, "a position taken from an index is used without checking it against the axis"))
                        del st[k]
                if t[0] != "ret":
                    st.pop("last", None)
            # axis numbers that are counted by hand
            if nm == "parseHIID":
                for x in walk(t):
                    e = elem_of(x)
                    if e and e[0][0] == "v" and N(e[1]) is not None and N(e[1]) in hand(g) and not (d.get("dim@" + N(e[1])) is True or d.get("some") is True and not st.get("moved")):
                        bad.setdefault("axis", ("array", n.line, "an axis is used that the array need not have"))
                if moved & hand(g):
                    st["moved"] = 1
            if callof(t, "makeWritable"):
                mw = 1
            if t[0] == "asg" and mem(t[2], "ptr"):
                c.site("array", f"{n.file}:{n.line}", pp(t[3])[:60])
                if d.get("wr") is not False and not (d.get("wr") and mw):
                    bad.setdefault("private", ("arraytype", n.line, "write access is given to data that may be shared"))
                if d.get("wr") is not False and d.get("nonconst") is not True:
                    bad.setdefault("const", ("arraytype", n.line, "write access is given through a read-only path"))
                offs = {x[1] for x in walk(t[3]) if x[0] == "v"}
                if offs:
                    # how the offset was computed
                    vs = {elem_of(x)[0][1] for m in evs(g) if m.ev[0] == "asg" and strip_cast(m.ev[2])[0] == "v" and strip_cast(m.ev[2])[1] in offs for x in walk(m.ev[3]) if elem_of(x) and elem_of(x)[0][0] == "v"}
                    parsed = {x[1] for m in evs(g) if callof(m.ev, "parseHIID") for a in m.ev[3] for x in walk(a) if x[0] == "v"}
                    for w in vs - parsed:
                        for k in ("lt:", "nn:"):
                            if st.get("all:" + k + w) != 1:
                                bad.setdefault("element " + k, ("array", n.line, "an element is addressed by a position that was not checked on every axis"))
                else:
                    if any(x[0] == "m" and last(x[2]) == "itsArrayData" for x in walk(t[3])):
                        if d.get("tid") is not True:
                            bad.setdefault("scalar", ("arraytype", n.line, "the array's data is handed out as elements without being asked for as such"))
            if t[0] == "ret" and t[1] is not None and nm.startswith("get") and nm.endswith("ArrayPtr") and any(x[0] == "m" and last(x[2]) == "itsArray" for x in walk(t[1])):
                c.site("arraytype", f"{n.file}:{n.line}", nm)
                if not (d.get("type") is True or d.get("tid") is True and d.get("rank") is True):
                    bad.setdefault("as", ("arraytype", n.line, "the array is handed out as an array of another type or rank"))
            return Upd((mw, tuple(sorted(st.items()))), up) if up else (mw, tuple(sorted(st.items())))

        def at_pass(ex, d, n, v):
            st = dict(ex[1])
            for k in checked.get(v, ()):
                if d.get(k + "@" + v) is not True:
                    st["all:" + k] = 2
            return (ex[0], tuple(sorted(st.items())))
        T.run(event, (0, ()), at_pass=at_pass)
        for k, (rid, line, msg) in bad.items():
            c.bad(rid, j["q"], k, j["f"], line, msg)
    c.expect("array", 8)
    c.expect("arraytype", 2)


def hand(g):
    """variables counted in the body of a loop that another variable drives"""
    h = getattr(g, "_hand", None)
    if h is None:
        cond = {N2 for n in g.nodes if n.kind == "branch" and n.ev is not None for x in walk(n.ev) if x[0] == "bin" and x[1] in ("<", "<=", "!=", ">=") for N2 in [strip_cast(x[2])[1] if strip_cast(x[2])[0] == "v" else None]}
        idx = {strip_cast(elem_of(x)[1])[1] for n in evs(g) for x in walk(n.ev) if elem_of(x) and strip_cast(elem_of(x)[1])[0] == "v" and n.ev[0] == "asg" and elem_of(n.ev[2]) and elem_of(x) == elem_of(n.ev[2])}
        adv = {advanced(n.ev) for n in evs(g)} - {None}
        h = g._hand = idx & adv
    return h


# ---------------------------------------------------------------- records

def fieldsref(t):
    return t is not None and mem(t, "fields")


def record(c, F):
    ic = inline_class(REC + "::")
    for j in fns(F, REC):
        nm = last(j["q"])
        if j["q"].count("::") != 2 or nm in ("(ctor)", "findField", "hasField", "cloneOther", "fromBlock", "toBlock", "sdebug", "validateContent"):
            continue
        g = build(F, j, lambda c2, t: helper_of(j, c2) or ic(c2, t) and last(c2["q"]) not in ("(ctor)", "addField", "insert", "validateContent", "sdebug", "debug", "operator=", "makeObject", "attach", "ref", "get"), access=lambda q: True)
        if not any(x[0] == "m" and last(x[2]) == "fields" for n in evs(g) for x in walk(n.ev)) and not has_call(g, "findField"):
            continue
        al = Alias(g)
        N = Names(al)
        ids = {p[0] for p in j["params"] if "HIID" in p[1]}
        bools = {p[0] for p in j["params"] if p[1] == "bool"}
        ptrs = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if "Field" in d[2] and "*" in d[2]}
        ptrs |= {N(("v", x)) for x in ptrs}
        iters = {d[1]: d for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if "iterator" in d[2].lower() or d[2].split("::")[-1] in ("CFMI", "FMI")}

        def classify(e):
            e = strip_cast(e)
            q = eqcmp(e)
            if q and any(callof(y, "end") and fieldsref(y[2]) for x in q[1] for y in walk(x)):
                v = next((N(x) for x in q[1] if N(x) is not None), None)
                if v is None:
                    return ("found", not q[0])
                return ("found@" + v, not q[0])
            r = relation(e)
            if callof(e, "size", "length") and e[2] is not None and N(e[2]) in ids:
                return ("id", True)
            if callof(e, "empty") and e[2] is not None and N(e[2]) in ids:
                return ("id", False)
            if r and r[0] == "==" and r[3] == ("lit", 0) and callof(r[2], "size", "length") and N(r[2][2]) in ids:
                return ("id", not r[1])
            if r and any(callof(x, "size") and fieldsref(x[2]) for x in r[2:]):
                for x, y, flip in ((r[2], r[3], 0), (r[3], r[2], 1)):
                    if N(x) is not None and callof(y, "size"):
                        return {("<", 0): ("lt@" + N(x), r[1]), ("<=", 0): ("le@" + N(x), r[1]), ("<", 1): ("le@" + N(x), not r[1]), ("<=", 1): ("lt@" + N(x), not r[1])}.get((r[0], flip), ("eq@" + N(x), r[1]))
            if q and any(N(x) in ptrs for x in q[1]) and any(x in (("lit", 0), ("null",)) for x in q[1]):
                return ("found", not q[0])
            if e[0] == "v" and N(e) in ptrs:
                return ("found", True)
            if mem(e, "protected_") or callof(e, "isProtected") or e[0] == "m" and last(e[2]) == "protected_":
                return ("prot", True)
            if flagbit(e, "HONOR_PROTECT"):
                return ("honor", True)
            if flagbit(e, "REPLACE"):
                return ("repl", True)
            if writing(e):
                return ("wr", True)
            if e[0] == "m" and last(e[2]) == "second" and strip_cast(e[1])[0] == "v":
                return ("new", True)
            if e[0] == "v" and N(e) in bools:
                return ("p:" + N(e), True)
            return None
        T = Table(g, through(classify, al, lambda x: callof(x, "size", "end") and fieldsref(x[2])), al=al)
        bad = {}
        fields_of = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[2].replace("const", "").split("::")[-1].strip(" &") == "Field" and "&" in d[2]}

        def isfield(t):
            """a field of this record, reached through the map"""
            if t is None:
                return False
            return "Field" in str(t[-3:]) or any(x[0] == "m" and last(x[2]) == "second" for x in walk(t)) or any(x[0] == "v" and (x[1] in fields_of or x[1] in ptrs) for x in walk(t)) or any(callof(x, "operator[]") and fieldsref(x[2]) for x in walk(t))

        def event(ex, d, n):
            t = n.ev
            un, dw, byname = set(ex[0]), ex[1], ex[2]
            if n.kind != "ev":
                return ex
            if any(callof(x, "find") and fieldsref(x[2]) for x in walk(t)):
                byname = 1
            up = drop(d, t)
            if t[0] == "decls":
                for x in t[1:]:
                    if x[1] in iters and (x[3] is None or x[3][0] == "ctor" and not x[3][2]):
                        un.add(x[1])
                    elif x[1] in iters and x[3] is not None:
                        un.discard(x[1])
                        up.update(start(x[3], x[1]))
            if callof(t, "operator=") and t[2] is not None and strip_cast(t[2])[0] == "v" and strip_cast(t[2])[1] in iters:
                v = strip_cast(t[2])[1]
                un.discard(v)
                up.update({k: None for k in d if k.endswith("@" + v)})
                up.update(start(t[3][0], v))
            elif t[0] == "asg" and strip_cast(t[2])[0] == "v" and strip_cast(t[2])[1] in iters:
                un.discard(strip_cast(t[2])[1])
                up.update(start(t[3], strip_cast(t[2])[1]))
            elif t[0] != "decls" and any(x[0] == "v" and x[1] in un for x in walk(t)):
                bad.setdefault("uninitialised", ("record", n.line, "a position is used that was never set"))
            # looking up
            lookup = callof(t, "find", "insert", "operator[]", "erase") and fieldsref(t[2]) or callof(t, "findField")
            if lookup and ids and any(x[0] == "v" and N(x) in ids for a in t[3] for x in walk(a)):
                c.site("record", f"{n.file}:{n.line}", f"{last(t[1])} in {nm}")
                if d.get("id") is not True:
                    bad.setdefault("null", ("record", n.line, "a field is looked up under a name that may be empty"))
            # using what a position points at
            for x in walk(t):
                if callof(x, "operator->", "operator*") and x[2] is not None and N(x[2]) in iters and "this" not in str(iters[N(x[2])][3])[:0]:
                    v = N(x[2])
                    if d.get("found@" + v) is not True:
                        bad.setdefault("deref", ("record", n.line, "a field is used that may not have been found"))
                if x[0] == "v" and x[1] in ptrs and t[0] == "call" and t[2] is not None and N(t[2]) == N(x) and d.get("found") is not True or x[0] == "m" and x[1] is not None and strip_cast(x[1]) != ("this",) and N(x[1]) in ptrs and d.get("found") is not True:
                    bad.setdefault("deref", ("record", n.line, "a field is used that may not have been found"))
            # changes
            fnd = [d[k] for k in d if k.startswith("found")]
            unprot = d.get("prot") is False or d.get("honor") is False
            fresh = d.get("new") is True or bool(fnd) and fnd[0] is False
            if t[0] == "enter" and nm.startswith("remove") and last(t[1]) in ("xfer", "clear", "attach") and t[1].startswith(REC + "::Field::") and not unprot:
                bad.setdefault("remove", ("record", n.line, "a field is emptied before it was found not to be protected"))
            if callof(t, "attach", "operator=") and t[2] is not None and isfield(t[2]) and "Field" in t[1]:
                c.site("record", f"{n.file}:{n.line}", f"{last(t[1])} in {nm}")
                ok = fresh or unprot and (d.get("repl") is True or any(d[k] for k in d if k.startswith("p:")))
                if not ok:
                    bad.setdefault("replace", ("record", n.line, "an existing field is replaced although it may be protected or replacing was not asked for"))
            elif callof(t, "erase") and fieldsref(t[2]) or callof(t, "xfer") and t[2] is not None and isfield(t[2]) and nm.startswith("remove"):
                c.site("record", f"{n.file}:{n.line}", f"{last(t[1])} in {nm}")
                if not unprot or nm == "remove" and d.get("prot") is not False:
                    bad.setdefault("remove", ("record", n.line, "a field is removed although it may be protected"))
                if not (fnd and fnd[0]):
                    bad.setdefault("missing", ("record", n.line, "a field is removed that may not have been found"))
            elif callof(t, "dewr"):
                dw = 1
                if d.get("prot") is not False:
                    bad.setdefault("write", ("record", n.line, "write access is given to a field that may be protected"))
            elif t[0] == "asg" and mem(t[2], "ptr") and nm == "get":
                c.site("record", f"{n.file}:{n.line}", "target of " + nm)
                if d.get("wr") is not False:
                    if d.get("prot") is not False:
                        bad.setdefault("write", ("record", n.line, "write access is given to a field that may be protected"))
                    if not dw:
                        bad.setdefault("cow", ("record", n.line, "a field is given out for writing while it may be shared"))
                    if d.get("p:nonconst") is not True:
                        bad.setdefault("const", ("record", n.line, "write access is given through a read-only path"))
            elif nm == "insert" and (callof(t, "operator[]") and fieldsref(t[2]) or callof(t, "insert")) and not (fnd and fnd[0] is False):
                bad.setdefault("exists", ("record", n.line, "a new field takes the place of an existing one"))
            elif nm == "get" and t[0] == "ret" and t[1] == ("lit", 0) and not byname and not any(d[k] for k in d if k[:3] in ("lt@", "le@", "eq@")):
                bad.setdefault("refuse", ("record", n.line, "a field number beyond the end is reported as absent instead of being refused"))
            return Upd((tuple(sorted(un)), dw, byname), up) if up else (tuple(sorted(un)), dw, byname)

        def start(e, v):
            return {}
        T.run(event, ((), 0, 0))
        for k, (rid, line, msg) in bad.items():
            c.bad(rid, j["q"], k, j["f"], line, msg)
    c.expect("record", 12)


# ---------------------------------------------------------------- lists

def lists(c, F):
    for j in fns(F, LST):
        nm = last(j["q"])
        if nm in ("(ctor)", "sdebug"):
            continue
        g = build(F, j, lambda c2, t: helper_of(j, c2), access=lambda q: True)
        al = Alias(g)
        N = Names(al)
        ret = j.get("ret") or ""
        fwd = {d[1]: d[2] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if "terator" in d[2] or d[3] is not None and (callof(strip_cast(d[3]), "begin", "rbegin", "applyIndex"))}
        rev = {v for v, ty in fwd.items() if "reverse" in ty or any(d[1] == v and d[3] is not None and callof(strip_cast(d[3]), "rbegin") for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:])}
        ints = {p[0] for p in j["params"] if p[1] in ("int",)}
        helper = any(n.ev[0] == "ret" and n.ev[1] is not None and (any(x[0] == "v" and x[1] in fwd for x in walk(n.ev[1])) or any(callof(x, "base", "begin", "end") for x in walk(n.ev[1]))) for n in evs(g)) and j["params"] and ints
        user = any(callof(n.ev, "applyIndex", "applyIndexConst") for n in evs(g))
        if not (helper or user):
            continue
        bools = {p[0] for p in j["params"] if p[1] == "bool"}

        def classify(e):
            e = strip_cast(e)
            q = eqcmp(e)
            if q and any(callof(x, "end", "rend") for x in q[1]):
                v = next((N(x) for x in q[1] if N(x) in fwd), None)
                if v:
                    return ("in@" + v, not q[0])
            if e[0] == "v" and N(e) in ints:
                return ("left", True)
            if e[0] == "v" and N(e) in bools:
                return ("p:" + N(e), True)
            r = relation(e)
            if r and N(r[2]) in ints and r[3] == ("lit", 0):
                if r[0] == "<":
                    return ("neg", r[1])
                if r[0] == "<=":
                    return ("pos", not r[1])
                return ("left", not r[1])
            if flagbit(e, "REPLACE"):
                return ("repl", True)
            if writing(e):
                return ("wr", True)
            if r and r[0] == "==" and any(mem(x, "items") or callof(x, "numItems", "size") for x in r[2:]):
                return ("atend", r[1])
            return None
        T = Table(g, through(classify, al, lambda x: callof(x, "numItems", "size", "end", "rend")), al=al)
        bad = {}
        got = {}

        def event(ex, d, n):
            t = n.ev
            mv = dict(ex)
            if n.kind != "ev":
                return ex
            up = drop(d, t)
            v = advanced(t)
            if v in fwd:
                mv[v] = 1
            if v in ints or t[0] == "un" and t[1] in ("--", "p--") and N(t[2]) in ints:
                up.update({"left": None, "neg": None, "pos": None})
                if v in ints:
                    # counting a negative number up: it stays negative or becomes zero
                    if d.get("neg"):
                        up["pos"] = False
                elif d.get("pos"):
                    up["neg"] = False
            if t[0] == "decls":
                for x in t[1:]:
                    if x[1] in fwd and x[3] is not None:
                        e = strip_cast(x[3])
                        mv[x[1]] = 0
                        if callof(e, "applyIndex"):
                            mv["ins:" + x[1]] = T.ev(tuple(sorted(d.items())), e[3][1])
                            if mv["ins:" + x[1]] is None:
                                mv["ins:" + x[1]] = ("later", e[3][1])
            if callof(t, "dewr"):
                mv["dewr"] = 1
            if nm == "get" and t[0] == "asg" and mem(t[2], "ptr") and d.get("wr") is not False:
                if not mv.get("dewr"):
                    bad.setdefault("cow", (n.line, "an item is given out for writing while it may be shared"))
                if d.get("p:nonconst") is not True:
                    bad.setdefault("const", (n.line, "write access is given through a read-only path"))
            if nm == "get" and t[0] == "ret" and t[1] == ("lit", 0) and d.get("atend") is not True:
                bad.setdefault("refuse", (n.line, "an index beyond the end is reported as absent instead of being refused"))
            if helper and t[0] == "ret" and t[1] is not None:
                c.site("list", f"{n.file}:{n.line}", "position returned by " + nm)
                inserting = any(d[k] for k in d if k.startswith("p:"))
                vs = [x[1] for x in walk(t[1]) if x[0] == "v" and x[1] in fwd]
                if vs and not (d.get("left") is False and (d.get("neg") or d.get("pos"))):
                    v = vs[0]
                    zero = d.get("left") is False or d.get("neg") is False and d.get("pos") is False
                    if not zero:
                        bad.setdefault("steps", (n.line, "a position is returned before all steps towards it were made"))
                    if not inserting:
                        if v in rev and not mv.get(v):
                            bad.setdefault("before", (n.line, "the position returned for the last item is the one behind it"))
                        if v not in rev and d.get("in@" + v) is not True:
                            bad.setdefault("beyond", (n.line, "a position is returned that may be the end of the list"))
            if user:
                for x in walk(t):
                    if callof(x, "operator->", "operator*") and x[2] is not None and N(x[2]) in fwd or callof(x, "erase") and mem(x[2], "items"):
                        vv = N(x[2]) if last(x[1]) != "erase" else next((N(y) for a in x[3] for y in walk(a) if y[0] == "v" and N(y) in fwd), None)
                        if vv is None or "ins:" + vv not in mv:
                            continue
                        c.site("list", f"{n.file}:{n.line}", f"item used in {nm}")
                        ins = mv["ins:" + vv]
                        if isinstance(ins, tuple):
                            ins = T.ev(tuple(sorted(d.items())), ins[1])
                        if ins is not False:
                            bad.setdefault("insertpos", (n.line, "an item is used at a position meant for inserting, which may be the end of the list"))
                if callof(t, "insert") and mem(t[2], "items"):
                    for a in t[3]:
                        vv = N(a) if N(a) in fwd else next((y[1] for y in walk(a) if y[0] == "v" and y[1] in fwd), None)
                        if vv:
                            # the iterator now denotes the new item
                            pass
                if callof(t, "operator=") and t[2] is not None and N(t[2]) in fwd or t[0] == "asg" and N(t[2]) in fwd:
                    vv = N(t[2])
                    src = t[3][0] if t[0] == "call" else t[3]
                    if any(callof(x, "insert") for x in walk(src)):
                        mv["ins:" + vv] = False
                    elif callof(strip_cast(src), "applyIndex"):
                        mv["ins:" + vv] = T.ev(tuple(sorted(d.items())), strip_cast(src)[3][1])
            return Upd(tuple(sorted(mv.items(), key=str)), up) if up else tuple(sorted(mv.items(), key=str))
        T.run(event, ())
        for k, (line, msg) in bad.items():
            c.bad("list", j["q"], k, j["f"], line, msg)
    c.expect("list", 6)


# ---------------------------------------------------------------- hooks

def hook(c, F):
    for j in fns(F, HOOK):
        nm = last(j["q"])
        if nm in ("(ctor)", "sdebug"):
            continue
        g = build(F, j, lambda c2, t: helper_of(j, c2), access=lambda q: True)
        if not any(x[0] == "m" and last(x[2]) in ("target", "nc_writable", "nc") for n in g.nodes if n.ev is not None and n.kind in ("ev", "branch") for x in walk(n.ev)) and not has_call(g, "prepare_put"):
            continue
        al = Alias(g)
        N = Names(al)
        bools = {p[0] for p in j["params"] if p[1] == "bool"}

        def tgt(t, m):
            t = strip_cast(t)
            return t[0] == "m" and last(t[2]) == m and mem(t[1], "target")

        def classify(e):
            e = strip_cast(e)
            if callof(e, "operator!") and e[2] is not None:
                r = classify(e[2])
                return (r[0], not r[1]) if r else None
            if mem(e, "nc_writable"):
                return ("ncw", True)
            if mem(e, "ncref0"):
                return ("ncref", True)
            if mem(e, "ncptr0"):
                return ("ncptr", True)
            if mem(e, "replacing"):
                return ("replacing", True)
            if mem(e, "target_nestable"):
                return ("nest", True)
            if writing(e):
                return ("wr", True)
            if flagbit(e, "DEREFERENCE"):
                return ("deref", True)
            if tgt(e, "ptr"):
                return ("tptr", True)
            if callof(e, "empty") and mem(e[2], "chain"):
                return ("chain", False)
            q = eqcmp(e)
            if q:
                xs = q[1]
                if any(x == ("lit", 0) or x[0] == "null" for x in xs):
                    y = next((x for x in xs if x != ("lit", 0) and x[0] != "null"), None)
                    r = classify(y) if y is not None else None
                    return (r[0], r[1] != q[0]) if r else None
                if any(has_arg(x, "TpDMIObjRef") for x in xs):
                    y = next((x for x in xs if not has_arg(x, "TpDMIObjRef")), None)
                    if y is not None and (tgt(y, "tid") or y[0] == "m" and last(y[2]) == "tid" and N(y[1]) is not None):
                        return ("objref" if tgt(y, "tid") else "objref2", q[0])
                    if y is not None and N(y) is not None:
                        return ("askref", q[0])
                if any(tgt(x, "obj_tid") for x in xs):
                    return ("match", q[0])
                if any(tgt(x, "tid") for x in xs):
                    return ("tmatch", q[0])
                if any(tgt(x, "size") for x in xs):
                    return ("szmatch", q[0])
                if any(x[0] == "m" and last(x[2]) == "tid" for x in xs):
                    return ("same", q[0])
                if any(x[0] == "v" and "type" in names(al, x) for x in xs):
                    return ("nctype", q[0])
            r = relation(e)
            if r and any(tgt(x, "size") for x in r[2:]):
                if r[0] == "<=" and r[3] == ("lit", 1):
                    return ("many", not r[1])
                if r[0] == "<" and r[2] == ("lit", 1):
                    return ("many", r[1])
            if callof(e, "isDirectlyWritable"):
                return ("direct", True)
            if callof(e, "valid"):
                return ("valid", True)
            if callof(e, "convert"):
                return ("conv", True)
            if callof(e, "isConvertible"):
                return ("convertible", True)
            if callof(e, "isArray"):
                return ("isarr", True)
            if callof(e, "get") and e[2] is not None and mem(e[2], "nc", "ncptr0"):
                return ("got", True)
            if e[0] == "icall" or e[0] == "call" and N(e[2]) == "can_convert" or any(x[0] == "v" and x[1] == "can_convert" for x in walk(e)):
                return ("can", True)
            if e[0] == "v":
                v = N(e)
                if v in bools:
                    return ("p:" + v, True)
                d = [x for n in evs(g) if n.ev[0] in ("decls", "asg") for x in (n.ev[1:] if n.ev[0] == "decls" else [("d", strip_cast(n.ev[2])[1] if strip_cast(n.ev[2])[0] == "v" else "", "", n.ev[3])]) if x[1] == v]
                m = set().union(*[names(al, x[3]) for x in d if x[3] is not None]) if d else set()
                if m & {"resolveTarget"}:
                    return ("targ", True)
                if "get" in m and v in al.dec:
                    return ("got", True)
                if "dewr_p" in m:
                    return ("nc1", True)
                if "type" in m:
                    return ("hastype", True)
                if "asRef" in m:
                    return ("isref", True)
            if any(tgt(x, "obj_tid") for x in walk(e)) and not q:
                return ("hasobj", True)
            return None
        T = Table(g, through(classify, al, lambda x: False), al=al)
        bad = {}

        def event(ex, d, n):
            t = n.ev
            w, wt = ex
            if n.kind != "ev":
                return ex
            up = {}
            if callof(t, "resolveToWritableContainer", "removeTarget"):
                w = 1
                up["ncw"] = True
                up["tptr"] = None
            elif callof(t, "resolveTarget"):
                up.update({k: None for k in ("targ", "tptr", "objref", "nest", "match", "tmatch", "many", "szmatch", "isarr", "valid", "can", "conv", "hasobj", "convertible")})
                wt = 1 if any(writeflags(al, a) for a in t[3]) else 0
            elif callof(t, "nextContainer"):
                w = wt = 0
                up.update({k: None for k in ("targ", "tptr", "objref", "nest", "match", "tmatch", "many", "ncw")})
            if t[0] == "decls" and any(x[3] is not None and callof(strip_cast(x[3]), "get") for x in t[1:]):
                up.update({"got": None, "objref2": None})
            if callof(t, "insert", "remove") and t[2] is not None and mem(t[2], "nc"):
                c.site("hook", f"{n.file}:{n.line}", f"{last(t[1])} in {nm}")
                if not w:
                    bad.setdefault("writable", ("hook", n.line, "an element is added to or removed from a container that may be read-only"))
                if last(t[1]) == "remove" and nm == "prepare_put" and d.get("replacing") is not True:
                    bad.setdefault("replacing", ("hook", n.line, "an element is removed although replacing was not asked for"))
            elif callof(t, "removeTarget") and nm != "removeTarget" and d.get("replacing") is not True:
                bad.setdefault("replacing", ("hook", n.line, "an element is removed although replacing was not asked for"))
            elif callof(t, "unlock") and nm in ("detach", "remove"):
                c.site("hook", f"{n.file}:{n.line}", f"reference released in {nm}")
                if not w:
                    bad.setdefault("writable", ("hook", n.line, "a reference is taken out of a container that may be read-only"))
            if nm == "resolveTarget":
                if callof(t, "get") and t[2] is not None and mem(t[2], "nc") or t[0] == "ret" and t[1] is not None and any(tgt(x, "ptr") or callof(x, "dewr_p") for x in walk(t[1])):
                    c.site("hook", f"{n.file}:{n.line}", "target resolved")
                    if d.get("wr") is not False and d.get("ncw") is not True:
                        bad.setdefault("target", ("hook", n.line, "an element is resolved for writing in a container that may be read-only"))
                if callof(t, "get") and t[2] is not None and mem(t[2], "nc"):
                    if not any(N(a) == "flags" for a in t[3]):
                        bad.setdefault("flags", ("hook", n.line, "the container is not told what the element is wanted for"))
                    if not any(mem(a, "nc_writable") for a in t[3]):
                        bad.setdefault("flags", ("hook", n.line, "the container is not told whether it may be written"))
                if t[0] == "ret" and t[1] is not None and any(callof(x, "deref_p", "dewr_p") for x in walk(t[1])) and d.get("valid") is not True:
                    bad.setdefault("valid", ("hook", n.line, "an unset reference is followed"))
                if t[0] == "ret" and t[1] is not None and d.get("wr") is not False and any(callof(x, "deref_p") for x in walk(t[1])) and not any(callof(x, "dewr_p") for x in walk(t[1])):
                    bad.setdefault("cow", ("hook", n.line, "an object is resolved for writing while it may be shared"))
                if t[0] == "ret" and t[1] is not None and strip_cast(t[1]) != ("lit", 0) and d.get("got") is False:
                    bad.setdefault("missing", ("hook", n.line, "a missing element is not reported as missing"))
            if t[0] == "asg" and mem(t[2], "nc_writable"):
                v = strip_cast(t[3])
                if v[0] == "lit":
                    up["ncw"] = bool(v[1])
                    if v[1] and nm == "resolveToWritableContainer" and not (d.get("ncref") or d.get("ncptr")):
                        bad.setdefault("readonly", ("hook", n.line, "a read-only container is taken to be writable"))
            if nm == "resolveToWritableContainer" and t[0] == "asg" and mem(t[2], "ncptr0") and not any(callof(x, "dewr_p", "dewr") for x in expand(al, t[3])):
                bad.setdefault("shared", ("hook", n.line, "a container that may be shared is taken to be writable without being made private"))
            if t[0] == "asg" and mem(t[2], "ncptr0") and any(callof(x, "dewr_p") for x in expand(al, t[3])):
                up["ncptr"] = True
            if nm == "nextContainer":
                if callof(t, "deref_p"):
                    c.site("hook", f"{n.file}:{n.line}", "next container")
                    for k, m in (("tptr", "a missing element"), ("objref", "a plain value"), ("nest", "an object that is no container"), ("valid", "an unset reference")):
                        if d.get(k) is not True:
                            bad.setdefault("next " + k, ("hook", n.line, m + " is indexed as if it were a container"))
                if t[0] == "asg" and mem(t[2], "nc") and d.get("ncw") is not False and d.get("direct") is not True:
                    bad.setdefault("inherit", ("hook", n.line, "a container reached through a read-only reference is taken to be writable"))
            if nm == "resolveToWritableContainer" and callof(t, "dewr_p"):
                c.site("hook", f"{n.file}:{n.line}", "chain made private")
                if not (d.get("ncref") is True or d.get("got") is True and d.get("objref2") is True):
                    bad.setdefault("chain", ("hook", n.line, "a link of the chain is followed without knowing what it is"))
            # types
            if t[0] == "ret" and t[1] is not None and nm in ("get_address", "get_address_bo", "get_scalar", "prepare_put", "prepare_assign_array", "prepare_assign_vector"):
                v = strip_cast(t[1])
                if v in (("lit", 0), ("lit", 0, "b")) or v[0] == "null" or callof(v, "removeTarget"):
                    return Upd((w, wt), up) if up else (w, wt)
                c.site("hooktype", f"{n.file}:{n.line}", f"value of {nm}")
                g2 = lambda *ks: all(d.get(k) is True for k in ks)
                if nm == "get_scalar":
                    ok = g2("conv") and d.get("nest") is False
                elif nm == "get_address":
                    ok = (d.get("askref") or d.get("match")) and (d.get("many") is False or d.get("p:pointer")) and d.get("targ")
                elif nm == "get_address_bo":
                    ok = g2("can", "objref", "valid") and (d.get("many") is False or d.get("p:pointer"))
                elif nm == "prepare_put":
                    if v[0] == "v":
                        a = g2("askref", "objref") and (d.get("hastype") is False or d.get("nctype")) and (d.get("hasobj") is False or d.get("match") or d.get("replacing"))
                        ok = a or d.get("askref") is not True and (d.get("match") or d.get("convertible")) or d.get("objref") is False and (d.get("match") or d.get("convertible"))
                    else:
                        ok = d.get("replacing")
                    if not (wt or w):
                        bad.setdefault("put", ("hook", n.line, "an element is handed out for assignment without asking for write access"))
                elif nm == "prepare_assign_array":
                    ok = d.get("tmatch") and (d.get("isarr") or d.get("szmatch"))
                else:
                    ok = g2("tmatch", "szmatch")
                if not ok:
                    bad.setdefault("type", ("hooktype", n.line, "an element is handed out as a type or size that it need not have"))
            if nm == "put_scalar" and callof(t, "memcpy"):
                c.site("hooktype", f"{n.file}:{n.line}", "copy in " + nm)
                if d.get("same") is not True:
                    bad.setdefault("copy", ("hooktype", n.line, "a value is copied into an element of another type"))
            if nm == "put_scalar" and t[0] == "ret" and d.get("same") is not True and d.get("conv") is not True:
                bad.setdefault("converted", ("hooktype", n.line, "a value that cannot be converted counts as stored"))
            return Upd((w, wt), up) if up else (w, wt)
        T.run(event, (0, 0))
        for k, (rid, line, msg) in bad.items():
            c.bad(rid, j["q"], k, j["f"], line, msg)
    c.expect("hook", 10)
    c.expect("hooktype", 8)


def hookstart(c, F):
    """what an access starts with: the container counts as writable only if it was reached through something writable"""
    for j in fns(F, HOOK):
        nm = last(j["q"])
        bools = {p[0] for p in j["params"] if p[1] == "bool"}
        if nm == "initialize":
            g = build(F, j, lambda c2, t: helper_of(j, c2), access=lambda q: True)
            al = Alias(g)
            bad = {}

            def classify(e):
                e = strip_cast(e)
                return ("ncw", True) if mem(e, "nc_writable") or e[0] == "v" and e[1] in bools else None
            T = Table(g, classify, al=al)

            def event(ex, d, n):
                t = n.ev
                if n.kind == "ev" and t[0] == "asg" and mem(t[2], "nc_writable"):
                    v = al(t[3])
                    c.site("hook", f"{n.file}:{n.line}", "start of an access")
                    if not (v[0] == "v" and v[1] in bools or v[0] == "lit" and not v[1]) and d.get("ncw") is not True:
                        bad.setdefault("start", (n.line, "an access starts as writable although the container is read-only"))
                if n.kind == "ev" and t[0] == "asg" and mem(t[2], "ncptr0"):
                    v = strip_cast(t[3])
                    if v[0] == "cond":
                        r = T.ev(tuple(sorted(d.items())), v[1])
                        v = ("lit", 0) if r is None and strip_cast(v[3])[0] == "lit" and "nc_writable" in names(al, v[1]) else strip_cast(v[2] if r is not False else v[3])
                    if v[0] not in ("lit", "null") and d.get("ncw") is not True:
                        bad.setdefault("base", (n.line, "a read-only container becomes the base that is written through"))
                return ex
            T.run(event, 0)
            for k, (line, msg) in bad.items():
                c.bad("hook", j["q"], k, j["f"], line, msg)
        if nm == "(ctor)" and j["params"] and j["q"].count("::") == HOOK.count("::") + 1:
            p0 = j["params"][0]
            for uid, line, tr, t in fn(j).tree():
                for x in walk(t):
                    if callof(x, "initialize") and x[1].startswith(HOOK) and len(x[3]) > 2:
                        a = strip_cast(fn(j).expand(x[3][2]))
                        c.site("hook", f"{j['f']}:{line}", "access to " + p0[1])
                        on = {y[1] for y in walk(a) if y[0] == "v"}
                        ref = "Ref" in p0[1] and not any(d in p0[1] for d in ("HIID",))
                        if a[0] == "lit" and a[1] and (p0[1].startswith("const") or ref):
                            c.bad("hook", j["q"], "start " + p0[1][:40], j["f"], line, "an access starts as writable although the container is read-only")
                        elif a[0] != "lit" and (bools - on or ref and not any(callof(y, "isDirectlyWritable") for y in walk(a))):
                            c.bad("hook", j["q"], "start " + p0[1][:40], j["f"], line, "an access starts as writable although the container need not be")
    for j in fns(F, "DMI::Container"):
        if last(j["q"]) == "operator[]" and j.get("const"):
            for uid, line, tr, t in fn(j).tree():
                for x in walk(t):
                    if x[0] == "ctor" and x[1] == HOOK + "::(ctor)" and len(x[2]) > 2 and strip_cast(x[2][2])[0] == "lit" and strip_cast(x[2][2])[1]:
                        c.bad("hook", j["q"], "const", j["f"], line, "access through a read-only container starts as writable")


def protection(c, F):
    """a field's protection is what was asked for, and goes along with the field"""
    want = {"attach": lambda e: has_arg(e, "PROTECT") or any(x[0] == "lit" and x[1] == 0x10000000 for x in walk(e)),
            "copy": lambda e: any(x[0] == "m" and last(x[2]) == "protected_" and strip_cast(x[1]) != ("this",) for x in walk(e)) or any(callof(x, "isProtected") for x in walk(e)),
            "protect": lambda e: any(x[0] == "v" for x in walk(e))}
    for nm, ok in want.items():
        for j in fns(F, REC + "::Field", nm):
            g = build(F, j, lambda c2, t: helper_of(j, c2) or c2["q"].startswith(REC + "::Field") and last(c2["q"]) != "isProtected", access=lambda q: True)
            if nm == "attach" and not any(n.ev[0] == "asg" and mem(n.ev[2], "protected_") for n in evs(g)) and has_call(g, "attach"):
                continue
            al = Alias(g)
            bad = {}

            def classify(e):
                e = strip_cast(e)
                return ("asked", True) if e[0] in ("bin", "m", "call", "v") and not (e[0] == "bin" and e[1] in ("&&", "||", "==", "!=")) and ok(al.full(e)) else None

            def event(ex, d, n):
                t = n.ev
                if n.kind == "ev" and t[0] == "asg" and mem(t[2], "protected_"):
                    v = al(t[3])
                    ex = 1 if ok(al.full(t[3])) or v[0] == "lit" and d.get("asked") is bool(v[1]) else 0
                return ex

            def at_exit(ex, d, n):
                if not ex:
                    bad.setdefault("prot", (n.line, "a field is not protected as asked for"))
            Table(g, classify, al=al).run(event, 0, at_exit=at_exit)
            c.site("record", f"{j['f']}:{j['l']}", "protection in " + nm)
            for k, (line, msg) in bad.items():
                c.bad("record", j["q"], k, j["f"], line, msg)


def writeflags(al, a):
    for x in expand(al, a):
        if x[0] in ("enum", "g") and last(x[1]) == "WRITE":
            return True
        if x[0] == "lit" and isinstance(x[1], int) and not isinstance(x[1], bool) and x[1] & 2:
            return True
    return False


# ---------------------------------------------------------------- locks

CONTENT = {REC: ("fields",), LST: ("items",), VEC: ("elems_", "spvec", "mysize_", "headref_", "phead_", "mytype"),
           NUM: ("itsShape", "itsData", "itsArrayData", "itsArrayValid", "itsSubArrayMap", "itsArray")}
PLAIN = ("(ctor)", "operator=", "objectType", "type", "size", "clone", "numItems", "hasField", "begin", "end", "rank", "shape", "valid", "mysize", "init", "make_reference",
         "getConstArrayPtr", "getConstDataPtr", "isScalar", "elementType", "elementSize")


def holds_on(t):
    """the other container whose lock is taken"""
    for x in walk(t):
        if callof(x, "mutex") and x[1].startswith("DMI::") and x[2] is not None and strip_cast(x[2])[0] == "v":
            return strip_cast(x[2])[1]
    return None


def holds(t):
    """a lock on this container's own mutex is taken by this initialiser"""
    for x in walk(t):
        if callof(x, "mutex") and x[1].startswith("DMI::") and (x[2] is None or strip_cast(x[2]) in (("this",), ("un", "*", ("this",)))):
            return True
        if x[0] == "m" and last(x[2]) in ("crefmutex", "cref_mutex", "mutex_", "crefmutex_") and strip_cast(x[1]) == ("this",):
            return True
    return False


def locks(c, F):
    for cls, flds in CONTENT.items():
        info = {}
        # inline helpers that use the content and leave the lock to their callers
        bare = set()
        for j in fns(F, cls):
            if j["q"].count("::") == cls.count("::") + 1 and j["f"].endswith(".h") and last(j["q"]) not in PLAIN:
                ts = [t for uid, line, tr, t in fn(j).tree()]
                if any(x[0] == "m" and last(x[2]) in flds and strip_cast(x[1]) == ("this",) for t in ts for x in walk(t)) and not any(t[0] == "decls" and any("Lock" in d[2] for d in t[1:]) for t in ts):
                    bare.add(j["q"])
        for j in fns(F, cls):
            if j["q"].count("::") != cls.count("::") + 1 or not j["f"].endswith(".cc"):
                continue
            g = build(F, j, lambda c2, t: False, access=lambda q: True)
            first = {}
            calls = []
            conts = {p[0] for p in j["params"] if cls in p[1]}
            away = {}

            def step(a, n, facts):
                t = n.ev
                if n.kind not in ("ev", "branch") or t is None:
                    return [a]
                if n.kind == "ev" and t[0] == "decls":
                    for d in t[1:]:
                        if "Lock" in d[2] and d[3] is not None and holds(d[3]):
                            return [tuple(sorted(set(a) | {d[1]}))]
                        if "Lock" in d[2] and d[3] is not None and holds_on(d[3]) in conts:
                            return [tuple(sorted(set(a) | {"other:" + holds_on(d[3])}))]
                if n.kind == "ev" and t[0] == "dtor" and t[1] in a:
                    return [tuple(x for x in a if x != t[1])]
                for x in walk(t):
                    if x[0] == "m" and last(x[2]) in flds and strip_cast(x[1])[0] == "v" and strip_cast(x[1])[1] in conts and "other:" + strip_cast(x[1])[1] not in a:
                        away.setdefault(last(x[2]), n.line)
                if not [v for v in a if not v.startswith("other:")]:
                    for x in walk(t):
                        if x[0] == "m" and last(x[2]) in flds and strip_cast(x[1]) == ("this",):
                            first.setdefault(last(x[2]), n.line)
                        if x[0] == "call" and x[1] in bare and (x[2] is None or strip_cast(x[2]) == ("this",)):
                            first.setdefault(flds[0], n.line)
                        if x[0] == "call" and x[1].startswith(cls + "::") and x[1] != j["q"] and (x[2] is None or strip_cast(x[2]) == ("this",)):
                            calls.append(x[1])
                return [a]
            run(g, (), step, only=lambda f: False, maxstates=40000)
            for fld, line in away.items():
                if last(j["q"]) not in PLAIN and not last(j["q"]).startswith("~"):
                    c.bad("lock", j["q"], "other " + fld, j["f"], line, f"the content ({fld}) of another container is used without holding that container's lock")
            taken = any(n.ev[0] == "decls" and any("Lock" in d[2] and d[3] is not None and holds(d[3]) for d in n.ev[1:]) for n in evs(g))
            info[(j["q"], j["l"])] = (j, first, set(calls), taken)
        byname = {}
        for (q, l), v in info.items():
            byname.setdefault(q, []).append(v)
        # private helpers may rely on their callers' lock
        relies = {}
        for (q, l), (j, first, calls, taken) in info.items():
            for x in calls:
                relies.setdefault(x, set()).add(q)
        inner = {x[1] for (j, first, calls, taken) in info.values() if last(j["q"]) not in PLAIN for uid, line, tr, t in fn(j).tree() for x in walk(t) if x[0] == "call" and x[1] != j["q"]}
        called = {x[1] for j in F.all() for uid, line, tr, t in fn(j).tree() for x in walk(t) if x[0] == "call" and x[1].startswith(cls + "::")}
        for (q, l), (j, first, calls, taken) in info.items():
            nm = last(q)
            if nm in PLAIN or nm.startswith("~"):
                continue
            touches = bool(first) or taken
            if not touches:
                continue
            c.site("lock", f"{j['f']}:{j['l']}", q)
            if not first:
                continue
            public = any(m["acc"] == 0 for m in F.classes[cls]["methods"] if m["n"] == q)
            if not public and q not in called:
                continue
            callers = relies.get(q, set())
            # every caller within the class holds the lock (constructors and assignment build a private object)
            if (not public or q in inner) and not callers - {cls + "::" + p for p in PLAIN} and not others(F, cls, q):
                continue
            fld, line = sorted(first.items(), key=lambda x: x[1])[0]
            c.bad("lock", q, "unlocked " + fld, j["f"], line, f"the content ({fld}) is used without holding the container's lock",
                  ["called without the lock by: " + ", ".join(sorted(callers)[:4])] if callers else [])
    c.expect("lock", 30)


def others(F, cls, q):
    """callers outside the class (and its own overloads)"""
    for j in F.all():
        if j["q"].startswith(cls + "::"):
            continue
        for uid, line, tr, t in fn(j).tree():
            if any(x[0] == "call" and x[1] == q for x in walk(t)):
                return True
    return False
