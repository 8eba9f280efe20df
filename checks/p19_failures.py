"""P19: failed and missing input of function nodes: per output plane, a failed child value makes the plane a failure that carries
the child's errors, a missing one makes it missing unless the node can do without, and nothing is computed from either."""
from rules import *
import lockset as LS
from branching import *
from tables import *
from ir import pp, walk, last, strip_cast

DIRS = ['MEQ/src/', 'MeqNodes/src/']
ASSUMPTIONS = ["a failed value carries at least one error record",
               "exceptions that leave a node's computation are turned into a failed result by the node's execution (another property)"]


def check(c):
    F = c.load(DIRS)
    planes(c, F)
    swallowed(c, F)
    copied(c, F)
    perturbed(c, F)
    missing(c, F)
    flags(c, F)
    overrides(c, F)
    given(c, F)
    masks(c, F)


def near(j, *cls, no=()):
    """a class's own functions and free helpers of the same file are part of the function that calls them"""
    f = inline_near(*(cls or (j["q"].rsplit("::", 1)[0],)), files=(j["f"],), no=("getResult",) + tuple(no))
    return f


def returned(T, d, e):
    """what a returned expression can be on a path, its conditions decided where they are known"""
    e = strip_cast(e)
    if e[0] == "cond":
        v = T.ev(tuple(d.items()), e[1])
        for i in (2, 3):
            if v is None or v == (i == 2):
                yield from returned(T, d, e[i])
    elif e[0] == "v" and e[1] in T.al.dec:
        yield from returned(T, d, T.al.dec[e[1]])
    else:
        yield e


def ismember(e, *nms):
    e = strip_cast(e)
    return e[0] == "m" and last(e[2]) in nms or e[0] == "call" and last(e[1]) in nms


def ofchild(al, e):
    """a child's value: reached through vellSet()"""
    xs = list(expand(al, e))
    return any(x[0] == "call" and last(x[1]) == "vellSet" for x in xs) and not out(al, e)


def out(al, e):
    return any(x[0] == "call" and last(x[1]) in ("setNewVellSet", "vellSetWr") for x in expand(al, e))


def failtest(e):
    e = strip_cast(e)
    if ismember(e, "is_fail_", "isFail"):
        return e[1] if e[0] == "m" else e[2]
    return None


def valuetest(e):
    """(object, polarity) of a test for a main value"""
    e = strip_cast(e)
    if ismember(e, "hasValue"):
        return (e[2], True)
    if ismember(e, "pvalue_"):
        return (e[1], True)
    if e[0] == "bin" and e[1] in ("==", "!=") and ismember(e[2], "pvalue_"):
        return (strip_cast(e[2])[1], e[1] == "!=")
    return None


def rets(g, F):
    cv = codevars(g)
    return {last(x[1]) for n in g.nodes if n.kind == "ev" and n.ev is not None
            for e in ([n.ev[1]] if n.ev[0] == "ret" and n.ev[1] is not None else [y for v, y in settings(n.ev) if v in cv])
            for x in walk(e) if x[0] in ("enum", "g")}


def settings(t):
    """(variable, value) of an assignment or declaration"""
    if t[0] == "asg" and t[1] in ("=", "|=") and strip_cast(t[2])[0] == "v":
        yield strip_cast(t[2])[1], t[3]
    elif t[0] == "decls":
        for d in t[1:]:
            if d[3] is not None:
                yield d[1], d[3]


def codevars(g):
    """variables that hold the code to be returned"""
    return {strip_cast(n.ev[1])[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "ret" and n.ev[1] is not None and strip_cast(n.ev[1])[0] == "v"}


def increments(t):
    """name of the local that an event increments"""
    if t[0] == "un" and t[1] in ("++", "p++") and strip_cast(t[2])[0] == "v":
        return strip_cast(t[2])[1]
    if t[0] == "asg" and strip_cast(t[2])[0] == "v":
        v = strip_cast(t[2])[1]
        if t[1] == "+=":
            return v
        if t[1] == "=" and strip_cast(t[3])[0] == "bin" and strip_cast(t[3])[1] == "+" and ("v", v) in [tuple(x[:2]) for x in walk(t[3])]:
            return v
    return None


# ---------------------------------------------------------------- planes of a function node

def planes(c, F):
    c.rule("fails", "in a function node every failed child value makes the output plane a failure holding the child's errors")
    c.rule("evaluate", "a node's function is evaluated on a plane only if no child value failed there and none is missing, or the node does without missing ones and one is there")
    c.rule("exceptions", "an exception during evaluation makes the plane a failure")
    c.rule("codes", "the planes that failed, and those that are missing without having failed, are counted, each once; the result is a failure exactly if all failed and missing exactly if all are missing")
    for j in F.all():
        if last(j["q"]) != "getResult":
            continue
        g = build(F, j, near(j, "Meq::Function", no=("evaluateFlags", "findSpids", "evaluate")), access=lambda q: True)
        ev = [n.ev for n in g.nodes if n.kind == "ev" and n.ev is not None]
        al = Alias(g)
        looks = any(x[0] in ("m", "call") and failtest(x) is not None and ofchild(al, failtest(x)) for n in g.nodes if n.kind == "branch" and n.ev is not None for x in walk(n.ev))
        if looks and any(t[0] == "call" and last(t[1]) == "setNewVellSet" for t in ev) and any(t[0] == "call" and last(t[1]) == "evaluate" and len(t[3]) == 3 for t in ev):
            machine(c, F, j, g)
    for r in ("fails", "evaluate", "exceptions", "codes"):
        c.expect(r, 1)


def counters(g, al):
    """the counters compared where the function returns FAIL / MISSING, and what is wrong with them"""
    res = {}
    why = {}

    def classify(e):
        e = strip_cast(e)
        if e[0] == "bin" and e[1] in ("==", "!="):
            for x in e[2:4]:
                x = strip_cast(x)
                if x[0] == "v" and x[1] not in al.dec:
                    return ("eq:" + x[1], e[1] == "==")
        if e[0] == "bin" and e[1] in ("!=", ">") and strip_cast(e[3]) == ("lit", 0):
            e = strip_cast(e[2])
        if e[0] == "v":
            return ("nz:" + e[1], True)
        return None
    T = Table(g, classify, al=al)
    inc = {increments(n.ev) for n in g.nodes if n.kind == "ev" and n.ev is not None} - {None}

    cv = codevars(g)

    def event(ex, d, n):
        t = n.ev
        for e in ([t[1]] if t[0] == "ret" and t[1] is not None else [y for v, y in settings(t) if v in cv]):
            for x in returned(T, d, e):
                k = last(x[1]) if x[0] in ("enum", "g") else None
                if k in ("RES_FAIL", "RES_MISSING"):
                    q = {y[3:] for y, v in d.items() if y.startswith("eq:") and v}
                    s = q & inc
                    if q and not s:
                        why.setdefault(k, (n.line, f"{k} depends on a count that is never counted up"))
                    if not q and any(y.startswith("nz:") and v and y[3:] in inc for y, v in d.items()):
                        why.setdefault(k, (n.line, f"{k} is returned as soon as one plane is so, although others may hold a value"))
                    res[k] = res[k] & s if k in res else s
        return ex
    try:
        T.run(event)
    except Broken:
        return {}, {}
    return {k: next(iter(v)) for k, v in res.items() if len(v) == 1}, why


def machine(c, F, j, g):
    al = Alias(g)
    cn, why = counters(g, al)
    nf, mp = cn.get("RES_FAIL"), cn.get("RES_MISSING")
    codes = rets(g, F)
    for k, v in (("RES_FAIL", nf), ("RES_MISSING", mp)):
        if k not in codes:
            c.bad("codes", j["q"], k, j["f"], j["l"], f"never returns {k}: a result in which every plane " + ("failed" if k == "RES_FAIL" else "is missing") + " passes for a good one")
    for k, (line, msg) in why.items():
        c.bad("codes", j["q"], k, j["f"], line, msg)
    if nf is None or mp is None:
        return
    if nf == mp:
        c.bad("codes", j["q"], "counts", j["f"], j["l"], "failed planes and missing planes are told apart by the same count")
        return
    hasflags = any(n.kind == "ev" and n.ev is not None and n.ev[0] == "call" and last(n.ev[1]) == "evaluateFlags" for n in g.nodes)
    # index variables of the loop over the children, and the vector of values
    cidx, vec = set(), set()
    for n in g.nodes:
        if n.ev is None:
            continue
        if n.kind == "ev" and n.ev[0] == "call" and last(n.ev[1]) == "evaluate" and len(n.ev[3]) == 3:
            a = strip_cast(n.ev[3][2])
            if a[0] == "v":
                vec.add(a[1])
        if n.kind == "branch":
            for x in walk(n.ev):
                f = failtest(x) if x[0] in ("m", "call") else None
                if f is not None and ofchild(al, f):
                    cidx |= {y[1] for y in expand(al, f) if y[0] == "v"}
    adv = {advanced(n.ev) for n in g.nodes if n.kind == "ev" and n.ev is not None} - {None}
    cidx &= adv
    plane = {y[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "call" and last(n.ev[1]) == "setNewVellSet" for a in n.ev[3] for y in walk(a) if y[0] == "v"} & adv
    cidx -= plane
    if not cidx or not vec:
        return

    def base(t):
        t = strip_cast(t)
        if t[0] == "idx":
            o = strip_cast(t[1])
        elif t[0] == "call" and last(t[1]) in ("operator[]", "at"):
            o = strip_cast(t[2]) if t[2] is not None else strip_cast(t[3][0])
        else:
            return None
        return o if o[0] == "v" else None

    def elem(t, which=None):
        o = base(t)
        return o is not None and o[1] in (vec if which is None else which)
    vec2 = {a[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "call" and last(n.ev[1]) in ("evaluateFlags", "findSpids") for a in map(strip_cast, n.ev[3]) if a[0] == "v"}
    vec2 &= {o[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "asg" for o in [base(n.ev[2])] if o is not None}
    vec2 -= vec
    rd = [x for n in g.nodes if n.ev is not None for x in walk(n.ev) if x[0] == "call" and last(x[1]) == "vellSet" and x[3]]
    if rd and not any(y[0] == "v" and y[1] in plane for x in rd for a in x[3] for y in expand(al, a)):
        c.bad("evaluate", j["q"], "plane", j["f"], next((n.line for n in g.nodes if n.ev is not None and any(x == rd[0] for x in walk(n.ev))), j["l"]), "the same child value is used for every output plane")
    # the counter of missing values: counted up in the loop over the children, tested later
    tested = {x[1] for n in g.nodes if n.kind == "branch" and n.ev is not None for x in walk(n.ev) if x[0] == "v"}
    cv = codevars(g)
    Z = dict(code=None, asn=0, asn2=0, set2=0, fresh=0, fresh2=0, nvs=0, flg=0, fv=None, fs=0, inp=0, fl=False, ev=0, thr=0, nf=0, mp=0, loop=0, fail=None, val=None, set=0, cnt=0, add=0, cloop=0, nomiss=1, any=0, n=0, allm=None, allow=None, eqf=None, eqm=None)
    K = sorted(Z)
    bad = {}
    lp = [s for s in LS.loops(g)]
    incs = {}
    for n in g.nodes:
        if n.kind == "ev" and n.ev is not None:
            v = increments(n.ev)
            if v and v not in (nf, mp) and v not in cidx and v not in plane and v in tested:
                incs.setdefault(v, n.line)
    # only the one declared anew for every plane
    nm = {v for v in incs if v in {d[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "decls" for d in n.ev[1:]}}
    mapping = {}

    def get(a):
        return dict(zip(K, a))

    def put(d):
        return tuple(d[k] for k in K)

    def codeof(d, e):
        """the code an expression stands for, with what is known of the counts"""
        e = strip_cast(e)
        for _ in range(4):
            if e[0] == "v" and e[1] in al.dec:
                e = strip_cast(al.dec[e[1]])
            if e[0] == "cond":
                q, sg = leaf(e[1])
                tv = None
                if q[0] == "bin" and q[1] in ("==", "!="):
                    for v, k in ((nf, "eqf"), (mp, "eqm")):
                        if any(strip_cast(y)[:2] == ("v", v) for y in q[2:4]) and d[k] is not None:
                            tv = (d[k] == (q[1] == "==")) == sg
                e = strip_cast(e[3] if tv is False else e[2])
        return last(e[1]) if e[0] in ("enum", "g") and last(e[1]) in ("RES_FAIL", "RES_MISSING") else None

    def childend(d, n):
        if not d["loop"]:
            return d
        d = dict(d)
        valued = d["fail"] is False and d["val"] is True
        if d["fail"] and not d["add"]:
            bad.setdefault(("fails", "lost"), (n.line, "a failed child value is passed over without its errors being added to the output plane"))
        if not valued and not d["asn"] and not d["fresh"]:
            bad.setdefault(("evaluate", "stale"), (n.line, "for a failed or missing child value, that of an earlier plane is left in its place"))
        if vec2 and (valued != bool(d["set2"]) or not valued and not d["asn2"] and not d["fresh2"]):
            bad.setdefault(("evaluate", "other"), (n.line, "flags and perturbed values are not taken from exactly the child values that are evaluated"))
        if d["nvs"] and d["fail"] is None and d["val"] is None and not d["set"]:
            bad.setdefault(("evaluate", "unlooked"), (n.line, "a child value is passed over without being looked at"))
        if valued and not d["set"]:
            bad.setdefault(("evaluate", "unused"), (n.line, "a child value that is there is not handed to the evaluation"))
        if not valued and d["set"]:
            bad.setdefault(("evaluate", "used"), (n.line, "a failed or missing child value is handed to the evaluation"))
        mapping.setdefault((valued, bool(d["cnt"])), n.line)
        if not valued:
            d["nomiss"] = 0
        else:
            d["any"] = 1
        d.update(loop=0, fail=None, val=None, set=0, cnt=0, add=0, cloop=0, asn=0, asn2=0, set2=0, nvs=0)
        return d

    def planeend(d, n):
        if not d["inp"]:
            return d
        d = dict(d)
        if d["thr"] and not d["fl"]:
            bad.setdefault(("exceptions", "lost"), (n.line, "an exception that was caught during evaluation leaves no trace in the output plane"))
        if d["ev"] and not d["thr"] and hasflags and (not d["flg"] or not d["fs"] and d["fv"] is not False):
            bad.setdefault(("evaluate", "flags"), (n.line, "a plane is evaluated without the children's flags being given to it"))
        if d["fl"] and not d["nf"]:
            bad.setdefault(("codes", "fail-uncounted"), (n.line, "a plane that failed is not counted as a failure"))
        if not d["fl"] and d["nf"]:
            bad.setdefault(("codes", "fail-miscounted"), (n.line, "a plane that did not fail is counted as a failure"))
        if d["fl"] and d["mp"]:
            bad.setdefault(("codes", "missing-miscounted"), (n.line, "a plane that failed is counted as missing"))
        elif d["mp"] and d["ev"]:
            bad.setdefault(("codes", "missing-miscounted"), (n.line, "a plane that was evaluated is counted as missing"))
        if not d["fl"] and not d["ev"] and not d["thr"]:
            if d["nomiss"]:
                bad.setdefault(("evaluate", "skipped"), (n.line, "a plane with all its values there is not evaluated"))
            elif d["allow"] and d["allm"] is not True:
                bad.setdefault(("evaluate", "skipped"), (n.line, "a node that does without missing values leaves a plane empty although a value may be there"))
        if not d["fl"] and not d["ev"] and not d["mp"] and not d["thr"]:
            bad.setdefault(("codes", "missing-uncounted"), (n.line, "a plane that is left empty is not counted as missing"))
        d.update(inp=0, fresh=0, fresh2=0)
        return d

    def step(a, n, facts):
        d = get(a)
        t = n.ev
        if n.kind == "catch":
            if d["inp"]:
                d["thr"] = 1
            return [put(d)]
        if n.kind != "ev" or t is None:
            return [a]
        for v, y in settings(t):
            if v in cv:
                d["code"] = codeof(d, y)
        v = increments(t) or advanced(t)
        if v in cidx:
            return [put(childend(d, n))]
        if v in plane:
            d = planeend(childend(d, n), n)
            return [put(d)]
        if v == nf and d["inp"]:
            d["nf"] = 1
        elif v == mp and d["inp"]:
            d["mp"] = 1
        elif v in nm:
            d["cnt"] = 1
            d["n"] = 1
        if t[0] == "decls":
            for x in t[1:]:
                if x[1] in vec:
                    d["fresh"] = 1
                if x[1] in vec2:
                    d["fresh2"] = 1
        if t[0] == "call" and t[2] is not None and last(t[1]) in ("assign", "clear", "operator="):
            o = strip_cast(t[2])
            if o[0] == "v" and o[1] in vec:
                d["fresh"] = 1
            if o[0] == "v" and o[1] in vec2:
                d["fresh2"] = 1
        if t[0] == "asg" and elem(t[2], vec2):
            d["asn2"] = 1
            d["set2"] = 0 if strip_cast(t[3])[0] in ("lit", "null") else 1
        if t[0] == "asg" and elem(t[2]):
            d["asn"] = 1
            r = strip_cast(t[3])
            d["set"] = 0 if r[0] == "lit" else 1
            d["loop"] = 1
        if t[0] == "call":
            nmn = last(t[1])
            if nmn == "setNewVellSet":
                d = planeend(childend(d, n), n)
                d.update({k: Z[k] for k in Z if not k.startswith("fresh") and k != "code"})
                d["inp"] = 1
            elif nmn == "addFail" and t[2] is not None and out(al, t[2]):
                d["fl"] = True
                d["add"] = 1
            elif nmn == "evaluateFlags":
                d["flg"] = 1
            elif nmn == "setDataFlags" and t[2] is not None and out(al, t[2]):
                d["fs"] = 1
            elif nmn == "evaluate" and len(t[3]) == 3:
                d = childend(d, n)
                if d["fl"] is not False:
                    bad.setdefault(("evaluate", "failed"), (n.line, "the function is evaluated for a plane that has failed"))
                elif not d["nomiss"] and not d["allow"]:
                    bad.setdefault(("evaluate", "missing"), (n.line, "the function of a node that needs all its input is evaluated with a missing value"))
                elif not d["nomiss"] and d["allm"] is not False:
                    bad.setdefault(("evaluate", "all-missing"), (n.line, "the function may be evaluated although every child value is missing"))
                d["ev"] = 1
        if t[0] == "ret" and t[1] is not None:
            d = planeend(childend(d, n), n)
            e = strip_cast(t[1])
            if e[0] == "v" and e[1] in cv and e[1] not in al.dec:
                k = d["code"]
            else:
                k = codeof(d, e)
            if k == "RES_FAIL" and d["eqf"] is not True or k == "RES_MISSING" and d["eqm"] is not True:
                bad.setdefault(("codes", k), (n.line, f"{k} is returned on a path where not all planes need be so"))
            if k is None and (d["eqf"] is not False or d["eqm"] is not False):
                bad.setdefault(("codes", "good"), (n.line, "an ordinary code may be returned although all planes failed, or all are missing"))
            return [put(d)]
        return [put(d)]

    def on(a, e, truth, n):
        d = get(a)
        e = strip_cast(e)
        f = failtest(e)
        if f is not None:
            if out(al, f):
                if bool(d["fl"]) != bool(truth):
                    return None
                return a
            if ofchild(al, f):
                if d["fail"] is not None and d["fail"] != bool(truth):
                    return None
                d["fail"] = bool(truth)
                d["loop"] = 1
                return put(d)
        vt = valuetest(e)
        if vt is not None and ofchild(al, vt[0]):
            x = bool(truth) == vt[1]
            if d["val"] is not None and d["val"] != x:
                return None
            d["val"] = x
            d["loop"] = 1
            return put(d)
        if e[0] == "bin" and e[1] in ("<", "!=", ">") and "numFails" in names(al, e):
            if truth:
                d["cloop"] = 1
                return put(d)
            return a if d["cloop"] else None
        if e[0] == "call" and last(e[1]) == "numVellSets" and any(x[0] == "v" and x[1] in cidx for x in expand(al, e)):
            d["loop"] = 1
            d["nvs"] = int(bool(truth))
            return put(d)
        if e[0] == "call" and last(e[1]) == "valid" and d["flg"]:
            d["fv"] = bool(truth)
            return put(d)
        neg = False
        x = e
        if x[0] == "bin" and x[1] in ("==", "!=", ">") and strip_cast(x[3]) == ("lit", 0):
            neg = x[1] == "=="
            x = strip_cast(x[2])
        if elem(x):
            if bool(d["set"]) != (bool(truth) != neg):
                return None
            return a
        if x[0] == "v" and x[1] in nm:
            if bool(d["n"]) != (bool(truth) != neg):
                return None
            return put(childend(d, n))
        if e[0] == "bin" and e[1] in FLIP:
            l, r = strip_cast(e[2]), strip_cast(e[3])
            op = e[1]
            if r[0] == "v" and r[1] in nm:
                l, r, op = r, l, FLIP[op]
            if l[0] == "v" and l[1] in nm and r[0] != "lit":
                t2 = {"==": True, ">=": True, "!=": False, "<": False}.get(op)
                if t2 is not None:
                    d = childend(d, n)
                    x = bool(truth) == t2
                    if d["allm"] is not None and d["allm"] != x:
                        return None
                    d["allm"] = x
                    return put(d)
            for v, k in ((nf, "eqf"), (mp, "eqm")):
                if op in ("==", "!=") and any(y == ("v", v) or y[:2] == ("v", v) for y in (l, r)):
                    d[k] = bool(truth) == (op == "==")
                    return put(d)
        if ismember(e, "allow_missing_data_"):
            if d["allow"] is not None and d["allow"] != bool(truth):
                return None
            d["allow"] = bool(truth)
            return put(d)
        return a
    try:
        run(g, put(Z), step, only=lambda f: False, cap=60, branch=brancher(on, al), maxstates=200000)
    except Broken:
        return
    for v in ((True, True), (False, False)):
        if v in mapping and (not v[0], v[1]) in mapping:
            bad.setdefault(("codes", "value-count"), (mapping[v], "the count of missing child values does not tell values that are there from those that are not"))
    for r in ("fails", "evaluate", "exceptions", "codes"):
        c.site(r, j["q"], "paths over planes and children")
    for (r, k), (l, msg) in sorted(bad.items()):
        c.bad(r, j["q"], k, j["f"], l or j["l"], msg)


# ---------------------------------------------------------------- swallowed failures

def swallowed(c, F):
    c.rule("swallowed", "a child value without data is not turned into an empty output plane before it was found not to be a failure")
    for j in F.all():
        if last(j["q"]) != "getResult":
            continue
        g = build(F, j, near(j, no=("evaluateFlags", "findSpids", "evaluate")), access=lambda q: True)
        ev = [n.ev for n in g.nodes if n.ev is not None]
        if not any(t[0] == "call" and last(t[1]) == "setNewVellSet" for t in ev):
            continue
        al = Alias(g)
        if not any(valuetest(x) is not None and ofchild(al, valuetest(x)[0]) for n in g.nodes if n.kind == "branch" and n.ev is not None for x in walk(n.ev) if x[0] in ("bin", "m", "call")):
            continue

        def classify(e, al=al):
            f = failtest(e)
            if f is not None and ofchild(al, f):
                return ("fail:" + pp(al.full(f)), True)
            v = valuetest(e)
            if v is not None and ofchild(al, v[0]):
                return ("val:" + pp(al.full(v[0])), v[1])
            return None
        adv = {advanced(t) for t in ev} - {None}
        idx = {y[1] for t in ev if t[0] == "call" and last(t[1]) in ("vellSet", "setNewVellSet") for a in t[3] for y in expand(al, a) if y[0] == "v"} & adv
        if not idx:
            continue
        allv = set()
        for n in g.nodes:
            if n.kind == "branch" and n.ev is not None:
                for x in expand(al, n.ev):
                    r = classify(x) if x[0] in ("bin", "m", "call") else None
                    if r:
                        allv.add(r[0])
        T = Table(g, classify, elem=allv, al=al)
        bad = {}

        def settle(ex, d, n):
            pend, made, failed = ex
            if pend and made and not failed:
                bad.setdefault("empty", (made, "a child value that may be a failure is dropped: the output plane becomes an ordinary empty one"))
            return (False, 0, False)

        def event(ex, d, n):
            t = n.ev
            pend, made, failed = ex
            for k, v in d.items():
                if k.startswith("val:") and v is False and d.get("fail:" + k[4:]) is None and not any(k2.startswith("fail:") and v2 for k2, v2 in d.items()):
                    pend = True
            if t[0] == "call" and last(t[1]) == "setNewVellSet" and any(y[0] == "v" and y[1] in pidx for a in t[3] for y in expand(al, a)):
                made = n.line
            # a plane that gets a value is not an empty one
            if t[0] == "call" and last(t[1]) in ("addFail", "setValue", "setReal", "setComplex"):
                failed = True
            if t[0] == "ret":
                return settle((pend, made, failed), d, n)
            return (pend, made, failed)

        def at_pass(ex, d, n, v):
            return settle(event(ex, d, n), d, n) if v in pidx else event(ex, d, n)
        pidx = {y[1] for t in ev if t[0] == "call" and last(t[1]) == "setNewVellSet" for a in t[3] for y in expand(al, a) if y[0] == "v"} & adv
        try:
            T.run(event, init=(False, 0, False), at_pass=at_pass, iters=idx, at_exit=lambda ex, d, n: None)
        except Broken:
            continue
        c.site("swallowed", j["q"], "planes made from child values")
        for k, (l, msg) in bad.items():
            c.bad("swallowed", j["q"], k, j["f"], l, msg)
    c.expect("swallowed", 2)


# ---------------------------------------------------------------- nodes that copy child values

def copied(c, F):
    c.rule("copied", "a node that passes child values on as they are, and reports failure and missing data, looks at each whether it is a failure and, if it is not, whether it is empty, and lets what it finds decide the code it returns")
    for j in F.all():
        if last(j["q"]) != "getResult":
            continue
        g = build(F, j, near(j), access=lambda q: True)
        if not {"RES_FAIL", "RES_MISSING"} <= rets(g, F):
            continue
        al = Alias(g)
        ev = [n.ev for n in g.nodes if n.kind == "ev" and n.ev is not None]

        def source(e):
            return any(x[0] == "call" and last(x[1]) == "vellSet" for x in expand(al, e)) or any(x[0] == "v" and x[1] in refs for x in walk(e))
        refs = {strip_cast(t[2])[1] for t in ev if t[0] == "call" and last(t[1]) == "operator<<=" and t[2] is not None and strip_cast(t[2])[0] == "v"
                and any(x[0] == "call" and last(x[1]) == "vellSet" for a in t[3] for x in expand(al, a))}
        cp = [t for t in ev if t[0] == "call" and last(t[1]) == "setVellSet" and len(t[3]) > 1 and source(t[3][1])]
        if not cp:
            continue
        adv = {advanced(t) for t in ev} - {None}
        idx = {y[1] for t in ev if t[0] == "call" and last(t[1]) == "vellSet" for x in walk(t) if x[0] == "v" for y in expand(al, x) if y[0] == "v"} & adv

        def classify(e):
            f = failtest(e)
            if f is not None and source(f):
                return ("fail", True)
            e = strip_cast(e)
            if e[0] == "call" and last(e[1]) == "isEmpty" and e[2] is not None and source(e[2]):
                return ("empty", True)
            v = valuetest(e)
            if v is not None and source(v[0]):
                return ("empty", not v[1])
            if e[0] == "bin" and e[1] in ("==", "!=") or e[0] == "v":
                for x in walk(e):
                    if x[0] == "v" and x[1] not in al.dec and x[1] in mods:
                        return ("=" + x[1], e[0] == "v" or e[1] == "==")
            return None
        mods = {increments(t) for t in ev} | {strip_cast(t[2])[1] for t in ev if t[0] == "asg" and strip_cast(t[2])[0] == "v"}
        mods -= {None}
        mods -= idx | {y[1] for t in cp for y in walk(t[3][0]) if y[0] == "v"}
        T = Table(g, classify, elem=("fail", "empty"), al=al)
        T.flags = set()
        cv = codevars(g)
        bad, effect, rt = {}, {}, {}
        told = {"fail": set(), "empty": set()}

        def looked(t):
            """(condition, variable) of an assignment of what is found of a child value to a variable"""
            for v, e in settings(t) if t[0] == "asg" else ():
                if v in mods and (t[1] == "|=" or any(x[:2] == ("v", v) for x in walk(e))):
                    for x in walk(e):
                        r = classify(x) if x[0] in ("bin", "m", "call") else None
                        if r and r[0] in told:
                            yield r[0], v
            if t[0] == "asg" and t[1] == "&=" and strip_cast(t[2])[0] == "v":
                for x in walk(t[3]):
                    r = classify(x) if x[0] in ("bin", "m", "call") else None
                    if r and r[0] in told:
                        yield r[0], strip_cast(t[2])[1]

        def settle(ex, d, n):
            cop, mod, ph = ex
            lk = {m[1:].split("=")[0]: m.split("=")[1] for m in mod if m.startswith("?")}
            mod = frozenset(m for m in mod if not m.startswith("?"))
            if cop and lk and not ph:
                for k in ("fail", "empty"):
                    if k in lk:
                        told[k].add(lk[k])
                if "fail" not in lk and d.get("fail") is None:
                    bad.setdefault("fail", (cop, "a child value is passed on without being looked at for failure"))
                elif "empty" not in lk and d.get("empty") is None and d.get("fail") is not True:
                    bad.setdefault("empty", (cop, "a child value that is not a failure is passed on without being looked at for missing data"))
            elif cop:
                if d.get("fail") is None and not ph:
                    bad.setdefault("fail", (cop, "a child value is passed on without being looked at for failure"))
                elif d.get("fail") is not True and d.get("empty") is None and not ph:
                    bad.setdefault("empty", (cop, "a child value that is not a failure is passed on without being looked at for missing data"))
                else:
                    k = "missing" if ph else "failed" if d.get("fail") else "missing" if d.get("empty") else "good"
                    effect.setdefault(k, {}).setdefault(mod, cop)
            return (0, frozenset(), False)

        def event(ex, d, n):
            t = n.ev
            cop, mod, ph = ex
            if t[0] == "call" and last(t[1]) == "setVellSet" and len(t[3]) > 1 and source(t[3][1]):
                cop = n.line
            if t[0] == "call" and last(t[1]) == "operator<<=" and t[2] is not None and strip_cast(t[2])[0] == "v" and strip_cast(t[2])[1] in refs and any(x[0] == "new" for a in t[3] for x in walk(a)):
                ph = True
            v = increments(t) or (strip_cast(t[2])[1] if t[0] == "asg" and strip_cast(t[2])[0] == "v" else None)
            if v in mods:
                mod = mod | {v}
            mod = mod | {f"?{k}={w}" for k, w in looked(t)}
            for e in ([t[1]] if t[0] == "ret" and t[1] is not None else [y for w, y in settings(t) if w in cv]):
                    for x in returned(T, d, e):
                        if x[0] in ("enum", "g") and last(x[1]) in ("RES_FAIL", "RES_MISSING"):
                            rt.setdefault(last(x[1]), []).append(({k[1:] for k, v2 in d.items() if k.startswith("=") and v2}, n.line))
            if t[0] == "ret":
                return settle((cop, mod, ph), d, n)
            return (cop, mod, ph)

        def at_pass(ex, d, n, v):
            return settle(ex, d, n) if v in idx else ex
        try:
            T.run(event, init=(0, frozenset(), False), at_pass=at_pass, iters=idx)
        except Broken:
            continue
        c.site("copied", j["q"], f"{len(cp)} places that pass on child values")
        for k, (l, msg) in sorted(bad.items()):
            c.bad("copied", j["q"], k, j["f"], l, msg)
        if bad or not {"failed", "missing", "good"} <= set(effect) and not (told["fail"] and told["empty"]):
            continue
        for k in ("failed", "missing", "good"):
            effect.setdefault(k, {frozenset(): 0})
        common = {k: frozenset.intersection(*v) for k, v in effect.items()}
        union = {k: frozenset.union(*v) for k, v in effect.items()}
        # a variable that tells failures from the others, and one that tells missing data from good
        vf = (common["failed"] - union["missing"] - union["good"]) | ((common["missing"] & common["good"]) - union["failed"])
        vm = (common["missing"] - union["good"]) | (common["good"] - union["missing"])
        vm -= vf
        vf |= told["fail"]
        vm |= told["empty"]
        for nm, vs, code in (("failures", vf, "RES_FAIL"), ("missing data", vm, "RES_MISSING")):
            if not vs:
                l = min(x for v in effect.values() for x in v.values())
                c.bad("copied", j["q"], "untold-" + code, j["f"], l, f"nothing keeps count of {nm} on every path that passes a child value on")
            elif any(not (s & vs) for s, l in rt.get(code, [])):
                c.bad("copied", j["q"], "returned-" + code, j["f"], next(l for s, l in rt[code] if not (s & vs)), f"{code} is not decided by what was counted of {nm}")
    c.expect("copied", 2)


# ---------------------------------------------------------------- perturbed values

def perturbed(c, F):
    c.rule("perturbed", "a perturbed value or perturbation is read from a set only where the number of the set was compared with the number of sets of that very value")
    for j in F.all():
        if not j["f"].startswith(tuple(DIRS)):
            continue
        s = None
        g = None
        if "getPerturb" not in str(j):
            continue
        g = build(F, j, lambda c2, t: False)
        al = Alias(g)

        def reads(t):
            for x in walk(t):
                if x[0] == "call" and last(x[1]) in ("getPerturbedValue", "getPerturbation", "getPerturbedValueWr") and x[1].startswith("Meq::VellSet") and x[2] is not None and len(x[3]) > 1:
                    k = strip_cast(x[3][1])
                    if k[0] == "v" and k[1] not in al.dec and strip_cast(x[2]) != ("this",):
                        yield k[1], x[2]
        if not any(n.ev is not None and any(True for _ in reads(n.ev)) for n in g.nodes):
            continue
        bad = {}

        def on(a, e, truth, n):
            e = strip_cast(e)
            if e[0] == "bin" and e[1] in ("<", ">", "<=", ">=", "!="):
                l, r, op = strip_cast(e[2]), strip_cast(e[3]), e[1]
                if r[0] == "v" and r[1] in ivars:
                    l, r, op = r, l, FLIP[op]
                if l[0] == "v" and l[1] in ivars and op in ("<", "!="):
                    rest = frozenset(x for x in a if x[0] != l[1])
                    return rest | {(l[1], pp(al.full(r)), n.line)} if truth else rest
            return a
        ivars = {v for n in g.nodes if n.ev is not None for v, o in reads(n.ev)}

        def step(a, n, facts):
            t = n.ev
            if n.kind not in ("ev", "branch") or t is None:
                return [a]
            for v, o in reads(t):
                b = [x for x in a if x[0] == v]
                if not b:
                    continue
                obj = pp(al.full(o))
                ok = any(("numPertSets" in x[1] or "pset_" in x[1]) and "max" not in x[1] and (obj in x[1] or obj.lstrip("*&(").rstrip(")") in x[1]) for x in b)
                # a bound that is itself the least number of sets, or the number that was given to the value
                ok = ok or any(x[1].startswith("min(") and "numPertSets" in x[1] for x in b) or out(al, o)
                src = {pp(al.full(o2)) for n2 in g.nodes if n2.kind == "ev" and n2.ev is not None for x in walk(n2.ev) if x[0] == "call" and last(x[1]) in ("numPertSets",) for o2 in [x[2]] if o2 is not None}
                if not ok:
                    seen.add((v, b[0][1], obj))
                    if "max(" in b[0][1] or "findSpids" in str(j) and any(last(y[1]) == "findSpids" for n2 in g.nodes if n2.ev is not None for y in walk(n2.ev) if y[0] == "call" and any(z == ("v", b[0][1]) or pp(z) == b[0][1] for q in y[3] for z in walk(q))):
                        bad.setdefault((b[0][1]), (n.line, f"perturbation set {v} of {obj[:60]} is read where {v} is only known to be below {b[0][1][:60]}, which may exceed the number of its sets"))
            if n.kind == "ev":
                w = advanced(t)
                if w in ivars:
                    return [frozenset(x for x in a if x[0] != w)]
            return [a]
        seen = set()
        try:
            run(g, frozenset(), step, only=lambda f: False, cap=40, branch=brancher(on, al), maxstates=60000)
        except Broken:
            continue
        c.site("perturbed", j["q"], "perturbed values")
        for k, (l, msg) in sorted(bad.items()):
            c.bad("perturbed", j["q"], "bound", j["f"], l, msg)
    c.expect("perturbed", 4)


# ---------------------------------------------------------------- nodes that do without missing input

def missing(c, F):
    c.rule("without", "a node that does without missing input uses a child's value only where it was found to be there")
    cls = set()
    for j in F.all():
        if last(j["q"]) == "(ctor)" and j["f"].startswith(tuple(DIRS)):
            g = build(F, j, lambda c2, t: False)
            if any(n.kind == "ev" and n.ev is not None and n.ev[0] == "call" and last(n.ev[1]) == "allowMissingData" for n in g.nodes):
                cls.add(j["q"].rsplit("::", 1)[0])
    for k in list(cls):
        cls |= set(F.subclasses(k))
    for q in sorted(cls):
        for j in F.fns(q + "::evaluate"):
            without(c, F, q, j)
    c.expect("without", 5)


def without(c, F, q, j):
    if len(j["params"]) < 3:
        return
    vn = j["params"][2]
    vn = vn[0] if isinstance(vn, (list, tuple)) else vn.get("n") if isinstance(vn, dict) else vn
    g = build(F, j, near(j, q), access=lambda x: True)
    al = Alias(g)

    def elem(t):
        """index expression of an element of the values"""
        t = strip_cast(al(t))
        if t[0] == "idx":
            o, i = strip_cast(t[1]), t[2]
        elif t[0] == "call" and last(t[1]) in ("operator[]", "at") and t[2] is not None:
            o, i = strip_cast(t[2]), t[3][0]
        elif t[0] == "call" and last(t[1]) in ("operator[]", "at") and len(t[3]) > 1:
            o, i = strip_cast(t[3][0]), t[3][1]
        elif t[0] == "call" and last(t[1]) == "front" and t[2] is not None:
            o, i = strip_cast(t[2]), ("lit", 0)
        elif t[0] == "un" and t[1] == "*":
            # an iterator over the values
            o = strip_cast(t[2])
            return pp(o) if o[0] == "v" and iterator(o[1]) else None
        elif t[0] == "call" and last(t[1]) == "operator*":
            o = strip_cast(t[2] if t[2] is not None else t[3][0])
            return pp(o) if o[0] == "v" and iterator(o[1]) else None
        else:
            return None
        if o[0] != "v" or o[1].split("#")[0] != vn:
            return None
        return pp(al(i))

    def iterator(v):
        i = al.all.get(v)
        return i is not None and any(x[0] == "call" and last(x[1]) in ("begin", "cbegin") and x[2] is not None and strip_cast(x[2])[0] == "v" and strip_cast(x[2])[1] == vn for x in walk(i))

    def conds(t):
        """sub-terms, without those of a ?: that tests the element itself"""
        if isinstance(t, tuple) and t and t[0] == "cond":
            e, sg = leaf(t[1])
            k = elem(e)
            yield from conds(t[1])
            for y in t[2:4]:
                if k is None:
                    yield from conds(y)
                elif (y is t[2]) != sg:
                    yield from conds(y)
            return
        if isinstance(t, tuple):
            yield t
            for y in t:
                if isinstance(y, tuple):
                    yield from conds(y)

    def used(t):
        for x in conds(t):
            if not x or not isinstance(x[0], str):
                continue
            if x[0] == "un" and x[1] == "*":
                k = elem(x[2])
                if k is not None:
                    yield k
            if x[0] in ("m",) and x[1] is not None:
                k = elem(x[1])
                if k is not None:
                    yield k
            if x[0] == "call" and x[2] is not None and last(x[1]) not in ("operator[]",):
                k = elem(x[2])
                if k is not None and not last(x[1]).startswith("operator"):
                    yield k
    bad = {}
    n_used = sum(1 for n in g.nodes if n.ev is not None for _ in used(n.ev))

    def on(a, e, truth, n):
        e = strip_cast(e)
        if e[0] == "bin" and e[1] in ("==", "!=") and strip_cast(e[3]) in (("lit", 0), ("null",)):
            k = elem(e[2])
            if k is not None:
                return a | {k} if truth == (e[1] == "!=") else a - {k}
        k = elem(e)
        if k is not None:
            return a | {k} if truth else a - {k}
        if e[0] == "bin" and e[1] in ("==", "!=", ">") and "size" in names(al, e):
            x = [y for y in map(strip_cast, e[2:4]) if y[0] == "lit"]
            if x and x[0][1] == 1 and (e[1] == "==" and truth or e[1] in ("!=", ">") and not truth):
                # the only child: not all are missing
                return a | {"0"}
        return a

    def step(a, n, facts):
        t = n.ev
        if n.kind not in ("ev", "branch") or t is None:
            return [a]
        for k in used(t):
            if k not in a:
                bad.setdefault("null", (n.line, f"child value number {k} is used without having been found to be there"))
        if n.kind == "ev":
            w = advanced(t)
            if w:
                return [frozenset(x for x in a if x != w and w not in x.replace("(", " ").replace(")", " ").split())]
        return [a]
    try:
        run(g, frozenset(), step, only=lambda f: False, cap=40, branch=brancher(on, al), maxstates=60000)
    except Broken:
        return
    c.site("without", j["q"], f"{n_used} uses of child values")
    for k, (l, msg) in bad.items():
        c.bad("without", j["q"], k, j["f"], l, msg)


# ---------------------------------------------------------------- flags

def flags(c, F):
    c.rule("flags", "the flags of every child value that is there and has flags go into the output's, under that child's mask")
    for q in ("Meq::Function::evaluateFlags", "Meq::TensorFunction::evaluateTensorFlags"):
        for j in F.fns(q):
            g = build(F, j, near(j, "Meq::Function", "Meq::TensorFunction"), access=lambda x: True)
            al = Alias(g)
            mg = [n for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "call" and last(n.ev[1]) == "mergeFlags"]
            if not mg:
                if not any(n.ev is not None and "hasDataFlags" in str(n.ev) for n in g.nodes):
                    continue
                c.bad("flags", j["q"], "lost", j["f"], j["l"], "the children's flags are not merged")
                continue
            adv = {advanced(n.ev) for n in g.nodes if n.kind == "ev" and n.ev is not None} - {None}
            idx = {y[1] for n in mg for a in n.ev[3] for y in expand(al, a) if y[0] == "v"} & adv

            def classify(e):
                e = strip_cast(e)
                if e[0] == "call" and last(e[1]) == "hasDataFlags" or e[0] == "m" and last(e[2]) == "pflags_":
                    return ("flags", True)
                if e[0] == "bin" and e[1] in ("!=", "==") and ismember(e[2], "pflags_"):
                    return ("flags", e[1] == "!=")
                if e[0] == "call" and last(e[1]) == "isNull":
                    return ("null", True)
                x = e
                if x[0] == "bin" and x[1] in ("==", "!=") and strip_cast(x[3])[0] in ("lit", "null"):
                    pol = x[1] == "!="
                    x = strip_cast(x[2])
                else:
                    pol = True
                if (x[0] == "idx" or x[0] == "call" and last(x[1]) == "operator[]") and any(y[0] == "v" and y[1] in idx for y in walk(x)):
                    return ("mask" if any(y[0] == "m" and "mask" in last(y[2]) for y in walk(x)) else "there", pol)
                return None
            T = Table(g, classify, elem=("flags", "null", "there", "mask"), al=al)
            bad = {}
            for n in g.nodes:
                if n.ev is None:
                    continue
                for v, e in settings(n.ev):
                    if v in idx and n.ev[0] == "decls" and strip_cast(e)[0] == "lit" and isinstance(strip_cast(e)[1], int) and strip_cast(e)[1] > 0:
                        bad.setdefault("first", (n.line, "the flags of the first child values are left out of the output's"))
                if n.kind == "branch":
                    e = leaf(n.ev)[0]
                    if e[0] == "bin" and e[1] in ("<", "<=", ">", ">="):
                        l, r, op = strip_cast(e[2]), strip_cast(e[3]), e[1]
                        if r[0] == "v":
                            l, r, op = r, l, FLIP[op]
                        if l[0] == "v" and l[1] in idx and r[0] == "lit" and op in ("<", "<="):
                            bad.setdefault("few", (n.line, "only the first child values' flags go into the output's"))
            merged(g, al, adv, bad)

            def settle(done, d, n):
                if done is not True and d.get("flags") is not None and And(d.get("flags"), Not(d.get("null", False)), d.get("there", True), d.get("mask", True)) is True:
                    bad.setdefault("lost", (n.line, "the flags of a child value are left out of the output's"))
                if not done and d.get("flags") is None and d.get("there") is True and d.get("null") is not True and d.get("mask") is not False:
                    bad.setdefault("lost", (n.line, "the flags of a child value are left out of the output's"))
                return False

            def event(done, d, n):
                t = n.ev
                if t[0] == "call" and last(t[1]) == "mergeFlags":
                    m = [x for a in t[3][2:3] for x in expand(al, a)]
                    if not any(x[0] == "m" and "mask" in last(x[2]) for x in m):
                        bad.setdefault("mask", (n.line, "flags are merged without the child's mask"))
                    else:
                        ix = [x for x in m if x[0] == "idx" or x[0] == "call" and last(x[1]) == "operator[]"]
                        a = {y[1] for x in ix for y in walk(x) if y[0] == "v"}
                        b = {x[1] for x in expand(al, t[3][1]) if x[0] == "v"} & idx
                        if ix and b and not a & b:
                            bad.setdefault("mask", (n.line, "flags are merged under another child's mask"))
                    return True
                return done
            try:
                T.run(event, init=False, at_pass=lambda ex, d, n, v: settle(ex, d, n), iters=idx)
            except Broken:
                continue
            c.site("flags", j["q"], "children")
            for k, (l, msg) in bad.items():
                c.bad("flags", j["q"], k, j["f"], l, msg)
    c.expect("flags", 1)


def merged(g, al, adv, bad):
    """flags that were collected in a local reference go on into the output's on every path where there are any"""
    loc = {d[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "decls" for d in n.ev[1:] if d[1] not in al.dec}

    def taken(t):
        """references whose flags an event hands on"""
        if t[0] == "asg":
            src, dst = t[3:4], t[2]
        elif t[0] == "call" and last(t[1]) in ("operator=", "operator|=", "attach", "mergeFlags", "copy", "xfer", "setDataFlags"):
            src, dst = (t[3], t[2]) if t[2] is not None else (t[3][1:], t[3][0] if t[3] else None)
        else:
            return
        for a in src:
            for x in walk(a):
                if x[0] == "v" and x[1] in loc:
                    yield x[1], {y[1] for q in (dst, a) if q is not None for y in expand(al, q) if y[0] == "v"}
    rel = {}
    for n in g.nodes:
        if n.kind == "ev" and n.ev is not None:
            for v, vs in taken(n.ev):
                rel.setdefault(v, set()).update(vs & adv)

    def classify(e):
        e = strip_cast(e)
        if e[0] == "call" and last(e[1]) in ("valid", "isValid") and e[2] is not None and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[1] in rel:
            return ("valid:" + strip_cast(e[2])[1], True)
        return None
    T = Table(g, classify, al=al)

    def settle(ex, d, n, v):
        if d.get("valid:" + v) and v not in ex:
            bad.setdefault("dropped", (n.line, "flags that were collected from the children do not go into the output's"))

    def event(ex, d, n):
        t = n.ev
        if t[0] == "decls":
            for x in t[1:]:
                if x[1] in rel:
                    settle(ex, d, n, x[1])
                    return Upd(ex - {x[1]}, {"valid:" + x[1]: None})
        return ex | {v for v, vs in taken(t)}

    def at_pass(ex, d, n, w):
        for v in rel:
            if w in rel[v]:
                settle(ex, d, n, v)
                ex = ex - {v}
        return ex
    try:
        T.run(event, init=frozenset(), at_pass=at_pass, iters=adv)
    except Broken:
        pass


# ---------------------------------------------------------------- nodes that override the whole evaluation

def overrides(c, F):
    c.rule("overrides", "a node with an evaluation of its own puts the errors of every failed child value into the output plane and leaves them there, computes nothing with a failed or missing value, keeps the flags of those it uses, and reports failure only if all planes failed")
    for j in F.all():
        if last(j["q"]) != "getResult":
            continue
        g = build(F, j, near(j, "(none)", no=("evaluateFlags", "findSpids", "evaluate")), access=lambda q: True)
        ev = [n.ev for n in g.nodes if n.ev is not None]
        al = Alias(g)
        evc = [n.ev for n in g.nodes if n.kind == "ev" and n.ev is not None]
        if any(t[0] == "call" and last(t[1]) == "evaluate" and len(t[3]) == 3 for t in evc):
            continue
        if not any(t[0] == "call" and last(t[1]) == "addFail" and t[2] is not None and out(al, t[2]) or t[0] == "call" and last(t[1]) == "addFail" for t in evc):
            continue
        adv = {advanced(t) for t in evc} - {None}
        objs = [x for t in ev for x in walk(t) if x[0] == "call" and last(x[1]) == "vellSet" and x[2] is not None]
        cidx = {z[1] for x in objs for z in expand(al, x[2]) if z[0] == "v"} & adv
        pidx = {y[1] for t in evc if t[0] == "call" and last(t[1]) == "setNewVellSet" for a in t[3] for y in expand(al, a) if y[0] == "v"} & adv
        cidx -= pidx
        if not cidx or not pidx:
            continue

        def child(o):
            return ofchild(al, o) and any(z[0] == "v" and z[1] in cidx for z in expand(al, o))

        def classify(e):
            f = failtest(e)
            if f is not None and child(f):
                return ("fail", True)
            v = valuetest(e)
            if v is not None and child(v[0]):
                return ("val", v[1])
            e = strip_cast(e)
            if e[0] == "call" and last(e[1]) == "hasDataFlags" and e[2] is not None and child(e[2]):
                return ("flags", True)
            return None
        T = Table(g, classify, elem=("fail", "val", "flags"), al=al)
        ptr = {d[1] for t in evc if t[0] == "decls" for d in t[1:] if d[2].strip().endswith("*") and d[1] not in al.dec}
        T.flags |= ptr
        fl0 = T.flag

        def flag(tr, v, e):
            if v in ptr and e is not None:
                e = strip_cast(e)
                e = ("lit", 1) if e[0] == "new" or e[0] == "un" and e[1] == "&" else ("lit", 0) if e[0] in ("lit", "null") else None
            return fl0(tr, v, e)
        T.flag = flag
        if not any(classify(x) for n in g.nodes if n.kind == "branch" and n.ev is not None for x in expand(al, n.ev) if x[0] in ("bin", "m", "call")):
            continue
        bad = {}
        # where a flag is computed rather than set, what it says of the children is not followed
        plain = all(strip_cast(t[3])[0] == "lit" for t in evc if t[0] == "asg" and strip_cast(t[2])[0] == "v" and strip_cast(t[2])[1] in T.flags - ptr)

        def event(ex, d, n):
            t = n.ev
            add, flg, af, am = ex
            if t[0] == "call":
                k = last(t[1])
                if k in ("addFail", "numFails"):
                    add = True
                if k == "setNewVellSet" and af and any(y[0] == "v" and y[1] in pidx for a in t[3] for y in expand(al, a)):
                    bad.setdefault("overwritten", (n.line, "an output plane that holds a child's errors is replaced by another one"))
                if k == "setValue" and t[2] is not None and out(al, t[2]) and (af or am) and plain:
                    bad.setdefault("computed", (n.line, "a value is computed although a child value failed or is missing"))
            if "dataFlags" in names(al, t) or any(x[0] == "call" and last(x[1]) == "dataFlags" for x in walk(t)):
                flg = True
            return (add, flg, af, am)

        def at_pass(ex, d, n, v):
            add, flg, af, am = ex
            if v in pidx:
                return (False, False, False, False)
            if v in cidx:
                if d.get("fail") and not add:
                    bad.setdefault("lost", (n.line, "a failed child value is passed over without its errors being added to the output plane"))
                if d.get("flags") and not flg:
                    bad.setdefault("flags", (n.line, "the flags of a child value are left out of the output's"))
                return (False, False, af or d.get("fail") is True, am or d.get("val") is False and d.get("fail") is not True)
            return ex
        try:
            T.run(event, init=(False, False, False, False), at_pass=at_pass, iters=cidx | pidx)
        except Broken:
            continue
        c.site("overrides", j["q"], "paths over planes and children")
        cn, why = counters(g, al)
        if "RES_FAIL" in why:
            bad.setdefault("RES_FAIL", why["RES_FAIL"])
        for k, (l, msg) in sorted(bad.items()):
            c.bad("overrides", j["q"], k, j["f"], l, msg)
    c.expect("overrides", 1)


# ---------------------------------------------------------------- flags given to output planes

def given(c, F):
    c.rule("given", "flags that were computed for an output plane are given to it whenever there are any")
    for j in F.all():
        if not j["f"].startswith(tuple(DIRS)) or "setDataFlags" not in str(j):
            continue
        g = build(F, j, lambda c2, t: False, access=lambda q: True)
        if any(n.kind == "catch" for n in g.nodes):
            continue
        al = Alias(g)
        evc = [n.ev for n in g.nodes if n.kind == "ev" and n.ev is not None]
        tgt = {pp(al.full(a)) for t in evc if t[0] == "call" and last(t[1]) == "setDataFlags" and t[3] for a in t[3][:1]}

        def classify(e):
            e = strip_cast(e)
            if e[0] == "call" and last(e[1]) in ("valid", "isValid") and e[2] is not None and pp(al.full(e[2])) in tgt:
                return ("valid:" + pp(al.full(e[2])), True)
            return None
        els = {}
        for n in g.nodes:
            if n.kind == "branch" and n.ev is not None:
                for x in expand(al, n.ev):
                    r = classify(x) if x[0] == "call" else None
                    if r:
                        els[r[0]] = {y[1] for y in expand(al, x) if y[0] == "v"}
        adv = {advanced(t) for t in evc} - {None}
        els = {k: v for k, v in els.items() if v & adv}
        if not els:
            continue
        T = Table(g, classify, elem=els, al=al)
        bad = {}

        def settle(ex, d, n):
            for k in els:
                if d.get(k) and k not in ex:
                    bad.setdefault("flags", (n.line, "flags that were computed for an output plane are not given to it on every path"))

        def event(ex, d, n):
            t = n.ev
            if t[0] == "call" and last(t[1]) == "setDataFlags" and t[3]:
                return ex | {"valid:" + pp(al.full(t[3][0]))}
            if t[0] == "decls":
                k = {q for q in els for x in t[1:] if x[1] in els[q] and not els[q] & adv}
                if k:
                    settle(ex, {q: d.get(q) for q in k}, n)
                    return Upd(ex - k, {q: None for q in k})
            return ex

        def at_pass(ex, d, n, v):
            k = {q for q in els if v in els[q]}
            settle(ex, {q: d.get(q) for q in k}, n)
            return ex - k
        try:
            T.run(event, init=frozenset(), at_pass=at_pass, iters={v for q in els.values() for v in q & adv} or adv)
        except Broken:
            continue
        c.site("given", j["q"], "flags of output planes")
        for k, (l, msg) in bad.items():
            c.bad("given", j["q"], k, j["f"], l, msg)
    c.expect("given", 1)


# ---------------------------------------------------------------- the masks

def masks(c, F):
    c.rule("masks", "the flag masks of a function node are those of its state record: one for each child, a single one for all of them, -1 for every flag and 0 for none")
    for j in F.fns("Meq::Function::setStateImpl"):
        g = build(F, j, near(j, "Meq::Function"), access=lambda q: True)
        al = Alias(g)
        evc = [n.ev for n in g.nodes if n.kind == "ev" and n.ev is not None]
        src = {strip_cast(a)[1] for t in evc for x in walk(t) if x[0] == "call" and last(x[1]) == "get_vector" and "FlagMask" in pp(x) for a in x[3] if strip_cast(a)[0] == "v"}
        if not src:
            continue

        def one(e):
            """the single mask, or the first of them"""
            return any(x[0] == "v" and x[1] in src for x in expand(al, e))

        def classify(e):
            e = strip_cast(e)
            if e[0] == "call" and last(e[1]) == "get_vector" and "FlagMask" in pp(e):
                return ("given", True)
            if e[0] == "bin" and e[1] in ("==", "!="):
                l, r = strip_cast(e[2]), strip_cast(e[3])
                if "size" in names(al, e) and one(e):
                    return ("size1" if ("lit", 1) in (l, r) else "sizeN", e[1] == "==")
                for a, b in ((l, r), (r, l)):
                    if one(a):
                        if b == ("lit", 0):
                            return ("zero", e[1] == "==")
                        if b == ("lit", -1) or b == ("un", "-", ("lit", 1)):
                            return ("full", e[1] == "==")
            return None
        T = Table(g, classify, al=al)
        bad = {}

        def event(ex, d, n):
            t = n.ev
            if t[0] == "call" and t[2] is not None and ismember(t[2], "flagmask_") and last(t[1]) in ("assign", "operator=") or t[0] == "asg" and ismember(t[2], "flagmask_"):
                a = t[3] if t[0] == "call" else t[3:4]
                if t[0] == "call" and last(t[1]) == "assign" and len(a) > 1:
                    if "numChildren" not in names(al, a[0]):
                        bad.setdefault("count", (n.line, "a single mask is not given to every child"))
                    v = strip_cast(a[1])
                    if one(v):
                        return "all"
                    if v == ("lit", 0):
                        return "none"
                    return "full"
                return "each" if any(one(x) for x in a) else "other"
            if t[0] == "ret":
                finish(ex, d, n)
            return ex

        def finish(ex, d, n):
            if not d.get("given"):
                return
            ok = True
            if ex is None:
                ok = False
            elif d.get("size1"):
                ok = ex == "each" and False or ex == "all" and d.get("full") is not True or ex == "full" and d.get("full") is True or ex == "none" and d.get("zero") is True
                # -1 has all bits set
                ok = ok or ex == "all"
            elif d.get("size1") is False:
                ok = ex == "each" and d.get("sizeN") is True
            if not ok:
                bad.setdefault("masks", (n.line, "the masks set in the state record do not become those of the children"))
        try:
            T.run(event, init=None, at_exit=finish)
        except Broken:
            continue
        c.site("masks", j["q"], "paths")
        for k, (l, msg) in bad.items():
            c.bad("masks", j["q"], k, j["f"], l or j["l"], msg)
    c.expect("masks", 1)
