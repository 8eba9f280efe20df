"""P13: counted references: the count follows the references, writing goes to a private object, clones are complete."""
from rules import *
import lockset as LS
from branching import *
from tables import *
from ir import pp, walk, last, strip_cast
from checks.p09_routing import returns

CORE = ['MEQ/src/', 'MeqServer/src/', 'OCTOPUSSY/src/', 'OCTOPython/src/', 'AppAgent/AppAgent/', 'DMI/src/', 'TimBase/src/', 'VisCube/src/', 'MeqNodes/src/']
ASSUMPTIONS = ["reference counts are kept in the target (the linked-list variant is switched off in this build)",
               "objects are cloned through clone(); a function that keeps a C++ reference obtained from a counted reference beyond its own return is not followed",
               "const access does not modify (casts of const away from data reached through a const dereference are not followed)"]
REF = "DMI::CountedRef"
BASE = "DMI::CountedRefBase"


def check(c):
    F = c.load(CORE)
    counts(c, F)
    access(c, F)
    clones(c, F)
    stale(c, F)
    caches(c, F)


def isf(t, f):
    t = strip_cast(t) if t else None
    return t is not None and t[0] == "m" and last(t[2]) == f


def own(t, f):
    """field f of this object"""
    return isf(t, f) and strip_cast(strip_cast(t)[1]) == ("this",)


# ---------------------------------------------------------------- the count

def counts(c, F):
    c.rule("count", "in every operation on a reference the target's count changes, under the target's lock, by exactly the number of references that the operation makes or gives up; a newly cloned target starts with one")
    c.rule("dispose", "a target is deleted only on a path where giving up a reference left none, the target is owned by its references and this reference was emptied first; on such a path it is deleted")
    c.rule("release", "destroying a reference gives up its target; a locked reference cannot be detached or transferred")
    for j in F.all():
        if not j["q"].startswith(BASE + "::") or j["q"].split("::")[-1] in ("(dtor)",):
            continue
        if last(j["q"]) in ("empty", "print", "sdebug", "debug", "verify"):
            continue
        g = build(F, j, lambda c2, t: False, access=lambda q: True)
        direct = [n for n in g.nodes if n.kind == "ev" and n.ev is not None and (touch(n.ev) or hold(n.ev) is not None or n.ev[0] == "call" and last(n.ev[1]) == "empty")]
        if not direct or not any(touch(n.ev) or n.ev[0] == "asg" for n in direct):
            continue
        balance(c, F, j, g)
    for j in F.fns(BASE + "::(dtor)"):
        g = build(F, j, lambda c2, t: False)
        miss = []

        def step(a, n, facts):
            t = n.ev
            if n.kind == "exit" and not a:
                miss.append(n.line)
            if n.kind == "ev" and t is not None and t[0] == "call" and last(t[1]) == "detach":
                return [1]
            return [a]
        run(g, 0, step, only=lambda f: False)
        c.site("release", j["q"], "destructor")
        if miss:
            c.bad("release", j["q"], "detach", j["f"], j["l"], "the reference is destroyed without giving up its target: the target's count never reaches zero")
    for nm in ("detach", "xfer"):
        for j in F.fns(BASE + "::" + nm):
            g = build(F, j, lambda c2, t: False)
            T = Table(g, lambda e: lockleaf(e))
            bad = []
            seen = []

            def event(ex, d, n):
                t = n.ev
                if touch(t) == -1 and nm == "detach":
                    seen.append(n.line)
                    if d.get("this") is not False:
                        bad.append(n.line)
                elif nm == "xfer" and t[0] == "call" and last(t[1]) == "empty" and t[2] is not None and strip_cast(t[2])[0] == "v":
                    seen.append(n.line)
                    if d.get("other") is not False:
                        bad.append(n.line)
                return ex
            try:
                T.run(event)
            except Broken:
                continue
            if seen:
                c.site("release", j["q"], "locked references are refused")
            if bad:
                c.bad("release", j["q"], "locked", j["f"], bad[0], "a locked reference can be made to give up its target")
    c.expect("count", 4)
    c.expect("dispose", 1)
    c.expect("release", 2)


def lockleaf(e):
    """whether this reference, or the other one, is locked"""
    e = strip_cast(e)
    if e[0] == "m" and last(e[2]) == "locked_":
        return ("this" if strip_cast(e[1]) == ("this",) else "other", True)
    if e[0] == "call" and last(e[1]) == "isLocked":
        return ("this" if e[2] is None or strip_cast(e[2]) == ("this",) else "other", True)
    return None


def touch(t):
    """change of a count: +1, -1, '=' for a fresh start, None"""
    if t[0] == "un" and t[1] in ("++", "p++", "--", "p--") and isf(t[2], "ref_count_"):
        return 1 if "+" in t[1] else -1
    if t[0] == "asg" and isf(t[2], "ref_count_"):
        if t[1] in ("+=", "-=") and strip_cast(t[3])[0] == "lit":
            k = int(strip_cast(t[3])[1])
            return k if t[1] == "+=" else -k
        r = strip_cast(t[3])
        if t[1] == "=" and r[0] == "lit":
            return ("=", int(r[1]))
        if t[1] == "=" and r[0] == "bin" and r[1] in ("+", "-") and isf(r[2], "ref_count_") and strip_cast(r[3])[0] == "lit":
            k = int(strip_cast(r[3])[1])
            return k if r[1] == "+" else -k
    return None


def hold(t):
    """assignment to a reference's target: (who, value)"""
    if t[0] == "asg" and t[1] == "=" and isf(t[2], "target_"):
        o = strip_cast(strip_cast(t[2])[1])
        v = strip_cast(t[3])
        return ("this" if o == ("this",) else pp(o)), not (v[0] == "null" or v[0] == "lit" and not v[1])
    return None


def who(o):
    if o is None or strip_cast(o) == ("this",):
        return "this"
    return pp(strip_cast(o))


CALLS = {"detach": 0, "copy": None, "xfer": None, "attach": 1}


def balance(c, F, j, g):
    al = Alias(g)
    ctor = last(j["q"]) == "(ctor)"
    others = sorted({p[0] for p in j["params"] if "CountedRef" in p[1] and "Target" not in p[1]})
    # state: (held of this, held of other) True/False/None, balance, fresh target vars, lock held, zero, anon, emptied, deleted
    bad = {}

    def note(k, line, msg):
        bad.setdefault(k, (line, msg))

    def on(a, e, truth, n):
        e = strip_cast(e)
        h, bal, lk, zero, anon, dele, fresh = a
        d = dict(h)
        if e[0] == "v" and e[1] in al.dec:
            e = strip_cast(al(e))
        w = None
        if e[0] == "call" and last(e[1]) == "valid":
            w = who(e[2])
        elif isf(e, "target_"):
            w = who(strip_cast(e)[1])
        if w is not None:
            if d.get(w) is not None and d[w] != bool(truth):
                return None
            d[w] = bool(truth)
            return (tuple(sorted(d.items(), key=str)), bal, lk, zero, anon, dele, fresh)
        if isf(e, "ref_count_") or e[0] == "un" and e[1] == "--" and isf(e[2], "ref_count_"):
            return (h, bal, lk, not truth, anon, dele, fresh)
        if e[0] == "un" and e[1] == "p--" and isf(e[2], "ref_count_"):
            return a
        if e[0] == "bin" and e[1] in ("==", "!=", "<=", ">", "<", ">=") and any(isf(x, "ref_count_") for x in walk(e)):
            l, r, op = strip_cast(e[2]), strip_cast(e[3]), e[1]
            if l[0] == "lit":
                l, r, op = r, l, FLIP[op]
            if not truth:
                op = NEG[op]
            if r[0] == "lit" and l[0] in ("m", "un"):
                k = int(r[1])
                if l[0] == "un" and l[1] == "p--":
                    k -= 1
                elif l[0] == "un" and l[1] not in ("--",):
                    return a
                z = {("==", 0): True, ("<=", 0): True, ("<", 1): True, ("!=", 0): False, (">", 0): False, (">=", 1): False}.get((op, k))
                if z is not None:
                    return (h, bal, lk, z, anon, dele, fresh)
            return a
        if isf(e, "anon_") or e[0] == "call" and last(e[1]) == "isAnonTarget":
            return (h, bal, lk, zero, bool(truth), dele, fresh)
        return a

    def step(a, n, facts):
        h, bal, lk, zero, anon, dele, fresh = a
        t = n.ev
        if n.kind == "exit":
            if bal != 0:
                note("count", n.line or j["l"], "the target's count is %s than the number of references to it after this operation" % ("higher" if bal > 0 else "lower"))
            if zero is True and anon is True and not dele:
                note("leak", n.line or j["l"], "the last reference is given up and the target, which is owned by its references, is not deleted")
            return [a]
        if n.kind != "ev" or t is None:
            return [a]
        d = dict(h)
        k = touch(t)
        if k is not None:
            base = strip_cast(strip_cast(t[2])[1])
            if not lk and not (base[0] == "v" and base[1] in fresh):
                note("lock", n.line, "the target's count is changed without holding the target's lock")
            if isinstance(k, tuple):
                if not (base[0] == "v" and base[1] in fresh):
                    note("set", n.line, "the count of a target that other references may already share is overwritten")
                bal += k[1]
            else:
                bal += k
            if isinstance(k, int) and k < 0:
                zero = None
            return [(h, bal, lk, zero, anon, dele, fresh)]
        hd = hold(t)
        if hd is not None:
            w, on_ = hd
            was = d.get(w)
            if was is None:
                return [(tuple(sorted(dict(d, **{w: x}).items(), key=str)), bal, lk, zero, anon, dele, fresh) for s in (True, False) for x in [on_] for bal in [a[1] + (1 if s else 0) - (1 if on_ else 0)]]
            bal += (1 if was else 0) - (1 if on_ else 0)
            d[w] = on_
            return [(tuple(sorted(d.items(), key=str)), bal, lk, zero, anon, dele, fresh)]
        if t[0] == "call" and t[1].startswith(BASE) or t[0] == "call" and t[1].startswith(REF):
            nm, w = last(t[1]), who(t[2])
            if nm == "empty":
                was = d.get(w)
                if was is None:
                    was = False if ctor and w == "this" else True
                bal += 1 if was else 0
                d[w] = False
            elif nm == "detach":
                d[w] = False
            elif nm == "attach":
                d[w] = True
            elif nm in ("copy", "xfer") and t[3]:
                o = who(t[3][0])
                d[w] = d.get(o)
                if nm == "xfer":
                    d[o] = False
            return [(tuple(sorted(d.items(), key=str)), bal, lk, zero, anon, dele, fresh)]
        if t[0] == "decls":
            for v in t[1:]:
                if "Lock" in v[2] and v[3] is not None and any(x[0] == "call" and last(x[1]) == "crefMutex" for x in walk(v[3])):
                    lk = lk + (v[1],)
                if v[3] is not None and any(x[0] == "call" and last(x[1]) == "clone" for x in walk(v[3])):
                    fresh = fresh + (v[1],)
                if REF in v[2] and "*" not in v[2] and "&" not in v[2]:
                    d[v[1]] = False
            return [(tuple(sorted(d.items(), key=str)), bal, lk, zero, anon, dele, fresh)]
        if t[0] == "asg" and t[1] == "=" and strip_cast(t[2])[0] == "v" and any(x[0] == "call" and last(x[1]) == "clone" for x in walk(t[3])):
            return [(h, bal, lk, zero, anon, dele, fresh + (strip_cast(t[2])[1],))]
        if t[0] == "dtor" and t[1] is not None:
            v = t[1][1] if t[1][0] == "v" else t[1]
            return [(h, bal, tuple(x for x in lk if x != v), zero, anon, dele, fresh)]
        if t[0] == "call" and last(t[1]) == "release" and t[2] is not None and strip_cast(t[2])[0] == "v":
            return [(h, bal, tuple(x for x in lk if x != strip_cast(t[2])[1]), zero, anon, dele, fresh)]
        if t[0] == "del":
            if zero is not True or anon is not True:
                note("delete", n.line, "the target is deleted on a path where " + ("references to it may be left" if zero is not True else "it is not known to be owned by its references"))
            elif d.get("this") is not False:
                note("delete", n.line, "the target is deleted while this reference still refers to it")
            c.site("dispose", j["q"], f"line {n.line}")
            return [(h, bal, lk, zero, anon, True, fresh)]
        return [a]
    h0 = (("this", False),) if ctor else ()
    try:
        run(g, (h0, 0, (), None, None, False, ()), step, only=lambda f: False, branch=brancher(on, al), maxstates=60000)
    except Broken:
        return
    c.site("count", j["q"], f"line {j['l']}")
    for k, (line, msg) in sorted(bad.items()):
        c.bad("dispose" if k in ("delete", "leak") else "count", j["q"], k, j["f"], line, msg)


# ---------------------------------------------------------------- write access

def wleaf(al, e):
    e = strip_cast(e)
    if isf(e, "writable_"):
        return ("writable", True)
    if isf(e, "shared_") or e[0] == "call" and last(e[1]) == "isSharedTarget":
        return ("shared", True)
    if e[0] == "call" and last(e[1]) == "isOnlyRef":
        return ("only", True)
    if e[0] == "call" and last(e[1]) == "isDirectlyWritable":
        return ("direct", True)
    if isf(e, "target_") or e[0] == "call" and last(e[1]) == "valid":
        # of another reference: another condition
        o = e[2] if e[0] == "call" else e[1]
        return ("valid" if o is None or strip_cast(o) == ("this",) else "valid:" + pp(o), True)
    if isf(e, "anon_") or e[0] == "call" and last(e[1]) == "isAnonTarget":
        return ("anon", True)
    if e[0] == "bin" and e[1] in FLIP:
        l, r, op = strip_cast(al(e[2])), strip_cast(al(e[3])), e[1]
        if l[0] == "lit":
            l, r, op = r, l, FLIP[op]
        if (isf(l, "ref_count_") or l[0] == "call" and last(l[1]) == "targetReferenceCount") and r[0] == "lit":
            k = int(r[1])
            x = {("==", 1): True, ("!=", 1): False, ("<=", 1): True, (">", 1): False, ("<", 2): True, (">=", 2): False}.get((op, k))
            # compared with another number: not the same as being the only reference
            return ("only", x) if x is not None else ("?count", True)
        if l[0] == "v" and l[1] == "depth" and r[0] == "lit":
            k = int(r[1])
            x = {(">", 0): True, ("<=", 0): False, (">=", 1): True, ("<", 1): False}.get((op, k))
            return ("depth", x) if x is not None else None
    if e[0] == "bin" and e[1] == "&" and any(x[0] in ("enum", "g") and last(x[1]) == "DEEP" for x in walk(e)):
        return ("deep", True)
    return None


def access(c, F):
    c.rule("writable", "a reference gives direct write access exactly if it is shared, or writable and the only one to its target; it is the only one exactly if the target's count is one")
    c.rule("write-access", "every way of getting a writable object out of a reference goes through the one that hands out the target only when the reference may write directly, or after a private copy was made")
    c.rule("privatize", "a private copy is left out only if the target is owned by its references, this is the only one, it is writable and no deep copy was asked for; afterwards the reference is writable; flags and depth are passed on")
    for j in F.fns(BASE + "::isDirectlyWritable"):
        returns(c, "writable", F, j, wleaf, lambda d: Or(And(d.get("writable"), d.get("only")), d.get("shared")), atoms=(["writable", "only", "shared"], lambda d: True))
    for j in F.fns(BASE + "::isOnlyRef"):
        returns(c, "writable", F, j, wleaf, lambda d: Or(d.get("only"), Not(d.get("valid"))), atoms=(["only", "valid", "?count"], lambda d: True))
    for j in F.fns(BASE + "::getTargetWr"):
        g = build(F, j, lambda c2, t: False)
        al = Alias(g)
        T = Table(g, lambda e: wleaf(al, e), al=al)
        bad = []

        def event(ex, d, n):
            t = n.ev
            if t[0] == "call" and last(t[1]) in ("privatize",):
                return 1
            if t[0] == "ret" and t[1] is not None and not ex:
                if d.get("direct") is not True and Or(And(d.get("writable"), d.get("only")), d.get("shared")) is not True:
                    bad.append(n.line)
            return ex
        T.run(event, init=0)
        c.site("write-access", j["q"], "returns the target")
        if bad:
            c.bad("write-access", j["q"], "target", j["f"], bad[0], "hands out the target for writing although other references may see it")
    seen = set()
    for j in F.all():
        if not j["q"].startswith("DMI::CountedRef::"):
            continue
        nm = last(j["q"])
        ret = j.get("ret", "").strip()
        if j.get("const") or (j["f"], j["l"], nm) in seen or ret.startswith("const ") or not ret.endswith(("*", "&")) or "CountedRef" in ret:
            continue
        seen.add((j["f"], j["l"], nm))
        g = build(F, j, inline_class("DMI::CountedRef"), access=lambda q: True)
        al = Alias(g)
        rets = [n for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "ret" and n.ev[1] is not None]
        calls = {last(x[1]) for n in g.nodes if n.ev is not None for x in walk(n.ev) if x[0] == "call"}
        raw = [n for n in rets if any(x[0] == "m" and last(x[2]) == "target_" or x[0] == "call" and last(x[1]) in ("getTarget", "deref", "deref_p") for x in expand(al, n.ev[1]))]
        c.site("write-access", j["q"], nm)
        if raw and "privatize" not in calls and "getTargetWr" not in calls:
            c.bad("write-access", j["q"], nm, j["f"], raw[0].line, "hands out the target for writing without making sure that no other reference sees it")
    for j in F.fns(BASE + "::privatize"):
        g = build(F, j, lambda c2, t: False)
        al = Alias(g)
        T = Table(g, lambda e: wleaf(al, e), al=al)
        bad = {}
        ps = [p[0] for p in j["params"]]

        def event(ex, d, n):
            t = n.ev
            cl, wr = ex
            if t[0] == "call" and last(t[1]) in ("cloneTarget", "clone"):
                args = [al(x) for x in t[3]]
                if len(args) >= 2:
                    if not any(x == ("v", ps[0]) for x in walk(args[0])):
                        bad["flags"] = (n.line, "the flags are not passed on to the copy")
                    a1 = strip_cast(args[1])
                    if not any(x == ("v", ps[1]) for x in walk(a1)):
                        bad["depth"] = (n.line, "the depth is not passed on to the copy")
                return (1, wr)
            if t[0] == "asg" and own(t[2], "writable_"):
                return (cl, strip_cast(t[3])[0] == "lit" and bool(strip_cast(t[3])[1]))
            return ex

        def at_exit(ex, d, n):
            cl, wr = ex
            if d.get("valid") is False:
                return
            if not cl and And(d.get("anon"), d.get("only"), d.get("writable"), Not(d.get("depth")), Not(d.get("deep"))) is not True:
                miss = [w for k, w in (("anon", "the target is not owned by its references"), ("only", "other references share the target"), ("writable", "the reference is not writable")) if d.get(k) is not True]
                miss += [w for k, w in (("depth", "a depth was given"), ("deep", "a deep copy was asked for")) if d.get(k) is not False]
                bad.setdefault("skip", (n.line or j["l"], "no private copy is made on a path where it may be that " + ", or ".join(miss)))
            if wr is not True:
                bad.setdefault("writable", (n.line or j["l"], "the reference is not made writable after its target became private"))
        T.run(event, init=(0, False), at_exit=at_exit)
        c.site("privatize", j["q"], "paths to the exit")
        for k, (line, msg) in sorted(bad.items()):
            c.bad("privatize", j["q"], k, j["f"], line, msg)
    for nm in ("copy", "xfer"):
        for j in F.fns(BASE + "::" + nm):
            deep(c, F, j)
    c.expect("writable", 2)
    c.expect("write-access", 4)
    c.expect("privatize", 3)


def deep(c, F, j):
    """copy/xfer with a deep copy asked for end in privatize; the properties of an ordinary copy come from the other reference"""
    g = build(F, j, lambda c2, t: False)
    al = Alias(g)
    if not any(n.kind == "ev" and n.ev is not None and n.ev[0] == "asg" and own(n.ev[2], "target_") for n in g.nodes):
        return
    T = Table(g, lambda e: wleaf(al, e), al=al)
    bad = {}

    def event(ex, d, n):
        t = n.ev
        s, priv, wr = ex
        if t[0] == "asg" and own(t[2], "target_"):
            return (1, 0, None)
        if t[0] == "call" and last(t[1]) in ("privatize", "copy", "xfer", "empty") and (last(t[1]) != "empty" or t[2] is None or strip_cast(t[2]) == ("this",)) and (t[2] is None or strip_cast(t[2]) == ("this",)):
            return (s if last(t[1]) == "privatize" else 0, 1, wr)
        if t[0] == "asg" and own(t[2], "writable_"):
            return (s, priv, any(isf(x, "writable_") for x in walk(t[3])) or strip_cast(t[3])[0] == "lit" and not strip_cast(t[3])[1])
        return ex

    def at_exit(ex, d, n):
        s, priv, wr = ex
        if not s or priv:
            return
        if Or(d.get("deep"), d.get("depth")) is not False:
            bad.setdefault("deep", (n.line or j["l"], "the target is still shared at the end of a path where a deep copy may have been asked for"))
        if wr is None:
            bad.setdefault("writable", (n.line or j["l"], "the copy is writable or not regardless of the reference it was made from"))
        elif not wr:
            bad.setdefault("writable", (n.line or j["l"], "the copy of a read-only reference becomes writable"))
    try:
        T.run(event, init=(0, 0, None), at_exit=at_exit)
    except Broken:
        return
    c.site("privatize", j["q"], "deep copies and properties")
    for k, (line, msg) in sorted(bad.items()):
        c.bad("privatize", j["q"], "copy-" + k, j["f"], line, msg)


# ---------------------------------------------------------------- clones

def bases(F, q):
    out = []
    for b in F.classes.get(q, {}).get("bases", []):
        b = b if isinstance(b, str) else b[0] if isinstance(b, (tuple, list)) else b.get("n")
        b = b.replace("class ", "").replace("public ", "").strip()
        out.append(b)
    return out


def nearest(F, q, name="clone", d=0):
    """the class whose clone() an object of class q gets"""
    k = F.classes.get(q)
    if k is None or d > 12:
        return None
    for m in k["methods"]:
        if m["n"] == name and not m["pure"]:
            return q
        if m["n"] == name and m["pure"]:
            return None
    for b in bases(F, q):
        r = nearest(F, b, name, d + 1)
        if r:
            return r
    return None


def abstract(F, q):
    return any(m["pure"] for m in F.classes[q]["methods"])


def clones(c, F):
    c.rule("own-clone", "every class of objects that references can point to, unless its objects cannot be cloned at all, has a clone() of its own that makes an object of this class from the object itself and passes flags and depth on")
    c.rule("clone-parts", "a clone carries over the references held by the original, by copying them with the flags and depth asked for")
    bodies = {}
    for j in F.all():
        if last(j["q"]) == "clone":
            bodies.setdefault(j["q"].rsplit("::", 1)[0], j)
    throwing = set()
    for q, j in bodies.items():
        g = build(F, j, lambda c2, t: False)
        news = [x for n in g.nodes if n.kind == "ev" and n.ev is not None for x in walk(n.ev) if x[0] == "new" and not any(y[0] == "throw" for y in walk(n.ev))]
        if not reaches_exit(g):
            throwing.add(q)
            continue
        if q not in F.classes:
            continue
        if q in exempt(F):
            continue
        ps = [p[0] for p in j["params"] if p[0]]
        ok = [x for x in news if last(x[1]) == last(q)]
        c.site("own-clone", j["q"], "new " + ", ".join(sorted({last(x[1]) for x in news})))
        if news and not ok:
            c.bad("own-clone", j["q"], "class", j["f"], j["l"], f"the clone of a {last(q)} is made as a {last(news[0][1])}")
            continue
        al = Alias(g)
        for x in ok:
            src = [y for y in walk(al.full(x)) if y == ("this",)]
            if not src:
                # filled afterwards: something of the new object is called with this object
                if not any(n.kind == "ev" and n.ev is not None and n.ev[0] in ("call", "asg") and any(y == ("this",) for a2 in (n.ev[3] if n.ev[0] == "call" else (n.ev[3],)) for y in walk(a2)) for n in g.nodes):
                    c.bad("own-clone", j["q"], "source", j["f"], j["l"], "the clone is not made from the object itself")
            if len(j["params"]) >= 2 and last(q) not in ("TableFormat",):
                used = {y[1] for n in g.nodes if n.ev is not None for y in walk(n.ev) if y[0] == "v"}
                want = [p[0] for p in j["params"][:1 if last(q) == "SmartBlock" else 2]]
                for w in want:
                    if w not in used:
                        c.bad("own-clone", j["q"], "depth", j["f"], j["l"], f"the clone is made without regard to the {'flags' if w == want[0] else 'depth'} asked for: a deep copy still shares its contents")
    for q in sorted(F.subclasses("DMI::CountedRefTarget")):
        if q in exempt(F) or abstract(F, q) or q not in F.classes:
            continue
        if any(m["n"] == "clone" for m in F.classes[q]["methods"]):
            continue
        at = nearest(F, q)
        if at is None or at in throwing or at not in bodies:
            continue
        c.site("own-clone", q, "inherits the clone of " + at)
        f, l = where(F, q)
        c.bad("own-clone", q, "inherited", f, l, f"objects of class {last(q)} are cloned by {last(at)}, as a {last(at)}: a private copy loses the class and its contents")
    parts(c, F)
    c.expect("own-clone", 12)
    c.expect("clone-parts", 4)


def where(F, q):
    for j in F.all():
        if j["q"].startswith(q + "::"):
            return j["f"], j["l"]
    return "?", 0


def exempt(F):
    if not hasattr(F, "_single"):
        F._single = set(F.subclasses("DMI::SingularRefTarget")) | {"DMI::SingularRefTarget"}
    return F._single


def reaches_exit(g):
    hit = []

    def step(a, n, facts):
        if n.kind == "exit":
            hit.append(1)
        return [a]
    try:
        run(g, 0, step, only=lambda f: False)
    except Broken:
        return True
    return bool(hit)


def isreft(t):
    t = t.replace("const ", "").strip()
    return t.startswith("DMI::CountedRef<") and t.endswith(">") or t.endswith("::Ref") or t in ("DMI::BlockRef", "DMI::ObjRef", "BlockRef", "ObjRef")


def parts(c, F):
    for q in sorted(F.subclasses("DMI::CountedRefTarget")):
        k = F.classes.get(q)
        if not k or q in exempt(F):
            continue
        refs = [f for f in k["fields"] if isreft(ftype(f))]
        if not refs:
            continue
        mk = [j for j in F.all() if j["q"].rsplit("::", 1)[0] == q and last(j["q"]) in ("cloneOther", "(ctor)", "operator=") and j["params"] and j["params"][0][1].replace(" ", "") in ("const" + q + "&",) and any(p[1] == "int" for p in j["params"][1:])]
        for j in mk:
            src = j["params"][0][0]
            fl = [p[0] for p in j["params"][1:] if p[1] == "int"]
            g = build(F, j, inline_class(q), access=lambda x: True)
            al = Alias(g)
            got = {}
            deleg = False
            for n in g.nodes:
                t = n.ev
                if n.kind != "ev" or t is None:
                    continue
                if t[0] == "call" and last(t[1]) in ("cloneOther", "operator=") and (t[2] is None or strip_cast(t[2]) == ("this",)) and t[3] and pp(strip_cast(t[3][0])) == src:
                    deleg = deleg or t[1].startswith(q)
                for f, args in copies(t):
                    got.setdefault(f, []).append((n.line, {x[1] for a2 in args for x in walk(al.full(a2)) if x[0] == "v"}, args))
            if deleg or not got:
                continue
            for f in refs:
                nm = fname(f)
                if nm not in got:
                    continue
                c.site("clone-parts", j["q"], nm)
                if all(src in vs and not (set(fl) & vs) for l, vs, a2 in got[nm]) and len(fl) >= 2 and last(q) not in ("TableFormat",) and not shared_by_design(q, nm):
                    c.bad("clone-parts", j["q"], nm, j["f"], got[nm][0][0], f"{nm} is copied without the flags and depth asked for: a deep copy still shares it with the original")


def shared_by_design(q, nm):
    # formats are never written through a tile (attached read-only)
    return nm in ("format_",)


def ftype(f):
    return f[1] if isinstance(f, (tuple, list)) else f.get("t", f.get("type", ""))


def fname(f):
    return last(f[0] if isinstance(f, (tuple, list)) else f.get("n"))


def copies(t):
    """(field, arguments) of the copies made into reference members of this object"""
    if t[0] == "call" and last(t[1]) in ("copy", "xfer", "operator=") and t[2] is not None:
        o = strip_cast(t[2])
        while o[0] == "call" and last(o[1]) in ("lock", "unlock") and o[2] is not None:
            o = strip_cast(o[2])
        if o[0] == "m" and strip_cast(o[1]) == ("this",):
            yield last(o[2]), t[3]
    elif t[0] == "init" and len(t) > 2 and isinstance(t[1], str):
        yield last(t[1]), (t[2],)


# ---------------------------------------------------------------- writing through an old access after a copy

WR = {"dewr", "dewr_p", "operator()", "operator<<=", "as"}


def wracc(t):
    """the reference whose target an expression gives write access to"""
    if t[0] == "call" and t[1].startswith("DMI::CountedRef::") and last(t[1]) in WR and t[2] is not None and "c" not in t[4] and not t[5].startswith("const"):
        return strip_cast(t[2])
    return None


def rname(r):
    if r[0] == "v":
        return r[1]
    if r[0] == "m" and strip_cast(r[1]) == ("this",):
        return "this." + last(r[2])
    return None


def root(t, ptrs):
    """the reference through whose write access an object is reached"""
    while t is not None:
        t = strip_cast(t)
        w = wracc(t)
        if w is not None:
            return rname(w)
        if t[0] == "v" and t[1] in ptrs:
            t = ptrs[t[1]]
        elif t[0] in ("m", "idx"):
            t = t[1]
        elif t[0] == "un" and t[1] in ("*", "&"):
            t = t[2]
        elif t[0] == "call" and t[2] is not None and "c" not in t[4]:
            t = t[2]
        else:
            return None


def plain(args):
    """not a transfer, not a deep copy"""
    for a in args:
        for x in walk(a):
            if x[0] in ("enum", "g") and last(x[1]) in ("XFER", "DEEP"):
                return False
    return not (len(args) > 1 and strip_cast(args[1])[0] == "lit" and isinstance(strip_cast(args[1])[1], int) and strip_cast(args[1])[1] & 0x5000)


def copied(t):
    if t[0] == "ctor" and t[1].startswith("DMI::CountedRef") and t[2]:
        return rname(strip_cast(t[2][0])) if plain(t[2]) else None
    if t[0] == "call" and t[1].startswith("DMI::CountedRef") and last(t[1]) in ("copy", "operator="):
        if not plain(t[3]):
            return None
        a = strip_cast(t[3][0]) if t[3] else None
        if a is not None and rname(a):
            return rname(a)
        if last(t[1]) == "copy" and (a is None or not rname(a)) and t[2] is not None:
            return rname(strip_cast(t[2]))
    return None


def stale(c, F):
    c.rule("stale-write", "an object is not modified through write access that was obtained from a reference before that reference was copied: the copy sees the change")
    seen = set()
    for j in F.all():
        k = (j["q"], j["f"], j["l"])
        if k in seen or j["f"].startswith("DMI/src/CountedRef"):
            continue
        seen.add(k)
        g = build(F, j, None)
        evs = [n.ev for n in g.nodes if n.kind == "ev" and n.ev is not None]
        cps = {copied(t) for t in evs} - {None}
        if not cps:
            continue
        # pointers and references to what a write access gave
        ptrs = {}
        for t in evs:
            if t[0] == "decls":
                for d in t[1:]:
                    if d[3] is not None and ("*" in d[2] or "&" in d[2]) and not d[2].startswith("const"):
                        ptrs[d[1]] = d[3]
        ws = {rname(w) for t in evs for x in walk(t) for w in [wracc(x)] if w is not None} - {None}
        for R in sorted(cps & ws):
            bad = {}
            held = {v for v in ptrs if root(("v", v), ptrs) == R}

            def step(a, n, facts, R=R):
                t = n.ev
                if n.kind != "ev" or t is None:
                    return [a]
                w = wracc(t)
                if w is not None and rname(w) == R:
                    return [(1, 0)]
                if t[0] == "decls" and any(d[1] in held for d in t[1:]):
                    return [(1, 0)]
                if copied(t) == R:
                    return [(2, n.line)] if a[0] >= 1 else [a]
                if t[0] == "call" and t[2] is not None and rname(strip_cast(t[2])) == R and last(t[1]) in ("detach", "xfer", "privatize"):
                    return [(0, 0)]
                if a[0] == 2:
                    o = None
                    if t[0] == "call" and t[2] is not None and "c" not in t[4]:
                        o = root(t[2], ptrs)
                    elif t[0] == "asg" and strip_cast(t[2])[0] != "v":
                        o = root(t[2], ptrs)
                    if o == R:
                        bad.setdefault(n.line, a[1])
                return [a]
            try:
                run(g, (0, 0), step, only=lambda f: False, maxstates=20000)
            except Broken:
                continue
            c.site("stale-write", j["q"], R)
            for l, c2 in sorted(bad.items()):
                c.bad("stale-write", j["q"], R, j["f"], l, f"modifies the object through write access obtained before {R} was copied at line {c2}: the copy is modified too")
    c.site("stale-write", "whole program", f"{len(seen)} functions")
    c.expect("stale-write", 5)


# ---------------------------------------------------------------- pointers cached into a shared block

PAIRS = [("DMI::NumArray", "itsData", "itsArrayData"), ("DMI::Vec", "headref_", "phead_"), ("VisCube::ColumnarTableTile", "datablock", "pdata")]
CHANGE = {"privatize", "dewr", "dewr_p", "operator()", "operator<<=", "copy", "xfer", "attach", "operator=", "pop"}


def reft(t, R):
    o = strip_cast(t) if t else None
    while o is not None and o[0] == "call" and last(o[1]) in ("lock", "unlock") and o[2] is not None:
        o = strip_cast(o[2])
    return own(o, R)


def caches(c, F):
    c.rule("cached-pointer", "a pointer kept into a block that is held by reference is set again whenever the reference may have come to refer to another block")
    c.rule("block-write", "data in a block that is held by reference is handed out for writing, or written, only after the block was made private")
    for cls in sorted(F.classes):
        for m in F.classes[cls]["methods"]:
            if m["n"] != "makeWritable" or m["virt"]:
                continue
            for d in sorted(F.subclasses(cls)):
                if d != cls and d in F.classes and any(x["n"] == "makeWritable" and x["sig"] == m["sig"] for x in F.classes[d]["methods"]):
                    f, l = where(F, d)
                    c.bad("cached-pointer", d + "::makeWritable", "hidden", f, l, f"{last(cls)} makes its block private without {last(d)}::makeWritable being called: what {last(d)} keeps into the block stays in the old one")
    for cls, R, P in PAIRS:
        if cls not in F.classes or not {R, P} <= {fname(f) for f in F.classes[cls]["fields"]}:
            continue
        for j in F.all():
            if j["q"].rsplit("::", 1)[0] != cls:
                continue
            cached(c, F, j, cls, R, P)
            blockwrite(c, F, j, cls, R, P)
    c.expect("cached-pointer", 8)
    c.expect("block-write", 6)


def cached(c, F, j, cls, R, P):
    g = build(F, j, inline_class(cls), access=lambda q: True)
    al = Alias(g)

    def changes(t):
        if t[0] == "call" and last(t[1]) in CHANGE and t[2] is not None and reft(t[2], R) and "c" not in t[4]:
            return last(t[1])
        if t[0] == "call" and last(t[1]) in ("pop", "popMove") and t[3] and reft(t[3][0], R):
            return "pop"
        return None
    if not any(n.kind == "ev" and n.ev is not None and changes(n.ev) for n in g.nodes):
        return
    bad = {}
    fresh = {d[1] for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "decls" for d in n.ev[1:] if d[3] is not None and any(x[0] == "new" and last(x[1]) == "SmartBlock" for x in walk(d[3]))}

    def leafcall(e):
        e = strip_cast(e)
        return e[0] == "call" and last(e[1]) in ("privatize", "isDirectlyWritable") and e[2] is not None and reft(e[2], R)

    def on(a, e, truth, n):
        e = strip_cast(e)
        if e[0] == "v" and e[1] in al.dec:
            e = strip_cast(al(e))
        st, ow, pset, va = a
        if leafcall(e):
            if last(e[1]) == "privatize" and not truth:
                return (None, True, pset, va)
            if last(e[1]) == "isDirectlyWritable" and truth:
                return (st, True, pset, va)
        if e[0] == "call" and last(e[1]) == "valid" and e[2] is not None and reft(e[2], R):
            if va is not None and va != bool(truth):
                return None
            return (st if truth else None, ow, pset, bool(truth))
        return a

    def step(a, n, facts):
        st, ow, pset, va = a
        t = n.ev
        if n.kind == "exit":
            if st:
                bad.setdefault(st, n.line)
            return [a]
        if n.kind == "excexit" or n.kind != "ev" or t is None:
            return [a]
        k = changes(t)
        if k:
            if k in ("dewr", "dewr_p", "operator()", "privatize") and ow:
                return [a]
            new = k not in ("copy", "pop", "operator=", "xfer") or k == "xfer" and t[3] and rname(strip_cast(t[3][0])) in fresh
            # the pointer was already set into the block that comes in
            return [(None if pset and k in ("copy", "xfer", "operator=", "attach", "operator<<=") else n.line, new, False, None)]
        if t[0] == "call" and last(t[1]) == "detach" and t[2] is not None and reft(t[2], R):
            return [(None, False, False, False)]
        if t[0] == "call" and last(t[1]) == "makeWritable" and (t[2] is None or strip_cast(t[2]) == ("this",)):
            return [(st, True, pset, va)]
        if t[0] == "asg" and (own(t[2], P) or strip_cast(t[2])[0] == "idx" and own(strip_cast(t[2])[1], P)):
            return [(None, ow, True, va)]
        if t[0] == "call" and (t[2] is not None and own(t[2], P) and "c" not in t[4] or any(own(x, P) or x[0] == "un" and x[1] == "&" and own(x[2], P) for x in map(strip_cast, t[3])) and last(t[1]) not in ("memcpy", "memset")):
            return [(None, ow, True, va)]
        return [a]
    try:
        run(g, (None, False, False, None), step, only=lambda f: False, branch=brancher(on, al), maxstates=60000)
    except Broken:
        return
    c.site("cached-pointer", j["q"], P)
    for l, x in sorted(bad.items()):
        c.bad("cached-pointer", j["q"], P, j["f"], l, f"{R} may refer to another block after this, and {P} still points into the old one when the function returns")


def intoP(t, P, al):
    """a location inside the block, reached through the cached pointer"""
    t = strip_cast(t)
    d = 0
    while t is not None and d < 12:
        d += 1
        if t[0] == "v" and t[1] in al.dec:
            t = strip_cast(al.dec[t[1]])
            continue
        if t[0] == "m":
            if own(t, P):
                return True
            t = strip_cast(t[1])
        elif t[0] == "idx":
            t = strip_cast(t[1])
        elif t[0] == "un" and t[1] in ("*", "&"):
            t = strip_cast(t[2])
        elif t[0] == "bin" and t[1] in ("+", "-"):
            t = strip_cast(t[2])
        elif t[0] == "call" and last(t[1]) == "operator[]" and t[2] is not None:
            t = strip_cast(t[2])
        elif t[0] == "call" and last(t[1]) == "operator[]" and t[3]:
            t = strip_cast(t[3][0])
        else:
            return False
    return False


def n_calls(x, j):
    return x[0] == "call" and x[1] == j["q"] and len(x[3]) == len(j["params"])


def blockwrite(c, F, j, cls, R, P, called=None):
    nm = last(j["q"])
    if nm in ("(ctor)", "(dtor)"):
        return
    g = build(F, j, lambda c2, t: False)
    al = Alias(g)
    ret = j.get("ret", "").replace(" ", "")
    out = ret.endswith("*") and not ret.startswith("const")
    const = bool(j.get("const"))

    def target(t):
        if called:
            return "handed out" if n_calls(t, called) else None
        if t[0] == "ret" and out and t[1] is not None and intoP(t[1], P, al):
            return "handed out"
        if t[0] == "asg" and strip_cast(t[2])[0] == "m" and last(strip_cast(t[2])[2]) == "ptr" and intoP(t[3], P, al):
            return "handed out"
        if t[0] == "asg" and not own(t[2], P) and strip_cast(t[2])[0] in ("m", "idx", "un") and intoP(t[2], P, al) and not const:
            o = strip_cast(t[2])
            if o[0] == "idx" and own(o[1], P) or o[0] == "call":
                return None
            return "written"
        if t[0] == "call" and last(t[1]) in ("memcpy", "memmove", "memset") and t[3] and intoP(t[3][0], P, al) and not const:
            return "written"
        return None
    if not any(n.kind == "ev" and n.ev is not None and target(n.ev) for n in g.nodes):
        return
    bad = {}

    def classify(e):
        e = strip_cast(al(e))
        if e[0] == "bin" and e[1] == "&":
            m = [x for x in map(strip_cast, e[2:4]) if x[0] in ("lit", "enum")]
            v = m[0][1] if m and m[0][0] == "lit" else m[0][2] if m and len(m[0]) > 2 else None
            if isinstance(v, int) and v & 2:
                return ("write", True) if v == 2 else ("write+", True)
        if e[0] == "call" and last(e[1]) == "isDirectlyWritable" and e[2] is not None and reft(e[2], R):
            return ("direct", True)
        return None
    T = Table(g, classify, al=al)

    def event(ex, d, n):
        t = n.ev
        if t[0] == "call" and (last(t[1]) == "makeWritable" or t[2] is not None and reft(t[2], R) and last(t[1]) in ("privatize", "operator()", "dewr", "dewr_p", "operator<<=", "attach")):
            return 1
        if t[0] == "call" and last(t[1]) in ("makeNewHeader", "init") or t[0] == "new" and last(t[1]) == "SmartBlock":
            return 1
        k = target(t)
        if k and not ex and d.get("direct") is not True and not (k == "handed out" and (d.get("write") is False or d.get("write+") is False)):
            bad.setdefault(k, n.line)
        return ex
    try:
        T.run(event, init=0)
    except Broken:
        return
    c.site("block-write", j["q"], P)
    if bad and not called and not const and not any(t is not None and (t[0] == "call" and last(t[1]) in ("makeWritable", "privatize") or t[0] == "asg") for n in g.nodes for t in [n.ev]):
        # an accessor that leaves it to its callers
        for j2 in F.all():
            if j2 is not j and any(n_calls(x, j) for b in [build(F, j2, lambda c2, t: False)] if last(j["q"]) in str(j2) for n in b.nodes if n.ev is not None for x in walk(n.ev)):
                blockwrite(c, F, j2, cls, R, P, called=j)
        return
    for k, l in sorted(bad.items()):
        c.bad("block-write", j["q"], k, j["f"], l, f"data of the block is {k} through {P} without the block having been made private: other references to the block see the change")
