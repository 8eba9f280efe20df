"""P07: the visibility stream: how header, tiles and footer of a data set travel through the data mux, its spigots and sinks."""
from rules import *
import lockset as LS
from branching import *
from tables import *
from ir import pp, walk, last, strip_cast

DIRS = ['MeqServer/src/', 'MEQ/src/']
ASSUMPTIONS = ["the handlers' and channels' own functions do what their names say (the channels are other properties)",
               "the set of handlers does not change while a data set is being read",
               "sequence numbers and data numbers are those the channel reports"]
MUX = "Meq::VisDataMux"


def check(c):
    F = c.load(DIRS)
    for k, v in dict(index="the mux's per-baseline tables are read only at a number known to lie within them, and are never made shorter",
                     slices="the first tile of a new time slice closes the open slice, opens the new one and is recorded and delivered in that order; tiles of the same slice are only recorded and delivered; a tile is passed over only if no handler can want it or the tile limit is reached",
                     handlers="header, footer and tile are handed to every handler of the set, whatever happened with the one before",
                     errors="every exception and every failed child is recorded, and recorded errors reach the caller",
                     request="a slice's request carries the next request number, which is then moved on once, and the tile marks are cleared",
                     evaluate="at the end of a slice all children are disabled, exactly those with a tile enabled, then all are awaited; an updated tile goes out once, after the header, which goes out once",
                     footer="the footer closes an open slice first and goes to the output; the header starts a new data set",
                     dispatch="data and footer are accepted only between a header and its footer, a header only outside; each is passed on once, and the opening of a stream is always followed by its closing",
                     channels="an input that had errors has its channels aborted and the result fails",
                     sink="a sink uses only a tile that belongs to the request, writes only correlations the tile has, only values of a good result, and hands on the tile exactly if written",
                     spigot="a spigot queues one result per tile under the tile's request, reads only correlations the tile has, and answers with the first queued result that matches").items():
        c.rule(k, v)
    index(c, F)
    slices(c, F)
    handlers(c, F)
    errors(c, F)
    request(c, F)
    evaluate(c, F)
    header_footer(c, F)
    dispatch(c, F)
    sink(c, F)
    spigot(c, F)


def fns(F, cls, *nms):
    return [j for j in F.all() if j["q"].startswith(cls + "::") and (not nms or last(j["q"]) in nms)]


def mem(t, *nms):
    t = strip_cast(t) if t is not None else None
    while t is not None and t[0] in ("call", "ctor") and (t[0] == "ctor" and len(t[2]) == 1 or t[0] == "call" and last(t[1]) in ("operator*", "operator->", "deref", "dewr", "operator()") and t[2] is not None and not t[3]):
        t = strip_cast(t[2][0] if t[0] == "ctor" else t[2])
    return t is not None and t[0] == "m" and last(t[2]) in nms


def callof(t, *nms):
    return t is not None and t[0] == "call" and last(t[1]) in nms


def evs(g):
    for n in g.nodes:
        if n.kind == "ev" and n.ev is not None:
            yield n


def has_call(g, *nms):
    return any(callof(n.ev, *nms) for n in evs(g))


def sources(g):
    """catch clause -> the calls whose exceptions reach it"""
    src = {}
    for n in g.nodes:
        if n.kind != "ev" or n.ev is None or n.ev[0] not in ("call", "ctor"):
            continue
        todo, seen = [(n, 0)], set()
        while todo:
            m, dp = todo.pop()
            for s2, lab in m.succ:
                if s2.id in seen or dp > 6:
                    continue
                seen.add(s2.id)
                if s2.kind == "catch":
                    src.setdefault(s2.id, []).append(n)
                elif s2.kind == "nop" and (dp or s2.line == 0) or dp and s2.kind == "ev" and s2.ev is not None and s2.ev[0] == "dtor":
                    todo.append((s2, dp + 1))
    return src


def vars_of(t):
    return {x[1] for x in walk(t) if x[0] == "v"}


def setvars(t):
    """variables that an event declares or changes"""
    if t[0] == "decls":
        return {d[1] for d in t[1:]}
    if t[0] == "asg" and strip_cast(t[2])[0] == "v":
        return {strip_cast(t[2])[1]}
    v = advanced(t)
    return {v} if v else set()


# ---------------------------------------------------------------- per-baseline tables

STEPS = ("deliverTile", "deliverHeader", "deliverFooter", "startSnippet", "endSnippet", "pollChildren", "checkChildren")
TABLES = ("handlers_", "child_indices_", "have_tile_")


def sizeof(t):
    t = strip_cast(t)
    if callof(t, "size") and mem(t[2], *TABLES):
        return last(strip_cast(t[2])[2])
    return None


def linear(t):
    """(expression without a positive constant, constant)"""
    t = strip_cast(t)
    if t[0] == "bin" and t[1] == "+":
        for a, b in ((t[2], t[3]), (t[3], t[2])):
            b = strip_cast(b)
            if b[0] == "lit" and isinstance(b[1], int) and b[1] >= 0:
                return pp(strip_cast(a)), b[1]
    return pp(t), 0


def index(c, F):
    for j in fns(F, MUX):
        g = build(F, j, lambda c2, t: inline_class(MUX)(c2, t) and last(t[1]) not in STEPS, access=lambda q: True)
        al = Alias(g)
        unsigned = {p[0] for p in j["params"] if p[1].startswith("unsigned")} | {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if "unsigned" in d[2] or d[2] in ("size_t", "uint")}
        loopvars = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[3] is not None and strip_cast(d[3])[0] == "lit" and strip_cast(d[3])[1] == 0}

        def full(t):
            t = strip_cast(t)
            for _ in range(4):
                if t[0] == "v" and t[1] in al.dec and al.dec[t[1]] is not None and strip_cast(al.dec[t[1]])[0] == "v" and not strip_cast(al.dec[t[1]])[1].startswith("rv"):
                    t = strip_cast(al.dec[t[1]])
            return t

        def classify(e):
            e = strip_cast(e)
            if e[0] != "bin" or e[1] not in ("<", ">", "<=", ">=", "=="):
                return None
            op, x, y = e[1], e[2], e[3]
            if sizeof(al(x)) and not sizeof(al(y)):
                op, x, y = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op), y, x
            s = sizeof(al(y))
            if s:
                k = pp(full(x))
                if op in ("<", ">="):
                    return (f"in:{s}:{k}", op == "<")
                if op in ("<=", ">"):
                    return (f"le:{s}:{k}", op == "<=")
            y2 = strip_cast(y)
            if op in ("<", ">=") and y2 == ("lit", 0) or op in ("<=", ">") and y2[0] == "lit" and y2[1] == -1:
                return (f"nn:{pp(full(x))}", op in (">=", ">"))
            return None
        T = Table(g, classify, al=al)
        bad, good = {}, set()

        def event(ex, d, n):
            t = n.ev
            ctor = last(j["q"]) in ("VisDataMux", "(ctor)")
            up = {}
            for v in setvars(t):
                for k in d:
                    if k[:3] in ("in:", "le:", "nn:") and v in k.split(":", 2)[-1].replace("+", " ").replace("(", " ").replace(")", " ").split():
                        up[k] = None
            if callof(t, "resize", "assign") and mem(t[2], *TABLES):
                s = last(strip_cast(t[2])[2])
                e = t[3][0]
                k, extra = linear(e)
                if extra == 0 and al.dec.get(k) is not None and strip_cast(al.dec[k])[0] == "bin":
                    k, extra = linear(al.dec[k])
                whole = pp(full(e))
                if s == "have_tile_":
                    if sizeof(al(e)) == "handlers_":
                        good.add((n.line, s))
                    else:
                        bad.setdefault((s, "short"), (n.line, "the tile marks are not given one entry per data number of the handler table"))
                elif not ctor and not any(v is False and nm.split(":", 2)[1] == s and (nm.startswith("in:") and nm[3:] in (f"{s}:{k}", f"{s}:{whole}") or nm == f"le:{s}:{whole}") for nm, v in d.items() if nm[:3] in ("in:", "le:")) and not any(callof(x, "max") and any(sizeof(y) == s for y in x[3]) for x in expand(al, e)):
                    bad.setdefault((s, "shrunk"), (n.line, f"{s} may be made shorter than it is, which drops handlers that were registered"))
                else:
                    good.add((n.line, s))
                if s != "have_tile_":
                    up[f"in:{s}:{k}"] = True if extra > 0 else None
                    up[f"in:{s}:{whole}"] = None if extra == 0 else up.get(f"in:{s}:{whole}")
            for x in walk(t):
                if callof(x, "operator[]", "at") and x[2] is not None and mem(x[2], *TABLES) or x[0] == "idx" and mem(x[1], *TABLES):
                    if x is not t and not (x[0] == "idx"):
                        continue
                    s = last(strip_cast(x[2] if x[0] == "call" else x[1])[2])
                    i = x[3][0] if x[0] == "call" else x[2]
                    k = pp(full(i))
                    ok = d.get(f"in:{s}:{k}") is True or s == "have_tile_" and d.get(f"in:handlers_:{k}") is True
                    nn = d.get(f"nn:{k}") is True or k in unsigned or k in loopvars
                    if callof(x, "at"):
                        continue
                    if not ok:
                        bad.setdefault((s, k), (n.line, f"{s} is read at {k}, which need not lie below its size"))
                    elif not nn:
                        bad.setdefault((s, k), (n.line, f"{s} is read at {k}, which may be negative"))
                    else:
                        good.add((n.line, s))
            return Upd(ex, up) if up else ex
        T.run(event)
        for line, s in sorted(good):
            c.site("index", f"{j['f']}:{line}", f"{last(j['q'])}: {s}")
        for (s, k), (line, msg) in bad.items():
            c.bad("index", j["q"], f"{s}:{k}", j["f"], line, msg)
    for j in fns(F, MUX, "fillCells"):
        g = build(F, j, inline_class(MUX), access=lambda q: True)
        al = Alias(g)
        up0 = {strip_cast(n.ev[2])[1] for n in evs(g) if n.ev[0] == "asg" and strip_cast(n.ev[2])[0] == "v" and strip_cast(n.ev[3]) == ("lit", 0)} | {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[3] is not None and strip_cast(d[3]) == ("lit", 0)}
        up0 &= {advanced(n.ev) for n in evs(g)}

        def rows(e):
            e = strip_cast(e)
            if e[0] == "bin" and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[1] in up0 and names(al, e[3]) & {"nrow", "nrow_"}:
                if e[1] in ("<", ">=", "!=", "=="):
                    return ("row@" + strip_cast(e[2])[1], e[1] in ("<", "!="))
            return None
        bad = {}

        def ev2(ex, d, n):
            t = n.ev
            if callof(t, "time", "interval", "timeslot", "operator()") and len(t[3]) == 1 and strip_cast(t[3][0])[0] == "v" and strip_cast(t[3][0])[1] in up0:
                if d.get("row@" + strip_cast(t[3][0])[1]) is not True:
                    bad.setdefault("rows", (n.line, "a row of the tile is read that need not exist"))
            return ex
        Table(g, rows, al=al).run(ev2, 0)
        c.site("index", f"{j['f']}:{j['l']}", "rows of the tile")
        for k, (line, msg) in bad.items():
            c.bad("index", j["q"], k, j["f"], line, msg)
    c.expect("index", 6)


# ---------------------------------------------------------------- time slices

def slices(c, F):
    for j in fns(F, MUX, "deliverTile"):
        g = build(F, j, inline_class(MUX), access=lambda q: True)
        al = Alias(g)

        def classify(e):
            e = strip_cast(e)
            if e[0] == "bin" and e[1] in ("==", "!=", ">=", ">", "<", "<="):
                a, b = strip_cast(e[2]), strip_cast(e[3])
                if mem(b, "current_seqnr_") and not mem(a, "current_seqnr_"):
                    a, b = b, a
                if mem(a, "current_seqnr_"):
                    if b[0] == "lit":
                        if (e[1], b[1]) in ((">=", 0), ("!=", -1), (">", -1)):
                            return ("open", True)
                        if (e[1], b[1]) in (("<", 0), ("==", -1)):
                            return ("open", False)
                        return None
                    if e[1] in ("==", "!=") and "seqNumber" in names(al, b):
                        return ("same", e[1] == "==")
                if mem(a, "num_tiles_") and mem(b, "max_tiles_") and e[1] in (">", "<="):
                    return ("limit", e[1] == ">")
                if mem(a, "max_tiles_") and mem(b, "num_tiles_") and e[1] in ("<", ">="):
                    return ("limit", e[1] == "<")
                s = sizeof(al(b))
                if s == "handlers_" and e[1] in ("<", ">="):
                    return ("in", e[1] == "<")
                s = sizeof(al(a))
                if s == "handlers_" and e[1] in (">", "<="):
                    return ("in", e[1] == ">")
                if b == ("lit", 0) and e[1] in ("<", ">=") and a[0] == "v":
                    return ("nn:" + a[1], e[1] == ">=")
            return None
        T = Table(g, classify, al=al)
        Z = dict(poll=0, req=0, seq=0, mark=0, dlv=0, threw=0, loop=0)
        K = sorted(Z)
        bad = {}

        def event(ex, d, n):
            e = dict(zip(K, ex))
            t = n.ev
            if n.kind == "catch":
                e["threw"] = 1
                return tuple(e[k] for k in K)
            if n.kind == "excexit":
                return ex
            if callof(t, "startAsyncPoll"):
                if e["req"] or e["seq"]:
                    bad.setdefault("order", (n.line, "the open slice is evaluated after the next one has been started"))
                e["poll"] = 1
                if d.get("same") is not False or d.get("open") is not True:
                    bad.setdefault("evaluated", (n.line, "a slice is evaluated although the tile belongs to it, or none is open"))
            elif t[0] == "ctor" and t[1].startswith("Meq::Request::") and len(t[2]) >= 2 or callof(t, "incrSubId"):
                if d.get("same") is not False:
                    bad.setdefault("started", (n.line, "a new request is made for a tile of the same slice"))
                e["req"] = 1
                e["mark"] = 0
            elif t[0] == "asg" and mem(t[2], "current_seqnr_"):
                if d.get("same") is not False or "seqNumber" not in names(al, t[3]):
                    bad.setdefault("seqnr", (n.line, "the current slice is changed to something else than the tile's"))
                e["seq"] = 1
            elif callof(t, "operator=") and t[2] is not None and callof(strip_cast(t[2]), "operator[]", "at") and mem(strip_cast(t[2])[2], "have_tile_"):
                a = strip_cast(t[3][0])
                e["mark"] = 1 if a[0] == "lit" and a[1] else 0
            elif callof(t, "begin") and t[2] is not None and any(mem(x, "handlers_") for x in walk(t[2])):
                e["loop"] = 1
                deliv(e, d, n)
            elif callof(t, "deliverTile") and t[1] != j["q"]:
                deliv(e, d, n)
                e["dlv"] = 1
            return tuple(e[k] for k in K)

        def deliv(e, d, n):
            if d.get("same") is None:
                bad.setdefault("unchecked", (n.line, "a tile is delivered without finding out whether it starts a new slice"))
            if d.get("same") is False:
                if not e["seq"]:
                    bad.setdefault("seq", (n.line, "the first tile of a slice is delivered without making its slice the current one"))
                if not e["req"] and not e["threw"]:
                    bad.setdefault("req", (n.line, "the first tile of a slice is delivered without a new request"))
                if not e["poll"] and not e["threw"] and d.get("open") is not False:
                    bad.setdefault("poll", (n.line, "the first tile of a slice is delivered while the previous slice may not have been evaluated"))
            if not e["mark"]:
                bad.setdefault("mark", (n.line, "a tile is delivered without being marked as present in its slice"))

        def at_exit(ex, d, n):
            e = dict(zip(K, ex))
            if not e["loop"] and not e["dlv"] and d.get("limit") is not True and d.get("in") is not False and not any(k.startswith("nn:") and v is False for k, v in d.items()):
                bad.setdefault("dropped", (n.line, "a tile is passed over although handlers may want it"))
        T.run(event, tuple(Z[k] for k in K), at_exit=at_exit, catches=True)
        c.site("slices", f"{j['f']}:{j['l']}", last(j["q"]))
        for k, (line, msg) in bad.items():
            c.bad("slices", j["q"], k, j["f"], line, msg)
    c.expect("slices", 1)


# ---------------------------------------------------------------- all handlers

def handlers(c, F):
    for nm in ("deliverHeader", "deliverTile", "deliverFooter"):
        for j in fns(F, MUX, nm):
            g = build(F, j, lambda c2, t: inline_class(MUX)(c2, t) and last(t[1]) not in ("startSnippet", "endSnippet"), access=lambda q: True)
            al = Alias(g)
            its = set()
            calls = [n for n in evs(g) if callof(n.ev, nm) and not n.ev[1].startswith(MUX) and n.ev[2] is not None]
            for n in calls:
                its |= {x[1] for x in expand(al, n.ev[2]) if x[0] == "v"}
            its &= {advanced(n.ev) for n in evs(g)} - {None}
            # the innermost: the one whose passes contain the call and no other
            best = None
            byid = {n.id: n for n in g.nodes}
            for comp in LS.loops(g):
                vs = {advanced(byid[i].ev) for i in comp if byid[i].kind == "ev" and byid[i].ev is not None} & its
                if vs and any(n.id in comp for n in calls) and (best is None or len(comp) < best[0]):
                    best = (len(comp), vs)
            if not calls:
                c.bad("handlers", j["q"], nm, j["f"], j["l"], f"no handler is given the {nm[7:].lower()}")
                continue
            if best is None and not its:
                continue
            inner = best[1] if best else its
            if len(inner) > 1:
                inner = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[1] in inner and ("iterator" in d[2] or d[3] is not None and callof(strip_cast(d[3]), "begin", "cbegin"))} or inner
            bad = {}

            def classify(e):
                return None

            def event(ex, d, n):
                if n.kind == "catch":
                    return (1, ex[1])
                if n.kind == "ev" and callof(n.ev, nm) and not n.ev[1].startswith(MUX):
                    return (1, ex[1])
                return ex

            def at_pass(ex, d, n, v):
                if v in inner and not ex[0]:
                    bad.setdefault("skipped", (n.line, f"a handler is passed over without the {nm[7:].lower()}"))
                return (0, ex[1])
            Table(g, classify, al=al).run(event, (0, 0), at_pass=at_pass, iters=inner, catches=True)
            c.site("handlers", f"{j['f']}:{calls[0].line}", nm)
            for k, (line, msg) in bad.items():
                c.bad("handlers", j["q"], k, j["f"], line, msg)
    c.expect("handlers", 2)


# ---------------------------------------------------------------- errors

def errors(c, F):
    own = [j for j in fns(F, MUX) if any(t and t[0] == "decls" and any("ExceptionList" in d[2] for d in t[1:]) for n in build(F, j, lambda c2, t: False).nodes for t in [n.ev])]
    qs = {j["q"] for j in own}
    ic = inline_class(MUX)
    for j in own:
        g = build(F, j, lambda c2, t: t[1] not in qs and ic(c2, t), access=lambda q: True)
        al = Alias(g)
        lists = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[2].replace("const", "").strip().endswith("ExceptionList")}
        sets = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if "VellSet" in pp(n.ev) and any(callof(m.ev, "addFail") and d[1] in vars_of(m.ev[2] or ("lit", 0)) for m in evs(g))}
        codes = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[3] is not None and callof(strip_cast(d[3]), "execute", "awaitChildResult", "pollChildren")}
        # ... and the codes that are filled in through an argument
        codes |= {strip_cast(x)[1] for n in evs(g) for m in walk(n.ev) if callof(m, "awaitChildResult") and m[3] for x in m[3][:1] if strip_cast(x)[0] == "v"}
        bad = {}
        # catch clauses outside the scope of the list: some of their exceptions come from before its declaration
        early, todo = set(), [g.entry]
        while todo:
            n = todo.pop()
            if n.id in early or n.kind == "ev" and n.ev is not None and n.ev[0] == "decls" and any(d[1] in lists for d in n.ev[1:]):
                continue
            early.add(n.id)
            todo += [m for m, lab in n.succ]
        outer = {i for i, ns in sources(g).items() if any(n.id in early for n in ns)}
        # state: (pending failure, recorded in list, recorded in fail set, thrown)

        def step(a, n, facts):
            pend, rec, fl, thr = a
            t = n.ev
            if n.kind == "catch":
                return [(1, 0 if rec == 2 or n.id in outer else rec, fl, 0)]
            if n.kind == "exit":
                if pend:
                    bad.setdefault("lost", (n.line, "a caught exception or failed child is not recorded"))
                if rec:
                    bad.setdefault("kept", (n.line, "recorded errors never reach the caller"))
                return [a]
            if n.kind != "ev" or t is None:
                return [a]
            if t[0] == "throw" or callof(t, "throw"):
                return [(0, 0, fl, 1)]
            if rec == 2 and (advanced(t) or callof(t, "getEvent") or t[0] == "decls" and any(d[1] in lists for d in t[1:])):
                bad.setdefault("kept", (n.line, "recorded errors are dropped without reaching the caller"))
            if t[0] == "decls" and any(d[1] in lists for d in t[1:]):
                rec = 0
            elif t[0] == "call" and t[2] is not None and strip_cast(t[2])[0] == "v" and strip_cast(t[2])[1] in lists and last(t[1]) in ("add",):
                pend, rec = 0, 1
            elif callof(t, "addToExceptionList"):
                rec = 1
            elif callof(t, "addFail"):
                if any(strip_cast(x)[0] == "v" and strip_cast(x)[1] in lists for x in t[3]):
                    rec = 0
                pend, fl = 0, 1
            elif t[0] == "dtor" and t[1] in lists:
                rec = 2 if rec and not thr else 0
            elif t[0] == "ret" and fl:
                if t[1] is None or not any(last(x[1]) == "RES_FAIL" for x in expand(al, t[1]) if x[0] in ("enum", "g")):
                    bad.setdefault("code", (n.line, "errors were recorded, but the result code is not that of a failure"))
            v = advanced(t)
            if v is None and callof(t, "getEvent", "awaitChildResult") and pend:
                bad.setdefault("lost", (n.line, "a caught exception or failed child is not recorded"))
            return [(pend, rec, fl, thr)]

        def on(a, e, truth, n):
            pend, rec, fl, thr = a
            e = strip_cast(e)
            if callof(e, "empty") and e[2] is not None and strip_cast(e[2])[0] == "v" and strip_cast(e[2])[1] in lists:
                return a if bool(truth) == (not rec) else None
            if e[0] in ("m", "call") and (e[0] == "m" and last(e[2]) == "is_fail_" or callof(e, "isFail")):
                if vars_of(e) & sets:
                    return a if bool(truth) == bool(fl) else None
            if e[0] == "bin" and e[1] == "&" and any(last(x[1]) == "RES_FAIL" for x in walk(e) if x[0] in ("enum", "g")) and vars_of(e) & codes and truth:
                return (1, rec, fl, thr)
            if e[0] == "bin" and e[1] in (">", "!=") and callof(strip_cast(e[2]), "size") and vars_of(e[2]) & lists and not rec and truth:
                return None
            return a
        run(g, (0, 0, 0, 0), step, only=lambda f: False, branch=brancher(on, al), maxstates=120000, cap=60)
        c.site("errors", f"{j['f']}:{j['l']}", last(j["q"]))
        for k, (line, msg) in bad.items():
            c.bad("channels" if k == "code" else "errors", j["q"], k, j["f"], line, msg)
    c.expect("errors", 4)


# ---------------------------------------------------------------- the request of a slice

def request(c, F):
    for j in fns(F, MUX, "startSnippet"):
        g = build(F, j, inline_class(MUX), access=lambda q: True)
        al = Alias(g)
        bad = {}
        seen = set()

        def event(ex, d, n):
            cp, inc, req, clr = ex
            t = n.ev
            if n.kind != "ev":
                return (cp, inc, req, clr) if n.kind != "catch" else (cp, max(inc, 1), 2, 2)
            if callof(t, "operator=") and mem(t[2], "rqid_") and mem(t[3][0], "next_rqid_"):
                if inc:
                    bad.setdefault("order", (n.line, "the slice takes the request number after it has been moved on"))
                cp = 1
            elif callof(t, "incrSubId") and any(mem(x, "next_rqid_") for x in t[3]):
                inc += 1
                if inc > 1:
                    bad.setdefault("twice", (n.line, "the request number is moved on twice for one slice"))
                    inc = 2
                if "FDomain" not in names(al, t):
                    bad.setdefault("mask", (n.line, "the request number is not moved on in its domain part"))
            elif t[0] == "ctor" and t[1].startswith("Meq::Request::") and len(t[2]) >= 2:
                seen.add(n.line)
                if not cp or not any(mem(x, "rqid_") for x in walk(t)):
                    bad.setdefault("number", (n.line, "the slice's request is not made with the number set aside for it"))
                req = 1
            elif callof(t, "assign") and mem(t[2], "have_tile_") and len(t[3]) > 1 and strip_cast(t[3][1]) == ("lit", 0, "b") or callof(t, "assign") and mem(t[2], "have_tile_"):
                a = strip_cast(t[3][1]) if len(t[3]) > 1 else ("lit", 0)
                clr = 1 if a[0] == "lit" and not a[1] else 0
            elif t[0] == "ret" and clr == 2:
                return ex
            return (cp, inc, req, clr)

        def at_exit(ex, d, n):
            cp, inc, req, clr = ex
            if not inc:
                bad.setdefault("stuck", (n.line, "the request number is not moved on: two slices would have the same"))
            if not req:
                bad.setdefault("request", (n.line, "a slice is started without a request of its own"))
            if not clr:
                bad.setdefault("marks", (n.line, "the tile marks of the previous slice are still set"))
        Table(g, lambda e: None, al=al).run(event, (0, 0, 0, 0), at_exit=at_exit, catches=True)
        for line in seen:
            c.site("request", f"{j['f']}:{line}", last(j["q"]))
        for k, (line, msg) in bad.items():
            c.bad("request", j["q"], k, j["f"], line, msg)
    c.expect("request", 1)


# ---------------------------------------------------------------- evaluation of a slice

def evaluate(c, F):
    for j in fns(F, MUX, "endSnippet"):
        g = build(F, j, inline_class(MUX), access=lambda q: True)
        al = Alias(g)
        if not has_call(g, "startAsyncPoll") or not has_call(g, "awaitChildResult"):
            c.bad("evaluate", j["q"], "poll", j["f"], j["l"], "the children of a finished slice are not polled and awaited")
            continue

        def inidx(e):
            for x in expand(al, e):
                if callof(x, "operator[]", "at") and mem(x[2], "child_indices_"):
                    return pp(strip_cast(x[3][0]))
            return None

        def classify(e):
            e = strip_cast(e)
            for x in [e] + ([strip_cast(e[2])] if e[0] == "call" and e[2] is not None else []):
                if callof(x, "operator[]", "at") and mem(x[2], "have_tile_"):
                    i = strip_cast(x[3][0])
                    return (f"have:{pp(i)}@{i[1] if i[0] == 'v' else ''}", True)
            if e[0] == "m" and last(e[2]) == "abort_flag_" or callof(e, "abortFlag"):
                return ("abort", True)
            if e[0] == "bin" and e[1] in ("<", ">=") and strip_cast(e[3]) == ("lit", 0) and any(callof(x, "awaitChildResult") for x in expand(al, e[2])):
                return ("done", e[1] == "<")
            if e[0] == "bin" and e[1] in ("<", "!=", ">=") and "numChildren" in names(al, e[3]) and strip_cast(e[2])[0] == "v":
                return ("kids@" + strip_cast(e[2])[1], e[1] != ">=")
            if callof(e, "valid") and e[2] is not None:
                if mem(e[2], "output_channel_"):
                    return ("out", True)
                if mem(e[2], "cached_header_"):
                    return ("hdr", True)
            x, pol = e, True
            if e[0] == "bin" and e[1] in ("==", "!=") and strip_cast(e[3])[:2] == ("lit", 0):
                x, pol = strip_cast(e[2]), e[1] == "!="
            if x[0] in ("v", "call") and any(last(y[1]) == "AidTile" for y in expand(al, x) if y[0] in ("g", "enum")):
                return ("tile", pol)
            if e[0] == "bin" and e[1] == "&":
                fl = frozenset(last(y[1]) for y in walk(e) if y[0] in ("enum", "g") and last(y[1]).startswith("RES_"))
                if "RES_FAIL" in fl and len(fl) == 1:
                    return ("fail", True)
                if fl and "RES_FAIL" not in fl or not fl and strip_cast(e[3])[0] == "lit":
                    return ("skip", True)
            return None
        T = Table(g, classify, al=al)
        bad = {}
        Z = dict(dis=0, en=0, start=0, hp=0, dp=0, hd=0, exc=0, aw=0, wait=0)
        K = sorted(Z)

        def settle(e, d, n):
            """one child's answer has been dealt with"""
            if not e["aw"]:
                return
            if d.get("tile") and d.get("out") is True and not d.get("fail") and not e["exc"] and e["dp"] != 1:
                bad.setdefault("lost", (n.line, "an updated tile does not go to the output exactly once"))
            if not e["exc"] and d.get("done") is not True and d.get("tile") is None and d.get("fail") is False and d.get("skip") is not True:
                bad.setdefault("unseen", (n.line, "a good answer of a child is not examined for an updated tile"))

        def event(ex, d, n):
            e = dict(zip(K, ex))
            t = n.ev
            up = {}
            if n.kind == "catch":
                e["exc"] = 1
                return tuple(e[k] for k in K)
            if n.kind == "excexit":
                return ex
            if callof(t, "disableChild"):
                if e["start"] or e["en"]:
                    bad.setdefault("disabled", (n.line, "a child is disabled after the children with tiles have been enabled"))
                e["dis"] = 1
            elif callof(t, "enableChild"):
                e["en"] = 1
                if not e["dis"] and not any(k.startswith("kids@") and v is False for k, v in d.items()):
                    bad.setdefault("stale", (n.line, "children are enabled without first disabling those of the previous slice"))
                i = inidx(t[3][0])
                if i is None or not any(k.startswith(f"have:{i}@") and v for k, v in d.items()):
                    bad.setdefault("enabled", (n.line, "a child is enabled although its data number need not have a tile in the slice"))
            elif callof(t, "startAsyncPoll"):
                e["start"] = 1
                if not any(mem(x, "current_req_") for x in walk(t)):
                    bad.setdefault("request", (n.line, "the children are not polled with the slice's request"))
            elif callof(t, "awaitChildResult"):
                settle(e, d, n)
                if not e["start"]:
                    bad.setdefault("start", (n.line, "results are awaited before the children were started"))
                e.update(aw=1, exc=0, dp=0, hp=0, hd=0)
                up = {k: None for k in ("tile", "done", "fail", "skip", "hdr", "out")}
            elif callof(t, "postEvent") and t[2] is not None and mem(t[2], "output_channel_"):
                nm = names(al, t)
                if "HEADER" in nm:
                    e["hp"] = 1
                    if d.get("hdr") is not True:
                        bad.setdefault("header", (n.line, "the header may be sent although there is none, or it has been sent"))
                elif "DATA" in nm:
                    e["dp"] += 1
                    if d.get("tile") is not True:
                        bad.setdefault("data", (n.line, "data is sent although the child did not update its tile"))
                    if d.get("hdr") is not False and not (e["hp"] and e["hd"]):
                        bad.setdefault("first", (n.line, "a tile may be sent before the header, or the header be sent again"))
            elif callof(t, "detach") and mem(t[2], "cached_header_"):
                e["hd"] = 1
                if not e["hp"]:
                    bad.setdefault("dropped", (n.line, "the header is dropped before it was sent"))
            r = tuple(min(e[k], 3) for k in K)
            return Upd(r, up) if up else r

        def at_exit(ex, d, n):
            e = dict(zip(K, ex))
            settle(e, d, n)
            if not e["start"]:
                bad.setdefault("unpolled", (n.line, "the slice ends without polling the children"))
            if d.get("abort") is not True and d.get("done") is not True:
                bad.setdefault("unfinished", (n.line, "the slice ends before all children have answered"))
        T.run(event, tuple(Z[k] for k in K), at_exit=at_exit, catches=True)
        c.site("evaluate", f"{j['f']}:{j['l']}", last(j["q"]))
        for k, (line, msg) in bad.items():
            c.bad("evaluate", j["q"], k, j["f"], line, msg)
    c.expect("evaluate", 1)


# ---------------------------------------------------------------- header and footer

def header_footer(c, F):
    for j in fns(F, MUX, "deliverFooter"):
        g = build(F, j, inline_class(MUX), access=lambda q: True)
        al = Alias(g)
        bad = {}

        def classify(e):
            e = strip_cast(e)
            if e[0] == "bin" and mem(e[2], "current_seqnr_") and strip_cast(e[3])[0] == "lit":
                if (e[1], strip_cast(e[3])[1]) in ((">=", 0), ("!=", -1), (">", -1)):
                    return ("open", True)
                if (e[1], strip_cast(e[3])[1]) in (("<", 0), ("==", -1)):
                    return ("open", False)
            if callof(e, "valid") and mem(e[2], "output_channel_"):
                return ("out", True)
            if e[0] == "bin" and mem(e[2], "num_tiles_") and mem(e[3], "max_tiles_") and e[1] in (">", "<="):
                return ("limit", e[1] == ">")
            return None
        T = Table(g, classify, al=al)

        def event(ex, d, n):
            poll, post, ft, thr = ex
            t = n.ev
            if n.kind == "catch":
                return (poll, post, ft, 1)
            if n.kind == "excexit":
                return ex
            if callof(t, "startAsyncPoll"):
                if ft or post:
                    bad.setdefault("late", (n.line, "the open slice is evaluated after the footer has been passed on"))
                poll = 1
            elif callof(t, "deliverFooter") and t[1] != j["q"]:
                ft = 1
                if not poll and not thr and d.get("open") is not False:
                    bad.setdefault("slice", (n.line, "the footer is delivered while a slice may still be open"))
            elif callof(t, "postEvent") and mem(t[2], "output_channel_") and "FOOTER" in names(al, t):
                post = min(post + 1, 2)
                if not poll and not thr and d.get("open") is not False and d.get("limit") is not True:
                    bad.setdefault("slice", (n.line, "the footer goes out while a slice may still be open"))
            elif t[0] == "ret" and d.get("out") is not False and post != 1 and not thr:
                bad.setdefault("footer", (n.line, "the footer does not go to the output exactly once"))
            return (poll, post, ft, thr)
        T.run(event, (0, 0, 0, 0), catches=True)
        c.site("footer", f"{j['f']}:{j['l']}", last(j["q"]))
        for k, (line, msg) in bad.items():
            c.bad("footer", j["q"], k, j["f"], line, msg)
    for j in fns(F, MUX, "deliverHeader"):
        g = build(F, j, inline_class(MUX), access=lambda q: True)
        al = Alias(g)
        bad = {}

        def event2(ex, d, n):
            t = n.ev
            ex = set(ex)
            if n.kind == "catch":
                return tuple(sorted(ex))
            if n.kind == "excexit":
                return tuple(sorted(ex))
            if t[0] == "asg" and mem(t[2], "current_seqnr_"):
                x = strip_cast(t[3])
                ex.discard("seq")
                if x[0] == "lit" and isinstance(x[1], int) and x[1] < 0 or x[0] == "un" and x[1] == "-":
                    ex.add("seq")
            elif callof(t, "incrRequestId") and any(mem(x, "next_rqid_") for x in t[3]):
                ex.add("rqid")
            elif callof(t, "attach", "operator<<=", "operator=", "copy") and t[2] is not None and mem(t[2], "cached_header_"):
                ex.add("hdr")
            elif t[0] == "ret":
                for k, m in (("seq", "no slice of the previous data set is taken for the current one"), ("rqid", "the requests of the new data set are told apart from the old"), ("hdr", "the header is kept for the output")):
                    if k not in ex:
                        bad.setdefault(k, (n.line, f"a header can be accepted without this: {m}"))
            return tuple(sorted(ex))
        Table(g, lambda e: None, al=al).run(event2, (), catches=True)
        c.site("footer", f"{j['f']}:{j['l']}", last(j["q"]))
        for k, (line, msg) in bad.items():
            c.bad("footer", j["q"], k, j["f"], line, msg)
    c.expect("footer", 2)


# ---------------------------------------------------------------- the stream

TYPES = ("DATA", "HEADER", "FOOTER")
FN = dict(deliverTile="DATA", deliverHeader="HEADER", deliverFooter="FOOTER")


def dispatch(c, F):
    for j in fns(F, MUX, "pollChildren"):
        ic = inline_class(MUX)
        g = build(F, j, lambda c2, t: ic(c2, t) and last(t[1]) not in ("deliverTile", "deliverHeader", "deliverFooter", "initInput", "initOutput", "clearOutput"), access=lambda q: True)
        al = Alias(g)
        decls = {d[1]: d[3] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:]}
        state = {v for v, e in decls.items() if e is not None and strip_cast(e)[0] in ("enum", "g", "lit") and any(t[0] == "asg" and strip_cast(t[2])[:2] == ("v", v) and any(last(x[1]) in TYPES for x in walk(t[3]) if x[0] in ("enum", "g")) for t in (n.ev for n in evs(g)))}
        if len(state) != 1:
            continue
        sv = next(iter(state))
        const = {}

        def val(e):
            e = strip_cast(e)
            if e[0] in ("enum", "g") and last(e[1]) in TYPES:
                return last(e[1])
            return None

        def classify(e):
            e = strip_cast(e)
            if e[0] == "bin" and e[1] in ("==", "!="):
                for x, y in ((e[2], e[3]), (e[3], e[2])):
                    v = val(y)
                    if v:
                        x = strip_cast(x)
                        if x[:2] == ("v", sv):
                            return ("st:" + v, e[1] == "==")
                        if "VisEventType" in names(al, x):
                            return ("ev:" + v, e[1] == "==")
                    y2 = strip_cast(y)
                    if y2[0] in ("enum", "g") and last(y2[1]) in ("CLOSED", "SUCCESS") and "getEvent" in names(al, x):
                        return ("in:" + last(y2[1]), e[1] == "==")
            if e[0] == "m" and last(e[2]) == "abort_flag_" or callof(e, "abortFlag"):
                return ("abort", True)
            if callof(e, "matches") and "VisEventMask" in names(al, e):
                return ("known", True)
            return None
        T = Table(g, classify, al=al)
        bad = {}
        Z = dict(DATA=0, HEADER=0, FOOTER=0, open=0, got=0)
        K = sorted(Z)
        init = next((val(e) for v, e in decls.items() if v == sv), None)

        src = {i: {last(n.ev[1]) for n in ns} for i, ns in sources(g).items()}
        only = {i: {FN[q] for q in qs if q in FN} for i, qs in src.items() if not any(q.startswith("processVis") for q in qs)}

        def settle(e, d, n):
            if not e["got"]:
                return
            for k in TYPES:
                want = d.get("ev:" + k) is True
                if want and not e[k]:
                    bad.setdefault("undelivered:" + k, (n.line, f"a {k.lower()} event is passed over"))
                if e[k] > 1:
                    bad.setdefault("twice:" + k, (n.line, f"a {k.lower()} event is delivered twice"))

        def event(ex, d, n):
            e = dict(zip(K, ex))
            t = n.ev
            up = {}
            if n.kind == "catch":
                # a handler of a delivery alone: the delivery was attempted
                for k in TYPES:
                    if d.get("ev:" + k) and k in only.get(n.id, ()):
                        e[k] = 1
                return tuple(e[k] for k in K)
            if n.kind == "excexit":
                return ex
            if t[0] == "decls" and any(x[1] == sv for x in t[1:]):
                if init is None:
                    bad.setdefault("init", (n.line, "the stream does not start outside a data set"))
                elif init == "DATA":
                    bad.setdefault("init", (n.line, "the stream starts as if a header had been seen"))
                up = {"st:" + k: (k == init) for k in TYPES}
            elif t[0] == "asg" and strip_cast(t[2])[:2] == ("v", sv):
                v = val(t[3])
                up = {"st:" + k: (k == v) if v else None for k in TYPES}
                if d.get("ev:HEADER") and v != "DATA" or d.get("ev:FOOTER") and v != "FOOTER" or d.get("ev:DATA"):
                    bad.setdefault("state", (n.line, "the stream's state does not follow the event"))
            elif callof(t, "getEvent"):
                settle(e, d, n)
                e.update(DATA=0, HEADER=0, FOOTER=0, got=1)
                up = {k: None for k in d if k[:3] in ("ev:", "in:") or k == "known"}
                if e["open"] != 1:
                    bad.setdefault("open", (n.line, "the stream is read before its opening was announced, or after its closing"))
            elif t[0] == "call" and last(t[1]) in FN and t[1].startswith(MUX):
                k = FN[last(t[1])]
                e[k] = min(e[k] + 1, 2)
                if d.get("ev:" + k) is not True:
                    bad.setdefault("type:" + k, (n.line, f"something that need not be a {k.lower()} event is delivered as one"))
            elif t[0] == "call" and last(t[1]) in ("processVisTile", "processVisHeader", "processVisFooter"):
                k = dict(processVisTile="DATA", processVisHeader="HEADER", processVisFooter="FOOTER")[last(t[1])]
                if d.get("ev:" + k) is not True:
                    bad.setdefault("python:" + k, (n.line, f"something that need not be a {k.lower()} event is handed to the user's script as one"))
            elif callof(t, "postEvent") and t[3]:
                a = pp(t[3][0])
                if "FVisChannelOpen" in a:
                    e["open"] = 1
                elif "FVisChannelClosed" in a:
                    if e["open"] == 2:
                        bad.setdefault("closed", (n.line, "the closing of a stream is announced twice"))
                    e["open"] = 2
            # states after delivery
            if t[0] == "call" and last(t[1]) in FN and t[1].startswith(MUX):
                k = FN[last(t[1])]
                if k == "DATA" and d.get("st:DATA") is not True:
                    bad.setdefault("seq:DATA", (n.line, "a tile is accepted outside a data set"))
                if k == "HEADER" and d.get("st:DATA") is not True:
                    bad.setdefault("seq:HEADER", (n.line, "tiles would not be accepted after the header"))
                if k == "FOOTER" and d.get("st:FOOTER") is not True:
                    bad.setdefault("seq:FOOTER", (n.line, "tiles would be accepted after the footer"))
            if t[0] == "throw" or callof(t, "throw"):
                if t[1] is None and e["open"] == 1:
                    bad.setdefault("unclosed", (n.line, "an exception leaves without the closing of the stream being announced"))
            r = tuple(e[k] for k in K)
            return Upd(r, up) if up else r

        def at_exit(ex, d, n):
            e = dict(zip(K, ex))
            if e["open"] == 1:
                bad.setdefault("unclosed", (n.line, "the closing of a stream is not announced"))
        # the state before each change, checked at the change
        old = {}

        def event3(ex, d, n):
            t = n.ev
            if n.kind == "ev" and t[0] == "asg" and strip_cast(t[2])[:2] == ("v", sv):
                v = val(t[3])
                if v == "DATA" and d.get("st:FOOTER") is not True:
                    bad.setdefault("out:HEADER", (n.line, "a header is accepted inside a data set"))
                if v == "FOOTER" and d.get("st:DATA") is not True:
                    bad.setdefault("out:FOOTER", (n.line, "a footer is accepted outside a data set"))
            return event(ex, d, n)
        T.run(event3, tuple(Z[k] for k in K), at_exit=at_exit, catches=True)
        c.site("dispatch", f"{j['f']}:{j['l']}", last(j["q"]))
        for k, (line, msg) in bad.items():
            c.bad("dispatch", j["q"], k, j["f"], line, msg)
        channels(c, F, j, g, al)
    c.expect("dispatch", 1)


def channels(c, F, j, g, al):
    """closed or aborted, never flushed after errors"""
    bad = {}

    def step(a, n, facts):
        fl, done, opened = a
        t = n.ev
        if n.kind == "catch":
            return [(fl, done, opened)]
        if n.kind == "exit":
            if opened and not done:
                bad.setdefault("left", (n.line, "the input channel is neither closed nor aborted"))
            return [a]
        if n.kind != "ev" or t is None:
            return [a]
        if callof(t, "postEvent") and t[3] and "FVisChannelOpen" in pp(t[3][0]):
            opened = 1
        elif callof(t, "addFail"):
            fl = 1
        elif callof(t, "close", "abort", "flush") and t[2] is not None and mem(t[2], "input_channel_", "output_channel_"):
            if last(t[1]) != "abort" and fl:
                bad.setdefault("flushed", (n.line, "a stream that had errors is closed as if complete"))
            if mem(t[2], "input_channel_"):
                done = 1
        return [(fl, done, opened)]

    def on(a, e, truth, n):
        e = strip_cast(e)
        if e[0] == "m" and last(e[2]) == "is_fail_" or callof(e, "isFail"):
            return a if bool(truth) == bool(a[0]) else None
        return a
    run(g, (0, 0, 0), step, only=lambda f: False, branch=brancher(on, al), maxstates=80000, cap=60)
    c.site("channels", f"{j['f']}:{j['l']}", last(j["q"]))
    for k, (line, msg) in bad.items():
        c.bad("channels", j["q"], k, j["f"], line, msg)


# ---------------------------------------------------------------- sinks

def sink(c, F):
    for j in fns(F, "Meq::Sink", "getResult"):
        keep = ("mapOutputCorr", "fillTileColumn", "fillTileColumnWithConstant")
        g = build(F, j, lambda cj, t: cj["q"].startswith("Meq::Sink") and last(cj["q"]) not in keep, access=lambda q: True)
        al = Alias(g)
        tiles = {strip_cast(n.ev[2])[1] for n in evs(g) if callof(n.ev, "xfer", "copy") and n.ev[2] is not None and strip_cast(n.ev[2])[0] == "v" and mem(n.ev[3][0], "cur_tile")}
        corr = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[3] is not None and any(callof(x, "mapOutputCorr") or x[0] == "m" and last(x[2]) == "output_icorrs" for x in walk(d[3]))}
        written = {strip_cast(n.ev[2])[1] for n in evs(g) if n.ev[0] == "asg" and strip_cast(n.ev[2])[0] == "v" and any(callof(x, "dewr_p", "dewr") for x in walk(n.ev[3]))}

        def classify(e):
            e = strip_cast(e)
            if e[0] == "call" and last(e[1]) in ("operator!=", "operator==") or e[0] == "bin" and e[1] in ("==", "!="):
                xs = [e[2], *e[3]] if e[0] == "call" else [e[2], e[3]]
                xs = [x for x in xs if x is not None]
                ns = [names(al, x) for x in xs]
                if any(mem(x, "cur_rqid") for x in xs) and any(m & {"id", "id_"} for m in ns):
                    return ("rqid", last(e[1]) in ("operator==", "=="))
            if callof(e, "valid") and mem(e[2], "cur_tile"):
                return ("tile", True)
            if e[0] == "bin" and e[1] in ("<", ">=", ">", "<="):
                a, b, op = strip_cast(e[2]), strip_cast(e[3]), e[1]
                if b[0] == "v" and b[1] in corr and not (a[0] == "v" and a[1] in corr):
                    a, b, op = b, a, FLIP[op]
                if a[0] == "v" and a[1] in corr:
                    if b == ("lit", 0) and op in ("<", ">="):
                        return ("nn@" + a[1], op == ">=")
                    if "ncorr" in names(al, b) | {x[1] for x in walk(b) if x[0] == "v"} and op in ("<", ">="):
                        return ("in@" + a[1], op == "<")
            x = e
            if e[0] == "bin" and e[1] in ("!=", ">", "==") and strip_cast(e[3]) == ("lit", 0):
                x = strip_cast(e[2])
            if callof(x, "numFails"):
                return ("fails", not (e[0] == "bin" and e[1] == "=="))
            if x[0] == "v" and x[1] in written:
                return None
            return None
        T = Table(g, classify, al=al)
        bad = {}

        def event(ex, d, n):
            wr, att = ex
            t = n.ev
            if n.kind != "ev":
                return ex
            up = {}
            for v in setvars(t):
                up.update({k: None for k in d if k.endswith("@" + v)})
            if t[0] == "asg" and strip_cast(t[2])[0] == "v" and strip_cast(t[2])[1] in written and strip_cast(t[3])[0] != "lit":
                wr = 1
            if callof(t, "xfer", "copy") and any(mem(x, "cur_tile") for x in t[3]):
                if last(t[1]) == "copy":
                    bad.setdefault("kept", (n.line, "the tile is used but stays with the sink, so that a later request finds it again"))
                if d.get("rqid") is not True:
                    bad.setdefault("request", (n.line, "the tile is used for a request that need not be the one it came with"))
                if d.get("tile") is not True:
                    bad.setdefault("tile", (n.line, "the sink goes on although it may not have received a tile"))
            elif callof(t, "fillTileColumn", "fillTileColumnWithConstant") or callof(t, "operator()") and t[2] is not None and callof(strip_cast(t[2]), "wflags"):
                vs = [x[1] for y in t[3] for x in walk(y) if x[0] == "v" and x[1] in corr]
                for v in vs:
                    if d.get("nn@" + v) is not True or d.get("in@" + v) is not True:
                        bad.setdefault("corr", (n.line, "a correlation is written that the tile need not have"))
                if not any(mem(x, "cur_range") for y in t[3] for x in walk(y)):
                    bad.setdefault("range", (n.line, "rows outside the slice's range are written"))
                if d.get("fails") is not False:
                    bad.setdefault("fails", (n.line, "values of a result that may have failed are written to the tile"))
                if not wr:
                    bad.setdefault("cow", (n.line, "the tile is written without being made private first"))
            elif callof(t, "operator<<=", "operator=", "attach") and t[2] is not None and "AidTile" in names(al, t[2]):
                att = 1
                if not wr:
                    bad.setdefault("attached", (n.line, "an unchanged tile is handed on"))
            elif t[0] == "ret" and t[1] is not None:
                k = {last(x[1]) for x in expand(al, t[1]) if x[0] in ("enum", "g")}
                if wr and not (att and "RES_UPDATED" in k):
                    bad.setdefault("lost", (n.line, "a tile that was written does not leave the sink"))
                if d.get("fails") is True and "RES_FAIL" not in k:
                    bad.setdefault("code", (n.line, "a failed result is not passed up as a failure"))
            return Upd((wr, att), up) if up else (wr, att)
        # branch on the private tile: decided by whether it was made
        base = T.leaf

        def run_with():
            def leafwr(e):
                return base(e)
            T.run(event, (0, 0))
        # the pointer's truth is that of 'written'
        def cl2(e):
            e = strip_cast(e)
            x, pol = e, True
            if e[0] == "bin" and e[1] in ("==", "!=") and strip_cast(e[3])[:2] == ("lit", 0):
                x, pol = strip_cast(e[2]), e[1] == "!="
            if x[0] == "v" and x[1] in written:
                return ("wr", pol)
            return classify(e)
        T2 = Table(g, cl2, al=al)

        def ev2(ex, d, n):
            r = event(ex, d, n)
            t = n.ev
            if n.kind != "ev":
                return r
            up = dict(r.upd) if isinstance(r, Upd) else {}
            if t[0] == "decls" and any(x[1] in written for x in t[1:]):
                up["wr"] = False
            if t[0] == "asg" and strip_cast(t[2])[0] == "v" and strip_cast(t[2])[1] in written:
                up["wr"] = strip_cast(t[3])[0] != "lit"
            return Upd(r.ex if isinstance(r, Upd) else r, up) if up else r
        T2.run(ev2, (0, 0), catches=True)
        c.site("sink", f"{j['f']}:{j['l']}", "getResult")
        for k, (line, msg) in bad.items():
            c.bad("sink", j["q"], k, j["f"], line, msg)
    simple = {"deliverTile": ("cur_rqid", "cur_tile", "cur_range"), "deliverHeader": ("-cur_tile", "output_format"), "deliverFooter": ("-cur_tile",)}
    for nm, need in simple.items():
        for j in fns(F, "Meq::Sink", nm):
            g = build(F, j, inline_class("Meq::Sink"), access=lambda q: True)
            bad = {}

            def event(ex, d, n):
                t = n.ev
                if n.kind != "ev":
                    return ex
                s = set(ex)
                if callof(t, "operator=", "copy", "attach", "xfer", "operator<<=") and t[2] is not None:
                    for m in ("cur_rqid", "cur_tile", "cur_range", "output_format"):
                        if mem(t[2], m) or callof(strip_cast(t[2]), "operator=") and mem(strip_cast(t[2])[2], m):
                            s.add(m)
                            s.discard("-" + m)
                elif t[0] == "asg" and strip_cast(t[2])[0] == "m":
                    s.add(last(strip_cast(t[2])[2]))
                elif callof(t, "detach") and mem(t[2], "cur_tile"):
                    s.add("-cur_tile")
                    s.discard("cur_tile")
                elif t[0] == "ret":
                    for k in need:
                        if k not in s:
                            what = dict(cur_rqid="the request it belongs to", cur_tile="the tile", cur_range="the range of valid rows", output_format="the output format")
                            bad.setdefault(k, (n.line, f"{nm} does not take over {what[k]}" if k[0] != "-" else f"{nm} leaves the previous tile with the sink"))
                return tuple(sorted(s))
            Table(g, lambda e: None).run(event, ())
            c.site("sink", f"{j['f']}:{j['l']}", nm)
            for k, (line, msg) in bad.items():
                c.bad("sink", j["q"], k, j["f"], line, msg)
    c.expect("sink", 3)


# ---------------------------------------------------------------- spigots

def spigot(c, F):
    for j in fns(F, "Meq::Spigot", "deliverTile"):
        g = build(F, j, inline_class("Meq::Spigot"), access=lambda q: True)
        al = Alias(g)
        corr = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[3] is not None and any(x[0] == "m" and last(x[2]) == "corr_index_" for x in walk(d[3]))}
        flagvars = {d[1] for n in evs(g) if n.ev[0] == "decls" for d in n.ev[1:] if d[3] is not None and any(callof(x, "flags") or x[0] == "m" and last(x[2]) == "flags_array_" for x in walk(d[3]))}
        bad = {}

        def classify(e):
            e = strip_cast(e)
            if e[0] == "bin" and e[1] in ("<", ">=", ">", "<="):
                a, b, op = strip_cast(e[2]), strip_cast(e[3]), e[1]
                if b[0] == "v" and b[1] in corr and not (a[0] == "v" and a[1] in corr):
                    a, b, op = b, a, FLIP[op]
                if a[0] == "v" and a[1] in corr and op in ("<", ">="):
                    if b == ("lit", 0):
                        return ("nn@" + a[1], op == ">=")
                    if b[0] in ("v", "call", "m", "idx", "bin"):
                        return ("in@" + a[1], op == "<")
            return None

        def event(ex, d, n):
            q, rq, rs = ex
            t = n.ev
            if n.kind != "ev":
                return ex
            up = {}
            for v in setvars(t):
                up.update({k: None for k in d if k.endswith("@" + v)})
            if callof(t, "operator()") and t[2] is not None and len(t[3]) == 3:
                # (the tile's flags have as many correlations as its data, which were checked before)
                flag = "flags" in names(al, t[2]) or bool(vars_of(t[2]) & flagvars)
                for y in t[3]:
                    for x in walk(strip_cast(y)):
                        if x[0] == "v" and x[1] in corr and (d.get("nn@" + x[1]) is not True or d.get("in@" + x[1]) is not True and not flag):
                            bad.setdefault("corr", (n.line, "a correlation is read that the tile need not have"))
            elif callof(t, "push_back", "emplace_back", "push_front") and mem(t[2], "res_queue_"):
                q = min(q + 1, 2)
                if last(t[1]) == "push_front":
                    bad.setdefault("order", (n.line, "results are not queued in the order of the tiles"))
                if t[3] and any(x[0] == "v" for x in walk(t[3][0])):
                    rq = rs = 1
            elif callof(t, "operator=", "copy", "attach", "xfer", "operator<<=") and t[2] is not None:
                o = strip_cast(t[2])
                if o[0] == "m" and last(o[2]) == "rqid":
                    rq = 1 if names(al, t[3][0]) & {"id", "id_"} else 0
                elif o[0] == "m" and last(o[2]) == "res":
                    rs = 1
            elif t[0] == "ret" and (q != 1 or not rq or not rs):
                bad.setdefault("queued", (n.line, "a tile is accepted without queueing one result for it under its request"))
            return Upd((q, rq, rs), up) if up else (q, rq, rs)
        Table(g, classify, al=al).run(event, (0, 0, 0))
        c.site("spigot", f"{j['f']}:{j['l']}", "deliverTile")
        for k, (line, msg) in bad.items():
            c.bad("spigot", j["q"], k, j["f"], line, msg)
    for j in fns(F, "Meq::Spigot", "getResult"):
        g = build(F, j, inline_class("Meq::Spigot"), access=lambda q: True)
        al = Alias(g)
        bad = {}

        def classify2(e):
            e = strip_cast(e)
            if callof(e, "empty") and mem(e[2], "res_queue_"):
                return ("empty", True)
            if callof(e, "size") and mem(e[2], "res_queue_"):
                return ("empty", False)
            if e[0] == "bin" and callof(strip_cast(e[2]), "size") and mem(strip_cast(e[2])[2], "res_queue_") and strip_cast(e[3]) == ("lit", 0):
                return ("empty", e[1] == "==")
            if callof(e, "maskedCompare") and any(x[0] == "m" and last(x[2]) == "res_queue_" for x in expand(al, e)):
                return ("match", True)
            return None

        def event2(ex, d, n):
            t = n.ev
            if n.kind != "ev":
                return ex
            if callof(t, "pop_front", "erase", "clear") and mem(t[2], "res_queue_"):
                if d.get("match") is not False or d.get("empty") is not False:
                    bad.setdefault("popped", (n.line, "a queued result is thrown away that may match the request, or there is none"))
                return Upd(ex, {"match": None, "empty": None})
            if callof(t, "copy", "operator=", "attach", "xfer", "operator<<=") and t[2] is not None and t[3] and any(x[0] == "m" and last(x[2]) == "res_queue_" for x in expand(al, t[3][0])):
                if d.get("match") is not True or d.get("empty") is not False:
                    bad.setdefault("answer", (n.line, "a queued result is returned that need not match the request"))
                return 1
            if t[0] == "ret" and t[1] is not None:
                k = {last(x[1]) for x in expand(al, t[1]) if x[0] in ("enum", "g")}
                if "RES_MISSING" in k and d.get("empty") is not True:
                    bad.setdefault("missing", (n.line, "the data is reported missing although a queued result may match"))
                if "RES_MISSING" not in k and "RES_FAIL" not in k and not ex:
                    bad.setdefault("nothing", (n.line, "an ordinary code is returned without a queued result"))
            return ex
        Table(g, classify2, al=al).run(event2, 0)
        c.site("spigot", f"{j['f']}:{j['l']}", "getResult")
        for k, (line, msg) in bad.items():
            c.bad("spigot", j["q"], k, j["f"], line, msg)
    c.expect("spigot", 2)
