"""P09: routing of messages: who gets a message, what is forwarded between processes, how addresses and masks match."""
from rules import *
import lockset as LS
from tables import *
from facts import Broken

CORE = ['OCTOPUSSY/src/', 'OCTOPython/src/', 'DMI/src/', 'TimBase/src/']
ASSUMPTIONS = ["conditions are recognised by what they are about (the host part of the destination, the class of a process ...), whatever their form",
               "the iteration over the table of processes, of gateways and of remote subscriptions visits every entry (checked only as far as a pass is not left early)"]
D, W, G, S = "Octopussy::Dispatcher", "Octopussy::WPInterface", "Octopussy::MTGatewayWP", "Octopussy::Subscriptions"


def check(c):
    F = c.load(CORE)
    dispatch(c, F)
    matching(c, F)
    forwarding(c, F)
    incoming(c, F)
    sender(c, F)
    subscriptions(c, F)


def isany(t, al, *ns):
    return bool(set(ns) & names(al, t))


def eqleaf(e):
    """(operands, True for == / False for !=) of an equality in any of its forms"""
    e = strip_cast(e)
    if e[0] == "bin" and e[1] in ("==", "!="):
        return (e[2], e[3]), e[1] == "=="
    if e[0] == "call" and last(e[1]) in ("operator==", "operator!="):
        ops = ([e[2]] if e[2] is not None else []) + list(e[3])
        if len(ops) == 2:
            return tuple(ops), last(e[1]) == "operator=="
    return None


def has(al, t, *ns):
    return set(ns) <= names(al, t)


# ---------------------------------------------------------------- Dispatcher::send

def dispatch(c, F):
    c.rule("delivery", "a message is put into the queue of the process it is addressed to, or of every process that its broadcast address matches or whose subscriptions match it when it is published, and of no other")
    c.rule("forward", "a message whose destination is not just this process is given to every gateway that will forward it, and to no other")
    c.rule("delivery-count", "the number of deliveries reported by the dispatcher is the number of queues the message was put into")
    for j in F.fns(D + "::send"):
        g = build(F, j, inline_near(D, files=(j["f"], "OCTOPUSSY/src/Dispatcher.h"), no=("enqueue", "wildcardAddr", "matchAddr", "hostId", "processId")))
        al = Alias(g)

        def src(v):
            """what an iteration variable ranges over"""
            e = al.all.get(v)
            if e is None:
                return None
            ns = {last(x[1]) for x in walk(e) if x[0] == "call"}
            ms = {last(x[2]) for x in walk(e) if x[0] == "m"}
            tab = "wps" if "wps" in ms else "gateways" if "gateways" in ms else None
            if tab is None:
                return None
            return tab + ("?" if "find" in ns else "*" if ns & {"begin", "cbegin"} else "")

        def vars_in(e):
            return [x[1] for x in expand(al, e) if x[0] == "v" and src(x[1])]

        def classify(e):
            ns = names(al, e)
            eq = eqleaf(e)
            call = last(e[1]) if e[0] == "call" else ""
            if call == "willForward":
                return "wf", True
            if call == "matches":
                if "getSubscriptions" in ns:
                    return "sub", True
                if {"host", "hostId"} <= ns:
                    return "hm", True
                if {"process", "processId"} <= ns:
                    return "pm", True
                if "address" in ns and "wpclass" in ns and "inst" not in ns:
                    return "m1", True
                if "address" in ns and "inst" in ns and "wpclass" not in ns:
                    return "m2", True
            if call == "wildcardAddr":
                if "wpclass" in ns and "inst" not in ns:
                    return "wc", True
                if "inst" in ns:
                    return "wi", True
            if eq:
                if {"host", "hostId"} <= ns:
                    return "gh", not eq[1]
                if {"process", "processId"} <= ns:
                    return "gp", not eq[1]
                if "AidPublish" in ns and "wpclass" in ns and "address" not in ns:
                    return "pub", eq[1]
                if "AidAny" in ns and "wpclass" in ns and "address" not in ns:
                    return "any", eq[1]
                if "end" in ns:
                    vs = vars_in(e)
                    if [v for v in vs if src(v) == "wps?"]:
                        return "found", not eq[1]
                    vs = [v for v in vs if src(v) in ("wps*", "gateways*")]
                    if vs:
                        return "end@" + vs[0], eq[1]
            return None
        T = Table(g, classify, elem=("m1", "m2", "sub", "wf"), al=al)

        def oracles(d):
            G_ = d.get
            local = And(G_("hm"), G_("pm"))
            wc = Or(G_("wc"), Or(G_("pub"), G_("any")) if G_("wc") is None else False)
            bc = Or(wc, G_("wi"))
            direct = And(local, Not(bc), G_("found") if "found" in d else None)
            if And(local, Not(bc)) is False:
                direct = False
            scan = And(local, bc)
            elem = Or(And(G_("m1"), G_("m2")), And(G_("pub"), G_("sub")))
            wide = Or(G_("gh"), G_("gp"))
            return direct, scan, elem, wide, G_("wf")

        def event(ex, d, n):
            t = n.ev
            did = set(ex)
            if t[0] == "decls":
                for x in t[1:]:
                    if src(x[1]) and src(x[1]).endswith("*"):
                        did.add("began " + src(x[1]))
            if t[0] == "call" and last(t[1]) == "enqueue" and t[1].startswith(D):
                ks = {src(v) for v in vars_in(t[3][0])}
                direct, scan, elem, wide, wf = oracles(d)
                rid = "forward" if "gateways*" in ks else "delivery"
                if len(ks) != 1:
                    return ex
                k = next(iter(ks))
                c.site(rid, j["q"], f"line {n.line}: {k}")
                ok = direct is True if k == "wps?" else And(scan, elem) is True if k == "wps*" else And(wide, wf) is True if k == "gateways*" else True
                if not ok:
                    c.bad(rid, j["q"], k + " enqueue", j["f"], n.line, {"wps?": "a message can be delivered here without its destination having been found to be this process, not a broadcast, and attached",
                                                                  "wps*": "a message can be delivered here to a process whose address does not match the destination (class and instance) and which has not subscribed to it",
                                                                  "gateways*": "a message can be given to a gateway which will not forward it, or although it is addressed to this process only"}[k])
                if k in ("wps*", "gateways*") and ("elem " + k) in did:
                    c.bad(rid, j["q"], k + " twice", j["f"], n.line, "a message can be put into the same queue twice")
                did.add(("elem " if k != "wps?" else "") + k)
            return tuple(sorted(did))

        def at_pass(ex, d, n, v):
            k = src(v)
            if k in ("wps*", "gateways*") and ("elem " + k) not in ex:
                direct, scan, elem, wide, wf = oracles(d)
                x = elem if k == "wps*" else wf
                if x is not False:
                    c.bad("delivery" if k == "wps*" else "forward", j["q"], k + " skipped", j["f"], n.line,
                          "a process can be passed over although " + ("its address matches or it may have subscribed to the message" if k == "wps*" else "it is a gateway that would forward the message"))
            return tuple(x for x in ex if x != "elem " + str(k))

        ends = {r[0] for n in g.nodes if n.kind == "branch" for r in [T.leaf(rightmost(n.ev)[0])] if r and r[0].startswith("end@")}

        def at_exit(ex, d, n):
            direct, scan, elem, wide, wf = oracles(d)
            for k in ("wps*", "gateways*"):
                es = [x for x in ends if src(x[4:]) == k]
                if "began " + k in ex and es and not any(d.get(x) for x in es):
                    c.bad("delivery" if k == "wps*" else "forward", j["q"], k + " left", j["f"], j["l"], "the " + ("processes" if k == "wps*" else "gateways") + " after one that takes the message are not looked at")
            if "wps?" not in ex and direct is not False and scan is not True:
                c.bad("delivery", j["q"], "direct missed", j["f"], j["l"], "a message addressed to one process of this host and process can remain undelivered")
            if "began wps*" not in ex and scan is not False and (direct is False or And(d.get("hm"), d.get("pm")) is not False and "found" not in d):
                c.bad("delivery", j["q"], "scan missed", j["f"], j["l"], "a broadcast or published message can be returned without looking through the attached processes")
            if "began gateways*" not in ex and wide is not False:
                c.bad("forward", j["q"], "gateways missed", j["f"], j["l"], "a message with a wider destination can be returned without asking the gateways")
        try:
            T.run(event, (), at_pass, at_exit=at_exit)
        except Broken:
            continue
        # the returned counter follows the deliveries
        bad = []

        def step(a, n, facts):
            t = n.ev
            if n.kind == "ev" and t is not None:
                if t[0] == "call" and t[1] == D + "::enqueue":
                    a += 1
                elif t[0] == "un" and t[1] in ("++", "p++") and strip_cast(t[2]) in rets:
                    a -= 1
                elif t[0] == "asg" and strip_cast(t[2]) in rets:
                    r = strip_cast(t[3])
                    one = t[1] == "+=" and r == ("lit", 1) or t[1] == "=" and r[0] == "bin" and r[1] == "+" and strip_cast(r[2]) == strip_cast(t[2]) and strip_cast(r[3]) == ("lit", 1)
                    if not one and not (t[1] == "=" and r == ("lit", 0)):
                        return []
                    a -= 1 if one else 0
                if abs(a) > 3 or t[0] == "ret" and a and not getattr(n, "inl", False):
                    bad.append(n.line)
                    return []
            return [a]
        rets = {strip_cast(n.ev[1]) for n in g.nodes if n.kind == "ev" and n.ev is not None and n.ev[0] == "ret" and n.ev[1] is not None}
        if rets and all(r[0] == "v" for r in rets):
            run(g, 0, step, only=lambda f: False)
            c.site("delivery-count", j["q"], "counter")
            if bad:
                c.bad("delivery-count", j["q"], "count", j["f"], bad[0], "the number returned differs from the number of queues the message was put into")
    c.expect("delivery", 2)
    c.expect("forward", 1)
    c.expect("delivery-count", 1)


# ---------------------------------------------------------------- matching

def returns(c, rid, F, j, classify, oracle, elem=(), inl=None, why="", atoms=None):
    """every return agrees with the oracle over the conditions known there: oracle(truths, in the pass of a loop) -> True/False/None"""
    g = build(F, j, inl)
    al = Alias(g)
    T = Table(g, lambda e: classify(al, e), elem, al=al)
    k = [0]

    def event(ex, d, n):
        t = n.ev
        if t[0] == "ret" and t[1] is not None:
            tr = tuple(sorted(d.items()))
            want = oracle(d)
            got = T.ev(tr, t[1])
            k[0] += 1
            if atoms:
                # all values of the conditions that were not evaluated on this path
                free = [x for x in atoms[0] if x not in d]
                for bits in range(1 << len(free)):
                    dd = dict(d, **{x: bool(bits >> i & 1) for i, x in enumerate(free)})
                    g2 = T.ev(tuple(sorted(dd.items())), t[1])
                    if atoms[1](dd) and g2 is not None and g2 != oracle(dd):
                        c.bad(rid, j["q"], "return", j["f"], n.line, f"returns {str(g2).lower()} when " + ", ".join(x for x in atoms[0] if dd[x]))
                        break
                return ex
            if want is not None and got is not None and want != got or want is None and got is not None:
                c.bad(rid, j["q"], "return " + str(got), j["f"], n.line, f"returns {str(got).lower()} where " + (why or "the conditions decided so far") + (" say the opposite" if want is not None else " have not been established"))
        return ex
    try:
        T.run(event)
    except Broken:
        return
    c.site(rid, j["q"], f"{k[0]} returns on paths")


def matching(c, F):
    c.rule("match", "two address parts match exactly if they are equal or one of them is a wildcard; two identifiers match exactly if they do so part by part up to a common end or the first multi-part wildcard; a set of subscriptions matches a message exactly if one entry matches both its identifier and its sender")
    for j in F.fns("DMI::AtomicID::matches"):
        def cl(al, e):
            eq = eqleaf(e)
            if e[0] == "call" and last(e[1]) in ("isAny", "isWildcard"):
                o = strip_cast(e[2])
                return ("this " if o == ("this",) else "other ") + last(e[1]), True
            if eq:
                ns = names(al, e)
                if "AidAny" in ns or "AidWildcard" in ns:
                    o = any(x[0] == "v" for x in walk(e))
                    return ("other " if o else "this ") + ("isAny" if "AidAny" in ns else "isWildcard"), eq[1]
                return "eq", eq[1]
            return None

        def oracle(d):
            return Or(*[d.get(a + b) for a in ("this ", "other ") for b in ("isAny", "isWildcard")] + [d.get("eq")])
        # the value is an expression: try all combinations of its conditions
        returns(c, "match", F, j, cl, oracle, inl=inline_near("DMI::AtomicID", files=(j["f"],), no=("isAny", "isWildcard")), 
                atoms=(("this isAny", "this isWildcard", "other isAny", "other isWildcard", "eq"),
                       lambda d: not any(d[a + "isAny"] and d[a + "isWildcard"] for a in ("this ", "other ")) and
                       (not d["eq"] or d["this isAny"] == d["other isAny"] and d["this isWildcard"] == d["other isWildcard"]) and
                       (d["eq"] or not (d["this isAny"] and d["other isAny"]) and not (d["this isWildcard"] and d["other isWildcard"]))))
    for j in F.fns("DMI::HIID::matches"):
        if len(j["params"]) != 1 or "HIID" not in j["params"][0][1]:
            continue

        def cl2(al, e):
            ns = names(al, e)
            eq = eqleaf(e)
            it = [x[1] for x in walk(e) if x[0] == "v"]
            if e[0] == "call" and last(e[1]) == "matches":
                return "part", True
            oth = j["params"][0][0]

            def side(vs):
                for v in vs:
                    ini = al.all.get(v)
                    if v == oth or ini is not None and any(x == ("v", oth) for x in walk(ini)):
                        return "o"
                return "t"
            if e[0] == "call" and last(e[1]) == "isWildcard":
                return side(it) + "wild", True
            if eq and "end" in ns:
                return side(it) + "end", eq[1]
            if eq and any(strip_cast(x) == ("this",) for x in eq[0]):
                return "same", eq[1]
            return None

        def oracle2(d):
            if d.get("same"):
                return True
            tend, oend = d.get("tend"), d.get("oend")
            if tend is False and oend is False:
                # both have a part here
                w = Or(d.get("twild"), d.get("owild"))
                if w:
                    return True
                if d.get("part") is False and w is False:
                    return False
                return None
            return And(Or(tend, d.get("twild") if tend is False else None), Or(oend, d.get("owild") if oend is False else None))
        returns(c, "match", F, j, cl2, oracle2, elem=("tend", "oend", "twild", "owild", "part"), inl=inline_near("DMI::HIID", files=(j["f"],), no=("matches",)), why="the parts compared so far")
        skip_pass(c, "match", F, j, cl2, lambda d: And(d.get("part"), Not(d.get("twild")), Not(d.get("owild"))), "a part is passed over without having matched", ("tend", "oend", "twild", "owild", "part"), inline_near("DMI::HIID", files=(j["f"],), no=("matches",)))
    for j in F.fns(S + "::matches"):
        def cl3(al, e):
            ns = names(al, e)
            if e[0] == "call" and last(e[1]) == "matches":
                if "mask" in ns and "id" in ns and "scope" not in ns:
                    return "id", True
                if "scope" in ns and "from" in ns and "mask" not in ns:
                    return "from", True
                return "other", True
            if eqleaf(e) and "end" in ns:
                return "end", eqleaf(e)[1]
            return None
        loop_search(c, "match", F, j, cl3, lambda d: And(d.get("id"), d.get("from")), ("id", "from", "end"), inline_near(S, files=(j["f"],)), "identifier and sender both match one entry")
    for j in F.fns(D + "::wildcardAddr"):
        def cl4(al, e):
            eq = eqleaf(e)
            ns = names(al, e)
            for k in ("AidPublish", "AidAny"):
                if eq and k in ns:
                    return k, eq[1]
            return None
        ks = ("AidPublish", "AidAny")
        returns(c, "match", F, j, cl4, lambda d: Or(*[d.get(k) for k in ks]), why="publish or any",
                atoms=(ks, lambda d: not (d["AidPublish"] and d["AidAny"])))
    for nm, ops in (("add", ("operator=",)), ("remove", ("erase",))):
        for j in F.fns(S + "::" + nm):
            pid, psc = j["params"][0][0], (j["params"] + [("?", "")])[1][0]

            def cl5(al, e):
                if e[0] == "call" and last(e[1]) == "subsetOf" and len(e[3]) == 1:
                    a, b = strip_cast(e[2]), strip_cast(e[3][0])
                    ma, mb = [last(x[2]) for x in (a, b) if x[0] == "m"] if False else (last(a[2]) if a[0] == "m" else None, last(b[2]) if b[0] == "m" else None)
                    for p, m in ((pid, "mask"), (psc, "scope")):
                        if a == ("v", p) and mb == m:
                            return "new in " + m, True
                        if b == ("v", p) and ma == m:
                            return m + " in new", True
                    return "?", True
                return None
            g = build(F, j, inline_near(S, files=(j["f"],)))
            al = Alias(g)
            T = Table(g, lambda e: cl5(al, e), ("new in mask", "new in scope", "mask in new", "scope in new", "?"), al=al)

            def event(ex, d, n, nm=nm, ops=ops, T=T, j=j):
                t = n.ev
                if nm == "add" and t[0] == "ret" and t[1] is not None and T.ev(tuple(sorted(d.items())), t[1]) is False:
                    c.site("match", j["q"], f"line {n.line}: nothing new")
                    if And(d.get("new in mask"), d.get("new in scope")) is not True:
                        c.bad("match", j["q"], "nothing new", j["f"], n.line, "a subscription is taken for nothing new although it is not established that an existing one covers both its mask and its scope")
                if t[0] == "call" and last(t[1]) in ops:
                    o = strip_cast(t[2]) if t[2] is not None else None
                    if nm == "add" and (o is None or o[0] != "m" or last(o[2]) not in ("mask", "scope")):
                        return ex
                    c.site("match", j["q"], f"line {n.line}: {nm}")
                    want = And(d.get("mask in new"), d.get("scope in new")) if nm == "add" else d.get("mask in new")
                    if "pend" in ex:    # erase(iter++)
                        return ()
                    if want is not True:
                        c.bad("match", j["q"], nm, j["f"], n.line, "an existing subscription is replaced by a new one which does not cover it" if nm == "add" else "a subscription is removed which the given mask does not cover")
                    return ("done",)
                return ex

            def at_pass(ex, d, n, v, nm=nm, j=j):
                v = d.get("mask in new")
                if nm == "remove" and ("pend" in ex or not ex and v is None):
                    c.bad("match", j["q"], "pass", j["f"], n.line, "a subscription covered by the given mask can remain")
                return ("pend",) if nm == "remove" and v and not ex else ()

            def at_exit(ex, d, n, nm=nm, j=j):
                if "pend" in ex:
                    c.bad("match", j["q"], "pass", j["f"], j["l"], "a subscription covered by the given mask can remain")
            try:
                T.run(event, (), at_pass, at_exit=at_exit)
            except Broken:
                pass
    c.expect("match", 6)


def loop_search(c, rid, F, j, classify, oracle, elem, inl, what):
    """returns true only for an element that satisfies the oracle; passes over none that may; false otherwise"""
    g = build(F, j, inl)
    al = Alias(g)
    T = Table(g, lambda e: classify(al, e), elem, al=al)
    ends = any((T.leaf(rightmost(n.ev)[0]) or ("",))[0] == "end" for n in g.nodes if n.kind == "branch")

    def event(ex, d, n):
        t = n.ev
        if t[0] == "ret" and t[1] is not None:
            got = T.ev(tuple(sorted(d.items())), t[1])
            if got is True and oracle(d) is not True:
                c.bad(rid, j["q"], "return true", j["f"], n.line, "returns true without having found that " + what)
            if got is False and ends and d.get("end") is not True:
                c.bad(rid, j["q"], "return false", j["f"], n.line, "returns false before all entries were looked at")
        return ex

    def at_pass(ex, d, n, v):
        if oracle(d) is not False:
            c.bad(rid, j["q"], "pass", j["f"], n.line, "goes on to the next entry although it may be that " + what)
        return ex
    try:
        T.run(event, (), at_pass)
    except Broken:
        return
    c.site(rid, j["q"], what)


def skip_pass(c, rid, F, j, classify, oracle, msg, elem, inl):
    g = build(F, j, inl)
    al = Alias(g)
    T = Table(g, lambda e: classify(al, e), elem, al=al)
    seen = set()

    def at_pass(ex, d, n, v):
        if d and oracle(d) is not True and "tend" in d:
            c.bad(rid, j["q"], "pass", j["f"], n.line, msg)
        return ex
    try:
        T.run(lambda ex, d, n: ex, (), at_pass)
    except Broken:
        return
    c.site(rid, j["q"], "passes")


# ---------------------------------------------------------------- gateways

def gwleaf(al, e):
    ns = names(al, e)
    eq = eqleaf(e)
    call = last(e[1]) if e[0] == "call" else ""
    if eq and ("CONNECTED" in ns or any(x[0] == "enum" and last(x[1]) == "CONNECTED" for x in walk(e))) and ("peerState" in ns or "peerState_" in ns or "peer_state" in ns):
        return "conn", eq[1]
    if eq and any(x[0] == "enum" and last(x[1]) == "INITIALIZING" for x in walk(e)):
        return "init", eq[1]
    if call in ("matches", "prefixedBy") and "id" in ns and ("MsgGWServerOpen" in ns or {"AidGW", "AidServer"} <= ns or "AidServer" in ns):
        return "srv", True
    if eq and "forwarder" in ns:
        return "fw", eq[1]
    if "hops" in ns and e[0] == "bin":
        k = [x[1] for x in walk(e) if x[0] == "lit"]
        if len(k) == 1:
            op, right = e[1], strip_cast(e[3])[0] == "lit"
            if not right:
                op = FLIP.get(op, op)
            lim = k[0]
            if op in (">", "<="):
                return "hops>%d" % lim, op == ">"
            if op in (">=", "<"):
                return "hops>%d" % (lim - 1), op == ">="
            if op in ("!=", "==") and lim == 0:
                return "hops>0", op == "!="
    if e[0] == "call" and call == "hops":
        return "hops>0", True
    if call == "matches":
        if {"rprocess", "process"} <= ns and "to" in ns:
            return "rp", True
        if {"rhost", "host"} <= ns and "to" in ns:
            return "rh", True
        if "remote_subs" in ns:
            if "first" in ns:
                return "am", True
            if "second" in ns:
                return "sm", True
    if eq and "AidPublish" in ns and "wpclass" in ns:
        return "pub", eq[1]
    if eq and "end" in ns and "remote_subs" in ns:
        return "end", eq[1]
    if eq and "AidGatewayWP" in ns and "from" in ns:
        return "fromgw", eq[1]
    if call == "matches" and "id" in ns and "MsgGWRemoteUp" in ns:
        return "up", True
    if eq and "AidBye" in ns:
        return "bye", eq[1]
    if call == "prefixedBy" and "MsgBye" in ns:
        return "bye", True
    if call == "prefixedBy" and "MsgSubscribe" in ns:
        return "subscr", True
    return None


def forwarding(c, F):
    c.rule("will-forward", "a gateway forwards a message exactly if it is connected, the message has not been forwarded before (an announcement of a server: at most three times and not back to where it came from), the destination includes the remote process and host, and some remote process is addressed or has subscribed")
    for j in F.fns(G + "::willForward"):
        g = build(F, j, inline_near(G, files=(j["f"],), no=("peerState", "address")))
        al = Alias(g)
        T = Table(g, lambda e: gwleaf(al, e), ("am", "sm", "end"), al=al)

        def scope(d):
            hops = And(Not(d.get("fw")), Not(d.get("hops>3"))) if d.get("srv") else Not(d.get("hops>0")) if d.get("srv") is False else None
            return And(d.get("conn"), hops, d.get("rp"), d.get("rh"))

        def elem(d):
            return d.get("sm") if d.get("pub") else d.get("am") if d.get("pub") is False else None

        def event(ex, d, n):
            t = n.ev
            if t[0] == "ret" and t[1] is not None:
                got = T.ev(tuple(sorted(d.items())), t[1])
                if got is True and And(scope(d), elem(d)) is not True:
                    c.bad("will-forward", j["q"], "return true", j["f"], n.line, "a message is forwarded although it is not established that " + ("the gateway is connected, the message is within its hop limit and the remote side is in its destination" if scope(d) is not True else "a remote process is addressed or has subscribed"))
                if got is False and scope(d) is not False and d.get("end") is not True:
                    c.bad("will-forward", j["q"], "return false", j["f"], n.line, "a message is refused before all remote processes were looked at")
            return ex

        def at_pass(ex, d, n, v):
            if "remote_subs" in names(al, ("v", v)) and elem(d) is not False:
                c.bad("will-forward", j["q"], "pass", j["f"], n.line, "a remote process is passed over which may be addressed or have subscribed")
            return ex
        try:
            T.run(event, (), at_pass)
        except Broken:
            continue
        c.site("will-forward", j["q"], "decision")
    c.rule("transmit", "a gateway transmits a message it receives exactly if it is connected, the destination includes the remote side, and the message does not come from another gateway (unless it announces a peer); while the connection is being set up messages are held")
    for j in F.fns(G + "::receive"):
        g = build(F, j, inline_near(G, files=(j["f"],), no=("peerState", "address", "transmitMessage", "shutdown")))
        al = Alias(g)
        T = Table(g, lambda e: gwleaf(al, e), (), al=al)

        def event(ex, d, n):
            t = n.ev
            want = And(d.get("conn"), d.get("rp"), d.get("rh"), Or(Not(d.get("fromgw")), d.get("up")))
            if t[0] == "call" and last(t[1]) == "transmitMessage":
                c.site("transmit", j["q"], f"line {n.line}")
                if want is not True:
                    c.bad("transmit", j["q"], "transmit", j["f"], n.line, "a message is transmitted although it is not established that the gateway is connected, the remote side is in its destination and it does not come from a gateway")
                return ("sent",)
            if t[0] == "call" and last(t[1]) == "shutdown":
                return ("shut",)
            if t[0] == "ret" and t[1] is not None:
                v = [last(x[1]) for x in walk(t[1]) if x[0] == "enum"]
                if v == ["ACCEPT"] and not ex:
                    if d.get("init") is True or And(d.get("conn"), d.get("init") is None or None) is True and False:
                        c.bad("transmit", j["q"], "hold", j["f"], n.line, "a message that arrives while the connection is being set up is dropped, not held")
                    elif want is not False:
                        c.bad("transmit", j["q"], "dropped", j["f"], n.line, "a message can be dropped although the remote side is in its destination")
                    elif d.get("conn") is False and d.get("init") is None:
                        c.bad("transmit", j["q"], "hold", j["f"], n.line, "a message can be dropped while the connection is still being set up")
                if v == ["HOLD"] and d.get("init") is not True:
                    c.bad("transmit", j["q"], "held", j["f"], n.line, "a message is held although the connection is not being set up")
            return ex
        try:
            T.run(event)
        except Broken:
            continue
    c.expect("will-forward", 1)
    c.expect("transmit", 1)


def incoming(c, F):
    c.rule("incoming", "a message that came from a remote process has its hop counted and its forwarder recorded before it is sent on, and is sent on exactly once, to its own destination, while the gateway is connected")
    c.rule("remote-table", "the table of remote processes loses an entry only on that process's farewell, and takes a process's subscriptions only after they were read successfully")
    for j in F.fns(G + "::processIncoming"):
        g = build(F, j, inline_near(G, files=(j["f"],), no=("peerState", "address", "processInitMessage", "shutdownReaderThread", "setPeerState", "lprintf")))
        al = Alias(g)
        T = Table(g, lambda e: gwleaf(al, e), (), al=al)
        ref = j["params"][0][0]

        def event(ex, d, n):
            t = n.ev
            s = set(ex)
            if t[0] == "call":
                f = last(t[1])
                if f == "addHop":
                    if "hop" in s:
                        c.bad("incoming", j["q"], "hop", j["f"], n.line, "the hop is counted twice")
                    s.add("hop")
                elif f == "setForwarder":
                    s.add("fw")
                elif f == "send" and t[1].startswith(D) and len(t[3]) == 2:
                    toself = "to" in {last(x[1]) for x in walk(t[3][1]) if x[0] == "call"}
                    mine = any(x == ("v", ref) for x in expand(al, t[3][0]))
                    if mine:
                        c.site("incoming", j["q"], f"line {n.line}")
                        if not {"hop", "fw"} <= s:
                            c.bad("incoming", j["q"], "hop", j["f"], n.line, "a message from a remote process is sent on without counting the hop and recording the forwarder: it can circulate between the processes")
                        if "sent" in s:
                            c.bad("incoming", j["q"], "twice", j["f"], n.line, "a message from a remote process is sent on twice")
                        if d.get("conn") is not True:
                            c.bad("incoming", j["q"], "state", j["f"], n.line, "a message from a remote process is sent on while the gateway is not connected")
                        if not any(last(x[1]) == "to" for x in expand(al, t[3][1]) if x[0] == "call"):
                            c.bad("incoming", j["q"], "to", j["f"], n.line, "a message from a remote process is sent on to another destination than its own")
                        s.add("sent")
                elif f == "erase" and "remote_subs" in names(al, t[2]):
                    c.site("remote-table", j["q"], f"erase line {n.line}")
                    if d.get("bye") is not True:
                        c.bad("remote-table", j["q"], "erase", j["f"], n.line, "a remote process is dropped from the table although it did not say farewell")
                elif f == "unpack" and t[1].startswith(S):
                    s.add("unpacked")
                elif f == "operator=" and t[2] is not None and "remote_subs" in names(al, t[2]):
                    c.site("remote-table", j["q"], f"update line {n.line}")
                    if d.get("conn") is True and "unpacked" not in s:
                        c.bad("remote-table", j["q"], "update", j["f"], n.line, "the subscriptions of a remote process are replaced although none were read")
            return tuple(sorted(s))

        def at_exit(ex, d, n):
            if d.get("conn") is True and "sent" not in ex:
                c.bad("incoming", j["q"], "dropped", j["f"], j["l"], "a message from a remote process can be swallowed while the gateway is connected")
        try:
            T.run(event, (), at_exit=at_exit)
        except Broken:
            continue
    c.expect("incoming", 1)
    c.expect("remote-table", 2)


# ---------------------------------------------------------------- the sending side

def sender(c, F):
    c.rule("stamp", "a process sends or publishes a message only after resetting its hop count and stamping it with the sender's own address and state")
    c.rule("scope", "a published message goes beyond this process only if its scope is at least the host, and beyond this host only if its scope is global; a destination 'local' means the sender's own host and process")
    for nm in ("send", "publish"):
        for j in F.fns(W + "::" + nm):
            g = build(F, j, inline_near(W, files=(j["f"],), no=("address", "state", "dsp", "send", "publish")))
            al = Alias(g)
            if not any(n.kind == "ev" and n.ev is not None and n.ev[0] == "call" and n.ev[1] == D + "::send" for n in g.nodes):
                continue

            def cl(e):
                ns = names(al, e)
                eq = eqleaf(e)
                if eq and "AidLocal" in ns:
                    return ("lhost" if "host" in ns else "lproc" if "process" in ns else "l?"), eq[1]
                if e[0] == "bin" and e[1] in ("<", ">=", ">", "<="):
                    k = [last(x[1]) for x in walk(e) if x[0] == "enum"]
                    if len(k) == 1:
                        op = e[1] if any(x[0] == "enum" for x in walk(e[3])) else FLIP.get(e[1], e[1])
                        if op in ("<", ">="):
                            return "<" + k[0], op == "<"
                        if op in ("<=", ">") and k[0] in ("HOST", "LOCAL"):
                            return "<" + {"LOCAL": "HOST", "HOST": "GLOBAL"}[k[0]], op == "<="
                return None
            T = Table(g, cl, (), al=al)

            def val(d, t, ex):
                """what a part of the destination is: 'own', 'any', ... on this path"""
                t = strip_cast(t)
                while t[0] == "ctor" and len(t[2]) == 1 or t[0] == "call" and last(t[1]) == "AtomicID" and t[3]:
                    t = strip_cast(t[2][0] if t[0] == "ctor" else t[3][0])
                if t[0] == "v":
                    for v, x in ex:
                        if v == "=" + t[1]:
                            return x
                    e = al.all.get(t[1])
                    return val(d, e, ex) if e is not None and e != t else "?"
                if t[0] == "cond":
                    v = T.ev(tuple(sorted(d.items())), t[1])
                    if v is None:
                        a, b = val(d, t[2], ex), val(d, t[3], ex)
                        return a if a == b else "?" if "?" in (a, b) else "undecided"
                    return val(d, t[2] if v else t[3], ex)
                ns = {last(x[1]) for x in walk(t) if x[0] in ("call", "g")} | {last(x[2]) for x in walk(t) if x[0] == "m"}
                if "AidAny" in ns:
                    return "any"
                if "address" in ns or "address_" in ns:
                    return "own " + ("host" if "host" in ns else "process" if "process" in ns else "?")
                return "?"

            def event(ex, d, n, nm=nm):
                t = n.ev
                s = dict(ex)
                if t[0] == "call":
                    f = last(t[1])
                    if f == "setHops" and t[3] and strip_cast(t[3][0]) == ("lit", 0):
                        s["hops"] = 1
                    elif f == "setFrom" and t[3] and names(al, t[3][0]) & {"address", "address_"}:
                        s["from"] = 1
                    elif f == "setState":
                        s["state"] = 1
                    elif f == "operator=" and t[2] is not None and strip_cast(t[2])[0] == "v":
                        s["=" + strip_cast(t[2])[1]] = val(d, t[3][0], ex)
                    elif f == "operator=" and t[2] is not None and strip_cast(t[2])[0] == "call" and last(strip_cast(t[2])[1]) in ("host", "process"):
                        s["to." + last(strip_cast(t[2])[1])] = val(d, t[3][0], ex)
                    elif t[1] == D + "::send":
                        c.site("stamp", j["q"], f"line {n.line}")
                        miss = [x for x in ("hops", "from", "state") if x not in s]
                        if miss:
                            c.bad("stamp", j["q"], ", ".join(miss), j["f"], n.line, "a message is sent without setting its " + ", ".join({"hops": "hop count", "from": "sender", "state": "state"}[x] for x in miss))
                        to = strip_cast(t[3][1])
                        if to[0] == "v" and to[1] in al.all and al.all[to[1]] is not None:
                            to = strip_cast(al.all[to[1]])
                        if nm == "publish" and to[0] == "ctor" and len(to[2]) == 4:
                            c.site("scope", j["q"], f"line {n.line}")
                            for i, part, lim in ((2, "process", "<HOST"), (3, "host", "<GLOBAL")):
                                v = val(d, to[2][i], tuple(s.items()))
                                lo = d.get(lim)
                                if lim == "<HOST" and lo is None and d.get("<GLOBAL") is False:
                                    lo = False
                                if not any(x.startswith("<") for x in d):
                                    continue
                                if v == "any" and lo is not False:
                                    c.bad("scope", j["q"], part, j["f"], n.line, f"a message of limited scope is published to any {part}")
                                if v.startswith("own") and (v != "own " + part or lo is not True):
                                    c.bad("scope", j["q"], part, j["f"], n.line, f"a message published beyond its own {part} is addressed to {v} only" if v == "own " + part else f"the {part} of the destination is taken from the sender's {v[4:]}")
                        if nm == "send":
                            c.site("scope", j["q"], f"line {n.line}")
                            for part, k in (("host", "lhost"), ("process", "lproc")):
                                if d.get(k) is not False and not (d.get(k) is True and s.get("to." + part) == "own " + part):
                                    if any(n2.kind == "branch" and n2.ev is not None and (cl(strip_cast(n2.ev)) or ("",))[0] == k for n2 in g.nodes):
                                        c.bad("scope", j["q"], "local " + part, j["f"], n.line, f"a message for the local {part} can be sent without putting the sender's {part} into its destination")
                                    elif any(n2.kind == "branch" and n2.ev is not None and (cl(strip_cast(n2.ev)) or ("",))[0] in ("lhost", "lproc") for n2 in g.nodes) or not any(n2.ev is not None and "AidLocal" in names(al, n2.ev) for n2 in g.nodes if n2.kind == "ev"):
                                        c.bad("scope", j["q"], "local " + part, j["f"], n.line, f"'local' is never replaced by the sender's {part} in a destination")
                return tuple(sorted(s.items(), key=str))
            try:
                T.run(event)
            except Broken:
                continue
    c.expect("stamp", 2)
    c.expect("scope", 2)


# ---------------------------------------------------------------- subscriptions

def subscriptions(c, F):
    c.rule("subscribe", "a change of a started process's subscriptions is published to the others; starting publishes them in any case")
    for nm, op in (("subscribe", "add"), ("unsubscribe", "remove")):
        for j in F.fns(W + "::" + nm):
            g = build(F, j, inline_near(W, files=(j["f"],), no=("publishSubscriptions",)))
            al = Alias(g)

            def cl(e):
                e2 = strip_cast(e)
                if e2[0] == "m" and last(e2[2]) == "started":
                    return "started", True
                ns = {last(x[1]) for x in expand(al, e) if x[0] == "call"}
                if op in ns:
                    return "change", True
                return None
            T = Table(g, cl, (), al=al)

            def event(ex, d, n):
                t = n.ev
                if t[0] == "call" and t[1] == S + "::" + op:
                    return tuple(sorted(set(ex) | {"op"}))
                if t[0] == "call" and last(t[1]) == "publishSubscriptions":
                    return tuple(sorted(set(ex) | {"pub"}))
                return ex

            def at_exit(ex, d, n):
                if "op" in ex and "pub" not in ex and And(d.get("change"), d.get("started")) is not False:
                    c.bad("subscribe", j["q"], "publish", j["f"], j["l"], "changed subscriptions of a started process are not published: other processes keep routing by the old ones")
            try:
                T.run(event, (), at_exit=at_exit)
            except Broken:
                continue
            c.site("subscribe", j["q"], nm)
    for j in F.fns(W + "::do_start"):
        g = build(F, j, inline_near(W, files=(j["f"],), no=("publishSubscriptions", "publish")))
        bad = []

        def step(a, n, facts):
            t = n.ev
            if n.kind == "ev" and t is not None:
                if t[0] == "call" and last(t[1]) == "publishSubscriptions":
                    return [a | 1]
                if t[0] == "call" and last(t[1]) == "detach":
                    return [a | 2]
            if n.kind == "exit" and not a:
                bad.append(n)
            return [a]
        run(g, 0, step, only=lambda f: False)
        c.site("subscribe", j["q"], "start")
        if bad:
            c.bad("subscribe", j["q"], "start", j["f"], j["l"], "a process can be started without publishing its subscriptions")
    c.rule("pack-accounting", "adding, removing and clearing subscriptions keeps the recorded packed size in step with the entries")
    for nm, ops, sign in (("add", ("push_back", "insert", "push_front", "emplace_back"), "+="), ("remove", ("erase",), "-=")):
        for j in F.fns(S + "::" + nm):
            g = build(F, j, inline_near(S, files=(j["f"],)))
            ev = [n for n in g.nodes if n.kind == "ev" and n.ev is not None]
            n1 = [n for n in ev if n.ev[0] == "call" and last(n.ev[1]) in ops and n.ev[2] is not None and "subs" in names(Alias(g), n.ev[2])]
            if not n1:
                continue
            bad = set()

            def step(a, n, facts):
                t = n.ev
                if n.kind == "ev" and t is not None:
                    if n in n1:
                        a = a + 1
                    elif t[0] == "asg" and strip_cast(t[2])[0] == "m" and last(strip_cast(t[2])[2]) == "pksize":
                        plus = t[1] == "+=" or t[1] == "=" and any(x[0] == "bin" and x[1] == "+" for x in walk(t[3]))
                        a = a - 1
                if n.kind == "exit" and a != 0 or abs(a) > 3:
                    bad.add(n.line)
                    return []
                return [a]
            if nm == "add":
                # a change of an existing entry adjusts the size as well
                for n in ev:
                    if n.ev[0] == "call" and last(n.ev[1]) == "operator=" and n.ev[2] is not None and strip_cast(n.ev[2])[0] == "m" and last(strip_cast(n.ev[2])[2]) == "mask" and "subs" in names(Alias(g), n.ev[2]):
                        n1.append(n)
            run(g, 0, step, only=lambda f: False)
            c.site("pack-accounting", j["q"], nm)
            if bad:
                c.bad("pack-accounting", j["q"], nm, j["f"], n1[0].line, f"an entry can be {'added' if nm == 'add' else 'removed'} without adjusting the packed size by it: packing the subscriptions fails")
    c.expect("subscribe", 3)
    c.expect("pack-accounting", 2)
