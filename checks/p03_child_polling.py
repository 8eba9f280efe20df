"""P03 child polling: policies, accounting, locking and wakeups in the polling of a node's children."""
import itertools
from rules import *
import lockset as LS
from ir import fn, pp, walk, last, deref, fields_in

FILES = ["MEQ/src/NodeNursery.cc", "MEQ/src/Node.cc", "MEQ/src/MTPool.cc", "MEQ/src/Node_init.cc", "MEQ/src/Node_commands.cc"]
NN = "Meq::NodeNursery::"
MT = NN + "NodeMT::"
PC = MT + "child_poll_cond_"
BC = "Meq::MTPool::Brigade::cond_"
ASSUMPTIONS = ["executing a child never changes the fail / missing-data policies of the polling parent",
               "the poll set-up writes poll state before any work order of the poll can run (it holds the pool lock)"]
always = lambda q: True


inl = inline_near(NN, files=("MEQ/src/NodeNursery.cc",))


def check(c):
    F = c.load(FILES)
    LA = LS.LockAnalysis(F)
    learn_bits(F)

    # ---------------- locking -------------------------------------------------------------------
    r = c.rule("P03-guard", "state shared with worker threads (result queue, counts, abandon and active flags) is accessed under the poll mutex, except while setting up a poll under the pool lock")
    table = {MT + x: PC for x in ("child_retqueue_", "child_retcount_", "numchildren_", "abandon_", "polling_")}
    guarded(c, LA, r, table)
    c.expect(r, 15)
    r = c.rule("P03-wait", "waiting for child results: poll mutex held, condition re-tested in a loop")
    check_waits(c, LA, r, lambda j: j["q"].startswith(NN))
    c.expect(r, 2)

    # ---------------- receivers ------------------------------------------------------------------
    r = c.rule("P03-recv", "a delivered child result of an active poll is counted exactly once, its code recorded for that child and its result kept (or discarded in a background poll); nothing happens for an inactive poll")
    rn = c.rule("P03-notify", "a receiver that makes the poller's wait condition false (last result, queue filled, poll abandoned) wakes the poller")
    rp = c.rule("P03-policy", "abort, or a fail/missing result under the matching abandon policy, stops the poll; anything else lets it continue (serial and multithreaded polls agree)")
    recv = receivers(F)
    for j in recv:
        receiver(c, F, r, rn, rp, j)
    c.expect(r, 3)
    c.expect(rn, 3)
    serial_policy(c, F, rp)
    c.expect(rp, 4)

    # ---------------- polls ----------------------------------------------------------------------
    r = c.rule("P03-enabled", "a child is executed or queued for execution only under a test that this very child is enabled, and a disabled child's code is reset")
    enabled(c, F, r)
    c.expect(r, 6)
    r = c.rule("P03-order", "children are addressed through the poll order and the loops over children cover all of them")
    loops(c, F, r)
    c.expect(r, 5)
    r = c.rule("P03-setup", "each multithreaded poll activates itself and resets the abandon flag, the result count and the expected count before any worker can take its orders; expected count equals orders placed")
    setup(c, F, r)
    c.expect(r, 3)
    r = c.rule("P03-refuse", "an asynchronous or background poll is refused while another one is in progress")
    refuse(c, F, r)
    c.expect(r, 2)
    r = c.rule("P03-final", "after a synchronous poll the ignore policies clear exactly the corresponding bit of the cumulative code, abort is reported, and fails of children are returned unless ignored")
    final(c, F, r)
    c.expect(r, 4)
    r = c.rule("P03-await", "the asynchronous poll reports 'no more results' only when all results have been received (or it was aborted or not started), and hands out each queued result once")
    awaitres(c, F, r)
    c.expect(r, 3)
    r = c.rule("P03-busy", "a node marked idle while its children are polled is marked busy again on every way out")
    busy(c, F, r)
    c.expect(r, 3)
    r = c.rule("P03-steps", "step children are polled in the background exactly when the children's poll was not stopped by abort, or by a fail/missing result under the abandon policy")
    steps(c, F, r)
    c.expect(r, 2)
    r = c.rule("P03-accum", "every child code obtained in a synchronous poll is recorded for that child and ORed into the cumulative code")
    accum(c, F, r)
    c.expect(r, 2)
    r = c.rule("P03-porder", "a custom poll order is installed only when complete, and is a permutation: each child enters once")
    porder(c, F, r)
    c.expect(r, 1)
    r = c.rule("P03-abort", "aborting or finishing a poll deactivates it, withdraws its queued orders and wakes the poller; stop of a multithreaded poll withdraws its orders")
    aborts(c, F, r)
    c.expect(r, 2)


def receivers(F):
    """member functions passed as work order callbacks"""
    out = []
    for q in sorted(F.funcs):
        if q.startswith(NN):
            for j in F.fns(q):
                if any("WorkOrder &" in p[1] for p in j["params"]):
                    out.append(j)
    if len(out) < 3:
        raise Broken("work order callbacks of the polls not found")
    return out


def guarded(c, LA, r, table):
    F = c.F
    setup = set()
    for j in F.all():
        if any(t[0] == "call" and t[1] == "Meq::MTPool::Brigade::placeWorkOrder" for _, _, _, t in fn(j).tree()):
            setup.add(j["q"])
    fields = set(table)
    for j in F.all():
        if not j["q"].startswith(NN) or last(j["q"]) == "(ctor)":
            continue
        if not any(x[0] == "m" and x[2] in fields for _, _, _, t in fn(j).tree() for x in walk(t)) and \
           not any(x[0] == "m" and x[2] in fields for _, t in fn(j).conds() for x in walk(t)):
            continue
        g, held = LA.analyse(j)
        for n, fld in LS.field_events(g, held, fields):
            if n.func != j["q"] or n.ev[0] == "minit":
                continue
            c.site(r, "%s:%d" % (n.file, n.line), "%s in %s" % (last(fld), j["q"]))
            if PC in held[n.id] or (j["q"] in setup and BC in held[n.id]):
                continue
            # set-up code factored out into a helper of the polls
            ch = LA.obligation(j, PC)
            if ch is None:
                continue
            if all(cj["q"] in setup for cj in LA.callsites().get(j["q"], [])) and LA.callsites().get(j["q"]) and LA.obligation(j, BC) is None:
                continue
            c.bad(r, j["q"], "%s %s" % ("write" if LS.writes(n.ev, fld) else "read", last(fld)), n.file, n.line,
                  "%s is accessed without the poll mutex" % last(fld), ch)


# ---------------- policy decision tables ----------------------------------------------------------

BITS = ("RES_ABORT", "RES_FAIL", "RES_MISSING")
POL = ("Ignore", "AbandonPropagate", "CollectPropagate")


def polname(t):
    """which policy an expression denotes"""
    for x in walk(t):
        if x[0] == "m" and last(x[2]) in ("fail_policy_", "missing_data_policy_"):
            return "fp" if last(x[2]) == "fail_policy_" else "mp"
        if x[0] == "call" and last(x[1]) in ("failPolicy", "missingDataPolicy"):
            own = "" if "stepchildren" not in repr(x) else "step-"
            return own + ("fp" if last(x[1]) == "failPolicy" else "mp")
    return None


def polconst(t):
    for x in walk(t):
        if x[0] == "g" and last(x[1]).startswith("Aid") and last(x[1])[3:] in POL:
            return last(x[1])[3:]
        if x[0] == "enum" and last(x[1]).startswith("Aid") and last(x[1])[3:] in POL:
            return last(x[1])[3:]
    return None


ENUMV = {}


def learn_bits(F):
    for j in F.all():
        if not j["q"].startswith("Meq::Node"):
            continue
        f = fn(j)
        for t in [t for _, _, _, t in f.tree()] + [t for _, t in f.conds()]:
            for x in walk(t):
                if x[0] == "enum" and last(x[1]).startswith("RES_") and isinstance(x[2], int):
                    ENUMV[x[2]] = last(x[1])


def litbits(v):
    v &= 0xffffffff
    out = [n for k, n in sorted(ENUMV.items()) if k and (k & v) == k and k & (k - 1) == 0]
    return out


def maskbits(t):
    """names of the result bits in a mask expression"""
    if t[0] == "lit":
        return litbits(t[1]) or None
    if t[0] == "un" and t[1] == "~":
        return None
    if t[0] == "enum":
        return [last(t[1])]
    if t[0] == "bin" and t[1] == "|":
        a, b = maskbits(t[2]), maskbits(t[3])
        return a + b if a is not None and b is not None else None
    if t[0] == "cast":
        return maskbits(t[3])
    return None


def know(facts, codes):
    """-> constraints: list of predicates over (bits dict, fp, mp)"""
    out = []
    for f in facts.s:
        if f[0] != "a":
            continue
        k, v = f[1], f[2]
        if k[0] == "eq":
            sides = [x for x in (k[1], k[2]) if isinstance(x, tuple)]
            # bit test: 0 == (X & mask)
            for x in sides:
                if x[0] == "bin" and x[1] == "&" and k[3] == 0 and (k[1] is None or k[2] is None):
                    for a, b in ((x[2], x[3]), (x[3], x[2])):
                        mb = maskbits(b)
                        if mb and codes(a):
                            if v:
                                out.append(lambda B, fp, mp, mb=mb: all(not B.get(z, False) for z in mb))
                            else:
                                out.append(lambda B, fp, mp, mb=mb: any(B.get(z, False) for z in mb))
            if len(sides) == 2:
                p = polname(sides[0]) or polname(sides[1])
                q = polconst(sides[0]) or polconst(sides[1])
                if p and q:
                    if p == "fp":
                        out.append(lambda B, fp, mp, q=q, v=v: (fp == q) == v)
                    elif p == "mp":
                        out.append(lambda B, fp, mp, q=q, v=v: (mp == q) == v)
    return out


def combos(cons):
    for a, f, m in itertools.product((False, True), repeat=3):
        B = {"RES_ABORT": a, "RES_FAIL": f, "RES_MISSING": m}
        for fp in POL:
            for mp in POL:
                if all(p(B, fp, mp) for p in cons):
                    yield B, fp, mp


def stop_spec(B, fp, mp):
    if B["RES_ABORT"]:
        return True
    if B["RES_FAIL"]:
        return fp == "AbandonPropagate"
    if B["RES_MISSING"]:
        return mp == "AbandonPropagate"
    return False


def words(B, fp, mp):
    s = "+".join(x[4:].lower() for x in BITS if B[x]) or "plain"
    return "a %s result with fail policy %s and missing-data policy %s" % (s, fp, mp)


def anycode(x):
    return True


def receiver(c, F, r, rn, rp, j):
    g = build(F, j, inl)
    flds = {k: MT + k for k in ("child_retqueue_", "child_retcount_", "abandon_", "polling_")}
    sync = any(n.ev and any(x[0] == "m" and x[2] == MT + "pchildres_" for x in walk(n.ev)) for n in g.nodes)
    queue = any(n.ev and is_call(n.ev, "push_back", "emplace_back", "push_front", "insert", obj=MT + "child_retqueue_") for n in g.nodes)
    kind = "sync" if sync else ("async" if queue else "background")

    def isres(t):
        return any(x[0] == "m" and last(x[2]) == "resref" for x in walk(t))

    def keep(ev, f, n):
        if ev[0] == "call" and last(ev[1]) in ("xfer", "operator<<=", "operator=", "copy", "swap", "detach", "unlock", "attach"):
            if (ev[2] is not None and isres(ev[2])) or any(isres(a) for a in ev[3] if a is not None):
                return 1
        return 0
    m = {"count": lambda ev, f, n: delta(ev, MT + "child_retcount_"),
         "push": lambda ev, f, n: 1 if is_call(ev, "push_back", "emplace_back", "push_front", "insert", obj=MT + "child_retqueue_") else 0,
         "code": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], NN + "child_retcodes_") else 0,
         "keep": keep,
         "abandon": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], MT + "abandon_") and f.eval(ev[3]) is not False else 0,
         "cast": lambda ev, f, n: 1 if is_call(ev, "broadcast", "signal") and cond_is(f, ev) else 0,
         "clear": lambda ev, f, n: 1 if is_call(ev, "Meq::MTPool::Brigade::clearQueue") else 0}
    outs, res = outcomes(g, m, cap=64, stable=always)
    # facts right before exit, with 'stable' they still describe the counters
    for o in outs:
        if o.kind != "exit":
            continue
        pol = o.facts.eval(mtf("polling_"))
        ab_before = o.counts["abandon"] == 0 and o.facts.eval(mtf("abandon_")) is True
        c.site(r, "%s:%d" % (o.node.file, o.node.line), "%s %s polling=%s" % (j["q"], o.counts, pol))
        if o.counts["count"] == 0 and o.counts["code"] == 0 and o.counts["push"] == 0:
            if not (pol is False or ab_before):
                report_path(c, r, g, res, o, j["q"], "dropped", "a child result of an active poll is dropped without being counted")
            continue
        if pol is not True:
            report_path(c, r, g, res, o, j["q"], "inactive", "a result is accepted without checking that its poll is still active")
        if o.counts["count"] != 1:
            report_path(c, r, g, res, o, j["q"], "counted %s" % o.counts["count"], "a child result is counted %d times" % o.counts["count"])
        if o.counts["code"] != 1:
            report_path(c, r, g, res, o, j["q"], "code %s" % o.counts["code"], "the child's result code is not recorded")
        if o.counts["keep"] < 1:
            report_path(c, r, g, res, o, j["q"], "result lost", "the child's result is neither stored nor released")
        if kind == "async" and o.counts["push"] != 1:
            report_path(c, r, g, res, o, j["q"], "push %s" % o.counts["push"], "a child result is queued %d times" % o.counts["push"])
        # wakeups
        c.site(rn, "%s:%d" % (o.node.file, o.node.line), "%s broadcast=%d" % (j["q"], o.counts["cast"]))
        if not o.counts["cast"]:
            more = o.facts.eval(("bin", "<", mtf("child_retcount_"), mtf("numchildren_"))) is True
            noab = o.counts["abandon"] == 0 and (o.facts.eval(mtf("abandon_")) is False or kind == "background")
            if kind == "async":
                report_path(c, rn, g, res, o, j["q"], "async no wake", "queues a child result without waking the polling thread")
            elif not more:
                report_path(c, rn, g, res, o, j["q"], "last no wake", "may deliver the last awaited result without waking the polling thread")
            elif not noab:
                report_path(c, rn, g, res, o, j["q"], "abandon no wake", "abandons the poll without waking the polling thread")
        # policy
        if kind == "sync":
            cons = know(o.facts, anycode)
            stop = o.counts["abandon"] > 0
            for B, fp, mp in combos(cons):
                c.site(rp, "%s:%d" % (o.node.file, o.node.line), "%s: %s -> %s" % (last(j["q"]), words(B, fp, mp), "stop" if stop else "go on"))
                if stop_spec(B, fp, mp) != stop:
                    report_path(c, rp, g, res, o, j["q"], "%s %s" % ("stops" if stop else "goes on", words(B, fp, mp)),
                                "the multithreaded poll %s after %s" % ("is stopped" if stop else "goes on", words(B, fp, mp)))
                    break
            if stop and not o.counts["clear"]:
                report_path(c, rp, g, res, o, j["q"], "not withdrawn", "an abandoned poll leaves its queued work orders in the pool")
    # the slot of the result and of the code must be this child's
    for n in g.nodes:
        if n.kind not in ("ev", "iret") or not n.ev:
            continue
        for x in walk(n.ev):
            if x[0] == "call" and last(x[1]) == "operator[]" and x[2] is not None and \
               (denotes(x[2], NN + "child_retcodes_") or any(y[0] == "m" and y[2] == MT + "pchildres_" for y in walk(x[2]))):
                ix = strip_cast(x[3][0])
                if ix != ("v", j["params"][0][0]):
                    c.bad(r, j["q"], "slot " + pp(ix), n.file, n.line, "the result is recorded under index %s instead of the child's own" % pp(ix))


def cond_is(f, ev):
    t = f.val(ev[2]) if ev[2] is not None else None
    return t is not None and any(x[0] == "m" and x[2] == PC for x in walk(t))


def mtf(name):
    return ("m", ("m", ("this",), NN + "mt"), MT + name)


# ---------------- serial poll ----------------------------------------------------------------------

def poll_functions(F):
    out = []
    for q in sorted(F.funcs):
        if not q.startswith(NN):
            continue
        for j in F.fns(q):
            for _, _, _, t in fn(j).tree():
                if t[0] == "call" and t[1] == "Meq::MTPool::Brigade::placeWorkOrder":
                    out.append(j)
                    break
    if len(out) < 3:
        raise Broken("only %d polling functions found" % len(out))
    return out


def is_exec(ev):
    return ev is not None and ev[0] == "call" and ev[1] == "Meq::NodeFace::execute"


def can_exit(g):
    """nodes from which the normal exit can be reached without an exception"""
    pred = {}
    for n in g.nodes:
        for m, lab in n.succ:
            if isinstance(lab, tuple) and lab[0] == "exc":
                continue
            pred.setdefault(m.id, []).append(n.id)
    seen, work = {g.exit.id}, [g.exit.id]
    while work:
        for p in pred.get(work.pop(), ()):
            if p not in seen:
                seen.add(p)
                work.append(p)
    return seen


def serial_policy(c, F, rp):
    for j in F.fns(NN + "syncPoll"):
        g = build(F, j, noget)
        comp, nontriv = LS.sccs(g)
        ex = [n for n in g.nodes if n.kind == "ev" and is_exec(n.ev)]
        loops = {comp[n.id] for n in ex if comp[n.id] in nontriv}
        alive = can_exit(g)
        conds = [n.ev for n in g.nodes if n.kind == "branch" and comp[n.id] in loops and n.ev[0] == "bin" and
                 n.ev[1] in ("<", "!=", ">", ">=", "<=") and (is_num(n.ev[2]) or is_num(n.ev[3]))]
        if not ex or not conds:
            continue

        def step(a, n, facts):
            if n.kind == "ev" and is_exec(n.ev):
                return ["run"]
            if a == "run" and comp[n.id] not in loops and n.kind not in ("catch", "nop") and n.id in alive:
                return ["left"]
            return [a]
        res = run(g, "no", step, cap=500, stable=always, only=about("RES_", "failPolicy", "missingDataPolicy", "fail_policy_", "missing_data_policy_", "numChildren", "retcode", "Policy"))
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if a != "run":
                continue
            again = n.kind == "ev" and is_exec(n.ev)
            out = comp[nid] not in loops and n.kind not in ("nop", "catch", "excexit", "excjoin") and nid in alive
            if not again and not out:
                continue
            for fs in fss:
                facts = Facts(fs)
                ks = [facts.eval(k) for k in conds]
                if out and (True not in ks or False in ks):
                    continue
                stop = not again
                cons = know(facts, anycode)
                if again and not cons:
                    continue
                for B, fp, mp in combos(cons):
                    c.site(rp, "%s:%d" % (n.file, n.line), "serial: %s -> %s" % (words(B, fp, mp), "stop" if stop else "go on"))
                    if stop_spec(B, fp, mp) != stop:
                        c.bad(rp, j["q"], "serial %s %s" % ("stops" if stop else "goes on", words(B, fp, mp)), n.file, n.line,
                              "the serial poll %s after %s" % ("stops" if stop else "goes on to the next child", words(B, fp, mp)),
                              trace(g, res, nid, a, fs))
                        break


# ---------------- enabled children -------------------------------------------------------------------

def child_arg(t):
    """index expression of the child an event executes / queues"""
    for x in walk(t):
        if x[0] == "call" and last(x[1]) == "getChild":
            return x[3][0]
        if x[0] == "call" and last(x[1]) == "operator[]" and x[2] is not None and denotes(x[2], NN + "children_"):
            return x[3][0]
    return None


def noget(cj, t):
    return inl(cj, t) and last(cj["q"]) not in ("getChild", "isChildEnabled", "isChildValid", "numChildren")


def enabled(c, F, r):
    seen = set()
    for q in sorted(F.funcs):
        if not q.startswith(NN):
            continue
        for j in F.fns(q):
            if last(q) == "getChild":
                continue
            if not any((t[0] == "call" and (t[1] == "Meq::NodeFace::execute" or t[1] == "Meq::MTPool::Brigade::placeWorkOrder")) for _, _, _, t in fn(j).tree()):
                continue
            if all(cj["q"].startswith(NN) for cj in callers(F, q)) and callers(F, q) and private_helper(q):
                continue
            g = build(F, j, noget)
            res = run(g, 0, lambda a, n, f: [a], cap=40, stable=always)
            for (nid, a), fss in res.seen.items():
                n = g.nodes[nid]
                if n.kind not in ("ev", "iret") or not n.ev or n.ev[0] != "call":
                    continue
                ex = is_exec(n.ev) or n.ev[1] == "Meq::MTPool::Brigade::placeWorkOrder"
                if ex:
                    ch = child_arg(n.ev[2]) if is_exec(n.ev) else child_arg(n.ev)
                    if ch is None:
                        for fs in fss:
                            v = Facts(fs).val(n.ev)
                            ch = child_arg(v)
                    if ch is None:
                        continue
                    c.site(r, "%s:%d" % (n.file, n.line), "%s child %s" % (j["q"], pp(ch)))
                    for fs in fss:
                        facts = Facts(fs)
                        if not known_enabled(g, facts, ch, True):
                            c.bad(r, j["q"], "not enabled " + ("exec" if is_exec(n.ev) else "queue"), n.file, n.line,
                                  "child %s is %s without a test that it is enabled" % (pp(ch), "executed" if is_exec(n.ev) else "queued for execution"), trace(g, res, nid, a, fs))
                            break
                if n.ev[0] == "call" and n.ev[1] == "Meq::MTPool::WorkOrder::(ctor)":
                    pass
            # the work order must carry the index of the child it executes
            for n in g.nodes:
                if n.ev and n.kind == "ev":
                    for x in walk(n.ev):
                        if x[0] == "ctor" and x[1] == "Meq::MTPool::WorkOrder" and len(x[2]) >= 4:
                            ch = child_arg(x[2][2])
                            if ch is not None and norm(strip_cast(x[2][3])) != norm(strip_cast(ch)):
                                c.bad(r, j["q"], "order index " + pp(x[2][3]), n.file, n.line,
                                      "a work order for child %s is labelled as child %s" % (pp(ch), pp(x[2][3])))


def private_helper(q):
    return False


def callers(F, q):
    return []


def known_enabled(g, facts, ch, want):
    exprs = set()
    for n in g.nodes:
        if n.kind == "branch":
            for x in walk(n.ev):
                if x[0] == "call" and last(x[1]) == "isChildEnabled" and norm(strip_cast(x[3][0])) == norm(strip_cast(ch)):
                    exprs.add(x)
    return any(facts.eval(x) is want for x in exprs)


def loops(c, F, r):
    for j in poll_functions(F) + list(F.fns(NN + "awaitChildResult")):
        g = build(F, j, noget)
        comp, nontriv = LS.sccs(g)
        # loop counters: local ints compared with numChildren() or 0 in a loop branch
        for n in g.nodes:
            if n.kind != "branch" or comp[n.id] not in nontriv or n.ev[0] != "bin" or n.ev[1] not in ("<", "<=", ">", ">=", "!="):
                continue
            a, b = n.ev[2], n.ev[3]
            for v, lim, op in ((a, b, n.ev[1]), (b, a, {"<": ">", ">": "<", "<=": ">=", ">=": "<=", "!=": "!="}[n.ev[1]])):
                v = strip_cast(v)
                if v[0] != "v" or v[1].startswith("rv@"):
                    continue
                isnum = is_num(lim)
                iszero = strip_cast(lim)[0] == "lit"
                if not (isnum or iszero):
                    continue
                init, stepd = [], []
                for m in g.nodes:
                    if m.kind != "ev" or not m.ev:
                        continue
                    if m.ev[0] == "decls":
                        for d in m.ev[1:]:
                            if d[1] == v[1] and d[3] is not None:
                                init.append(d[3])
                    if m.ev[0] == "asg" and m.ev[2] == v and m.ev[1] == "=" and comp[m.id] != comp[n.id]:
                        init.append(m.ev[3])
                    if m.ev[0] == "un" and m.ev[2] == v and comp[m.id] == comp[n.id]:
                        stepd.append(1 if "+" in m.ev[1] else -1)
                if len(init) != 1 or len(set(stepd)) != 1:
                    continue
                i0 = strip_cast(init[0])
                c.site(r, "%s:%d" % (n.file, n.line), "%s: from %s while %s" % (j["q"], pp(i0), pp(n.ev)))
                ok = True
                if stepd[0] == 1 and isnum:
                    ok = i0 == ("lit", 0) or i0[0:2] == ("lit", 0)
                    ok = ok and op in ("<", "!=") and exact_num(lim)
                elif stepd[0] == -1 and iszero:
                    k = strip_cast(lim)[1]
                    i0l = i0
                    ok = (op == ">=" and k == 0 or op == ">" and k == -1 or op == "!=" and k == -1) and \
                        i0l[0] == "bin" and i0l[1] == "-" and exact_num(i0l[2]) and strip_cast(i0l[3])[0:2] == ("lit", 1)
                    if op == ">" and k == 0 and exact_num(i0l):
                        ok = True            # i-- idiom: used as [i-1]
                    if not is_num(i0l):
                        continue
                elif stepd[0] == 1 and iszero:
                    continue
                if not ok:
                    c.bad(r, j["q"], "loop range", n.file, n.line, "the loop over children runs from %s while %s and does not cover all children" % (pp(i0), pp(n.ev)))
        # the counter addresses the poll order, the order addresses the child
        for n in g.nodes:
            if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "call":
                ch = None
                if is_exec(n.ev):
                    ch = child_arg(n.ev[2]) if n.ev[2] is not None else None
                elif n.ev[1] == "Meq::MTPool::Brigade::placeWorkOrder":
                    ch = child_arg(n.ev)
                if ch is None:
                    continue
                ch = strip_cast(ch)
                src = ch
                if ch[0] == "v":
                    for m in g.nodes:
                        if m.kind == "ev" and m.ev and m.ev[0] == "decls":
                            for d in m.ev[1:]:
                                if d[1] == ch[1] and d[3] is not None:
                                    src = d[3]
                        if m.kind == "ev" and m.ev and m.ev[0] == "asg" and m.ev[2] == ch and not is_lit(m.ev[3]):
                            src = m.ev[3]
                c.site(r, "%s:%d" % (n.file, n.line), "child %s from %s" % (pp(ch), pp(src)))
                if not any(x[0] == "m" and x[2] == NN + "child_poll_order_" for x in walk(src)) and "rv@" not in pp(src):
                    c.bad(r, j["q"], "order ignored", n.file, n.line, "child %s is polled without regard to the poll order" % pp(ch))


def is_lit(t):
    return strip_cast(t)[0] == "lit"


def is_num(t):
    return any((x[0] == "call" and last(x[1]) == "numChildren") or (x[0] == "call" and last(x[1]) == "size" and x[2] is not None and denotes(x[2], NN + "children_")) for x in walk(t))


def exact_num(t):
    t = strip_cast(t)
    return t[0] == "call" and is_num(t)


# ---------------- set-up ---------------------------------------------------------------------------

def setup(c, F, r):
    need = ("polling_", "abandon_", "child_retcount_", "numchildren_")
    for j in poll_functions(F):
        g = build(F, j, inl)

        def step(a, n, facts):
            if n.kind in ("ev", "iret") and n.ev:
                ev = n.ev
                a2 = set(a)
                if ev[0] == "asg" and ev[1] == "=":
                    for k in need:
                        if denotes(ev[2], MT + k):
                            v = facts.val(ev[3])
                            good = True
                            if k == "polling_":
                                good = facts.eval(v) is True
                            elif k == "abandon_":
                                good = facts.eval(v) is False
                            elif k == "child_retcount_":
                                good = facts.eval(("bin", "==", v, ("lit", 0))) is True
                            if good:
                                a2.add(k)
                            else:
                                a2.discard(k)
                if is_call(ev, "Meq::MTPool::Brigade::placeWorkOrder"):
                    a2.add("placed")
                return [frozenset(a2)]
            return [a]
        res = run(g, frozenset(), step, cap=8, stable=always)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            ev = n.ev if n.kind in ("ev", "iret") else None
            if ev is None:
                continue
            go = is_call(ev, "Meq::MTPool::Brigade::awakenWorker", "Meq::MTPool::Brigade::getWorkOrder")
            if go:
                miss = [k for k in need if k not in a]
                c.site(r, "%s:%d" % (n.file, n.line), "%s set: %s" % (j["q"], ",".join(sorted(a))))
                if miss:
                    c.bad(r, j["q"], "not reset " + ",".join(miss), n.file, n.line,
                          "a multithreaded poll lets workers run without (re)setting %s" % ", ".join(miss))
            if is_call(ev, "Meq::MTPool::Brigade::placeWorkOrder"):
                miss = [k for k in need[:3] if k not in a]
                if miss:
                    c.bad(r, j["q"], "late " + ",".join(miss), n.file, n.line, "orders are placed before %s is set for the new poll" % ", ".join(miss))
        # expected count: one increment per order placed
        cnt = set()
        for n in g.nodes:
            if n.kind == "ev" and n.ev and n.ev[0] == "un" and n.ev[1] in ("++", "p++"):
                d = deref(n.ev[2])
                cnt.add(d)
        src = {MT + "numchildren_"}
        loc = set()
        for n in g.nodes:
            if n.kind == "ev" and n.ev and n.ev[0] == "asg" and n.ev[1] == "=" and denotes(n.ev[2], MT + "numchildren_"):
                v = strip_cast(n.ev[3])
                if v[0] == "v":
                    loc.add(v)

        def isinc(ev):
            if delta(ev, MT + "numchildren_") == 1:
                return True
            return (ev[0] == "un" and ev[1] in ("++", "p++") and ev[2] in loc) or \
                   (ev[0] == "asg" and ev[1] == "+=" and ev[2] in loc and strip_cast(ev[3])[0:2] == ("lit", 1))

        def step2(a, n, facts):
            if n.kind in ("ev", "iret") and n.ev:
                if is_call(n.ev, "Meq::MTPool::Brigade::placeWorkOrder"):
                    a = min(3, a + 1)
                elif isinc(n.ev) and facts.val(mtf("cur_brigade_")) is not None:
                    if n_in_mt(n):
                        a = max(-3, a - 1)
            return [a]
        mtn = mt_region(g)

        def n_in_mt(n):
            return n.id in mtn
        res = run(g, 0, step2, cap=8, stable=always)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if a and n.kind in ("ev", "iret") and n.ev and is_call(n.ev, "Meq::MTPool::Brigade::awakenWorker", "Meq::MTPool::Brigade::getWorkOrder"):
                c.bad(r, j["q"], "expected count", n.file, n.line, "the number of results expected differs from the number of orders placed", trace(g, res, nid, a, next(iter(fss))))


def mt_region(g):
    """nodes that can reach or be reached from a placeWorkOrder in the same loop, i.e. the multithreaded branch"""
    pl = [n for n in g.nodes if n.kind in ("ev", "iret") and n.ev and is_call(n.ev, "Meq::MTPool::Brigade::placeWorkOrder")]
    comp, nontriv = LS.sccs(g)
    cs = {comp[n.id] for n in pl}
    return {n.id for n in g.nodes if comp[n.id] in cs}


def refuse(c, F, r):
    for q in ("startAsyncPoll", "backgroundPoll"):
        for j in F.fns(NN + q):
            g = build(F, j, noget)
            res = run(g, 0, lambda a, n, f: [a], cap=24, stable=always)
            for (nid, a), fss in res.seen.items():
                n = g.nodes[nid]
                if n.kind not in ("ev", "iret") or not n.ev:
                    continue
                if not (is_call(n.ev, "Meq::MTPool::Brigade::placeWorkOrder", "Meq::NodeFace::execute") or
                        (n.ev[0] == "asg" and denotes(n.ev[2], NN + "polling_depth_"))):
                    continue
                c.site(r, "%s:%d" % (n.file, n.line), j["q"])
                for fs in fss:
                    facts = Facts(fs)
                    for k in ("async_poll_in_progress_", "background_poll_in_progress_"):
                        v = facts.eval(("m", ("this",), NN + k))
                        if v is None or (v is True and not set_here(g, k)):
                            c.bad(r, j["q"], "unchecked " + k, n.file, n.line, "a poll is started without checking that no %s poll is in progress" % k.split("_")[0], trace(g, res, nid, a, fs))


def set_here(g, k):
    return any(n.kind == "ev" and n.ev and n.ev[0] == "asg" and denotes(n.ev[2], NN + k) for n in g.nodes)


# ---------------- result of a synchronous poll --------------------------------------------------------

def final(c, F, r):
    for j in F.fns(NN + "syncPoll"):
        g = build(F, j, inl)
        CC = NN + "child_cumul_retcode_"

        def clears(ev):
            """set of bits cleared from the cumulative code by this event"""
            if ev[0] != "asg" or not denotes(ev[2], CC):
                return None
            t = None
            if ev[1] == "&=":
                t = ev[3]
            elif ev[1] == "=" and strip_cast(ev[3])[0] == "bin" and strip_cast(ev[3])[1] == "&":
                b = strip_cast(ev[3])
                t = b[3] if denotes(b[2], CC) else b[2]
            if t is None:
                return None
            t = strip_cast(t)
            if t[0] == "un" and t[1] == "~":
                return frozenset(maskbits(strip_cast(t[2])) or ["?"])
            if t[0] == "lit":
                return frozenset(litbits(~t[1]) or ["?"])
            return frozenset(["?"])

        def step(a, n, facts):
            cl, fl, ab, ret, inval = a
            if n.kind in ("ev", "iret") and n.ev:
                k = clears(n.ev)
                if k:
                    cl = cl | k
                if is_call(n.ev, "setVellSet") or (n.ev[0] == "new" and n.ev[1] == "Meq::Result"):
                    fl = 1
                if n.ev[0] == "new" and n.ev[1] == "Meq::Result":
                    # result made only for fails
                    pass
                if n.ev[0] == "ret" and n.func == j["q"]:
                    ret = n.ev[1]
            return [(cl, fl, ab, ret, inval)]
        # only the part after the children have been polled matters: policies are the facts of interest
        POLF = about("failPolicy", "missingDataPolicy", "fail_policy_", "missing_data_policy_", "child_fails_")
        res = run(g, (frozenset(), 0, 0, None, 0), step, cap=200, stable=lambda q: last(q) not in ("execute",), only=POLF)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind != "exit":
                continue
            cl, fl, ab, ret, _ = a
            for fs in fss:
                facts = Facts(fs)
                isab = ret is not None and any(x[0] == "enum" and last(x[1]) == "RES_ABORT" for x in walk(ret))
                cons = know(facts, lambda x: False)
                for B, fp, mp in combos(cons):
                    c.site(r, "%s:%d" % (n.file, n.line), "policies %s/%s clear %s fails %d%s" % (fp, mp, sorted(cl), fl, " abort" if isab else ""))
                    if isab:
                        break
                    want = set()
                    if fp == "Ignore":
                        want.add("RES_FAIL")
                    if mp == "Ignore":
                        want.add("RES_MISSING")
                    if set(cl) != want:
                        c.bad(r, j["q"], "cleared %s under %s/%s" % (",".join(sorted(cl)), fp, mp), n.file, n.line,
                              "with fail policy %s and missing-data policy %s the poll clears {%s} from the cumulative code" % (fp, mp, ", ".join(sorted(cl))), trace(g, res, nid, a, fs))
                        break
                    if fl and fp == "Ignore":
                        c.bad(r, j["q"], "fails under ignore", n.file, n.line, "fails of children are returned although they are to be ignored", trace(g, res, nid, a, fs))
                        break
                    nofails = size_zero(facts, NN + "child_fails_")
                    if not fl and fp != "Ignore" and not nofails:
                        c.bad(r, j["q"], "fails lost", n.file, n.line, "fails of children are not returned although they are not to be ignored", trace(g, res, nid, a, fs))
                        break
        # abort test after the poll
        outs, res = outcomes(g, {"cc": lambda ev, f, n: 1 if ev[0] == "ret" and n.kind == "ev" and n.func == j["q"] and denotes(ev[1], CC) else 0},
                             cap=60, stable=always, only=about("abort", "cumul_retcode"))
        for o in outs:
            if o.kind != "exit" or o.ret is None:
                continue
            isab = any(x[0] == "enum" and last(x[1]) == "RES_ABORT" for x in walk(o.ret))
            ks = aborting_known(o.facts)
            if ks is True and not isab:
                report_path(c, r, g, res, o, j["q"], "abort lost", "the abort flag is raised but the poll does not report an abort")
            if isab and ks is not True:
                report_path(c, r, g, res, o, j["q"], "false abort", "the poll reports an abort although the abort flag is not known to be raised")
            if not isab and not o.counts["cc"] and not any(x[0] == "m" and x[2] == CC for x in walk(o.ret)):
                report_path(c, r, g, res, o, j["q"], "wrong code", "the poll returns %s instead of the cumulative code" % pp(o.ret))
            if ks is None and not isab and not any("pabort_flag_" in repr(f) or "aborting" in repr(f) for f in o.facts.s):
                report_path(c, r, g, res, o, j["q"], "abort not tested", "the poll returns without testing the abort flag")


def size_zero(facts, field):
    return facts.eval(("call", "std::vector::empty", ("m", ("this",), field), (), "c", "bool", "", "")) is True


def aborting_known(facts):
    """None / True / False for pabort_flag_ && *pabort_flag_"""
    pf = ("m", ("this",), NN + "pabort_flag_")
    a = facts.eval(pf)
    b = facts.eval(("un", "*", pf))
    if a is False or b is False:
        return False
    if b is True:
        return True
    for f in facts.s:
        if f[0] == "a" and "aborting" in repr(f[1]) and f[1][0] == "eq" and f[1][1] is None and f[1][3] == 0:
            return not f[2]
    for f in facts.s:
        if f[0] == "e" and "pabort_flag_" in repr(f[2]):
            v = facts.eval(f[1])
            if v is not None:
                return v
    return None


# ---------------- asynchronous results ------------------------------------------------------------------

def awaitres(c, F, r):
    for j in F.fns(NN + "awaitChildResult"):
        g = build(F, j, noget)
        qf = MT + "child_retqueue_"
        m = {"pop": lambda ev, f, n: 1 if is_call(ev, "pop_back", "pop_front", "erase", obj=qf) else 0,
             "drop": lambda ev, f, n: 1 if is_call(ev, "clear", "resize", obj=qf) and not qempty(f) else 0,
             "take": lambda ev, f, n: 1 if ev[0] == "call" and last(ev[1]) in ("xfer", "operator<<=", "operator=", "copy") and ev[2] is not None and deref(ev[2]) == ("v", j["params"][1][0]) else 0,
             "code": lambda ev, f, n: 1 if ev[0] == "asg" and deref(ev[2]) == ("v", j["params"][0][0]) else 0}
        m["seen"] = lambda ev, f, n: 1 if any(x[0] == "m" and x[2] in (qf, MT + "child_retcount_", NN + "async_poll_child_") for x in walk(ev)) and n.kind != "nop" else 0
        st = lambda q: "Lock::" not in q and last(q) not in ("execute", "wait", "awakenWorker")
        outs, res = outcomes(g, m, cap=100, stable=st, only=about('retcount', 'numchildren', 'retqueue', 'async_poll', 'abort', 'numChildren', 'rv'))
        for o in outs:
            if o.kind != "exit" or o.ret is None:
                continue
            minus = o.facts.eval(("bin", "<", o.ret, ("lit", 0))) is True
            c.site(r, "%s:%d" % (o.node.file, o.node.line), "%s -> %s" % (o.counts, pp(o.ret)))
            if minus:
                inprog = o.facts.eval(("m", ("this",), NN + "async_poll_in_progress_"))
                done = o.facts.eval(("bin", ">=", mtf("child_retcount_"), mtf("numchildren_"))) is True and not o.counts["drop"]
                serial = o.facts.eval(("bin", ">=", ("m", ("this",), NN + "async_poll_child_"), ("call", NN + "numChildren", ("this",), (), "c"))) is True
                serial = serial or any(f[0] == "a" and "async_poll_child_" in repr(f[1]) and "numChildren" in repr(f[1]) for f in o.facts.s)
                early = not o.counts["seen"] and (aborting_known(o.facts) is True or started_known(o.facts))
                if not (done or serial or early):
                    report_path(c, r, g, res, o, j["q"], "premature end", "reports that no more child results are coming although some may be outstanding")
            else:
                if o.counts["pop"] and (o.counts["pop"] != 1 or o.counts["take"] != 1 or o.counts["code"] != 1):
                    report_path(c, r, g, res, o, j["q"], "handed out %s" % sorted(o.counts.items()), "a queued child result is not handed out exactly once")
                if not o.counts["pop"] and o.counts["take"] :
                    report_path(c, r, g, res, o, j["q"], "not removed", "a queued child result is handed out but not removed from the queue")
                if not o.counts["code"]:
                    report_path(c, r, g, res, o, j["q"], "no code", "a child result is handed out without its code")


def qempty(facts):
    return any(f[0] == "a" and "child_retqueue_" in repr(f[1]) and "size" in repr(f[1]) and f[1][1] is None and f[2] for f in facts.s)


def started_known(facts):
    """the poll was not in progress on entry"""
    # the function clears the flag itself in the early exit: look for the branch fact in value form
    for f in facts.s:
        if f[0] == "e" and f[1] == ("m", ("this",), NN + "async_poll_in_progress_"):
            return f[2] == ("lit", 0, "b") or f[2][0:2] == ("lit", 0)
        if f[0] == "a" and "async_poll_in_progress_" in repr(f[1]) and f[1][0] == "eq" and f[1][1] is None and f[2]:
            return True
    return False


# ---------------- idle / busy ------------------------------------------------------------------------------

def busy(c, F, r):
    IDLE, BUSY = NN + "becomeIdle", NN + "becomeBusy"

    def noib(cj, t):
        return inl(cj, t) and cj["q"] not in (IDLE, BUSY)
    MTW = MayThrow(F)
    for q in sorted(F.funcs):
        if not q.startswith(NN) or q in (IDLE, BUSY):
            continue
        for j in F.fns(q):
            if not any(t[0] == "call" and t[1] in (IDLE, BUSY) for _, _, _, t in fn(j).tree()):
                continue
            cl = LS.LockAnalysis(F).callsites().get(q, [])
            g = build(F, j, noib, maythrow=lambda x: MTW(x) or last(x) == "execute")

            def step(a, n, facts):
                if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "call":
                    if n.ev[1] == IDLE:
                        return ["idle"]
                    if n.ev[1] == BUSY:
                        return ["busy"]
                return [a]
            res = run(g, "busy", step, cap=8)
            # helpers called only from members are judged in their callers (they are inlined there)
            helper = cl and all(x["q"].startswith(NN) for x in cl) and last(q) not in ("mt_waitForEndOfPoll",)
            for (nid, a), fss in res.seen.items():
                n = g.nodes[nid]
                if n.kind == "exit" or (n.kind == "excexit" and last(q) == "syncPoll"):
                    c.site(r, "%s:%d" % (n.file, n.line), "%s %s %s" % (j["q"], n.kind, a))
                    if a == "idle" and not helper:
                        c.bad(r, j["q"], "idle at " + n.kind, n.file, n.line,
                              "leaves %s with the node still marked idle (its state lock released)" % ("by exception" if n.kind == "excexit" else ""),
                              trace(g, res, nid, a, next(iter(fss))))
                if n.kind == "ev" and n.ev and n.ev[0] == "call" and a == "busy" and not helper:
                    if n.ev[1] == LS.COND + "::wait":
                        c.bad(r, j["q"], "waits busy", n.file, n.line, "waits for child results while the node's state lock is held", trace(g, res, nid, a, next(iter(fss))))


# ---------------- Node::pollChildren --------------------------------------------------------------------------

def steps(c, F, r):
    for j in F.fns("Meq::Node::pollChildren"):
        g = build(F, j, inline_class("Meq::Node::poll"))
        m = {"sync": lambda ev, f, n: 1 if is_call(ev, NN + "syncPoll") else 0,
             "bg": lambda ev, f, n: 1 if is_call(ev, NN + "backgroundPoll") else 0}
        outs, res = outcomes(g, m, cap=60, stable=always)
        for o in outs:
            if o.kind != "exit":
                continue
            if o.counts["sync"] != 1:
                report_path(c, r, g, res, o, j["q"], "children polled %d" % o.counts["sync"], "children are polled %d times" % o.counts["sync"])
                continue
            for B, fp, mp in combos(know(o.facts, anycode)):
                # here all bits are judged (not only the first)
                stop = B["RES_ABORT"] or (B["RES_FAIL"] and fp == "AbandonPropagate") or (B["RES_MISSING"] and mp == "AbandonPropagate")
                c.site(r, "%s:%d" % (o.node.file, o.node.line), "%s -> bg %d" % (words(B, fp, mp), o.counts["bg"]))
                if stop != (o.counts["bg"] == 0) or o.counts["bg"] > 1:
                    report_path(c, r, g, res, o, j["q"], "%s bg %d" % (words(B, fp, mp), o.counts["bg"]),
                                "after %s the step children are polled %d times" % (words(B, fp, mp), o.counts["bg"]))
                    break
            if o.ret is not None and not any(x[0] == "call" and last(x[1]) == "syncPoll" for x in walk(o.ret)):
                report_path(c, r, g, res, o, j["q"], "code " + pp(o.ret), "the children's cumulative code is not returned")


def accum(c, F, r):
    CC, RC = NN + "child_cumul_retcode_", NN + "child_retcodes_"
    js = list(F.fns(NN + "syncPoll")) + [j for j in receivers(F) if "Sync" in j["q"]]
    for j in js:
        g = build(F, j, inl)

        def step(a, n, facts):
            if n.kind in ("ev", "iret") and n.ev:
                ev = n.ev
                if is_exec(ev):
                    return ["got"]
                if ev[0] == "asg":
                    if denotes(ev[2], RC) and not is_lit(ev[3]):
                        return ["both" if a in ("cum", "both") else "rec"]
                    if denotes(ev[2], CC) and (ev[1] == "|=" or (ev[1] == "=" and any(x[0] == "m" and x[2] == CC for x in walk(ev[3])) and any(x[0] == "bin" and x[1] == "|" for x in walk(ev[3])))):
                        return ["both" if a in ("rec", "both") else "cum"]
            return [a]
        start = "none" if last(j["q"]) == "syncPoll" else "got"
        res = run(g, start, step, cap=12, stable=always)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            again = n.kind == "ev" and is_exec(n.ev) and a in ("got", "rec", "cum")
            end = n.kind == "exit" and a in ("rec", "cum", "got")
            if n.kind == "exit":
                c.site(r, "%s:%d" % (n.file, n.line), "%s %s" % (j["q"], a))
            if start == "got" and a == "got":
                continue               # result dropped: judged by P03-recv
            if again or end:
                c.bad(r, j["q"], "code lost " + a, n.file, n.line, "a child's result code is not %s" % ("added to the cumulative code" if a in ("rec",) else "recorded"),
                      trace(g, res, nid, a, next(iter(fss))))


def porder(c, F, r):
    PO = NN + "child_poll_order_"
    for j in F.fns(NN + "setChildPollOrder"):
        g = build(F, j, noget)
        MTW = MayThrow(F)
        g2 = build(F, j, noget, maythrow=MTW)

        def step(a, n, facts):
            if n.kind in ("ev", "iret") and n.ev and LS.writes(n.ev, PO):
                return [1]
            return [a]
        res = run(g2, 0, step, cap=6)
        wrote = False
        for (nid, a), fss in res.seen.items():
            n = g2.nodes[nid]
            if a:
                wrote = True
            if a and n.kind == "excexit":
                c.bad(r, j["q"], "partial order", n.file, n.line, "a rejected poll order leaves a partially written one behind", trace(g2, res, nid, a, next(iter(fss))))
        if not wrote:
            c.bad(r, j["q"], "not installed", j["f"], j["l"], "a custom poll order is never installed")
        # each slot filled from a child not yet specified, which is then marked or visited only once
        res = run(g, 0, lambda a, n, f: [a], cap=24, stable=always)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind == "ev" and n.ev and n.ev[0] == "asg" and n.ev[1] == "=" and strip_cast(n.ev[3])[0] == "v":
                t = n.ev[2]
                if t[0] == "call" and last(t[1]) == "operator[]" and ("new_order" in repr(t[2]) or denotes(t[2], PO) or "int" in str(t[6] if len(t) > 6 else "")) and "bool" not in str(t[6] if len(t) > 6 else ""):
                    ch = strip_cast(n.ev[3])
                    c.site(r, "%s:%d" % (n.file, n.line), "slot <- %s" % pp(ch))
                    marks = [x for m in g.nodes if m.ev for x in walk(m.ev) if x[0] == "call" and last(x[1]) == "operator[]" and x[3] and strip_cast(x[3][0]) == ch and "bool" in str(x[6] if len(x) > 6 else "")]
                    for fs in fss:
                        facts = Facts(fs)
                        vals = {facts.eval(x) for x in marks} | {facts.eval(("un", "*", x)) for x in marks}
                        setm = any(m.kind == "ev" and m.ev and m.ev[0] == "call" and last(m.ev[1]) == "operator=" and m.ev[2] is not None and m.ev[2][0] == "call" and m.ev[2] in marks for m in g.nodes)
                        if marks and not (vals & {True, False}) and not setm:
                            c.bad(r, j["q"], "repeat", n.file, n.line, "a child may enter the poll order twice", trace(g, res, nid, a, fs))
                            break
                    comp, _ = LS.sccs(g)
                    later = [m for m in g.nodes if m.kind == "ev" and m.ev and m.ev[0] == "asg" and m.ev[2][0:3] == t[0:3] and comp[m.id] != comp[n.id] and reaches(g, n, m)]
                    marked = any(m.kind == "ev" and m.ev and comp[m.id] == comp[n.id] and
                                 (m.ev[0] == "call" and last(m.ev[1]) == "operator=" and m.ev[2] in marks or m.ev[0] == "asg" and m.ev[2] in marks) for m in g.nodes)
                    if marks and later and not marked:
                        c.bad(r, j["q"], "not marked", n.file, n.line, "a child put into the poll order is not marked as placed, and may be placed again")
                    if not marks:
                        c.bad(r, j["q"], "unmarked", n.file, n.line, "a child enters the poll order without a check that it is not there already")


def reaches(g, a, b):
    seen, work = set(), [a]
    while work:
        for m, _ in work.pop().succ:
            if m is b:
                return True
            if m.id not in seen:
                seen.add(m.id)
                work.append(m)
    return False


def aborts(c, F, r):
    j = F.fn(NN + "abortPoll")
    g = build(F, j, lambda cj, t: inl(cj, t) and last(cj["q"]) != "mt_waitForEndOfPoll")
    m = {"off": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], MT + "polling_") and f.eval(ev[3]) is False else 0,
         "ab": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], MT + "abandon_") and f.eval(ev[3]) is True else 0,
         "clear": lambda ev, f, n: 1 if is_call(ev, "Meq::MTPool::Brigade::clearQueue") else 0,
         "prog": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], NN + "async_poll_in_progress_") and f.eval(ev[3]) is False else 0}
    outs, res = outcomes(g, m, cap=12, stable=always)
    for o in outs:
        if o.kind != "exit":
            continue
        mtp = o.facts.eval(mtf("cur_brigade_"))
        c.site(r, "%s:%d" % (o.node.file, o.node.line), "%s brigade=%s" % (o.counts, mtp))
        if mtp is not False:
            for k, w in (("off", "deactivated"), ("ab", "marked abandoned"), ("clear", "withdrawn from the pool"), ("prog", "marked as no longer in progress")):
                if not o.counts[k]:
                    report_path(c, r, g, res, o, j["q"], "no " + k, "an aborted poll is not " + w)
    for q in ("mt_waitForEndOfPoll",):
        for j in F.fns(NN + q):
            g = build(F, j, lambda cj, t: inl(cj, t))
            m = {"prog": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], NN + "background_poll_in_progress_") and f.eval(ev[3]) is False else 0}
            outs, res = outcomes(g, m, cap=12, stable=lambda q: "Lock::" not in q and last(q) not in ("execute", "wait"))
            for o in outs:
                if o.kind != "exit":
                    continue
                mtp = o.facts.eval(mtf("cur_brigade_"))
                c.site(r, "%s:%d" % (o.node.file, o.node.line), "%s brigade=%s" % (o.counts, mtp))
                if mtp is not False and not o.counts["prog"]:
                    report_path(c, r, g, res, o, j["q"], "still in progress", "a finished poll is still marked as in progress")
                done = o.facts.eval(("bin", ">=", mtf("child_retcount_"), mtf("numchildren_"))) is True or o.facts.eval(mtf("abandon_")) is True
                if mtp is not False and not done:
                    report_path(c, r, g, res, o, j["q"], "unfinished", "stops waiting for a poll although results are outstanding")
