"""P04 worker pool: lock discipline, no lost work orders, balanced accounting."""
from rules import *
import lockset as LS
from ir import fn, pp, walk, last, deref

FILES = ["MEQ/src/MTPool.cc", "MEQ/src/NodeNursery.cc", "MEQ/src/Node.cc", "TimBase/src/Thread/Thread.cc"]
B = "Meq::MTPool::Brigade::"
COND = B + "cond_"
WD = "Meq::MTPool::WorkerData::"
ASSUMPTIONS = ["a virtual work order execution does not itself delete the order",
               "Brigade shutdown (Brigade::stop) runs after all polling has ceased"]


def check(c):
    F = c.load(FILES)
    LA = LS.LockAnalysis(F)
    r = c.rule("P04-guard", "every access of the order queue, depth counters, idle count, worker table and worker state is made holding the pool mutex")
    table = {B + "wo_queue_": COND, B + "nthr_": COND, B + "nidle_": COND, B + "workers_": COND, WD + "state": COND}
    check_guarded(c, LA, r, table, skip_funcs=(B + "stop",), ok_roots=(B + "queueEmpty",))
    c.expect(r, 15)
    r = c.rule("P04-wait", "every wait of a pool thread is made with the pool mutex held, holding nothing else, and is followed by a re-test of the queue")
    check_waits(c, LA, r, lambda j: j["q"].startswith("Meq::MTPool::"))
    c.expect(r, 1)
    inl = inline_class("Meq::MTPool::Brigade::")

    # ---- taking an order ----
    r = c.rule("P04-take", "an order is handed out exactly once: returning an order removes exactly one (the front) entry and counts it once at the order's own depth; returning none removes and counts nothing")
    j = F.fn(B + "getWorkOrder")
    inl2 = lambda cj, t: inl(cj, t) and last(cj["q"]) not in ("awakenWorker", "getWorkOrder")
    g = build(F, j, inl2)

    def nthr_inc(ev, f, n):
        return delta_elem(ev, B + "nthr_")

    m = {"pop": lambda ev, f, n: 1 if removes(ev, B + "wo_queue_") else 0,
         "inc": nthr_inc,
         "wake": lambda ev, f, n: 1 if is_call(ev, B + "awakenWorker") else 0,
         "idle": lambda ev, f, n: delta(ev, B + "nidle_") or 0}
    outs, res = outcomes(g, m, cap=24)
    for o in outs:
        if o.kind != "exit":
            continue
        none = o.ret is None or o.ret[0] == "lit" or o.facts.eval(o.ret) is False
        c.site(r, "%s:%d" % (o.node.file, o.node.line), "%s -> %s" % (o.counts, pp(o.ret) if o.ret else None))
        if none and (o.counts["pop"] or o.counts["inc"]):
            report_path(c, r, g, res, o, j["q"], "none but taken", "returns no work order although one was removed from the queue or counted as running")
        if not none and (o.counts["pop"] != 1 or o.counts["inc"] != 1):
            report_path(c, r, g, res, o, j["q"], "taken %d counted %d" % (o.counts["pop"], o.counts["inc"]),
                        "returns a work order but removed %d entries from the queue and counted %d as running" % (o.counts["pop"], o.counts["inc"]))
        if not none and not o.counts["wake"]:
            report_path(c, r, g, res, o, j["q"], "no further wakeup", "takes an order without waking another worker for the rest of the queue")
    c.expect(r, 2)
    for n in g.nodes:
        if n.kind in ("ev", "iret") and n.ev:
            w = which_end(n.ev, B + "wo_queue_")
            if w:
                c.site(r, "%s:%d" % (n.file, n.line), "queue removal at " + w)
    # order returned == order removed == order counted
    check_take_identity(c, r, F, j, g)

    # ---- idle accounting ----
    r = c.rule("P04-idle", "the idle count moves in step with worker states: +1 with every change to idle, -1 with every change from idle to busy (never below zero); threads wait only in the idle state")
    check_idle(c, r, F, LA, inl)
    c.expect(r, 4)

    # ---- finishing ----
    r = c.rule("P04-finish", "finishing an order takes it off the running count of its depth once and destroys it once")
    j = F.fn(B + "finishWithWorkOrder")
    g = build(F, j, inl)
    m = {"dec": lambda ev, f, n: -(delta_elem(ev, B + "nthr_")),
         "del": lambda ev, f, n: 1 if ev[0] == "del" else 0}
    outs, res = outcomes(g, m)
    for o in outs:
        if o.kind != "exit":
            continue
        c.site(r, "%s:%d" % (o.node.file, o.node.line), str(o.counts))
        if o.counts["del"] != 1:
            report_path(c, r, g, res, o, j["q"], "del %d" % o.counts["del"], "a finished work order is destroyed %d times" % o.counts["del"])
        if o.counts["dec"] != 1:
            # allowed only where the counter is already known to be <= 0
            ok = o.counts["dec"] == 0 and any(o.facts.eval(("bin", "<=", x, ("lit", 0))) is True for x in elems(g, B + "nthr_"))
            if not ok:
                report_path(c, r, g, res, o, j["q"], "dec %d" % o.counts["dec"], "running count of the order's depth is reduced %d times" % o.counts["dec"])
    c.expect(r, 1)

    r = c.rule("P04-run", "every order taken from the queue is executed exactly once and then finished exactly once, outside the pool lock")
    for j in F.all():
        f = fn(j)
        if not any(t[0] == "call" and t[1] == B + "getWorkOrder" for _, _, _, t in f.tree()):
            continue
        if j["q"] == B + "getWorkOrder":
            continue
        check_run(c, r, F, LA, j)
    c.expect(r, 4)

    # ---- queueing ----
    r = c.rule("P04-place", "placing an order adds exactly one queue entry and makes room for its depth in the counters")
    j = F.fn(B + "placeWorkOrder")
    g = build(F, j, inl)
    m = {"push": lambda ev, f, n: 1 if is_call(ev, "push_front", "push_back", "insert", "emplace_back", "emplace_front", obj=B + "wo_queue_") else 0,
         "grow": lambda ev, f, n: 1 if is_call(ev, "resize", obj=B + "nthr_") else 0}
    outs, res = outcomes(g, m)
    for o in outs:
        if o.kind != "exit":
            continue
        c.site(r, "%s:%d" % (o.node.file, o.node.line), str(o.counts))
        if o.counts["push"] != 1:
            report_path(c, r, g, res, o, j["q"], "push %d" % o.counts["push"], "placing a work order adds %d queue entries" % o.counts["push"])
    c.expect(r, 1)
    r = c.rule("P04-depth", "the depth counter is sized beyond a depth before that depth can be indexed (placing an order, joining the pool)")
    for q in ("placeWorkOrder", "join"):
        check_grow(c, r, F, F.fn(B + q), inl)
    c.expect(r, 2)

    r = c.rule("P04-wake", "whenever orders are queued and the depth of the first one is not saturated, a worker is signalled or a new one started")
    j = F.fn(B + "awakenWorker")
    g = build(F, j, inl)
    m = {"sig": lambda ev, f, n: 1 if is_call(ev, "signal", "broadcast") and ev[1].startswith("LOFAR::Thread::Condition") and LA.mid(f.val(ev[2])) == COND else 0,
         "new": lambda ev, f, n: 1 if is_call(ev, "LOFAR::Thread::create") else 0}
    outs, res = outcomes(g, m, cap=24)
    for o in outs:
        if o.kind != "exit":
            continue
        c.site(r, "%s:%d" % (o.node.file, o.node.line), str(o.counts))
        if o.counts["sig"] + o.counts["new"] == 0:
            why = [f for f in o.facts.s if f[0] == "a"]
            empty = any(f[1][0] == "eq" and f[1][1] is None and "wo_queue_" in repr(f[1][2]) and "size" in repr(f[1][2]) and f[2] for f in why)
            full = any(f[1][0] == "lt" and "nthr_" in repr(f[1]) and "max_busy_" in repr(f[1]) and sat_full(f) for f in why)
            if not empty and not full:
                report_path(c, r, g, res, o, j["q"], "silent", "returns without waking or starting a worker although orders are queued and the depth is not saturated")
    c.expect(r, 2)
    r = c.rule("P04-queue-wake", "a thread that queues orders afterwards wakes a worker or takes orders itself, before it can wait or return")
    for j in F.all():
        f = fn(j)
        if j["q"] == B + "placeWorkOrder" or not any(t[0] == "call" and t[1] == B + "placeWorkOrder" for _, _, _, t in f.tree()):
            continue
        g = build(F, j, lambda cj, t: False)

        def step(a, n, facts):
            if n.kind in ("ev", "iret") and n.ev:
                if is_call(n.ev, B + "placeWorkOrder"):
                    return [1]
                if is_call(n.ev, B + "awakenWorker", B + "getWorkOrder"):
                    return [0]
            return [a]
        res = run(g, 0, step, cap=8)
        c.site(r, "%s:%d" % (j["f"], j["l"]), j["q"])
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if a == 1 and (n.kind == "exit" or (n.ev and is_call(n.ev, LS.COND + "::wait"))):
                c.bad(r, j["q"], "queued without wakeup", j["f"], n.line, "queues work orders and then %s without waking a worker" % ("returns" if n.kind == "exit" else "waits"))
    c.expect(r, 2)

    r = c.rule("P04-clear", "withdrawing a client's orders removes and destroys exactly the orders of that client")
    j = F.fn(B + "clearQueue")
    g = build(F, j, inl)

    def stepc(a, n, facts):
        er, de = a
        if n.kind in ("ev", "iret") and n.ev:
            if removes(n.ev, B + "wo_queue_"):
                er = min(2, er + 1)
            if n.ev[0] == "del":
                de = min(2, de + 1)
        if er and er == de:
            er = de = 0
        return [(er, de)]
    res = run(g, (0, 0), stepc)
    nrem = 0
    for n in g.nodes:
        if n.ev and n.kind in ("ev", "iret") and removes(n.ev, B + "wo_queue_"):
            nrem += 1
            c.site(r, "%s:%d" % (n.file, n.line), pp(n.ev)[:80])
            # on every path the removal is guarded by client identity
            if not dominated_by(g, n, lambda b: "clientref" in repr(b.ev) and "client" in pp(b.ev)):
                c.bad(r, j["q"], "unconditional removal", n.file, n.line, "removes queued orders that may belong to another client")
    for (nid, a), fss in res.seen.items():
        if g.nodes[nid].kind == "exit" and a != (0, 0):
            c.bad(r, j["q"], "removed %d destroyed %d" % a, j["f"], j["l"], "a withdrawn work order is removed %d times and destroyed %d times" % a)
    if nrem == 0:
        c.bad(r, j["q"], "nothing withdrawn", j["f"], j["l"], "queued orders of the client are not withdrawn")
    c.expect(r, 1)

    r = c.rule("P04-stable", "worker records handed to threads by address live in a container whose growth does not move them")
    fld = [x for x in F.classes["Meq::MTPool::Brigade"]["fields"] if (x[0] if isinstance(x, list) else x["n"]).endswith("workers_")]
    t = str(fld[0])
    c.site(r, B + "workers_", t)
    if "deque" not in t and "list" not in t and "map" not in t and "WorkerData *" not in t:
        c.bad(r, "Meq::MTPool::Brigade", "workers_ container", "MEQ/src/MTPool.h", 0, "worker records live in a container whose growth moves them (%s)" % t)
    c.expect(r, 1)

    r = c.rule("P04-spawn", "a worker record is complete (state, owning pool, launched flag) before its thread is created; the idle count includes it")
    n0 = 0
    for j in F.all():
        if not any(t[0] == "call" and t[1] == "LOFAR::Thread::create" for _, _, _, t in fn(j).tree()) or not j["q"].startswith("Meq::MTPool"):
            continue
        g = build(F, j, inl)
        need = (WD + "state", WD + "brigade", WD + "launched_by_us")

        def steps(a, n, facts):
            if n.kind in ("ev", "iret") and n.ev:
                if n.ev[0] == "asg":
                    for i, x in enumerate(need):
                        if denotes(n.ev[2], x):
                            a = a | {i}
                elif is_call(n.ev, "push_back", "emplace_back", obj=B + "workers_"):
                    a = frozenset()
            return [a]
        res = run(g, frozenset(), steps)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind in ("ev", "iret") and n.ev and is_call(n.ev, "LOFAR::Thread::create"):
                c.site(r, "%s:%d" % (n.file, n.line), j["q"])
                miss = [last(need[i]) for i in range(3) if i not in a]
                if miss:
                    c.bad(r, j["q"], "unset " + ",".join(miss), n.file, n.line, "starts a worker thread before setting %s of its record" % ", ".join(miss))
    c.expect(r, 1)


def sat_full(f):
    # fact states nthr >= max_busy
    k, v = f[1], f[2]
    a, b, d = repr(k[1]), repr(k[2]), k[3]
    if "nthr_" in a:      # nthr < max + d
        return (not v) and d >= 0
    return v and d <= 1   # max < nthr + d   -> nthr > max - d


def delta_elem(ev, field):
    d = delta(ev, field)
    if ev[0] in ("un", "asg") and d is None:
        return 0
    return d if d and (ev[2][0] == "call" or ev[2][0] == "idx" or True) else 0


def elems(g, field):
    out = set()
    for n in g.nodes:
        if n.ev:
            for x in walk(n.ev):
                if x[0] == "call" and last(x[1]) == "operator[]" and x[2] is not None and denotes(x[2], field):
                    out.add(x)
    return out


def removes(ev, field):
    return is_call(ev, "pop_front", "pop_back", "erase", "remove", "clear", obj=field)


def which_end(ev, field):
    if is_call(ev, "pop_front", obj=field):
        return "front"
    if is_call(ev, "pop_back", obj=field):
        return "back"
    return None


def dominated_by(g, n, pred):
    """every path from entry to n passes a T/F edge of a branch satisfying pred"""
    seen, work = set(), [g.entry]
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x is n:
            return False
        if x.kind == "branch" and pred(x):
            # only the T edge counts as guarded: follow the F edge
            for s, l in x.succ:
                if l and l[0] == "F":
                    work.append(s)
            continue
        for s, l in x.succ:
            work.append(s)
    return True


def check_take_identity(c, r, F, j, g):
    """the order popped, counted and returned are the same: read from the same end as the removal"""
    end = None
    for n in g.nodes:
        if n.kind in ("ev", "iret") and n.ev:
            w = which_end(n.ev, B + "wo_queue_")
            if w:
                end = w
    reads = set()
    for n in g.nodes:
        if n.ev:
            for x in walk(n.ev):
                if x[0] == "call" and last(x[1]) in ("front", "back") and x[2] is not None and denotes(x[2], B + "wo_queue_"):
                    reads.add(last(x[1]))
    if end and reads and reads != {end}:
        c.bad(r, j["q"], "reads %s removes %s" % (",".join(sorted(reads)), end), j["f"], j["l"],
              "hands out the order at the %s of the queue but removes the one at the %s" % ("/".join(sorted(reads)), end))


def check_idle(c, r, F, LA, inl):
    for j in F.all():
        f = fn(j)
        if not j["q"].startswith("Meq::MTPool::"):
            continue
        touches = False
        for _, _, _, t in f.tree():
            if t[0] == "asg" and denotes(t[2], WD + "state"):
                touches = True
            if delta(t, B + "nidle_") if t[0] in ("un", "asg") else 0:
                touches = True
        if not touches or j["q"] == B + "(ctor)":
            continue
        g = build(F, j, lambda cj, t: inl(cj, t) and last(cj["q"]) not in ("awakenWorker", "getWorkOrder"))
        IDLE = F.enumvals.get("Meq::MTPool::IDLE", 0)
        BUSY = F.enumvals.get("Meq::MTPool::BUSY", 1)

        # state of the worker in hand: ? (unknown), I, B ; pend = idle-count change still owed
        def step(a, n, facts):
            pend, new = a
            if pend == -1 and facts.eval(("bin", "<=", ("m", ("this",), B + "nidle_"), ("lit", 0))) is True:
                pend = 0            # the decrement is skipped only where the count is not positive anyway
                a = (pend, new)
            if n.kind not in ("ev", "iret") or not n.ev:
                return [a]
            ev = n.ev
            if is_call(ev, "push_back", "emplace_back", obj=B + "workers_"):
                return [(pend, 1)]
            if ev[0] == "asg" and denotes(ev[2], WD + "state"):
                v = facts.val(ev[3])
                to = None
                if facts.eval(("bin", "==", v, ("lit", IDLE))) is True:
                    to = IDLE
                elif facts.eval(("bin", "==", v, ("lit", BUSY))) is True:
                    to = BUSY
                frm = None
                if facts.eval(("bin", "==", ev[2], ("lit", IDLE))) is True:
                    frm = IDLE
                elif facts.eval(("bin", "==", ev[2], ("lit", IDLE))) is False:
                    frm = BUSY
                d = 0
                if new:
                    if to == IDLE:
                        d = 1
                    elif to is None:
                        # joins with a state given by the caller: the branch on it decides
                        return [(("join", ev[3]), 0)] if not isinstance(pend, tuple) else [a]
                else:
                    if to == IDLE and frm == BUSY:
                        d = 1
                    elif to == BUSY and frm == IDLE:
                        d = -1
                    elif frm is None:
                        d = 9
                    if d == -1 and facts.eval(("bin", "<=", ("m", ("this",), B + "nidle_"), ("lit", 0))) is True:
                        d = 0
                return [(max(-3, min(3, pend + d)) if not isinstance(pend, tuple) else pend, 0)]
            dd = delta(ev, B + "nidle_")
            if dd:
                if isinstance(pend, tuple):
                    ok = facts.eval(("bin", "==", pend[1], ("lit", IDLE))) is True
                    return [(0 if ok and dd == 1 else 8, 0)]
                return [(max(-3, min(3, pend - dd)), new)]
            return [a]
        res = run(g, (0, 0), step, cap=24)
        bad = {}
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind == "exit" or (n.ev and n.kind in ("ev",) and is_call(n.ev, LS.COND + "::wait")):
                c.site(r, "%s:%d" % (n.file, n.line), "%s owed=%s" % (n.kind, a[0]))
                for fs in fss:
                    facts = Facts(fs)
                    p = a[0]
                    if isinstance(p, tuple):
                        if facts.eval(("bin", "==", p[1], ("lit", IDLE))) is not False:
                            bad[(n.line, "idle count not raised for a thread joining idle")] = (nid, a, fs)
                        continue
                    if p == 0:
                        continue
                    # a decrement is skipped only where the idle count is known not to be positive
                    if p == -1 and facts.eval(("bin", "<=", ("m", ("this",), B + "nidle_"), ("lit", 0))) is True:
                        continue
                    bad[(n.line, "idle count off by %s from the worker states" % (-p))] = (nid, a, fs)
            if n.ev and n.kind == "ev" and is_call(n.ev, LS.COND + "::wait"):
                for fs in fss:
                    st = state_of(g, fs)
                    if st is False:
                        bad[(n.line, "waits for work in a state other than idle")] = (nid, a, fs)
        for (line, msg), key in bad.items():
            c.bad(r, j["q"], msg, j["f"], line, msg, trace(g, res, *key))


def state_of(g, fs):
    """is the worker's state IDLE under these facts (None unknown)"""
    facts = Facts(fs)
    exprs = set()
    for n in g.nodes:
        if n.ev:
            for x in walk(n.ev):
                if x[0] == "m" and x[2] == WD + "state":
                    exprs.add(x)
    r = None
    for x in exprs:
        v = facts.eval(("bin", "==", x, ("lit", 0)))
        if v is not None:
            r = v
    return r


def check_run(c, r, F, LA, j):
    g, held = LA.analyse(j)
    POOL = COND

    # states of the order in hand: N none, G got (maybe null), X executed, then F finished -> N
    def step(a, n, facts):
        st, var = a
        if n.kind not in ("ev", "iret") or not n.ev:
            return [a]
        ev = n.ev
        if ev[0] == "decls":
            for d in ev[1:]:
                if d[3] is not None and contains_call(d[3], B + "getWorkOrder"):
                    return [("G", ("v", d[1]))]
        if ev[0] == "asg" and contains_call(ev[3], B + "getWorkOrder"):
            return [("G", ev[2])]
        if ev[0] in ("call", "enter"):
            if last(ev[1]) == "execute" and "WorkOrder" in ev[1]:
                if st == "G" :
                    return [("X", var)]
                return [("BAD-executed twice or out of turn", var)] if st != "BAD" else [a]
            if ev[1] == B + "finishWithWorkOrder":
                if st == "X":
                    return [("N", None)]
                return [("BAD-finished without having been executed", var)]
        return [a]
    res = run(g, ("N", None), step, cap=24)
    for (nid, a), fss in res.seen.items():
        n = g.nodes[nid]
        st, var = a
        if st.startswith("BAD"):
            c.bad(r, j["q"], st, j["f"], n.line, "a work order taken from the queue is " + st[4:], trace(g, res, nid, a, next(iter(fss))))
        again = n.kind in ("ev", "iret") and n.ev and (contains_call(n.ev, B + "getWorkOrder"))
        if (n.kind == "exit" or again) and st in ("G", "X"):
            for fs in fss:
                f = Facts(fs)
                if st == "G" and f.eval(var) is False:
                    continue
                c.bad(r, j["q"], "dropped " + st, j["f"], n.line,
                      "a work order taken from the queue may be dropped %s" % ("unexecuted" if st == "G" else "unfinished"), trace(g, res, nid, a, fs))
    for n in g.nodes:
        if n.id in held and n.kind in ("ev", "iret") and n.ev and n.ev[0] == "call":
            if contains_call(n.ev, B + "getWorkOrder") or n.ev[1] == B + "getWorkOrder":
                c.site(r, "%s:%d" % (n.file, n.line), j["q"])
            if last(n.ev[1]) == "execute" and "WorkOrder" in n.ev[1]:
                oth = {x for x in held[n.id] if not x.startswith("v:")}
                if oth:
                    c.bad(r, j["q"], "execute holding " + ",".join(sorted(last(x) for x in oth)), n.file, n.line,
                          "executes a work order while holding %s" % ", ".join(sorted(last(x) for x in oth)))


def contains_call(t, q):
    return any(x[0] == "call" and x[1] == q for x in walk(t))


def check_grow(c, r, F, j, inl):
    g = build(F, j, inl)
    nt = B + "nthr_"

    def step(a, n, facts):
        if n.kind in ("ev", "iret") and n.ev and is_call(n.ev, "resize", obj=nt):
            return [1]
        return [a]
    res = run(g, 0, step, cap=24)
    c.site(r, "%s:%d" % (j["f"], j["l"]), j["q"])
    resized = any(n.kind in ("ev", "iret") and n.ev and is_call(n.ev, "resize", obj=nt) for n in g.nodes)
    if not resized:
        c.bad(r, j["q"], "no growth", j["f"], j["l"], "the depth counters are never grown")
        return
    for (nid, a), fss in res.seen.items():
        n = g.nodes[nid]
        use = n.kind in ("ev", "iret") and n.ev and is_call(n.ev, "operator[]", obj=nt)
        end = n.kind == "exit" and last(j["q"]) == "placeWorkOrder"
        if (use or end) and a == 0:
            for fs in fss:
                # not resized: some fact must bound the depth by the size
                ok = any(f[0] == "a" and f[1][0] == "lt" and "nthr_" in repr(f[1]) and "size" in repr(f[1]) and bounded(f) for f in fs)
                if not ok:
                    c.bad(r, j["q"], "depth not below size", j["f"], n.line,
                          "the counter of a depth may be indexed beyond the end of the counters", trace(g, res, nid, a, fs))


def bounded(f):
    k, v = f[1], f[2]
    a_is_size = "'size'" in repr(k[1])
    if a_is_size:       # size < depth + d   false ->  depth + d <= size
        return (not v) and k[3] >= 1
    return v and k[3] <= 0   # depth < size + d, d<=0
