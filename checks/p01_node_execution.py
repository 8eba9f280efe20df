"""P01 node execution: exclusive, ended exactly once on every way out, no exception escapes, abort / fail / wait handling, stage order."""
from rules import *
import lockset as LS
from ir import fn, pp, walk, last, deref, strip_cast

FILES = ["MEQ/src/Node.cc", "MEQ/src/NodeNursery.cc", "MEQ/src/Forest.cc", "MEQ/src/Node_init.cc", "MEQ/src/Node_commands.cc"]
N_ = "Meq::Node::"
EX = N_ + "executing_"
EC = N_ + "exec_cond_"
CST = N_ + "control_status_"
OPAQUE = ("getCachedResult", "cacheResult", "pollChildren", "clearCache", "checkChildCells", "setExecState", "processRequestRider",
          "setCurrentRequest", "getResult", "discoverSpids", "postError", "postMessage", "holdChildCaches", "setControlStatus")
ASSUMPTIONS = ["allocation failure and errors while composing an error message are not considered",
               "the forest's abort flag, once raised, stays raised until the execution it aborts has ended"]
always = lambda q: True
inl = inline_near(N_, files=("MEQ/src/Node.cc",), no=OPAQUE)
ENV = {}


def check(c):
    F = c.load(FILES)
    LA = LS.LockAnalysis(F)
    learn(F)
    j = F.fn(N_ + "execute")

    r = c.rule("P01-guard", "the executing mark of a node is read and written only under the node's execution lock")
    check_guarded(c, LA, r, {EX: EC}, ok_roots=(N_ + "isExecuting",), skip_funcs=(N_ + "isExecuting", N_ + "(ctor)"))
    c.expect(r, 2)
    r = c.rule("P01-wait", "waiting for a running execution: execution lock held, nothing else held, re-tested in a loop")
    check_waits(c, LA, r, lambda x: x["q"].startswith(N_))
    c.expect(r, 1)

    r = c.rule("P01-end", "an execution starts only where none is running, and every way out ends it exactly once, wakes the waiting threads, and first finishes or aborts polls of children and step children")
    lifecycle(c, F, r, j)
    c.expect(r, 1)
    r = c.rule("P01-escape", "no stage of an execution that may raise an error runs outside the protected region, and no handler raises one")
    escape(c, F, r, j)
    c.expect(r, 1)
    r = c.rule("P01-fail", "an error caught during execution is turned into a fresh result holding a fail and the returned code carries the fail bit")
    rs = c.rule("P01-state", "every way out leaves the node idle with the status matching its outcome (cached, fail, wait, missing, empty), outcome bits of the previous execution being cleared first")
    ra = c.rule("P01-abort", "when the abort flag is seen the polls are aborted, nothing is cached and the code reports the abort; the flag is tested before polling, after polling and after evaluation")
    ro = c.rule("P01-order", "stages run in order: cache lookup, request change and rider, poll, evaluation, caching; a cache hit, an inactive node, or a wait, fail or missing code from the children skips the later ones")
    rb = c.rule("P01-blocked", "a thread waiting for another execution is marked blocked and unmarked again")
    stages(c, F, r, rs, ra, ro, rb, j)
    c.expect(r, 1)
    c.expect(rs, 6)
    c.expect(ra, 2)
    c.expect(ro, 4)
    c.expect(rb, 1)
    r = c.rule("P01-newreq", "a request counts as known only if there is a current request, the new id is not empty and equals the current id; accepting a request records both the request and its id")
    newreq(c, F, r, j)
    c.expect(r, 2)
    r = c.rule("P01-break", "stopping at a breakpoint releases the node's state lock and takes it again, raises the stopped status before and clears it after; a single-shot breakpoint is cleared when it triggers; no stop under an abort")
    breaks(c, F, r)
    c.expect(r, 2)
    r = c.rule("P01-bpflags", "setting or clearing a breakpoint changes the mask and the matching status flag together, under the state lock")
    bpflags(c, F, LA, r)
    c.expect(r, 4)


def learn(F):
    for j in F.all():
        if not j["q"].startswith("Meq::"):
            continue
        f = fn(j)
        for t in [t for _, _, _, t in f.tree()] + [t for _, t in f.conds()]:
            for x in walk(t):
                if x[0] == "enum" and isinstance(x[2], int):
                    ENV[last(x[1])] = x[2]


def bit(name, dflt):
    return ENV.get(name, dflt)


def FAIL(): return bit("RES_FAIL", 0x80 << 16)
def MISSING(): return bit("RES_MISSING", 0x4 << 16)
def WAIT(): return bit("RES_WAIT", 0x20 << 16)
def ABORT(): return bit("RES_ABORT", 0x40 << 16)


def num(t):
    t = strip_cast(t)
    if t is None:
        return None
    if t[0] in ("lit",) and isinstance(t[1], int):
        return t[1]
    if t[0] == "enum":
        return t[2]
    if t[0] == "un" and t[1] == "~":
        v = num(t[2])
        return None if v is None else ~v
    if t[0] == "bin" and t[1] in ("|", "&", "+"):
        a, b = num(t[2]), num(t[3])
        if a is None or b is None:
            return None
        return a | b if t[1] == "|" else (a & b if t[1] == "&" else a + b)
    return None


def hasbit(t, b, facts=None, d=0):
    """the value of t certainly contains bit b"""
    if t is None or d > 8:
        return False
    t = strip_cast(t)
    v = num(t)
    if v is not None:
        return v & b == b
    if t[0] == "bin" and t[1] == "|":
        return hasbit(t[2], b, facts, d + 1) or hasbit(t[3], b, facts, d + 1)
    if t[0] == "cond":
        return hasbit(t[2], b, facts, d + 1) and hasbit(t[3], b, facts, d + 1)
    if t[0] == "call" and last(t[1]) in ("cacheResult",) and t[3]:
        return hasbit(t[3][-1], b, facts, d + 1)
    return bool(facts is not None and knownset(facts, b))


def knownset(facts, b):
    """some result code is known to carry bit b"""
    for f in facts.s:
        if f[0] == "a" and f[1][0] == "eq" and f[1][1] is None and f[1][3] == 0 and not f[2]:
            m = maskof(f[1][2])
            if m is not None and m == b:
                return True
    return False


def maskof(t):
    if isinstance(t, tuple) and t and t[0] == "bin" and t[1] == "&":
        for x in (t[2], t[3]):
            v = num(x)
            if v is not None and v > 0:
                return v
    return None


def knownclear(facts):
    out = 0
    for f in facts.s:
        if f[0] == "a" and f[1][0] == "eq" and f[1][1] is None and f[1][3] == 0 and f[2]:
            m = maskof(f[1][2])
            if m:
                out |= m
    return out


def nursery(ev, facts):
    """which nursery a finish/abort call is applied to"""
    t = facts.val(ev[2]) if ev[2] is not None else None
    if t is None:
        return None
    s = repr(t)
    if "stepchildren" in s:
        return "s"
    if "children" in s:
        return "c"
    return None


def lifecycle(c, F, r, j):
    g = build(F, j, inl, maythrow=MayThrow(F))

    def step(a, n, facts):
        st, cast, pc, ps, err = a
        ev = n.ev
        if n.kind not in ("ev", "iret") or ev is None:
            return [a]
        if ev[0] == "asg" and denotes(ev[2], EX):
            v = facts.eval(ev[3])
            if v is True:
                if facts.eval(("m", ("this",), EX)) is not False:
                    err = err or "started without knowing that no other execution is running"
                st = 1 if st == 0 else st
                cast, pc, ps = 0, 0, 0
            else:
                if st == 2:
                    err = err or "ended twice"
                st = 2
                if not pc or not ps:
                    err = err or "ended while a poll of its %s may still be running" % ("children" if not pc else "step children")
        elif ev[0] == "call" and last(ev[1]) in ("broadcast", "signal") and "Condition" in ev[1]:
            t = facts.val(ev[2]) if ev[2] is not None else None
            if t is not None and EC in repr(t):
                cast = 1
        elif ev[0] == "call" and last(ev[1]) in ("finishPoll", "abortPoll"):
            w = nursery(ev, facts)
            if w == "s":
                ps = 1
            elif w == "c":
                pc = 1
        elif ev[0] in ("call", "enter") and last(ev[1]) in ("pollChildren",):
            pc = ps = 0
        return [(st, cast, pc, ps, err)]
    res = run(g, (0, 0, 0, 0, ""), step, cap=24, stable=lambda q: not q.endswith(("::wait", "::unlock", "::release", "::lock", "::relock")), only=about(EX, "children_", EC))
    seen = set()
    for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
        n = g.nodes[nid]
        if n.kind != "exit":
            continue
        st, cast, pc, ps, err = a
        fs = next(iter(fss))
        c.site(r, "%s:%d" % (n.file, n.line), "ended=%s woken=%d %s" % (st, cast, err))
        msg = err
        if not msg and st == 1:
            msg = "the execution is never marked as ended"
        if not msg and st == 0:
            msg = "returns without having marked the node as executing"
        if not msg and not cast:
            msg = "the execution ends without waking the threads waiting for it"
        if msg and msg not in seen:
            seen.add(msg)
            tr = trace(g, res, nid, a, fs)
            line = next((int(s.rsplit(":", 1)[1]) for s in reversed(tr) if s.startswith(j["f"])), n.line)
            c.bad(r, j["q"], msg, n.file, line, "on some way out of an execution: " + msg, tr)


def escape(c, F, r, j):
    MT = MayThrow(F)
    g = build(F, j, inline_near(N_, files=("MEQ/src/Node.cc",), no=OPAQUE), maythrow=MT)
    STAGE = ("getCachedResult", "cacheResult", "pollChildren", "checkChildCells", "processRequestRider", "setCurrentRequest", "getResult", "discoverSpids",
             "setCells", "hasRider")
    seen = set()
    n0 = 0
    res = run(g, 0, lambda a, n, f: [0], cap=2, only=about("@none@"))
    for n in g.nodes:
        if n.id not in res.visited or not n.ev or n.kind != "ev":
            continue
        if n.ev[0] in ("call", "throw") and (n.ev[0] == "throw" or last(n.ev[1]) in STAGE):
            n0 += 1
            c.site(r, "%s:%d" % (n.file, n.line), pp(n.ev)[:80])
            if reaches_exc(n):
                what = "raises an error" if n.ev[0] == "throw" else last(n.ev[1])
                if (what, n.line) not in seen:
                    seen.add((what, n.line))
                    c.bad(r, j["q"], "unprotected " + what, n.file, n.line, "an error in %s leaves the execution with the node still marked as executing" % what)


def reaches_exc(n):
    """an exception edge of n leads out of the function without passing a handler"""
    work = [s for s, l in n.succ if l is not None and (l == "exc" or l[0] == "exc")]
    seen = set()
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.kind == "excexit":
            return True
        if x.kind in ("nop", "excjoin", "catchdispatch") or (x.kind == "ev" and x.ev and x.ev[0] == "dtor"):
            work += [s for s, l in x.succ]
    return False


def isabortflag(t):
    return any(x[0] == "call" and last(x[1]) == "abortFlag" or (x[0] == "m" and last(x[2]) == "abort_flag_") for x in walk(t)) if isinstance(t, tuple) else False


def stages(c, F, r, rs, ra, ro, rb, j):
    g = build(F, j, inl, maythrow=MayThrow(F))
    INTEREST = about("children_", "control_status_", "forest_", "abortFlag", "abort_flag_", "retcode", "code", "RES_", "CS_ACTIVE", "getControlStatus", "hasCells", "evalMode", "new_request_", "getCachedResult")
    STG = ("getCachedResult", "setCurrentRequest", "processRequestRider", "pollChildren", "getResult", "discoverSpids", "cacheResult")
    masks = bit("CS_RETCACHE", 0x400) | bit("CS_RES_MASK", 0x70)

    def step(a, n, facts):
        hist, caught, nres, fail, cleared, state, ab, pols, blk, err, ret, clr = a
        ev = n.ev
        if hist[-1:] == ("pollChildren",):
            clr |= knownclear(facts) & (FAIL() | MISSING() | WAIT())
        if n.kind == "catch" and n.func == j["q"]:
            caught, nres, fail = "caught", 0, 0 if caught != "caught" or "cacheResult" not in hist[-1:] else fail
            if hist[-1:] == ("cacheResult!",):
                nres = fail = 1
        if n.kind == "branch" and ev is not None and isabortflag(ev):
            pass
        if n.kind not in ("ev", "iret") or ev is None:
            return [(hist, caught, nres, fail, cleared, state, ab, pols, blk, err, ret, clr)]
        if ev[0] in ("call",):
            q = last(ev[1])
            if q in STG and (ev[1].startswith(N_) or "Node" in ev[1]):
                e = order(q, hist, facts, ab, caught, clr)
                if e and not err:
                    err = e
                hist = hist + (q,)
                if q == "pollChildren":
                    ab = clr = 0
                if q in ("getResult", "discoverSpids"):
                    ab = 0
                if q == "getCachedResult":
                    ab = ab
            elif q == "setExecState":
                state = statebits(ev[3], facts)
                if any(masked(x, masks) for x in ev[3][1:2]):
                    cleared = 1
            elif q in ("abortPoll",):
                w = nursery(ev, facts)
                if w and w not in pols:
                    pols = "".join(sorted(pols + w))
            elif q == "addFail" or q == "setFail":
                fail = 1
            elif q == "markThreadAsBlocked":
                blk += 1
            elif q == "markThreadAsUnblocked":
                blk -= 1
        elif ev[0] == "new" and ev[1] == "Meq::Result" and caught:
            nres = 1
        elif ev[0] == "asg" and denotes(ev[2], CST):
            v = num(ev[3]) if ev[1] == "&=" else None
            if v is not None and (v & masks) == 0 or (ev[1] == "=" and masked(ev[3], masks)):
                cleared = 1
        elif ev[0] == "ret" and n.kind == "ev" and n.func == j["q"] and not n.ctx:
            ret = facts.val(ev[1]) if ev[1] is not None else None
        return [(hist[-8:], caught, nres, fail, cleared, state, ab, pols, blk, err, ret, clr)]

    def edge(a, lab, n):
        # an exception raised by the call itself
        hist = a[0]
        if n.ev and n.ev[0] == "call" and last(n.ev[1]) in STG:
            return (hist + (last(n.ev[1]) + "!",),) + a[1:]
        return a

    # labels: remember that the abort flag was tested (and its outcome)
    def step2(a, n, facts):
        outs = step(a, n, facts)
        if n.kind == "branch" and n.ev is not None and isabortflag(n.ev) and n.func == j["q"]:
            outs = [o[:6] + (1,) + o[7:] for o in outs]
        return outs
    res = run(g, ((), "", 0, 0, 0, None, 0, "", 0, "", None, 0), step2, cap=250, edge=edge,
              stable=lambda q: last(q) not in STG[2:], only=INTEREST, maxstates=900000)
    done = set()

    def rep(rule, msg, nid, a, fs):
        if (rule, msg) in done:
            return
        done.add((rule, msg))
        tr = trace(g, res, nid, a, fs)
        line = next((int(s.rsplit(":", 1)[1]) for s in reversed(tr) if s.startswith(j["f"])), j["l"])
        c.bad(rule, j["q"], msg, j["f"], line, msg, tr)
    for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
        n = g.nodes[nid]
        if n.kind != "exit":
            continue
        hist, caught, nres, fail, cleared, state, ab, pols, blk, err, ret, clr = a
        for fs in sorted(fss, key=len):
            facts = Facts(fs)
            isab = ret is not None and any(num(x) is not None and num(x) & ABORT() and not num(x) & FAIL() for x in walk(ret) if x[0] in ("lit", "enum"))
            h = tuple(x for x in hist if not x.endswith("!"))
            what = " ".join(h) + (" caught" if caught else "") + (" abort" if isab else "")
            c.site(ro, "%s:%d" % (n.file, n.line), what)
            if err:
                rep(ro, err, nid, a, fs)
            c.site(rb, "%s:%d" % (n.file, n.line), "blocked balance %d" % blk)
            if blk:
                rep(rb, "a thread that waited for another execution stays marked as blocked", nid, a, fs)
            if caught:
                c.site(r, "%s:%d" % (n.file, n.line), what)
                if not hasbit(ret, FAIL()):
                    rep(r, "after an error the returned code does not carry the fail bit", nid, a, fs)
                if not fail or not nres:
                    rep(r, "after an error the result does not hold a fail", nid, a, fs)
            if isab or "abort" in what:
                c.site(ra, "%s:%d" % (n.file, n.line), what)
                if pols != "cs":
                    rep(ra, "an aborted execution leaves a poll of its children or step children running", nid, a, fs)
                if "cacheResult" in h and not caught:
                    rep(ra, "the result of an aborted execution is cached", nid, a, fs)
                if not abort_known(facts):
                    rep(ra, "an execution reports an abort although the abort flag is not raised", nid, a, fs)
            elif not caught:
                if abort_known(facts) and "cacheResult" not in h and "getCachedResult" not in h:
                    rep(ra, "the abort flag is raised but the execution does not report an abort", nid, a, fs)
            # final status
            c.site(rs, "%s:%d" % (n.file, n.line), "%s -> %s" % (what, state))
            if state is None:
                rep(rs, "returns without setting the final execution state", nid, a, fs)
                continue
            es, bits, known = state
            if es is not None and es != bit("CS_ES_IDLE", 0):
                rep(rs, "returns without going back to the idle state", nid, a, fs)
            if not known:
                continue
            want = None
            if isab:
                want = None
            elif caught:
                want = "CS_RES_FAIL"
            elif h[-1:] == ("getCachedResult",):
                want = "CS_RETCACHE"
            elif knownset(facts, WAIT()):
                want = "CS_RES_WAIT"
            elif knownset(facts, FAIL()):
                want = "CS_RES_FAIL"
            elif knownset(facts, MISSING()):
                want = "CS_RES_MISSING"
            elif "pollChildren" not in h and h:
                want = "CS_RES_EMPTY"
            if want:
                w = bit(want, {"CS_RETCACHE": 0x400, "CS_RES_FAIL": 0x50, "CS_RES_WAIT": 0x20, "CS_RES_MISSING": 0x40, "CS_RES_EMPTY": 0x30}[want])
                if want == "CS_RETCACHE":
                    good = bits & w == w
                else:
                    good = bits & bit("CS_RES_MASK", 0x70) == w
                if not good:
                    rep(rs, "the final status of a %s execution is %#x" % (want.replace("CS_RES_", "").replace("CS_", "").lower(), bits), nid, a, fs)
            if not isab and want != "CS_RETCACHE" and not cleared:
                rep(rs, "outcome bits of the previous execution are not cleared from the status", nid, a, fs)



def abort_known(facts):
    for f in facts.s:
        if f[0] == "a" and f[1][0] == "eq" and f[1][1] is None and f[1][3] == 0 and not f[2] and isabortflag(f[1][2]):
            return True
    return False


def masked(t, masks):
    """t contains  X & ~masks"""
    for x in walk(t):
        if x[0] == "bin" and x[1] == "&":
            for y in (x[2], x[3]):
                v = num(y)
                if v is not None and (v & masks) == 0:
                    return True
    return False


def statebits(args, facts):
    """(exec state, or-ed bits, known)"""
    es = num(facts.val(args[0])) if args else None
    if len(args) < 2 or args[1] is None:
        return (es, 0, False)
    bits, known = orbits(facts.val(args[1]))
    return (es, bits, known)


def orbits(t):
    t = strip_cast(t)
    v = num(t)
    if v is not None:
        return v, True
    if t[0] == "bin" and t[1] == "|":
        a, ka = orbits(t[2])
        b, kb = orbits(t[3])
        return a | b, ka and kb
    if t[0] == "bin" and t[1] == "&":
        return 0, True
    if t[0] == "m" or (t[0] == "call" and last(t[1]) == "getControlStatus"):
        return 0, True
    return 0, False


def order(q, hist, facts, ab, caught, clr):
    h = [x for x in hist if not x.endswith("!")]
    if q == "getCachedResult":
        if h:
            return "the cache is looked up after %s" % h[-1]
    elif q == "setCurrentRequest":
        if "getCachedResult" not in h:
            return "the request is changed before the cache has been looked up"
        if "pollChildren" in h:
            return "the request is changed after the children have been polled"
    elif q == "processRequestRider":
        if "pollChildren" in h or "getResult" in h:
            return "the request rider is processed after the children have been polled"
        if h.count("processRequestRider"):
            return "the request rider is processed twice"
        if facts.eval(("m", ("this",), N_ + "new_request_")) is not True:
            return "the request rider is processed again for a known request"
        if "setCurrentRequest" not in h:
            return "the request rider is processed before the request is made current"
    elif q == "pollChildren":
        if "getCachedResult" not in h:
            return "children are polled before the cache has been looked up"
        if "pollChildren" in h:
            return "children are polled twice"
        if facts.eval(("m", ("this",), N_ + "new_request_")) is True and "setCurrentRequest" not in h:
            return "children are polled for a new request that was not made current"
        if not active_known(facts):
            return "children are polled although the node may be inactive"
        if not ab:
            return "children are polled without testing the abort flag first"
    elif q in ("getResult", "discoverSpids"):
        if "pollChildren" not in h:
            return "the result is computed before the children have been polled"
        if "getResult" in h or "discoverSpids" in h:
            return "the result is computed twice"
        k = clr | knownclear(facts)
        for nm, b in (("wait", WAIT()), ("fail", FAIL()), ("missing data", MISSING())):
            if not k & b:
                return "the result is computed although the children may have returned %s" % nm
        if not cells_known(facts):
            return "the result is computed for a request that may have no cells"
        if not ab:
            return "the result is computed without testing the abort flag after polling"
    elif q == "cacheResult":
        if caught:
            return None
        if "cacheResult" in h:
            return "a result is cached twice"
        if "pollChildren" in h and not ab:
            return "a result is cached without testing the abort flag after %s" % ("evaluation" if "getResult" in h or "discoverSpids" in h else "polling")
        if "pollChildren" in h and not ("getResult" in h) and knownset(facts, WAIT()):
            return "the code of a waiting child is cached"
        if abort_known(facts):
            return "the result of an aborted execution is cached"
    return None


def active_known(facts):
    for f in facts.s:
        if f[0] == "a" and f[1][0] == "eq" and f[1][1] is None and f[1][3] == 0 and not f[2]:
            s = f[1][2]
            if any(x[0] == "call" and last(x[1]) == "getControlStatus" or x[0] == "m" and x[2] == CST or (x[0] == "call" and last(x[1]) in ("isActive",)) for x in walk(s)):
                return True
    return False


def cells_known(facts):
    for f in facts.s:
        if f[0] == "a" and f[1][0] == "eq" and f[1][1] is None and f[1][3] == 0 and not f[2]:
            if any(x[0] == "call" and last(x[1]) == "hasCells" for x in walk(f[1][2])):
                return True
    return False


# ---------------------------------------------------------------------------------------------------

def newreq(c, F, r, j):
    NR = N_ + "new_request_"
    g = build(F, j, inl)
    want = {"valid": None, "empty": None, "same": None}
    n0 = 0

    def step(a, n, facts):
        if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "asg" and denotes(n.ev[2], NR):
            v = facts.eval(n.ev[3])
            if v is None:
                return [a | {(n.line, "?")}]
            return [a | {(n.line, v) + known_req(facts)}]
        return [a]
    res = run(g, frozenset(), step, cap=64, stable=always, only=about("current_request_", "current_reqid_", "empty", "size", "valid"))
    allsets = set()
    for (nid, a), fss in res.seen.items():
        allsets |= a
    for x in sorted(allsets, key=str):
        c.site(r, "%s:%d" % (j["f"], x[0]), str(x[1:]))
        if x[1] is False:
            miss = [w for w, k in zip(("there is a current request", "the id is not empty", "the id equals the current one"), x[2:]) if not k]
            if miss:
                c.bad(r, j["q"], "known: " + miss[0], j["f"], x[0], "a request is treated as already known without checking that " + " and that ".join(miss))
        elif x[1] is True and all(x[2:]):
            c.bad(r, j["q"], "known treated as new", j["f"], x[0], "a request with the current id is treated as new")
    for k in F.fns(N_ + "setCurrentRequest"):
        g = build(F, k, inl)
        prm = k["params"][0][0] if k["params"] else None
        m = {"req": lambda ev, f, n: 1 if ev[0] == "call" and ev[2] is not None and denotes(ev[2], N_ + "current_request_") and last(ev[1]) in ("attach", "operator=", "operator<<=", "xfer", "copy") else 0,
             "id": lambda ev, f, n: 1 if (is_call(ev, "operator=") and denotes(ev[2], N_ + "current_reqid_") or ev[0] == "asg" and denotes(ev[2], N_ + "current_reqid_")) else 0}
        outs, res = outcomes(g, m)
        for o in outs:
            if o.kind != "exit":
                continue
            c.site(r, "%s:%d" % (k["f"], k["l"]), str(o.counts))
            if o.counts["req"] != 1 or o.counts["id"] != 1:
                report_path(c, r, g, res, o, k["q"], "req %(req)d id %(id)d" % o.counts, "making a request current does not record the request and its id together")


def known_req(facts):
    valid = nonempty = same = False
    for f in facts.s:
        if f[0] != "a":
            continue
        s = repr(f[1])
        k, v = f[1], f[2]
        if "current_request_" in s and "valid" in s and k[0] == "eq" and k[1] is None and not v:
            valid = True
        if k[0] == "eq" and k[1] is None and "'size'" in s and "current" not in s and not v:
            nonempty = True
        if k[0] == "eq" and k[1] is not None and "current_reqid_" in s and v:
            same = True
        if "operator!=" in s and "current_reqid_" in s and k[0] == "eq" and k[1] is None and v:
            same = True
    return (valid, nonempty, same)


def breaks(c, F, r):
    for j in F.fns(N_ + "setExecState"):
        if len(j["params"]) < 3:
            continue
        g = build(F, j, inline_near(N_, files=("MEQ/src/Node.cc",), no=("setControlStatus", "publishParentalStatus")))
        STOPPED = bit("CS_STOPPED", 0x2000)

        def step(a, n, facts):
            lock, stopped, used, err, ss = a
            ev = n.ev
            if n.kind not in ("ev", "iret") or ev is None:
                return [a]
            if ev[0] == "call":
                q = last(ev[1])
                if q == "release" and ev[2] is not None and "pstate_lock_" in repr(ev[2]):
                    lock = "out"
                elif q in ("relock", "lock") and ev[2] is not None and "pstate_lock_" in repr(ev[2]):
                    lock = "in"
                elif q == "setControlStatus":
                    v = facts.val(ev[3][0])
                    b, known = orbits(v)
                    if b & STOPPED or any((num(x) or 0) & STOPPED and num(x) > 0 for x in walk(v) if x[0] in ("lit", "enum")) and not masked(v, STOPPED):
                        stopped = 1
                    else:
                        if stopped == 2 or stopped == 1:
                            stopped = 0
                elif q in ("processBreakpoint", "waitOnStopFlag"):
                    used = 1
                    if lock != "out":
                        err = err or "stops at a breakpoint while holding the node's state lock"
                    if stopped != 1:
                        err = err or "stops at a breakpoint without raising the stopped status first"
                    if abort_known(facts):
                        err = err or "stops at a breakpoint although an abort is in progress"
                    stopped = 2
            return [(lock, stopped, used, err, ss)]
        res = run(g, ("in", 0, 0, "", 0), step, cap=24, stable=always, only=about("abortFlag", "abort_flag_", "breakpoint", "forest_"))
        seen = set()
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind != "exit":
                continue
            lock, stopped, used, err, ss = a
            c.site(r, "%s:%d" % (n.file, n.line), str(a))
            msg = err
            if not msg and lock != "in":
                msg = "returns without the node's state lock after a breakpoint"
            if not msg and stopped:
                msg = "the stopped status is still raised when execution goes on after a breakpoint"
            if msg and msg not in seen:
                seen.add(msg)
                c.bad(r, j["q"], msg, j["f"], n.line, msg, trace(g, res, nid, a, next(iter(fss))))
        # single shots: a path that knows  breakpoints_ss_ & x  clears the mask
        SS = N_ + "breakpoints_ss_"

        def step3(a, n, facts):
            if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "asg" and denotes(n.ev[2], SS):
                return [1]
            if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "call" and last(n.ev[1]) == "processBreakpoint" and not a and \
                    any(f[0] == "a" and f[1][0] == "eq" and f[1][1] is None and not f[2] and SS in repr(f[1][2]) for f in facts.s):
                return [2]
            return [a]
        res = run(g, 0, step3, cap=24, stable=always, only=about(SS))
        for (nid, a), fss in res.seen.items():
            if g.nodes[nid].kind == "exit":
                c.site(r, "%s:%d" % (j["f"], j["l"]), "single-shot %s" % a)
                if a == 2:
                    c.bad(r, j["q"], "single shot kept", j["f"], j["l"], "a single-shot breakpoint is not cleared when it triggers", trace(g, res, nid, a, next(iter(fss))))


def bpflags(c, F, LA, r):
    pairs = {N_ + "breakpoints_": bit("CS_BREAKPOINT", 0x800), N_ + "breakpoints_ss_": bit("CS_BREAKPOINT_SS", 0x1000)}
    for nm in ("setBreakpoint", "clearBreakpoint"):
        for j in F.fns(N_ + nm):
            g = build(F, j, inline_near(N_, files=("MEQ/src/Node.cc",), no=("setControlStatus",)))
            for fld, b in pairs.items():
                def step(a, n, facts, fld=fld, b=b):
                    ch, st = a
                    ev = n.ev
                    if n.kind in ("ev", "iret") and ev:
                        if ev[0] == "asg" and denotes(ev[2], fld):
                            return [(1, 0)]
                        if ev[0] == "call" and last(ev[1]) == "setControlStatus":
                            v = ev[3][0]
                            if fld in repr(v) or fld in repr(facts.val(v)):
                                z = cond_flag(v, fld, b) if v[0] == "cond" else None
                                return [(ch, 1 if z in (True, None) else 2)]
                            t = facts.eval(("m", ("this",), fld))
                            bits, known = orbits(facts.val(v))
                            if t is True:
                                return [(ch, 1 if bits & b else 2)]
                            if t is False:
                                return [(ch, 1 if not bits & b else 2)]
                            if masked(facts.val(v), b):
                                return [(ch, 2)]
                            return [(ch, st or 3)]
                    return [a]
                res = run(g, (0, 0), step, cap=24, stable=always, only=about(fld))
                for (nid, a), fss in res.seen.items():
                    if g.nodes[nid].kind != "exit" or not a[0]:
                        continue
                    c.site(r, "%s:%d" % (j["f"], j["l"]), "%s %s -> %s" % (nm, last(fld), a[1]))
                    if a[1] in (0, 2):
                        c.bad(r, j["q"], "%s %d" % (last(fld), a[1]), j["f"], j["l"],
                              "the breakpoint status flag %s" % ("is not updated with the breakpoint mask" if a[1] == 0 else "contradicts the breakpoint mask"), trace(g, res, nid, a, next(iter(fss))))
            g, held = LA.analyse(j)
            for n, fld in LS.field_events(g, held, set(pairs)):
                if LS.writes(n.ev, fld):
                    c.site(r, "%s:%d" % (n.file, n.line), "locked write of " + last(fld))
                    if N_ + "state_mutex_" not in held[n.id]:
                        c.bad(r, j["q"], "unlocked " + last(fld), n.file, n.line, "the breakpoint mask is changed without the state lock")


def cond_flag(v, fld, b):
    """cond ? status|b : status&~b with cond about fld"""
    key, pol = atom(v[1])
    if key[0] != "eq" or key[1] is not None:
        return None
    t, f = (v[2], v[3]) if not pol else (v[3], v[2])
    return bool(orbits(t)[0] & b) and not orbits(f)[0] & b
