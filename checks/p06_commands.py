"""P06: the server's command loop: one execution and one answer per command, ordering, flags, serial numbers."""
from rules import *
import lockset as LS
from branching import *
from ir import fn, pp, walk, last, deref, strip_cast

CORE = ['MEQ/src/', 'MeqServer/src/', 'OCTOPUSSY/src/', 'OCTOPython/src/', 'AppAgent/AppAgent/', 'DMI/src/', 'TimBase/src/', 'VisCube/src/']
M = "Meq::MeqServer::"
FO = "Meq::Forest::"
EQ, EC, CM = M + "exec_queue_", M + "exec_cond_", M + "control_mutex_"
RUN, CSF = M + "running_", M + "clear_stop_flag_"
STOPC = FO + "stop_flag_cond_"
ASSUMPTIONS = ["one thread runs the control loop and one the execution loop; other threads only post events or call the command interface",
               "the control channel's own implementation is covered by P16 and P20"]
MUTATE = (FO + "create", FO + "remove", FO + "clear", FO + "initAll")
EXEC = ("Meq::Node::execute", "Meq::NodeFace::execute", "Meq::NodeFace::clearCache", "Meq::Node::clearCache")


def check(c):
    F = c.load(CORE)
    LA = LS.LockAnalysis(F)
    guards(c, F, LA)
    loop(c, F, LA)
    reply(c, F)
    dispatch(c, F, LA)
    maps(c, F)
    serial(c, F)
    execflag(c, F)
    debug(c, F)
    halting(c, F)
    control(c, F)


ACC = lambda q: q.startswith(("Meq::Forest::", "Meq::Node"))


def isf(t, field):
    t = deref(t) if t else None
    return t is not None and t[0] == "m" and t[2] == field


def qcall(ev, *names, field=EQ):
    return ev is not None and ev[0] == "call" and last(ev[1]) in names and ev[2] is not None and isf(ev[2], field)


def evs(n):
    return n.ev if n.kind in ("ev", "iret") else None


def hidden(t):
    """strip copies"""
    t = strip_cast(t) if t else None
    while t is not None and t[0] == "ctor" and len(t[2]) >= 1:
        t = strip_cast(t[2][0])
    return t


# ---------------------------------------------------------------------------------------------------

def guards(c, F, LA):
    r = c.rule("P06-guard", "the execution queue is accessed only holding its condition's mutex, and events are posted on the control channel only holding the control mutex")
    check_guarded(c, LA, r, {EQ: EC}, skip_funcs=(M + "(ctor)", M + "(dtor)"))
    n = 0
    for q in sorted(F.funcs):
        if not q.startswith(M):
            continue
        for j in F.funcs[q]:
            if not any(t[0] == "call" and last(t[1]) in ("postEvent", "flush") and "EventChannel" in t[1] for uid, line, tr, t in fn(j).tree()):
                continue
            g, held = LA.analyse(j)
            for nd in g.nodes:
                t = evs(nd)
                if nd.id in held and t and t[0] == "call" and last(t[1]) == "postEvent" and "EventChannel" in t[1] and not nd.ctx:
                    n += 1
                    c.site(r, "%s:%d" % (nd.file, nd.line), pp(t)[:60])
                    if CM in held[nd.id]:
                        continue
                    ob = LA.obligation(j, CM)
                    if ob is not None:
                        c.bad(r, q, "postEvent", nd.file, nd.line, "an event is posted on the control channel without holding the control mutex: two threads may write to the channel at once", ob)
    c.expect(r, 6)


# ---------------------------------------------------------------------------------------------------

def empties(e, field=EQ):
    """+1 the condition says the queue is empty, -1 not empty"""
    if e[0] == "call" and last(e[1]) == "empty" and isf(e[2], field):
        return 1
    if e[0] == "call" and last(e[1]) == "size" and isf(e[2], field):
        return -1
    if e[0] == "bin":
        a, b, op = strip_cast(e[2]), strip_cast(e[3]), e[1]
        if b[0] == "call" and last(b[1]) == "size":
            a, b, op = b, a, FLIP.get(op, op)
        if a[0] == "call" and last(a[1]) == "size" and isf(a[2], field) and b[0] == "lit":
            if (op, b[1]) in (("==", 0), ("<", 1), ("<=", 0)):
                return 1
            if (op, b[1]) in (("!=", 0), (">", 0), (">=", 1)):
                return -1
    return 0


def loop(c, F, LA):
    r = c.rule("P06-loop", "the execution thread takes the entry at the head of the queue, executes it exactly once with the queue unlocked, removes exactly that entry, and announces an emptied queue; it leaves the loop only when the server stops")
    for j in [x for q in sorted(F.funcs) if q.startswith(M) for x in F.funcs[q]]:
        if not any(t[0] == "call" and last(t[1]) in ("front", "pop_front", "begin", "erase") and t[2] is not None and pp(t[2]).endswith("exec_queue_") for uid, line, tr, t in fn(j).tree()):
            continue
        calls = [t for uid, line, tr, t in fn(j).tree() if t[0] == "call" and t[1] == M + "execCommandEntry"]
        g = build(F, j, inline_near(M, files=(j["f"],), no=("execCommandEntry", "publishState", "setState", "postMessage", "postEvent")), access=ACC)
        if not any(evs(n) and n.ev[0] == "call" and n.ev[1] == M + "execCommandEntry" for n in g.nodes):
            continue
        c.site(r, "%s:%d" % (j["f"], j["l"]), j["q"])
        al = Alias(g)
        bad = {}

        def note(k, n, msg):
            bad.setdefault(k, (n, msg))
        # (phase: idle/have/done, empty: ?/0/1, running: ?/0/1, announced needed, locked, var)

        def step(a, n, facts):
            ph, emp, run_, owe, lk, var = a
            t = evs(n)
            if t is None:
                if n.kind == "exit":
                    if ph != "idle":
                        note("exit", n, "the execution thread leaves its loop with a command taken off but not finished")
                    if run_ != 0:
                        note("stop", n, "the execution thread leaves its loop although the server has not been stopped")
                return [a]
            if t[0] == "decls":
                for d in t[1:]:
                    x = hidden(d[3]) if d[3] is not None else None
                    if qcall(x, "front") or (x and x[0] == "call" and last(x[1]) == "operator*" and "begin" in pp(x) and "exec_queue_" in pp(x)):
                        ph, var = take(ph, n), d[1]
                        if d[2] and "&" in str(d[2]):
                            pass
                    if d[3] is not None and d[3][0] == "ctor" and "Lock" in d[3][1] and "exec_cond_" in pp(d[3]):
                        lk = 1
            elif t[0] == "call":
                if qcall(t, "front", "begin"):
                    if emp != 0:
                        note("front", n, "the head of the execution queue is taken without the queue being known to have one")
                    if not lk:
                        note("lock", n, "the head of the execution queue is taken without the queue locked")
                elif last(t[1]) == "operator=" and t[3] and qcall(hidden(t[3][0]), "front"):
                    ph, var = take(ph, n), strip_cast(t[2])[1] if t[2] and strip_cast(t[2])[0] == "v" else None
                elif qcall(t, "pop_front", "erase"):
                    if ph != "done":
                        note("pop", n, "an entry is removed from the execution queue without having been executed" if ph == "idle" else "an entry is removed from the execution queue before it is executed: the queue appears empty while a command is running")
                    if emp == 1:
                        note("popempty", n, "an entry is removed from an empty queue")
                    ph, emp, owe = "idle", "?", 1
                elif qcall(t, "pop_back", "clear", "push_back", "push_front"):
                    note("other", n, "the execution thread changes the queue other than by removing the executed entry")
                elif t[1] == M + "execCommandEntry":
                    if lk:
                        note("held", n, "a command is executed with the execution queue locked")
                    if ph != "have":
                        note("exec", n, "a command is executed again" if ph == "done" else "a command is executed that was not taken from the queue")
                    arg = hidden(t[3][0])
                    if var is not None and arg is not None and arg[0] == "v" and arg[1] != var:
                        note("arg", n, "the execution thread executes something other than the queue's head")
                    v = [ceval(al.full(x), {}) for x in t[3][1:3]]
                    if v[0] == 0 or (len(v) > 1 and v[1] == 0):
                        note("mode", n, "the execution thread executes a command without restoring the server's state or without posting the result")
                    ph = "done"
                elif last(t[1]) == "broadcast" and isf(t[2], EC):
                    owe = 0
                elif last(t[1]) == "wait" and isf(t[2], EC):
                    if owe:
                        note("announce", n, "the execution thread waits without having announced that the queue became empty")
                    emp, run_ = "?", "?"
                elif last(t[1]) in ("release", "unlock"):
                    lk, run_ = 0, "?"
                elif last(t[1]) in ("relock", "lock", "(ctor)") and "exec_cond_" in pp(t):
                    lk, emp, run_ = 1, (0 if ph != "idle" else "?"), "?"
            return [(ph, emp, run_, owe, lk, var)]

        def take(ph, n):
            if ph == "have":
                return "have"
            if ph == "done":
                note("again", n, "the entry that was just executed is taken from the queue again")
            return "have"

        def on(a, e, truth, n):
            ph, emp, run_, owe, lk, var = a
            z = empties(e)
            if z:
                v = int((z > 0) == truth)
                if emp != "?" and emp != v:
                    return None
                if v == 0 and owe:
                    owe = 0
                return (ph, v, run_, owe, lk, var)
            if isf(e, RUN):
                if run_ != "?" and run_ != int(truth):
                    return None
                return (ph, emp, int(truth), owe, lk, var)
            v = ceval(e, {})
            if v is not None and bool(v) != truth:
                return None
            return a
        run(g, ("idle", "?", "?", 0, 0, None), step, branch=brancher(on, al), only=lambda f: False)
        for k, (n, msg) in sorted(bad.items()):
            c.bad(r, j["q"], k, n.file, n.line or j["l"], msg)
    c.expect(r, 1)


# ---------------------------------------------------------------------------------------------------

def reply(c, F):
    r = c.rule("P06-reply", "a command is carried out exactly once; if results are posted, it is answered exactly once when it failed or is not silent and never thrown out of; the saved server state is put back on every way out; a requested release from a breakpoint is done, and only after it was locked out until the answer was posted")
    j = F.fn(M + "execCommandEntry")
    if j is None:
        c.expect(r, 1)
        return
    P = [p[0] for p in j["params"]]
    g = build(F, j, inline_near(M, files=(j["f"],), no=("execNodeCommand", "setState", "postEvent", "postMessage", "postError", "fillAppState", "fillForestStatus", "publishState", "state")), access=ACC)
    al = Alias(g)
    qe = P[0]
    saved = {k for k, i in al.dec.items() if hidden(i) is not None and (pp(hidden(i)).endswith("state()") or pp(hidden(i)).endswith("state_"))}
    c.site(r, "%s:%d" % (j["f"], j["l"]), "modes: save state x post results x silent x node command")
    bad = {}

    def isreply(t):
        return t[0] == "call" and last(t[1]) == "postEvent" and t[3] and ".reply" in pp(hidden(t[3][0]))

    def isexec(t):
        return t[0] == "call" and (t[1] == M + "execNodeCommand" or ((t[1].endswith("?ptm") or "ptm" in t[1]) and ".proc" in pp(t)))

    for save in (0, 1):
        for post in (0, 1):
            for silent in (0, 1):
                for verbose in (0, 1):
                    const = {P[1]: save, P[2]: post, qe + ".silent": silent}
                    locs = {k for k in al.all if k not in al.dec} | {k for k, i in al.dec.items() if boolean(i)}
                    mini = Mini(lambda k: k in locs or k == "clear_stop_flag_" or k.endswith(".proc"), al, const)

                    def note(k, n, msg):
                        bad.setdefault(k, (n, msg))

                    # (env, nexec, failed, err, posts, restored, slock, cleared, thrown, resets)
                    def step(a, n, facts):
                        env, nx, failed, err, posts, rest, slock, clr, thrown, reset = a
                        t = evs(n)
                        if t is None:
                            if n.kind == "exit":
                                done(a, n)
                            elif n.kind == "excexit" and thrown:
                                if post:
                                    note("throw", n, "an exception leaves the command execution although results and errors are to be posted: the command is never answered and the thread that runs it dies")
                                elif save and not rest:
                                    note("state", n, "the server's state is not put back after a command failed")
                            return [a]
                        env = mini.event(env, t)
                        if t[0] == "asg" and strip_cast(t[2])[0] == "v" and any(isexec(x) for x in walk(t[3]) if isinstance(x, tuple) and x and x[0] == "call") and t[1] == "|=":
                            # result of the node command: verbose
                            k = strip_cast(t[2])[1]
                            old = dict(env).get(k, mini.val(t[2], a[0]))
                            env = mini.put(env, k, 1 if (old or verbose) else 0)
                        if isexec(t):
                            nx = min(nx + 1, 2)
                            if posts:
                                note("early", n, "the answer to a command is posted before the command is carried out")
                        elif t[0] == "throw":
                            thrown = 1
                        elif t[0] == "call":
                            nm = last(t[1])
                            if nm == "operator=" and t[2] is not None and "AidError" in pp(t[2]):
                                err = 1
                            elif isreply(t):
                                posts = min(posts + 1, 2)
                                if clr and slock != 1:
                                    note("order", n, "the threads stopped at a breakpoint are let go before the answer is posted")
                                if save and not rest:
                                    note("announce", n, "the answer is posted before the server's state is put back")
                                if clr == 0 and dict(env).get("clear_stop_flag_") == 1:
                                    note("late", n, "the answer is posted before the stop flag is cleared")
                            elif nm == "setState" and t[3]:
                                x = hidden(t[3][0])
                                if x is not None and x[0] == "v" and x[1] in saved:
                                    rest = 1
                            elif t[1] == FO + "clearStopFlag":
                                clr = 1
                                if slock != 1 and post:
                                    note("lock", n, "the stop flag is cleared without first locking out the stopped threads until the answer is posted")
                                if dict(env).get("clear_stop_flag_") != 1:
                                    note("unasked", n, "threads stopped at a breakpoint are released by a command that did not ask for it")
                            elif nm in ("lock", "relock") and "stop_flag_cond_" in pp(t):
                                slock = 1
                            elif nm in ("release", "unlock") and slock == 1:
                                slock = 2
                        elif t[0] == "decls" and any(d[3] is not None and "Lock" in str(d[3][1]) and "stop_flag_cond_" in pp(d[3]) for d in t[1:]):
                            slock = 1
                        elif t[0] == "dtor" and "Lock" in str(t) and slock == 1:
                            slock = 2
                        if t[0] == "asg" and isf(t[2], CSF) and mini.val(t[3], env) == 0:
                            reset = 1
                        return [(env, nx, failed, err, posts, rest, slock, clr, thrown, reset)]

                    def done(a, n):
                        env, nx, failed, err, posts, rest, slock, clr, thrown, reset = a
                        if nx != 1:
                            note("count", n, "there is a path on which a command is %s" % ("never carried out" if nx == 0 else "carried out twice"))
                        want = post and (failed or not silent or isnode(env) and verbose)
                        if want and posts == 0:
                            note("noreply", n, "a command %s is never answered" % ("that failed" if failed else "that is not silent"))
                        if posts > 1:
                            note("twice", n, "a command is answered twice")
                        if not want and posts:
                            note("silent", n, "a result is posted although %s" % ("results are to be returned, not posted" if not post else "the command is silent and succeeded"))
                        if failed and not post:
                            note("swallow", n, "an error is neither posted nor thrown")
                        if failed and post and not err:
                            note("noerror", n, "the answer to a command that failed does not say so")
                        if save and not rest:
                            note("state", n, "the server's state is not put back after a command")
                        if save == 0 and rest:
                            note("nosave", n, "the server's state is overwritten by a command that runs beside the execution thread")
                        if clr == 0 and dict(env).get("clear_stop_flag_") == 1:
                            note("stuck", n, "the threads stopped at a breakpoint are not released although the command asked for it")
                        if clr and not reset:
                            note("flag", n, "the request to release stopped threads stays set after it has been carried out: the next command will release them again")

                    def isnode(env):
                        return dict(env).get(qe + ".proc") == 0

                    def on(a, e, truth, n):
                        env = a[0]
                        # the state comparison: equal states need no restoring
                        if e[0] == "call" and last(e[1]) in ("operator==", "operator!="):
                            ops = [hidden(x) for x in ([e[2]] if e[2] is not None else []) + list(e[3])]
                            if any(o is not None and o[0] == "v" and o[1] in saved for o in ops):
                                if (last(e[1]) == "operator==") == truth:
                                    return (env,) + a[1:5] + (1,) + a[6:]
                                return a
                        nv = mini.on(env, e, truth)
                        return None if nv is None else (nv,) + a[1:]

                    def edge(a, lab, n):
                        t = n.ev
                        if t is not None and isexec(t):
                            return (a[0], min(a[1] + 1, 2), 1) + a[3:]
                        return a

                    init = ((), 0, 0, 0, 0, 0, 0, 0, 0, 0)
                    run(g, init, step, branch=mini.branch(on, al), edge=edge, only=lambda f: False)
    for k, (n, msg) in sorted(bad.items()):
        c.bad(r, j["q"], k, n.file, n.line or j["l"], msg)
    if not any(evs(n) and isexec(n.ev) for n in g.nodes):
        c.expect(r, 2)
    else:
        c.expect(r, 1)


# ---------------------------------------------------------------------------------------------------

def dispatch(c, F, LA):
    r = c.rule("P06-dispatch", "every command given to the server is either executed at once, queued, or refused with an error, exactly one of them; serial commands are only ever queued; waiting for the queue is not done holding up the queue")
    j = F.fn(M + "executeCommand", 4) or F.fn(M + "executeCommand")
    g = build(F, j, inline_near(M, files=(j["f"],), no=("execCommandEntry", "setState", "postEvent", "postMessage", "postError", "publishState")), access=ACC)
    al = Alias(g)
    P = [p[0] for p in j["params"]]
    c.site(r, "%s:%d" % (j["f"], j["l"]), j["q"])
    bad = {}
    syncvars = {k for k in al.all if k not in al.dec} | {k for k, i in al.dec.items() if i is not None and "FSync" in pp(i)}
    for post in (0, 1):
        mini = Mini(lambda k: k in syncvars, al, {P[2]: post})

        def note(k, n, msg):
            bad.setdefault(k, (n, msg))

        # (env, which map the iterator points into, insync, ndone, refused)
        def step(a, n, facts):
            env, mp, insync, ndone, ref, lk, sil = a
            t = evs(n)
            if t is None:
                if n.kind == "exit" and ndone + ref != 1:
                    note("none" if ndone + ref == 0 else "twice", n, "a command is %s" % ("dropped: neither executed, queued nor refused" if ndone + ref == 0 else "handled twice"))
                return [a]
            env = mini.event(env, t)
            if t[0] == "decls":
                for d in t[1:]:
                    if d[3] is not None and "commands.find(" in pp(d[3]):
                        mp = "sync" if "sync_commands.find" in pp(d[3]) and "async_commands.find" not in pp(d[3]) else "async"
                    if d[3] is not None and "Lock" in str(d[3][1]) and "exec_cond_" in pp(d[3]):
                        lk = 1
            elif t[0] == "asg" and t[2][0] in ("m", "v") and pp(t[2]).endswith("proc"):
                x = hidden(t[3])
                if x is not None and pp(x).endswith(".second") and mp == "sync":
                    insync = 1
            elif t[0] == "call":
                nm = last(t[1])
                if nm == "operator=" and t[3] and "commands.find(" in pp(t[3][0]):
                    mp = "sync" if "async_commands.find" not in pp(t[3][0]) else "async"
                elif nm == "find" and t[2] is not None and "commands" in pp(t[2]):
                    mp = "async" if "async_commands" in pp(t[2]) else "sync"
                elif t[1] == M + "execCommandEntry":
                    ndone = min(ndone + 1, 2)
                    if insync:
                        note("serial", n, "a command that must run serially on the execution thread is executed at once in the caller's thread")
                    if lk == 1:
                        note("held", n, "a command is executed with the execution queue locked")
                    v = ceval(al.full(t[3][2]), {P[2]: post}) if len(t[3]) > 2 else None
                    if v is not None and v != post:
                        note("mode", n, "the command is executed with results %s although the caller asked otherwise" % ("posted" if v else "returned"))
                    v = ceval(al.full(t[3][1]), {}) if len(t[3]) > 1 else None
                    if v:
                        note("save", n, "a command executed beside the execution thread saves and restores the server's state, undoing the state changes of the command that is being executed")
                elif qcall(t, "push_back", "push_front", "insert", "emplace_back", "emplace_front"):
                    ndone = min(ndone + 1, 2)
                    if nm in ("push_front", "emplace_front", "insert"):
                        note("fifo", n, "a command is queued ahead of the commands received before it")
                elif nm in ("postError",) or nm == "postEvent" and t[3] and "reply" in pp(t[3][0]):
                    ref = min(ref + 1, 2)
                elif nm in ("relock", "lock") and "exec_cond_" in pp(t):
                    lk = 1
                elif nm in ("release", "unlock"):
                    lk = 0
            elif t[0] == "dtor" and "Lock" in str(t):
                lk = 0
            return [(env, mp, insync, ndone, ref, lk, sil)]

        def on(a, e, truth, n):
            nv = mini.on(a[0], e, truth)
            return None if nv is None else (nv,) + a[1:]
        run(g, ((), "", 0, 0, 0, 0, 0), step, branch=mini.branch(on, al), only=lambda f: False)
    for k, (n, msg) in sorted(bad.items()):
        c.bad(r, j["q"], k, n.file, n.line or j["l"], msg)
    # queueing wakes the execution thread
    for q in sorted(F.funcs):
        if not q.startswith(M):
            continue
        for jj in F.funcs[q]:
            if not any(t[0] == "call" and last(t[1]) in ("push_back", "push_front") and t[2] is not None and pp(t[2]).endswith("exec_queue_") for uid, line, tr, t in fn(jj).tree()):
                continue
            gg = build(F, jj, inline_near(M, files=(jj["f"],)), access=ACC)
            badn = []

            def st(a, n, facts):
                t = evs(n)
                if t is None:
                    if n.kind == "exit" and a == 1:
                        badn.append(n)
                    return [a]
                if qcall(t, "push_back", "push_front"):
                    return [1]
                if t[0] == "call" and last(t[1]) in ("broadcast",) and isf(t[2], EC):
                    return [2 if a == 1 else a]
                return [a]
            run(gg, 0, st, only=lambda f: False)
            c.site(r, "%s:%d" % (jj["f"], jj["l"]), q + " wakes the execution thread")
            if badn:
                c.bad(r, q, "wake", badn[0].file, badn[0].line, "a command is queued without waking the execution thread")
    check_waits(c, LA, r, lambda j: j["q"].startswith(M))
    c.expect(r, 3)


# ---------------------------------------------------------------------------------------------------

def registrations(F):
    """[(command, map, handler or None, line)]"""
    out = []
    for j in F.fns(M + "(ctor)"):
        g = build(F, j, inline_class(M))
        for n in g.nodes:
            t = evs(n)
            if not t:
                continue
            m = None
            if t[0] == "asg" and t[1] == "=":
                lhs, rhs = t[2], t[3]
                if lhs[0] == "call" and last(lhs[1]) == "operator[]" and lhs[2] is not None and lhs[2][0] == "m":
                    m, key = last(lhs[2][2]), lhs[3][0]
            elif t[0] == "call" and last(t[1]) in ("insert", "emplace") and t[2] is not None and t[2][0] == "m" and "commands" in pp(t[2]):
                m, key, rhs = last(t[2][2]), t[3][0], t
            if m not in ("sync_commands", "async_commands"):
                continue
            name = next((x[1] for x in walk(key) if x[0] == "str"), None)
            h = next((x[1] for x in walk(rhs) if x[0] == "fn"), None)
            out.append((name or pp(key), m, h, n))
    return out


def reaches(F, q, targets, depth=3, pre=(M,)):
    """chain of calls from q to one of the targets within the class"""
    seen = {q}
    work = [(q, [q])]
    while work:
        x, ch = work.pop()
        for j in F.fns(x):
            for uid, line, tr, t in fn(j).tree():
                if t[0] != "call":
                    continue
                if t[1] in targets:
                    return ch + [t[1]]
                if t[1] not in seen and t[1].startswith(pre) and len(ch) < depth + 1 and t[1] not in (M + "executeCommand", M + "execCommandEntry"):
                    seen.add(t[1])
                    work.append((t[1], ch + [t[1]]))
    return None


def maps(c, F):
    r = c.rule("P06-serial", "commands that create or delete nodes, clear the forest or execute it are registered to run serially on the execution thread")
    regs = registrations(F)
    names = {}
    for name, m, h, n in regs:
        c.site(r, "%s:%d" % (n.file, n.line), "%s in %s" % (name, m))
        if name in names and names[name][0] != m:
            c.bad(r, M + "(ctor)", name, n.file, n.line, "command %s is registered both as a serial and as an immediate command" % name)
        names[name] = (m, h)
        if m == "async_commands":
            if h is None:
                if any(w in name for w in ("Clear.Cache", "Execute")):
                    c.bad(r, M + "(ctor)", name, n.file, n.line, "command %s changes node results and must run serially" % name)
                continue
            ch = reaches(F, h, MUTATE + EXEC)
            if ch:
                c.bad(r, M + "(ctor)", name, n.file, n.line, "command %s is executed beside the execution thread although it changes the forest or runs nodes (%s)" % (name, " -> ".join(last(x) for x in ch)))
    c.expect(r, 15)


def serial(c, F):
    r = c.rule("P06-changed", "every command that changes the set of nodes gives the forest a new serial number and reports it; a node list carries a serial number read no later than the list was made")
    inc = M + "incrementForestSerial"
    FS = M + "forest_serial"
    n = 0
    for name, m, h, node in registrations(F):
        if h is None:
            continue
        for j in F.fns(h):
            g = build(F, j, inline_near(M, files=(j["f"],), no=("incrementForestSerial", "setState", "postMessage", "postEvent", "fillForestStatus", "fillAppState", "resolveNode")), access=ACC)
            if not any(evs(x) and x.ev[0] == "call" and x.ev[1] in MUTATE[:3] for x in g.nodes):
                continue
            bad = {}

            def step(a, x, facts):
                t = evs(x)
                if t is None:
                    if x.kind == "exit":
                        if a[0]:
                            bad.setdefault("inc", x)
                        elif a[1] == 1:
                            bad.setdefault("report", x)
                    return [a]
                if t[0] == "call" and t[1] in MUTATE[:3]:
                    return [(1, a[1])]
                if t[0] == "call" and t[1] == inc or delta(t, FS) == 1:
                    return [(0, 1)]
                if t[0] == "call" and last(t[1]) == "operator=" and t[2] is not None and "FForestChanged" in pp(t[2]):
                    return [(a[0], 2)]
                return [a]
            run(g, (0, 0), step, only=lambda f: False)
            n += 1
            c.site(r, "%s:%d" % (j["f"], j["l"]), name)
            if "inc" in bad:
                c.bad(r, h, "serial", bad["inc"].file, bad["inc"].line or j["l"], "command %s changes the forest without giving it a new serial number afterwards: clients keep an outdated node list" % name)
            if "report" in bad:
                c.bad(r, h, "report", bad["report"].file, bad["report"].line or j["l"], "command %s changes the forest without reporting the new serial number" % name)
    # node lists
    for q in sorted(F.funcs):
        if not q.startswith(M):
            continue
        for j in F.funcs[q]:
            if not any(t[0] == "call" and t[1] == FO + "getNodeList" for uid, line, tr, t in fn(j).tree()):
                continue
            g = build(F, j, inline_near(M, files=(j["f"],), no=("fillForestStatus", "setState")), access=ACC)
            bad = []

            def step(a, x, facts):
                listed, fresh = a
                t = evs(x)
                if t is None:
                    return [a]
                if t[0] == "call" and t[1] == FO + "getNodeList":
                    return [(1, frozenset())]
                for d in (t[1:] if t[0] == "decls" else [(0, t[2][1], 0, t[3])] if t[0] == "asg" and t[2][0] == "v" else []):
                    if d[3] is not None and any(y[0] == "m" and y[2] == FS for y in walk(d[3])):
                        if listed:
                            fresh = fresh | {d[1]}
                if t[0] == "call" and last(t[1]) == "operator=" and t[2] is not None and "FForestSerial" in pp(t[2]) and t[3]:
                    if any(y[0] == "m" and y[2] == FS or y[0] == "v" and y[1] in fresh for y in walk(t[3][0])) and listed:
                        bad.append(x)
                return [(listed, fresh)]
            run(g, (0, frozenset()), step, only=lambda f: False)
            n += 1
            c.site(r, "%s:%d" % (j["f"], j["l"]), "node list serial")
            if bad:
                c.bad(r, q, "list", bad[0].file, bad[0].line, "a node list is labelled with a serial number read after the list was made: a change by the execution thread in between is never noticed by the client")
    # the number itself changes
    for j in F.fns(inc):
        g = build(F, j)
        ok = any(evs(x) and delta(x.ev, FS) == 1 for x in g.nodes)
        n += 1
        c.site(r, "%s:%d" % (j["f"], j["l"]), "increment")
        if not ok:
            c.bad(r, inc, "increment", j["f"], j["l"], "the forest serial number is not incremented")
    c.expect(r, 4)


# ---------------------------------------------------------------------------------------------------

def execflag(c, F):
    r = c.rule("P06-exec", "executing a node clears a previous abort first, announces execution while it lasts and no longer on any way out, and reports failure, abort and success for what they are")
    h = next((x[2] for x in registrations(F) if x[0] == "Node.Execute"), M + "nodeExecute")
    for j in F.fns(h):
        g = build(F, j, inline_near(M, files=(j["f"],), no=("setState", "postMessage", "postEvent", "fillForestStatus", "fillAppState", "resolveNode")), access=ACC)
        al = Alias(g)
        c.site(r, "%s:%d" % (j["f"], j["l"]), h)
        EX = M + "executing_"
        bad = {}
        flagvar = {k for k, i in al.dec.items() if i is not None and i[0] == "call" and last(i[1]) == "execute"}

        def note(k, n, msg):
            bad.setdefault(k, (n, msg))

        # executing: 0/1, cleared abort, executed, report, flags fail/abort
        def step(a, n, facts):
            ex, ca, done, rep, fl, ab, cb = a
            t = evs(n)
            if t is None:
                if n.kind in ("exit", "excexit") and ex:
                    if n.kind == "exit" or a[6]:
                        note("flag", n, "the server stays marked as executing after the command has ended")
                if n.kind == "exit" and done:
                    if rep == "":
                        note("report", n, "the outcome of an execution is not reported")
                    elif fl == 1 and rep != "err":
                        note("fail", n, "a failed execution is not reported as an error")
                    elif fl == 0 and rep == "err":
                        note("ok", n, "an execution that did not fail is reported as an error")
                if n.kind == "catch":
                    return [(ex, ca, done, rep, fl, ab, 1)]
                return [a]
            if t[0] == "asg" and isf(t[2], EX):
                v = ceval(t[3], {})
                ex = 0 if v == 0 else 1
            elif t[0] == "call" and last(t[1]) == "clearAbortFlag" or t[0] == "asg" and pp(t[2]).endswith("abort_flag_") and ceval(t[3], {}) == 0:
                if done:
                    note("abortlate", n, "the abort flag is cleared after the execution started: an abort request is lost")
                ca = 1
            elif t[0] == "call" and t[1] in EXEC[:2]:
                if not ca:
                    note("abort", n, "a node is executed without the previous abort being cleared")
                if not ex:
                    note("mark", n, "a node is executed without the server being marked as executing")
                if done:
                    note("again", n, "the request is executed twice")
                done = 1
            elif t[0] == "call" and last(t[1]) == "operator=" and t[2] is not None and done:
                s = pp(t[2])
                if s.startswith("out") or s.startswith("(*out") or "out()" in s or "out[" in s:
                    if "AidError" in s:
                        rep = "err"
                    elif "AidMessage" in s and rep == "":
                        rep = "msg"
            return [(ex, ca, done, rep, fl, ab, cb)]

        def on(a, e, truth, n):
            if e[0] == "bin" and e[1] == "&" and any(x[0] == "v" and x[1] in flagvar for x in walk(e)) and "RES_FAIL" in pp(e):
                v = int(truth)
                if a[4] not in ("?", v):
                    return None
                return a[:4] + (v,) + a[5:]
            return a

        def edge(a, lab, n):
            return a
        run(g, (0, 0, 0, "", "?", 0, 0), step, branch=brancher(on, al), edge=edge, only=lambda f: False)
        for k, (n, msg) in sorted(bad.items()):
            c.bad(r, h, k, n.file, n.line or j["l"], msg)
        # exceptions while executing must pass through a handler that clears the flag
        miss = unhandled(g, EX)
        if miss is not None:
            c.bad(r, h, "exception", miss.file, miss.line, "an exception while executing leaves the server marked as executing")
    c.expect(r, 1)


def unhandled(g, EX):
    hit = []

    def step(a, n, facts):
        t = evs(n)
        if n.kind == "excexit" and a == 1:
            hit.append(n)
        if t is not None and t[0] == "asg" and isf(t[2], EX):
            return [0 if ceval(t[3], {}) == 0 else 1]
        return [a]
    run(g, 0, step, only=lambda f: False)
    return hit[0] if hit else None


# ---------------------------------------------------------------------------------------------------

def debug(c, F):
    r = c.rule("P06-debug", "a command asks for stopped threads to be released only if they are stopped; the server's record of forest breakpoints follows what is set and cleared in the forest; unset breakpoints of the user survive stepping")
    FB = M + "forest_breakpoint_"
    n = 0
    for name, m, h, node in registrations(F):
        if h is None:
            continue
        for j in F.fns(h):
            g = build(F, j, inline_near(M, files=(j["f"],), no=("setState", "postMessage", "postEvent", "fillForestStatus", "fillAppState", "resolveNode")), access=ACC)
            al = Alias(g)
            interesting = any(evs(x) and (x.ev[0] == "asg" and (isf(x.ev[2], CSF) or isf(x.ev[2], FB)) or x.ev[0] == "call" and x.ev[1] in (FO + "setBreakpoint", FO + "clearBreakpoint")) for x in g.nodes)
            if not interesting:
                continue
            n += 1
            c.site(r, "%s:%d" % (j["f"], j["l"]), name)
            bad = {}

            def step(a, x, facts):
                raised, req, sets, clrs, rs, rc = a
                t = evs(x)
                if t is None:
                    if x.kind == "exit":
                        if sets - rs:
                            bad.setdefault("set", (x, "breakpoints are set in the forest but not recorded: continuing will clear them"))
                        if rs - sets:
                            bad.setdefault("norset", (x, "breakpoints are recorded that were not set in the forest"))
                        if clrs - rc:
                            bad.setdefault("clear", (x, "breakpoints are cleared in the forest but stay recorded"))
                        if rc - clrs:
                            bad.setdefault("norclear", (x, "breakpoints are dropped from the record but stay set in the forest"))
                    return [a]
                if t[0] == "asg" and isf(t[2], CSF) and ceval(t[3], {}) != 0:
                    if raised != 1:
                        bad.setdefault("release", (x, "the command asks for the stopped threads to be released without having found them stopped: the next stop will be cancelled"))
                    req = 1
                elif t[0] == "asg" and isf(t[2], FB):
                    k, arg = mask_update(t, FB, al)
                    if k == "|":
                        rs = rs | {arg}
                    elif k == "&~":
                        rc = rc | {arg}
                    elif k == "bad":
                        bad.setdefault("record", (x, "the record of the breakpoints set by the user is overwritten rather than updated"))
                        rs, rc = sets, clrs
                elif t[0] == "call" and t[1] == FO + "setBreakpoint" and t[3]:
                    one = ceval(t[3][1], {}) if len(t[3]) > 1 and t[3][1] is not None else 0
                    arg = pp(al.full(t[3][0]))
                    if one == 0 and "CS_ALL" not in arg and "BP_ALL" not in arg:
                        sets = sets | {arg}
                elif t[0] == "call" and t[1] == FO + "clearBreakpoint" and t[3]:
                    one = ceval(t[3][1], {}) if len(t[3]) > 1 and t[3][1] is not None else 0
                    arg = pp(al.full(t[3][0]))
                    if one == 0:
                        if "CS_ALL" in arg or "forest_breakpoint_" in arg:
                            if not ("~" in arg and "forest_breakpoint_" in arg):
                                bad.setdefault("user", (x, "releasing the stopped threads also clears the breakpoints set by the user"))
                        else:
                            clrs = clrs | {arg}
                return [(raised, req, sets, clrs, rs, rc)]

            def on(a, e, truth, x):
                e = al(e)
                while e[0] == "un" and e[1] == "!":
                    e, truth = strip_cast(e[2]), not truth
                if e[0] == "call" and last(e[1]) == "isStopFlagRaised" or e[0] == "m" and last(e[2]) == "stop_flag_":
                    if a[0] not in ("?", int(truth)):
                        return None
                    return (int(truth),) + a[1:]
                return a
            run(g, ("?", 0, frozenset(), frozenset(), frozenset(), frozenset()), step, branch=brancher(on, al), only=lambda f: False)
            for k, (x, msg) in sorted(bad.items()):
                c.bad(r, h, k, x.file, x.line or j["l"], msg)
    c.expect(r, 5)


def mask_update(t, field, al):
    """f |= x -> ('|', x);  f &= ~x -> ('&~', x)"""
    if t[1] == "|=":
        return "|", pp(al.full(t[3]))
    x = strip_cast(al.full(t[3]))
    if t[1] == "&=" and x[0] == "un" and x[1] == "~":
        return "&~", pp(al.full(x[2]))
    if t[1] == "&=" and x[0] == "v" or t[1] == "=" and not any(y[0] == "m" and y[2] == field for y in walk(x)):
        return "bad", None
    if t[1] == "=" and x[0] == "bin" and x[1] in ("|", "&"):
        for a, b in ((x[2], x[3]), (x[3], x[2])):
            if isf(a, field):
                b = strip_cast(b)
                if x[1] == "|":
                    return "|", pp(al.full(b))
                if b[0] == "un" and b[1] == "~":
                    return "&~", pp(al.full(b[2]))
    return "?", None


# ---------------------------------------------------------------------------------------------------

def halting(c, F):
    r = c.rule("P06-halt", "whenever the server is told to stop, every thread waiting on the execution queue is woken afterwards, and the forest is cleared and the channel closed only once the execution thread has ended")
    for q in sorted(F.funcs):
        if not q.startswith(M):
            continue
        for j in F.funcs[q]:
            if last(q) in ("(ctor)", "(dtor)"):
                continue
            if not any(t[0] == "asg" and t[2][0] == "m" and t[2][2] == RUN and ceval(t[3], {}) == 0 for uid, line, tr, t in fn(j).tree()):
                continue
            g = build(F, j, inline_near(M, files=(j["f"],), no=("executeCommand", "setState", "postMessage", "postEvent", "publishState", "postError")), access=ACC)
            c.site(r, "%s:%d" % (j["f"], j["l"]), q)
            bad = {}

            def step(a, n, facts):
                owe, lk, joined = a
                t = evs(n)
                if t is None:
                    if n.kind == "exit" and owe:
                        bad.setdefault("wake", (n, "the server is told to stop without waking the threads that wait on the execution queue"))
                    return [a]
                if t[0] == "asg" and isf(t[2], RUN):
                    owe = 1 if ceval(t[3], {}) == 0 else 0
                elif t[0] == "call" and last(t[1]) == "broadcast" and isf(t[2], EC):
                    if lk:
                        owe = 0
                elif t[0] == "call" and last(t[1]) == "join" and "exec_thread_" in pp(t[2] or ("this",)):
                    joined = 1
                elif t[0] == "call" and (t[1] == FO + "clear" or last(t[1]) == "close" and "control" in pp(t)) and not joined and last(q) == "run":
                    bad.setdefault("early", (n, "the forest is cleared or the control channel closed while the execution thread may still be running"))
                if t[0] == "decls" and any(d[3] is not None and "Lock" in str(d[3][1]) and "exec_cond_" in pp(d[3]) for d in t[1:]) or t[0] == "call" and last(t[1]) in ("lock", "relock") and "exec_cond_" in pp(t):
                    lk = 1
                elif t[0] == "call" and last(t[1]) in ("release", "unlock") or t[0] == "dtor" and "Lock" in str(t):
                    lk = 0
                return [(owe, lk, joined)]
            run(g, (0, 0, 0), step, only=lambda f: False)
            for k, (n, msg) in sorted(bad.items()):
                c.bad(r, q, k, n.file, n.line or j["l"], msg)
    c.expect(r, 2)


def control(c, F):
    r = c.rule("P06-input", "the control loop survives any event: each event received is executed, refused or obeyed exactly once, nothing a command throws ends the loop, and the loop ends only when told to halt or when the channel is closed")
    for j in F.fns(M + "run"):
        g = build(F, j, inline_near(M, files=(j["f"],), no=("executeCommand", "setState", "postMessage", "postEvent", "publishState", "postError")), access=ACC)
        al = Alias(g)
        c.site(r, "%s:%d" % (j["f"], j["l"]), "control loop")
        bad = {}

        def note(k, n, msg):
            bad.setdefault(k, (n, msg))

        # ev: none / got / n handled; closed
        def step(a, n, facts):
            got, hand, st, told = a
            t = evs(n)
            if t is None:
                return [a]
            if t[0] == "call" and last(t[1]) == "getEvent":
                if got == 1 and hand != 1 and st != "fail":
                    note("drop" if not hand else "twice", n, "an event received on the control channel is %s" % ("ignored" if not hand else "handled twice"))
                return [(1, 0, "?", told)]
            if t[0] == "call" and t[1] in (M + "executeCommand",):
                hand = min(hand + 1, 2)
                v = ceval(al.full(t[3][2]), {}) if len(t[3]) > 2 and t[3][2] is not None else 0
                if v == 0:
                    note("mode", n, "a command received on the control channel is executed without posting its result")
            elif t[0] == "call" and last(t[1]) in ("postError",):
                if not a[1] or n.func != M + "run" or a[1] == 0:
                    hand = min(hand + 1, 2)
            elif t[0] == "call" and last(t[1]) == "publishState" and got:
                hand = min(hand + 1, 2)
            elif t[0] == "asg" and isf(t[2], RUN):
                if ceval(t[3], {}) == 0:
                    told = 1
                    if st != "closed":
                        hand = min(hand + 1, 2)
            elif t[0] == "call" and last(t[1]) == "join" and "exec_thread_" in pp(t[2] or ("this",)):
                if not told and a[1] == 0 and got:
                    note("leave", n, "the control loop ends although nobody asked for it")
                return [(0, 1, st, told)]
            return [(got, hand, st, told)]

        def on(a, e, truth, n):
            got, hand, st, told = a
            if isf(e, RUN) and not truth:
                return (got, hand, st, 1)
            if e[0] == "bin" and e[1] in ("==", "!="):
                eq = (e[1] == "==") == truth
                s = pp(e)
                if "CLOSED" in s:
                    return (got, hand, "closed" if eq else st, told)
                if "SUCCESS" in s:
                    return (got, hand, st if eq else "fail", told)
            return a

        def edge(a, lab, n):
            t = n.ev
            if t is not None and t[0] == "call" and t[1] == M + "executeCommand":
                return (a[0], 0, a[2], a[3])
            return a
        run(g, (0, 1, "?", 0), step, branch=brancher(on, al), edge=edge, only=lambda f: False)
        for k, (n, msg) in sorted(bad.items()):
            c.bad(r, M + "run", k, n.file, n.line or j["l"], msg)
        # the call of executeCommand lies in a try block that catches exceptions
        for n in g.nodes:
            t = evs(n)
            if t and t[0] == "call" and t[1] == M + "executeCommand":
                tgt = [s for s, lab in n.succ if lab is not None and (lab == "exc" or lab[0] == "exc")]
                if any(s.kind == "excexit" for s in tgt) and not any(s.kind == "catch" for s in tgt):
                    c.bad(r, M + "run", "uncaught", n.file, n.line, "an exception thrown for a malformed command (arguments of the wrong type) ends the control loop and with it the server")
    c.expect(r, 1)
