"""P20: no lock-order deadlock between the threads of the system; waits; the locking primitives themselves."""
from rules import *
from lockorder import LockOrder
import lockset as LS
from ir import fn, pp, walk, last, deref, strip_cast

CORE = ['MEQ/src/', 'MeqServer/src/', 'OCTOPUSSY/src/', 'OCTOPython/src/', 'AppAgent/AppAgent/', 'DMI/src/', 'TimBase/src/', 'VisCube/src/']
T = "LOFAR::Thread::"
ML = T + "Mutex::Lock::"
SL = T + "SmartLock::"
CV = T + "Condition::"

# lock pairs taken in both orders that cannot deadlock, each reviewed by hand
REVIEWED = {
    frozenset(("Meq::MTPool::Brigade::cond_", "Meq::NodeNursery::NodeMT::child_poll_cond_")):
        "the pool mutex is taken inside a node's poll mutex only by the one thread that is polling on behalf of that node, and the poll "
        "mutex is taken inside the pool mutex only by that same thread while it looks for work",
    frozenset(("Meq::Node::exec_cond_", "Meq::Node::state_mutex_")):
        "the state mutex is held around taking the execution mutex only by the thread that has marked the node as executing, which keeps "
        "every other thread out of the section that takes them in the other order",
}
ASSUMPTIONS = ["two locks are the same when they are the same member of the same class: orders between two objects of one class are not distinguished",
               "all mutexes are recursive (checked by P20-primitives), so a thread re-acquiring a mutex it holds does not block",
               "calls through plain function pointers and Python callbacks acquire nothing",
               "printing of debug information (sdebug) does not lock anything that matters"]


def check(c):
    F = c.load(CORE)
    LA = LS.LockAnalysis(F)
    order(c, F, LA)
    waits(c, F, LA)
    raw(c, F)
    named(c, F)
    primitives(c, F)
    smartlock(c, F, LA)
    r = c.rule("P20-map", "the table of threads is only accessed holding its mutex")
    check_guarded(c, LA, r, {T + "thread_map_": "g:" + T + "thread_map_mutex_", T + "thread_list_": "g:" + T + "thread_map_mutex_"},
                  skip_funcs=(T + "mapThread",))
    c.expect(r, 2)


# ---------------------------------------------------------------------------------------------------
def order(c, F, LA):
    r = c.rule("P20-order", "over the whole program no two mutexes are acquired in opposite orders on any pair of call paths, and no longer cycle exists in the acquisition order")
    LO = LockOrder(F, LA)
    c.counts["lock_acquisition_sites"] = len(LO.nacq)
    c.counts["ordered_mutex_pairs"] = len(LO.edges)
    c.counts["functions_that_lock"] = len(LO.need)
    for (a, b), es in sorted(LO.edges.items()):
        c.site(r, es[0][0], "%s then %s (%d places)" % (a, b, len(es)))
    for p, why in REVIEWED.items():
        c.notes.append("reviewed pair %s: %s" % (" / ".join(sorted(p)), why))
    for cyc in LO.cycles(set(REVIEWED)):
        tr = []
        for a, b in zip(cyc, cyc[1:] + cyc[:1]):
            e = LO.edges[(a, b)][0]
            tr.append("holding %s:" % a)
            tr += ["    " + x for x in LO.chain(e, b)]
        e = LO.edges[(cyc[0], cyc[1 % len(cyc)])][0]
        c.bad(r, " / ".join(sorted(cyc)), "cycle", e[3], e[4],
              "mutexes acquired in conflicting orders: %s" % " -> ".join(cyc + cyc[:1]), tr)
    c.expect(r, 60)


def waits(c, F, LA):
    r = c.rule("P20-wait", "every wait on a condition holds that condition's mutex and no other, and what is awaited is tested again before it is relied on")
    skip = ("OctoPython::TC_", "Octopussy::Octoproxy::Identity::")   # bare primitives handed to Python / unfinished code without callers
    sub = Probe(c, r)
    check_waits(sub, LA, r, lambda j: not j["q"].startswith(skip))
    for a in sub.bads:
        # EventFlag::wait locks when its caller does not: the lock is conditional on an argument
        if a[1] == "AppAgent::EventFlag::wait" and a[2].startswith("wait unlocked") and locks_if_param(F, a[1]):
            continue
        # a loop that runs only while its own lock object holds the mutex
        if a[2].startswith("wait unlocked") and loop_while_locked(F, a[1]):
            continue
        c.bad(*a)
    c.expect(r, 20)


class Probe:
    def __init__(self, c, r):
        self.F, self.c, self.bads = c.F, c, []

    def site(self, *a):
        self.c.site(*a)

    def bad(self, *a):
        self.bads.append(a)


def conditions(F, q):
    for j in F.funcs.get(q, ()):
        for n in build(F, j, lambda cj, t: False).nodes:
            if n.kind == "branch" and n.ev is not None:
                yield j, n.ev


def locks_if_param(F, q):
    """the only unlocked paths of q are those on which a boolean parameter says that the caller holds the lock"""
    return any(strip_cast(t)[0] == "v" and strip_cast(t)[1] in {p[0] for p in j["params"]} for j, t in conditions(F, q))


def loop_while_locked(F, q):
    return any(x[0] == "call" and x[1] in (ML + "locked", ML + "operator bool") for j, t in conditions(F, q) for x in walk(t))


def raw(c, F):
    r = c.rule("P20-raw", "code that locks a mutex by hand unlocks it again on every way out")
    may = None
    for j in F.all():
        if j["q"].startswith(T) or j["q"] in ("OctoPython::TC_lock", "OctoPython::TC_unlock"):
            continue
        if not any(t[0] == "call" and t[1] in (LS.MUTEX + "::lock", LS.MUTEX + "::unlock", "pthread_mutex_lock", "pthread_mutex_unlock") for uid, line, tr, t in fn(j).tree()):
            continue
        may = may or MayThrow(F)
        g = build(F, j, lambda cj, t: cj["f"] == j["f"] and any(x[0] == "call" and x[1].startswith(LS.MUTEX + "::") for _, _, _, x in fn(cj).tree()), maythrow=may)
        m = {"n": lambda ev, f, n: 0 if ev[0] != "call" or n.kind != "ev" else
             1 if ev[1] in (LS.MUTEX + "::lock", "pthread_mutex_lock") else -1 if ev[1] in (LS.MUTEX + "::unlock", "pthread_mutex_unlock") else 0}
        outs, res = outcomes(g, m)
        for o in outs:
            c.site(r, "%s:%d" % (j["f"], o.node.line), j["q"])
            if o.counts["n"]:
                report_path(c, r, g, res, o, j["q"], "unbalanced " + o.kind, "mutex left %s when %s returns" % ("locked" if o.counts["n"] > 0 else "over-unlocked", last(j["q"])))


def named(c, F):
    r = c.rule("P20-scoped", "a scoped lock lives in a named object: it is neither a temporary that unlocks at once nor an object that never locks anything")
    for j in F.all():
        if j["q"].startswith(T):
            continue
        f = fn(j)
        vars_, used, ctors, refs, made = {}, set(), [], set(), {}
        for uid, line, tr, t in f.tree():
            if t[0] == "ctor" and t[1] == LS.LOCK + "::(ctor)":
                ctors.append((uid, line, t))
                made[uid] = t
            for x in allrefs(t):
                refs.add(x)
            if t[0] == "decls":
                for d in t[1:]:
                    if d[2] == LS.LOCK:
                        vars_[d[1]] = (line, d[3])
            for x in walk(t):
                if x[0] == "v":
                    used.add(x[1])
        for v, (line, init) in vars_.items():
            c.site(r, "%s:%d" % (j["f"], line), "%s in %s" % (v, j["q"]))
            if init is not None and init[0] == "ref":
                init = made.get(init[1], ("?",))
            empty = init is None or (init[0] == "ctor" and not init[2])
            if empty and v not in used:
                c.bad(r, j["q"], "lock object never locks " + v, j["f"], line, "the lock object '%s' is declared but never locks a mutex" % v)
        for uid, line, t in ctors:
            if uid not in refs and t[2]:
                c.bad(r, j["q"], "temporary lock " + pp(t[2][0])[:60], j["f"], line, "a temporary lock is destroyed at the end of the statement: nothing is protected")
    c.expect(r, 200)


def allrefs(t):
    if isinstance(t, tuple):
        if len(t) == 2 and t[0] == "ref" and isinstance(t[1], int):
            yield t[1]
        else:
            for x in t:
                yield from allrefs(x)


# ---------------------------------------------------------------------------------------------------
def isfield(t, objs, field):
    t = strip_cast(deref(t))
    if t is None or t[0] != "m" or t[2] != field:
        return None
    b = deref(t[1])
    if b is None or b[0] == "this":
        return "this"
    if b[0] == "v":
        return b[1]
    return "?"


def truth(e, val):
    """(expression, True if it is non-null) for a null test"""
    e = strip_cast(e)
    while e[0] == "un" and e[1] == "!":
        e, val = strip_cast(e[2]), not val
    if e[0] == "bin" and e[1] in ("==", "!="):
        for x, y in ((e[2], e[3]), (e[3], e[2])):
            if strip_cast(y)[0] in ("lit", "null") and strip_cast(y)[-1] in (0, "0", None) or strip_cast(y) == ("lit", 0):
                return strip_cast(x), val if e[1] == "!=" else not val
    return e, val


def guard_methods(c, r, F, cls, field, acq, rel, skip, ispair):
    """a scoped guard: at every exit (locks taken - locks released) equals (holds a lock now) - (held one before)"""
    n = 0
    for q in sorted(F.funcs):
        if not q.startswith(cls) or "::" in q[len(cls):] or last(q) in skip:
            continue
        for j in F.funcs[q]:
            if last(q) in ("sdebug", "debug", "locked", "operator bool", "operator!"):
                continue
            ctor, dtor = last(q) == "(ctor)", last(q) == "(dtor)"
            g = build(F, j, lambda cj, t: cj["q"].startswith(cls.rsplit("::", 2)[0] + "::") and last(cj["q"]) in ("init", "release", "locked", "operator bool", "operator!"))
            for h0 in ((0,) if ctor else (0, 1)):
                for p0 in (0, 1):
                    # auto: (this holds, other guard holds, old value holder var or None, locks-unlocks, trylock pending)
                    def step(a, nd, facts):
                        h, p, d, tl, al = a
                        ev = nd.ev
                        if nd.kind not in ("ev", "iret") or ev is None:
                            return [a]
                        if ev[0] == "minit" and ev[1][0] == "base":
                            a0 = strip_cast(ev[2][2][0]) if ev[2][0] == "ctor" and ev[2][2] else None
                            if a0 is not None:
                                src = isfield(a0, None, field)
                                h = 0 if a0 == ("lit", 0) else p if src else 1
                        elif ev[0] == "minit" and ev[1][0] == "m" and ev[1][2] == field or ev[0] == "asg" and ev[1] == "=" and isfield(ev[2], None, field) == "this":
                            rhs = strip_cast(ev[2] if ev[0] == "minit" else ev[3])
                            src = isfield(rhs, None, field)
                            if rhs == ("lit", 0) or rhs[0] == "null" or rhs == ("lit", None):
                                h = 0
                            elif src == "this":
                                pass
                            elif src:
                                h = p
                            elif rhs[0] == "v" and rhs[1] == "pl":
                                h = h
                            else:
                                h = 1
                        elif ev[0] == "decls":
                            for dd in ev[1:]:
                                if dd[3] is not None and isfield(dd[3], None, field) == "this":
                                    al = tuple(sorted(set(al) | {(dd[1], h)}))
                        elif ev[0] == "call" and nd.kind == "ev":
                            if last(ev[1]) in acq:
                                d += 1
                            elif last(ev[1]) in rel:
                                d -= 1
                            elif last(ev[1]) == "pthread_mutex_trylock":
                                tl = 1
                        return [(h, p, max(-3, min(3, d)), tl, al)]

                    def branch(a, e, val, nd):
                        h, p, d, tl, al = a
                        x, v = truth(e, val)
                        if x[0] == "call" and last(x[1]) == "pthread_mutex_trylock":
                            if not v:
                                d += 1
                            return (h, p, d, 0, al)
                        w = isfield(x, None, field)
                        if w == "this":
                            return a if bool(h) == v else None
                        if w and w != "?":
                            return a if bool(p) == v else None
                        for nm, hh in al:
                            if x == ("v", nm):
                                return a if bool(hh) == v else None
                        return a
                    res = run(g, (h0, p0, 0, 0, ()), step, branch=branch)
                    for (nid, a), fss in res.seen.items():
                        nd = g.nodes[nid]
                        if nd.kind != "exit":
                            continue
                        n += 1
                        h1 = 0 if dtor else a[0]
                        c.site(r, "%s:%d" % (j["f"], j["l"] if "l" in j else nd.line), "%s: held %d -> %d, locked %+d" % (q, h0, h1, a[2]))
                        if a[2] != h1 - h0 or a[3]:
                            c.bad(r, q, "guard balance", nd.file, nd.line,
                                  "%s leaves the mutex %s: on a path where the guard held %s lock before and %s after, locks minus unlocks is %+d"
                                  % (q, "locked for ever" if a[2] > h1 - h0 else "unlocked (or unlocks one it does not hold)", h0 or "no", h1 or "none", a[2]),
                                  trace(g, res, nid, a, next(iter(fss))))
    return n


def primitives(c, F):
    r = c.rule("P20-guards", "every operation of a scoped lock object keeps the number of locks it holds equal to what it believes it holds: none is leaked, none is released twice, a failed try-lock is not believed held")
    guard_methods(c, r, F, ML, ML + "pmutex", ("pthread_mutex_lock",), ("pthread_mutex_unlock",), ("release_without_unlock", "init"), None)
    for k in ("Read", "Write"):
        guard_methods(c, r, F, SL + k + "::", SL + "BaseLock::plock", ("rlock", "wlock", "wlock_upgrade"), ("runlock", "wunlock"), (), None)
    c.expect(r, 20)
    r = c.rule("P20-primitives", "mutexes are recursive; a condition waits with its own mutex and wakes its own waiters; a timed wait's deadline is a valid time; locking calls lock and unlocking calls unlock")
    need = {CV + "wait": ("pthread_cond_wait", "pthread_cond_timedwait", "wait"), CV + "broadcast": ("pthread_cond_broadcast",), CV + "signal": ("pthread_cond_signal", "pthread_cond_broadcast"),
            T + "Mutex::lock": ("pthread_mutex_lock",), T + "Mutex::unlock": ("pthread_mutex_unlock",), T + "Mutex::trylock": ("pthread_mutex_trylock",),
            T + "Mutex::init": ("pthread_mutexattr_settype",)}
    for q, ws in sorted(need.items()):
        for j in F.funcs.get(q, ()):
            g = build(F, j, inline_class(T))
            own = ("pthread_cond_wait", "pthread_cond_timedwait", "wait") if q == CV + "wait" else ws
            outs, res = outcomes(g, {"n": lambda ev, f, n: 1 if n.kind == "ev" and ev[0] == "call" and last(ev[1]) in own else 0})
            for o in outs:
                if o.kind != "exit":
                    continue
                c.site(r, "%s:%d" % (o.node.file, o.node.line), "%s calls %s" % (q, own[0]))
                if o.counts["n"] < 1:
                    report_path(c, r, g, res, o, q, "does nothing", "%s can return without having called %s" % (q, own[0]))
            for n in g.nodes:
                ev = n.ev
                if n.kind != "ev" or not ev or ev[0] != "call":
                    continue
                nm = last(ev[1])
                if nm in ("pthread_cond_wait", "pthread_cond_timedwait", "pthread_cond_broadcast", "pthread_cond_signal"):
                    for a, fld in zip(ev[3], (CV + "cond", T + "Mutex::mutex")):
                        if not any(x[0] == "m" and x[2] == fld and deref(x[1]) == ("this",) for x in walk(a)):
                            c.bad(r, q, nm + " argument", n.file, n.line, "%s is called on %s instead of the object's own %s" % (nm, pp(a), last(fld)))
                if nm == "pthread_mutexattr_settype":
                    a = strip_cast(ev[3][1])
                    v = a[-1] if a[0] in ("enum", "lit") else None
                    if v is not None and v != 1:
                        c.bad(r, q, "not recursive", n.file, n.line, "mutexes are not created recursive: every method that locks an object already locked by its caller blocks for ever")
            if q == T + "Mutex::init":
                for n in g.nodes:
                    if n.kind == "ev" and n.ev and n.ev[0] == "call" and last(n.ev[1]) == "pthread_mutex_init":
                        if strip_cast(n.ev[3][1]) in (("lit", 0), ("null",)) or n.ev[3][1][0] == "lit":
                            c.bad(r, q, "init without attributes", n.file, n.line, "mutexes are initialised without the recursive attribute")
            timed(c, r, q, j, g)
    c.expect(r, 6)


def timed(c, r, q, j, g):
    def nsec(t):
        t = strip_cast(deref(t))
        return t is not None and t[0] == "m" and last(t[2]) == "tv_nsec"
    if not any(n.kind == "ev" and n.ev and n.ev[0] == "call" and last(n.ev[1]) == "pthread_cond_timedwait" for n in g.nodes):
        return

    def small(e):
        e = strip_cast(e)
        return e[0] == "bin" and e[1] == "%"

    def step(a, n, f):
        ev = n.ev
        if n.kind == "ev" and ev and ev[0] == "asg" and nsec(ev[2]):
            if ev[1] == "%=" or (ev[1] == "=" and small(ev[3])):
                return [1]
            return [0]
        return [a]

    def branch(a, e, val, n):
        e = strip_cast(e)
        if e[0] == "bin" and e[1] in ("<", "<=", ">", ">=") and (nsec(e[2]) or nsec(e[3])):
            lt = (e[1][0] == "<") == nsec(e[2])
            if lt == val:
                return 1
        return a
    res = run(g, 0, step, branch=branch)
    for (nid, a), fss in res.seen.items():
        n = g.nodes[nid]
        if n.kind == "ev" and n.ev and n.ev[0] == "call" and last(n.ev[1]) == "pthread_cond_timedwait":
            c.site(r, "%s:%d" % (n.file, n.line), "deadline nanoseconds %s" % ("normalised" if a else "not normalised"))
            if not a:
                c.bad(r, q, "deadline", n.file, n.line, "the deadline's nanoseconds may exceed a second: the wait fails at once",
                      trace(g, res, nid, a, next(iter(fss))))


# ---------------------------------------------------------------------------------------------------
def smartlock(c, F, LA):
    r = c.rule("P20-rw", "a reader/writer lock admits a writer only when there is no other reader or writer and a reader only when there is no other writer; leaving wakes whoever may now enter; its counters are only touched under its own mutex")
    W, R, ID = SL + "writers", SL + "readers", SL + "writer_id"
    check_guarded(c, LA, r, {W: SL + "cond", R: SL + "cond", ID: SL + "cond"},
                  skip_funcs=tuple(q for q in F.funcs if q.startswith(SL) and (last(q) in ("(ctor)", "operator=") or last(q) == "(dtor)")))

    def me(e):
        """+1/-1: (writer_id == self()) is tested for equality / inequality"""
        e = strip_cast(e)
        if e[0] == "call" and last(e[1]) in ("operator==", "operator!=") and any(x[0] == "m" and x[2] == ID for x in walk(e)) and any(x[0] == "call" and last(x[1]) == "self" for x in walk(e)):
            return 1 if last(e[1]) == "operator==" else -1
        return 0

    def cmp(e, val, field):
        """(lo,hi) bounds on field implied by the condition"""
        e = strip_cast(e)
        while e[0] == "un" and e[1] == "!":
            e, val = strip_cast(e[2]), not val
        if e[0] == "m" and e[2] == field:
            return (1, None) if val else (0, 0)
        if e[0] == "un" and e[1] in ("++", "--") and strip_cast(deref(e[2]))[0] == "m" and strip_cast(deref(e[2]))[2] == field:
            return (1, None) if val else (0, 0)
        if e[0] == "bin":
            op, x, y = e[1], strip_cast(e[2]), strip_cast(e[3])
            if x[0] == "un" and x[1] in ("++", "--"):
                x = strip_cast(deref(x[2]))
            if x[0] == "m" and x[2] == field and y[0] == "lit" and isinstance(y[1], int):
                k = y[1]
                if not val:
                    op = {"<": ">=", ">=": "<", ">": "<=", "<=": ">", "==": "!=", "!=": "=="}.get(op)
                return {"<": (0, k - 1), "<=": (0, k), ">": (k + 1, None), ">=": (k, None), "==": (k, k), "!=": (1, None) if k == 0 else (0, None)}.get(op, (0, None))
        return None

    def meet(a, b):
        lo = max(a[0], b[0])
        hi = a[1] if b[1] is None else b[1] if a[1] is None else min(a[1], b[1])
        return None if hi is not None and lo > hi else (lo, hi)
    n_ = 0
    for q in (SL + x for x in ("rlock", "wlock", "runlock", "wunlock", "wlock_upgrade", "rlock_downgrade")):
        for j in F.funcs.get(q, ()):
            g = build(F, j, lambda cj, t: cj["q"].startswith(SL))
            # auto: (mine True/False/None, bounds readers, bounds writers, enter errors, woke, left)
            def step(a, n, f):
                mine, br, bw, woke, left, err = a
                ev = n.ev
                if n.kind not in ("ev", "iret") or not ev:
                    return [a]
                if ev[0] == "call" and ev[1] == CV + "wait":
                    return [(mine, (0, None), (0, None), woke, left, err)]
                if ev[0] == "call" and ev[1] in (CV + "broadcast",):
                    return [(mine, br, bw, 1, left, err)]
                if ev[0] == "throw":
                    return []
                for fld in (R, W):
                    d = delta(ev, fld)
                    if d is None or d == 0:
                        continue
                    b = br if fld == R else bw
                    nb = (max(0, b[0] + d), None if b[1] is None else max(0, b[1] + d))
                    if d < 0:
                        left += "r" if fld == R else "w"
                    else:
                        if fld == W and mine is not True and not (br[1] == 0 and bw[1] == 0):
                            err = err or (n.line, "a writer enters although %s may still hold the lock" % ("readers" if br[1] != 0 else "another writer"))
                        if fld == R and mine is not True and bw[1] != 0:
                            err = err or (n.line, "a reader enters although a writer may still hold the lock")
                    if fld == R:
                        br = nb
                    else:
                        bw = nb
                if (ev[0] == "asg" and denotes(ev[2], ID) and ev[1] == "=") or (ev[0] == "call" and last(ev[1]) == "operator=" and ev[2] is not None and denotes(ev[2], ID)):
                    v = ev[3] if ev[0] == "asg" else ev[3][0]
                    left += "s" if any(x[0] == "call" and last(x[1]) == "self" for x in walk(v)) else "0"
                return [(mine, br, bw, woke, left[-6:], err)]

            def branch(a, e, val, n):
                mine, br, bw, woke, left, err = a
                m = me(e)
                if m:
                    mine = val == (m > 0)
                for fld in (R, W):
                    k = cmp(e, val, fld)
                    if k is not None:
                        b = meet(br if fld == R else bw, k)
                        if b is None:
                            return None
                        if fld == R:
                            br = b
                        else:
                            bw = b
                return (mine, br, bw, woke, left, err)
            res = run(g, (None, (0, None), (0, None), 0, "", None), step, branch=branch)
            for (nid, a), fss in res.seen.items():
                n = g.nodes[nid]
                if n.kind != "exit":
                    continue
                mine, br, bw, woke, left, err = a
                c.site(r, "%s:%d" % (n.file, n.line), "%s mine=%s readers=%s writers=%s left=%s woke=%s" % (last(q), mine, br, bw, left, woke))
                tr = trace(g, res, nid, a, next(iter(fss)))
                if err:
                    c.bad(r, q, err[1][:20], n.file, err[0], err[1], tr)
                nm = last(q)
                if nm in ("wlock", "wlock_upgrade") and mine is not True and "s" not in left and bw[0] > 0:
                    c.bad(r, q, "no owner", n.file, n.line, "a writer enters without being recorded as the owner", tr)
                if nm == "runlock" and "r" in left and not woke and (br[0] <= 1):
                    c.bad(r, q, "no wakeup", n.file, n.line, "a reader leaves without waking the writers that wait for it (a writer waits for no reader, an upgrading reader for itself only)", tr)
                if nm == "wunlock" and "w" in left and bw[0] <= 0 and not woke:
                    c.bad(r, q, "no wakeup", n.file, n.line, "the last writer leaves without waking all who wait", tr)
                if nm in ("wunlock", "rlock_downgrade") and "0" in left and bw[1] != 0:
                    c.bad(r, q, "owner forgotten", n.file, n.line, "a writer is forgotten as the owner although it may still hold the lock (write locks nest)", tr)
                if nm == "wunlock" and "w" in left and bw[0] <= 0 and "0" not in left:
                    c.bad(r, q, "owner kept", n.file, n.line, "the last writer leaves but stays recorded as the owner", tr)
                if nm == "rlock_downgrade" and "w" in left and not woke:
                    c.bad(r, q, "no wakeup", n.file, n.line, "a writer becomes a reader without waking all waiting readers", tr)
    c.expect(r, 10)
