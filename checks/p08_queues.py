"""P08: message queues of the processes: order, exactly-once disposal, wake-ups, locking."""
from rules import *
import lockset as LS
from branching import *
from ir import fn, pp, walk, last, deref, strip_cast, _assigned_vars

CORE = ['MEQ/src/', 'MeqServer/src/', 'OCTOPUSSY/src/', 'OCTOPython/src/', 'AppAgent/AppAgent/', 'DMI/src/', 'TimBase/src/', 'VisCube/src/']
O = "Octopussy::"
W = O + "WPInterface::"
D = O + "Dispatcher::"
Q = W + "queue_"
QC = W + "queue_cond"
NR = W + "needRepoll_"
PRI = O + "Message::priority_"
QPRI = W + "QueueEntry::priority"
HANDLERS = tuple(W + x for x in ("receive", "timeout", "input", "signal"))
ASSUMPTIONS = ["Dispatcher::start, stop and the destructors run while no other thread uses the process table",
               "message priorities are not negative (Message defines none that are)",
               "a process handler (receive, timeout, input, signal) may do anything to its own queue"]


def check(c):
    F = c.load(CORE)
    LA = LS.LockAnalysis(F)
    guards(c, F, LA)
    inserts(c, F)
    disposal(c, F, LA)
    nonempty(c, F, LA)
    removals(c, F)
    wakeups(c, F, LA)
    polling(c, F)
    table(c, F)


ACC = lambda q: q.startswith(O)


def lasts(t):
    return last(t) if t else ""


# ---------------------------------------------------------------------------------------------------
# helpers

def isq(t, field=Q):
    t = deref(t)
    return t is not None and t[0] == "m" and t[2] == field


def qcall(ev, *names, field=Q):
    return ev is not None and ev[0] == "call" and last(ev[1]) in names and ev[2] is not None and isq(ev[2], field)


def isiter(t):
    """iterator variable"""
    t = strip_cast(t) if t else None
    while t is not None and t[0] == "ctor" and len(t[2]) == 1:
        t = strip_cast(t[2][0])
    if t is not None and t[0] == "v":
        return t[1]
    return None


def qempty(e, field=Q):
    """+1 when the expression says 'empty', -1 'not empty'"""
    if e[0] == "call" and last(e[1]) in ("empty",) and isq(e[2], field):
        return 1
    if e[0] == "call" and last(e[1]) == "size" and isq(e[2], field):
        return -1
    if e[0] == "bin":
        a, b = strip_cast(e[2]), strip_cast(e[3])
        op = e[1]
        if b[0] == "call" and last(b[1]) == "size" and b[2] is not None and isq(b[2], field):
            a, b = b, a
            op = {"<": ">", ">": "<", "<=": ">=", ">=": "<="}.get(op, op)
        if a[0] == "call" and last(a[1]) == "size" and a[2] is not None and isq(a[2], field) and b[0] == "lit":
            k = b[1]
            if (op, k) in (("==", 0), ("<", 1), ("<=", 0)):
                return 1
            if (op, k) in (("!=", 0), (">", 0), (">=", 1)):
                return -1
            if op in (">", ">=") and k >= 1:
                return -2      # true: not empty; false: nothing known
    return 0


def begin_end(e, al):
    """iter == queue.end() / queue.begin(): (which, var, op)"""
    if e[0] == "call" and last(e[1]) in ("operator==", "operator!="):
        args = ([e[2]] if e[2] is not None else []) + list(e[3])
        op = "==" if last(e[1]) == "operator==" else "!="
    elif e[0] == "bin" and e[1] in ("==", "!="):
        args = [e[2], e[3]]
        op = e[1]
    else:
        return None
    if len(args) != 2:
        return None
    for a, b in (args, args[::-1]):
        v = isiter(a)
        w = al(b)
        if v is not None and w is not None and w[0] == "call" and last(w[1]) in ("end", "begin", "cend", "cbegin") and isq(w[2]):
            return last(w[1]).lstrip("c"), v, op
    return None


def prio(t, al):
    """which priority an expression is: ('new',) ('front',) ('back',) ('iter', var)"""
    t = al(t)
    if t is None:
        return None
    if t[0] == "m" and t[2] == PRI:
        b = t[1]
        for x in walk(b) if b else ():
            if x[0] == "v" and x[1] in al.all and al.all[x[1]] is not None and "queue_" in pp(al.all[x[1]]):
                return None
        if any(x[0] == "m" and x[2] == Q for x in walk(b)) if b else False:
            return None
        return ("new",)
    if t[0] == "call" and last(t[1]) == "priority" and not t[3]:
        return ("new",)
    if t[0] == "m" and t[2] == QPRI:
        b = strip_cast(t[1])
        while b is not None and (b[0] == "call" and last(b[1]) in ("operator->", "operator*") or (b[0] == "un" and b[1] == "*")):
            b = strip_cast(b[2])
        b2 = deref(b) if b is not None else None
        if b2 is not None and b2[0] == "call" and last(b2[1]) in ("front", "begin") and isq(b2[2]):
            return ("front",)
        if b2 is not None and b2[0] == "call" and last(b2[1]) == "back" and isq(b2[2]):
            return ("back",)
        v = isiter(b) if b is not None else None
        if v is not None:
            i = al.all.get(v)
            if i is not None:
                i = strip_cast(i)
                if i[0] == "ctor" and last(i[3] if len(i) > 3 and i[3] else i[1]).startswith("QueueEntry"):
                    return ("new",)
                if i[0] == "call" and last(i[1]) == "front" and isq(i[2]):
                    return ("front",)
                if i[0] == "call" and last(i[1]) == "back" and isq(i[2]):
                    return ("back",)
            return ("iter", v)
    return None


def cmp_prio(e, al):
    """comparison of the new message's priority with an entry's: (other, op) meaning  new op other"""
    if e[0] != "bin" or e[1] not in FLIP:
        return None
    a, b = prio(e[2], al), prio(e[3], al)
    if a is None or b is None:
        return None
    if a == ("new",) and b != ("new",):
        return b, e[1]
    if b == ("new",) and a != ("new",):
        return a, FLIP[e[1]]
    return None


# ---------------------------------------------------------------------------------------------------

def guards(c, F, LA):
    r = c.rule("P08-guard", "every access of a message queue, of the process table and gateway list, and of the timeout, input, signal and file descriptor tables is made holding the mutex that protects it")
    table = {Q: QC}
    for f in ("wps", "gateways", "attached_wps", "detached_wps", "wp_instances"):
        table[D + f] = D + "wpmutex"
    table.update({D + "timeouts": D + "tomutex", D + "next_to": D + "tomutex", D + "inputs": D + "inpmutex",
                  D + "signal_map": D + "sigmutex", D + "fds_watched": D + "fds_watched_mutex"})
    # the descriptor sets are written under both mutexes, so either is enough for reading
    skip = tuple(D + x for x in ("start", "stop", "(ctor)", "(dtor)", "init", "Dispatcher", "~Dispatcher", "initWPIter", "getWPIter", "sdebug", "numWPs"))
    skip += (W + "(ctor)", W + "(dtor)", W + "WPInterface", W + "~WPInterface", W + "sdebug", W + "queue")
    check_guarded(c, LA, r, table, skip_funcs=skip, read_ok=(D + "fds_watched",))
    check_guarded(c, LS.LockAnalysis(F, access=lambda q: q in (W + "queue", W + "queueCondition")), r, {Q: QC}, skip_funcs=skip, via=(W + "queue",), ok_roots=(W + "queueSize",))
    check_guarded(c, LA, r, {D + "fds_watched": (D + "fds_watched_mutex", D + "inpmutex")}, skip_funcs=skip)
    c.expect(r, 30)


# ---------------------------------------------------------------------------------------------------
class Ins:
    """automaton for one inserting function.
    auto = (nins, know, itst, stop, cnt, flags)"""


def inserts(c, F):
    r = c.rule("P08-insert", "a message is put into a queue exactly once on every path, in front of only those of lower priority (held messages also in front of their equals), and a new head of the queue is announced: repoll flag, signal and a non-negative result")
    n = 0
    for q in sorted(F.funcs):
        for j in F.funcs[q]:
            if not q.startswith(O) and "ueue" not in q:
                continue
            if any(t[0] == "call" and last(t[1]) in INSERT for uid, line, tr, t in fn(j).tree()) and not_lambda(j):
                n += insert_one(c, F, r, j)
    c.expect(r, 4)


INSERT = ("push_back", "push_front", "insert", "emplace", "emplace_back", "emplace_front")


def not_lambda(j):
    return True


def insert_one(c, F, r, j):
    front = "front" in lasts(j["q"]).lower()
    g = build(F, j, inline_near(W, O + "(anonymous", files=(j["f"],), no=("notify", "enqueue", "enqueueFront")), access=ACC)
    ins = [n for n in g.nodes if n.kind in ("ev", "iret") and qcall(n.ev, "push_back", "push_front", "insert", "emplace", "emplace_back", "emplace_front")]
    if not ins:
        return 0
    al = Alias(g)
    params = {p[0] if isinstance(p, (list, tuple)) else p for p in j["params"]}
    # plain call: every flag parameter has the value that asks for announcing
    env = {}
    for p in j["params"]:
        nm, ty = (p[0], p[1]) if isinstance(p, (list, tuple)) else (p, "")
        if ty in ("int", "unsigned int", "uint"):
            env[nm] = 0
        elif ty in ("bool", "_Bool"):
            env[nm] = 1
    # (nins, empty: None/True/False, frontcmp: None/'gt'/'le', back: None/'le'/'gt', iter: None/(var,pos,stop), counters, repoll, signal, head)
    zero = (0, None, None, None, None, (), False, False, None, None)
    bad = {}

    def note(k, n, msg):
        bad.setdefault(k, (n, msg))

    def step(a, n, facts):
        nins, emp, fc, bc, it, cn, rp, sg, head, ret = a
        t = n.ev
        if n.kind not in ("ev", "iret") or t is None:
            return [a]
        if t[0] == "decls":
            for d in t[1:]:
                i = strip_cast(d[3]) if d[3] else None
                while i is not None and i[0] == "ctor" and len(i[2]) == 1:
                    i = strip_cast(i[2][0])
                if i is not None and i[0] == "call" and last(i[1]) in ("begin", "end") and isq(i[2]):
                    it = (d[1], "begin" if last(i[1]) == "begin" else "adv", last(i[1]) == "end")
                    if last(i[1]) == "end":
                        it = (d[1], "end", None)
                elif i is not None and i[0] == "lit" and i[1] == 0:
                    cn = tuple(sorted(set(x for x in cn if x[0] != d[1]) | {(d[1], 0)}))
        elif t[0] == "asg" and t[2][0] == "v":
            i = strip_cast(t[3])
            cn = tuple(x for x in cn if x[0] != t[2][1])
            if i[0] == "lit" and i[1] == 0 and t[1] == "=":
                cn = tuple(sorted(set(cn) | {(t[2][1], 0)}))
        elif t[0] == "un" and t[1] in ("++", "p++") and t[2][0] == "v":
            if any(x[0] == t[2][1] for x in cn):
                cn = tuple(sorted((x[0], 1) if x[0] == t[2][1] else x for x in cn))
            elif it and it[0] == t[2][1]:
                it = adv(it, fc, n)
        elif t[0] == "call" and last(t[1]) == "operator++" and t[2] is not None and isiter(t[2]) is not None:
            if it and it[0] == isiter(t[2]):
                it = adv(it, fc, n)
        elif t[0] == "call" and last(t[1]) in ("operator=",) and t[2] is not None and isiter(t[2]) is not None and t[3]:
            i = al(t[3][0])
            if i is not None and i[0] == "call" and last(i[1]) in ("begin", "end") and isq(i[2]):
                it = (isiter(t[2]), "begin" if last(i[1]) == "begin" else "end", None)
            elif it and it[0] == isiter(t[2]):
                it = (it[0], "?", None)
        elif t[0] == "asg" and t[2][0] == "m" and t[2][2] == NR:
            v = ceval(t[3], env)
            if v is None:
                v = ceval(al.full(t[3]), env)
            rp = True if v or v is None else False
        elif t[0] == "call" and last(t[1]) in ("signal", "broadcast") and t[2] is not None and pp(t[2]).endswith("queue_cond"):
            sg = True
        elif qcall(t, "push_front", "emplace_front"):
            nins = min(nins + 1, 3)
            head = True
            if not (emp is True or fc == "gt" or (front and fc in ("ge", "gt"))):
                note("push_front", n, "a message is put at the head of the queue without having been found to be of higher priority than the present head")
            emp = False
        elif qcall(t, "push_back", "emplace_back"):
            nins = min(nins + 1, 3)
            head = bool(emp)
            if not (emp is True or (bc in ("le", "lt") and not front) or bc == "lt"):
                note("push_back", n, "a message is put at the end of the queue without having been found to be of no higher priority than the last one there")
            emp = False
        elif qcall(t, "insert", "emplace"):
            nins = min(nins + 1, 3)
            v = isiter(t[3][0]) if t[3] else None
            w = al(t[3][0]) if t[3] and v is None else None
            if v is not None and it and it[0] == v:
                if it[1] == "?":
                    head = None
                else:
                    head = (it[1] == "begin")
                    if it[1] == "end":
                        if not (emp is True or (bc in ("le", "lt") and not front) or bc == "lt"):
                            note("insert", n, "a message is put at the end of the queue without having been found to be of no higher priority than the last one there")
                        head = bool(emp)
                    elif it[2] is not True and not (it[1] == "begin" and (emp is True or fc == "gt" or (front and fc == "ge"))):
                        note("insert", n, "a message is inserted before an entry that was not found to be of lower priority")
            elif w is not None and w[0] == "call" and last(w[1]) == "begin" and isq(w[2]):
                head = True
                if not (emp is True or fc == "gt" or (front and fc in ("ge", "gt"))):
                    note("insert", n, "a message is put at the head of the queue without having been found to be of higher priority than the present head")
            elif w is not None and w[0] == "call" and last(w[1]) == "end" and isq(w[2]):
                head = bool(emp)
                if not (emp is True or (bc in ("le", "lt") and not front) or bc == "lt"):
                    note("insert", n, "a message is put at the end of the queue without having been found to be of no higher priority than the last one there")
            else:
                head = None
            emp = False
        elif t[0] == "ret" and n.func == j["q"] and not n.ctx:
            ret = ceval(t[1], env) if t[1] is not None else None
        return [(nins, emp, fc, bc, it, cn, rp, sg, head, ret)]

    def adv(it, fc, n):
        # moving past an entry: it must have been found to precede the new message
        if it[1] in ("begin", "adv") and it[2] is not False:
            note("advance", n, "the search for a message's place moves past an entry that was not found to be of %s priority" % ("higher" if front else "the same or higher"))
        return (it[0], "adv" if it[1] in ("begin", "adv") else "?", None)

    def on(a, expr, truth, n):
        nins, emp, fc, bc, it, cn, rp, sg, head, ret = a
        e, s = leaf(expr)
        tr = truth == s
        v = ceval(e, env)
        if v is None:
            v = ceval(al.full(e), env)
        if v is not None:
            return a if bool(v) == tr else None
        # counters
        for var, val in cn:
            z = None
            if e[0] == "v" and e[1] == var:
                z = val > 0
            elif e[0] == "bin" and strip_cast(e[2]) == ("v",) + tuple(strip_cast(e[2])[1:]) and strip_cast(e[2])[1] == var and strip_cast(e[3])[0] == "lit" and strip_cast(e[3])[1] == 0:
                z = {"==": val == 0, "!=": val > 0, ">": val > 0, "<=": val == 0, "<": False, ">=": True}.get(e[1])
            if z is not None:
                return a if z == tr else None
        k = qempty(e)
        if k:
            if k == -2:
                if tr:
                    if emp is True:
                        return None
                    emp = False
            else:
                val = (k == 1) == tr
                if emp is not None and emp != val and nins == 0:
                    return None
                emp = val
            return (nins, emp, fc, bc, it, cn, rp, sg, head, ret)
        be = begin_end(e, al)
        if be and it and be[1] == it[0]:
            eq = (be[2] == "==") == tr
            if be[0] == "end":
                if eq:
                    if it[1] == "begin" and emp is False:
                        return None
                    if it[1] == "begin":
                        emp = True
                    it = (it[0], it[1], True)
                else:
                    if it[1] == "begin":
                        if emp is True:
                            return None
                        emp = False
            else:
                if it[1] == "begin" and not eq:
                    return None
                if it[1] == "adv" and eq:
                    return None
            return (nins, emp, fc, bc, it, cn, rp, sg, head, ret)
        cp = cmp_prio(e, al)
        if cp:
            other, op = cp
            if not tr:
                op = NEG[op]
            if other == ("front",):
                new = {">": "gt", ">=": "ge", "<": "lt", "<=": "le", "==": "eq"}.get(op)
                if contra(fc, new):
                    return None
                fc = new
            elif other == ("back",):
                bc = {">": "gt", ">=": "ge", "<": "lt", "<=": "le", "==": "eq"}.get(op)
                if bc == "eq":
                    bc = "le"
            elif it and other == ("iter", it[0]):
                if it[1] == "begin" and contra(fc, {">": "gt", ">=": "ge", "<": "lt", "<=": "le", "==": "eq"}.get(op)):
                    return None
                # it[2]: True = the entry follows the new message, False = it precedes it
                if op == ">" or (front and op in (">=", "==")):
                    it = (it[0], it[1], True)
                elif op == "<" or (not front and op in ("<=", "==")):
                    it = (it[0], it[1], False)
            return (nins, emp, fc, bc, it, cn, rp, sg, head, ret)
        return a
    res = run(g, zero, step, cap=4, only=lambda f: False, branch=brancher(on, al))
    ends = set()
    for (nid, a), fss in res.seen.items():
        n = g.nodes[nid]
        if n.kind != "exit":
            continue
        ends.add(a)
        nins, emp, fc, bc, it, cn, rp, sg, head, ret = a
        key = None
        if nins != 1:
            key = ("count %d" % nins, "returns after putting the message into the queue %s" % ("%d times" % nins if nins else "nowhere: it is lost"))
        elif head and not rp:
            key = ("head silent", "a message becomes the head of the queue without the process being marked for polling")
        elif head and not sg:
            key = ("head unsignalled", "a message becomes the head of the queue without a waiting thread being signalled")
        elif head and ret is not None and ret < 0 and j["ret"] == "int":
            key = ("head result", "a message becomes the head of the queue but the caller is told that no poll is needed")
        if key:
            c.bad(r, j["q"], key[0], n.file, n.line, key[1], trace(g, res, nid, a, next(iter(fss))))
    for k, (n, msg) in bad.items():
        c.bad(r, j["q"], k, n.file, n.line, msg)
    for n in ins:
        c.site(r, "%s:%d" % (n.file, n.line), "%s in %s" % (last(n.ev[1]), j["q"]))
    c.site(r, "%s:%d" % (j["f"], j["l"]), "%s: %d kinds of path" % (j["q"], len(ends)))
    return 1


def contra(a, b):
    """two comparisons (of the same pair) that cannot both hold"""
    ok = {"gt": {"gt", "ge"}, "ge": {"gt", "ge", "le", "eq"}, "lt": {"lt", "le"}, "le": {"lt", "le", "ge", "eq"}, "eq": {"eq", "ge", "le"}}
    return a is not None and b is not None and b not in ok[a]


# ---------------------------------------------------------------------------------------------------
ALL = frozenset(("ACCEPT", "HOLD", "REQUEUE", "CANCEL", "other"))


def rescode(t):
    t = strip_cast(t) if t else None
    if t is not None and t[0] == "enum" and last(t[1]) in ALL:
        return last(t[1])
    return None


def disposal(c, F, LA):
    r = c.rule("P08-dispose", "delivering the head of a queue hands it to exactly one handler, without holding the queue lock; an accepted message is removed and not put back, a held one stays (or returns) at the head, a requeued one is put back by priority once; a changed head forces a repoll")
    for nm in ("deliver", "do_poll"):
        for j in F.funcs.get(W + nm, ()):
            dispose_one(c, F, LA, r, j)
    c.expect(r, 8)


def is_handler(t):
    return t[0] in ("call", "enter") and t[1] in HANDLERS


def dispose_one(c, F, LA, r, j):
    no = tuple(last(h) for h in HANDLERS) + ("poll", "enqueue", "enqueueFront", "addWaiter", "removeWaiter", "log", "lprintf", "sdebug")
    g = build(F, j, inline_near(W, files=(j["f"],), no=no), access=ACC)
    gl, held = LA.analyse(j)
    for n in gl.nodes:
        if n.id in held and n.kind in ("ev", "iret") and n.ev and n.ev[0] == "call" and n.ev[1] in HANDLERS:
            c.site(r, "%s:%d" % (n.file, n.line), "%s called from %s" % (last(n.ev[1]), j["q"]))
            if QC in held[n.id]:
                c.bad(r, j["q"], "handler locked " + last(n.ev[1]), n.file, n.line, "%s is called while the queue is locked" % last(n.ev[1]))
    lp = [p[0] for p in j["params"] if isinstance(p, (list, tuple)) and "Mutex::Lock" in str(p[1])]
    if lp:
        # the caller's lock is passed in: it is released before any handler runs
        bad = {}

        def lstep(a, n, facts):
            t = n.ev
            if n.kind in ("ev", "iret") and t is not None and t[0] == "call":
                if t[1] in HANDLERS and a:
                    bad[n.id] = n
                d = deref(t[2]) if t[2] is not None else None
                if d is not None and d[0] == "v" and d[1] in lp:
                    if last(t[1]) in ("release", "unlock"):
                        return [False]
                    if last(t[1]) in ("relock", "lock", "trylock"):
                        return [True]
            return [a]
        run(gl, True, lstep, cap=2, only=lambda f: False)
        for n in bad.values():
            c.bad(r, j["q"], "handler locked " + last(n.ev[1]), n.file, n.line, "%s is called while the queue is still locked by the caller" % last(n.ev[1]))
    al = Alias(g)
    # locals holding a handler's result
    rvars = set()
    for n in g.nodes:
        t = n.ev
        if n.kind in ("ev", "iret") and t:
            if t[0] == "asg" and t[2][0] == "v" and any(x[0] == "call" and x[1] in HANDLERS for x in walk(t[3])):
                rvars.add(t[2][1])
            elif t[0] == "decls":
                rvars |= {d[1] for d in t[1:] if d[3] and any(x[0] == "call" and x[1] in HANDLERS for x in walk(d[3]))}
    # auto: (handlers, removed, searched, enq, enqF, dom, emp, rp, same, rl)
    init = (0, 0, False, 0, 0, ALL, None, False, False, False)

    def step(a, n, facts):
        h, rem, sea, enq, enf, dom, emp, rp, same, rl = a
        t = n.ev
        if n.kind not in ("ev", "iret") or t is None:
            return [a]
        if t[0] == "call" and t[1] in HANDLERS:
            h = min(h + 1, 2)
            emp, rp, same = None, False, False
        if t[0] == "asg" and t[2][0] == "v" and t[2][1] in rvars:
            k = rescode(t[3])
            dom = frozenset((k,)) if k else ALL
        elif t[0] == "decls":
            for d in t[1:]:
                if d[1] in rvars:
                    k = rescode(d[3]) if d[3] else None
                    dom = frozenset((k,)) if k else ALL
        elif t[0] == "asg" and t[2][0] == "m" and last(t[2][2]) == "receive_lock":
            rl = bool(ceval(t[3], {}))
        elif t[0] == "asg" and t[2][0] == "m" and t[2][2] == NR:
            v = ceval(al.full(t[3]), {})
            rp = True if v is None or v else False
            if any(x[0] == "call" and x[1] == W + "poll" for x in walk(t[3])):
                rp = False
        elif qcall(t, "pop_front", "erase", "pop_back"):
            rem = min(rem + 1, 2)
            emp = None
        elif t[0] == "call" and t[1] == W + "enqueue":
            enq = min(enq + 1, 2)
            emp = None
        elif t[0] == "call" and t[1] == W + "enqueueFront":
            enf = min(enf + 1, 2)
            emp = None
        elif t[0] == "call" and LS.is_lockop(t[1]) and last(t[1]) in ("relock", "lock", "release", "unlock"):
            emp = None
        return [(h, rem, sea, enq, enf, dom, emp, rp, same, rl)]

    def on(a, expr, truth, n):
        h, rem, sea, enq, enf, dom, emp, rp, same, rl = a
        e, s = leaf(expr)
        tr = truth == s
        if e[0] == "bin" and e[1] in ("==", "!="):
            for x, y in ((e[2], e[3]), (e[3], e[2])):
                v = strip_cast(x)
                k = rescode(y)
                if k and v is not None and v[0] == "v" and v[1] in rvars:
                    dom = dom & {k} if (e[1] == "==") == tr else dom - {k}
                    if not dom:
                        return None
                    return (h, rem, sea, enq, enf, dom, emp, rp, same, rl)
        k = qempty(e)
        if k:
            if k == -2:
                emp = False if tr else emp
            else:
                v = (k == 1) == tr
                if emp is not None and emp != v:
                    return None
                emp = v
            return (h, rem, sea, enq, enf, dom, emp, rp, same, rl)
        be = begin_end(e, al)
        if be and be[0] == "end" and (be[2] == "==") == tr:
            sea = True
        elif any(x[0] == "call" and last(x[1]) in ("front", "begin") and x[2] is not None and isq(x[2]) for x in walk(al.full(e))) and not be:
            op = e[1] if e[0] == "bin" else ("==" if last(e[1]) == "operator==" else "!=") if e[0] == "call" and last(e[1]) in ("operator==", "operator!=") else None
            if op:
                same = (op == "==") == tr
        return (h, rem, sea, enq, enf, dom, emp, rp, same, rl)
    def merge(alts, a):
        if len({x[:5] + x[6:] for x in alts}) == 1:
            x = alts[0]
            return x[:5] + (frozenset().union(*[y[5] for y in alts]),) + x[6:]
        return a
    res = run(g, init, step, cap=4, only=lambda f: False, branch=brancher(on, al, merge))
    kinds = set()
    for (nid, a), fss in res.seen.items():
        n = g.nodes[nid]
        if n.kind != "exit":
            continue
        h, rem, sea, enq, enf, dom, emp, rp, same, rl = a
        kinds.add((h, rem, sea, enq, enf, dom))
        key = None
        removed = rem or sea
        if h > 1:
            key = ("twice", "one message is handed to more than one handler")
        elif rl:
            key = ("receive lock", "returns with delivery still locked: no further message is ever received")
        elif h == 0 and not rem and not enq and not enf:
            pass
        elif rem > 1:
            key = ("removed twice", "one delivery removes more than one message from the queue")
        elif "ACCEPT" in dom and not removed:
            key = ("accepted kept", "an accepted message stays in the queue and is delivered again")
        elif "ACCEPT" in dom and (enq or enf):
            key = ("accepted requeued", "an accepted message is put back into the queue")
        elif "REQUEUE" in dom and not removed:
            key = ("requeued kept", "a message to be requeued is not taken from its place in the queue")
        elif "REQUEUE" in dom and enq + enf != 1:
            key = ("requeued lost" if enq + enf == 0 else "requeued twice", "a message to be requeued is put back %d times" % (enq + enf))
        elif "REQUEUE" in dom and enf:
            key = ("requeued in front", "a message to be requeued is put back as if it were to be held")
        elif "HOLD" in dom and rem and (enf != 1 or enq):
            key = ("held lost", "a held message has been taken from the queue and is not put back at its head")
        elif "HOLD" in dom and not rem and (sea or enq or enf):
            key = ("held requeued", "a held message is put into the queue once more")
        elif removed and h and emp is not True and not rp and not same:
            key = ("no repoll", "leaves messages in the queue, with a new head, without asking for another poll")
        if key:
            c.bad(r, j["q"], key[0], n.file, n.line, key[1], trace(g, res, nid, a, next(iter(fss))))
    for k in sorted(kinds, key=str):
        c.site(r, "%s:%d" % (j["f"], j["l"]), "%s: handlers %d, removed %d%s, enqueue %d, enqueueFront %d, result %s" % (last(j["q"]), k[0], k[1], "/searched" if k[2] else "", k[3], k[4], "|".join(sorted(k[5]))))


# ---------------------------------------------------------------------------------------------------

def nonempty(c, F, LA):
    r = c.rule("P08-head", "the first or last message of a queue is only looked at or removed where the queue is known, under its lock, not to be empty")
    for q in sorted(F.funcs):
        for j in F.funcs[q]:
            f = fn(j)
            if not any(t[0] == "call" and last(t[1]) in ("front", "back", "pop_front", "pop_back") for uid, line, tr, t in f.tree()):
                continue
            g = build(F, j, lambda cj, t: False, access=ACC)
            ns = [n for n in g.nodes if n.kind in ("ev", "iret") and qcall(n.ev, "front", "back", "pop_front", "pop_back")]
            if not ns:
                continue
            bad = {}
            al = Alias(g)

            def step(a, n, facts):
                t = n.ev
                if n.kind not in ("ev", "iret") or t is None:
                    return [a]
                if qcall(t, "front", "back", "pop_front", "pop_back"):
                    if a is not True:
                        bad.setdefault(n.id, n)
                    if last(t[1]).startswith("pop"):
                        return ["?"]
                elif qcall(t, "erase", "clear", "swap", "splice"):
                    return ["?"]
                elif qcall(t, *INSERT):
                    return [True]
                elif t[0] == "call" and (LS.is_lockop(t[1]) or t[1] in HANDLERS or last(t[1]) in ("wait", "dequeue", "deliver", "do_poll")):
                    return ["?"]
                return [a]

            def on(a, expr, truth, n):
                e, s = leaf(expr)
                if e[0] == "bin" and e[1] in ("<", ">", "!="):
                    x = al(e[3] if e[1] != ">" else e[2])
                    if x is not None and x[0] == "call" and last(x[1]) == "size" and isq(x[2]) and truth == s:
                        return True       # a counted loop over the queue's length
                k = qempty(al.full(e))
                tr = truth == s
                if k == -2:
                    return True if tr else a
                if k:
                    v = (k == 1) == tr      # known empty
                    if a != "?" and a == v:
                        return None
                    return not v
                return a
            run(g, "?", step, cap=2, only=lambda f: False, branch=brancher(on, al))
            for n in ns:
                c.site(r, "%s:%d" % (n.file, n.line), "%s in %s" % (pp(n.ev)[:60], q))
            for n in bad.values():
                c.bad(r, q, "unguarded " + last(n.ev[1]), n.file, n.line, "%s on a queue that may be empty" % last(n.ev[1]))
    c.expect(r, 5)


# ---------------------------------------------------------------------------------------------------

def removals(c, F):
    r = c.rule("P08-remove", "taking messages out of a queue by name or position stays inside the queue, and forces a repoll with a signal whenever the head may have changed")
    for q in sorted(F.funcs):
        if q in (W + "deliver", W + "do_poll"):
            continue
        for j in F.funcs[q]:
            if not any(t[0] == "call" and last(t[1]) in ("erase", "begin") for uid, line, tr, t in fn(j).tree()):
                continue
            g = build(F, j, inline_near(W, no=("notify", "sdebug")) if q.startswith(W) else (lambda cj, t: False), access=ACC)
            er = [n for n in g.nodes if n.kind in ("ev", "iret") and qcall(n.ev, "erase", "pop_front", "pop_back", "clear")]
            it = [n for n in g.nodes if n.kind in ("ev", "iret") and qcall(n.ev, "begin")]
            if not it or not q.startswith(W) or any(n.kind in ("ev", "iret") and qcall(n.ev, *INSERT) for n in g.nodes):
                continue
            remove_one(c, F, r, j, g, er)
    c.expect(r, 3)


def remove_one(c, F, r, j, g, er):
    al = Alias(g)
    pars = {(p[0] if isinstance(p, (list, tuple)) else p) for p in j["params"]}
    bad = {}
    # (removed, repoll, signal, skip, lo, hi, safe)
    init = (False, False, False, False, False, False, False)

    def step(a, n, facts):
        rem, rp, sg, skip, lo, hi, safe = a
        t = n.ev
        if n.kind not in ("ev", "iret") or t is None:
            return [a]
        if qcall(t, "erase", "pop_front", "pop_back", "clear"):
            rem = True
        elif t[0] == "asg" and t[2][0] == "m" and t[2][2] == NR:
            v = ceval(al.full(t[3]), {})
            rp = True if v is None or v else False
        elif t[0] == "call" and last(t[1]) in ("signal", "broadcast") and t[2] is not None and pp(t[2]).endswith("queue_cond"):
            sg = True
        elif t[0] == "call" and last(t[1]) in ("operator++",) and t[2] is not None and isiter(t[2]) is not None:
            i = al.all.get(isiter(t[2]))
            i = strip_cast(i) if i else None
            while i is not None and i[0] == "ctor" and len(i[2]) == 1:
                i = strip_cast(i[2][0])
            if i is not None and i[0] == "call" and last(i[1]) == "begin" and isq(i[2]):
                if not safe and not (lo and hi):
                    bad["walk"] = n
                safe = False
        return [(rem, rp, sg, skip, lo, hi, safe)]

    def on(a, expr, truth, n):
        rem, rp, sg, skip, lo, hi, safe = a
        e, s = leaf(expr)
        tr = truth == s
        be = begin_end(e, al)
        if be and be[0] == "end":
            if (be[2] == "==") == tr:
                safe = False
            else:
                safe = True
            return (rem, rp, sg, skip, lo, hi, safe)
        ef = al.full(e)
        if e[0] == "bin" and e[1] in FLIP:
            x, y, op = strip_cast(e[2]), strip_cast(e[3]), e[1]
            raw = e[2]
            if any(z[0] == "call" and last(z[1]) == "size" for z in walk(al.full(x))):
                x, y, op, raw = y, x, FLIP[op], e[3]
            if not tr:
                op = NEG[op]
            if x[0] == "v" and x[1] in pars:
                if any(z[0] == "call" and last(z[1]) == "size" and isq(z[2]) for z in walk(al.full(y))) and op in ("<",):
                    hi = True
                    if raw[0] == "cast" or any(z[0] == "cast" and "unsigned" in str(z[1:3]) for z in walk(raw)):
                        lo = True
                if y[0] == "lit" and (op, y[1]) in ((">=", 0), (">", -1), (">", 0)):
                    lo = True
        if not tr and (any(z[0] == "call" and last(z[1]) in ("size", "begin") for z in walk(ef)) or
                       any(z[0] == "v" for z in walk(e))):
            skip = True
        if tr and any(z[0] == "v" and z[1] in pars for z in walk(e)):
            skip = True
        k = qempty(e)
        if k in (1, -1) and ((k == 1) == tr):
            skip = True
        return (rem, rp, sg, skip, lo, hi, safe)
    res = run(g, init, step, cap=2, only=lambda f: False, branch=brancher(on, al))
    n_an = 0
    for (nid, a), fss in res.seen.items():
        n = g.nodes[nid]
        if n.kind != "exit":
            continue
        n_an += 1
        rem, rp, sg, skip, lo, hi, safe = a
        if rem and not skip and not (rp and sg):
            c.bad(r, j["q"], "silent", n.file, n.line, "a message is taken out of the queue without %s" % ("a waiting thread being signalled" if rp else "forcing a repoll"), trace(g, res, nid, a, next(iter(fss))))
    # some path must announce a changed head
    if er and not any(a[0] and a[1] and a[2] for (nid, a) in res.seen if g.nodes[nid].kind == "exit"):
        n = er[0]
        c.bad(r, j["q"], "never announced", n.file, n.line, "messages are taken out of the queue and a changed head is never announced (repoll flag and signal)")
    for k, n in bad.items():
        c.bad(r, j["q"], k, n.file, n.line, "steps through the queue to a requested position that was not checked against its length")
    c.site(r, "%s:%d" % (j["f"], j["l"]), "%s: %d removal sites, %d kinds of path" % (j["q"], len(er), n_an))


# ---------------------------------------------------------------------------------------------------

def wakeups(c, F, LA):
    r = c.rule("P08-wake", "a message at the head of an unthreaded process's queue raises the dispatcher's repoll flag and, from another thread, wakes the dispatcher under its lock; a thread only goes to sleep after testing, under the lock, that there is nothing to do; stopping wakes every sleeper")
    REP, STOP = D + "repoll", D + "stop_polling"
    RC = D + "repoll_cond"
    for j in F.funcs.get(D + "enqueue", ()):
        g, held = LA.analyse(j)
        al = Alias(g)
        # (res, threaded, main, repoll, signalled)
        def step(a, n, facts):
            rs, th, mn, rp, sg = a
            t = n.ev
            if n.kind not in ("ev", "iret") or t is None:
                return [a]
            if t[0] == "asg" and t[2][0] in ("m", "g") and t[2][2 if t[2][0] == "m" else 1] == REP:
                v = ceval(al.full(t[3]), {})
                rp = True if v is None or v else False
            elif t[0] == "call" and last(t[1]) in ("signal", "broadcast") and t[2] is not None and pp(t[2]).endswith("repoll_cond"):
                if RC not in held.get(n.id, ()):
                    c.bad(r, j["q"], "signal unlocked", n.file, n.line, "the dispatcher is signalled without holding its lock: the wake-up can be lost")
                sg = sg or rp
            return [(rs, th, mn, rp, sg)]

        def on(a, expr, truth, n):
            rs, th, mn, rp, sg = a
            e, s = leaf(expr)
            tr = truth == s
            f = strip_cast(al.full(e))
            while f[0] == "un" and f[1] == "!":
                f = strip_cast(f[2])
                tr = not tr
            txt = pp(f)
            if "main_thread" in txt:
                op = f[1] if f[0] == "bin" else "==" if last(f[1]) == "operator==" else "!="
                mn = (op == "==") == tr
            elif f[0] == "call" and last(f[1]) == "isThreaded" or f[0] == "m" and "hread" in last(f[2]) or (f[0] == "bin" and "hread" in txt and "enqueue" not in txt):
                th = tr if f[0] != "bin" or f[1] in (">", "!=") else not tr
            elif any(x[0] == "call" and last(x[1]) == "enqueue" for x in walk(f)):
                if f[0] == "bin" and f[1] in FLIP:
                    pos = (f[1] == ">=" or (f[1] == ">" and strip_cast(f[3])[0] != "lit") or f[1] == "!=")
                    rs = tr if pos or f[1] == ">" else not tr
                else:
                    rs = tr
            return (rs, th, mn, rp, sg)
        res = run(g, (None, None, None, False, False), step, cap=2, only=lambda f: False, branch=brancher(on, al))
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind != "exit":
                continue
            rs, th, mn, rp, sg = a
            c.site(r, "%s:%d" % (j["f"], j["l"]), "needs poll %s, threaded %s, main thread %s: repoll %s, signal %s" % a)
            if rs is False or th is True:
                continue
            if not rp:
                c.bad(r, j["q"], "no repoll", n.file, n.line, "a message that needs polling is queued without raising the dispatcher's repoll flag", trace(g, res, nid, a, next(iter(fss))))
            elif mn is not True and not sg:
                c.bad(r, j["q"], "no signal", n.file, n.line, "a message is queued from another thread without waking the dispatcher", trace(g, res, nid, a, next(iter(fss))))
    # ---- the test before sleeping is made under the lock
    for q in sorted(F.funcs):
        if not q.startswith((O, "OctoPython::")) or q.startswith(("OctoPython::TC_", O + "Octoproxy::Identity::")):
            continue
        for j in F.funcs[q]:
            if not any(t[0] == "call" and t[1] == LS.COND + "::wait" for uid, line, tr, t in fn(j).tree()):
                continue
            g, held = LA.analyse(j)
            bad = {}

            def step(a, n, facts):
                t = n.ev
                if n.kind in ("branch", "switch"):
                    # (locks under which something was tested)
                    return [frozenset(a | {m for m in held.get(n.id, ())})] if not (t and t[0] == "lit") else [a]
                if n.kind not in ("ev", "iret") or t is None:
                    return [a]
                if t[0] == "call" and t[1] == LS.COND + "::wait":
                    m = LA.mid(t[2])
                    if m not in a and m in held.get(n.id, ()):
                        bad[n.id] = (n, m)
                    return [frozenset()]
                now = held.get(n.id)
                if now is not None:
                    return [frozenset(x for x in a if x in now)]
                return [a]
            run(g, frozenset(), step, cap=2, only=lambda f: False)
            for n in g.nodes:
                if n.id in held and n.ev and n.ev[0] == "call" and n.ev[1] == LS.COND + "::wait":
                    c.site(r, "%s:%d" % (n.file, n.line), "wait in %s" % q)
            for n, m in bad.values():
                c.bad(r, q, "sleeps untested", n.file, n.line, "waits on %s without having tested, since it locked it, whether there is anything to wait for: a wake-up can be lost" % last(m))
    # ---- stopping
    for q in sorted(F.funcs):
        if not q.startswith(D) or q == D + "signalHandler":
            continue
        for j in F.funcs[q]:
            if not any(t[0] == "asg" and any(x[0] in ("m", "g") and STOP in x for x in walk(t[2])) for uid, line, tr, t in fn(j).tree()):
                continue
            g, held = LA.analyse(j)

            def step(a, n, facts):
                t = n.ev
                if n.kind not in ("ev", "iret") or t is None:
                    return [a]
                if t[0] == "asg" and STOP in t[2]:
                    return ["owed" if ceval(t[3], {}) else a]
                if t[0] == "call" and last(t[1]) in ("broadcast", "signal", "stopPolling") and (t[2] is None or "repoll_cond" in pp(t[2]) or last(t[1]) == "stopPolling"):
                    return ["done" if RC in held.get(n.id, ()) or last(t[1]) == "stopPolling" else a]
                return [a]

            def on(a, expr, truth, n):
                e, s = leaf(expr)
                if "main_thread" in pp(e) and a == "owed":
                    op = e[1] if e[0] == "bin" else "==" if last(e[1]) == "operator==" else "!="
                    if (op == "==") == (truth == s):
                        return "done"
                return a
            res = run(g, "", step, cap=2, only=lambda f: False, branch=brancher(on, al))
            for (nid, a), fss in res.seen.items():
                n = g.nodes[nid]
                if n.kind == "exit" and a:
                    c.site(r, "%s:%d" % (j["f"], j["l"]), "%s: stop request %s" % (q, a))
                    if a == "owed":
                        c.bad(r, q, "stop silent", n.file, n.line, "polling is told to stop without waking the dispatcher under its lock", trace(g, res, nid, a, next(iter(fss))))
    for nm in (W + "do_stop",):
        for j in F.funcs.get(nm, ()):
            g, held = LA.analyse(j)
            inl = build(F, j, inline_near(W, no=("stop", "log", "publish", "notify")), access=ACC)
            woke = [n for n in inl.nodes if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "call" and last(n.ev[1]) == "broadcast" and n.ev[2] is not None and pp(n.ev[2]).endswith("queue_cond")]
            c.site(r, "%s:%d" % (j["f"], j["l"]), "do_stop: %d broadcasts" % len(woke))

            def step(a, n, facts):
                t = n.ev
                if n.kind not in ("ev", "iret") or t is None:
                    return [a]
                if t[0] == "asg" and t[2][0] == "m" and t[2][2] == W + "running" and not ceval(t[3], {}):
                    return [("off", False)]
                if t[0] == "call" and last(t[1]) == "broadcast" and t[2] is not None and pp(t[2]).endswith("queue_cond"):
                    return [(a[0], True)]
                if t[0] == "call" and last(t[1]) in ("wakeWorker", "repollWorker"):
                    return [(a[0], True)]
                return [a]
            res = run(g, (None, False), step, cap=2, only=lambda f: False)
            for (nid, a), fss in res.seen.items():
                n = g.nodes[nid]
                if n.kind == "exit" and (a[0] != "off" or not a[1]):
                    c.bad(r, j["q"], "stop silent", n.file, n.line, "a process is stopped without waking the threads that wait for its messages")
            for n in g.nodes:
                if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "call" and last(n.ev[1]) == "broadcast" and n.ev[2] is not None and pp(n.ev[2]).endswith("queue_cond") and n.id in held and QC not in held[n.id] and n.func == j["q"]:
                    c.bad(r, j["q"], "broadcast unlocked", n.file, n.line, "waiting receivers are woken without the queue lock: one that is about to wait misses it")
    c.expect(r, 8)


# ---------------------------------------------------------------------------------------------------

def polling(c, F):
    r = c.rule("P08-poll", "the dispatcher's loop clears the repoll flag before it looks at the processes, and raises it again when more than one process needs polling or the polled one asks for another poll")
    REP = D + "repoll"

    def isrep(t):
        return t is not None and t[0] in ("m", "g") and t[2 if t[0] == "m" else 1] == REP
    for j in F.funcs.get(D + "poll", ()):
        g = build(F, j, inline_near(D, no=("detach", "checkEvents")), access=ACC)
        al = Alias(g)
        bad = {}
        polled = {d[1] for n in g.nodes if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "decls" for d in n.ev[1:] if d[3] and any(x[0] == "call" and last(x[1]) == "do_poll" for x in walk(d[3]))}
        # (scanned, owed)
        def step(a, n, facts):
            sc, owed = a
            t = n.ev
            if n.kind not in ("ev", "iret") or t is None:
                if n.kind == "branch" and t is not None and any(isrep(x) for x in walk(t)) and not any(x[0] == "call" for x in walk(t)):
                    pass
                return [a]
            if t[0] == "call" and last(t[1]) == "getPollPriority":
                sc = True
            elif t[0] in ("call", "enter") and last(t[1]) == "do_poll":
                owed = owed | {"poll"}
            elif t[0] == "asg" and isrep(t[2]):
                v = ceval(t[3], {})
                if v == 0 and t[1] == "=":
                    if sc:
                        bad["cleared late"] = (n, "the repoll flag is cleared after the processes were looked at: a request raised meanwhile is lost")
                    if owed:
                        bad["request dropped"] = (n, "a process that asked for another poll is forgotten: the repoll flag is not raised")
                        owed = frozenset()
                elif v:
                    owed = frozenset()
                else:
                    owed = frozenset()
            return [(sc, owed)]

        def on(a, expr, truth, n):
            sc, owed = a
            e, s = leaf(expr)
            tr = truth == s
            if any(isrep(x) for x in walk(e)):
                return (False, owed)
            ef = al.full(e)
            if any(x[0] == "call" and last(x[1]) == "do_poll" for x in walk(ef)) or (e[0] == "v" and e[1] in polled):
                return (sc, owed if tr else owed - {"poll"})
            if e[0] == "bin" and e[1] in FLIP and strip_cast(e[2])[0] == "v" and "repoll" in strip_cast(e[2])[1] and strip_cast(e[3])[0] == "lit":
                op = e[1] if tr else NEG[e[1]]
                if (op, strip_cast(e[3])[1]) in ((">", 1), (">=", 2)):
                    return (sc, owed | {"more"})
            return a

        def edge(a, *lab):
            return (a[0], a[1] - {"poll"})
        res = run(g, (False, frozenset()), step, cap=2, only=lambda f: False, branch=brancher(on, al), edge=edge)
        for (nid, a) in res.seen:
            n = g.nodes[nid]
            if n.kind == "exit" and a[1]:
                bad["request dropped"] = (n, "a process that asked for another poll is forgotten: the repoll flag is not raised")
        nclear = 0
        for n in g.nodes:
            if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "asg" and isrep(n.ev[2]):
                nclear += 1
                c.site(r, "%s:%d" % (n.file, n.line), pp(n.ev))
        more = any(n.kind == "branch" and n.ev and "repoll" in pp(n.ev) and ">" in pp(n.ev) for n in g.nodes)
        for k, (n, msg) in bad.items():
            c.bad(r, j["q"], k, n.file, n.line, msg)
        if nclear and not any(n.kind in ("ev", "iret") and n.ev and n.ev[0] == "asg" and isrep(n.ev[2]) and ceval(n.ev[3], {}) == 0 for n in g.nodes):
            c.notes.append("Dispatcher::poll never clears the repoll flag")
    c.expect(r, 3)


# ---------------------------------------------------------------------------------------------------

def table(c, F):
    r = c.rule("P08-table", "attaching a process gives it an address and puts it into exactly one place; detaching removes it, its timeouts, inputs and signals, and its gateway entry, and stops it (now or at the next poll)")
    for j in F.funcs.get(D + "attach", ()):
        g = build(F, j, inline_near(D, no=("attach",)), access=ACC)
        if not any(n.kind in ("ev", "iret") and n.ev and n.ev[0] == "call" and last(n.ev[1]) == "setAddress" for n in g.nodes):
            continue
        m = {"addr": lambda ev, f, n: 1 if is_call(ev, "setAddress") else 0,
             "reg": lambda ev, f, n: 1 if (is_call(ev, "push", obj=D + "attached_wps") or is_call(ev, "operator=") and ev[2] is not None and any(x[0] == "m" and x[2] == D + "wps" for x in walk(ev[2])) or is_call(ev, "insert", "emplace", obj=D + "wps")) else 0,
             "init": lambda ev, f, n: 1 if n.kind != "branch" and is_call(ev, "do_init") else 0,
             "start": lambda ev, f, n: 1 if n.kind != "branch" and is_call(ev, "do_start") else 0}
        outs, res = outcomes(g, m, cap=4, only=lambda f: False)
        for o in outs:
            if o.kind != "exit":
                continue
            c.site(r, "%s:%d" % (o.node.file, o.node.line), "attach: %s" % o.counts)
            if o.counts["reg"] != 1:
                report_path(c, r, g, res, o, j["q"], "registered %d" % o.counts["reg"], "a process is attached but registered %d times" % o.counts["reg"])
            if o.counts["addr"] < 1:
                report_path(c, r, g, res, o, j["q"], "no address", "a process is attached without being given an address")
            if o.counts["init"] != o.counts["start"]:
                report_path(c, r, g, res, o, j["q"], "half started", "a process is attached and %s" % ("initialised but not started" if o.counts["init"] else "started but not initialised"))
    for j in F.funcs.get(D + "detach", ()):
        g = build(F, j, inline_near(D, no=("detach", "rebuildInputs", "rebuildSignals")), access=ACC)
        if not any(n.kind in ("ev", "iret") and n.ev and is_call(n.ev, "erase", obj=D + "wps") for n in g.nodes):
            continue
        al = Alias(g)

        def purge(nm):
            return lambda ev, f, n: 1 if is_call(ev, D + nm) and ev[3] and strip_cast(ev[3][0])[0] not in ("lit", "null") else 0
        m = {"inputs": purge("rebuildInputs"), "signals": purge("rebuildSignals"),
             "tolist": lambda ev, f, n: 1 if is_call(ev, "begin", "remove_if", "clear", obj=D + "timeouts") or is_call(ev, "removeTimeout") else 0,
             "stop": lambda ev, f, n: 1 if is_call(ev, "do_stop") else 0,
             "unhook": lambda ev, f, n: 1 if is_call(ev, "detach") and ev[1].startswith(W) else 0,
             "delay": lambda ev, f, n: 1 if is_call(ev, "push", obj=D + "detached_wps") else 0,
             "wps": lambda ev, f, n: 1 if is_call(ev, "erase", obj=D + "wps") else 0,
             "gw": lambda ev, f, n: 1 if is_call(ev, "find", "erase", obj=D + "gateways") else 0,
             "gwe": lambda ev, f, n: 1 if is_call(ev, "erase", obj=D + "gateways") else 0}
        outs, res = outcomes(g, m, cap=4, only=lambda f: False)
        gwe = False
        for o in outs:
            if o.kind != "exit":
                continue
            k = o.counts
            gwe = gwe or k["gwe"]
            c.site(r, "%s:%d" % (o.node.file, o.node.line), "detach: %s" % k)
            for x, what in (("inputs", "inputs"), ("signals", "signals"), ("tolist", "timeouts")):
                if not k[x]:
                    report_path(c, r, g, res, o, j["q"], "kept " + what, "a process is detached while its %s stay registered" % what)
            if k["wps"] != 1:
                report_path(c, r, g, res, o, j["q"], "kept process", "a detached process stays in the process table")
            if not k["gw"]:
                report_path(c, r, g, res, o, j["q"], "kept gateway", "a detached process stays in the list of gateways")
            if k["delay"] + (1 if k["stop"] else 0) != 1:
                report_path(c, r, g, res, o, j["q"], "stop", "a detached process is %s" % ("never stopped" if not k["delay"] else "stopped twice"))
            if k["stop"] and not k["unhook"]:
                report_path(c, r, g, res, o, j["q"], "unhook", "a detached process still refers to the dispatcher")
        # the timeout loop erases the entries of this process only
        er = [n for n in g.nodes if n.kind in ("ev", "iret") and is_call(n.ev, "erase", "remove_if", obj=D + "timeouts")]
        if not er and not any(n.kind in ("ev", "iret") and is_call(n.ev, "removeTimeout") for n in g.nodes):
            c.bad(r, j["q"], "kept timeouts", j["f"], j["l"], "a process is detached while its timeouts stay registered")
        if not gwe:
            c.bad(r, j["q"], "kept gateway", j["f"], j["l"], "a detached process stays in the list of gateways")
    owners(c, F, r)
    c.expect(r, 5)


def owners(c, F, r):
    """loops that drop a process's entries: an entry is dropped exactly when it belongs to that process"""
    for q in sorted(F.funcs):
        if not q.startswith(D):
            continue
        for j in F.funcs[q]:
            g = build(F, j, lambda cj, t: False, access=ACC)
            for n in g.nodes:
                pass
            pars = {(p[0] if isinstance(p, (list, tuple)) else p) for p in j["params"]}
            fields = (D + "timeouts", D + "inputs", D + "signal_map")
            er = [n for n in g.nodes if n.kind in ("ev", "iret") and is_call(n.ev, "erase") and n.ev[2] is not None and deref(n.ev[2]) is not None and deref(n.ev[2])[0] == "m" and deref(n.ev[2])[2] in fields]
            if not er or q == D + "checkEvents":
                continue
            bad = {}

            def step(a, n, facts):
                t = n.ev
                if n.kind in ("ev", "iret") and t is not None:
                    if n in er:
                        if a is not True:
                            bad[n.id] = n
                        return ["?"]
                return [a]

            def on(a, expr, truth, n):
                e, s = leaf(expr)
                tr = truth == s
                if e[0] == "bin" and e[1] in ("==", "!=") and any(x[0] == "m" and last(x[2]) == "pwp" for x in walk(e)):
                    return (e[1] == "==") == tr
                if any(x[0] == "call" and last(x[1]) in ("end", "cend") for x in walk(e)) or any(x[0] == "m" and last(x[2]) == "second" for x in walk(e)) and e[0] == "call":
                    return "?"
                return a
            run(g, "?", step, cap=2, only=lambda f: False, branch=brancher(on, Alias(g)))
            if last(q) in ("detach", "rebuildInputs", "rebuildSignals"):
                def step2(a, n, facts):
                    if n.kind in ("ev", "iret") and n in er:
                        return ["more"]
                    return [a]

                def on2(a, expr, truth, n):
                    e, s = leaf(expr)
                    if any(x[0] == "call" and last(x[1]) in ("end", "cend") for x in walk(e)):
                        eq = (e[1] == "==") if e[0] == "bin" else last(e[1]) == "operator=="
                        return "" if eq == (truth == s) else a
                    return a
                res = run(g, "", step2, cap=2, only=lambda f: False, branch=brancher(on2, Alias(g)))
                for (nid, a), fss in res.seen.items():
                    n = g.nodes[nid]
                    if n.kind == "exit" and a == "more":
                        c.bad(r, q, "stops early", n.file, n.line, "stops looking after dropping one entry of a detached process: its other entries stay", trace(g, res, nid, a, next(iter(fss))))
            for n in er:
                c.site(r, "%s:%d" % (n.file, n.line), "%s drops entries of its own process" % q)
            for n in bad.values():
                c.bad(r, q, "foreign entry", n.file, n.line, "drops an entry that was not found to belong to the process in question")
