"""Must-hold lockset analysis.  Per function (helpers that manipulate locks inlined) a path-sensitive
flow computes which mutexes are held at every event; obligations that are not met locally are pushed to
the call sites of the function until they are met or a root is reached."""
from collections import defaultdict
from ir import pp, walk, last, deref, Builder, fn
from flow import run, Facts, norm
from facts import Broken

LOCK = "LOFAR::Thread::Mutex::Lock"
MUTEX = "LOFAR::Thread::Mutex"
COND = "LOFAR::Thread::Condition"
ACQ_METH = {LOCK + "::lock": "lock", LOCK + "::relock": "relock"}
REL_METH = {LOCK + "::release", LOCK + "::release_without_unlock"}
RAW = {MUTEX + "::lock": 1, MUTEX + "::unlock": -1, MUTEX + "::trylock": 0}


def is_lockop(q):
    return q in ACQ_METH or q in REL_METH or q in RAW


class LockAnalysis:
    def __init__(self, F, inline=None, depth=4, access=None):
        self.F = F
        self.access = access
        self.inline_extra = inline
        self.depth = depth
        self._acc = {}
        self._res = {}
        self._calls = None
        self._addr = None
        self._lockhelpers = None

    # ---- identity of a mutex expression -------------------------------------------------------------
    def accessor(self, q):
        """field returned by a trivial accessor, or None"""
        if q in self._acc:
            return self._acc[q]
        self._acc[q] = None
        out = set()
        for j in self.F.fns(q):
            f = fn(j)
            if len(f.blocks) > 4:
                continue
            for uid, line, tr, t in f.tree():
                if t[0] == "ret" and t[1] is not None:
                    x = f.expand(t[1])
                    i = self.mid(x)
                    if i and not i.startswith("v:"):
                        out.add(i)
        r = out.pop() if len(out) == 1 else None
        self._acc[q] = r
        return r

    def mid(self, t):
        """identity of the mutex an expression denotes: class field, global, or local"""
        t = deref(t)
        if t is None:
            return None
        if t[0] == "m":
            return t[2]
        if t[0] == "g":
            return "g:" + t[1]
        if t[0] == "v":
            return "v:" + t[1]
        if t[0] == "call":
            a = self.accessor(t[1])
            if a:
                return a
            return "call:" + t[1]
        if t[0] == "this":
            return "this"
        if t[0] == "cond":
            return None
        return None

    # ---- helpers that change the caller's locks --------------------------------------------------------
    def lockhelpers(self):
        if self._lockhelpers is None:
            s = set()
            for j in self.F.all():
                if j["q"].startswith("LOFAR::Thread::"):
                    continue
                hit = False
                for p in j["params"]:
                    if "Mutex::Lock" in p[1] and ("&" in p[1] or "*" in p[1]):
                        hit = True
                if not hit and j.get("blocks"):
                    for b in j["blocks"]:
                        for e in b["el"]:
                            if e[3][0] == "call" and e[3][1] in RAW:
                                hit = True
                if hit:
                    s.add(j["q"])
            self._lockhelpers = s
        return self._lockhelpers

    def _inline(self, callee, t):
        return callee["q"] in self.lockhelpers() or bool(self.inline_extra and self.inline_extra(callee, t))

    # ---- one function -----------------------------------------------------------------------------------
    def analyse(self, j):
        """-> (graph, {node id: frozenset of mutexes held on every path before the event})"""
        k = id(j)
        if k in self._res:
            return self._res[k]
        g = Builder(self.F, self._inline, self.depth, access=self.access).build(j)
        held = {}
        tries = {}
        for jj in self.F.fns(j["q"]):
            pass

        def locks(auto):
            return frozenset(x[1] for x in auto)

        def setv(auto, var, m, n):
            a = [x for x in auto if x[0] != var]
            if m is not None:
                a.append((var, m, n.ctx, getattr(n, "tries", -1), n.func))
            return tuple(sorted(a, key=repr))

        def var_of(t):
            d = deref(t)
            return d[1] if d is not None and d[0] == "v" else (pp(d) if d is not None else "?")

        def step(auto, n, facts):
            cur = locks(auto)
            held[n.id] = cur if n.id not in held else held[n.id] & cur
            ev = n.ev
            if ev is None or n.kind not in ("ev", "iret"):
                return [auto]
            if ev[0] == "decls":
                for d in ev[1:]:
                    if d[2] == LOCK and d[3] is not None and d[3][0] == "ctor" and d[3][2]:
                        a0 = d[3][2][0]
                        opt = d[3][2][1] if len(d[3][2]) > 1 else None
                        m = self.mid(facts.val(a0) if a0 and a0[0] == "v" else a0)
                        if m is not None and (opt is None or opt == ("lit", 0)):
                            auto = setv(auto, d[1], m, n)
                return [auto]
            if ev[0] == "minit":
                return [auto]
            if ev[0] == "call":
                q = ev[1]
                if q in ACQ_METH and ev[3]:
                    v = facts.val(ev[2]) if ev[2] and ev[2][0] == "v" else ev[2]
                    return [setv(auto, var_of(v), self.mid(ev[3][0]), n)]
                if q in REL_METH:
                    v = facts.val(ev[2]) if ev[2] and ev[2][0] == "v" else ev[2]
                    return [setv(auto, var_of(v), None, n)]
                if q in RAW and ev[2] is not None:
                    m = self.mid(ev[2])
                    if RAW[q] == 1:
                        return [setv(auto, "raw:" + str(m), m, n)]
                    if RAW[q] == -1:
                        return [setv(auto, "raw:" + str(m), None, n)]
                return [auto]
            if ev[0] == "dtor" and ev[2] == LOCK:
                return [setv(auto, ev[1], None, n)]
            return [auto]

        def edge(auto, lab, n):
            info = lab[1] if isinstance(lab, tuple) else None
            if info is None:
                return tuple(x for x in auto if x[0].startswith("raw:"))
            fq, tr, ctx = info
            keep = []
            for x in auto:
                if x[0].startswith("raw:"):
                    keep.append(x)
                    continue
                c = x[2]
                if len(c) > len(ctx):
                    continue                       # declared in an inlined callee
                if c == ctx and x[4] == fq:
                    if self._nested(fq, x[3], tr, j):
                        continue
                keep.append(x)
            return tuple(keep)
        declared = {d[1] for n in g.nodes if n.kind in ("ev", "iret") and n.ev and n.ev[0] == "decls" for d in n.ev[1:] if d[2] == LOCK}

        def branch(auto, expr, truth, n):
            # `lock.locked()` of a local scoped lock says whether it holds its mutex on this path
            e = expr
            while e and e[0] == "un" and e[1] == "!":
                e, truth = e[2], not truth
            if e and e[0] == "call" and e[1] == LOCK + "::locked" and e[2] is not None:
                v = var_of(e[2])
                if v in declared and any(x[0] == v for x in auto) != truth:
                    return None
            return auto
        r = run(g, (), step, cap=6, edge=edge, branch=branch)
        self._res[k] = (g, held)
        return g, held

    def _nested(self, fq, inner, outer, root):
        """try index `inner` lies inside (or is) try `outer` of function fq"""
        if inner is None:
            return False
        for j in self.F.fns(fq):
            ts = j.get("tries", [])
            i = inner
            while i is not None and 0 <= i < len(ts):
                if i == outer:
                    return True
                i = ts[i]["p"]
        return False

    # ---- call sites -------------------------------------------------------------------------------------
    def callsites(self):
        """callee q -> [(caller json)] including possible virtual targets"""
        if self._calls is None:
            c = defaultdict(list)
            addr = set()
            over = defaultdict(set)     # base method -> overriders (transitive)
            for cl in self.F.classes.values():
                for m in cl["methods"]:
                    for o in m["over"]:
                        over[o].add(m["n"])
            self._over = over
            for j in self.F.all():
                f = fn(j)
                seen = set()
                for uid, line, tr, t in f.tree():
                    if t[0] == "call" and t[1] not in seen:
                        seen.add(t[1])
                        c[t[1]].append(j)
                        if "v" in t[4]:
                            work = [t[1]]
                            while work:
                                x = work.pop()
                                for o in over.get(x, ()):
                                    if o not in seen:
                                        seen.add(o)
                                        c[o].append(j)
                                        work.append(o)
                    for x in walk(t):
                        if x[0] == "fn":
                            addr.add(x[1])
                        if x[0] == "un" and x[1] == "&" and x[2] and x[2][0] in ("fn", "g") :
                            addr.add(x[2][1])
            self._calls, self._addr = c, addr
        return self._calls

    def call_nodes(self, caller, q):
        """[(node, held)] of the events of `caller` that may call q"""
        g, held = self.analyse(caller)
        self.callsites()
        targets = {q}
        work = [q]
        # base methods q may implement
        for cl in self.F.classes.values():
            for m in cl["methods"]:
                if m["n"] == q:
                    for o in m["over"]:
                        targets.add(o)
        out = []
        for n in g.nodes:
            if n.id in held and n.kind in ("ev", "iret") and n.ev and n.ev[0] in ("call", "enter") and n.ev[1] in targets:
                out.append((n, held[n.id]))
        return out

    def obligation(self, j, mutex, ok_roots=(), depth=0, seen=None, maxdepth=7):
        """can every caller of j be shown to hold `mutex`?  -> None or a chain (list of strings) that does not"""
        seen = seen or set()
        q = j["q"]
        if q in seen:
            return None
        seen = seen | {q}
        if q in ok_roots:
            return None
        callers = self.callsites().get(q, [])
        if not callers or q in self._addr or depth >= maxdepth:
            return ["%s:%d %s is entered without %s" % (j["f"], j["l"], q, last(mutex))]
        seen_call = False
        for cj in callers:
            if cj["q"] in ok_roots:
                seen_call = True
                continue
            for n, h in self.call_nodes(cj, q):
                seen_call = True
                if mutex in h:
                    continue
                r = self.obligation(cj, mutex, ok_roots, depth + 1, seen, maxdepth)
                if r is not None:
                    return r + ["%s:%d calls %s" % (n.file, n.line, q)]
        if not seen_call:
            return ["%s:%d %s is entered without %s" % (j["f"], j["l"], q, last(mutex))]
        return None


def field_events(g, held, fields, write_only=False):
    """events/branches that mention one of the fields (qualified names): (node, field)"""
    out = []
    for n in g.nodes:
        if n.id not in held or n.ev is None:
            continue
        if n.kind not in ("ev", "iret", "branch", "switch"):
            continue
        if n.ev[0] in ("enter", "leave"):
            continue
        hit = set()
        for x in walk(n.ev):
            if x[0] == "m" and x[2] in fields:
                hit.add(x[2])
            elif x[0] == "g" and x[1] in fields:
                hit.add(x[1])
        if write_only and hit:
            hit = {f for f in hit if writes(n.ev, f)}
        for f in hit:
            out.append((n, f))
    return out


def writes(ev, field):
    def isf(t):
        t = deref(t)
        while t is not None:
            if t[0] == "m" and t[2] == field:
                return True
            if t[0] == "g" and t[1] == field:
                return True
            if t[0] == "idx":
                t = deref(t[1])
            elif t[0] == "m":
                t = deref(t[1])
            elif t[0] == "call" and last(t[1]) in ("operator[]", "back", "front", "at", "begin") and t[2] is not None:
                t = deref(t[2])
            else:
                return False
        return False
    k = ev[0]
    if k == "asg":
        return isf(ev[2])
    if k == "un" and ev[1] in ("++", "--", "p++", "p--"):
        return isf(ev[2])
    if k == "call":
        if ev[2] is not None and "c" not in ev[4] and last(ev[1]) not in ("begin", "end", "front", "back", "operator[]", "find", "size", "empty", "operator->", "operator*") and isf(ev[2]):
            return True
        mut = ev[7] if len(ev) > 7 else ""
        return any(i < len(mut) and mut[i] == "1" and isf(a) for i, a in enumerate(ev[3]) if a is not None)
    return False


# ---- condition variables ----------------------------------------------------------------------------

def sccs(g):
    """node id -> scc id, and the set of ids of non-trivial sccs"""
    idx, low, st, on, comp = {}, {}, [], set(), {}
    cnt = [0]
    nontriv = set()
    for root in g.nodes:
        if root.id in idx:
            continue
        work = [(root.id, 0)]
        while work:
            v, i = work.pop()
            if i == 0:
                idx[v] = low[v] = cnt[0]
                cnt[0] += 1
                st.append(v)
                on.add(v)
            succ = g.nodes[v].succ
            if i < len(succ):
                work.append((v, i + 1))
                w = succ[i][0].id
                if w not in idx:
                    work.append((w, 0))
                continue
            for s, _ in succ:
                w = s.id
                if w in on:
                    low[v] = min(low[v], low[w]) if w in low else low[v]
            if low[v] == idx[v]:
                c = []
                while True:
                    w = st.pop()
                    on.discard(w)
                    comp[w] = idx[v]
                    c.append(w)
                    if w == v:
                        break
                if len(c) > 1:
                    nontriv.add(idx[v])
    return comp, nontriv


def loops(g):
    """the non-trivial strongly connected components as sets of node ids"""
    comp, nontriv = sccs(g)
    out = {}
    for n, k in comp.items():
        if k in nontriv:
            out.setdefault(k, set()).add(n)
    return list(out.values())


def wait_retests(g, n):
    """True when no path leaves the loop around wait node n (to the exit) without passing a branch of that loop"""
    comp, nontriv = sccs(g)
    if comp[n.id] not in nontriv:
        return False
    c = comp[n.id]
    seen, work = set(), [s for s, l in n.succ if not (l and l != "exc" and l[0] == "exc")]
    while work:
        x = work.pop()
        if x.id in seen:
            continue
        seen.add(x.id)
        if x.kind in ("branch", "switch") and comp[x.id] == c:
            continue
        if x.kind in ("exit",):
            return False
        for s, l in x.succ:
            if l and l[0] == "exc":
                continue
            work.append(s)
    return True
