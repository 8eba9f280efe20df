"""Whole-program lock-order graph: which mutexes may be acquired while which others are held."""
from collections import defaultdict
from ir import fn, last
import lockset as LS

# callees that are never on a path worth ordering: debug printing, and object copy / construction hooks whose
# virtual expansion would reach every class of the system
CUT = {"sdebug", "debug", "makeObject", "construct"}
NOVIRT = {"clone", "privatize", "privatizeRef", "toBlock", "fromBlock", "cloneOther", "className", "objectType", "validateContent", "~CountedRefTarget"}


def interesting(m):
    return m and not m.startswith("v:") and m != "this" and "crefMutex" not in m


class LockOrder:
    def __init__(self, F, LA):
        self.F, self.LA = F, LA
        LA.callsites()
        self.over = LA._over
        self.calls = calls = {}
        need = []
        for q, js in F.funcs.items():
            if q.startswith("LOFAR::Thread::"):
                continue
            for j in js:
                cl = set()
                lk = False
                for uid, line, tr, t in fn(j).tree():
                    if t[0] == "call":
                        cl.add((t[1], "v" in t[4]))
                        lk = lk or t[1] in LS.RAW or t[1] in LS.ACQ_METH
                    elif t[0] == "ctor":
                        cl.add((t[1], False))
                    elif t[0] == "decls":
                        lk = lk or any(d[2] == LS.LOCK for d in t[1:])
                calls.setdefault(q, set()).update(cl)
                if lk:
                    need.append(j)
        self.need = need
        self.acq = A = defaultdict(dict)
        self.edges = E = defaultdict(list)
        self.nacq = []
        G = {}
        for j in need:
            g, held = LA.analyse(j)
            G[id(j)] = (g, held)
            for n in g.nodes:
                if n.id not in held:
                    continue
                for m, tr in self.acquires(n):
                    if not interesting(m):
                        continue
                    self.nacq.append((n.file, n.line, j["q"], m))
                    A[j["q"]].setdefault(m, "%s:%d" % (n.file, n.line))
                    if tr:
                        continue        # a try-lock never waits
                    for h in held[n.id]:
                        if h != m and interesting(h):
                            E[(h, m)].append(("%s:%d" % (n.file, n.line), j["q"], None, n.file, n.line))
        T = self.T = {q: {m: (s, None) for m, s in a.items()} for q, a in A.items()}
        ch = True
        while ch:
            ch = False
            for q, cl in calls.items():
                t = T.setdefault(q, {})
                for cq, v in cl:
                    for x in self.targets(cq, v):
                        for m in T.get(x, ()):
                            if m not in t:
                                t[m] = (None, x)
                                ch = True
        for j in need:
            g, held = G[id(j)]
            for n in g.nodes:
                if n.id not in held or not held[n.id] or n.ev is None or n.ev[0] != "call" or n.kind not in ("ev", "iret"):
                    continue
                hs = [h for h in held[n.id] if interesting(h)]
                if not hs:
                    continue
                for x in self.targets(n.ev[1], "v" in n.ev[4]):
                    for m in T.get(x, ()):
                        for h in hs:
                            if h != m and m not in held[n.id]:
                                E[(h, m)].append(("%s:%d" % (n.file, n.line), j["q"], x, n.file, n.line))

    def acquires(self, n):
        ev = n.ev
        out = []
        if n.kind not in ("ev", "iret") or ev is None:
            return out
        if ev[0] == "decls":
            for d in ev[1:]:
                if d[2] == LS.LOCK and d[3] is not None and d[3][0] == "ctor" and d[3][2]:
                    opt = d[3][2][1] if len(d[3][2]) > 1 else None
                    out.append((self.LA.mid(d[3][2][0]), opt is not None and opt != ("lit", 0)))
        elif ev[0] == "call":
            if ev[1] in LS.ACQ_METH and ev[3]:
                out.append((self.LA.mid(ev[3][0]), len(ev[3]) > 1 and ev[3][1] != ("lit", 0)))
            elif LS.RAW.get(ev[1]) == 1 and ev[2] is not None:
                out.append((self.LA.mid(ev[2]), False))
        return out

    def targets(self, q, virt):
        if last(q) in CUT:
            return []
        out = [q]
        if virt and last(q) not in NOVIRT:
            w, s = [q], {q}
            while w:
                x = w.pop()
                for o in self.over.get(x, ()):
                    if o not in s:
                        s.add(o)
                        out.append(o)
                        w.append(o)
        return out

    def chain(self, e, m):
        where, q, x, f, l = e
        if x is None:
            return ["%s %s acquires %s" % (where, q, m)]
        out = ["%s %s calls %s" % (where, q, x)]
        while x is not None and m in self.T.get(x, {}):
            s, nx = self.T[x][m]
            out.append("... %s %s" % (x, ("acquires %s at %s" % (m, s)) if s else "calls " + str(nx)))
            x = nx
        return out

    def cycles(self, drop=()):
        """two-cycles, then the shortest of the longer cycles left once those are taken out"""
        E = {e for e in self.edges if frozenset(e) not in drop}
        two = sorted({tuple(sorted(e)) for e in E if (e[1], e[0]) in E})
        rest = {e for e in E if (e[1], e[0]) not in E}
        adj = defaultdict(set)
        for a, b in sorted(rest):
            adj[a].add(b)
        out = [[a, b] for a, b in two]
        done = set()
        for s in sorted(adj):
            prev, w = {}, [s]
            hit = None
            while w and hit is None:
                nw = []
                for x in w:
                    for y in sorted(adj.get(x, ())):
                        if y == s:
                            hit = x
                            break
                        if y not in prev:
                            prev[y] = x
                            nw.append(y)
                    if hit is not None:
                        break
                w = nw
            if hit is not None:
                cyc = [hit]
                while cyc[-1] != s:
                    cyc.append(prev[cyc[-1]])
                cyc.reverse()
                k = frozenset(cyc)
                if k not in done:
                    done.add(k)
                    out.append(cyc)
        return out
