"""Rule building blocks shared by the property checks."""
from collections import defaultdict
from ir import pp, walk, last, deref, strip_cast, Builder, fn, STREAMY, NOISE
from flow import run, Facts, trace, norm, atom, about
from facts import Broken
import lockset as LS


# ---------------------------------------------------------------------------------------------------
# which functions may let an exception escape

class MayThrow:
    def __init__(self, F, extern=None):
        self.F = F
        self.extern = extern or (lambda q: False)
        over = defaultdict(set)
        for cl in F.classes.values():
            for m in cl["methods"]:
                for o in m["over"]:
                    over[o].add(m["n"])
        self.over = over
        self.direct = {}
        calls = {}
        for q, js in F.funcs.items():
            d, cs = None, set()
            for j in js:
                f = fn(j)
                catches = {}
                for bid, (els, b) in f.blocks.items():
                    if "catch" in b:
                        catches[bid] = b["catch"]
                stop = {}
                for i, t in enumerate(f.tries):
                    hs = []
                    if t["b"] >= 0 and t["b"] in f.blocks:
                        for s in f.blocks[t["b"]][1]["s"]:
                            s = abs(s) - 2 if s is not None and s < -1 else s
                            if s in catches:
                                hs.append(catches[s])
                    stop[i] = any(h == "..." or "std::exception" in h for h in hs)

                def escapes(tr):
                    while tr is not None and tr >= 0:
                        if stop.get(tr):
                            return False
                        tr = f.tries[tr]["p"]
                    return True
                for uid, line, tr, t in f.tree():
                    if t[0] == "throw":
                        if escapes(tr) and d is None:
                            d = (line, "throw")
                    elif t[0] in ("call", "ctor", "new") and escapes(tr):
                        if t[0] == "call":
                            if "e" in t[4]:
                                continue
                            cs.add((t[1], "v" in t[4], line))
                        elif t[0] == "ctor":
                            cs.add((t[1] + "::(ctor)", False, line))
            self.direct[q] = d
            calls[q] = cs
        self.calls = calls
        self.res = {q: d for q, d in self.direct.items() if d}
        changed = True
        while changed:
            changed = False
            for q, cs in calls.items():
                if q in self.res:
                    continue
                for c, v, line in cs:
                    if self._call(c, v):
                        self.res[q] = (line, c)
                        changed = True
                        break

    def _targets(self, q, virt):
        out = [q]
        if virt:
            work = [q]
            seen = {q}
            while work:
                x = work.pop()
                for o in self.over.get(x, ()):
                    if o not in seen:
                        seen.add(o)
                        out.append(o)
                        work.append(o)
        return out

    def _call(self, q, virt):
        for t in self._targets(q, virt):
            if t in self.res:
                return True
            if t not in self.F.funcs and self.extern(t):
                return True
        return False

    def __call__(self, q, virt=True):
        if STREAMY.match(q) or NOISE.search(q):
            return False
        return self._call(q, virt)

    def why(self, q, limit=8):
        out = []
        while q in self.res and len(out) < limit:
            line, nxt = self.res[q]
            f = self.F.funcs[q][0]
            out.append("%s:%d %s -> %s" % (f["f"], line, q, nxt))
            if nxt == "throw":
                break
            n2 = nxt
            for t in self._targets(nxt, True):
                if t in self.res:
                    n2 = t
                    break
            if n2 == q:
                break
            q = n2
        return out


# ---------------------------------------------------------------------------------------------------
# path outcomes

class Outcome:
    __slots__ = ("kind", "counts", "ret", "facts", "node", "key")

    def __init__(s, kind, counts, ret, facts, node, key):
        s.kind, s.counts, s.ret, s.facts, s.node, s.key = kind, counts, ret, facts, node, key


def outcomes(g, matchers, cap=16, stable=None, on=None, sat=3, edge=None, init_facts=None, maxstates=400000, only=None, split=False, branch=None):
    """matchers: {name: f(ev, facts, node) -> None/0/int}.  Explores all feasible paths and returns the distinct
    outcomes at the function's exits: counts per matcher (saturating) and the returned expression."""
    names = list(matchers)
    outs = {}

    def step(auto, n, facts):
        cnt, ret = auto
        if n.kind in ("ev", "iret", "branch", "switch") and n.ev is not None:
            c = None
            for i, nm in enumerate(names):
                d = matchers[nm](n.ev, facts, n)
                if d:
                    c = c or list(cnt)
                    c[i] = max(-sat, min(sat, c[i] + d))
            if c:
                cnt = tuple(c)
            if n.ev[0] == "ret" and n.kind == "ev" and n.func == g.entry.func and not n.ctx:
                ret = facts.val(n.ev[1]) if n.ev[1] is not None else None
        return [(cnt, ret)]
    res = run(g, (tuple([0] * len(names)), None), step, stable=stable, cap=cap, edge=edge, init_facts=init_facts, maxstates=maxstates, only=only, split=split, branch=branch)
    out = []
    for (nid, auto), fss in res.seen.items():
        n = g.nodes[nid]
        if n.kind in ("exit", "excexit"):
            for fs in fss:
                o = Outcome(n.kind, dict(zip(names, auto[0])), auto[1], Facts(fs), n, (nid, auto, fs))
                out.append(o)
    return out, res


def is_call(ev, *names, obj=None):
    """event is a call to one of the qualified/last names (optionally on a given field)"""
    if ev is None or ev[0] not in ("call", "enter"):
        return False
    if not (ev[1] in names or last(ev[1]) in names):
        return False
    if obj is not None:
        d = deref(ev[2]) if ev[2] is not None else None
        if d is None or d[0] not in ("m", "g", "v") or (d[2] if d[0] == "m" else d[1]) != obj:
            return False
    return True


def denotes(t, field):
    """expression denotes (an element or part of) the field"""
    t = deref(t)
    while t is not None:
        if t[0] == "m":
            if t[2] == field:
                return True
            t = deref(t[1])
        elif t[0] == "g":
            return t[1] == field
        elif t[0] == "idx":
            t = deref(t[1])
        elif t[0] == "call" and t[2] is not None and last(t[1]) in ("operator[]", "back", "front", "at", "begin"):
            t = deref(t[2])
        elif t[0] == "cast":
            t = t[3]
        else:
            return False
    return False


def delta(ev, field):
    """+1/-1 when the event adds/subtracts one to/from field, 0 otherwise, None for another write"""
    if ev is None:
        return 0
    if ev[0] == "un" and denotes(ev[2], field):
        if ev[1] in ("++", "p++"):
            return 1
        if ev[1] in ("--", "p--"):
            return -1
    if ev[0] == "asg" and denotes(ev[2], field):
        if ev[1] == "+=" and strip_cast(ev[3])[0] == "lit":
            return strip_cast(ev[3])[1]
        if ev[1] == "-=" and strip_cast(ev[3])[0] == "lit":
            return -strip_cast(ev[3])[1]
        if ev[1] == "=":
            r = strip_cast(ev[3])
            if r[0] == "bin" and r[1] in ("+", "-") and denotes(r[2], field) and strip_cast(r[3])[0] == "lit":
                return strip_cast(r[3])[1] * (1 if r[1] == "+" else -1)
            if r[0] == "bin" and r[1] == "+" and denotes(r[3], field) and strip_cast(r[2])[0] == "lit":
                return strip_cast(r[2])[1]
        return None
    return 0


# ---------------------------------------------------------------------------------------------------
# lock rules

def check_guarded(c, LA, rid, table, skip_funcs=(), ok_roots=(), only=None, read_ok=(), what="", prefix=None, via=()):
    """every access of field (key of table) is made holding table[field]"""
    F = c.F
    fields = set(table)
    seen = set()
    for j in F.all():
        if j["q"] in skip_funcs or (only and not only(j)):
            continue
        f = fn(j)
        hit = False
        for bid, (els, b) in f.blocks.items():
            for uid, line, tr, t in els:
                if any((x[0] == "m" and x[2] in fields) or (x[0] == "g" and x[1] in fields) or (x[0] == "call" and x[1] in via) for x in walk(t)):
                    hit = True
            if not hit and "c" in b:
                from ir import _dec
                if any((x[0] == "m" and x[2] in fields) or (x[0] == "g" and x[1] in fields) for x in walk(_dec(b["c"]))):
                    hit = True
        if not hit:
            continue
        g, held = LA.analyse(j)
        for n, fld in LS.field_events(g, held, fields):
            if n.func in skip_funcs:
                continue
            m = table[fld]
            need = {m} if isinstance(m, str) else set(m)
            wr = LS.writes(n.ev, fld)
            if not wr and fld in read_ok:
                continue
            if n.func != j["q"] or n.ev[0] == "minit":
                continue
            k = (j["q"], fld, n.line)
            if k not in seen:
                seen.add(k)
                c.site(rid, "%s:%d" % (n.file, n.line), "%s %s in %s" % ("writes" if wr else "reads", fld, j["q"]))
            if need & held[n.id]:
                continue
            chain = None
            for mm in need:
                chain = LA.obligation(j, mm, ok_roots)
                if chain is None:
                    break
            if chain is None:
                continue
            c.bad(rid, j["q"], "%s %s" % ("write" if wr else "read", last(fld)), n.file, n.line,
                  "%s is %s without %s" % (last(fld), "written" if wr else "read", "/".join(last(x) for x in sorted(need))),
                  chain + ["%s:%d %s" % (n.file, n.line, pp(n.ev)[:120])])


def check_waits(c, LA, rid, filt=None, extra_ok=()):
    """every Condition::wait is made holding the condition's mutex and is re-tested in a loop"""
    F = c.F
    for j in F.all():
        if j["q"].startswith("LOFAR::Thread::") or (filt and not filt(j)):
            continue
        f = fn(j)
        if not any(t[0] == "call" and t[1] == LS.COND + "::wait" for uid, line, tr, t in f.tree()):
            continue
        g, held = LA.analyse(j)
        for n in g.nodes:
            if n.id in held and n.ev and n.ev[0] == "call" and n.ev[1] == LS.COND + "::wait" and n.func == j["q"]:
                m = LA.mid(n.ev[2])
                c.site(rid, "%s:%d" % (n.file, n.line), "wait on %s in %s" % (m, j["q"]))
                if m not in held[n.id]:
                    chain = LA.obligation(j, m)
                    if chain is not None:
                        c.bad(rid, j["q"], "wait unlocked " + last(m), n.file, n.line,
                              "waits on condition %s without holding it" % last(m), chain)
                oth = {x for x in held[n.id] if x != m and not x.startswith("v:")}
                if oth:
                    c.bad(rid, j["q"], "wait holding " + ",".join(sorted(last(x) for x in oth)), n.file, n.line,
                          "waits on condition %s while still holding %s" % (last(m), ", ".join(sorted(oth))))
                timed = len(n.ev[3]) > 0
                if (j["q"], last(m)) in extra_ok:
                    continue
                if not LS.wait_retests(g, n):
                    c.bad(rid, j["q"], "wait not re-tested " + last(m), n.file, n.line,
                          "the awaited condition is not re-tested after waiting on %s (spurious or stolen wakeup)" % last(m))


def check_lock_balance(c, LA, rid, filt=None):
    """every raw lock()/unlock() use is balanced on every path"""


def build(F, j, inline=None, depth=4, maythrow=None, access=None):
    return Builder(F, inline, depth, maythrow=maythrow, access=access).build(j)


def inline_class(*prefixes):
    """inline callees that are members of these classes / namespaces (robust to helper extraction)"""
    pre = tuple(prefixes)

    def f(j, t):
        return j["q"].startswith(pre)
    return f


def inline_near(*prefixes, files=(), no=()):
    """inline members of the given classes and free helper functions defined in the same source files"""
    pre = tuple(prefixes)

    def f(j, t):
        q = j["q"]
        if last(q) in no or q in no:
            return False
        return q.startswith(pre) or (j["f"] in files and "::" not in q.replace("(anonymous namespace)::", "").replace("Meq::", "").replace("LOFAR::", "").replace("DMI::", ""))
    return f


def report_path(c, rid, g, res, o, func, construct, msg):
    n = o.node
    tr = trace(g, res, *o.key)
    line = n.line
    for s in reversed(tr):
        if s.startswith(n.file + ":"):
            line = int(s.rsplit(":", 1)[1])
            break
    c.bad(rid, func, construct, n.file, line, msg, tr)
