"""P05 forest registry: node table, name map and count stay consistent, lookups stay in bounds."""
import os
from rules import *
import lockset as LS
from ir import fn, pp, walk, last, deref, strip_cast
from checks.p01_node_execution import num

FILES = ["MEQ/src/Forest.cc", "MEQ/src/Node.cc", "MEQ/src/Node_init.cc", "MEQ/src/NodeNursery.cc", "MEQ/src/SymdepMap.cc", "MEQ/src/RequestId.cc"]
FO = "Meq::Forest::"
NODES, NAMES, NUM = FO + "nodes", FO + "name_map", FO + "num_valid_nodes"
TAB = ("m", ("this",), NODES)
SIZE = ("call", "std::vector::size", TAB, (), "ce", "unsigned long", "std::vector", "")
ASSUMPTIONS = ["nodes are created and removed by one thread at a time, with no execution in progress (the server's control thread)"]
always = lambda q: True
KEEP = ("create", "remove", "get", "getRef", "findNode", "findIndex", "getNodeList", "initAll", "clear", "valid", "setState", "setStateImpl", "postError", "postEvent", "init", "checkChildren")
inl = inline_near(FO, files=("MEQ/src/Forest.cc",), no=KEEP)


def check(c):
    F = c.load(FILES)
    LA = LS.LockAnalysis(F)
    r = c.rule("P05-bounds", "every access of the node table by index is made only where the index is known to lie inside the table (or comes from the name map or from a size check followed by growth)")
    bounds(c, F, r)
    c.expect(r, 8)
    r = c.rule("P05-create", "creating a node fills an empty slot, counts it once and enters a non-empty name once under the slot's own index; a refused creation (duplicate name, occupied index, unknown class, bad record) leaves table, count and names alone and is counted as an error")
    create(c, F, r)
    c.expect(r, 3)
    r = c.rule("P05-remove", "removing a node empties its slot, uncounts it once and forgets its name; only a table whose last slot was removed shrinks; an invalid index changes nothing; clearing resets all three")
    remove(c, F, r)
    c.expect(r, 3)
    r = c.rule("P05-lookup", "lookup by index returns only valid nodes and never index 0; lookup by name returns the node the name map gives or fails")
    lookup(c, F, r)
    c.expect(r, 4)
    r = c.rule("P05-list", "the node list has one entry per valid node, every column written at the same running position, which is checked against the number of entries")
    nodelist(c, F, r)
    c.expect(r, 3)
    r = c.rule("P05-init", "initialization visits every valid node twice (init, then check of children); an error in one is counted and posted and does not keep the others from being visited")
    initall(c, F, r)
    c.expect(r, 2)
    r = c.rule("P05-state", "a new forest state is applied under the forest lock; if it is refused the old one is applied again; if accepted it replaces or is merged into the current one as asked")
    setstate(c, F, r, LA)
    c.expect(r, 2)
    r = c.rule("P05-stop", "the stop flag is written only under its condition, waited for in a re-testing loop, and clearing it wakes all waiters; hitting a breakpoint raises it before the node waits")
    stop(c, F, r, LA)
    c.expect(r, 4)
    r = c.rule("P05-links", "a node is linked only to nodes the forest has: children, step children and parents are looked up by index at initialization, numbers of children are checked against the declared limits, mandatory ones must be given, a child can be set once")
    links(c, F, r)
    c.expect(r, 4)


def fset(facts):
    return [(f[1], f[2]) for f in facts.s if f[0] == "a"]


def table_subscripts(n):
    if n.kind not in ("ev", "iret", "branch") or not n.ev:
        return
    for x in walk(n.ev):
        if x[0] == "call" and last(x[1]) in ("operator[]", "at") and x[2] is not None and deref(x[2]) == TAB and x[3]:
            yield x, x[3][0]
        elif x[0] == "idx" and deref(x[1]) == TAB:
            yield x, x[2]


def rep_once(c, r, g, res, done, j):
    def rep(msg, n, a, fs, key=None):
        k = key or msg
        if k in done:
            return
        done.add(k)
        if os.environ.get("SA_DEBUG"):
            print(msg, a, *("   " + repr(x) for x in sorted(fs, key=repr)), sep="\n")
        c.bad(r, j["q"], k, n.file or j["f"], n.line or j["l"], msg, trace(g, res, n.id, a, fs))
    return rep


def is_resize(ev, facts):
    """growth of the table: the value it is resized to"""
    if is_call(ev, "resize") and deref(ev[2]) == TAB and ev[3]:
        return ev[3][0]
    return None


def mentions_size(t):
    return any(x[0] == "call" and last(x[1]) == "size" and x[2] is not None and deref(x[2]) == TAB for x in walk(t))


def right_operands(ev):
    """subterms evaluated only conditionally (right of && and ||, arms of ?:)"""
    out = set()
    for x in walk(ev):
        if x[0] == "bin" and x[1] in ("&&", "||"):
            out |= {id(y) for y in walk(x[3])}
        elif x[0] in ("tern", "cond", "?:"):
            for z in x[2:]:
                if isinstance(z, tuple):
                    out |= {id(y) for y in walk(z)}
    return out


def bounds(c, F, r):
    for j in F.all():
        if not j["q"].startswith(FO):
            continue
        f = fn(j)
        if not any(x[0] in ("m",) and x[2] == NODES for uid, line, tr, t in f.tree() for x in walk(t)):
            continue
        g = build(F, j, inl)

        def step(a, n, facts):
            z, nn = a
            if n.kind == "ev" and n.ev:
                y = is_resize(n.ev, facts)
                if y is not None:
                    z = strip_cast(y)
                t = None
                if n.ev[0] == "asg" and n.ev[1] == "=" and n.ev[2][0] == "v":
                    t, v = n.ev[2], n.ev[3]
                elif n.ev[0] == "decls" and len(n.ev) == 2 and n.ev[1][3] is not None:
                    t, v = ("v", n.ev[1][1]), n.ev[1][3]
                if t is not None:
                    nn = nn - {t}
                    if mentions_size(v):
                        nn = nn | {t}
                    if z is not None and any(x == t for x in walk(z)):
                        z = None
            return [(z, nn)]
        names = {x[1] for n in g.nodes for s, ix in table_subscripts(n) for x in walk(ix) if x[0] == "v"}
        res = run(g, (None, frozenset()), step, stable=always, split=True, cap=200, only=about("nodes", "name_map", "find", "index", "second", *names))
        done = set()
        rep = rep_once(c, r, g, res, done, j)
        for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            n = g.nodes[nid]
            cond = right_operands(n.ev) if n.ev else ()
            for s, ix in table_subscripts(n):
                if id(s) in cond:
                    continue
                for fs in fss:
                    facts = Facts(fs)
                    v = facts.val(ix)
                    frommap = "second" in repr(v) or "name_map" in repr(v)
                    up = facts.eval(("bin", "<", ix, SIZE)) is True
                    z, nn = a
                    if not up and z is not None:
                        up = facts.eval(("bin", "<", ix, z)) is True or z[0] == "bin" and z[1] == "+" and (strip_cast(z[2]) == strip_cast(ix) and (num(z[3]) or 0) > 0 or strip_cast(z[3]) == strip_cast(ix) and (num(z[2]) or 0) > 0)
                    lo = facts.eval(("bin", ">=", ix, ("lit", 0))) is True or unsigned(g, ix) or strip_cast(ix) in nn or mentions_size(v)
                    if (n.line, pp(ix)) not in done:
                        done.add((n.line, pp(ix)))
                        c.site(r, "%s:%d" % (n.file, n.line), "nodes[%s]%s" % (pp(ix), " from the name map" if frommap else ""))
                    if frommap:
                        continue
                    if not up:
                        rep("the node table is accessed at %s, which may lie beyond its end" % pp(ix), n, a, fs, "upper %s" % pp(ix))
                    elif not lo:
                        rep("the node table is accessed at %s, which may be negative" % pp(ix), n, a, fs, "lower %s" % pp(ix))


def unsigned(g, ix):
    ix = strip_cast(ix)
    if ix[0] != "v":
        return False
    for n in g.nodes:
        if n.ev and n.ev[0] == "decls":
            for d in n.ev[1:]:
                if d[1] == ix[1]:
                    return "unsigned" in (d[2] or "") or "size_t" in (d[2] or "") or loopvar(g, ix)
    return False


def loopvar(g, v):
    """starts at a non-negative constant and only ever grows"""
    ok = False
    for n in g.nodes:
        if n.ev and n.ev[0] == "decls":
            for d in n.ev[1:]:
                if d[1] == v[1]:
                    ok = d[3] is not None and num(d[3]) is not None and num(d[3]) >= 0
        if n.kind == "ev" and n.ev:
            if n.ev[0] == "un" and n.ev[1] in ("--", "p--") and n.ev[2] == v:
                return False
            if n.ev[0] == "asg" and n.ev[2] == v and not (n.ev[1] == "+=" and num(n.ev[3]) is not None and num(n.ev[3]) > 0):
                return False
    return ok


def tab_write(ev):
    """index at which the table receives a node"""
    if ev[0] == "call" and last(ev[1]) in ("operator=", "attach", "operator<<=", "xfer", "copy") and ev[2] is not None:
        x = deref(ev[2])
        if x[0] == "call" and last(x[1]) in ("operator[]", "at") and x[2] is not None and deref(x[2]) == TAB:
            return x[3][0]
        if x[0] == "idx" and deref(x[1]) == TAB:
            return x[2]
    if is_call(ev, "push_back") and deref(ev[2]) == TAB:
        return SIZE
    return None


def map_write(ev):
    """(name, index) entered into the name map"""
    if ev[0] == "asg" and ev[1] == "=":
        x = deref(ev[2])
        if x[0] == "call" and last(x[1]) == "operator[]" and x[2] is not None and denotes(x[2], NAMES):
            return x[3][0], ev[3]
        if x[0] == "idx" and denotes(x[1], NAMES):
            return x[2], ev[3]
    if is_call(ev, "insert", "emplace", "insert_or_assign") and denotes(ev[2], NAMES):
        return (ev[3][0] if len(ev[3]) > 1 else None), (ev[3][1] if len(ev[3]) > 1 else None)
    return None


def empty_known(facts, t):
    return facts.eval(("call", "std::string::empty", t, (), "c", "bool", "", ""))


def create(c, F, r):
    for j in F.fns(FO + "create"):
        g = build(F, j, inl)
        ixp = ("v", j["params"][0][0])
        named_branch = [False]

        def step(a, n, facts):
            slot, cnt, name, err, bad, vac, free, emp, thr = a
            ev = n.ev
            if n.kind == "catch":
                thr = 0
            if n.kind in ("ev", "branch") and ev:
                if n.kind == "ev" and ev[0] == "throw":
                    thr = 1
                if not vac and vacant(facts, ixp):
                    vac = 1
                if not free and free_name(facts):
                    free = 1
                e = name_empty(facts)
                if e is not None:
                    if e == 3 or emp and emp != e:
                        return []          # the same name tested again with the other result: not a path
                    emp = e
            if n.kind == "ev" and ev:
                if ev[0] == "asg" and ev[1] == "=" and ev[2] == ixp:
                    vac = 1 if mentions_size(ev[3]) and plain_size(ev[3]) else 0
                w = tab_write(ev)
                if w is not None:
                    slot = min(slot + 1, 3)
                    if not vac and w is not SIZE:
                        bad = bad or "a node is put into a slot that may be occupied"
                    if facts.val(strip_cast(w)) != facts.val(ixp) and strip_cast(w) != ixp and not (w is SIZE and vac):
                        bad = bad or "the slot of the new node (%s) is not the index reported" % pp(w)
                d = delta(ev, NUM)
                if d:
                    cnt += d
                elif d is None:
                    cnt = 9
                m = map_write(ev)
                if m is not None:
                    name = min(name + 1, 3)
                    if m[1] is not None and strip_cast(m[1]) != ixp and facts.val(m[1]) != facts.val(ixp):
                        bad = bad or "a name is entered under another index than that of its node (%s)" % pp(m[1])
                    if emp == 0:
                        bad = bad or "an empty name is entered into the name map"
                    if not free:
                        bad = bad or "a name is entered although another node may have it"
                if delta(ev, FO + "num_init_errors"):
                    err = 1
            return [(slot, min(cnt, 9), name, err, bad, vac, free, emp, thr)]
        res = run(g, (0, 0, 0, 0, "", 0, 0, 0, 0), step, stable=always, split=True, cap=200, only=about("nodes", "name_map", "nodename", "FName", "index", "FNodeIndex", "find", "end", "valid", ixp[1]))
        done = set()
        rep = rep_once(c, r, g, res, done, j)
        named = any(g.nodes[nid].kind == "exit" and a[2] == 1 for (nid, a) in res.seen)
        if not named:
            c.bad(r, j["q"], "no names", j["f"], j["l"], "names of created nodes are never entered into the name map")
        for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            n = g.nodes[nid]
            if n.kind not in ("exit", "excexit"):
                continue
            slot, cnt, name, err, bad, vac, free, emp, thr = a
            for fs in fss:
                c.site(r, "%s:%d" % (j["f"], j["l"]), "%s: slot=%d count=%d name=%d errors=%d" % (n.kind, slot, cnt, name, err))
                if bad:
                    rep(bad, n, a, fs)
                if n.kind == "exit":
                    if slot != 1:
                        rep("a created node is entered %d times into the table" % slot, n, a, fs)
                    if cnt != 1:
                        rep("a created node is counted %d times" % cnt, n, a, fs)
                    if name > 1:
                        rep("a created node's name is entered %d times" % name, n, a, fs)
                    if name == 0 and emp == 2 and named:
                        rep("a named node may be created without entering its name", n, a, fs)
                elif thr and (slot or cnt or name):
                    rep("a creation that fails leaves a half-registered node behind", n, a, fs)
                elif thr and not err:
                    rep("a failed creation is not counted as an error", n, a, fs)


def plain_size(t):
    """the value of nodes.size() itself (possibly with something added)"""
    t = strip_cast(t)
    if t[0] == "bin" and t[1] == "+":
        return plain_size(t[2]) or plain_size(t[3])
    return t[0] == "call" and last(t[1]) == "size"


def name_empty(facts):
    """1 the node's name is known empty, 2 known non-empty, None unknown, 3 contradictory"""
    out = 0
    for k, v in fset(facts):
        s = repr(k)
        if k[0] == "eq" and k[1] is None and isinstance(k[2], tuple) and k[2][0] == "call" and last(k[2][1]) in ("size", "length", "empty") and ("nodename" in s or "FName'" in s or "'name'" in s or "::name'" in s) and "name_map" not in s:
            out |= 1 if v else 2
    return out or None


def vacant(facts, ix):
    if facts.eval(("bin", ">=", ix, SIZE)) is True:
        return True
    for k, val in fset(facts):
        s = repr(k)
        if k[0] == "eq" and k[1] is None and val and "valid" in s and "Forest::nodes" in s:
            return True
        if k[0] == "lt" and "Forest::nodes" in s and "size" in s and "capacity" not in s and facts_lt(k, val) == "ge":
            return True
    return False


def facts_lt(k, v):
    """'ge' if the fact says index >= size, 'lt' if index < size"""
    a, b, kk = k[1], k[2], k[3]
    if isinstance(a, tuple) and a[0] == "call":      # size < i + kk
        if (v and kk == 1) or (v and kk == 0):
            return "ge"
        return "lt"
    if isinstance(b, tuple) and b[0] == "call":      # i < size + kk
        return "lt" if v else "ge"
    return None


def free_name(facts):
    for k, v in fset(facts):
        s = repr(k)
        if "name_map" in s and ("find" in s or "count" in s):
            if k[0] == "eq" and k[1] is not None and v and "end" in s:
                return True
            if k[0] == "eq" and k[1] is None and v and "count" in s:
                return True
            if k[0] == "eq" and k[1] is None and "operator" in s:
                return True
    return False


def remove(c, F, r):
    for j in F.fns(FO + "remove"):
        g = build(F, j, inl)
        ixp = ("v", j["params"][0][0])

        def step(a, n, facts):
            det, cnt, er, bad, look, emp, val, thr = a
            ev = n.ev
            if n.kind == "catch":
                thr = 0
            if n.kind in ("ev", "branch") and ev:
                if n.kind == "ev" and ev[0] == "throw":
                    thr = 1
                if not val and validknown(facts):
                    val = 1
                e = name_empty(facts)
                if e is not None:
                    if e == 3 or emp and emp != e:
                        return []
                    emp = e
            if n.kind == "ev" and ev:
                if is_call(ev, "detach") and ev[2] is not None:
                    det = min(det + 1, 3)
                    if not val:
                        bad = bad or "a slot is emptied without knowing that it holds a node"
                d = delta(ev, NUM)
                if d:
                    cnt = max(-3, cnt + d)
                elif d is None:
                    cnt = 9
                if is_call(ev, "erase") and denotes(ev[2], NAMES):
                    er = 1
                if is_call(ev, "find", "count") and denotes(ev[2], NAMES):
                    look = 1
                z = is_resize(ev, facts)
                if z is not None or is_call(ev, "pop_back") and deref(ev[2]) == TAB:
                    lastslot = facts.eval(("bin", "==", ("bin", "+", ixp, ("lit", 1)), SIZE)) is True or any(k[0] == "eq" and v and "Forest::nodes" in repr(k) and "size" in repr(k) and k[1] is not None for k, v in fset(facts)) or any(k[0] == "lt" and facts_lt(k, v) is not None and "Forest::nodes" in repr(k) and lt_implies_last(k, v) for k, v in fset(facts))
                    if not lastslot:
                        bad = bad or "the table shrinks although the removed node may not be the last one"
            return [(det, cnt, er, bad, look, emp, val, thr)]
        res = run(g, (0, 0, 0, "", 0, 0, 0, 0), step, stable=always, split=True, cap=200, only=about("nodes", "name_map", "find", "end", "size", "valid", "name", ixp[1]))
        done = set()
        rep = rep_once(c, r, g, res, done, j)
        erased = False
        for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            n = g.nodes[nid]
            if n.kind not in ("exit", "excexit"):
                continue
            det, cnt, er, bad, look, emp, val, thr = a
            erased |= bool(er)
            for fs in fss:
                c.site(r, "%s:%d" % (j["f"], j["l"]), "%s: emptied=%d count=%d name erased=%d" % (n.kind, det, cnt, er))
                if bad:
                    rep(bad, n, a, fs)
                if n.kind == "exit" and (det != 1 or cnt != -1):
                    rep("a removal empties %d slots and changes the count by %d" % (det, cnt), n, a, fs)
                if n.kind == "excexit" and thr and (det or cnt or er):
                    rep("a refused removal changes the registry", n, a, fs)
                if n.kind == "exit" and not er and not look and emp != 1:
                    rep("a removed node's name stays in the name map", n, a, fs)
        if not erased:
            c.bad(r, j["q"], "names kept", j["f"], j["l"], "names of removed nodes are never erased from the name map")
    for j in F.fns(FO + "clear"):
        g = build(F, j, inl)
        m = {"table": lambda ev, f, n: 1 if (is_call(ev, "resize", "clear", "assign") and deref(ev[2]) == TAB) else 0,
             "names": lambda ev, f, n: 1 if is_call(ev, "clear") and denotes(ev[2], NAMES) else 0,
             "count": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], NUM) and f.eval(("un", "!", ev[3])) is True else 0,
             "one": lambda ev, f, n: 1 if is_call(ev, "resize") and deref(ev[2]) == TAB and num(ev[3][0]) == 1 else 0}
        outs, res = outcomes(g, m, stable=always)
        for o in outs:
            if o.kind == "exit":
                c.site(r, "%s:%d" % (j["f"], j["l"]), str(o.counts))
                for k, what in (("table", "nodes"), ("names", "names"), ("count", "the count of nodes")):
                    if not o.counts[k]:
                        report_path(c, r, g, res, o, j["q"], "clear keeps " + k, "clearing the forest leaves %s behind" % what)
                if o.counts["table"] and not o.counts["one"]:
                    report_path(c, r, g, res, o, j["q"], "index 0", "clearing the forest does not leave index 0 reserved")


def lt_implies_last(k, v):
    """index + 1 >= size (with the index inside the table)"""
    a, b, kk = k[1], k[2], k[3]
    if isinstance(a, tuple) and a[0] == "call":      # size < i + kk
        return bool(v) and kk <= 2
    return not v and kk >= -1


def validknown(facts):
    return any(k[0] == "eq" and k[1] is None and not v and isinstance(k[2], tuple) and k[2][0] == "call" and last(k[2][1]) in ("valid", "isValid") for k, v in fset(facts))


def lookup(c, F, r):
    for nm in ("get", "getRef", "findNode"):
        for j in F.fns(FO + nm):
            g = build(F, j, inl)
            prm = ("v", j["params"][0][0])

            def step(a, n, facts):
                pos, ok, found = a
                if n.kind in ("ev", "branch"):
                    pos = pos or int(facts.eval(("bin", ">", prm, ("lit", 0))) is True)
                    ok = ok or int(validknown(facts))
                    found = found or int(any(k[0] == "eq" and not v and "end" in repr(k) for k, v in fset(facts)))
                return [(pos, ok, found)]
            res = run(g, (0, 0, 0), step, stable=always, split=True, cap=100, only=about("nodes", "name_map", "find", "end", "size", "valid", "index", prm[1]))
            done = set()
            rep = rep_once(c, r, g, res, done, j)
            for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
                n = g.nodes[nid]
                if n.kind != "ev" or not n.ev or n.ev[0] != "ret" or n.ctx:
                    continue
                fs = next(iter(fss))
                c.site(r, "%s:%d" % (n.file, n.line), "%s returns %s" % (nm, pp(n.ev[1])))
                if nm != "findNode":
                    if not a[0]:
                        rep("index 0 (never a node) is accepted", n, a, fs)
                    if nm == "get" and not a[1]:
                        rep("an empty slot is returned as a node", n, a, fs)
                elif not a[2]:
                    rep("a name that is not in the map yields a node", n, a, fs)
    for j in F.fns(FO + "valid"):
        g = build(F, j, inl)
        outs, res = outcomes(g, {}, stable=always, split=True, cap=100)
        prm = ("v", j["params"][0][0])
        for o in outs:
            if o.kind != "exit" or o.ret is None:
                continue
            c.site(r, "%s:%d" % (j["f"], j["l"]), "valid returns %s" % pp(o.ret))
            # assume the result true: it must imply the bounds
            f2 = o.facts.assume(o.ret, True)
            if f2 is None:
                continue
            if f2.eval(("bin", ">", prm, ("lit", 0))) is not True or f2.eval(("bin", "<", prm, SIZE)) is not True or not validknown(f2):
                report_path(c, r, g, res, o, j["q"], "valid too weak", "an index is called valid without being inside the table, non-zero and occupied")
    for j in F.fns(FO + "findIndex"):
        g = build(F, j, inl)
        outs, res = outcomes(g, {}, stable=always, split=True, cap=100)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind != "ev" or not n.ev or n.ev[0] != "ret" or n.ctx:
                continue
            c.site(r, "%s:%d" % (n.file, n.line), "findIndex returns %s" % pp(n.ev[1]))
            t = strip_cast(n.ev[1])
            if t[0] in ("tern", "cond", "?:"):
                continue
            for fs in fss:
                facts = Facts(fs)
                found = None
                for k, v in fset(facts):
                    if k[0] == "eq" and "end" in repr(k) and k[1] is not None:
                        found = not v
                if num(t) is not None and num(t) < 0 and found is True:
                    c.bad(r, j["q"], "hides", n.file, n.line, "a known name is reported as not found", trace(g, res, nid, a, fs))
                if num(t) is None and found is not True and "second" in repr(t):
                    c.bad(r, j["q"], "end deref", n.file, n.line, "the index of an unknown name is read past the end of the map", trace(g, res, nid, a, fs))


def nodelist(c, F, r):
    for j in F.fns(FO + "getNodeList"):
        g = build(F, j, inl)
        # the running position: a local incremented inside the loop and used as subscript of the columns
        subs = {}
        cols = ("lni", "lname", "lclass", "lstate", "lrqid", "lprof", "lcache")
        vecs = set()
        for n in g.nodes:
            if n.ev and n.kind == "ev":
                for x in walk(n.ev):
                    if x[0] == "new" and x[1] == "DMI::Vec":
                        if n.ev[0] == "asg" and n.ev[2][0] == "v":
                            vecs.add(n.ev[2][1])
                if n.ev[0] == "asg" and n.ev[2][0] == "v" and "DMI::Vec" in repr(n.ev[3]):
                    vecs.add(n.ev[2][1])
        numv = set()
        for n in g.nodes:
            if n.ev and n.ev[0] == "decls":
                for d in n.ev[1:]:
                    if d[3] is not None and denotes(strip_cast(d[3]), NUM):
                        numv.add(("v", d[1]))
        pos = set()
        uses = []
        for n in g.nodes:
            if n.kind != "ev" or not n.ev:
                continue
            for x in walk(n.ev):
                if x[0] == "call" and last(x[1]) == "operator[]" and x[2] is not None and deref(x[2])[0] == "v" and deref(x[2])[1] in vecs and x[3]:
                    uses.append((n, x))
        for n, x in uses:
            ix = [y for y in walk(x[3][0]) if y[0] == "v"]
            if ix:
                pos.add(ix[0])
                c.site(r, "%s:%d" % (n.file, n.line), "column %s at %s" % (pp(x[2]), pp(x[3][0])))
        if len(pos) > 1:
            c.bad(r, j["q"], "positions", j["f"], j["l"], "columns of the node list are filled at different positions (%s)" % ", ".join(sorted(x[1] for x in pos)))
        if not pos or not numv:
            continue
        p = sorted(pos)[0]
        res = run(g, 0, lambda a, n, f: [a], stable=always, cap=64, only=about(p[1], *[v[1] for v in numv]))
        done = set()
        rep = rep_once(c, r, g, res, done, j)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if not any(n is m for m, x in uses):
                continue
            for fs in fss:
                facts = Facts(fs)
                if not any(facts.eval(("bin", "<", p, v)) is True for v in numv):
                    rep("a column of the node list is written at a position not checked against the number of entries", n, a, fs)
        # advanced exactly once per valid node
        for comp in LS.loops(g):
            incs = {n.id for n in g.nodes if n.id in comp and n.kind == "ev" and n.ev and (n.ev[0] == "un" and n.ev[1] in ("++", "p++") or n.ev[0] == "asg") and n.ev[2] == p}
            if not incs:
                continue
            heads = loop_heads(g, comp)
            c.site(r, "%s:%d" % (j["f"], g.nodes[min(incs)].line), "position advanced at %d places" % len(incs))

            def step(a, n, facts):
                vd, k = a
                if n.id not in comp:
                    return [a]
                if n.id in heads:
                    if vd and k != 1 or not vd and k:
                        return [(vd, 9)]
                    return [(0, 0)]
                if k == 9:
                    return [a]
                return [(vd or int(validknown(facts)), min(k + (n.id in incs), 3))]
            res = run(g, (0, 0), step, stable=always, only=about("valid"))
            for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
                if a[1] == 9 and g.nodes[nid].kind in ("exit", "excexit", "branch"):
                    rep("the position in the node list is not advanced exactly once per valid node", g.nodes[nid], a, next(iter(fss)))
        g2, held = LS.LockAnalysis(F).analyse(j)
        for n in g2.nodes:
            if n.id in held and n.ev and any(True for _ in table_subscripts(n)):
                if FO + "forest_mutex_" not in held[n.id]:
                    c.bad(r, j["q"], "list unlocked", n.file, n.line, "the node list is compiled without the forest lock")
                break


def handlers_of(f, tr):
    out = []
    while tr is not None and tr >= 0:
        t = f.tries[tr]
        catches = {bid: b["catch"] for bid, (els, b) in f.blocks.items() if "catch" in b}
        if t["b"] >= 0 and t["b"] in f.blocks:
            for s in f.blocks[t["b"]][1]["s"]:
                s = abs(s) - 2 if s is not None and s < -1 else s
                if s in catches:
                    out.append(catches[s])
        tr = t["p"]
    return out


def initall(c, F, r):
    for j in F.fns(FO + "initAll"):
        f = fn(j)
        got = set()
        js = [j] + [x for x in F.all() if x["f"] == j["f"] and any(t[0] == "call" and last(t[1]) == last(x["q"]) for _, _, _, t in f.tree()) and x["q"] != j["q"] and not x["q"].endswith(("init", "checkChildren"))]
        for jj in js:
            ff = fn(jj)
            for uid, line, tr, t in ff.tree():
                if t[0] == "call" and last(t[1]) in ("init", "checkChildren") and ("Node" in t[1]):
                    got.add(last(t[1]))
                    c.site(r, "%s:%d" % (jj["f"], line), pp(t))
                    hs = handlers_of(ff, tr)
                    if not any("std::exception" in h or h == "..." for h in hs):
                        c.bad(r, jj["q"], "unguarded " + last(t[1]), jj["f"], line, "an error in one node's %s keeps the remaining nodes from being visited" % last(t[1]))
        for k in ("init", "checkChildren"):
            if k not in got:
                c.bad(r, j["q"], "no " + k, j["f"], j["l"], "nodes are never asked to %s" % k)
        g = build(F, j, inl)
        for cn in [n for n in g.nodes if n.kind == "catch"]:
            # every path from the handler to the next node counts and posts
            comps = [cc for cc in LS.loops(g) if cn.id in cc]
            if not comps or leaves_loop(g, cn, comps[0]):
                c.bad(r, j["q"], "aborts", j["f"], cn.line, "an error in one node keeps other nodes from being initialized")
            miss = path_lacks(g, cn, [lambda ev: bool(delta(ev, FO + "num_init_errors")), lambda ev: is_call(ev, "postError", "postEvent")])
            c.site(r, "%s:%d" % (j["f"], cn.line), "handler")
            if 0 in miss:
                c.bad(r, j["q"], "uncounted", j["f"], cn.line, "an error during initialization is not counted")
            if 1 in miss:
                c.bad(r, j["q"], "unposted", j["f"], cn.line, "an error during initialization is not reported")
        # order: no checkChildren before all inits
        res = run(g, 0, lambda a, n, fa: [1 if n.kind == "ev" and n.ev and is_call(n.ev, "checkChildren") else a], only=about("@none@"))
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if a and n.kind == "ev" and n.ev and is_call(n.ev, "init") and "Node" in n.ev[1]:
                c.bad(r, j["q"], "order", n.file, n.line, "a node is initialized after children of another one were already checked")


def loop_heads(g, comp):
    """conditions that end the loop normally"""
    ok = set()
    pred = {}
    for n in g.nodes:
        for s, l in n.succ:
            if not (l is not None and (l == "exc" or l[0] == "exc")):
                pred.setdefault(s.id, []).append(n)
    work = [n for n in g.nodes if n.kind == "exit"]
    while work:
        n = work.pop()
        if n.id in ok:
            continue
        ok.add(n.id)
        work += [x for x in pred.get(n.id, ()) if x.id not in comp]
    return {n.id for n in g.nodes if n.id in comp and n.kind == "branch" and any(s.id in ok and s.id not in comp for s, l in n.succ)}


def leaves_loop(g, start, comp):
    """the handler can leave the loop without coming back to its condition"""
    heads = loop_heads(g, comp)
    seen, work = set(), [start]
    while work:
        n = work.pop()
        if n.id in seen or n.id in heads:
            continue
        seen.add(n.id)
        if n.id not in comp and n.kind == "exit":
            return True
        work += [s for s, l in n.succ if not (l is not None and (l == "exc" or l[0] == "exc"))]
    return False


def path_lacks(g, start, preds):
    """indices of predicates some path from start to a loop head / exit does not meet"""
    lp = set()
    for comp in LS.loops(g):
        for n in g.nodes:
            if n.id in comp and n.kind == "branch" and any(s.id not in comp for s, l in n.succ):
                lp.add(n.id)
    miss = set()
    seen = set()
    work = [(start, frozenset(range(len(preds))))]
    while work:
        n, need = work.pop()
        if (n.id, need) in seen:
            continue
        seen.add((n.id, need))
        if n.kind == "ev" and n.ev:
            need = frozenset(i for i in need if not preds[i](n.ev))
        if n is not start and (n.id in lp or n.kind == "exit"):
            miss |= need
            continue
        for s, lab in n.succ:
            if lab is not None and (lab == "exc" or lab[0] == "exc"):
                continue
            work.append((s, need))
    return miss


def setstate(c, F, r, LA):
    for j in F.fns(FO + "setState"):
        g, held = LA.analyse(j)
        for n in g.nodes:
            if n.id in held and n.ev and n.kind == "ev" and is_call(n.ev, "setStateImpl") and n.func == j["q"]:
                c.site(r, "%s:%d" % (n.file, n.line), "applied holding %s" % ", ".join(sorted(last(x) for x in held[n.id])))
                if FO + "forest_mutex_" not in held[n.id]:
                    c.bad(r, j["q"], "unlocked", n.file, n.line, "the forest state is changed without the forest lock")
        g = build(F, j, inl)
        rec = j["params"][0][0]
        comp = j["params"][1][0]

        def step(a, n, facts):
            app, back, kept = a
            ev = n.ev
            if n.kind == "ev" and ev:
                if is_call(ev, "setStateImpl"):
                    if ("v", rec) in list(walk(ev[3][0])):
                        app = 1
                    elif any(denotes(x, FO + "staterec_") for x in walk(ev[3][0])):
                        back = 1
                if ev[0] == "call" and last(ev[1]) in ("operator=", "xfer", "attach", "copy") and ev[2] is not None and denotes(ev[2], FO + "staterec_"):
                    kept += "r"
                    if facts.eval(("v", comp)) is False:
                        kept += "!"
                if is_call(ev, "merge"):
                    kept += "m"
                    if facts.eval(("v", comp)) is True:
                        kept += "!"
                    if len(ev[3]) > 1 and facts.eval(ev[3][1]) is False:
                        kept += "?"
            return [(app, back, kept[:4])]
        # the new state is refused only where applying it raised an error
        def edge(a, lab, n):
            return ("exc",) + a[1:] if n.ev and is_call(n.ev, "setStateImpl") and not a[1] and ("v", rec) in list(walk(n.ev[3][0])) else a
        res = run(g, (0, 0, ""), step, stable=always, edge=edge, only=about(comp))
        done = set()
        rep = rep_once(c, r, g, res, done, j)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind not in ("exit", "excexit"):
                continue
            for fs in fss:
                c.site(r, "%s:%d" % (j["f"], j["l"]), "%s applied=%s restored=%s kept=%s" % ((n.kind,) + a))
                if n.kind == "exit":
                    if a[0] != 1:
                        rep("a new forest state is reported as set without being applied", n, a, fs)
                    if not a[2]:
                        rep("an applied forest state is not recorded", n, a, fs)
                    if "!" in a[2]:
                        rep("a partial forest state replaces the complete one (or the reverse)", n, a, fs)
                    if "?" in a[2]:
                        rep("a partial forest state does not override the current one", n, a, fs)
                elif a[2]:
                    pass
        restores = any(is_call(n.ev, "setStateImpl") and any(denotes(x, FO + "staterec_") for x in walk(n.ev[3][0])) for n in g.nodes if n.kind == "ev" and n.ev)
        f = fn(j)
        for cn in [n for n in g.nodes if n.kind == "catch"]:
            if "WithoutCleanup" in repr(getattr(cn, "ev", None)) or "WithoutCleanup" in repr(cn.__dict__ if hasattr(cn, "__dict__") else [getattr(cn, s, None) for s in cn.__slots__ if s not in ("succ", "pred")]):
                continue
            ids, work, hit, out = set(), [cn], False, False
            while work:
                x = work.pop()
                if x.id in ids:
                    continue
                ids.add(x.id)
                if x.kind == "ev" and x.ev and is_call(x.ev, "setStateImpl"):
                    hit = True
                    continue
                if x.kind in ("exit", "excexit"):
                    out = True
                    continue
                work += [s for s, l in x.succ]
            c.site(r, "%s:%d" % (j["f"], cn.line), "handler restores=%s" % hit)
            if not hit:
                c.bad(r, j["q"], "no restore", j["f"], cn.line, "a refused forest state is not undone")


def stop(c, F, r, LA):
    fl = FO + "stop_flag_"
    cond = FO + "stop_flag_cond_"
    check_guarded(c, LA, r, {fl: cond}, skip_funcs=(FO + "(ctor)", FO + "initDefaultState"), read_ok=(fl,))
    check_waits(c, LA, r, lambda j: j["q"].startswith(FO))
    for j in F.fns(FO + "clearStopFlag"):
        g = build(F, j, inl)
        m = {"clr": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], fl) and f.eval(ev[3]) is False else 0,
             "wake": lambda ev, f, n: 1 if is_call(ev, "broadcast") else 0}
        outs, res = outcomes(g, m)
        for o in outs:
            if o.kind == "exit":
                c.site(r, "%s:%d" % (j["f"], j["l"]), str(o.counts))
                if not o.counts["clr"]:
                    report_path(c, r, g, res, o, j["q"], "not cleared", "clearing the stop flag leaves it raised")
                if not o.counts["wake"]:
                    report_path(c, r, g, res, o, j["q"], "no wakeup", "clearing the stop flag does not wake all waiting threads")
    for j in F.fns(FO + "waitOnStopFlag"):
        g = build(F, j, inl)
        res = run(g, 0, lambda a, n, f: [a], only=about("stop_flag_"))
        for (nid, a), fss in res.seen.items():
            if g.nodes[nid].kind == "exit":
                for fs in fss:
                    v = Facts(fs).eval(("m", ("this",), fl))
                    c.site(r, "%s:%d" % (j["f"], j["l"]), "returns with flag %s" % v)
                    if v is True:
                        c.bad(r, j["q"], "returns raised", j["f"], j["l"], "waiting for the stop flag ends while it is raised", trace(g, res, nid, a, fs))
        if not any(n.kind == "ev" and n.ev and is_call(n.ev, "wait") for n in g.nodes):
            c.bad(r, j["q"], "no wait", j["f"], j["l"], "waiting for the stop flag does not wait")
    for j in F.fns(FO + "processBreakpoint"):
        g = build(F, j, inline_near(FO, no=("waitOnStopFlag",)))

        def step(a, n, facts):
            ev = n.ev
            if n.kind == "ev" and ev:
                if ev[0] == "asg" and denotes(ev[2], fl) and facts.eval(ev[3]) is True:
                    return [(1, a[1], a[2])]
                if ev[0] == "call" and "node_breakpoint_callback" in repr(ev[:3]) or ev[0] == "icall":
                    return [(a[0], a[1] or (0 if a[0] else 2), 1)]
                if is_call(ev, "waitOnStopFlag"):
                    return [(a[0], 2 if not a[0] else max(a[1], 1), a[2])]
            return [a]
        res = run(g, (0, 0, 0), step, only=about("stop_flag_", "callback"))
        for (nid, a), fss in res.seen.items():
            if g.nodes[nid].kind == "exit":
                c.site(r, "%s:%d" % (j["f"], j["l"]), str(a))
                if not a[0] or a[1] == 2:
                    c.bad(r, j["q"], "not raised", j["f"], j["l"], "a node stops at a breakpoint without the stop flag being raised first", trace(g, res, nid, a, next(iter(fss))))
                if a[1] == 0:
                    c.bad(r, j["q"], "does not wait", j["f"], j["l"], "a node does not wait at a breakpoint", trace(g, res, nid, a, next(iter(fss))))


def links(c, F, r):
    N = "Meq::Node::"
    for j in F.fns(N + "attachInitRecord"):
        g = build(F, j, inline_near(N, files=("MEQ/src/Node_init.cc",)))
        CI = ("m", ("this",), N + "child_indices_")
        csz = ("call", "std::vector::size", CI, (), "ce", "unsigned long", "std::vector", "")
        mn, mx = ("m", ("this",), N + "check_min_children_"), ("m", ("this",), N + "check_max_children_")
        res = run(g, 0, lambda a, n, f: [a], stable=always, split=True, cap=200, only=about("child_indices_", "check_min", "check_max", "nchildren"))
        done = set()
        rep = rep_once(c, r, g, res, done, j)
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind != "exit":
                continue
            for fs in fss:
                facts = Facts(fs)
                A = fset(facts)
                lo = [v for k, v in A if "check_min_children_" in repr(k) and k[0] == "lt" and "this" in repr(k) and ("size" in repr(k) or "nchildren" in repr(k))]
                hi = [v for k, v in A if "check_max_children_" in repr(k)]
                c.site(r, "%s:%d" % (j["f"], j["l"]), "accepted with checks of min=%d max=%d" % (len(lo), len(hi)))
                if not lo:
                    rep("a node with too few children is accepted", n, a, fs)
                if not hi:
                    rep("a node with too many children is accepted", n, a, fs)
        # mandatory children given: a throw/Fail depends on child_indices_[i] < 0 inside a loop up to the minimum
        ok = False
        for n in g.nodes:
            if n.kind == "branch" and n.ev and "child_indices_" in repr(n.ev) and any(x[0] in ("idx",) or x[0] == "call" and last(x[1]) in ("operator[]", "at") for x in walk(n.ev)):
                for fs in [s for (nid, a), s in res.seen.items() if nid == n.id]:
                    for x in fs:
                        if any("check_min_children_" in repr(k) and k[0] == "lt" for k, v in fset(Facts(x))):
                            ok = True
        if not ok:
            c.bad(r, j["q"], "mandatory", j["f"], j["l"], "mandatory children are not checked for being given")
    for j in F.fns(N + "setupNurseries"):
        g = build(F, j, inline_near(N, files=("MEQ/src/Node_init.cc",)))
        res = run(g, 0, lambda a, n, f: [a], stable=always, split=True, cap=100, only=about("child_indices_", "stepchild_indices_", "children_", "num_children", "i"))
        sides = set()
        for (nid, a), fss in res.seen.items():
            n = g.nodes[nid]
            if n.kind == "ev" and n.ev and n.ev[0] == "call" and last(n.ev[1]) == "setChild":
                s = repr(n.ev)
                which = "step" if "stepchild_indices_" in s else ("child" if "child_indices_" in s else "?")
                sides.add(which)
                c.site(r, "%s:%d" % (n.file, n.line), pp(n.ev)[:120])
                if which == "?":
                    continue
                # slot number == position in the index vector
                pos = n.ev[3][0]
                ixs = [x[3][0] if x[0] == "call" else x[2] for x in walk(n.ev[3][1]) if (x[0] == "call" and last(x[1]) in ("operator[]", "at") and "child_indices_" in repr(x[2])) or (x[0] == "idx" and "child_indices_" in repr(x[1]))]
                if ixs and strip_cast(ixs[0]) != strip_cast(pos) and ixs[0] != pos:
                    c.bad(r, j["q"], "slot", n.file, n.line, "a child is put into slot %s although its index was given at position %s" % (pp(pos), pp(ixs[0])))
                rcv = repr(n.ev[2])
                for fs in fss:
                    rv = "".join(repr(Facts(fs).val(x)) for x in walk(n.ev[2]) if x[0] == "v")
                    t = rcv + rv
                    if which == "step" and "stepchildren" not in t and "children" in t:
                        c.bad(r, j["q"], "step into children", n.file, n.line, "a step child is registered as a child")
                    if which == "child" and "stepchildren" in t:
                        c.bad(r, j["q"], "child into step", n.file, n.line, "a child is registered as a step child")
                    break
        for k, nm in (("child", "children"), ("step", "step children")):
            if k not in sides and "?" not in sides:
                c.bad(r, j["q"], "unlinked " + k, j["f"], j["l"], "%s named in the init record are never linked" % nm)
        for which, vec in (("child", N + "child_indices_"), ("step", N + "stepchild_indices_")):
            pass
    for j in F.fns("Meq::NodeNursery::setChild"):
        g = build(F, j, inline_near("Meq::NodeNursery::"))
        m = {"att": lambda ev, f, n: 1 if is_call(ev, "attach", "operator<<=", "operator=") and ev[2] is not None and denotes(ev[2], "Meq::NodeNursery::children_") else 0,
             "en": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], "Meq::NodeNursery::child_enabled_") and f.eval(ev[3]) is True or is_call(ev, "operator=") and ev[2] is not None and denotes(ev[2], "Meq::NodeNursery::child_enabled_") else 0}
        outs, res = outcomes(g, m, stable=always, split=True)
        for o in outs:
            if o.kind == "exit":
                c.site(r, "%s:%d" % (j["f"], j["l"]), str(o.counts))
                if o.counts["att"] != 1:
                    report_path(c, r, g, res, o, j["q"], "attached %d" % o.counts["att"], "setting a child attaches it %d times" % o.counts["att"])
                known = any(k[0] == "eq" and k[1] is None and v and ("valid" in repr(k[2]).lower()) for k, v in fset(o.facts))
    for nm in ("init", "relinkParents"):
        for j in F.fns(N + nm):
            g = build(F, j, inline_near(N, files=("MEQ/src/Node_init.cc",), no=("setupNurseries", "setStateImpl", "relinkParents", "checkChildren")))
            att = [n for n in g.nodes if n.kind == "ev" and n.ev and is_call(n.ev, "attach", "operator<<=") and n.ev[2] is not None and denotes(n.ev[2], N + "parents_")]
            for n in att:
                c.site(r, "%s:%d" % (n.file, n.line), pp(n.ev)[:120])
            if not att:
                c.bad(r, j["q"], "no parents", j["f"], j["l"], "a node is not linked to its parents")
    for j in F.fns(N + "init"):
        f = fn(j)
        g = build(F, j)
        for cn in [n for n in g.nodes if n.kind == "catch"]:
            miss = path_lacks_exc(g, cn, lambda ev: ev[0] == "asg" and denotes(ev[2], N + "control_status_") or is_call(ev, "setControlStatus"))
            c.site(r, "%s:%d" % (j["f"], cn.line), "handler of a failed initialization")
            if miss:
                c.bad(r, j["q"], "active", j["f"], cn.line, "a node that failed to initialize stays active")


def path_lacks_exc(g, start, pred):
    seen, work = set(), [start]
    while work:
        n = work.pop()
        if n.id in seen:
            continue
        seen.add(n.id)
        if n.kind == "ev" and n.ev and pred(n.ev):
            continue
        if n.kind in ("exit", "excexit"):
            return True
        # errors raised while handling the error count only through the final rethrow
        for s, lab in n.succ:
            exc = lab is not None and (lab == "exc" or lab[0] == "exc")
            if exc and n.ev and n.ev[0] != "throw":
                continue
            work.append(s)
    return False
