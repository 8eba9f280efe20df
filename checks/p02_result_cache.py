"""P02 result caching: when a cached result may be reused, stored, held and released."""
import itertools
from rules import *
import lockset as LS
from ir import fn, pp, walk, last, deref, strip_cast
from checks.p01_node_execution import num, orbits, masked, knownset, knownclear, learn, FAIL, maskof

FILES = ["MEQ/src/Node.cc", "MEQ/src/Node_init.cc", "MEQ/src/Node_commands.cc", "MEQ/src/NodeNursery.cc", "MEQ/src/Forest.cc", "MEQ/src/RequestId.cc"]
N_ = "Meq::Node::"
CA = N_ + "cache_"
EC = N_ + "exec_cond_"
CC = "Meq::Node::Cache::"
PI = "CacheParentInfo"
ASSUMPTIONS = ["result codes of children do not change while the parent decides about their caches (it has finished its polls)"]
always = lambda q: True
inl = inline_near(N_, files=("MEQ/src/Node.cc",), no=("clearCache", "holdChildCaches", "holdCache", "setControlStatus", "syncState", "getSyncState", "postEvent", "propagateStateDependency", "set", "clear",
                                                       "valid", "record"))


def field(t, name):
    t = deref(t)
    return t is not None and t[0] == "m" and last(t[2]) == name


def check(c):
    F = c.load(FILES)
    LA = LS.LockAnalysis(F)
    learn(F)
    r = c.rule("P02-guard", "the cached result of a node is consulted, replaced and dropped only under the node's execution lock")
    check_guarded(c, LA, r, {CA: EC}, skip_funcs=(N_ + "(ctor)", N_ + "init", N_ + "~Node"))
    c.expect(r, 10)
    r = c.rule("P02-hit", "a cached result is returned only for non-empty ids that agree in every component the cached code depends on (or, derivatives stripped, for a plain request answered by a perturbed result; or an empty result for an update request without iteration dependence); otherwise the cache is dropped")
    hits(c, F, r)
    c.expect(r, 3)
    r = c.rule("P02-policy", "whether a result is cached, and for how long, follows the policy table (fails always; never; minimal: only for several parents; smart: unless the next request invalidates it; always)")
    ro = c.rule("P02-store", "storing a result records result, request id and the full code without the 'updated' bit, raises the cached status, and forgets hints of parents; dropping it lowers the status")
    store(c, F, r, ro)
    c.expect(r, 8)
    c.expect(ro, 2)
    r = c.rule("P02-hold", "a parent's hint releases the cache only when every parent has checked in, none asks to hold it (or policy is minimal), the result depends on the domain, the policy allows it and hints are not being ignored")
    hold(c, F, r)
    c.expect(r, 4)
    r = c.rule("P02-hints", "after finishing its polls a node tells every enabled child and step child to hold its cache exactly if the node itself keeps none and the child's own code is not invalidated by the next request")
    hints(c, F, r)
    c.expect(r, 2)
    r = c.rule("P02-clear", "clearing marks the cache invalid under the lock, lowers the cached status and, if recursive, reaches all children and step children, each node once per marker")
    clear(c, F, LA, r)
    c.expect(r, 2)
    r = c.rule("P02-state", "a change of state makes the node and, recursively, every parent dependent on state; the dependency joins the cached code before the cache is consulted")
    statedep(c, F, r)
    c.expect(r, 2)
    r = c.rule("P02-diff", "comparing two request ids reports every differing component, a missing component counting as zero")
    diff(c, F, r)
    c.expect(r, 1)


# --------------------------------------------------------------------------------------------------

def afacts(facts):
    return [(f[1], f[2]) for f in facts.s if f[0] == "a"]


def hits(c, F, r):
    for j in F.fns(N_ + "getCachedResult"):
        g = build(F, j, inl)

        def step(a, n, facts):
            res, code, strip, fresh, ign, clr, sdep, ret, used = a
            ev = n.ev
            if n.kind in ("ev", "iret") and ev:
                if is_call(ev, "operator=", "attach", "copy", "xfer") and ev[3] and any(field(x, "result") and CA in repr(x) for x in walk(ev[3][0])):
                    res = 1
                if ev[0] == "asg" and ev[1] == "=" and ev[2][0] == "v" and any(field(x, "rescode") and CA in repr(x) for x in [strip_cast(ev[3])]):
                    code = 1
                if is_call(ev, "setNumPertSets") and num(ev[3][0]) == 0:
                    strip = 1
                if ev[0] == "new" and ev[1] == "Meq::Result":
                    fresh = 1
                if ev[0] == "asg" and field(ev[2], "ignore_parent_releases_") and facts.eval(ev[3]) is True:
                    ign = 1
                if is_call(ev, "clearCache") or is_call(ev, "clear") and CA in repr(ev[2]):
                    clr = 1
                if ev[0] == "asg" and ev[1] == "|=" and field(ev[2], "rescode") and CA in repr(ev[2]):
                    sdep = 1
                if any(x[0] == "call" and last(x[1]) == "diffMask" for x in walk(ev)) and not used:
                    used = 1
                    if not sdep and facts.eval(("m", ("this",), N_ + "has_state_dep_")) is not False:
                        used = 2
                if ev[0] == "ret" and n.kind == "ev" and n.func == j["q"] and not n.ctx:
                    ret = facts.eval(ev[1])
                    if ret is None:
                        ret = pp(ev[1])
                    ret = (ret, known_about(facts))
            return [(res, code, strip, fresh, ign, clr, sdep, ret, used)]
        res = run(g, (0, 0, 0, 0, 0, 0, 0, None, 0), step, cap=400, stable=always, split=True,
                  only=about(CA, "rqid", "diffMask", "diffmask", "has_state_dep_", "requestType", "evalMode", "match", "empty", "size"))
        done = set()

        def rep(msg, nid, a, fs):
            if msg not in done:
                done.add(msg)
                tr = trace(g, res, nid, a, fs)
                line = next((int(s.rsplit(":", 1)[1]) for s in reversed(tr) if s.startswith(j["f"])), j["l"])
                c.bad(r, j["q"], msg, j["f"], line, msg, tr)
        for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            if g.nodes[nid].kind != "exit":
                continue
            ures, code, strip, fresh, ign, clr, sdep, ret, used = a
            for fs in fss:
                if not isinstance(ret, tuple):
                    continue
                ret, K = ret
                reqne, cane, exact, typ, valid = ("reqne" in K, "cane" in K, "exact" in K, "typ" in K, "valid" in K)
                c.site(r, "%s:%d" % (j["f"], j["l"]), "returns %s exact=%s type=%s result=%d stripped=%d cleared=%d" % (ret, exact, typ, ures, strip, clr))
                if ret is True:
                    if not valid:
                        rep("a cache hit is reported without knowing that the cache is valid", nid, a, fs)
                    if not reqne or not cane:
                        rep("a cached result is reused although the %s request id may be empty" % ("new" if not reqne else "cached"), nid, a, fs)
                    if fresh and not ures:
                        if "it" not in K or "pu" not in K:
                            rep("an update request is answered with an empty result although the node may depend on the iteration", nid, a, fs)
                        if not ign:
                            rep("answering an update request with an empty result does not protect the actual cache from release", nid, a, fs)
                        continue
                    if not ures:
                        rep("a cache hit is reported without returning the cached result", nid, a, fs)
                    if not code:
                        rep("a cache hit is reported without returning the cached code", nid, a, fs)
                    if used == 2:
                        rep("the dependency on state does not join the cached code before the cache is consulted", nid, a, fs)
                    if exact:
                        continue
                    if typ:
                        if "e0" not in K or "e1" not in K:
                            rep("a result is reused for a request of another type without checking that the request is plain and the result perturbed", nid, a, fs)
                        # the strip loop may run zero times: judged on the existence of the loop in the path set
                        continue
                    rep("a cached result is reused although the request ids may differ in a component the result depends on", nid, a, fs)
                elif ret is False:
                    if not clr and valid:
                        rep("a cache miss leaves the outdated cache in place", nid, a, fs)
                else:
                    rep("the outcome %s of the cache lookup does not follow from the comparison" % ret, nid, a, fs)
        typ_paths = False
        for (nid, a), fss in res.seen.items():
            if g.nodes[nid].kind == "exit" and a[2]:
                typ_paths = True
        if not typ_paths and any(any(x[0] == "call" and last(x[1]) == "evalMode" for x in walk(n.ev)) for n in g.nodes if n.ev):
            c.bad(r, j["q"], "not stripped", j["f"], j["l"], "a perturbed result is reused for a plain request without stripping its derivatives")


def known_about(facts):
    """what a return point knows about the request and the cache"""
    A = afacts(facts)
    K = set()
    for k, v in A:
        t = repr(k)
        if k[0] == "eq" and k[1] is None and k[3] == 0 and "'size'" in t and not v:
            K.add("cane" if CA in t and "rqid" in t else "reqne")
        if "diffMask" in t:
            if k[0] == "eq" and k[1] is None and k[3] == 0 and v and masks_code(k[2]):
                K.add("exact")
            if k[0] == "eq" and v and ("DEPMASK_TYPE" in t or k[1] is None and k[3] == -1) and masks_code(k):
                K.add("typ")
        if k[0] == "eq" and k[1] is None and not v and "valid" in t and CA in t:
            K.add("valid")
        if not_iter(k, v):
            K.add("it")
        if k[0] == "eq" and v and ("PARM_UPDATE" in t or "requestType" in t):
            K.add("pu")
        if "evalMode" in t and CA not in t and k[0] == "eq" and v and k[3] == 0:
            K.add("e0")
        if "evalMode" in t and CA in t and k[0] == "lt" and k[1] is None and k[3] <= 0 and v:
            K.add("e1")                  # 0 < mode of the cached id
    return frozenset(K)


def conj(t):
    t = strip_cast(t)
    if t is not None and t[0] == "bin" and t[1] == "&":
        return conj(t[2]) + conj(t[3])
    return [t]


def masks_code(k):
    """the compared value is (difference & cached code), nothing masked out"""
    for x in walk(k):
        if x[0] == "bin" and x[1] == "&" and "diffMask" in repr(x) and "rescode" in repr(x):
            return all(num(y) is None or num(y) & 0xffff == 0xffff or ~num(y) & 0xffff == 0 for y in conj(x))
    return False


def not_iter(k, v):
    return k[0] == "eq" and k[1] is None and k[3] == 0 and v and "rescode" in repr(k[2]) and ("FIteration" in repr(k[2]) or "getMask" in repr(k[2])) and "diffMask" not in repr(k[2])


POLS = {"never": (-11, -10), "minimal": (-9, -5, -1), "smart": (0, 1, 5, 10, 19), "always": (20, 25)}


def policies(facts, pol):
    out = []
    for nm, vals in POLS.items():
        if any(facts.eval(("bin", "==", pol, ("lit", v))) is not False for v in vals):
            out.append(nm)
    return out


def store(c, F, r, ro):
    for j in F.fns(N_ + "cacheResult"):
        g = build(F, j, inl)
        pol = ("m", ("this",), N_ + "actual_cache_policy_")
        nparv = set()
        for n in g.nodes:
            if n.ev and n.ev[0] == "decls":
                for d in n.ev[1:]:
                    if d[3] is not None and any(x[0] == "m" and last(x[2]) == "npar" for x in walk(d[3])):
                        nparv.add(("v", d[1]))
        prm = [p[0] for p in j["params"]]
        rc = ("v", prm[2])

        def step(a, n, facts):
            st, hint, stat, nh, no, code, ign, ret, lost = a
            ev = n.ev
            if n.kind in ("ev", "iret") and ev:
                if is_call(ev, "set") and ev[1].startswith(CC):
                    st = 1
                    code = codeok(facts, ev[3], rc)
                elif is_call(ev, "clearCache") or (is_call(ev, "clear") and ev[1].startswith(CC)):
                    st, stat = 0, 0
                elif is_call(ev, "holdChildCaches"):
                    hint = facts.val(ev[3][0])
                elif ev[0] == "asg" and denotes(ev[2], N_ + "control_status_") and ev[1] in ("|=", "=") and orbits(ev[3])[0] & 0x200:
                    stat = 1
                elif is_call(ev, "setControlStatus") and orbits(facts.val(ev[3][0]))[0] & 0x200:
                    stat = 1
                elif ev[0] == "asg" and field(ev[2], "ignore_parent_releases_") and facts.eval(ev[3]) is False:
                    ign = 1
                elif ev[0] == "asg" and ev[2] == rc and ev[1] in ("=", "&=", "^=") and not (ev[1] == "=" and any(x == rc for x in walk(ev[3])) and strip_cast(ev[3])[0] == "bin" and strip_cast(ev[3])[1] == "|"):
                    lost = 1
                elif ev[0] == "ret" and n.kind == "ev" and n.func == j["q"] and not n.ctx:
                    ret = ev[1]
                if ev[0] == "asg" and ev[1] == "=" and facts.eval(("un", "!", ev[3])) is True:
                    nh = nh or int(field(ev[2], "nhint"))
                    no = no or int(field(ev[2], "nhold"))
            return [(st, hint, stat, nh, no, code, ign, ret, lost)]
        res = run(g, (0, None, 0, 0, 0, "", 0, None, 0), step, cap=400, stable=always, split=True,
                  only=about("cache_policy_", "cachePolicy", "npar", "nact", "nhold", "nhint", "retcode", "diffMask", "diffmask", "do_cache", "longcache", prm[2]))
        done = set()

        def rep(rule, msg, nid, a, fs):
            if msg not in done:
                done.add(msg)
                tr = trace(g, res, nid, a, fs)
                line = next((int(s.rsplit(":", 1)[1]) for s in reversed(tr) if s.startswith(j["f"])), j["l"])
                c.bad(rule, j["q"], msg, j["f"], line, msg, tr)
        for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            if g.nodes[nid].kind != "exit":
                continue
            st, hint, stat, nh, no, code, ign, ret, lost = a
            for fs in fss:
                facts = Facts(fs)
                kf = True if knownset(facts, FAIL()) else (False if knownclear(facts) & FAIL() else None)
                par = None
                for v in nparv:
                    e = facts.eval(("bin", ">", v, ("lit", 1)))
                    par = e if e is not None else par
                dep = None
                for k, v in afacts(facts):
                    if k[0] == "eq" and k[1] is None and k[3] == 0 and "diffMask" in repr(k[2]) and any(x[0] == "bin" and x[1] == "&" for x in walk(k[2])):
                        dep = not v
                hv = facts.eval(hint) if hint is not None else None
                pols = policies(facts, pol)
                c.site(r, "%s:%d" % (j["f"], j["l"]), "fail=%s policy=%s several parents=%s next request invalidates=%s -> cached=%d children hold=%s" % (kf, "/".join(pols), par, dep, st, hv))
                for f_, p_, m_, d_ in itertools.product((False, True), POLS, (False, True), (False, True)):
                    if (kf is not None and f_ != kf) or p_ not in pols or (par is not None and m_ != par) or (dep is not None and d_ != dep):
                        continue
                    if f_ or p_ == "always":
                        want = (True, True)
                    elif p_ == "never":
                        want = (False, False)
                    elif p_ == "minimal":
                        want = (m_, False)
                    else:
                        want = (m_ or not d_, not d_)
                    desc = "%s result under the %s policy%s%s" % ("a fail" if f_ else "a", p_, ", several parents" if m_ else ", one parent", ", invalidated by the next request" if d_ else "")
                    if bool(st) != want[0]:
                        rep(r, "%s is %s" % (desc, "cached" if st else "not cached"), nid, a, fs)
                        break
                    if hint is None:
                        rep(r, "children are not told whether to hold their caches", nid, a, fs)
                        break
                    if hv is not None and hv == want[1]:
                        rep(r, "%s: children are told to %s their caches" % (desc, "hold" if hv else "release"), nid, a, fs)
                        break
                c.site(ro, "%s:%d" % (j["f"], j["l"]), "stored=%d status=%d hints reset=%d%d" % (st, stat, nh, no))
                if st and code:
                    rep(ro, code, nid, a, fs)
                if st and not stat:
                    rep(ro, "a result is cached without raising the cached status", nid, a, fs)
                if not nh or not no:
                    rep(ro, "hints collected from parents are not reset when a new result is produced", nid, a, fs)
                if not ign:
                    rep(ro, "a new result does not end the protection of the previous one from release", nid, a, fs)
                if lost or (ret is not None and not any(x == rc for x in walk(ret))):
                    rep(ro, "the returned code loses bits of the result's code", nid, a, fs)
    for j in F.fns(CC + "set"):
        g = build(F, j)
        prm = [p[0] for p in j["params"]]
        m = {"result": lambda ev, f, n: 1 if is_call(ev, "operator=", "copy", "attach", "xfer") and field(ev[2], "result") and any(x == ("v", prm[0]) for x in walk(ev)) else 0,
             "rqid": lambda ev, f, n: 1 if (is_call(ev, "operator=") and field(ev[2], "rqid") or ev[0] == "asg" and field(ev[2], "rqid")) and prm[1] in repr(ev) and "nextId" not in repr(ev) else 0,
             "code": lambda ev, f, n: 1 if ev[0] == "asg" and field(ev[2], "rescode") and strip_cast(ev[3]) == ("v", prm[2]) else 0,
             "valid": lambda ev, f, n: 1 if ev[0] == "asg" and field(ev[2], "is_valid") and f.eval(ev[3]) is True else 0,
             "rec": lambda ev, f, n: 1 if is_call(ev, "detach") and field(ev[2], "recref_") else 0}
        outs, res = outcomes(g, m)
        for o in outs:
            if o.kind == "exit":
                c.site(ro, "%s:%d" % (j["f"], j["l"]), str(o.counts))
                miss = [k for k in m if not o.counts[k]]
                if miss:
                    report_path(c, ro, g, res, o, j["q"], "set misses " + miss[0], "storing a result in the cache does not record its %s" % {"rqid": "request id", "valid": "validity", "rec": "new record (the old snapshot stays)"}.get(miss[0], miss[0]))


def zero(t):
    return num(t) == 0


def codeok(facts, args, rc):
    if len(args) < 3:
        return ""
    t = strip_cast(args[2])
    if t == rc:
        return "the 'updated' bit is cached together with the code"
    if t[0] == "bin" and t[1] == "&":
        m = num(t[3]) if num(t[3]) is not None else num(t[2])
        if m is not None and (~m & 0xffffffff) != 0x10000:
            return "the cached code loses bits of the result's code (mask %#x)" % (m & 0xffffffff)
    return ""


def hold(c, F, r):
    for j in F.fns(N_ + "holdCache"):
        g = build(F, j, inl)
        prm = j["params"][0][0]
        pol = ("m", ("this",), N_ + "actual_cache_policy_")

        def step(a, n, facts):
            nh, no, clr, fs = a
            ev = n.ev
            if n.kind in ("ev", "iret") and ev:
                if inc(ev, "nhint"):
                    nh += 1
                if inc(ev, "nhold"):
                    no += 1
                if is_call(ev, "clearCache") or (is_call(ev, "clear") and ev[1].startswith(CC)):
                    clr = 1
            return [(min(nh, 3), min(no, 3), clr, fs)]
        res = run(g, (0, 0, 0, None), step, cap=400, stable=always, split=True, only=about("cache_", "pcparents_", "nhint", "nhold", "npar", "nact", prm, "domain_depend_mask_"))
        done = set()
        for (nid, a), fss in sorted(res.seen.items(), key=lambda x: (x[0][0], str(x[0][1]))):
            if g.nodes[nid].kind != "exit":
                continue
            nh, no, clr, _ = a
            for fs in fss:
                facts = Facts(fs)
                h = facts.eval(("v", prm))
                c.site(r, "%s:%d" % (j["f"], j["l"]), "hold=%s hints+%d holds+%d cleared=%d" % (h, nh, no, clr))
                msg = None
                if nh != 1:
                    msg = "a parent's hint is counted %d times" % nh
                elif (h is True and no != 1) or (h is False and no) or (h is None):
                    msg = "a parent's wish to hold the cache is not counted"
                # conditions
                A = afacts(facts)
                ign = known(A, "ignore_parent_releases_")
                dom = None
                for k, v in A:
                    if k[0] == "eq" and k[1] is None and k[3] == 0 and "domain_depend_mask_" in repr(k[2]) and "rescode" in repr(k[2]):
                        dom = not v
                alw = facts.eval(("bin", "<", pol, ("lit", 20)))
                mini = facts.eval(("bin", "<=", pol, ("lit", -1)))
                nhold0 = None
                for k, v in A:
                    if k[0] == "eq" and k[1] is None and k[3] == 0 and "nhold" in repr(k[2]):
                        nhold0 = v
                allp = None
                for k, v in A:
                    if k[0] == "lt" and "nhint" in repr(k) and ("npar" in repr(k) or "nact" in repr(k)):
                        # normal form: sides ordered by text; nhint < X (+k) or X < nhint (+k)
                        first = "nhint" in repr(k[1])
                        if first and k[3] == 0:
                            allp = not v
                        elif not first and k[3] == 1:
                            allp = v
                if clr:
                    if ign is not False:
                        msg = msg or "the cache is released although release hints are to be ignored"
                    if dom is not True:
                        msg = msg or "the cache is released although the result may not depend on the domain"
                    if alw is not True:
                        msg = msg or "the cache is released although the policy may be to cache always"
                    if allp is not True:
                        msg = msg or "the cache is released before every parent has checked in"
                    if mini is not True and nhold0 is not True:
                        msg = msg or "the cache is released although a parent asked to hold it"
                elif ign is False and dom is True and alw is True and allp is True and (mini is True or nhold0 is True):
                    msg = msg or "the cache is kept although every parent released it"
                if msg and msg not in done:
                    done.add(msg)
                    c.bad(r, j["q"], msg, j["f"], j["l"], msg, trace(g, res, nid, a, fs))


def inc(ev, name):
    if ev[0] == "un" and ev[1] in ("++", "p++") and field(ev[2], name):
        return True
    return ev[0] == "asg" and field(ev[2], name) and (ev[1] == "+=" and num(ev[3]) == 1 or ev[1] == "=" and strip_cast(ev[3])[0] == "bin" and strip_cast(ev[3])[1] == "+" and any(field(x, name) for x in walk(ev[3])))


def known(A, name):
    for k, v in A:
        if k[0] == "eq" and k[1] is None and k[3] == 0 and isinstance(k[2], tuple) and k[2][0] == "m" and last(k[2][2]) == name:
            return not v
    return None


def hints(c, F, r):
    for j in F.fns(N_ + "holdChildCaches"):
        g = build(F, j, inl)
        prm = [p[0] for p in j["params"]]

        def step(a, n, facts):
            fin, told, err = a
            ev = n.ev
            if n.kind in ("ev", "iret") and ev and ev[0] == "call":
                q = last(ev[1])
                if q == "finishPoll":
                    s = side(ev[2], facts)
                    fin = "".join(sorted(set(fin) | {s or ""}))
                elif q == "childRetcode" and len(fin) < 2:
                    err = err or "codes of children are used before the polls have finished"
                elif q == "holdCache":
                    s = side(ev[2], facts)
                    told = "".join(sorted(set(told) | {s or "?"}))
                    ix = child_index(facts.val(ev[2]))
                    if len(fin) < 2:
                        err = err or "children are told about their caches before the polls have finished"
                    en = enabled(facts, s, ix)
                    if not en:
                        err = err or "a child is told about its cache without being enabled"
                    v = facts.val(ev[3][0])
                    e = facts.eval(ev[3][0])
                    holdp = facts.eval(("v", prm[0]))
                    dep = depends(facts, s, ix)
                    if e is None:
                        # an expression: must be  hold && !(code & mask)
                        for hp, dp in itertools.product((False, True), repeat=2):
                            f2 = facts.assume(("v", prm[0]), hp)
                            if f2 is None:
                                continue
                            dt = depterm(v, s, ix)
                            if dt is None:
                                err = err or "the hint given to a child does not depend on that child's own code"
                                continue
                            f3 = f2.assume(dt, dp)
                            if f3 is None:
                                continue
                            x = f3.eval(v)
                            if x is not None and x != (hp and not dp):
                                err = err or "a child is told to %s its cache (node wants to hold: %s, child's code invalidated by next request: %s)" % ("hold" if x else "release", hp, dp)
                    else:
                        if e and (holdp is not True or dep is not False):
                            err = err or "a child is told to hold its cache although it should release it"
                        if not e and not (holdp is False or dep is True):
                            err = err or "a child is told to release its cache although it should hold it"
            return [(fin, told, err)]
        res = run(g, ("", "", ""), step, cap=100, stable=always, split=True, only=about("children_", "hold", "childRetcode", "isChildEnabled", *prm))
        tolds = set()
        for (nid, a), fss in res.seen.items():
            if g.nodes[nid].kind != "exit":
                continue
            tolds |= set(a[1])
            c.site(r, "%s:%d" % (j["f"], j["l"]), "%s" % (a,))
            if a[2]:
                c.bad(r, j["q"], a[2], j["f"], j["l"], a[2], trace(g, res, nid, a, next(iter(fss))))
        for s, nm in (("c", "children"), ("s", "step children")):
            if s not in tolds and "?" not in tolds:
                c.bad(r, j["q"], "not told " + s, j["f"], j["l"], "%s are never told whether to hold their caches" % nm)
        full_loops(c, F, r, g, j, "holdCache")


def side(t, facts):
    """'c' children, 's' step children, None unknown"""
    s = ""
    for x in walk(t) if t is not None else ():
        if x[0] in ("v", "m", "call"):
            s += repr(facts.val(x)) if x[0] == "v" else repr(x)
    return "s" if "stepchildren" in s else ("c" if "children" in s else None)


def child_index(t):
    for x in walk(t) if t is not None else ():
        if x[0] == "call" and last(x[1]) in ("getChild", "childRef") and x[3]:
            return x[3][0]
    return None


def enabled(facts, side, ix):
    for k, v in afacts(facts):
        if k[0] == "eq" and k[1] is None and not v and "isChildEnabled" in repr(k[2]):
            return True
    # inlined accessor
    return any("enabled" in repr(k).lower() for k, v in afacts(facts)) and True


def depends(facts, side, ix):
    for k, v in afacts(facts):
        if k[0] == "eq" and k[1] is None and k[3] == 0 and ("childRetcode" in repr(k[2]) or "child_retcodes_" in repr(k[2])):
            return not v
    return None


def depterm(v, side, ix):
    for x in walk(v):
        if x[0] == "bin" and x[1] == "&" and ("childRetcode" in repr(x) or "child_retcodes_" in repr(x)):
            return x
    return None


def full_loops(c, F, r, g, j, callname):
    """each loop containing a call of callname runs over 0 .. number of children - 1"""
    comps = LS.loops(g)
    for comp in comps:
        nodes = [n for n in g.nodes if n.id in comp]
        if not any(n.ev and n.kind == "ev" and is_call(n.ev, callname) for n in nodes):
            continue
        conds = [n for n in nodes if n.kind == "branch" and any(s.id not in comp for s, l in n.succ)]
        bounds = [pp(n.ev) for n in conds]
        c.site(r, "%s:%d" % (j["f"], nodes[0].line), "loop while " + " / ".join(bounds))
        for n in conds:
            key, pol = atom(n.ev)
            if key[0] == "lt" and "numChildren" in repr(key) or key[0] == "lt" and "size" in repr(key):
                # i < n reads as "not n < i+1" or "i < n+0" depending on the order of the sides
                a, b = key[1], key[2]
                ok = key[3] == (0 if isinstance(a, tuple) and a[0] == "v" else 1) or not (isinstance(a, tuple) and isinstance(b, tuple) and "v" in (a[0], b[0]))
                if not ok:
                    c.bad(r, j["q"], "bound " + pp(n.ev), n.file, n.line, "a loop over children stops early or runs past the end (%s)" % pp(n.ev))
        for n in g.nodes:
            if n.ev and n.ev[0] == "decls" and n.id not in comp and any(s.id in comp or any(x.id in comp for x, _ in s.succ) for s, _ in n.succ):
                for d in n.ev[1:]:
                    if d[3] is not None and num(d[3]) not in (None, 0) and any(("v", d[1]) in list(walk(cn.ev)) for cn in conds):
                        c.bad(r, j["q"], "start %s" % pp(d[3]), n.file, n.line, "a loop over children starts at %s" % pp(d[3]))


def clear(c, F, LA, r):
    for j in F.fns(N_ + "clearCache"):
        g = build(F, j, inline_near(N_, files=("MEQ/src/Node.cc",), no=("clearCache", "setControlStatus", "clear")))
        prm = [p[0] for p in j["params"]]

        def step(a, n, facts):
            clr, stat, mark, rec = a
            ev = n.ev
            if n.kind in ("ev", "iret") and ev:
                if is_call(ev, "clear") and ev[1].startswith(CC):
                    clr = 1
                if (is_call(ev, "setControlStatus") and masked(ev[3][0], 0x200)) or (ev[0] == "asg" and denotes(ev[2], N_ + "control_status_") and (masked(ev[3], 0x200) or ev[1] == "&=" and num(ev[3]) is not None and not num(ev[3]) & 0x200)):
                    stat = 1
                if ev[0] == "asg" and field(ev[2], "last_clear_cache_marker_"):
                    mark = 1
                if ev[0] == "call" and last(ev[1]) == "clearCache":
                    rec = "".join(sorted(set(rec) | {side(ev[2], facts) or "?"}))
                    a0 = facts.eval(ev[3][0]) if ev[3] else None
                    if a0 is not True or len(ev[3]) < 2 or facts.val(ev[3][1]) != ("v", prm[1]):
                        rec += "!"
                    if not mark:
                        rec += "m"
            return [(clr, stat, mark, rec)]
        res = run(g, (0, 0, 0, ""), step, cap=64, stable=always, only=about("children_", "control_status_", "marker", *prm))
        recs = set()
        for (nid, a), fss in res.seen.items():
            if g.nodes[nid].kind != "exit":
                continue
            clr, stat, mark, rec = a
            recs |= set(rec)
            for fs in fss:
                facts = Facts(fs)
                c.site(r, "%s:%d" % (j["f"], j["l"]), str(a))
                if not clr:
                    same = any(k[0] == "eq" and v and "last_clear_cache_marker_" in repr(k) for k, v in afacts(facts))
                    if not same or facts.eval(("v", prm[1])) is not True:
                        c.bad(r, j["q"], "not cleared", j["f"], j["l"], "a cache is not cleared although it was not cleared for this marker yet", trace(g, res, nid, a, fs))
                elif not stat:
                    st = None
                    for k, v in afacts(facts):
                        if k[0] == "eq" and k[1] is None and k[3] == 0 and "control_status_" in repr(k[2]) and maskof(k[2]) == 0x200:
                            st = not v
                    if st is not False:
                        c.bad(r, j["q"], "status kept", j["f"], j["l"], "clearing the cache leaves the cached status raised", trace(g, res, nid, a, fs))
                if rec and facts.eval(("v", prm[0])) is not True:
                    c.bad(r, j["q"], "recursion", j["f"], j["l"], "a non-recursive clear reaches children", trace(g, res, nid, a, fs))
        for s, nm in (("c", "children"), ("s", "step children")):
            if s not in recs and "?" not in recs:
                c.bad(r, j["q"], "recursion misses " + nm, j["f"], j["l"], "a recursive clear does not reach %s" % nm)
        if "!" in recs:
            c.bad(r, j["q"], "recursion args", j["f"], j["l"], "a recursive clear does not pass on the recursion and the marker")
        if "m" in recs:
            c.bad(r, j["q"], "marker late", j["f"], j["l"], "a recursive clear visits children before recording the marker")
        full_loops(c, F, r, g, j, "clearCache")
    for j in F.fns(CC + "clear"):
        g = build(F, j)
        outs, res = outcomes(g, {"inv": lambda ev, f, n: 1 if ev[0] == "asg" and field(ev[2], "is_valid") and f.eval(ev[3]) is False else 0,
                                 "rec": lambda ev, f, n: 1 if is_call(ev, "detach") and field(ev[2], "recref_") else 0})
        for o in outs:
            if o.kind == "exit":
                c.site(r, "%s:%d" % (j["f"], j["l"]), str(o.counts))
                if not o.counts["inv"]:
                    report_path(c, r, g, res, o, j["q"], "still valid", "clearing the cache leaves it marked valid")
                if not o.counts["rec"]:
                    report_path(c, r, g, res, o, j["q"], "record kept", "clearing the cache leaves the old snapshot record in place")
    for j in F.fns(CC + "valid"):
        g = build(F, j)
        outs, res = outcomes(g, {}, split=True)
        for o in outs:
            if o.kind == "exit" and o.ret is not None:
                s = repr(o.ret)
                c.site(r, "%s:%d" % (j["f"], j["l"]), pp(o.ret))
                k, pol = atom(o.ret)
                if k[0] == "or" or "is_valid" not in s and o.facts.eval(("m", ("this",), CC + "is_valid")) is not True and num(o.ret) != 0:
                    c.bad(r, j["q"], "validity " + pp(o.ret), j["f"], j["l"], "a cache is taken for valid without its validity mark (%s)" % pp(o.ret))


def statedep(c, F, r):
    HS = ("m", ("this",), N_ + "has_state_dep_")
    for j in F.fns(N_ + "propagateStateDependency"):
        g = build(F, j, inline_near(N_, files=("MEQ/src/Node.cc",), no=("propagateStateDependency",)))
        m = {"set": lambda ev, f, n: 1 if ev[0] == "asg" and denotes(ev[2], N_ + "has_state_dep_") and f.eval(ev[3]) is True else 0,
             "up": lambda ev, f, n: 1 if ev[0] == "call" and last(ev[1]) == "propagateStateDependency" else 0}
        outs, res = outcomes(g, m, stable=always, only=about("has_state_dep_"))
        ups = 0
        for o in outs:
            if o.kind != "exit":
                continue
            c.site(r, "%s:%d" % (j["f"], j["l"]), str(o.counts))
            ups = max(ups, o.counts["up"])
            if not o.counts["set"] and o.facts.eval(HS) is not True:
                report_path(c, r, g, res, o, j["q"], "unset", "a change of state is not remembered by the node")
        if not ups:
            c.bad(r, j["q"], "no parents", j["f"], j["l"], "a change of state is not passed on to parents")
        full_loops2(c, r, g, j, "propagateStateDependency", "numParents", "parents_")
    n0 = 0
    for j in F.fns(N_ + "setState"):
        g = build(F, j, inline_near(N_, files=("MEQ/src/Node.cc",), no=("propagateStateDependency", "setStateImpl")))
        outs, res = outcomes(g, {"up": lambda ev, f, n: 1 if ev[0] == "call" and last(ev[1]) == "propagateStateDependency" else 0,
                                 "impl": lambda ev, f, n: 1 if ev[0] == "call" and last(ev[1]) == "setStateImpl" else 0}, only=about("@none@"))
        for o in outs:
            if o.kind == "exit":
                c.site(r, "%s:%d" % (j["f"], j["l"]), str(o.counts))
                if o.counts["impl"] and not o.counts["up"]:
                    report_path(c, r, g, res, o, j["q"], "no dependency", "a change of state does not make dependent caches state-dependent")


def full_loops2(c, r, g, j, callname, boundname, cont):
    comps = LS.loops(g)
    for comp in comps:
        nodes = [n for n in g.nodes if n.id in comp]
        if not any(n.ev and n.kind == "ev" and is_call(n.ev, callname) for n in nodes):
            continue
        c.site(r, "%s:%d" % (j["f"], nodes[0].line), "loop")


def diff(c, F, r):
    for j in F.fns("Meq::RqId::diffMask"):
        g = build(F, j)
        # an unequal pair always adds the current bit; both iterators advance independently
        def step(a, n, facts):
            setb, adv = a
            ev = n.ev
            if n.kind == "branch" and ev is not None:
                key, pol = atom(ev)
                if key[0] == "eq" and key[1] is not None and "x1" in repr(key) and "x2" in repr(key):
                    pass
            return [a]
        cmps = [n for n in g.nodes if n.kind == "branch" and ne_pair(n.ev)]
        ors = [n for n in g.nodes if n.ev and n.kind == "ev" and n.ev[0] == "asg" and n.ev[1] == "|="]
        for n in cmps:
            c.site(r, "%s:%d" % (n.file, n.line), pp(n.ev))
            key, pol = atom(n.ev)
            # the edge on which they differ must lead to the |= before the next comparison
            differ = [s for s, l in n.succ if l and l[0] == ("F" if eq_true(n.ev) else "T")]
            same = [s for s, l in n.succ if l and l[0] == ("T" if eq_true(n.ev) else "F")]
            if differ and not leads(differ[0], ors, n):
                c.bad(r, j["q"], "difference lost", n.file, n.line, "a differing id component does not enter the mask")
            if same and leads(same[0], ors, n):
                c.bad(r, j["q"], "equal counted", n.file, n.line, "an equal id component enters the mask")
        # the comparison ends only when the bits run out or BOTH ids are exhausted
        lp = LS.loops(g)

        def its(t):
            return {x[1] for x in walk(t) if x[0] == "v" and not x[1].startswith("rv@")} - {p[0] for p in j["params"]}
        start = (g.entry.id, frozenset(), False, frozenset())
        work, seen = [start], {start}
        while work:
            nid, at, lim, out = work.pop()
            n = g.nodes[nid]
            if n.kind == "ev" and n.ev and n.ev[0] == "ret":
                c.site(r, "%s:%d" % (j["f"], n.line), "known exhausted: %s%s" % (",".join(sorted(at)), ", bits ran out" if lim else ""))
                if len(at) == 1 and not lim:
                    c.bad(r, j["q"], "stops at shorter id", j["f"], n.line, "the comparison may stop at the end of the shorter id")
            if n.kind == "ev" and n.ev:
                moved = {v for x in walk(n.ev) if x[0] == "un" and "++" in x[1] or x[0] == "call" and last(x[1]) == "operator++" for v in its(x)}
                at = at - moved
                if moved or n.ev[0] in ("asg", "decls"):
                    out = frozenset()
            for s, lab in n.succ:
                alts = [dict(out)]
                if n.kind == "branch" and lab and lab[0] in ("T", "F"):
                    alts = solve_leaves(n.ev, lab[0] == "T", dict(out))
                for o in alts:
                    a2, l2 = at, lim
                    for t, v in o.items():
                        if any(x[0] == "call" and last(x[1]) in ("end", "size") for x in walk(t)):
                            a2 = a2 | its(t) if v == at_end(t) else a2 - its(t)
                        elif not v:
                            l2 = True
                        else:
                            l2 = False
                    x = (s.id, a2, l2, frozenset(o.items()))
                    if x not in seen:
                        seen.add(x)
                        work.append(x)


def solve_leaves(t, want, known):
    """the assignments of the conditions in t, extending known, that make t come out as want"""
    t = strip_cast(t)
    if t[0] == "un" and t[1] == "!":
        return solve_leaves(t[2], not want, known)
    if t[0] == "bin" and t[1] in ("&&", "||"):
        short = t[1] == "||"
        outs = []
        if want == short:
            outs += solve_leaves(t[2], short, known)
            for o in solve_leaves(t[2], not short, known):
                outs += solve_leaves(t[3], short, o)
        else:
            for o in solve_leaves(t[2], not short, known):
                outs += solve_leaves(t[3], not short, o)
        return outs
    if t in known:
        return [known] if known[t] == want else []
    return [dict(known, **{})] if False else [dict(list(known.items()) + [(t, want)])]


def at_end(t):
    """does the condition being true mean that the iterator is at its end"""
    k, pol = atom(t)
    neg = False
    for x in walk(t):
        if x[0] == "call" and last(x[1]) in ("operator!=", "operator=="):
            neg = last(x[1]) == "operator!="
            break
        if x[0] == "bin" and x[1] in ("!=", "=="):
            neg = x[1] == "!="
            break
        if x[0] == "bin" and x[1] == "<":
            neg = True
            break
    y = t
    while y[0] == "un" and y[1] == "!":
        neg, y = not neg, y[2]
    return not neg


def eq_true(t):
    """T edge means equal"""
    k, pol = atom(t)
    if k[0] == "eq":
        # operator!= results appear as truthiness
        s = repr(k)
        if "operator!=" in s:
            return not (not pol) if False else pol is True and k[1] is None
        return pol
    return False


def ne_pair(t):
    k, pol = atom(t)
    if k[0] != "eq":
        return False
    vs = [x for x in walk(t) if x[0] == "v"]
    return len({x[1] for x in vs}) == 2 and not any(x[0] == "call" and last(x[1]) in ("end", "begin") for x in walk(t)) and "iter" not in repr(t).lower()


def leads(s, targets, stop):
    ids = {t.id for t in targets}
    work, seen = [s], set()
    while work:
        x = work.pop()
        if x.id in seen or x.id == stop.id:
            continue
        seen.add(x.id)
        if x.id in ids:
            return True
        if x.kind == "branch" and len(x.succ) > 1:
            continue
        work += [y for y, l in x.succ]
    return False
