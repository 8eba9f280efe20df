"""Expression trees -> canonical tuples, pretty printing, and inlined control-flow graphs."""
import re

LIT0 = ("lit", 0)


def last(q):
    return q.rsplit("::", 1)[-1]


# ---------------------------------------------------------------------------------------------------
# pretty printing

def pp(t):
    if t is None or not t:
        return ""
    k = t[0]
    if not isinstance(k, str):
        return ",".join(pp(x) if isinstance(x, tuple) else str(x) for x in t)
    if k == "v":
        return t[1].split("@")[0]
    if k == "g" or k == "fn":
        return last(t[1])
    if k == "this":
        return "this"
    if k == "lit":
        return str(t[1])
    if k == "enum":
        return last(t[1])
    if k == "str":
        return '"%s"' % t[1]
    if k == "m":
        b = pp(t[1])
        return ("" if b == "this" else b + ".") + last(t[2])
    if k == "call":
        a = ",".join(pp(x) for x in t[3])
        o = pp(t[2]) if t[2] else ""
        n = last(t[1])
        if n == "operator[]":
            return "%s[%s]" % (o, a)
        if n in ("operator->", "operator*") and not t[3]:
            return o
        if n == "operator()" and not t[3]:
            return o + "()"
        return ("%s." % o if o and o != "this" else "") + n + "(" + a + ")"
    if k == "ctor":
        return last(t[3] if len(t) > 3 and t[3] else t[1]) + "(" + ",".join(pp(x) for x in t[2]) + ")"
    if k == "bin":
        return "(%s%s%s)" % (pp(t[2]), t[1], pp(t[3]))
    if k == "un":
        return (pp(t[2]) + t[1][1:]) if t[1][0] == "p" else t[1] + pp(t[2])
    if k == "asg":
        return "%s%s%s" % (pp(t[2]), t[1], pp(t[3]))
    if k == "idx":
        return "%s[%s]" % (pp(t[1]), pp(t[2]))
    if k == "cast":
        return pp(t[3])
    if k == "new":
        return "new " + last(t[1]) + ("(%s)" % pp(t[2]) if t[2] else "") + ("[%s]" % pp(t[3]) if len(t) > 3 and t[3] else "")
    if k == "del":
        return "delete " + pp(t[1])
    if k == "throw":
        return "throw " + (pp(t[1]) if t[1] else "")
    if k == "ret":
        return "return " + (pp(t[1]) if t[1] else "")
    if k == "cond":
        return "(%s?%s:%s)" % (pp(t[1]), pp(t[2]), pp(t[3]))
    if k == "sizeof":
        return "sizeof(%s)" % last(t[1])
    if k == "rv":
        return "ret:" + str(t[1])
    if k == "decls":
        return "decl " + "; ".join("%s=%s" % (d[1], pp(d[3])) for d in t[1:])
    return k + "(" + ",".join(pp(x) if isinstance(x, tuple) else str(x) for x in t[1:]) + ")"


def walk(t):
    """all sub-tuples (pre-order)"""
    if not isinstance(t, tuple) or not t:
        return
    if isinstance(t[0], str):
        yield t
        for x in t[1:]:
            if isinstance(x, tuple):
                yield from walk(x)
    else:
        for x in t:
            if isinstance(x, tuple):
                yield from walk(x)


def calls_in(t):
    return [x for x in walk(t) if x[0] == "call"]


def mentions(t, sub):
    for x in walk(t):
        if x == sub:
            return True
    return False


def fields_in(t):
    return {x[2] for x in walk(t) if x[0] == "m"}


def strip_cast(t):
    while t is not None and t[0] == "cast":
        t = t[3]
    return t


def deref(t):
    """drop &, *, casts, smart-pointer dereferences: the storage an expression denotes"""
    while t is not None:
        if t[0] == "cast":
            t = t[3]
        elif t[0] == "un" and t[1] in ("*", "&"):
            t = t[2]
        elif t[0] == "call" and not t[3] and t[2] is not None and last(t[1]) in SMART:
            t = t[2]
        else:
            return t
    return t


SMART = {"operator->", "operator*", "operator()", "deref", "dewr", "deref_p", "dewr_p", "operator(conv)", "get"}


# ---------------------------------------------------------------------------------------------------
# per function: decode once

class Fn:
    """decoded function: blocks with tuple trees, uid table"""
    __slots__ = ("j", "q", "file", "line", "blocks", "uids", "entry", "exit", "tries", "catchblk", "params", "defs")

    def __init__(self, j):
        self.j, self.q, self.file, self.line = j, j["q"], j["f"], j["l"]
        self.params = j["params"]
        self.uids = {}
        self.blocks = {}
        self.entry, self.exit = j.get("entry"), j.get("exit")
        self.tries = j.get("tries", [])

        def dec(t):
            if isinstance(t, list):
                return tuple(dec(x) for x in t)
            return t
        for b in j.get("blocks", []):
            els = []
            for uid, line, tr, t in b["el"]:
                t = dec(t)
                self.uids[uid] = t
                els.append((uid, line, tr, t))
            self.blocks[b["id"]] = (els, b)
        self.defs = None

    def expand(self, t, depth=0):
        """replace refs by the trees they denote (pure reading of the expression)"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "ref":
            return self.expand(self.uids.get(t[1], ("?", "ref")), depth + 1) if depth < 60 else ("?", "deep")
        return tuple(self.expand(x, depth + 1) if isinstance(x, tuple) else x for x in t)

    def tree(self):
        """all full trees of this function, each eventful element once: (line, tree)"""
        for bid, (els, b) in self.blocks.items():
            for uid, line, tr, t in els:
                yield uid, line, tr, t
            if "c" in b:
                pass

    def conds(self):
        for bid, (els, b) in self.blocks.items():
            if "c" in b:
                yield b.get("tl", 0), self.expand(_dec(b["c"]))


def _dec(t):
    if isinstance(t, list):
        return tuple(_dec(x) for x in t)
    return t


_fncache = {}


def fn(j):
    r = _fncache.get(id(j))
    if r is None:
        r = _fncache[id(j)] = Fn(j)
    return r


# ---------------------------------------------------------------------------------------------------
# inlined graph

class N:
    __slots__ = ("id", "kind", "ev", "line", "file", "func", "succ", "ctx", "uid", "tries")

    def __init__(s, id, kind, ev=None, line=0, file="", func="", ctx=(), uid=None):
        s.id, s.kind, s.ev, s.line, s.file, s.func, s.ctx, s.uid = id, kind, ev, line, file, func, ctx, uid
        s.succ = []      # (node, label)  label: None | ("T",cond) | ("F",cond) | ("case",cond,vals) | ("default",cond,vals) | "exc"

    def __repr__(s):
        return "%s:%d %s %s" % (s.file, s.line, s.kind, pp(s.ev) if s.ev else "")


class Graph:
    def __init__(self):
        self.nodes = []
        self.entry = self.exit = self.exc = None
        self.inlined = set()

    def new(self, *a, **k):
        n = N(len(self.nodes), *a, **k)
        self.nodes.append(n)
        return n


NOISE = re.compile(r"(^|::)(sdebug|ssprintf|getDebugStream|stream_time|getDebugContext|appendf|exceptionToString|debug)$|^Debug::|::Context::check$")
STREAMY = re.compile(r"^(std::(basic_)?(ostream|ostringstream|string|basic_string|vector|list|map|set|deque|multimap|pair|_Rb|_List|__)|operator<<|std::operator|std::(endl|max|min|move|forward|swap|make_pair|flush|copy|fill|get))")


class Builder:
    def __init__(self, facts, inline=None, maxdepth=5, assume_std=True, maythrow=None, maxnodes=40000, access=None):
        """inline(callee_json, callsite_tree) -> bool.  maythrow(q) -> bool for non-inlined callees."""
        self.F = facts
        self.inline = inline or (lambda j, t: False)
        self.maxdepth = maxdepth
        self.assume_std = assume_std
        self.maythrow = maythrow
        self.maxnodes = maxnodes
        self.access = access          # q -> bool: replace calls of these trivial accessors by the member they return
        self._acc = {}

    def accessor(self, q):
        """the member a function does nothing but return, as a term over this; None otherwise"""
        if q in self._acc:
            return self._acc[q]
        self._acc[q] = None
        out = set()
        for j in self.F.funcs.get(q, ()):
            if j["params"]:
                continue
            f = fn(j)
            rets = [t for uid, line, tr, t in f.tree() if t[0] == "ret"]
            rest = [t for uid, line, tr, t in f.tree() if t[0] not in ("ret", "m", "this", "un", "cast")]
            if len(rets) != 1 or rest or rets[0][1] is None:
                out.add(None)
                continue
            x = strip_cast(f.expand(rets[0][1]))
            out.add(x if x[0] == "m" and deref(x[1]) == ("this",) else None)
        if len(out) == 1:
            self._acc[q] = out.pop()
        return self._acc[q]

    def build(self, j):
        g = Graph()
        g.entry = g.new("entry", func=j["q"], file=j["f"], line=j["l"])
        g.exit = g.new("exit", func=j["q"], file=j["f"], line=j.get("end", j["l"]))
        g.exc = g.new("excexit", func=j["q"], file=j["f"], line=j.get("end", j["l"]))
        self.g = g
        self.k = 0
        ent = self._fn(fn(j), {}, ("this",), (), g.exit, [], g.exc, None, (j["q"],))
        g.entry.succ.append((ent, None))
        return g

    # substitute refs and variables for one inlining context
    def _sub(self, f, t, env, this, ctx):
        pre = "@%s" % ".".join(map(str, ctx)) if ctx else ""

        def go(t, d=0):
            if not isinstance(t, tuple) or not t:
                return t
            k = t[0]
            if not isinstance(k, str):
                return tuple(go(x, d + 1) for x in t)
            if k == "ref":
                r = env.get(("rv", t[1]))
                if r is not None:
                    return r
                x = f.uids.get(t[1])
                if x is None:
                    return ("?", "ref")
                if x[0] == "asg":       # value of an assignment is its target
                    return go(x[2], d + 1)
                if x[0] == "un" and x[1] in ("++", "--"):
                    return go(x[2], d + 1)
                if x[0] == "decls":
                    return ("?", "decls")
                return go(x, d + 1) if d < 80 else ("?", "deep")
            if k == "v":
                r = env.get(("v", t[1]))
                if r is not None:
                    if r[0] == "lazy":
                        env[("v", t[1])] = ("v", t[1] + pre)     # guard against self reference
                        r = env[("v", t[1])] = go(r[1], d + 1)
                    return r
                return ("v", t[1] + pre)
            if k == "d":
                return ("d", t[1] + pre, t[2], go(t[3], d + 1) if t[3] is not None else None)
            if k == "dtor":
                return ("dtor", t[1] + pre, t[2])
            if k == "this":
                return this
            if k == "un" and t[1] in ("*", "&"):
                x = go(t[2], d + 1)
                if x and x[0] == "un" and x[1] in ("*", "&") and x[1] != t[1]:
                    return x[2]
                return ("un", t[1], x)
            if k == "m":
                return ("m", _base(go(t[1], d + 1)), t[2])
            if k == "call" and self.access and self.access(t[1]) and not t[3]:
                a = self.accessor(t[1])
                if a is not None:
                    return ("m", _base(go(t[2], d + 1)) if t[2] is not None else this, a[2])
            return (k,) + tuple(go(x, d + 1) if isinstance(x, tuple) else x for x in t[1:])
        return go(t)

    def _fn(self, f, env, this, ctx, exitn, trystack, excn, rvname, stack):
        """instantiate function f; returns the entry node.  trystack: enclosing handler dispatchers of callers"""
        g = self.g
        env = dict(env)
        heads = {bid: g.new("nop", func=f.q, file=f.file, line=0, ctx=ctx) for bid in f.blocks}
        if not f.blocks:
            n = g.new("nop", func=f.q, file=f.file, ctx=ctx)
            n.succ.append((exitn, None))
            return n
        # reference-typed locals denote their initialiser for their whole life
        for bid, (els, b) in f.blocks.items():
            for uid, line, tr, t in els:
                if t[0] == "decls":
                    for d in t[1:]:
                        if d[2].endswith("&") and d[3] is not None and ("v", d[1]) not in env:
                            env[("v", d[1])] = ("lazy", d[3])
        # decide inlining first: the value of an inlined call is its return variable
        chosen = {}
        for bid, (els, b) in f.blocks.items():
            for uid, line, tr, t in els:
                if t[0] == "call" and len(stack) <= self.maxdepth:
                    c = None if self.access and self.access(t[1]) and not t[3] and self.accessor(t[1]) else self._callee(t, stack)
                    if c is not None:
                        self.k += 1
                        chosen[uid] = (c, ctx + (self.k,))
                        env[("rv", uid)] = ("v", "rv@" + ".".join(map(str, ctx + (self.k,))))
        # handler nodes of each try
        catchblocks = {}
        for bid, (els, b) in f.blocks.items():
            if "catch" in b:
                catchblocks[bid] = b["catch"]
        tryh = {}
        for i, t in enumerate(f.tries):
            if t["b"] >= 0 and t["b"] in f.blocks:
                hs = [abs(s) - 2 if s < -1 else s for s in f.blocks[t["b"]][1]["s"]]
                hs = [s for s in hs if s in catchblocks]
                tryh[i] = hs

        def exc_targets(tr):
            """nodes an exception raised under try index tr (in f) can reach"""
            out = []
            while tr is not None and tr >= 0:
                stop = False
                for h in tryh.get(tr, []):
                    out.append((heads[h], ("exc", (f.q, tr, ctx))))
                    ct = catchblocks[h]
                    if ct == "..." or (self.assume_std and "std::exception" in ct):
                        stop = True
                if stop:
                    return out
                tr = f.tries[tr]["p"]
            out.append((excn, ("exc", None)))
            return out

        pending_rv = {}
        for bid, (els, b) in f.blocks.items():
            cur = heads[bid]
            if "catch" in b:
                c = g.new("catch", ("catch", b["catch"]), b.get("cl", 0), f.file, f.q, ctx)
                cur.succ.append((c, None))
                cur = c
            dead = False
            for uid, line, tr, raw in els:
                if dead:
                    break
                t = raw
                if len(g.nodes) > self.maxnodes:
                    from facts import Broken
                    raise Broken("inlined graph of %s too large" % stack[0])
                k = t[0]
                # ---- inlining -------------------------------------------------------------------
                st = self._sub(f, t, env, this, ctx)
                if k == "call" and NOISE.search(t[1]):
                    continue
                if uid in chosen:
                    callee, cctx = chosen[uid]
                    rv = env[("rv", uid)]
                    cf = fn(callee)
                    g.inlined.add(callee["q"])
                    n = g.new("ev", ("enter",) + st[1:], line, f.file, f.q, ctx, uid)
                    n.tries = tr
                    cur.succ.append((n, None))
                    cur = n
                    cenv = {}
                    assigned = _assigned_vars(cf)
                    args = st[3]
                    for i, (pn, pt) in enumerate(cf.params):
                        if i >= len(args):
                            continue
                        a = args[i]
                        if pn in assigned and not pt.endswith("&"):
                            n = g.new("ev", ("asg", "=", ("v", pn + "@" + ".".join(map(str, cctx))), a), line, f.file, f.q, cctx)
                            n.tries = tr
                            cur.succ.append((n, None))
                            cur = n
                        else:
                            cenv[("v", pn)] = a
                    after = g.new("ev", ("leave",) + st[1:], line, f.file, f.q, ctx, uid)
                    after.tries = tr
                    et = exc_targets(tr)
                    if len(et) == 1:
                        ex = et[0][0] if et[0][0] is excn else None
                    cexc = g.new("excjoin", None, line, f.file, f.q, ctx)
                    for tg, lab in et:
                        cexc.succ.append((tg, lab))
                    obj = st[2]
                    if obj is None:
                        obj = this
                    obj = _base(obj)
                    ent = self._fn(cf, cenv, obj, cctx, after, [], cexc, rv, stack + (callee["q"],))
                    cur.succ.append((ent, None))
                    cur = after
                    continue
                # ---- plain event ----------------------------------------------------------------
                if k == "ret" and rvname is not None:
                    st = ("asg", "=", rvname, st[1]) if st[1] is not None else ("nop",)
                    kind = "iret"
                else:
                    kind = "ev"
                n = g.new(kind, st, line, f.file, f.q, ctx, uid)
                n.tries = tr
                cur.succ.append((n, None))
                cur = n
                if k == "throw":
                    for tg, lab in self._throw_targets(f, tr, raw, exc_targets):
                        n.succ.append((tg, lab))
                    dead = True
                    break
                if k == "call" and "n" in t[4]:
                    dead = True
                    break
                if k in ("call", "ctor", "new") and self._mt(t):
                    for tg, lab in exc_targets(tr):
                        n.succ.append((tg, lab))
            if dead:
                continue
            # ---- successors -------------------------------------------------------------------
            succ = b["s"]
            T = b.get("t")
            cond = self._sub(f, _dec(b["c"]), env, this, ctx) if "c" in b else None
            if T == "CXXTryStmt":
                continue       # handlers are reached through exception edges only
            if bid == f.exit:
                cur.succ.append((exitn, None))
                continue

            def tgt(s):
                return heads[s] if s >= 0 and s in heads else None
            if T == "SwitchStmt" and cond is not None:
                allv, edges, dflt = [], [], None
                for s in succ:
                    s2 = s
                    if s2 is None or s2 < 0 or s2 not in f.blocks:
                        continue
                    bb = f.blocks[s2][1]
                    if "case" in bb:
                        v = [self._sub(f, _dec(x), env, this, ctx) for x in bb["case"]]
                        allv.append(v[0])
                        edges.append((s2, v[0]))
                    else:
                        dflt = s2
                br = g.new("switch", cond, b.get("tl", 0), f.file, f.q, ctx)
                cur.succ.append((br, None))
                for s2, v in edges:
                    br.succ.append((heads[s2], ("case", cond, v)))
                if dflt is not None:
                    br.succ.append((heads[dflt], ("default", cond, tuple(allv))))
                continue
            real = [s for s in succ]
            if cond is not None and len(real) == 2:
                br = g.new("branch", cond, b.get("tl", 0), f.file, f.q, ctx)
                cur.succ.append((br, None))
                a, c = tgt(real[0]), tgt(real[1])
                if a is not None:
                    br.succ.append((a, ("T", cond)))
                if c is not None:
                    br.succ.append((c, ("F", cond)))
            else:
                for s in real:
                    x = tgt(s)
                    if x is not None:
                        cur.succ.append((x, None))
        return heads[f.entry]

    def _throw_targets(self, f, tr, raw, exc_targets):
        return exc_targets(tr)

    def _mt(self, t):
        q = t[1]
        if t[0] == "call":
            if "e" in t[4]:
                return False
            if self.maythrow is not None:
                return self.maythrow(q)
            return not STREAMY.match(q)
        if t[0] == "ctor":
            if self.maythrow is not None:
                return self.maythrow(q)
            return False
        return False

    def _callee(self, t, stack):
        q = t[1]
        if q in stack:
            return None
        c = [x for x in self.F.funcs.get(q, []) if x.get("blocks")]
        if not c:
            return None
        if "v" in t[4]:
            # virtual: only when there is a single body in the whole program (no override seen)
            if len(self._overriders(q)) > 0:
                return None
        nargs = len(t[3])
        c2 = [x for x in c if len(x["params"]) == nargs] or []
        if len(c2) > 1:
            c3 = [x for x in c2 if bool(x.get("const")) == ("c" in t[4])]
            if len(c3) == 1:
                c2 = c3
        if len(c2) != 1:
            return None
        return c2[0] if self.inline(c2[0], t) else None

    def _overriders(self, q):
        idx = getattr(self.F, "_overidx", None)
        if idx is None:
            idx = {}
            for c in self.F.classes.values():
                for m in c["methods"]:
                    for o in m["over"]:
                        idx.setdefault(o, set()).add(m["n"])
            self.F._overidx = idx
        return idx.get(q, set())


def _base(x):
    """object expression used as a member base: drop * & and casts"""
    while x is not None and ((x[0] == "un" and x[1] in ("*", "&")) or (x[0] == "cast" and x[1] in ("static", "const", "c", "dynamic"))):
        x = x[2] if x[0] == "un" else x[3]
    return x


_asgcache = {}


def _assigned_vars(f):
    r = _asgcache.get(id(f))
    if r is not None:
        return r
    s = set()
    for uid, line, tr, t in f.tree():
        if t[0] == "asg":
            x = t[2]
        elif t[0] == "un" and t[1] in ("++", "--", "p++", "p--"):
            x = t[2]
        elif t[0] == "call" and t[2] is not None and "c" not in t[4]:
            x = t[2]
        else:
            x = None
        if x is not None and x[0] == "v":
            s.add(x[1])
        if t[0] == "call":
            for i, a in enumerate(t[3]):
                if a and a[0] == "un" and a[1] == "&":
                    a = a[2]
                if a and a[0] == "v" and len(t) > 7 and i < len(t[7]) and t[7][i] == "1":
                    s.add(a[1])
    _asgcache[id(f)] = s
    return s
