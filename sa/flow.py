"""Path-sensitive dataflow over inlined graphs: a rule automaton state is carried together with a set
of branch facts (ESP style); facts are merged by intersection when a point accumulates too many."""
import re
from collections import deque
from ir import pp, walk, last, deref, STREAMY

EMPTY = frozenset()


# ---- integers, comparisons ------------------------------------------------------------------------

def lin(t):
    """t = sym + const"""
    if t is None:
        return (("?",), 0)
    k = t[0]
    if k == "lit":
        return (None, t[1])
    if k == "enum":
        return (None, t[2])
    if k == "g" and len(t) > 2:
        return (None, t[2])
    if k == "sizeof" and t[2] is not None:
        return (None, t[2])
    if k == "cast":
        return lin(t[3])
    if k == "ctor" and len(t[2]) == 1:
        return lin(t[2][0]) if t[2][0] and t[2][0][0] in ("lit", "enum") else (t, 0)
    if k == "bin" and t[1] in ("+", "-"):
        a, ca = lin(t[2])
        b, cb = lin(t[3])
        if t[1] == "+":
            if b is None:
                return (a, ca + cb)
            if a is None:
                return (b, ca + cb)
        else:
            if b is None:
                return (a, ca - cb)
    if k == "un" and t[1] == "-":
        a, c = lin(t[2])
        if a is None:
            return (None, -c)
    return (norm(t), 0)


def norm(t):
    """canonical form of an expression used as a symbol: casts dropped, smart dereferences kept"""
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] == "cast":
        return norm(t[3])
    if t[0] == "call":
        n = last(t[1])
        if n in ("length",) and not t[3]:
            return ("call", "size", norm(t[2]), ())
        if n == "size" and not t[3]:
            return ("call", "size", norm(t[2]) if t[2] else None, ())
        if n in ("operator->", "operator*", "operator()", "deref", "dewr", "operator(conv)") and not t[3] and t[2] is not None:
            return ("*", norm(t[2]))
        return ("call", t[1], norm(t[2]) if t[2] else None, tuple(norm(x) for x in t[3]))
    if t[0] == "un" and t[1] == "*":
        return ("*", norm(t[2]))
    if t[0] == "ctor" and len(t[2]) == 1:
        return norm(t[2][0])
    if t[0] == "v":
        return ("v", t[1])
    return tuple(norm(x) if isinstance(x, tuple) else x for x in t)


NEG = {"==": "!=", "!=": "==", "<": ">=", ">=": "<", ">": "<=", "<=": ">"}


def atom(t):
    """boolean expression -> (key, polarity), key = ("lt",a,b,k): a < b+k | ("eq",a,b,k): a == b+k ; or ('and'|'or', x, y)"""
    pol = True
    while True:
        if t[0] == "un" and t[1] == "!":
            t, pol = t[2], not pol
            continue
        if t[0] == "call" and last(t[1]) == "operator!" and (t[2] or t[3]):
            t, pol = (t[2] if t[2] is not None else t[3][0]), not pol
            continue
        if t[0] == "cast" and t[1] != "dynamic":
            t = t[3]
            continue
        break
    op = None
    if t[0] == "bin":
        if t[1] in NEG:
            op, a, b = t[1], t[2], t[3]
        elif t[1] in ("&&", "||"):
            return (("and" if t[1] == "&&" else "or", t[2], t[3]), pol)
    elif t[0] == "call":
        n = last(t[1])
        if n.startswith("operator") and n[8:] in NEG:
            op = n[8:]
            if t[2] is not None and len(t[3]) == 1:
                a, b = t[2], t[3][0]
            elif t[2] is None and len(t[3]) == 2:
                a, b = t[3]
            else:
                op = None
        elif n == "empty" and not t[3] and t[2] is not None:
            return (("eq", None, ("call", "size", norm(t[2]), ()), 0), pol)
    if op is None:
        s, c = lin(t)
        if s is None:
            return (("const", c != 0), pol)
        return (("eq", None, s, -0), not pol)        # truthy(x) == not (0 == x)
    (sa, ca), (sb, cb) = lin(a), lin(b)
    if op in ("!=", ">=", "<="):
        # a<=b == !(b<a) ; a>=b == !(a<b)
        if op == "!=":
            op, pol = "==", not pol
        elif op == ">=":
            op, pol = "<", not pol
        else:
            op, pol, sa, ca, sb, cb = "<", not pol, sb, cb, sa, ca
    elif op == ">":
        op, sa, ca, sb, cb = "<", sb, cb, sa, ca
    k = cb - ca
    if sa is None and sb is None:
        return (("const", (0 < k) if op == "<" else (k == 0)), pol)
    if op == "==":
        # comparison with a boolean literal
        for x, s in ((a, sb), (b, sa)):
            if x[0] == "lit" and len(x) > 2 and x[2] == "b" and s is not None:
                return (("eq", None, s, 0), pol if x[1] == 0 else not pol)
        if repr(sa) > repr(sb):
            sa, sb, k = sb, sa, -k
        if sa is None:
            pass
        elif sb is None:
            sa, sb, k = sb, sa, -k
        return (("eq", sa, sb, k), pol)
    # sa < sb + k
    if sa is not None and (sb is None or repr(sa) > repr(sb)):
        return (("lt", sb, sa, 1 - k), not pol)
    return (("lt", sa, sb, k), pol)


def sub_in(t, sub):
    if t == sub:
        return True
    if isinstance(t, tuple):
        for x in t:
            if isinstance(x, tuple) and sub_in(x, sub):
                return True
    return False


_heapcache = {}


def heapy(t):
    r = _heapcache.get(t)
    if r is None:
        r = False
        if isinstance(t, tuple) and t:
            if t[0] in ("m", "g", "this", "*", "call", "idx"):
                r = True
            else:
                r = any(heapy(x) for x in t if isinstance(x, tuple))
        _heapcache[t] = r
    return r


class Facts:
    """immutable fact set wrapper"""
    __slots__ = ("s",)

    def __init__(self, s=EMPTY):
        self.s = s

    # value numbering
    def val(self, t, d=0, lim=99):
        """resolve an expression through (at most lim steps of) known assignments"""
        if not isinstance(t, tuple) or not t or d > 12:
            return t
        nt = ("v", t[1]) if t[0] == "v" else t
        if t[0] in ("v", "m", "g"):
            key = norm(nt)
            for f in self.s:
                if f[0] == "e" and f[1] == key and lim:
                    return self.val(f[2], d + 1, lim - 1)
            if t[0] in ("v", "g"):
                return t
        if t[0] == "cond":
            c = self.eval(t[1])
            if c is True:
                return self.val(t[2], d + 1, lim)
            if c is False:
                return self.val(t[3], d + 1, lim)
        return tuple(self.val(x, d + 1, lim) if isinstance(x, tuple) else x for x in t)

    def _atomval(self, key):
        kind = key[0]
        if kind == "const":
            return key[1]
        a, b, k = key[1], key[2], key[3]
        lo, hi = None, None       # bounds on  a - b   (a < b+k  ->  a-b <= k-1)
        ne = set()
        eqv = None
        for f in self.s:
            if f[0] != "a":
                continue
            g = f[1]
            if g[1] != a or g[2] != b:
                continue
            if g[0] == "lt":
                if f[2]:
                    hi = g[3] - 1 if hi is None else min(hi, g[3] - 1)
                else:
                    lo = g[3] if lo is None else max(lo, g[3])
            elif g[0] == "eq":
                if f[2]:
                    eqv = g[3]
                else:
                    ne.add(g[3])
        if eqv is not None:
            return (eqv < k) if kind == "lt" else (eqv == k)
        # unsigned container sizes: 0 <= size
        if a is None and isinstance(b, tuple) and b[0] == "call" and b[1] == "size":
            hi = 0 if hi is None else min(hi, 0)        # 0 - size <= 0
        while lo is not None and lo in ne:
            lo += 1
        while hi is not None and hi in ne:
            hi -= 1
        if kind == "lt":
            if hi is not None and hi < k:
                return True
            if lo is not None and lo >= k:
                return False
        else:
            if k in ne or (hi is not None and k > hi) or (lo is not None and k < lo):
                return False
            if lo is not None and lo == hi == k:
                return True
        return None

    def eval(self, t, raw=False):
        """truth value of a boolean expression or None"""
        if t is None:
            return None
        if not raw:
            t2 = self.val(t)
            r = self.eval(t, True)
            if r is not None:
                return r
            if t2 != t:
                r = self.eval(t2, True)
            if r is None:
                t3 = self.alias(t)
                if t3 != t and t3 != t2:
                    r = self.eval(t3, True)
            return r
        key, pol = atom(t)
        if key[0] in ("and", "or"):
            x, y = self.eval(key[1]), self.eval(key[2])
            if key[0] == "and":
                r = False if x is False or y is False else (True if x and y else None)
            else:
                r = True if x or y else (False if x is False and y is False else None)
        elif key[0] == "const":
            r = key[1]
        else:
            r = self._atomval(key)
        if r is None and t[0] == "cond":
            c = self.eval(t[1])
            if c is not None:
                return self.eval(t[2] if c else t[3])
        return None if r is None else (r == pol)

    def assume(self, t, v):
        """facts after learning that t has truth value v; None when impossible"""
        cur = self.eval(t)
        if cur is not None:
            return self if cur == v else None
        out = self._assume1(t, v)
        if out is None:
            return None
        prev = t
        for lim in (1, 2, 99):
            t2 = self.val(t, 0, lim)
            if t2 == prev:
                break
            o2 = out._assume1(t2, v)
            if o2 is None:
                return None
            out = o2
            prev = t2
        t3 = self.alias(t)
        if t3 != t and t3 != prev:
            out = out._assume1(t3, v)
        return out

    def _assume1(self, t, v):
        key, pol = atom(t)
        w = (v == pol)
        if key[0] == "const":
            return self if key[1] == w else None
        if key[0] in ("and", "or"):
            if (key[0] == "and") == w:
                a = self.assume(key[1], w)
                return a.assume(key[2], w) if a is not None else None
            x, y = self.eval(key[1]), self.eval(key[2])
            dec = (key[0] == "and")
            if x is dec:
                return self.assume(key[2], not dec)
            if y is dec:
                return self.assume(key[1], not dec)
            return self
        if t[0] == "cond":
            c = self.eval(t[1])
            if c is not None:
                return self.assume(t[2] if c else t[3], v)
        r = self._atomval(key)
        if r is not None:
            return self if r == w else None
        return Facts(self.s | {("a", key, w)})

    def kill(self, sub):
        sub = norm(sub)
        return Facts(frozenset(f for f in self.s if not (sub_in(f[1], sub) or (f[0][0] == "e" and sub_in(f[2], sub)))))

    def killheap(self, keep=None):
        def k(f):
            return heapy(f[1]) or (f[0][0] == "e" and heapy(f[2]))
        return Facts(frozenset(f for f in self.s if not k(f) or (keep is not None and keep(f))))

    def assign(self, lhs, rhs):
        base = norm(lhs)
        r = self.kill(lhs)
        if rhs is None:
            return r
        rv = self.val(rhs)
        n = norm(rv)
        if sub_in(n, base):
            return r
        s, c = lin(rv)
        if s is None:
            return Facts(r.s | {("e", base, ("lit", c))})
        if len(repr(n)) < 600:
            # value facts: keep the un-normalised tree so later evaluation sees calls
            new = {("e", base, rv)}
            if base[0] == "v" and rhs != rv and len(repr(rhs)) < 300:
                new.add(("e2", base, rhs))          # as written, in terms of other variables
            return Facts(r.s | new)
        return r

    def alias(self, t):
        """t with variables replaced by what they were written as"""
        if not isinstance(t, tuple) or not t:
            return t
        if t[0] == "v":
            key = ("v", t[1])
            for f in self.s:
                if f[0] == "e2" and f[1] == key:
                    return f[2]
            return t
        return tuple(self.alias(x) if isinstance(x, tuple) else x for x in t)

    # convenience for rules -------------------------------------------------------------------
    def holds(self, t):
        return self.eval(t) is True


ACCESS = {"operator[]", "at", "back", "front", "begin", "end", "rbegin", "rend", "data", "operator*", "operator->", "find"}
GETTER = re.compile(r"get[A-Z]\w*$")                 # object accessors without const
KEEPERS = re.compile(r"^(std::|__gnu_cxx::|operator|memcpy|memset|memcmp|memmove|strlen|strcmp|strncmp|Debug::|LOFAR::Debug|abs|fabs|isspace|getpid)")


def transfer(n, facts, stable=None):
    ev = n.ev
    if ev is None or n.kind in ("branch", "switch"):
        return facts
    k = ev[0]
    if k == "asg":
        if ev[1] == "=":
            if boolish(ev[3]) and (heapy(ev[2]) or sub_in(ev[3], norm(ev[2]))):
                v = facts.eval(ev[3])
                if v is not None:
                    return facts.assign(ev[2], ("lit", int(v), "b"))
            return facts.assign(ev[2], ev[3])
        return facts.kill(ev[2])
    if k == "un":
        return facts.kill(ev[2]) if ev[1] in ("++", "--", "p++", "p--") else facts
    if k == "decls":
        for d in ev[1:]:
            if d[2].endswith("&"):
                continue
            v = ("v", d[1])
            init = d[3]
            if init is not None and init[0] == "ctor":
                init = init[2][0] if len(init[2]) == 1 else None
            facts = facts.assign(v, init)
        return facts
    if k == "minit":
        init = ev[2]
        if init is not None and init[0] == "ctor":
            init = init[2][0] if len(init[2]) == 1 else None
        return facts.assign(ev[1], init)
    if k == "call":
        q, obj, args, flags = ev[1], ev[2], ev[3], ev[4]
        if last(q) == "operator=" and obj is not None and len(args) == 1:
            facts = facts.assign(obj, args[0])
            return facts
        mut = ev[7] if len(ev) > 7 else ""
        const = "c" in flags
        std = bool(STREAMY.match(q) or KEEPERS.match(q))
        if obj is not None and not const and not (q.startswith("std::") and last(q) in ACCESS) and not (stable and stable(q) and GETTER.match(last(q))):
            d = deref(obj)
            t = facts.val(d) if d[0] == "v" and d[1].startswith("rv@") else d
            if t != d and t is not None and t[0] in ("m", "idx"):
                keep = frozenset(f for f in facts.s if f[0] == "e" and f[2] == t and f[1][0] == "v" and f[1][1].startswith("rv@"))
                facts = Facts(facts.kill(t).s | keep)   # a returned reference: its target changes, not what it refers to
            elif d[0] != "this":
                facts = facts.kill(d)
        for i, a in enumerate(args):
            if i < len(mut) and mut[i] == "1" and a is not None:
                d = deref(a)
                if d[0] in ("v", "m", "g", "idx"):
                    facts = facts.kill(d)
        if not const and not std and not (stable and stable(q)):
            facts = facts.killheap()
        return facts
    if k == "ctor":
        args = ev[2]
        return facts
    if k == "dtor":
        return facts.kill(("v", ev[1]))
    return facts


class Result:
    def __init__(self):
        self.violations = []
        self.states = 0
        self.visited = set()


def assume_split(facts, t, v, d=0):
    """like assume, but a true disjunction (possibly behind a variable) is split into its alternatives"""
    base = facts.assume(t, v)
    if base is None:
        return []
    if d > 4:
        return [base]
    for cand in (t, facts.val(t, 0, 1), facts.val(t), facts.alias(t)):
        key, pol = atom(cand)
        if key[0] not in ("and", "or"):
            continue
        w = (v == pol)
        if (key[0] == "or") == w:
            out = []
            for b in assume_split(base, key[1], w, d + 1):
                out.append(b)
            for b in assume_split(base, key[1], not w, d + 1):
                out += assume_split(b, key[2], w, d + 1)
            return out
        out = []
        for b in assume_split(base, key[1], w, d + 1):
            out += assume_split(b, key[2], w, d + 1)
        return out
    return [base]


def split_label(facts, lab):
    if lab is not None and lab != "exc" and lab[0] in ("T", "F"):
        return assume_split(facts, lab[1], lab[0] == "T")
    r = assume_label(facts, lab)
    return [] if r is None else [r]


def assume_label(facts, lab):
    if lab is None or lab == "exc" or lab[0] == "exc":
        return facts
    if lab[0] == "T":
        return facts.assume(lab[1], True)
    if lab[0] == "F":
        return facts.assume(lab[1], False)
    if lab[0] == "case":
        return facts.assume(("bin", "==", lab[1], lab[2]), True)
    if lab[0] == "default":
        for v in lab[2]:
            facts = facts.assume(("bin", "==", lab[1], v), False)
            if facts is None:
                return None
        return facts
    return facts


def boolish(t):
    """a condition used as a value"""
    while t is not None and t[0] == "cast":
        t = t[3]
    return t is not None and ((t[0] == "bin" and (t[1] in NEG or t[1] in ("&&", "||"))) or (t[0] == "un" and t[1] == "!"))


def run(g, init, step, stable=None, cap=12, init_facts=None, edge=None, maxstates=400000, only=None, split=False, branch=None):
    """step(auto, node, facts) -> iterable of new automaton states ([] stops the path).
    edge(auto, label) -> auto   : hook for exception edges (e.g. RAII release).
    branch(auto, expr, truth, n): hook for the edges of a condition; the new auto, or None to stop the path.
    only(fact) -> bool          : facts the rule cares about; all others are forgotten (keeps the path sets small)."""
    res = Result()
    oc = {}

    def relevant(f):
        r = oc.get(f)
        if r is None:
            r = oc[f] = bool(only(f))
        return r
    seen = {}
    f0 = init_facts or Facts()
    start = (g.entry.id, init, f0.s)
    parent = {start: None}
    work = deque([start])
    seen.setdefault((g.entry.id, init), set()).add(f0.s)
    merged = {}
    while work:
        key = work.popleft()
        nid, auto, fs = key
        n = g.nodes[nid]
        if (nid, auto) in merged and fs != merged[(nid, auto)] :
            continue
        facts = Facts(fs)
        res.states += 1
        res.visited.add(nid)
        if res.states > maxstates:
            from facts import Broken
            raise Broken("state budget exceeded in %s" % g.entry.func)
        variants = [facts]
        ev = n.ev
        if ev is not None and n.kind == "ev" and ev[0] == "asg" and ev[1] == "=" and boolish(ev[3]) and (heapy(ev[2]) or sub_in(ev[3], norm(ev[2]))) \
                and facts.eval(ev[3]) is None:
            variants = [x for x in (facts.assume(ev[3], True), facts.assume(ev[3], False)) if x is not None]
        todo = []
        for fv in variants:
            outs = step(auto, n, fv)
            post = transfer(n, fv, stable)
            for s, lab in n.succ:
                if split:
                    todo += [(outs, nf, s, lab) for nf in split_label(post, lab)]
                else:
                    nf = assume_label(post, lab)
                    if nf is not None:
                        todo.append((outs, nf, s, lab))
        for outs, nf, s, lab in todo:
            isexc = lab is not None and (lab == "exc" or lab[0] == "exc")
            autos = [auto] if isexc and n.kind == "ev" and n.ev[0] in ("call", "ctor", "new") else outs
            for a in autos:
                if edge is not None and isexc:
                    a = edge(a, lab, n)
                if branch is not None and not isexc and lab is not None and lab[0] in ("T", "F"):
                    a = branch(a, lab[1], lab[0] == "T", n)
                    if a is None:
                        continue
                ks = (s.id, a)
                st = seen.setdefault(ks, set())
                f = nf.s
                if only is not None:
                    f = frozenset(x for x in f if relevant(x))
                if ks in merged:
                    m = merged[ks] & f
                    if m == merged[ks]:
                        continue
                    merged[ks] = m
                    f = m
                elif f in st:
                    continue
                elif len(st) >= cap:
                    m = f
                    for o in st:
                        m = m & o
                    merged[ks] = m
                    f = m
                st.add(f)
                nk = (s.id, a, f)
                if nk not in parent:
                    parent[nk] = key
                work.append(nk)
    res.parent = parent
    res.seen = seen
    return res


def about(*names, vals=True):
    """fact filter: facts whose text mentions one of the names (value facts of locals that feed them are kept when vals)"""
    rx = re.compile("|".join(re.escape(n) for n in names))

    def f(x):
        return bool(rx.search(repr(x[1])) or (x[0][0] == "e" and rx.search(repr(x[2]))))
    return f


def trace(g, res, nid, auto, fs, limit=30):
    """lines of one path reaching a state"""
    out = []
    key = (nid, auto, fs)
    while key is not None:
        n = g.nodes[key[0]]
        if n.line and n.kind in ("ev", "branch", "catch", "iret", "switch", "exit", "excexit"):
            s = "%s:%d" % (n.file, n.line)
            if not out or out[-1] != s:
                out.append(s)
        key = res.parent.get(key)
    out.reverse()
    if len(out) > limit:
        out = out[:limit // 2] + ["..."] + out[-limit // 2:]
    return out
