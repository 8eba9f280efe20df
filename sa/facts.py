"""Front end: builds the extractor, obtains the compile commands of the real build and loads the
extracted facts (functions as control-flow graphs of resolved expression trees) of /repo's current
working tree."""
import json, os, shlex, subprocess, sys, hashlib, tempfile, shutil, re
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CACHE = os.path.join(VERIF, ".build")


class Broken(Exception):
    """The analysis itself cannot give an answer (vanished anchor, unparsable unit, ...)."""


def _sha(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(open(p, "rb").read())
    return h.hexdigest()[:16]


def build_tool(verbose=False):
    src = os.path.join(VERIF, "tool", "extract.cpp")
    os.makedirs(CACHE, exist_ok=True)
    exe = os.path.join(CACHE, "extract-" + _sha(src))
    if os.path.exists(exe):
        return exe
    inc = subprocess.run(["/usr/lib/llvm-18/bin/llvm-config", "--includedir"], capture_output=True, text=True)
    incdir = inc.stdout.strip() or "/usr/lib/llvm-18/include"
    tmp = exe + ".tmp%d" % os.getpid()
    cmd = ["clang++", "-O1", "-std=c++17", "-fno-rtti", "-fno-exceptions", "-w", "-D_GNU_SOURCE",
           "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS",
           "-I" + incdir, src, "-o", tmp,
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-L/usr/lib/llvm-18/lib", "-lLLVM-18",
           "-Wl,-rpath,/usr/lib/llvm-18/lib"]
    p = subprocess.run(cmd, capture_output=True, text=True)
    if p.returncode:
        raise Broken("cannot build the extractor: " + p.stderr[-2000:])
    os.replace(tmp, exe)
    return exe


def compdb():
    """-> list of {file, directory, arguments} for every C++ unit of the build, cleaned for clang"""
    bdir = os.path.join(REPO, "build", "release")
    scratch = None
    if not os.path.exists(os.path.join(bdir, "build.ninja")):
        scratch = os.path.join(CACHE, "cmake")
        os.makedirs(scratch, exist_ok=True)
        cmd = ["cmake", "-S", REPO, "-B", scratch, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=Release",
               "-DPYTHON_EXECUTABLE=/usr/bin/python3",
               "-DCMAKE_CXX_FLAGS=-include /opt/vp/cmake/compat.h -DIMPLICIT_CTDS_32BIT",
               "-DCMAKE_PROJECT_meqtrees_INCLUDE=/opt/vp/cmake/hook.cmake",
               "-DCASACORE_LIBRARY_casa_components=", "-DCASACORE_LIBRARY_casa_calibration=",
               "-DCASACORE_LIBRARY_casa_msvis=", "-DCASACORE_LIBRARY_casa_synthesis=", "-Wno-dev"]
        env = dict(os.environ, CC="gcc", CXX="g++")
        p = subprocess.run(cmd, capture_output=True, text=True, env=env)
        if p.returncode:
            raise Broken("cmake configure failed: " + p.stderr[-1500:])
        bdir = scratch
    p = subprocess.run(["ninja", "-C", bdir, "-t", "compdb"], capture_output=True, text=True)
    if p.returncode:
        raise Broken("ninja -t compdb failed: " + p.stderr[-500:])
    txt = p.stdout
    txt = txt[txt.index("["):]
    out, seen = [], set()
    for e in json.loads(txt):
        f = e["file"]
        if not f.endswith((".cc", ".cpp", ".c")) or " -c " not in e["command"]:
            continue
        if not os.path.isabs(f):
            f = os.path.normpath(os.path.join(e["directory"], f))
        if not f.startswith(REPO + "/") or f in seen or not f.endswith((".cc", ".cpp")):
            continue
        seen.add(f)
        a = shlex.split(e["command"])
        args, i = [], 1
        while i < len(a):
            x = a[i]
            if x in ("-MF", "-MT", "-o", "-c"):
                i += 2
                continue
            if x == "-MD" or x.startswith("-O") or x.startswith("-Wfatal") or x.startswith("-W") or x == "-fpermissive":
                i += 1
                continue
            if x.startswith("-std="):
                i += 1
                continue
            args.append(x)
            i += 1
        pre = ["clang++", "-std=gnu++17", "-fsyntax-only", "-w", "-ferror-limit=0", "-Wno-c++11-narrowing",
               "-resource-dir", "/usr/lib/llvm-18/lib/clang/18",
               "-I" + os.path.join(VERIF, "tool", "shim")]
        out.append({"file": f, "directory": e["directory"], "arguments": pre + args + [f]})
    if len(out) < 150:
        raise Broken("compile database has only %d units" % len(out))
    return out


# diagnostics clang raises on the unchanged tree and recovers from (gcc extensions accepted by the build)
BENIGN = [
    re.compile(r"access declaration"),
    re.compile(r"ISO C\+\+11 does not allow access declarations"),
    re.compile(r"non-constant-expression cannot be narrowed"),
    re.compile(r"allocation of incomplete type 'DMI::NumArray'"),
    re.compile(r"cannot be narrowed"),
    re.compile(r"use of undeclared identifier 'sys_siglist'"),
]


class Facts:
    def __init__(self):
        self.funcs = {}      # qname -> [func]
        self.classes = {}    # qname -> class
        self.enums = {}
        self.enumvals = {}
        self.globals = {}
        self.tus = []
        self.diags = []

    def fn(self, q, nparams=None, pred=None):
        """the unique function of that qualified name (optionally selected); Broken if absent"""
        c = [f for f in self.funcs.get(q, []) if (nparams is None or len(f["params"]) == nparams) and (pred is None or pred(f))]
        if not c:
            raise Broken("anchor function %s%s not found" % (q, "" if nparams is None else "/%d" % nparams))
        return c[0]

    def fns(self, q):
        return self.funcs.get(q, [])

    def all(self):
        for l in self.funcs.values():
            for f in l:
                yield f

    def subclasses(self, q):
        out, work = set(), [q]
        while work:
            b = work.pop()
            for n, c in self.classes.items():
                if b in c["bases"] and n not in out:
                    out.add(n)
                    work.append(n)
        return out

    def bases_of(self, q):
        out, work = [], [q]
        while work:
            b = work.pop()
            for x in self.classes.get(b, {}).get("bases", []):
                if x not in out:
                    out.append(x)
                    work.append(x)
        return out


def _headers_key(exe):
    h = hashlib.sha256(exe.encode())
    for d, ds, fs in os.walk(REPO):
        if "/.git" in d:
            continue
        for f in sorted(fs):
            if f.endswith((".h", ".hpp", ".inc")):
                h.update(open(os.path.join(d, f), "rb").read())
    return h.hexdigest()


def load(files, jobs=8):
    """extract facts for the given repo-relative translation units (paths or directory prefixes)"""
    exe = build_tool()
    db = compdb()
    byfile = {e["file"]: e for e in db}
    want = []
    for f in files:
        p = os.path.join(REPO, f)
        if f.endswith("/"):
            m = [x for x in byfile if x.startswith(p) and "/test/" not in x]
            if not m:
                raise Broken("no translation units under " + f)
            want += m
        elif p in byfile:
            want.append(p)
        else:
            raise Broken("translation unit %s is not part of the build" % f)
    want = sorted(set(want), key=lambda p: -os.path.getsize(p))
    tmp = tempfile.mkdtemp(prefix="sa-facts-")
    F = Facts()
    try:
        dbf = os.path.join(tmp, "compile_commands.json")
        json.dump([byfile[w] for w in want], open(dbf, "w"))
        # clang++ with chdir semantics: one process per unit, `jobs` at a time
        devcache = os.environ.get("SA_CACHE")       # development aid only
        hk = _headers_key(exe) if devcache else None

        def run(i):
            out = os.path.join(tmp, "o%d.jsonl" % i)
            if devcache:
                k = hashlib.sha256((hk + want[i] + " ".join(byfile[want[i]]["arguments"])).encode()
                                   + open(want[i], "rb").read()).hexdigest()[:24]
                out = os.path.join(devcache, k)
                if os.path.exists(out):
                    return want[i], out, 0, ""
            p = subprocess.run([exe, REPO, dbf, out, want[i]], capture_output=True, text=True)
            return want[i], out, p.returncode, p.stderr
        with ThreadPoolExecutor(jobs) as ex:
            res = list(ex.map(run, range(len(want))))
        seen = set()
        for w, out, rc, err in res:
            if rc != 0 or not os.path.exists(out):
                raise Broken("extractor failed on %s: %s" % (w, err[-500:]))
            with open(out) as fh:
                for line in fh:
                    # cheap de-duplication of header entities before decoding
                    i = line.find(',"tu":')
                    if line.startswith('{"k":"func"') and i > 0:
                        key = line[:i]
                        if key in seen:
                            continue
                        seen.add(key)
                    r = json.loads(line)
                    k = r["k"]
                    if k == "func":
                        F.funcs.setdefault(r["q"], []).append(r)
                    elif k == "class":
                        F.classes.setdefault(r["q"], r)
                    elif k == "enum":
                        F.enums.setdefault(r["q"], r)
                        for n, v in r["vals"]:
                            F.enumvals[n] = v
                    elif k == "global":
                        if r["q"] not in F.globals or r["def"]:
                            F.globals[r["q"]] = r
                    elif k == "diag":
                        F.diags.append(r)
                    elif k == "tu":
                        F.tus.append(r["f"])
        bad = [d for d in F.diags if not any(b.search(d["msg"]) for b in BENIGN)]
        fatal = [d for d in bad if d["fatal"]]
        if fatal:
            raise Broken("clang cannot parse %s: %s:%d %s" % (fatal[0]["tu"], fatal[0]["f"], fatal[0]["l"], fatal[0]["msg"]))
        F.bad = bad
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return F
