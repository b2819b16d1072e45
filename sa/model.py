"""Parses /repo's current sources with tool/extract and serves the resolved program to the rules."""
import glob, json, os, re, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SA_REPO", "/repo")
CORE = REPO + "/src/sst/core"


class AnalysisError(Exception):
    """The analysis cannot give an answer (anchor vanished, source does not parse)."""


def extractor():
    r = subprocess.run(["bash", VERIF + "/tool/build.sh"], capture_output=True, text=True)
    if r.returncode:
        raise AnalysisError("extractor does not build: " + r.stderr[-2000:])
    import hashlib
    h = hashlib.sha256(open(VERIF + "/tool/extract.cc", "rb").read()).hexdigest()[:16]
    return VERIF + "/build/extract-" + h


def flags():
    gen = REPO + "/_build/src"
    if not os.path.exists(gen + "/sst/core/sst_config.h"):
        gen = VERIF + "/tool/gen"
    return ("-std=c++17 -DHAVE_CONFIG_H -DTIXML_USE_STL -DSST_BUILDING_CORE=1 -D_DEFAULT_SOURCE -D_XOPEN_SOURCE=600 "
            f"-I/usr/include/python3.12 -I{REPO}/external -I{REPO}/src -I{gen} -I{gen}/sst/core "
            "-I/usr/lib/x86_64-linux-gnu/openmpi/include -I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi "
            "-I/usr/include/hdf5/serial -w -ferror-limit=3 -resource-dir /usr/lib/llvm-18/lib/clang/18").split()


def core_tus():
    out = []
    for d, dirs, fs in os.walk(CORE):
        dirs[:] = sorted(x for x in dirs if x not in ("testElements", "testingframework"))
        for f in sorted(fs):
            if f.endswith(".cc"):
                out.append(os.path.relpath(os.path.join(d, f), CORE))
    return out


_ID = re.compile(r'^\{"k":"(func|class|enum|gvar|end)",(?:"id":"((?:[^"\\]|\\.)*)","q":"((?:[^"\\]|\\.)*)","n":"((?:[^"\\]|\\.)*)"|"q":"((?:[^"\\]|\\.)*)"(?:,"t":"((?:[^"\\]|\\.)*)")?|"errors":(\d+))')


def strip_t(q):
    """drop template argument lists from a qualified name"""
    if "<" not in q:
        return q
    o, d, i = [], 0, 0
    n = len(q)
    while i < n:
        if q.startswith("operator", i) and d == 0:
            m = re.match(r"operator\s*(<=>|<<=|>>=|<<|>>|<=|>=|->\*|->|<|>)", q[i:])
            if m:
                o.append(m.group(0)); i += m.end(); continue
        c = q[i]
        if c == "<": d += 1
        elif c == ">": d -= 1
        elif d == 0: o.append(c)
        i += 1
    return "".join(o)


class Func:
    __slots__ = ("raw", "_d", "id", "q", "n", "sq", "prog", "_info")

    def __init__(self, raw, id, q, n, prog):
        self.raw, self.id, self.q, self.n, self.prog = raw, id, q, n, prog
        self.sq = strip_t(q)
        self._d = None
        self._info = None

    @property
    def d(self):
        if self._d is None:
            self._d = json.loads(self.raw)
        return self._d

    @property
    def body(self): return self.d["body"]
    @property
    def file(self): return self.d["f"]
    @property
    def rel(self): return os.path.relpath(self.d["f"], REPO) if self.d["f"].startswith(REPO) else self.d["f"]
    @property
    def line(self): return self.d["l"]
    @property
    def cls(self): return self.d.get("cls")
    @property
    def params(self): return self.d["params"]
    def where(self, line=None): return f"{self.rel}:{line or self.line}"
    def __repr__(self): return f"<Func {self.q}>"


class Program:
    def __init__(self):
        self.funcs = {}      # id -> Func
        self.by_sq = {}      # qualified name without template args -> [Func]
        self.classes = {}    # type string -> dict
        self.cls_by_sq = {}
        self.enums = {}
        self.gvars = {}
        self.tus = []
        self._overriders = None
        self._derived = None

    def add_file(self, path):
        ok = False
        with open(path) as f:
            for ln in f:
                m = _ID.match(ln)
                if not m:
                    raise AnalysisError("bad extractor line: " + ln[:200])
                k = m.group(1)
                if k == "func":
                    id = m.group(2)
                    if "\\" in id: id = json.loads('"' + id + '"')
                    if id in self.funcs: continue
                    q = m.group(3)
                    if "\\" in q: q = json.loads('"' + q + '"')
                    fn = Func(ln, id, q, m.group(4), self)
                    self.funcs[id] = fn
                    self.by_sq.setdefault(fn.sq, []).append(fn)
                elif k == "end":
                    ok = m.group(7) == "0"
                else:
                    d = json.loads(ln)
                    if k == "class":
                        key = d["t"] + ("#dep" if d.get("dep") else "")
                        if key not in self.classes:
                            self.classes[key] = d
                            d["sq"] = strip_t(d["q"])
                            self.cls_by_sq.setdefault(d["sq"], []).append(d)
                    elif k == "enum":
                        self.enums.setdefault(d["q"], d)
                    else:
                        if d["q"] not in self.gvars or self.gvars[d["q"]]["init"] is None:
                            self.gvars[d["q"]] = d
        return ok

    # ---- lookup
    def find(self, sq, required=True):
        """functions whose qualified name (no template args) equals or ends with ::sq"""
        r = self.by_sq.get(sq)
        if r is None:
            r = [f for k, v in self.by_sq.items() if k.endswith("::" + sq) for f in v]
        if not r and required:
            raise AnalysisError(f"anchor function {sq} not found in the current source")
        return r

    def one(self, sq):
        r = self.find(sq)
        return r[0]

    def cls(self, sq, required=True):
        r = self.cls_by_sq.get(sq)
        if r is None:
            r = [c for k, v in self.cls_by_sq.items() if k.endswith("::" + sq) for c in v]
        if not r and required:
            raise AnalysisError(f"anchor class {sq} not found in the current source")
        return r

    def in_repo(self): return self.funcs.values()

    # ---- class hierarchy
    @property
    def overriders(self):
        """method id -> ids of methods directly overriding it"""
        if self._overriders is None:
            o = {}
            for c in self.classes.values():
                for m in c["methods"]:
                    for b in m[3]:
                        o.setdefault(b, set()).add(m[1])
            self._overriders = o
        return self._overriders

    def all_overriders(self, id):
        out, todo = set(), [id]
        while todo:
            x = todo.pop()
            for y in self.overriders.get(x, ()):
                if y not in out:
                    out.add(y); todo.append(y)
        return out

    @property
    def derived(self):
        if self._derived is None:
            d = {}
            for c in self.classes.values():
                if c.get("dep"): continue
                for b in c["bases"]:
                    d.setdefault(b[1], set()).add(c["t"])
            self._derived = d
        return self._derived

    def subclasses(self, t):
        out, todo = set(), [t]
        while todo:
            for y in self.derived.get(todo.pop(), ()):
                if y not in out:
                    out.add(y); todo.append(y)
        return out

    def bases(self, t):
        out, todo = [], [t]
        while todo:
            c = self.classes.get(todo.pop())
            if c:
                for b in c["bases"]:
                    if b[1] not in out:
                        out.append(b[1]); todo.append(b[1])
        return out


def load(tus="all", extra=(), prefixes=None, verbose=True, tests=False):
    """tus: 'all' or list of paths relative to src/sst/core (globs allowed); extra: absolute paths of witness files"""
    t0 = time.time()
    ex = extractor()
    allt = core_tus()
    if tus == "all":
        sel = allt
    else:
        import fnmatch
        sel = []
        for p in tus:
            m = [x for x in allt if fnmatch.fnmatch(x, p)]
            if not m and verbose:
                print(f"note: no translation unit matches {p}")
            sel += [x for x in m if x not in sel]
    if not sel:
        raise AnalysisError("no translation units selected")
    work = [CORE + "/" + x for x in sel] + list(extra)
    if tests:
        work += sorted(glob.glob(CORE + "/testElements/*.cc"))
    ck = None
    if os.environ.get("SA_CACHE"):   # development only: never set by the registered commands
        import hashlib, pickle
        h = hashlib.sha256(ex.encode() + repr((sorted(work), prefixes)).encode())
        for d, dirs, fs in sorted(os.walk(REPO + "/src")):
            for f in sorted(fs):
                if f.endswith((".cc", ".h")):
                    h.update(f.encode()); h.update(open(d + "/" + f, "rb").read())
        for w in extra: h.update(open(w, "rb").read())
        ck = os.environ["SA_CACHE"] + "/" + h.hexdigest()[:24] + ".pkl"
        if os.path.exists(ck):
            return _unpickle(ck)
    work.sort(key=lambda p: -(os.path.getsize(p) if os.path.exists(p) else 0))
    tmp = tempfile.mkdtemp(prefix="sa-")
    env = {k: v for k, v in os.environ.items() if k != "LD_LIBRARY_PATH"}
    pref = prefixes or (REPO + "/src," + VERIF + "/tool/witness")
    try:
        def run(i):
            out = f"{tmp}/{i}.json"
            r = subprocess.run([ex, out, work[i], pref, "--"] + flags(), capture_output=True, text=True, env=env, cwd=REPO)
            return i, out, r.returncode, r.stderr
        prog = Program()
        bad = []
        with ThreadPoolExecutor(max_workers=min(8, os.cpu_count() or 4)) as pool:
            for i, out, rc, err in pool.map(run, range(len(work))):
                if rc != 0 or not os.path.exists(out):
                    bad.append((work[i], err[-1500:]))
                    continue
                if not prog.add_file(out):
                    bad.append((work[i], err[-1500:]))
                    continue
                os.unlink(out)
                prog.tus.append(os.path.relpath(work[i], REPO))
        if bad:
            raise AnalysisError("translation units that do not parse: " + "; ".join(f"{a}: {b}" for a, b in bad[:3]))
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    prog.parse_s = time.time() - t0
    if verbose:
        print(f"parsed {len(prog.tus)} translation units, {len(prog.funcs)} function bodies, {len(prog.classes)} classes "
              f"in {prog.parse_s:.1f} s")
    if ck:
        _pickle(prog, ck)
    return prog


def _pickle(prog, path):
    import pickle
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path + ".tmp", "wb") as f:
        pickle.dump(([(x.raw, x.id, x.q, x.n) for x in prog.funcs.values()], prog.classes, prog.enums, prog.gvars,
                     prog.tus, prog.parse_s), f, protocol=5)
    os.rename(path + ".tmp", path)


def _unpickle(path):
    import pickle
    prog = Program()
    with open(path, "rb") as f:
        fs, prog.classes, prog.enums, prog.gvars, prog.tus, prog.parse_s = pickle.load(f)
    for raw, i, q, n in fs:
        fn = Func(raw, i, q, n, prog)
        prog.funcs[i] = fn
        prog.by_sq.setdefault(fn.sq, []).append(fn)
    for d in prog.classes.values():
        prog.cls_by_sq.setdefault(d["sq"], []).append(d)
    return prog
