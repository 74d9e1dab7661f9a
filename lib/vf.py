"""Contract-based deductive verification of /repo with CBMC as the verifier.

A *goal* is one function (or a small group of functions) of /repo under contract: a harness in
/verif/harness states precondition (REQUIRES), postcondition / invariant / frame (ENSURES) and
reachability (REACHED) around a call of the real function.  Every run compiles /repo's current
sources with goto-cc, replaces callees that have contracts of their own by these contracts, turns
everything into verification conditions and lets a portfolio of back ends discharge them.  All
loops are unrolled completely (unwinding assertions are obligations too), so a discharged goal holds
for all inputs within the data structure sizes fixed in Config.h -- no sampling.

mode "bit" : machine integers, IEEE doubles, bit precise memory.
mode "real": the same sources, mechanically rewritten so that `double' is the verifier's type of
             mathematical reals (decimal literals become exact rationals); nothing else is changed.
"""
import concurrent.futures, glob, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, threading, time

REPO = os.environ.get("VF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CORES = int(os.environ.get("VF_CORES", "8"))

CONFIGS = {
    "sat":     [],
    "cad":     ["--sat-solver", "cadical"],
    "sat-nfs": ["--no-array-field-sensitivity"],
    "cad-nfs": ["--sat-solver", "cadical", "--no-array-field-sensitivity"],
    "z3":      ["--z3"],
    "z3-nfs":  ["--z3", "--no-array-field-sensitivity"],
    "z3n":     ["--z3", "--external-smt2-solver", "z3-new"],
    "z3n-nfs": ["--z3", "--external-smt2-solver", "z3-new", "--no-array-field-sensitivity"],
    "cvc5":    ["--cvc5"],
    "cvc5-nfs": ["--cvc5", "--no-array-field-sensitivity"],
}
MEMSAFE = ["--bounds-check", "--pointer-check", "--div-by-zero-check"]


class Goal:
    def __init__(self, name, harness, entry=None, mode="bit", unwind=12, unwindset=(), remove=(), configs=None,
                 flags=(), defs=(), kind="proved", bound=None, timeout=600, tier="quick", functions=(),
                 contracts=(), memsafe=False, native=True, native_args=(), includes=(), exclude=(), maxunwind=140,
                 objectbits=None, allow_nobody=(), note=None, unwindfn=None, hunwind=300, atoms=False, config=None):
        self.__dict__.update(locals())
        del self.__dict__["self"]
        self.entry = entry or name
        self.configs = configs or (["z3", "z3n", "cvc5"] if mode.startswith("real") else ["cad", "cad-nfs", "z3-nfs"])


class Failure(Exception):
    pass


_procs = set()
_plock = threading.Lock()


def run(cmd, timeout, cwd=None, cancel=None, env=None, stdin=None):
    """returns (rc, stdout, stderr, seconds); rc None when timed out or cancelled"""
    t0 = time.time()
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, env=env,
                         stdin=subprocess.DEVNULL, start_new_session=True)
    with _plock:
        _procs.add(p)
    out = [b"", b""]
    threads = [threading.Thread(target=lambda i, f: out.__setitem__(i, f.read()), args=(i, f), daemon=True)
               for i, f in ((0, p.stdout), (1, p.stderr))]
    for t in threads:
        t.start()
    rc = None
    while True:
        try:
            rc = p.wait(timeout=0.05)
            break
        except subprocess.TimeoutExpired:
            if time.time() - t0 > timeout or (cancel is not None and cancel.is_set()):
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                p.wait()
                break
    try:
        os.killpg(p.pid, signal.SIGKILL)   # solver children, if any are left
    except (ProcessLookupError, PermissionError):
        pass
    for t in threads:
        t.join(5)
    with _plock:
        _procs.discard(p)
    return rc, out[0].decode("utf8", "replace"), out[1].decode("utf8", "replace"), time.time() - t0


def convert_real(text, mode="real"):
    if mode == "ord":       # order embedding: the values are only compared and copied, so any order with enough values is as good; constants 0..1 become 0..255
        text = re.sub(r'(?<![\w."])([01])\.(\d+)(?![\w."])', lambda m: "((unsigned char) %d)" % round(float(m.group(0)) * 255) if float(m.group(0)) <= 1 else m.group(0), text)
        return re.sub(r'\bdouble\b', 'unsigned char', text)
    if mode == "realint":   # long becomes real too: a superset of the integers
        text = re.sub(r'\blong\b', '__CPROVER_real', text)
    text = re.sub(r'(?<![\w."])(\d+)\.(\d+)(?![\w."])',
                  lambda m: "(((__CPROVER_real)%d)/((__CPROVER_real)%d))" % (int(m.group(1) + m.group(2)), 10 ** len(m.group(2))), text)
    return re.sub(r'\bdouble\b', '__CPROVER_real', text)


class Session:
    """one run of one check: scratch directory with the goto binaries of the current /repo"""

    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="vf-")
        self.gb = {}
        self.lock = threading.Lock()
        self.locks = {}

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def _memo(self, key, make):
        with self.lock:
            l = self.locks.setdefault(key, threading.Lock())
        with l:
            if key not in self.gb:
                self.gb[key] = make()
            return self.gb[key]

    def srcdir(self, mode, config=()):
        """directory with the sources: /repo/src itself, or a mechanically rewritten copy (number type, sizes of Config.h)"""
        def make():
            if mode == "bit" and not config:
                return REPO + "/src"
            d = os.path.join(self.dir, "src_" + mode + "".join("_%s_%s" % kv for kv in config))
            os.makedirs(d)
            os.makedirs(os.path.join(d, "NetworkNAR"))
            for f in glob.glob(REPO + "/src/*.[ch]") + glob.glob(REPO + "/src/NetworkNAR/*.[ch]"):
                t = open(f).read()
                if os.path.basename(f) == "Config.h":
                    for k, v in config:
                        t, n = re.subn(r"(?m)^(\s*#define\s+%s)\b.*$" % k, r"\1 %s" % v, t)
                        if n != 1:
                            raise Failure("Config.h has no single definition of " + k)
                open(os.path.join(d, os.path.relpath(f, REPO + "/src")), "w").write(t if mode == "bit" else convert_real(t, mode))
            return d
        return self._memo(("src", mode, config), make)

    def ruletable(self):
        def make():
            d = os.path.join(self.dir, "rt")
            os.makedirs(d)
            srcs = [f for f in sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/NetworkNAR/*.c")) if not f.endswith("/RuleTable.c")]
            exe = os.path.join(d, "NAR1")
            rc, o, e, _ = run(["gcc", "-DSTAGE=1", "-w", "-O0", "-std=c99", "-pthread", "-D_POSIX_C_SOURCE=199506L"] + srcs + ["-lm", "-o", exe], 120)
            if rc != 0:
                raise Failure("stage-1 build failed:\n" + e[-3000:])
            rc, o, e, _ = run([exe, "NAL_GenerateRuleTable"], 60, cwd=d)
            if rc != 0:
                raise Failure("rule table generation failed")
            p = os.path.join(d, "RuleTable.c")
            open(p, "w").write(o)
            return p
        return self._memo("ruletable", make)

    def gendir(self):
        """directory with vf_atoms.h, the atom numbering of the real Narsese_INIT"""
        def make():
            d = os.path.join(self.dir, "gen")
            os.makedirs(d)
            srcs = [f for f in sorted(glob.glob(REPO + "/src/*.c") + glob.glob(REPO + "/src/NetworkNAR/*.c")) if not f.endswith("/RuleTable.c") and not f.endswith("/main.c")]
            exe = os.path.join(d, "atomsgen")
            rc, o, e, _ = run(["gcc", "-DSTAGE=1", "-w", "-O0", "-std=c99", "-pthread", "-D_POSIX_C_SOURCE=199506L", "-I" + REPO + "/src", VERIF + "/lib/atomsgen.c"] + srcs + ["-lm", "-o", exe], 120)
            if rc != 0:
                raise Failure("build of atomsgen failed:\n" + e[-3000:])
            rc, o, e, _ = run([exe], 60, cwd=d)
            if rc != 0:
                raise Failure("atomsgen failed")
            open(os.path.join(d, "vf_atoms.h"), "w").write(o)
            return d
        return self._memo("gendir", make)

    def repo_gb(self, mode, stem, defs=(), config=()):
        """goto binary of one /repo/src file (shared by the goals of this run)"""
        def make():
            src = self.srcdir(mode, config)
            f = self.ruletable() if stem == "RuleTable" else os.path.join(src, stem + ".c")
            out = os.path.join(self.dir, "%s_%s_%s.gb" % (mode, stem, re.sub(r"\W", "_", "".join(defs) + str(config))))
            rc, o, e, _ = run(["goto-cc", "-c", "-std=gnu99", "-DSTAGE=2", "-I" + src] + (["-include", VERIF + "/harness/vf_real.h"] + (["-DREALINT"] if mode == "realint" else []) if mode.startswith("real") else []) + list(defs) + ["-o", out, f], 120)
            if rc != 0 and mode != "bit":
                return None     # not expressible over the reals; a goal that needs it ends in an error (function without body)
            if rc != 0:
                raise Failure("goto-cc failed on %s:\n%s" % (f, (o + e)[-3000:]))
            return out
        return self._memo(("gb", mode, stem, tuple(defs), config), make)

    def stems(self):
        return sorted(os.path.basename(f)[:-2] for f in glob.glob(REPO + "/src/*.c") if os.path.basename(f) not in ("main.c", "RuleTable.c"))

    def build_goal(self, g):
        """link harness + repo, contracts replace the callees in g.remove; returns path of the goto binary"""
        def make():
            cfg = tuple(sorted((g.config or {}).items()))
            src = self.srcdir(g.mode, cfg)
            h = os.path.join(VERIF, "harness", g.harness)
            base = os.path.join(self.dir, "goal_" + g.name)
            incl = [VERIF + "/harness"]
            if g.mode != "bit":
                hd = os.path.join(self.dir, "harness_" + g.mode)
                with self.lock:
                    if not os.path.isdir(hd):
                        os.makedirs(hd)
                        for f in glob.glob(VERIF + "/harness/*.[ch]"):
                            open(os.path.join(hd, os.path.basename(f)), "w").write(convert_real(open(f).read(), g.mode))
                h = os.path.join(hd, g.harness)
                incl = [hd]
            text = open(h).read()
            if g.atoms:
                incl.append(self.gendir())
            included = set(re.findall(r'#include\s+"(\w+)\.c"', text))
            objs = [self.repo_gb(g.mode, s, (), cfg) for s in self.stems() if s not in included and s not in g.exclude]
            objs = [x for x in objs if x]
            if "RuleTable" in g.includes:
                objs.append(self.repo_gb(g.mode, "RuleTable", (), cfg))
            hg = base + "_h.gb"
            defs = ["-D" + d for d in g.defs]
            if g.mode.startswith("real"):
                defs += ["-DREALMODE"] + (["-DREALINT"] if g.mode == "realint" else []) + [ "-include", VERIF + "/harness/vf_real.h"]
            cmd = ["goto-cc", "-c", "-std=gnu99", "-DSTAGE=2", "-I" + src] + ["-I" + i for i in incl] + defs + ["-o", hg, h]
            rc, o, e, _ = run(cmd, 120)
            if rc != 0:
                raise Failure("goto-cc failed on harness %s:\n%s" % (g.harness, (o + e)[:600]))
            if g.remove:
                objs = [self.without(o, g.remove) for o in objs]
            full = base + ".gb"
            rc, o, e, _ = run(["goto-cc", "--function", g.entry, "-o", full, hg] + objs, 120)
            if rc != 0:
                raise Failure("link failed:\n" + (o + e)[-3000:])
            for step in ("--drop-unused-functions", "--slice-global-inits"):
                nxt = base + step + ".gb"
                rc, o, e, _ = run(["goto-instrument", step, full, nxt], 120)
                if rc != 0:
                    raise Failure("goto-instrument failed:\n" + (o + e)[-3000:])
                os.unlink(full)
                full = nxt
            return full
        return self._memo(("goal", g.name), make)

    def loops(self, g):
        """initial unwinding limits: loops of the harness run to their constant ends; loops of /repo start small and
        are raised one by one as long as the verifier reports that they are not exhausted"""
        def make():
            rc, o, e, _ = run(["goto-instrument", "--show-loops", "--json-ui", self.build_goal(g)], 120)
            u = {}
            try:
                for el in json.loads(o):
                    for l in el.get("loops", []):
                        f = l.get("sourceLocation", {}).get("file", "")
                        fn = l.get("sourceLocation", {}).get("function", "")
                        d = os.path.dirname(f)
                        if d == VERIF + "/harness" or d.startswith(self.dir + "/harness"):
                            u[l["name"]] = g.hunwind
                        elif g.unwindfn and fn in g.unwindfn:
                            u[l["name"]] = g.unwindfn[fn]
            except ValueError:
                raise Failure("show-loops failed: " + (o + e)[-500:])
            return u
        return dict(self._memo(("loops", g.name), make))

    def without(self, obj, names):
        """the object with the bodies of `names' dropped: the contract in the harness takes their place"""
        data = open(obj, "rb").read()
        names = [n for n in names if n.encode() in data]
        if not names:
            return obj

        def make():
            out = obj[:-3] + "_without_%d.gb" % (abs(hash(tuple(names))) % 10**12)
            cmd = ["goto-instrument"]
            for f in names:
                cmd += ["--remove-function-body", f]
            rc, o, e, _ = run(cmd + [obj, out], 120)
            if rc != 0:
                raise Failure("goto-instrument failed:\n" + (o + e)[-3000:])
            return out
        return self._memo(("without", obj, tuple(names)), make)

    def cbmc_cmd(self, g, cfg, unwind):
        cmd = ["cbmc", self.build_goal(g), "--function", g.entry, "--no-standard-checks",
               "--unwind", str(g.unwind), "--unwinding-assertions", "--slice-formula", "--drop-unused-functions"]
        if unwind:
            cmd += ["--unwindset", ",".join("%s:%d" % kv for kv in sorted(unwind.items()))]
        if g.memsafe:
            cmd += MEMSAFE
        if g.objectbits:
            cmd += ["--object-bits", str(g.objectbits)]
        return cmd + list(g.flags) + CONFIGS[cfg]


def parse_json(out):
    try:
        data = json.loads(out)
    except ValueError:
        return None
    res, warn, nobody = None, [], set()
    for el in data:
        if "result" in el:
            res = el["result"]
        m = el.get("messageText", "")
        w = re.search(r"no body for (?:callee|function) '?([\w$]+)'?", m)
        if w:
            nobody.add(w.group(1))
    return res, nobody


# functions that libc provides and that have no effect on the memory under contract
HARMLESS = {"puts", "printf", "fputs", "fflush", "fprintf", "putchar", "putc", "fputc"}


def solve(sess, g, cfg, unwind, cancel, timeout):
    cmd = sess.cbmc_cmd(g, cfg, unwind) + ["--json-ui"]
    rc, out, err, dt = run(cmd, timeout, cancel=cancel)
    if rc is None:
        return {"cfg": cfg, "status": "timeout", "time": dt, "cmd": cmd}
    p = parse_json(out)
    if p is None or p[0] is None:
        return {"cfg": cfg, "status": "toolerror", "time": dt, "cmd": cmd, "log": (out + err)[-2500:]}
    res, nobody = p
    bad = [r for r in res if r["status"] not in ("SUCCESS", "FAILURE")]
    if bad:
        return {"cfg": cfg, "status": "toolerror", "time": dt, "cmd": cmd, "log": str(bad[:5])[:1500]}
    return {"cfg": cfg, "status": "ok", "time": dt, "results": res, "nobody": nobody, "cmd": cmd}


def classify(res):
    obl, reach, unw = [], [], []
    for r in res:
        d = r.get("description", "")
        if d.startswith("REACH: "):
            reach.append(r)
        elif "unwinding assertion" in d or "recursion unwinding" in d:
            unw.append(r)
        else:
            obl.append(r)
    return obl, reach, unw


def grow(unwind, g, r):
    """raises the limit of the loop (or recursion) of a failed unwinding assertion"""
    m = re.match(r"^(.*)\.(unwind|recursion)(?:\.(\d+))?$", r["property"])
    if not m:
        return False
    key = m.group(1) + "." + m.group(3) if m.group(2) == "unwind" else m.group(1)
    n = unwind.get(key, g.unwind)
    if n >= g.maxunwind:
        return False
    unwind[key] = min(n * 2, g.maxunwind)
    return True


def decide(sess, g, tier, pool_sem):
    """returns a dict describing what happened to the goal"""
    timeout = g.timeout if tier == "quick" else max(g.timeout, 800)
    unwind = sess.loops(g)
    while True:
        cancel = threading.Event()
        answers = []
        cond = threading.Condition()

        def worker(cfg):
            with pool_sem:
                if cancel.is_set():
                    a = {"cfg": cfg, "status": "timeout", "time": 0.0}
                else:
                    try:
                        a = solve(sess, g, cfg, unwind, cancel, timeout)
                    except Failure as ex:
                        a = {"cfg": cfg, "status": "toolerror", "time": 0.0, "log": str(ex)}
            with cond:
                answers.append(a)
                cond.notify()
        ths = [threading.Thread(target=worker, args=(c,), daemon=True) for c in g.configs]
        for t in ths:
            t.start()
        pick = None
        with cond:
            while len(answers) < len(g.configs):
                cond.wait(1)
                ok = [a for a in answers if a["status"] == "ok"]
                if ok and (tier == "quick" or any(classify(ok[0]["results"])[2][i]["status"] == "FAILURE" for i in range(len(classify(ok[0]["results"])[2])))):
                    pick = ok[0]
                    break
        cancel.set()
        for t in ths:
            t.join()
        oks = [a for a in answers if a["status"] == "ok"]
        if pick is None and oks:
            pick = oks[0]
        if pick is None:
            return {"goal": g, "status": "error", "why": "no back end answered", "answers": answers}
        if tier == "thorough":
            sig = set(tuple(sorted((r["property"], r["status"]) for r in a["results"])) for a in oks)
            if len(sig) > 1 and not any("-nfs" in a["cfg"] for a in oks):
                return {"goal": g, "status": "error", "why": "back ends disagree", "answers": answers}
        obl, reach, unw = classify(pick["results"])
        if any(r["status"] == "FAILURE" for r in unw):
            if any(r["status"] == "FAILURE" for r in obl):
                pass    # a genuine failure inside the unrolled part is a failure whatever the bound
            elif all(grow(unwind, g, r) for r in unw if r["status"] == "FAILURE"):
                continue
            else:
                return {"goal": g, "status": "error", "why": "loops not exhausted: %s" % ([r["property"] for r in unw if r["status"] == "FAILURE"][:5]), "answers": answers}
        failed = [r for r in obl if r["status"] == "FAILURE"]
        vac = [r for r in reach if r["status"] == "SUCCESS"]
        st = "failed" if failed else "discharged"
        if not failed and vac:
            return {"goal": g, "status": "error", "why": "vacuous: not reachable: %s" % [r["description"] for r in vac], "answers": answers}
        if not failed and not obl:
            return {"goal": g, "status": "error", "why": "no obligations generated", "answers": answers}
        alien = {x for x in pick["nobody"] if x not in HARMLESS and x not in g.allow_nobody}
        if not failed and alien:
            return {"goal": g, "status": "error", "why": "functions without code or contract: %s" % sorted(alien), "answers": answers}
        if not failed and not reach:
            return {"goal": g, "status": "error", "why": "harness has no reachability guard", "answers": answers}
        return {"goal": g, "status": st, "pick": pick, "obl": obl, "reach": reach, "unw": unw, "failed": failed,
                "answers": answers, "unwind": unwind,
                "confirmed": sorted(a["cfg"] for a in oks)}


# ---------------------------------------------------------------- counterexample -> native replay

def cvalue(v):
    n = v.get("name")
    if n == "struct":
        ms = [".%s = %s" % (m["name"], cvalue(m["value"])) for m in v["members"] if not m["name"].startswith("$pad")]
        return "{" + ", ".join(ms) + "}"
    if n == "union":
        m = v["member"]
        return "{.%s = %s}" % (m["name"], cvalue(m["value"]))
    if n == "array":
        return "{" + ", ".join("[%d] = %s" % (e["index"], cvalue(e["value"])) for e in v["elements"]) + "}"
    if n == "boolean":
        return "1" if str(v.get("data")).lower() in ("true", "1") else "0"
    if n == "float" and v.get("binary"):
        b = v["binary"]
        if len(b) == 64:
            d = struct.unpack(">d", int(b, 2).to_bytes(8, "big"))[0]
            if d != d:
                return "(0.0/0.0)"
            if d in (float("inf"), float("-inf")):
                return "(%s1.0/0.0)" % ("-" if d < 0 else "")
            return d.hex()
    if n in ("integer", "float", "rational", "real", "unknown") or "data" in v:
        d = str(v.get("data", "0"))
        b = v.get("binary")
        if b and n == "integer":
            ty = v.get("type", "")
            val = int(b, 2)
            if "unsigned" not in ty and b[0] == "1" and ty not in ("_Bool", "__CPROVER_bool"):
                val -= 1 << len(b)
            if val == -(1 << 63):
                return "(-9223372036854775807L-1)"
            return "%dL" % val
        m = re.match(r"^(-?\d+)/(\d+)$", d)
        if m:
            return "(%s.0/%s.0)" % m.groups()
        m = re.match(r"^-?\d+(\.\d+)?$", d)
        if m:
            return d if "." in d else d + ".0" if n in ("float", "rational", "real", "unknown") and "real" in v.get("type", "real") else d
        m = re.match(r"^(-?\d+)[ulUL]*$", d)
        if m:
            return m.group(1)
        if d.upper() in ("TRUE", "FALSE"):
            return "1" if d.upper() == "TRUE" else "0"
    raise ValueError("value %s" % str(v)[:200])


def trace_assignments(trace):
    out = []
    for s in trace:
        if s.get("stepType") != "assignment":
            continue
        lhs = s.get("lhs", "")
        if not re.match(r"^in_\w+", lhs) or "$pad" in lhs:
            continue
        loc = s.get("sourceLocation", {}).get("function")
        if loc in ("__CPROVER_initialize", "__CPROVER__start", None):
            continue
        try:
            out.append((lhs, s["value"], cvalue(s["value"])))
        except (ValueError, KeyError):
            pass
    return out


def get_trace(sess, g, cfgs, unwind, prop, timeout=300):
    for cfg in cfgs:
        cmd = sess.cbmc_cmd(g, cfg, unwind) + ["--json-ui", "--trace", "--property", prop]
        rc, out, err, dt = run(cmd, timeout)
        if rc is None:
            continue
        p = parse_json(out)
        if p and p[0]:
            for r in p[0]:
                if r.get("property") == prop and r.get("trace"):
                    return r["trace"], cmd
    return None, None


def sexpr_value(t):
    """C text of an SMT-LIB numeral"""
    t = t.strip()
    m = re.match(r"^#x([0-9a-f]+)$", t)
    if m:
        v = int(m.group(1), 16)
        n = 4 * len(m.group(1))
        if v >> (n - 1):
            v -= 1 << n
        return "(-9223372036854775807L-1)" if v == -(1 << 63) else "%dL" % v
    m = re.match(r"^#b([01]+)$", t)
    if m:
        return "%dL" % int(m.group(1), 2)
    if t in ("true", "false"):
        return "1" if t == "true" else "0"
    m = re.match(r"^\(- (.*)\)$", t)
    if m:
        return "(-%s)" % sexpr_value(m.group(1))
    m = re.match(r"^\(/ (.*) (.*?)\)$", t)
    if m:
        return "(%s/%s)" % (sexpr_value(m.group(1)), sexpr_value(m.group(2)))
    if re.match(r"^\d+(\.\d+)?$", t):
        if float(t) > 1e300:
            raise ValueError(t)
        return t if "." in t else t + ".0"
    raise ValueError(t)


def real_model(sess, g, unwind, prop, timeout=300):
    tee = os.path.join(sess.dir, "tee_" + g.name)
    cmd = [x for x in sess.cbmc_cmd(g, "z3", unwind)] + ["--property", prop, "--external-smt2-solver", os.path.join(VERIF, "lib", "z3tee.sh")]
    rc, out, err, dt = run(cmd, timeout, env=dict(os.environ, VF_TEE=tee))
    if rc is None or not os.path.exists(tee):
        return None
    first = {}
    for m in re.finditer(r"\(\(\|(in_[^|]*)\|\s+(.*?)\)\)\s*$", open(tee).read(), re.M):
        name, val = m.groups()
        mm = re.match(r"^(in_\w+)(?:!0(?:@\d+)?)?#(\d+)(.*)$", name)
        if not mm:
            continue
        lv = mm.group(1) + re.sub(r"\.\.", ".", mm.group(3)).replace("[[", "[").replace("]]", "]")
        n = int(mm.group(2))
        if n < 2 or (lv in first and first[lv][0] <= n):
            continue
        try:
            first[lv] = (n, sexpr_value(val))
        except ValueError:
            pass
    return [(lv, None, v) for lv, (n, v) in sorted(first.items())]


def native_replay(sess, g, assigns, outdir, prop):
    """compiles the harness with gcc against the real sources and runs it on the prover's inputs"""
    d = os.path.join(outdir, "replay_" + g.name)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    body = []
    for lhs, v, c in assigns:
        if c.startswith("{"):
            body.append("    { __typeof__(%s) v = %s; memcpy(&(%s), &v, sizeof v); }" % (lhs, c, lhs))
        else:
            body.append("    %s = %s;" % (lhs, c))
    prog = os.path.join(d, "replay.c")
    src = sess.srcdir("bit", tuple(sorted((g.config or {}).items())))
    h = os.path.join(VERIF, "harness", g.harness)
    open(prog, "w").write('/* replays the verifier\'s counterexample to %s on the real code */\n#include "%s"\nint main(void)\n{\n%s\n    %s();\n    puts("NOT-REPRODUCED");\n    return 0;\n}\n'
                          % (prop, g.harness, "\n".join(body), g.entry))
    included = set(re.findall(r'#include\s+"(\w+)\.c"', open(h).read()))
    objs = [os.path.join(src, s + ".c") for s in sess.stems() if s not in included and s not in g.exclude]
    if "RuleTable" in g.includes:
        objs.append(sess.ruletable())
    else:
        objs.append(os.path.join(VERIF, "harness", "noruletable.c"))
    objs += glob.glob(src + "/NetworkNAR/Metric.c") + glob.glob(src + "/NetworkNAR/UDP.c")
    exe = os.path.join(sess.dir, "replay_" + g.name)
    cmd = ["gcc", "-DNATIVE", "-DSTAGE=2", "-w", "-g", "-O1", "-std=gnu99", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined",
           "-fno-sanitize=signed-integer-overflow,shift,float-cast-overflow,float-divide-by-zero",
           "-pthread", "-I" + src, "-I" + VERIF + "/harness"] + (["-I" + sess.gendir()] if g.atoms else []) + ["-D" + x for x in g.defs] + [prog] + objs + ["-lm", "-o", exe]
    rc, o, e, _ = run(cmd, 180)
    open(os.path.join(d, "build.txt"), "w").write(" ".join(cmd) + "\n" + o + e)
    if rc != 0:
        return None, "native build failed: " + e[-500:], prog
    rc, o, e, _ = run([exe], 30, cwd=d, env=dict(os.environ, ASAN_OPTIONS="detect_leaks=0"))
    open(os.path.join(d, "run.txt"), "w").write("exit %s\n%s\n%s" % (rc, o[-5000:], e[-5000:]))
    if rc is None:
        return True, "the real code does not terminate within 30 s on the counterexample", prog
    if rc == 0 or rc == 77:
        return False, (o + e)[-300:].strip(), prog
    return True, ("exit %s: " % rc) + (o[-300:] + e[:600]).strip(), prog


def describe(assigns):
    return {lhs: re.sub(r"\s+", " ", c)[:400] for lhs, v, c in assigns}
