"""Common machinery of the checks: build, drive the real code, judge with TLC."""
import resource, json, os, re, shutil, subprocess, sys, time, glob, hashlib, tempfile
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARN = os.path.join(VERIF, "harness")
REPO = "/repo"
TLAJ = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NCPU = 8


class ToolError(Exception):
    pass


def sh(cmd, timeout=None, cwd=None, env=None):
    e = dict(os.environ)
    e.pop("RUSTFLAGS", None)
    if env:
        e.update(env)
    p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def build_java():
    cls = os.path.join(VERIF, "java", "classes")
    src = sorted(glob.glob(os.path.join(VERIF, "java", "*.java")))
    stamp = os.path.join(cls, ".stamp")
    h = hashlib.sha1(b"".join(open(s, "rb").read() for s in src)).hexdigest()
    if os.path.exists(stamp) and open(stamp).read() == h:
        return cls
    os.makedirs(cls, exist_ok=True)
    rc, out = sh(["javac", "-cp", TLAJ, "-d", cls] + src, timeout=120)
    if rc != 0:
        raise ToolError("javac failed:\n" + out)
    open(stamp, "w").write(h)
    return cls


CRATE_OF = {"c28": "harness-ffi", "c29": "harness-cli"}
EXTRA_BINS = {"c29": ["rustfst-cli"]}   # what a driver runs besides itself


def build_harness(bins):
    for crate in sorted({CRATE_OF.get(b, "harness") for b in bins}):
        cmd = ["cargo", "build", "--release", "--offline", "-q"]
        for b in bins:
            if CRATE_OF.get(b, "harness") == crate:
                for x in [b] + EXTRA_BINS.get(b, []):
                    cmd += ["--bin", x]
        rc, out = sh(cmd, timeout=800, cwd=os.path.join(VERIF, crate),
                     env={"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(HARN, "target")})
        if rc != 0:
            i = out.find("error")
            raise ToolError("harness build failed:\n" + out[max(i, 0):][:4000])
    return [os.path.join(HARN, "target", "release", b) for b in bins]


def build_dylib():
    """The C library as the shared object the Python package loads."""
    rc, out = sh(["cargo", "build", "--release", "--offline", "-q", "-p", "rustfst-ffi"], timeout=800,
                 cwd=os.path.join(VERIF, "harness-ffi"),
                 env={"CARGO_NET_OFFLINE": "true", "CARGO_TARGET_DIR": os.path.join(HARN, "target")})
    if rc != 0:
        i = out.find("error")
        raise ToolError("library build failed:\n" + out[max(i, 0):][:4000])
    return os.path.join(HARN, "target", "release", "librustfst_ffi.so")


def tlc(module, cfg, wd, env=None, workers=1, timeout=600, extra=(), heap="2g", java=()):
    """Runs TLC on spec/<module>.tla with spec/<cfg>; returns (rc, output)."""
    cls = os.path.join(VERIF, "java", "classes")
    md = tempfile.mkdtemp(prefix="tlc_", dir=wd)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC",
           "-Djava.io.tmpdir=" + md,
           "-Dtlc2.overrides.TLCOverrides=WFSTOverrides:tlc2.overrides.TLCOverrides"] + list(java) + [
           "-cp", TLAJ + ":" + cls, "tlc2.TLC", "-workers", str(workers), "-metadir", md, "-noGenerateSpecTE",
           "-config", os.path.join(SPEC, cfg)] + list(extra) + [os.path.join(SPEC, module + ".tla")]
    try:
        rc, out = sh(cmd, timeout=timeout, cwd=SPEC, env=env)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on " + module)
    finally:
        shutil.rmtree(md, ignore_errors=True)
    return rc, out


def _bounded():
    """Memory limit of a driver: a runaway call ends in an abort, which is an outcome."""
    resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))


class Ctx:
    """One run of one check."""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.wd = tempfile.mkdtemp(prefix="vchk_%s_" % prop, dir=os.environ.get("VERIF_TMP", "/tmp"))
        self.violations = []   # dicts
        self.known_hits = []
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
        self.detail = {}
        self.clause_counts = {}
        kf = os.path.join(VERIF, "known_findings.json")
        self.known = [k for k in (json.load(open(kf)) if os.path.exists(kf) else []) if k.get("property") == prop and k.get("status") == "known"]

    # ---- real code
    def drive(self, binary, cases, tag, limit_ms=20000, extra=()):
        """Runs the driver in NCPU shards; returns the trace files."""
        files = [os.path.join(self.wd, "%s.%d.ndjson" % (tag, i)) for i in range(NCPU)]

        def one(i):
            frm = 0
            f = files[i]
            open(f, "w").close()
            for attempt in range(200):
                cmd = [binary, "--seed", str(self.seed), "--cases", str(cases), "--shard", str(i), "--nshards", str(NCPU),
                       "--from", str(frm), "--out", f, "--tier", self.tier, "--limit-ms", str(limit_ms)] + list(extra)
                p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=self.wd, timeout=3000,
                                   preexec_fn=_bounded)
                if p.returncode == 0:
                    return
                cur = ""
                try:
                    cur = open(f + ".cur").read().split("\n")[0].rstrip()
                except OSError:
                    pass
                if p.returncode == 3 or not cur.startswith("{"):
                    raise ToolError("driver failed rc=%d: %s" % (p.returncode, p.stderr.decode("utf-8", "replace")[-500:]))
                kind = "hang" if p.returncode == 77 else "crash"
                # drop a torn last line, then record the outcome
                data = open(f, "rb").read()
                cut = data.rfind(b"\n") + 1
                with open(f, "wb") as g:
                    g.write(data[:cut])
                    g.write((cur + ',"k":"%s","m":"rc=%d"}\n' % (kind, p.returncode)).encode())
                frm = json.loads(cur + ',"k":0}')["c"] + 1
                if attempt > 8:
                    return
        with ThreadPoolExecutor(NCPU) as ex:
            list(ex.map(one, range(NCPU)))
        return [f for f in files if os.path.getsize(f) > 0]

    # ---- specification
    def judge(self, files, module="TraceRustFst", cfg=None, timeout=700, only=None, env=None):
        """Validates each trace with its own TLC; collects BAD events."""
        cfg = cfg or module + ".cfg"

        def one(f):
            ee = {"TRACE": f}
            ee.update(env or {})
            return f, tlc(module, cfg, self.wd, env=ee, timeout=timeout)
        with ThreadPoolExecutor(NCPU) as ex:
            res = list(ex.map(one, files))
        for f, (rc, out) in res:
            m = re.search(r'"CONSUMED (\d+) OF (\d+)"', out)
            if rc != 0 or not m or m.group(1) != m.group(2):
                keep = os.path.join("/tmp", "vchk_fail_%s.txt" % self.prop)
                open(keep, "w").write(out)
                i = out.find("Error:")
                raise ToolError("TLC did not consume the trace %s (rc=%d):\n%s" % (f, rc, out[i if i >= 0 else -3000:][:3000]))
            n = int(m.group(1))
            self.cov["states"] += n + 1
            self.cov["transitions"] += n
            for a, b, c, k in re.findall(r'"CNT (\S+) (\S+) (\S+) (\d+)"', out):
                d = self.clause_counts.setdefault(a + "." + b, {})
                d[c] = d.get(c, 0) + int(k)
            bads = re.findall(r'"BAD (\d+) (\d+) (\S+) \{(.*?)\}"', out, re.S)
            nbad = sum(int(k) for _, _, c, k in re.findall(r'"CNT (\S+) (\S+) (\S+) (\d+)"', out) if c == "bad")
            nrep = 0
            if bads:
                lines = open(f).read().split("\n")
                for ln, case, op, clauses in bads:
                    cl = sorted(re.findall(r'[A-Za-z0-9_\-:.<>=]+', clauses.replace('\\"', '"')))
                    nrep += len(cl)
                    self.violations.append({"file": f, "line": int(ln), "case": int(case), "op": op, "clauses": cl,
                                            "event": lines[int(ln) - 1], "lines": lines})
            if nbad != nrep:
                raise ToolError("TLC counted %d failed clauses in %s but %d were reported" % (nbad, f, nrep))
        ncases = set()
        for f in files:
            with open(f) as g:
                for line in g:
                    if line.startswith('{"op":"reset"'):
                        ncases.add(line)
        self.cov["traces_validated_against_impl"] += len(ncases)
        for f in files[:2]:
            with open(f) as g:
                for line in g:
                    if '"k":' in line and len(line) < 900:
                        self.cov["samples"].append(line.strip())
                        if len(self.cov["samples"]) % 3 == 0:
                            break

    def add_violation(self, op, clauses, event, case=0):
        self.violations.append({"file": "", "line": 0, "case": case, "op": op, "clauses": list(clauses),
                                "event": event if isinstance(event, str) else json.dumps(event), "lines": []})

    def model(self, module, cfg=None, workers=NCPU, timeout=600, extra=(), env=None, heap="8g"):
        """Exhaustive design-level check; a failing design is a tool error (the spec is wrong)."""
        t = time.time()
        rc, out = tlc(module, cfg or module + ".cfg", self.wd, workers=workers, timeout=timeout, extra=extra, env=env, heap=heap)
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        if rc != 0 or not m:
            raise ToolError("design model %s failed:\n%s" % (module, out[-3000:]))
        self.cov["transitions"] += int(m[-1][0])
        self.cov["states"] += int(m[-1][1])
        self.detail["model_" + module] = {"generated": int(m[-1][0]), "distinct": int(m[-1][1]), "wall_s": round(time.time() - t, 1)}
        return out

    # ---- verdict
    def is_known(self, v):
        for k in self.known:
            if k.get("op") not in (None, v["op"]):
                continue
            if "clauses" in k and not set(v["clauses"]) <= set(k["clauses"]):
                continue
            if "match" in k and not re.search(k["match"], v["event"]):
                continue
            return k
        return None

    def finish(self, level, note=""):
        real = []
        hits = {}
        for v in self.violations:
            k = self.is_known(v)
            if k:
                hits.setdefault(k["id"], [k, 0])[1] += 1
            else:
                real.append(v)
        for k in self.known:
            print("KNOWN-FINDING: property=%s %s (seen %d times in this run)" % (self.prop, k["what"], hits.get(k["id"], [0, 0])[1]))
        rc = 0
        if real:
            rd = os.path.join(VERIF, "replays")
            os.makedirs(rd, exist_ok=True)
            # one VIOLATION line per op/clause class, smallest event as the replay
            cls = {}
            for v in real:
                cls.setdefault((v["op"], tuple(v["clauses"])), []).append(v)
            for key, vs in sorted(cls.items()):
                v = min(vs, key=lambda x: len(x["event"]))
                hist = []
                if v["lines"]:
                    j = v["line"] - 1
                    i = j
                    while i > 0 and not v["lines"][i].startswith('{"op":"reset"'):
                        i -= 1
                    hist = v["lines"][i:j + 1]
                name = "%s_%s_%s_seed%d.json" % (self.prop, re.sub(r"\W+", "_", v["op"]), "_".join(re.sub(r"\W+", "_", c) for c in v["clauses"])[:60], self.seed)
                path = os.path.join(rd, name)
                json.dump({"property": self.prop, "op": v["op"], "failed_clauses": v["clauses"], "seed": self.seed, "case": v["case"],
                           "occurrences": len(vs), "event": json.loads(v["event"]) if v["event"].startswith("{") else v["event"],
                           "history": [json.loads(x) for x in hist if x]}, open(path, "w"), indent=1)
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                print("   op=%s clauses=%s occurrences=%d event=%s" % (v["op"], v["clauses"], len(vs), v["event"][:600]))
            rc = 1
        if not self.cov["samples"]:
            self.cov["samples"] = ["(no calls recorded)"]
        self.detail["clauses"] = self.clause_counts
        self.detail["known_findings_seen"] = {k: n for k, (_, n) in hits.items()}
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": level,
              "coverage": dict(self.cov, detail=self.detail), "wall_s": round(time.time() - self.t0, 2), "violations": len(real)}
        if note:
            ev["coverage"]["note"] = note
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, "evidence", self.prop + ".json"), "w"), indent=1)
        return rc

    def cleanup(self):
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.wd, ignore_errors=True)
        else:
            print("kept", self.wd)
