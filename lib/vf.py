"""Machinery shared by all checks: build the harness from /repo, run cases in the real code,
run TLC (exhaustive models, generation of cases, validation of recorded traces), report."""
import traceback
import fcntl, hashlib, json, os, pathlib, random, re, resource, select, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path("/repo")
SPEC = VERIF / "spec"
HARNESS = VERIF / "harness"
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 8)


class ToolError(Exception):
    pass


# ----------------------------------------------------------------- building

def _env():
    e = dict(os.environ)
    e.setdefault("HOME", "/root")
    e["PATH"] = "/root/.cargo/bin:/usr/local/bin:/usr/local/sbin:/usr/bin:/usr/sbin:/bin:/sbin"
    e.update(RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true",
             CARGO_TERM_COLOR="never", RUSTC_WRAPPER="", CARGO_TARGET_DIR=str(HARNESS / "target"),
             RUSTFLAGS="--cfg cathlamet_verif -Awarnings")
    e.pop("RUST_BACKTRACE", None)
    return e


def build():
    """Builds the harness against /repo's working tree, with the hooks on; returns the binary."""
    (HARNESS / "target").mkdir(exist_ok=True)
    with open(HARNESS / "target" / ".vf.lock", "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        # build.rs writes parser.rs next to each grammar; one of them is tracked
        keep = {}
        stale = False
        for g in (REPO / "src").rglob("*.lalrpop"):
            p = g.with_suffix(".rs")
            keep[p] = p.read_bytes() if p.exists() else None
            want = b"sha3: " + hashlib.sha3_256(g.read_bytes()).hexdigest().encode()
            stale |= keep[p] is None or want not in keep[p][:300]
        try:
            if stale:
                subprocess.run(["cargo", "clean", "--offline", "-p", "cathlamet"], cwd=HARNESS,
                               env=_env(), capture_output=True)
            r = subprocess.run(["cargo", "build", "--offline", "--bin", "vh"], cwd=HARNESS, env=_env(), preexec_fn=_unlimit,
                               stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        finally:
            tracked = subprocess.run(["git", "-C", str(REPO), "ls-files"], capture_output=True,
                                     text=True).stdout.split()
            for p, b in keep.items():
                if b is not None and str(p.relative_to(REPO)) in tracked and p.read_bytes() != b:
                    p.write_bytes(b)
        if r.returncode != 0:
            raise ToolError("the harness does not build:\n" + r.stdout[-6000:])
    return HARNESS / "target" / "debug" / "vh"


# ----------------------------------------------------------------- real code

def _limits():
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))


def _run_chunk(binary, area, cases, idle, env):
    """One observation per case. A case that ends the process yields {"abort": why}."""
    out, pos = [], 0
    while pos < len(cases):
        with tempfile.TemporaryFile() as inp:
            for c in cases[pos:]:
                inp.write(json.dumps(c).encode() + b"\n")
            inp.seek(0)
            p = subprocess.Popen([str(binary), area], stdin=inp, stdout=subprocess.PIPE,
                                 stderr=subprocess.DEVNULL, preexec_fn=_limits, env=env)
            buf, why = b"", None
            while True:
                r, _, _ = select.select([p.stdout], [], [], idle)
                if not r:
                    p.kill()
                    why = "hang"
                    break
                d = os.read(p.stdout.fileno(), 1 << 20)
                if not d:
                    break
                buf += d
                if b"\n" in d:
                    lines = buf.split(b"\n")
                    buf = lines.pop()
                    out += [json.loads(x) for x in lines]
                    pos += len(lines)
            p.stdout.close()
            rc = p.wait()
        if pos < len(cases):
            if why is None and rc == 0:
                raise ToolError("harness ended early in area " + area)
            if why is None and rc == 101:
                why = "panic"
            out.append({"abort": why or "signal %d" % -rc})
            pos += 1
    return out


def run_cases(binary, area, cases, idle=30, jobs=CORES, env=None):
    if not cases:
        return []
    size = max(1, min(400, (len(cases) + jobs - 1) // jobs))
    chunks = [cases[i:i + size] for i in range(0, len(cases), size)]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda c: _run_chunk(binary, area, c, idle, env), chunks))
    return [o for r in res for o in r]


# ----------------------------------------------------------------- TLC

def tlc(module, cfg=None, env=None, workers=1, mem="3g", args=(), timeout=840):
    meta = tempfile.mkdtemp(prefix="vf-tlc-")
    e = dict(os.environ)
    e.update(env or {})
    e.pop("JAVA_TOOL_OPTIONS", None)
    gc = "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC"
    cmd = ["java", "-Xmx" + mem, "-Xss64m", gc, "-Djava.io.tmpdir=" + meta, "-cp", CP, "tlc2.TLC", "-nowarning",
           "-metadir", meta, "-workers", str(workers), "-config", cfg or module + ".cfg", *args, module + ".tla"]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                           preexec_fn=_unlimit)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC ran out of time on " + module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout.decode(errors="replace")


def _unlimit():
    h = resource.getrlimit(resource.RLIMIT_AS)[1]
    resource.setrlimit(resource.RLIMIT_AS, (h, h))


def _brief(out):
    return "\n".join(l for l in out.splitlines() if not l.startswith(
        ("Parsing file", "Semantic processing", "Linting of")))[-4000:]


def _counts(out):
    gen = dist = 0
    for m in re.finditer(r"^([\d,]+) states generated, ([\d,]+) distinct states found", out, re.M):
        gen, dist = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
    return gen, dist


class Check:
    def __init__(self, prop):
        self.prop = prop
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.rng = random.Random("%s/%d" % (prop, self.seed))
        self.t0 = time.time()
        self.states = self.transitions = self.traces = self.events = self.cases = 0
        self.models = {}
        self.samples = []
        self.notes = {}
        self.violations = []   # (key, why, replay object)
        self.distinct = set()
        self.known = load_known(prop)
        self.work = pathlib.Path(tempfile.mkdtemp(prefix="vf-"))
        self.assumptions = []
        self._bin = None

    @property
    def thorough(self):
        return self.tier == "thorough"

    def pick(self, quick, thorough):
        return thorough if self.thorough else quick

    def bin(self):
        if self._bin is None:
            self._bin = build()
        return self._bin

    # --- exhaustive checking of a design model -------------------------------
    def model(self, module, cfg=None, env=None, workers=CORES, mem="8g", timeout=800, args=()):
        rc, out = tlc(module, cfg, env, workers, mem, args, timeout)
        gen, dist = _counts(out)
        self.states += dist
        self.transitions += gen
        self.models[cfg or module] = {"states": dist, "transitions": gen}
        if rc != 0 or "No error has been found" not in out:
            raise ToolError("the model %s does not check:\n%s" % (cfg or module, _brief(out)))

    # --- cases enumerated by TLC from a specification -------------------------
    def generate(self, module, cfg=None, env=None, mem="6g", args=(), workers=1, timeout=800):
        """Cases a Gen module prints, one JSON text each, as <<"CASE", json>>; deduplicated, in order."""
        rc, out = tlc(module, cfg, env, workers, mem, args, timeout)
        gen, dist = _counts(out)
        cases, seen = [], set()
        for line in out.splitlines():
            line = line.strip()
            if line.startswith('<<"CASE", '):
                t = json.loads(line[len('<<"CASE", '):-2])
                if t not in seen:
                    seen.add(t)
                    cases.append(json.loads(t))
        if rc != 0 or not cases:
            raise ToolError("generation with %s failed:\n%s" % (cfg or module, _brief(out)))
        self.states += dist
        self.transitions += gen
        self.models[cfg or module] = {"states": dist, "transitions": gen, "cases": len(cases)}
        return cases

    # --- real code -------------------------------------------------------------
    def execute(self, area, cases, idle=30, jobs=CORES, env=None):
        self.cases += len(cases)
        return run_cases(self.bin(), area, cases, idle, jobs, env)

    # --- validation of recorded traces -----------------------------------------
    def validate(self, module, histories, cases, cfg=None, env=None, mem="3g", parts=CORES, key=None):
        """histories[k]: the events recorded for cases[k]. The specification decides each one."""
        assert len(histories) == len(cases)
        order = sorted(range(len(histories)), key=lambda k: -_weight(histories[k]))
        parts = max(1, min(parts, len(order)))
        bins = [[] for _ in range(parts)]
        load = [0] * parts
        for k in order:
            j = load.index(min(load))
            bins[j].append(k)
            load[j] += _weight(histories[k])
        bins = [sorted(b) for b in bins if b]

        def one(j):
            f, o = self.work / ("t%s-%d.ndjson" % (module, j)), self.work / ("o%s-%d.json" % (module, j))
            where = []
            with open(f, "w") as h:
                for k in bins[j]:
                    for i, e in enumerate(histories[k]):
                        h.write(json.dumps(e) + "\n")
                        where.append((k, i))
            if o.exists():
                o.unlink()
            ee = {"TRACE": str(f), "OUT": str(o), "PROP": self.prop}
            ee.update(env or {})
            rc, out = tlc(module, cfg, ee, 1, mem)
            if rc != 0 or not o.exists():
                keep = VERIF / "work"
                keep.mkdir(exist_ok=True)
                shutil.copy(f, keep / ("failed-%s.ndjson" % module))
                raise ToolError("trace validation with %s failed:\n%s" % (module, _brief(out)))
            r = json.load(open(o))
            if r["n"] != len(where):
                raise ToolError("trace validation with %s read %s of %d events" % (module, r["n"], len(where)))
            f.unlink()
            return [(where[b["i"] - 1], b["why"]) for b in r["bad"]], _counts(out), len(where)

        with ThreadPoolExecutor(len(bins)) as ex:
            res = list(ex.map(one, range(len(bins))))
        nbad = 0
        for bad, (gen, dist), n in res:
            self.states += dist
            self.transitions += gen
            self.events += n
            for (k, i), why in bad:
                nbad += 1
                e = histories[k][i]
                self.violation(key(cases[k]) if key else case_key(cases[k]), why,
                               {"case": cases[k], "event_index": i, "event": e, "spec": module})
        self.traces += len(histories)
        self.distinct |= {case_key(c) for c in cases}
        if cases and len(self.samples) < 4:
            k = self.rng.randrange(len(cases))
            s = json.dumps({"case": cases[k], "events": histories[k]})
            self.samples.append(json.loads(s) if len(s) < 4000 else s[:4000])
        return nbad

    def violation(self, key, why, replay):
        self.violations.append((key, why, replay))

    # --- report ---------------------------------------------------------------------
    def finish(self):
        shutil.rmtree(self.work, ignore_errors=True)
        new, seen = [], {}
        for key, why, replay in self.violations:
            hit = next((t for t in self.known if t["key"] == key), None)
            if hit:
                seen[hit["key"]] = hit
            else:
                new.append((key, why, replay))
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "events_validated": self.events, "cases_run_in_real_code": self.cases,
                "distinct_cases": len(self.distinct), "models": self.models, **self.notes,
                "samples": self.samples or ["(none)"],
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(new),
        }
        (VERIF / "evidence").mkdir(exist_ok=True)
        (VERIF / "evidence" / (self.prop + ".json")).write_text(json.dumps(ev, indent=1))
        for t in seen.values():
            print("KNOWN-FINDING: property=%s %s" % (self.prop, t["text"]))
        print("%s %s: %d cases, %d traces / %d events validated, %d states, %.1f s" %
              (self.prop, self.tier, self.cases, self.traces, self.events, self.states, time.time() - self.t0))
        if not new:
            return 0
        rep = VERIF / "work"
        rep.mkdir(exist_ok=True)
        f = rep / ("replay-%s.json" % self.prop)
        new.sort(key=lambda v: len(json.dumps(v[2])))
        f.write_text(json.dumps([{"property": self.prop, "key": k, "why": w, **r} for k, w, r in new[:20]], indent=1))
        for k, w, r in new[:5]:
            print("  %s: %s" % (w, json.dumps(r.get("event", r))[:600]))
        print("%d rejected" % len(new))
        print("VIOLATION property=%s replay=%s" % (self.prop, f))
        return 1


def _weight(h):
    return sum(60 + len(json.dumps(e)) for e in h)


def case_key(c):
    return hashlib.sha256(json.dumps(c, sort_keys=True).encode()).hexdigest()[:16]


def load_known(prop):
    """lines  finding: property=<id> key=<key> <what fails>   (fixed: lines suppress nothing)"""
    out = []
    f = VERIF / "known_findings.txt"
    for line in f.read_text().splitlines() if f.exists() else []:
        w = line.split(None, 3)
        if len(w) == 4 and w[0] == "finding:" and w[1] == "property=" + prop and w[2].startswith("key="):
            out.append({"key": w[2][4:], "text": w[3]})
    return out


def main(prop, fn):
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, resource.getrlimit(resource.RLIMIT_AS)[1]))
    try:
        c = Check(prop)
        fn(c)
        sys.exit(c.finish())
    except ToolError as e:
        print("TOOL ERROR: %s" % e, file=sys.stderr)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        sys.exit(2)
