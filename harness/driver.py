"""Builds the workloads against /repo's working tree, runs them under the monitors, and
turns what the monitors saw into a verdict and an evidence file."""
import json, os, re, resource, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
NCPU = 8


class HarnessError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Run:
    def __init__(self, prop, tier, seed, only=None):
        self.prop, self.tier, self.seed, self.only = prop, tier, seed, only
        self.t0 = time.time()
        self.dir = os.path.join(BUILD, prop)
        self.counts, self.maxima, self.samples = {}, {}, []
        self.violations = []
        self.suppressed = 0
        self.notes = []
        self.jobs = []
        os.makedirs(self.dir, exist_ok=True)

    # ---- reports
    def merge(self, rep, job):
        for k, v in rep.get("counts", {}).items():
            self.counts[k] = self.counts.get(k, 0) + v
        for k, v in rep.get("maxima", {}).items():
            self.maxima[k] = max(self.maxima.get(k, 0), v)
        for s in rep.get("samples", []):
            if len(self.samples) < 12:
                self.samples.append(s)
        self.suppressed += rep.get("suppressed", 0)
        for v in rep.get("violations", []):
            v["job"] = job
            self.violations.append(v)

    def violation(self, key, what, detail, job):
        self.violations.append({"key": key, "what": what, "detail": detail, "job": job})

    # ---- building
    def cargo(self, cwd, args, target, toolchain=None, env=None, timeout=600, json_messages=True):
        """Returns (ok, diagnostics, stderr); diagnostics: [(file, rendered, package)] of errors."""
        cmd = ["cargo"] + ([f"+{toolchain}"] if toolchain else []) + args + ["--offline"]
        if json_messages:
            cmd.append("--message-format=json")
        e = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_TERM_COLOR="never", CARGO_NET_OFFLINE="true")
        e.pop("RUSTFLAGS", None)
        e.update(env or {})
        try:
            p = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, [], "timeout"
        diags = []
        for line in p.stdout.decode("utf-8", "replace").splitlines():
            if not line.startswith("{"):
                continue
            try:
                m = json.loads(line)
            except ValueError:
                continue
            if m.get("reason") == "compiler-message" and m["message"].get("level", "").startswith("error"):
                files = [s["file_name"] for s in m["message"].get("spans", []) if s.get("is_primary")]
                exp = []
                for s in m["message"].get("spans", []):
                    x = s
                    while x.get("expansion"):
                        x = x["expansion"]["span"]
                    exp.append(x["file_name"])
                diags.append((files + exp, m["message"].get("rendered") or m["message"].get("message"), m.get("package_id", "")))
        return p.returncode == 0, diags, p.stderr.decode("utf-8", "replace")

    def model(self):
        ok, d, err = self.cargo(os.path.join(HARNESS, "model"), ["build", "--release", "--bin", "gen"], os.path.join(self.dir, "model"), timeout=400)
        if not ok:
            raise HarnessError("the model does not build:\n" + err[-3000:] + "".join(x[1] for x in d)[:3000])
        return os.path.join(self.dir, "model", "release", "gen")

    # ---- generated parsers
    def generated(self, profile, facets, frm, count, nt="rule_calls", env=None, inputs=60, toolchain=None, rustflags=None, triple=None, bins=NCPU, timeout=600, keep=False, cargo_args=(), may_fail=None, target_name=None):
        """Compile `count` generated grammars with the real derive and run them under the monitors."""
        gen = getattr(self, "_gen", None) or self.model()
        self._gen = gen
        job = {"kind": "generated", "profile": profile, "facets": facets, "from": frm, "count": count, "inputs": inputs}
        self.jobs.append(job)
        only = None
        if self.only:
            p, i = self.only.rsplit(":", 1)
            if p != profile or not (frm <= int(i) < frm + count):
                return
            only = int(i)
            frm, count, bins = only, 1, 1
        out = os.path.join(self.dir, "gen")
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        per_bin = (lambda b: {"VERIF_RECORD": os.path.join(out, f"recorded-{b}.txt")}) if keep else (lambda b: {})
        p = subprocess.run([gen, out, profile, str(self.seed), str(frm), str(count), str(bins), HARNESS, os.path.join(HARNESS, "rt", "Cargo.lock")], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0:
            raise HarnessError("gen failed: " + p.stdout.decode("utf-8", "replace")[-2000:])
        target = os.path.join(self.dir, "tgt" + ("-" + (target_name or toolchain) if toolchain else ""))
        args = ["build", "--keep-going"]
        if triple:
            args += ["--target", triple]
        args += list(cargo_args)
        t = time.time()
        ok, diags, err = self.cargo(out, args, target, toolchain=toolchain, env=({"RUSTFLAGS": rustflags} if rustflags else None))
        log(f"[{self.prop}] {profile}[{frm}..{frm+count}] built in {time.time()-t:.1f}s ok={ok}")
        if may_fail and not ok:
            # An instrumented build that this machine cannot make decides nothing (the plain builds of the other jobs judge the code).
            self.notes.append(f"{may_fail} did not build: " + ("".join(x[1] for x in diags) + (err or ""))[-600:])
            self.counts[f"{may_fail}_missing"] = 1
            return
        if ok is None:
            self.violation("compile-hang", "compiling parsers for valid grammars does not finish", {"profile": profile, "from": str(frm), "count": str(count)}, job)
            return
        self.counts["grammars_compiled"] = self.counts.get("grammars_compiled", 0) + count
        bad = {}
        if not ok:
            for files, text, pkg in diags:
                for f in files:
                    m = re.match(r"src/g(\d+)\.rs$", f)
                    if m:
                        bad.setdefault(int(m.group(1)), []).append(text)
                        break
            if not bad:
                raise HarnessError("the code under test does not build:\n" + "".join(x[1] for x in diags)[:4000] + err[-3000:])
            for idx, texts in sorted(bad.items()):
                with open(os.path.join(out, f"src/g{idx}.rs")) as f:
                    src = f.read()[:4000]
                self.violation("compile", "a valid grammar does not compile to a parser", {"profile": profile, "grammar_index": str(idx), "source": src, "error": "\n".join(texts)[:4000]}, job)
        exe = os.path.join(target, triple, "debug") if triple else os.path.join(target, "debug")
        base = {"VERIF_GEN_SEED": str(self.seed), "VERIF_PROFILE": profile, "VERIF_FACETS": facets, "VERIF_INPUTS": str(inputs), "VERIF_NT": nt}
        base.update(env or {})
        bad_bins = {i % bins for i in bad}
        self.run_bins([(os.path.join(exe, f"b{b}"), [], dict(base, **per_bin(b)), f"{profile}-b{b}") for b in range(bins) if b not in bad_bins], job, timeout, asan=bool(rustflags))

    def run_bins(self, items, job, timeout=600, asan=False, cwd=None, mem=10 << 30):
        """Run monitor processes in parallel; a crash is a violation with the call that caused it."""
        procs = []

        def limits():
            if not asan:
                resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
            resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

        def start(exe, args, env, name, trace=None):
            out = os.path.join(self.dir, f"out-{name}.json")
            if os.path.exists(out):
                os.remove(out)
            e = dict(os.environ)
            e.update(env)
            e["VERIF_OUT"] = out
            if trace:
                e["VERIF_TRACE"] = trace
            errf = open(os.path.join(self.dir, f"err-{name}.txt"), "wb")
            p = subprocess.Popen([exe] + args, env=e, stdout=errf, stderr=subprocess.STDOUT, preexec_fn=limits, cwd=cwd or self.dir)
            return p, out, errf.name

        for exe, args, env, name in items:
            procs.append((exe, args, env, name) + start(exe, args, env, name))
        dl = time.time() + timeout
        for exe, args, env, name, p, out, errf in procs:
            try:
                rc = p.wait(max(1, dl - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
                rc = "timeout"
            if rc == 0 and os.path.exists(out):
                with open(out) as f:
                    self.merge(json.load(f), job)
                continue
            whole = open(errf, "rb").read()
            race = whole.find(b"WARNING: ThreadSanitizer: ")
            if race >= 0:
                self.violation("race", "two threads that parse at the same time access memory without synchronisation", {"report": whole[race:race + 4000].decode("utf-8", "replace")}, job)
                continue
            if b"FATAL: ThreadSanitizer" in whole:
                # It cannot lay out its memory on this machine.
                self.notes.append("ThreadSanitizer did not start: " + whole[-300:].decode("utf-8", "replace"))
                self.counts["tsan_missing"] = 1
                continue
            tail = whole[-3000:].decode("utf-8", "replace")
            if rc == 3:
                raise HarnessError(f"{name}: monitor failed:\n{tail}")
            # Which call was it?
            trace = os.path.join(self.dir, f"trace-{name}.txt")
            p2, out2, errf2 = start(exe, args, env, name, trace)
            try:
                rc2 = p2.wait(timeout)
            except subprocess.TimeoutExpired:
                p2.kill()
                p2.wait()
                rc2 = "timeout"
            if rc2 == 0 and os.path.exists(out2):
                raise HarnessError(f"{name}: ended with {rc} once and not again:\n{tail}")
            case = open(trace).read()[:6000] if os.path.exists(trace) else "?"
            self.violation("crash", f"the process ended with {rc} during a call", {"case": case, "stderr": tail[-1500:]}, job)

    def interpreted(self, bins=NCPU, timeout=240):
        """Replay the calls `generated(keep=True)` recorded, under Miri."""
        out = os.path.join(self.dir, "gen")
        job = {"kind": "interpreted", "by": "miri"}
        self.jobs.append(job)
        e = dict(os.environ, CARGO_TARGET_DIR=os.path.join(self.dir, "tgt-miri"), CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", MIRIFLAGS="-Zmiri-disable-isolation")
        e.pop("RUSTFLAGS", None)
        cmd = ["cargo", "+nightly", "miri", "run", "--offline", "--bin"]
        empty = os.path.join(out, "empty.txt")
        open(empty, "w").close()
        t = time.time()

        def start(b, calls, name):
            res = os.path.join(self.dir, f"out-miri-{name}.json")
            if os.path.exists(res):
                os.remove(res)
            errf = os.path.join(self.dir, f"err-miri-{name}.txt")
            return subprocess.Popen(cmd + [f"b{b}"], cwd=out, env=dict(e, VERIF_REPLAY=calls, VERIF_OUT=res), stdout=open(errf, "wb"), stderr=subprocess.STDOUT, start_new_session=True), res, errf

        def wait(p, limit):
            try:
                return p.wait(max(1, limit))
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, 9)
                p.wait()
                return "timeout"

        p, res, errf = start(0, empty, "empty")
        rc = wait(p, 200)
        if rc != 0 or not os.path.exists(res):
            # No interpreter here (or it cannot run even an empty program): nothing is decided by it.
            self.notes.append("Miri did not run: " + open(errf, "rb").read()[-300:].decode("utf-8", "replace"))
            self.counts["interpreter_missing"] = 1
            return
        log(f"[{self.prop}] interpreter ready after {time.time()-t:.1f}s")
        t = time.time()
        procs = [(b, calls) + start(b, calls, str(b)) for b in range(bins) for calls in [os.path.join(out, f"recorded-{b}.txt")] if os.path.exists(calls)]
        dl = time.time() + timeout
        for b, calls, p, res, errf in procs:
            rc = wait(p, dl - time.time())
            text = open(errf, "rb").read().decode("utf-8", "replace")
            if rc == 0 and os.path.exists(res):
                with open(res) as f:
                    self.merge(json.load(f), job)
            elif "Undefined Behavior" in text or "Data race" in text or "memory leaked" in text or "panicked" in text:
                i = max(0, text.find("error:"))
                self.violation("interpreter", "the interpreter found undefined behaviour, a data race, a leak or a panic", {"calls": open(calls).read()[:2000], "report": text[i:i + 3000]}, job)
            else:
                self.notes.append(f"Miri gave no answer for bin {b}: {rc} " + text[-300:])
                self.counts["interpreter_gave_up"] = self.counts.get("interpreter_gave_up", 0) + 1
        log(f"[{self.prop}] interpreted in {time.time()-t:.1f}s")

    # ---- tool binaries (harness/tools)
    def long(self, look=""):
        """Long texts; harness/long is a crate of its own."""
        job = {"kind": "long", "look": look}
        self.jobs.append(job)
        target = os.path.join(self.dir, "tgt")
        t = time.time()
        ok, d, err = self.cargo(os.path.join(HARNESS, "long"), ["build"], target)
        log(f"[{self.prop}] long built in {time.time()-t:.1f}s ok={ok}")
        if not ok:
            raise HarnessError("long does not build:\n" + "".join(x[1] for x in d)[:4000] + err[-3000:])
        self.run_bins([(os.path.join(target, "debug", "long"), [], {"VERIF_SHARD": str(s), "VERIF_SHARDS": str(NCPU), "VERIF_LONG": look}, f"long-{s}") for s in range(NCPU)], job, 300)

    def tools(self, bins, toolchain=None, profile="release"):
        args = ["build", "--profile", profile]
        for b in bins:
            args += ["--bin", b]
        target = os.path.join(self.dir, "tools")
        t = time.time()
        ok, d, err = self.cargo(os.path.join(HARNESS, "tools"), args, target, toolchain=toolchain)
        log(f"[{self.prop}] tools built in {time.time()-t:.1f}s ok={ok}")
        if not ok:
            raise HarnessError("tools do not build:\n" + "".join(x[1] for x in d)[:4000] + err[-3000:])
        return os.path.join(target, profile)

    # ---- verdict
    def known(self):
        res = []
        p = os.path.join(VERIF, "known-findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"finding: property=(\S+) key=(\S+) match=(.*?) -- (.*)$", line.strip())
                if m and m.group(1) == self.prop:
                    res.append((m.group(2), m.group(3), m.group(4)))
        return res

    def finish(self, spec):
        known = self.known()
        fresh = []
        hit = set()
        for v in self.violations:
            blob = json.dumps(v, ensure_ascii=False)
            for k in known:
                if k[0] == v["key"] and k[1] in blob:
                    hit.add(k)
                    break
            else:
                fresh.append(v)
        for k in known:
            if k in hit:
                print(f"KNOWN-FINDING: property={self.prop} {k[2]}")
        c = self.counts
        ev = {
            "property": self.prop,
            "tier": self.tier,
            "seed": self.seed,
            "level": spec.get("level", "exploration"),
            "coverage": {
                "evaluations": int(sum(c.get(k, 0) for k in spec.get("evaluations", ["sessions"]))),
                "distinct_nontrivial": int(c.get("distinct_nontrivial", 0)),
                "rule": spec["rule"],
                "samples": self.samples[:12] or ["(none)"],
                "observed": dict(sorted(c.items())),
                "maxima": self.maxima,
                "jobs": self.jobs,
            },
            "assumptions": spec.get("assumptions", []),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": len(fresh),
        }
        if self.notes:
            ev["coverage"]["notes"] = self.notes
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        if not self.only:
            with open(os.path.join(VERIF, "evidence", f"{self.prop}.json"), "w") as f:
                json.dump(ev, f, indent=1, ensure_ascii=False)
        if fresh:
            rd = os.path.join(BUILD, "replays")
            os.makedirs(rd, exist_ok=True)
            path = os.path.join(rd, f"{self.prop}.json")
            v = fresh[0]
            only = ""
            if v["detail"].get("grammar_index") and v["job"].get("profile"):
                only = f" --only {v['job']['profile']}:{v['detail']['grammar_index']}"
            with open(path, "w") as f:
                json.dump({"property": self.prop, "replay_cmd": f"cd /verif && VERIF_SEED={self.seed} VERIF_TIER={self.tier} ./run {self.prop}{only}", "violations": fresh[:20], "more": max(0, len(fresh) - 20) + self.suppressed}, f, indent=1, ensure_ascii=False)
            log(f"[{self.prop}] {v['key']}: {v['what']}")
            for a, b in v["detail"].items():
                log(f"    {a}: {str(b)[:600]}")
            print(f"VIOLATION property={self.prop} replay={path}")
            return 1
        if not os.environ.get("VERIF_KEEP"):
            shutil.rmtree(self.dir, ignore_errors=True)
        # A monitor that saw nothing has decided nothing.
        for k, n in spec.get("must_see", {}).items():
            if c.get(k, 0) < n and not self.only:
                raise HarnessError(f"the monitors saw too little: {k}={c.get(k, 0)} < {n}")
        print(f"OK property={self.prop} evaluations={ev['coverage']['evaluations']} distinct_nontrivial={ev['coverage']['distinct_nontrivial']} wall={ev['wall_s']}s")
        return 0
