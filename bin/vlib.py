"""Common machinery of the checks: build the harness, run cases on the real code, run TLC on specifications and traces."""
import concurrent.futures as cf, fcntl, hashlib, json, os, re, shutil, subprocess, sys, time

VERIF = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
REPO = os.environ.get("VERIF_REPO", "/repo")
SPEC = os.path.join(VERIF, "spec")
TARGET = os.path.join(VERIF, ".target")
WORK = os.path.join(VERIF, ".work")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = min(8, os.cpu_count() or 4)


class ToolError(Exception):
    """The check itself could not do its work (exit 2)."""


def log(*a):
    print(*a, flush=True)


# ---------------------------------------------------------------- build

def cargo_env(cfgs=()):
    e = dict(os.environ)
    for k in ("CARGO_ENCODED_RUSTFLAGS", "RUST_BACKTRACE"):
        e.pop(k, None)
    e["HOME"] = "/root"
    e["PATH"] = "/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e["RUSTUP_TOOLCHAIN"] = "nightly-2026-08-21-x86_64-unknown-linux-gnu"
    e["CARGO_NET_OFFLINE"] = "true"
    e["CARGO_INCREMENTAL"] = "0"
    e["RUSTC_WRAPPER"] = ""
    e["RUSTFLAGS"] = " ".join(["--cfg verif_hooks -A warnings"] + ["--cfg " + c for c in cfgs])
    e["CARGO_TARGET_DIR"] = os.path.join(TARGET, "-".join(cfgs)) if cfgs else TARGET
    e["CARGO_TERM_COLOR"] = "never"
    return e


def source_hash():
    h = hashlib.sha256()
    for root in (os.path.join(REPO, "src"), os.path.join(REPO, "custom_proc_macro"), os.path.join(VERIF, "harness/src")):
        for d, ds, fs in os.walk(root):
            ds[:] = sorted(x for x in ds if x not in ("target", ".git"))
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0")
                with open(p, "rb") as fh:
                    h.update(hashlib.sha256(fh.read()).digest())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(VERIF, "harness/Cargo.toml")):
        with open(p, "rb") as fh:
            h.update(fh.read())
    return h.hexdigest()


AREAS = ("cache", "poison", "conc", "wal", "skip", "arena", "coding", "pure", "keys", "misc", "sync")
#: what is given up, one after the other, when the code no longer compiles with every hook
CFGS = ((), ("verif_plain_locks",), ("verif_plain_mem",), ("verif_plain_locks", "verif_plain_mem"))


def build(area=None):
    """Build the harness from /repo's working tree; cargo's time stamps are not trusted across copies of the tree.
    Without an area: the whole harness, or None if only parts of it build. With one: the part for this area alone."""
    os.makedirs(TARGET, exist_ok=True)
    with open(os.path.join(TARGET, "verif.lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        key = area or "all"
        stamp = os.path.join(TARGET, "verif-%s.hash" % key)
        exe = os.path.join(TARGET, "vh-" + key)
        now = source_hash()
        have = open(stamp).read() if os.path.exists(stamp) else ""
        if have == now + " none":
            return None
        if have == now and os.path.exists(exe):
            return exe
        if os.path.exists(stamp):
            os.remove(stamp)
        first = ""
        for cfgs in CFGS:
            r = cargo(cfgs, area)
            if r.returncode == 0:
                shutil.copy2(os.path.join(cargo_env(cfgs)["CARGO_TARGET_DIR"], "debug/vh"), exe)
                with open(stamp, "w") as f:
                    f.write(now)
                if cfgs:
                    log("built with: " + ", ".join(cfgs))
                return exe
            first = first or r.stderr
        if area is None:
            log("the harness does not build as a whole: " + "; ".join(re.findall(r"^error.*", first, re.M)[:3]))
            with open(stamp, "w") as f:
                f.write(now + " none")
            return None
        raise ToolError("the harness for %s does not build:\n%s" % (area, first[-4000:]))


def cargo(cfgs, area):
    env = cargo_env(cfgs)
    cwd = os.path.join(VERIF, "harness")
    for p in ("level_db_rust", "custom_proc_macro", "vh"):
        subprocess.run(["cargo", "clean", "--offline", "-p", p], cwd=cwd, env=env, capture_output=True)
    feats = ["mem"] if area == "keys" and "verif_plain_mem" not in cfgs else []
    if area:
        opts = ["--no-default-features", "--features", ",".join([area] + feats)]
    elif "verif_plain_mem" in cfgs:
        opts = ["--no-default-features", "--features", ",".join(AREAS)]
    else:
        opts = []
    return subprocess.run(["cargo", "build", "--offline"] + opts, cwd=cwd, env=env, capture_output=True, text=True, timeout=800)


# ---------------------------------------------------------------- running cases on the real code

#: what the events of one process may take (bytes); nothing comes near it unless the code has lost its bounds
EVENTS_MAX = 400 << 20


def _events(path, res):
    """The events of a run into res; (the case it was in, whether it came to its end, whether all were read)"""
    cur, done, size = None, False, 0
    with open(path) as f:
        for line in f:
            size += len(line)
            if size > EVENTS_MAX:
                return cur, False, False
            try:
                e = json.loads(line)
            except ValueError:
                continue
            if e["e"] == "case":
                cur = e["i"]
                res[cur] = []
            elif e["e"] == "done":
                done = True
            else:
                res[cur].append(e)
    return cur, done, True


def _run_shard(exe, area, cases, tmp, first, case_ms, wall):
    """Runs cases; returns a list of (index, events), and why it stopped early, if it did.
    A crash or a hang ends a case with a crash event."""
    cf_, ev = tmp + ".cases", tmp + ".events"
    with open(cf_, "w") as f:
        for c in cases:
            f.write(json.dumps(c) + "\n")
    env = dict(os.environ, VH_CASE_MS=str(case_ms))
    res = [None] * len(cases)
    start, crashes, t0, early = 0, 0, time.time(), None
    while start < len(cases):
        try:
            r = subprocess.run([exe, area, cf_, ev, str(start)], env=env, capture_output=True, text=True, errors="replace",
                               timeout=max(1, wall - (time.time() - t0)))
            rc, err = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            early = "harness out of time in area " + area
        cur, done, whole = _events(ev, res)
        if not whole:
            early = "too many events in area " + area
        if early:
            if cur is not None:
                res[cur] = None     # not known to be complete
            break
        if done and rc == 0:
            break
        if cur is None:
            raise ToolError("harness failed (%s) before its first case: %s" % (rc, err[-2000:]))
        # the case again, with every event written out at once
        one, ev1 = tmp + ".one", tmp + ".one.events"
        with open(one, "w") as f:
            f.write(json.dumps(cases[cur]) + "\n")
        try:
            r = subprocess.run([exe, area, one, ev1, "0"], env=dict(env, VH_UNBUFFERED="1"), capture_output=True, text=True,
                               errors="replace", timeout=wall)
            rc1, err1 = r.returncode, r.stderr
        except subprocess.TimeoutExpired:
            rc1, err1 = -9, "timeout"
        got = [None]
        _events(ev1, got)
        got = got[0] or []
        if rc1 == 0:
            # happens only together with the cases before it (memory corruption): keep what the first run gave
            got, rc1, err1 = res[cur] or [], rc, err
        why = "hang" if rc1 == 98 else "output" if 96 in (rc, rc1) else "memory" if "ALLOC-ERROR" in err1 else "abort"
        if why == "output":
            size, keep = 0, []
            for e in got:
                size += len(json.dumps(e))
                if size > 100000:
                    break
                keep.append(e)
            got = keep
        m = re.search(r"ALLOC-ERROR.*", err1)
        got.append({"e": "crash", "why": why, "rc": rc1, "msg": (m.group(0) if m else err1.strip().splitlines()[-1] if err1.strip() else "")[:200]})
        res[cur] = got
        crashes += 1
        start = cur + 1
        if crashes >= 3:
            break
    return [(first + i, r) for i, r in enumerate(res) if r is not None], early


def run_cases(exe, area, cases, work, case_ms=20000, wall=600, shards=None):
    """All cases on the real code, spread over processes; [(index, events)], and why some are missing, if any are"""
    os.makedirs(work, exist_ok=True)
    n = shards or min(CORES, max(1, len(cases) // 4))
    size = (len(cases) + n - 1) // n if cases else 1
    jobs = [(k, cases[k:k + size]) for k in range(0, len(cases), size)]
    out, early = [], None
    with cf.ThreadPoolExecutor(CORES) as ex:
        fs = [ex.submit(_run_shard, exe, area, c, os.path.join(work, "%s-%d" % (area, k)), k, case_ms, wall) for k, c in jobs]
        for f in fs:
            r, e = f.result()
            out += r
            early = early or e
    for k, _ in jobs:
        for s in (".cases", ".events", ".one", ".one.events"):
            p = os.path.join(work, "%s-%d%s" % (area, k, s))
            if os.path.exists(p):
                os.remove(p)
    return out, early


# ---------------------------------------------------------------- TLC

#: TLC processes under way
RUNNING = set()


def tlc(module, cfg, work, name, workers=1, heap="2g", timeout=600, env=None, extra=(), simulate=None):
    """One TLC run; cfg is the text of the configuration. Returns (exit code, output)."""
    os.makedirs(work, exist_ok=True)
    cp = os.path.join(work, name + ".cfg")
    with open(cp, "w") as f:
        f.write(cfg)
    meta = os.path.join(work, name + ".states")
    shutil.rmtree(meta, ignore_errors=True)
    cmd = ["java", "-Xmx" + heap, "-Xss16m", "-XX:+UseParallelGC" if workers > 1 else "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4", "-DTLA-Library=" + SPEC]
    cmd += ["-cp", JAR, "tlc2.TLC", "-metadir", meta, "-noGenerateSpecTE", "-workers", str(workers), "-config", cp]
    if simulate:
        cmd += ["-simulate", simulate]
    cmd += list(extra) + [os.path.join(SPEC, module + ".tla")]
    e = dict(os.environ)
    e.pop("JAVA_TOOL_OPTIONS", None)
    e.update(env or {})
    p = subprocess.Popen(cmd, cwd=work, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    RUNNING.add(p)
    try:
        out, _ = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        raise ToolError("TLC out of time: %s %s" % (module, name))
    finally:
        RUNNING.discard(p)
        shutil.rmtree(meta, ignore_errors=True)
    with open(os.path.join(work, name + ".out"), "w") as f:
        f.write(out)
    return p.returncode, out


STATES = re.compile(r"^(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", re.M)


def state_counts(out):
    m = STATES.findall(out)
    if not m:
        return 0, 0
    g, d = m[-1]
    return int(g.replace(",", "")), int(d.replace(",", ""))


def errors_of(out):
    lines = [x for x in out.splitlines() if x.startswith("Error") or "attempted" in x or "Attempted" in x]
    return " | ".join(lines[:4]) or out[-1500:]


class Check:
    def __init__(self, pid, title=""):
        self.id = pid
        self.tier = os.environ.get("VERIF_TIER", "quick")
        self.seed = int(os.environ.get("VERIF_SEED", "1"))
        self.t0 = time.time()
        self.work = os.path.join(WORK, pid)
        shutil.rmtree(self.work, ignore_errors=True)
        os.makedirs(self.work)
        self.states = self.transitions = self.traces = self.events = 0
        self.samples, self.models, self.notes = [], [], {}
        self.violations = []
        self.exe = None
        self.known = load_known().get(pid, [])

    @property
    def thorough(self):
        return self.tier == "thorough"

    def build(self):
        t = time.time()
        self.exe = build()      # None: a part for each area
        self.notes["build_s"] = round(time.time() - t, 1)

    # -- the design: exhaustive check of a specification with small constants

    def model(self, module, cfg, name=None, workers=4, heap="6g", timeout=800, simulate=None, extra=(), expect_ok=True):
        name = name or module
        t = time.time()
        rc, out = tlc(module, cfg, self.work, name, workers, heap, timeout, simulate=simulate, extra=extra)
        g, d = state_counts(out)
        if rc != 0 and expect_ok:
            raise ToolError("the specification %s (%s) fails its own properties, rc %d: %s" % (module, name, rc, errors_of(out)))
        self.states += d
        self.transitions += g
        self.models.append({"module": module, "config": name, "distinct_states": d, "transitions": g, "wall_s": round(time.time() - t, 1)})
        log("  model %s: %d distinct states, %d transitions, %.1f s" % (name, d, g, time.time() - t))
        return out

    # -- conformance: traces of the real code against the specification

    def conform(self, area, module, cases, consts="", name=None, chunk=8000, heap="3g", timeout=700, case_ms=20000,
                sample=True, post=None, jobs=None, dfs=False, spec="TraceSpec", weight=None, silent=False, every=False):
        """Run the cases on the real code and validate the traces. Returns the first violation or None."""
        name = name or area
        t = time.time()
        runs, early = run_cases(self.exe or build(area), area, cases, self.work, case_ms=case_ms, wall=3000 if self.thorough else 300)
        t1 = time.time()
        if sample:
            for i, ev in runs[:1]:
                self.samples.append({"area": area, "case": shorten(cases[i]), "first_events": [shorten(x) for x in ev[:6]]})
        bad = self.validate(area, module, [(cases[i], ev) for i, ev in runs], consts, name, chunk, heap, timeout, jobs, dfs, spec, weight, silent, every)
        n = sum(len(ev) for _, ev in runs)
        log("  traces %s: %d cases, %d events, run %.1f s, validated in %.1f s%s"
            % (name, len(runs), n, t1 - t, time.time() - t1, "" if not bad else " -- REJECTED"))
        for b in bad:
            self.violations.append(b)
        if early and not bad:
            raise ToolError(early)
        return bad

    def known_finding(self, key, area, module, cases, consts, same):
        """The listed finding, shown on its own cases: reported as such while it is there, forgotten when it is gone."""
        what = dict(self.known).get(key)
        n = len(self.violations)
        bad = self.conform(area, module, cases, consts, "known-" + key, sample=False, every=True)
        if what is not None and bad and all(same(b["got"]) for b in bad):
            del self.violations[n:]
            log("KNOWN-FINDING: property=%s %s" % (self.id, what))
            self.notes.setdefault("known_findings", []).append(key)

    def validate(self, area, module, runs, consts="", name="t", chunk=8000, heap="3g", timeout=700, jobs=None, dfs=False,
                 spec="TraceSpec", weight=None, silent=False, every=False):
        """The rejected traces: every one (one for each chunk), or those found until the first is"""
        # a trace that ends in a crash is rejected for sure: each alone, and first
        crashed = [] if every else [r for r in runs if r[1] and r[1][-1]["e"] == "crash"]
        chunks, cur, n = [[r] for r in sorted(crashed, key=lambda r: len(r[1]))][:CORES], [], 0
        for r in runs:
            if any(r is x for x in crashed):
                continue
            w = weight(r[1]) if weight else len(r[1]) + 1
            if cur and n + w > chunk:
                chunks.append(cur)
                cur, n = [], 0
            cur.append(r)
            n += w
        if cur:
            chunks.append(cur)
        bad = []
        with cf.ThreadPoolExecutor(jobs or CORES) as ex:
            fs = [ex.submit(self._validate_chunk, area, module, c, consts, "%s-%d" % (name, k), heap, timeout, dfs, spec, silent)
                  for k, c in enumerate(chunks)]
            failed = None
            for f in cf.as_completed(fs):
                if f.cancelled():
                    continue
                try:
                    b, g, d, ncases, nev = f.result()
                except ToolError as e:
                    failed = failed or e
                    continue
                self.states += d
                self.transitions += g
                self.traces += ncases
                self.events += nev
                if b:
                    bad.append((fs.index(f), b))
                    if not every:
                        # one is enough
                        for x in fs:
                            x.cancel()
                        for p in list(RUNNING):
                            p.kill()
            if failed and not bad:
                raise failed
        return [b for _, b in sorted(bad, key=lambda x: x[0])]

    def _validate_chunk(self, area, module, runs, consts, name, heap, timeout, dfs, spec, silent=False):
        path = os.path.join(self.work, name + ".ndjson")
        index = []
        with open(path, "w") as f:
            for k, (case, ev) in enumerate(runs):
                f.write('{"e":"case","i":%d}\n' % k)
                index.append((k, -1))
                for j, e in enumerate(ev):
                    f.write(json.dumps(e) + "\n")
                    index.append((k, j))
        cfg = "SPECIFICATION %s\n%s\nCHECK_DEADLOCK FALSE\n%s\n" % (
            spec, "CONSTRAINT Furthest\nPOSTCONDITION AcceptedSilent" if silent else "VIEW Position\nPOSTCONDITION Accepted", consts)
        env = {"TRACE": path}
        if dfs:
            env["JAVA_TOOL_OPTIONS"] = "-Dtlc2.tool.queue.IStateQueue=StateDeque"
        rc, out = tlc(module, cfg, self.work, name, 1, heap, timeout, env=env)
        g, d = state_counts(out)
        m = re.search(r'"REJECTED", (\d+)', out)
        if rc == 0 and not m:
            os.remove(path)
            os.remove(os.path.join(self.work, name + ".out"))
            return None, g, d, len(runs), len(index)
        inv = re.search(r"Invariant (\w+) is violated", out)
        if m:
            at = int(m.group(1))      # 1-based index of the event that is not allowed
        elif inv:
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M) or re.findall(r"^l = (\d+)", out, re.M)
            if not ls:
                raise ToolError("cannot place a violated invariant: " + errors_of(out))
            at = int(ls[-1]) - 1
        elif rc == 75 and "behavior up to this point" in out and not re.search("StackOverflow|OutOfMemory|GC overhead", out):
            # the event does not even have the shape of one the specification knows
            ls = re.findall(r"^/\\ l = (\d+)", out, re.M)
            if not ls or silent:
                raise ToolError("trace validation of %s failed, rc %d: %s" % (name, rc, errors_of(out)))
            at = int(ls[-1])
        else:
            raise ToolError("trace validation of %s failed, rc %d: %s" % (name, rc, errors_of(out)))
        k, j = index[at - 1]
        case, ev = runs[k]
        what = inv.group(1) if inv else "the specification does not allow this event"
        return ({"area": area, "module": module, "consts": consts, "spec": spec, "silent": silent, "case": case, "event": j,
                 "got": ev[j] if j >= 0 else {}, "before": [shorten(x) for x in ev[max(0, j - 5):j]], "what": what}, g, d, len(runs), len(index))

    def finish(self, assumptions=()):
        r = {"property": self.id, "tier": self.tier, "seed": self.seed, "level": "model_checking",
             "coverage": {"states": self.states, "transitions": self.transitions, "traces_validated_against_impl": self.traces,
                          "samples": self.samples[:4], "trace_events": self.events, "models": self.models, **self.notes},
             "assumptions": list(assumptions), "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations)}
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", self.id + ".json"), "w") as f:
            json.dump(r, f, indent=1)
            f.write("\n")
        if not self.violations:
            log("PASS %s: %d states, %d transitions, %d traces (%d events), %.0f s" % (self.id, self.states, self.transitions, self.traces, self.events, time.time() - self.t0))
            return 0
        os.makedirs(os.path.join(WORK, "replay"), exist_ok=True)
        v = self.violations[0]
        p = os.path.join(WORK, "replay", "%s-%d.json" % (self.id, os.getpid()))
        with open(p, "w") as f:
            json.dump(v, f)
        log("rejected (%s, %s): event %s" % (v["area"], v["what"], json.dumps(shorten(v["got"]))[:600]))
        for b in v.get("before", []):
            log("    after %s" % json.dumps(b)[:300])
        log("VIOLATION property=%s replay=%s" % (self.id, p))
        return 1


def shorten(x, n=24):
    if isinstance(x, dict):
        return {k: shorten(v, n) for k, v in x.items()}
    if isinstance(x, list):
        return [shorten(v, n) for v in x[:n]] + (["... %d in all" % len(x)] if len(x) > n else [])
    return x


def load_known():
    """known-findings.txt: lines 'known: property=<id> key=<key> <what fails>' and 'fixed: property=<id> <commit> <what failed>'"""
    out = {}
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
            if m:
                out.setdefault(m.group(1), []).append((m.group(2), m.group(3)))
    return out
