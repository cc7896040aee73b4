"""Orchestration of the model-based checks: build drivers from /repo, run TLC, replay and validate behaviours."""
import glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TLA = "/opt/veriftools/tla"
CP = f"{TLA}/tla2tools.jar:{TLA}/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class CheckError(Exception):
    """The check itself failed (build error, model error): neither held nor violated."""


class Violation(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def _hash_tree():
    h = hashlib.sha256()
    for root in ("xo", "contrib"):
        for d, dirs, files in os.walk(os.path.join(REPO, root)):
            dirs.sort()
            for f in sorted(files):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    return h.hexdigest()[:16]


SAN = {
    "asan": ["-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-sanitize=vptr",
             "-D_GLIBCXX_ASSERTIONS"],
    "plain": ["-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"],
    "tsan": ["-O1", "-g1", "-fsanitize=thread"],
}


def same(e, g):
    """Structural equality; -999 in the specification's value is "not determined"."""
    if e == -999:
        return True
    if isinstance(e, dict) and isinstance(g, dict):
        return e.keys() == g.keys() and all(same(e[k], g[k]) for k in e)
    if isinstance(e, list) and isinstance(g, list):
        return len(e) == len(g) and all(map(same, e, g))
    return type(e) == type(g) and e == g


class Ctx:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.quick = tier == "quick"
        self.rng = random.Random(f"{prop}-{seed}")
        self.t0 = time.time()
        # the thorough tier explores until its time is up, and says where it stopped
        self.until = self.t0 + (1e9 if self.quick else float(os.environ.get("VF_BUDGET", "660")))
        self.states = self.transitions = self.traces = 0
        self.replayed_ops = 0
        self.opcount = {}
        self.samples = []
        self.assumptions = []
        self.notes = {}
        self.runs = []
        self.viol = []
        self.lock = threading.RLock()
        self.seq = 0
        self.known_hits = []
        os.makedirs(BUILD, exist_ok=True)
        self.tmp = tempfile.mkdtemp(prefix=f"{prop}-", dir=BUILD)
        self.known = self._load_known()

    # ---- known findings -------------------------------------------------------------------------
    def _load_known(self):
        r = {}
        p = os.path.join(VERIF, "known_findings.txt")
        if os.path.exists(p):
            for line in open(p):
                m = re.match(r"known: property=(\S+) key=(\S+) (.*)", line.strip())
                if m and m[1] == self.prop:
                    r[m[2]] = m[3]
        return r

    def known_finding(self, key):
        """The defect `key` was reproduced on the real code: allowed only if it is listed."""
        if key in self.known:
            if key not in self.known_hits:
                self.known_hits.append(key)
                log(f"KNOWN-FINDING: property={self.prop} {key}: {self.known[key]}")
            return True
        return False

    def replay_known(self, exe, odd, label):
        """odd: (op with what is right as ret, what the listed defect makes of it, key).  Where a listed defect makes a
        difference, the code does the right thing or exactly what is listed; anything else is a violation."""
        for i in range(0, len(odd), 200):
            part = odd[i:i + 200]
            rep, crash = self.execute(exe, [{k: v for k, v in o.items() if k != "ret"} for o, _, _ in part])
            for k, (o, alt, key) in enumerate(part):
                got = rep[k].get("ret") if k < len(rep) else crash
                if got != o["ret"] and not (got == alt and self.known_finding(key)):
                    self.violation(f"[{label}] {o}: the code gives {got}", {"kind": "replay", "ops": [o]})

    # ---- building -------------------------------------------------------------------------------
    def build(self, driver, san="asan", extra=(), lib=True, cxx="g++"):
        """Compile /verif/harness/<driver>.cpp with all of /repo's library sources; returns the executable."""
        flags = ["-std=c++17", "-w", "-pthread", f"-I{REPO}", f"-I{HARNESS}", *SAN[san], *extra]
        key = hashlib.sha256((_hash_tree() + " ".join(flags) + cxx).encode()).hexdigest()[:16]
        libdir = os.path.join(BUILD, f"lib-{key}")
        if lib and not os.path.exists(os.path.join(libdir, "ok")):
            for old in glob.glob(os.path.join(BUILD, "lib-*")):  # keep the scratch area small
                if time.time() - os.path.getmtime(old) > 3600:
                    shutil.rmtree(old, ignore_errors=True)
            tmpd = tempfile.mkdtemp(prefix="tmplib-", dir=BUILD)
            srcs = sorted(glob.glob(os.path.join(REPO, "xo", "*", "*.cpp")))

            def cc(src):
                o = os.path.join(tmpd, os.path.relpath(src, REPO).replace("/", "_") + ".o")
                r = subprocess.run([cxx, *flags, "-c", src, "-o", o], capture_output=True, text=True)
                if r.returncode:
                    raise CheckError(f"compiling {src} failed:\n{r.stderr[-3000:]}")
                return o
            with ThreadPoolExecutor(NPROC) as ex:
                list(ex.map(cc, srcs))
            open(os.path.join(tmpd, "ok"), "w").close()
            try:
                os.rename(tmpd, libdir)
            except OSError:
                shutil.rmtree(tmpd, ignore_errors=True)
        exe = os.path.join(self.tmp, driver + "-" + san)
        objs = sorted(glob.glob(os.path.join(libdir, "*.o"))) if lib else []
        r = subprocess.run([cxx, *flags, os.path.join(HARNESS, driver + ".cpp"), *objs, "-o", exe, "-ldl"],
                           capture_output=True, text=True)
        if r.returncode:
            raise CheckError(f"compiling driver {driver} failed:\n{r.stderr[-4000:]}")
        return exe

    # ---- TLC ------------------------------------------------------------------------------------
    def tlc(self, module, cfg=None, consts=None, env=None, workers=1, args=(), timeout=600, expect=(0,),
            cfgtext=None, heap="6g"):
        """Run TLC on spec/<module>.tla.  Returns dict(rc, out, states, generated)."""
        meta = tempfile.mkdtemp(prefix="meta-", dir=self.tmp)
        if cfgtext is None:
            cfgp = os.path.join(SPEC, cfg or module + ".cfg")
            cfgtext = open(cfgp).read()
        for k, v in (consts or {}).items():
            cfgtext, n = re.subn(rf"(?m)^(\s*{re.escape(k)}\s*)(=|<-).*$", lambda m: f"{m[1]}= {v}", cfgtext)
            if not n:
                raise CheckError(f"constant {k} not in cfg of {module}")
        # constants that are not model values or simple sets go in a wrapper module
        defs = []

        def wrap(m):
            defs.append(f"mc_{m[1]} == {m[2]}")
            return f" {m[1]} <- mc_{m[1]}"
        cfgtext = re.sub(r"(?m)^\s*(\w+)\s*=\s*(.*(?:<<|\[|\.\.|-\d).*)$", wrap, cfgtext)
        root = module + ".tla"
        if defs:
            root = os.path.join(meta, "MC" + module + ".tla")
            with open(root, "w") as fh:
                fh.write(f"---- MODULE MC{module} ----\nEXTENDS {module}\n" + "\n".join(defs) + "\n====\n")
        cfgf = os.path.join(meta, module + ".cfg")
        open(cfgf, "w").write(cfgtext)
        e = dict(os.environ)
        e.pop("JAVA_TOOL_OPTIONS", None)
        e.update({k: str(v) for k, v in (env or {}).items()})
        cmd = ["timeout", str(timeout), "java", f"-Djava.io.tmpdir={self.tmp}", "-XX:+UseParallelGC", f"-Xmx{heap}", "-Xss512m", f"-DTLA-Library={SPEC}", "-cp", CP, "tlc2.TLC",
               "-config", cfgf, "-metadir", os.path.join(meta, "states"), "-noGenerateSpecTE",
               "-workers", str(workers), *args, root]
        outp = os.path.join(meta, "out.txt")
        with open(outp, "w") as fh:
            r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=fh, stderr=subprocess.STDOUT)
        res = {"rc": r.returncode, "outp": outp, "states": 0, "generated": 0}
        tail, n_out = [], 0
        with open(outp, errors="replace") as fh:
            for line in fh:
                if line.startswith('"@'):
                    n_out += 1
                    continue
                tail.append(line)
                m = re.match(r"([\d,]+) states generated, ([\d,]+) distinct states found", line)
                if m:
                    res["generated"], res["states"] = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
                m = re.match(r"Progress\(\d+\) at [^:]*:\d+:\d+: ([\d,]+) states generated[^,]*, ([\d,]+) distinct", line)
                if m:
                    res["generated"], res["states"] = int(m[1].replace(",", "")), int(m[2].replace(",", ""))
                m = re.match(r"The number of states generated: ([\d,]+)", line)
                if m:
                    res["generated"] = int(m[1].replace(",", ""))
        if r.returncode == 124:     # stopped: at least what it printed was explored
            res["states"], res["generated"] = max(res["states"], n_out), max(res["generated"], n_out)
        res["text"] = "".join(tail)
        if r.returncode not in expect:
            raise CheckError(f"TLC on {module} ended with {r.returncode}:\n{res['text'][-3500:]}")
        return res

    def emitted(self, res, tag="@B"):
        """JSON values printed by the specification with PrintT("@B" \\o ToJson(x))."""
        with open(res["outp"], errors="replace") as fh:
            for line in fh:
                if line.startswith('"' + tag):
                    if not line.endswith('"\n'):
                        break       # the run was stopped here
                    s = json.loads(line.strip())[len(tag):]
                    yield json.loads(s)

    def explore(self, module, cfg=None, consts=None, workers=1, timeout=600, env=None, name=None):
        """Exhaustive model checking of the invariants of a specification; yields its behaviours."""
        res = self.tlc(module, cfg, consts, env, workers, timeout=self._left(timeout), expect=(0,) if self.quick else (0, 124))
        self.states += res["states"]
        self.transitions += res["generated"]
        mode = "exhaustive" if res["rc"] == 0 else "breadth first, stopped when the time of the tier was up"
        self.runs.append({"spec": module, "cfg": cfg or module + ".cfg", "distinct_states": res["states"],
                          "transitions": res["generated"], "mode": mode})
        return res

    def _left(self, timeout):
        return timeout if self.quick else max(30, min(timeout, int(self.until - time.time())))

    def simulate(self, module, cfg=None, consts=None, num=200, depth=40, timeout=600, env=None):
        res = self.tlc(module, cfg, consts, env, workers=1, timeout=self._left(timeout), expect=(0,) if self.quick else (0, 124),
                       args=["-simulate", f"num={num}", "-depth", str(depth), "-seed", str(self.seed)])
        self.transitions += res["generated"]
        self.runs.append({"spec": module, "cfg": cfg or module + ".cfg", "transitions": res["generated"],
                          "mode": f"simulate num={num} depth={depth}"})
        return res

    # ---- executing the real code ----------------------------------------------------------------
    def execute(self, exe, lines, timeout=150, env=None, args=(), cwd=None):
        """Feed op records to a driver.  Returns (replies, crash) with crash = None or a description."""
        with self.lock:
            self.seq += 1
            n = self.seq
        inp = os.path.join(self.tmp, f"in{n}.ndjson")
        outp = os.path.join(self.tmp, f"out{n}.ndjson")
        with open(inp, "w") as fh:
            for l in lines:
                fh.write(json.dumps(l, separators=(",", ":")) + "\n")
        e = dict(os.environ)
        e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=66:allocator_may_return_null=1:detect_stack_use_after_return=0"
        e["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1:exitcode=66"
        e.update(env or {})
        crash = None
        with open(inp) as fi, open(outp, "w") as fo, open(outp + ".err", "w") as fe:
            try:
                r = subprocess.run([exe, *args], stdin=fi, stdout=fo, stderr=fe, timeout=timeout, env=e,
                                   cwd=cwd or self.tmp)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                rc = "timeout"
        err = open(outp + ".err", errors="replace").read()
        os.remove(inp)
        os.remove(outp + ".err")
        if rc == 97:
            raise CheckError("driver protocol error: " + err[-1500:])
        replies = []
        with open(outp, errors="replace") as fh:
            for line in fh:
                if not line.endswith("\n"):
                    break
                try:
                    replies.append(json.loads(line))
                except ValueError:
                    raise CheckError("driver output is not JSON: " + line[:300])
        os.remove(outp)
        if rc == "timeout":
            crash = f"the call did not return within {timeout} s"
        elif rc != 0:
            m = re.search(r"(pure virtual method called|runtime error: [^\n]*|ERROR: AddressSanitizer: [^\n]*|terminate called[^\n]*(\n[^\n]*)?|Assertion [^\n]*)", err)
            crash = f"the process died (status {rc}): " + (m[0] if m else err[-400:].strip())
            if "ThreadSanitizer: data race" in err:
                crash = "data race: " + "; ".join(re.findall(r"(?:Write|Read|Previous \w+|Atomic \w+) of size[^\n]*\n +#0 [^\n]*|SUMMARY[^\n]*", err)[:3])[:700]
            elif "ThreadSanitizer: unexpected memory mapping" in err or "FATAL: ThreadSanitizer" in err:
                crash = "TSAN-UNAVAILABLE"
        elif len(replies) != len(lines):
            crash = f"the process ended after {len(replies)} of {len(lines)} calls"
        return replies, crash

    @staticmethod
    def _diff(exp, got):
        """exp: record with ret and/or obs; got: reply."""
        for k in ("ret", "obs"):
            if k in exp and not same(exp[k], got.get(k)):
                return f"{k}: specification {json.dumps(exp[k])[:600]} / implementation {json.dumps(got.get(k))[:600]}"
        return None

    def replay(self, exe, behaviours, label="", timeout=150, env=None, args=(), batch=4000, fresh=False):
        """behaviours: iterable of dict(init=record or None, ops=[op records with expected ret / obs]).
        Each is stepped through the real code; every expectation attached to a step is compared."""
        n = 0

        def flush(buf):
            nonlocal n
            lines, idx = [], []
            for bi, b in enumerate(buf):
                lines.append({"op": "reset", **(b.get("init") or {})})
                idx.append((bi, -1))
                for oi, o in enumerate(b["ops"]):
                    lines.append({k: v for k, v in o.items() if k not in ("ret", "obs")})
                    idx.append((bi, oi))
            rep, crash = self.execute(exe, lines, timeout, env, args)
            bad = None
            for i, r in enumerate(rep):
                bi, oi = idx[i]
                if oi >= 0:
                    d = self._diff(buf[bi]["ops"][oi], r)
                    if d:
                        bad = (bi, oi, d)
                        break
            if bad is None and crash:
                bi, oi = idx[min(len(rep), len(idx) - 1)]
                bad = (bi, oi, crash)
            if bad:
                self._confirm_replay(exe, buf, bad, label, timeout, env, args)
            self.lock.acquire()
            for b in buf:
                n += 1
                for o in b["ops"]:
                    self.opcount[o["op"]] = self.opcount.get(o["op"], 0) + 1
                    self.replayed_ops += 1
            self.lock.release()
            if len(self.samples) < 3:
                self.samples.append({"replayed": label, "behaviour": buf[len(buf) // 2]["ops"][-6:]})
        # the next batches run while one is compared
        with ThreadPoolExecutor(3) as pool:
            work, buf = [], []
            try:
                for b in behaviours:
                    buf.append(b)
                    if time.time() > self.until + 60 and len(work) > 0:
                        self.notes["replay stopped when the time of the tier was up"] = label
                        break
                    if len(buf) >= batch:
                        if len(work) >= 4:
                            work.pop(0).result()
                        work.append(pool.submit(flush, buf))
                        buf = []
                if buf:
                    work.append(pool.submit(flush, buf))
                for w in work:
                    w.result()
            finally:
                for w in work:
                    w.cancel()
        self.traces += n
        if n == 0:
            raise CheckError(f"no behaviours were generated for {label}")
        log(f"  replayed {n} behaviours [{label}]")
        return n

    def _confirm_replay(self, exe, buf, bad, label, timeout, env, args):
        bi, oi, desc = bad
        b = buf[bi]
        lines = [{"op": "reset", **(b.get("init") or {})}] + [
            {k: v for k, v in o.items() if k not in ("ret", "obs")} for o in b["ops"]]
        rep, crash = self.execute(exe, lines, min(timeout, 60), env, args)
        for i, r in enumerate(rep[1:]):
            d = self._diff(b["ops"][i], r)
            if d:
                return self.violation(f"[{label}] step {i + 1} {json.dumps(lines[i + 1])[:300]}: {d}",
                                      {"kind": "replay", "ops": lines, "expected": b["ops"][i]})
        if crash:
            return self.violation(f"[{label}] {crash}; at {json.dumps(lines[min(len(rep), len(lines) - 1)])[:300]}",
                                  {"kind": "replay", "ops": lines})
        # only with the history before it: run the same batch again
        lines = []
        for bb in buf[:bi + 1]:
            lines.append({"op": "reset", **(bb.get("init") or {})})
            lines += [{k: v for k, v in o.items() if k not in ("ret", "obs")} for o in bb["ops"]]
        rep, crash = self.execute(exe, lines, timeout, env, args)
        exp = []
        for bb in buf[:bi + 1]:
            exp.append({})
            exp += bb["ops"]
        for i, r in enumerate(rep):
            d = self._diff(exp[i], r)
            if d:
                return self.violation(f"[{label}] {json.dumps(lines[i])[:300]}: {d}", {"kind": "replay", "ops": lines[:i + 1]})
        if crash:
            return self.violation(f"[{label}] {crash}", {"kind": "replay", "ops": lines})
        raise CheckError(f"a mismatch did not repeat: {desc}")

    # ---- validating recorded traces -------------------------------------------------------------
    def record(self, exe, segments, timeout=150, env=None, args=(), label=""):
        """Run op sequences on the real code; returns trace records (op + ret + obs)."""
        lines = []
        for seg in segments:
            init = seg.get("init") or {}
            lines.append({"op": "reset", **init})
            lines += seg["ops"]
        rep, crash = self.execute(exe, lines, timeout, env, args)
        if crash:
            # find the segment, re-run it alone
            i = min(len(rep), len(lines) - 1)
            s = i
            while lines[s]["op"] != "reset":
                s -= 1
            seg = lines[s:i + 1]
            rep2, crash2 = self.execute(exe, seg, min(timeout, 60), env, args)
            if crash2:
                self.violation(f"[{label}] {crash2}; at {json.dumps(lines[i])[:400]}", {"kind": "record", "ops": seg})
            rep2, crash2 = self.execute(exe, lines[:i + 1], timeout, env, args)
            if crash2:
                self.violation(f"[{label}] {crash2}; at {json.dumps(lines[i])[:400]}", {"kind": "record", "ops": lines[:i + 1]})
            raise CheckError(f"a crash did not repeat: {crash}")
        return [{**l, **r} for l, r in zip(lines, rep)]

    def _tlc_trace(self, module, trace, cfg, timeout, env=None, consts=None):
        with self.lock:
            self.seq += 1
            f = os.path.join(self.tmp, f"trace{self.seq}.ndjson")
        with open(f, "w") as fh:
            for t in trace:
                fh.write(json.dumps(t, separators=(",", ":")) + "\n")
        res = self.tlc(module, cfg, consts, {"TRACE": f, **(env or {})}, 1, timeout=timeout, expect=(0, 12, 13, 10, 11, 75))
        if res["rc"] == 75:     # a recorded value of another kind than the specification has here: not an allowed step
            at = re.findall(r"(?m)^(?:/\\ )?l = (\d+)$", res["text"])
            if not at or not re.search(r"Attempted to (check equality|compare|apply|select|access)", res["text"]):
                raise CheckError(f"TLC on {module} failed on the trace:\n{res['text'][:1500]}\n...\n{res['text'][-1500:]}")
            return res, int(at[-1]) - 1
        m = re.search(r"The depth of the complete state graph search is (\d+)", res["text"])
        depth = int(m[1]) if m else None
        if res["rc"] == 0:
            return res, None
        if depth is None or "Accepted" not in res["text"] and "ostcondition" not in res["text"]:
            raise CheckError(f"TLC on {module} failed on the trace:\n{res['text'][-3000:]}")
        return res, depth - 1   # index (0-based) of the first line that was not matched

    def validate(self, module, trace, cfg=None, exe=None, timeout=600, label="", env=None, drv_args=(), consts=None):
        """Check that a recorded trace is a behaviour of the trace specification."""
        res, bad = self._tlc_trace(module, trace, cfg, timeout, consts=consts)
        nseg = sum(1 for t in trace if t["op"] == "reset") or 1
        if bad is None:
            self.traces += nseg
            self.states += res["states"]
            self.transitions += res["generated"]
            self.runs.append({"spec": module, "mode": "trace validation", "events": len(trace), "segments": nseg})
            for t in trace:
                self.opcount[t["op"]] = self.opcount.get(t["op"], 0) + 1
            if len(self.samples) < 6:
                self.samples.append({"validated": label or module, "events": trace[1:5]})
            log(f"  validated {len(trace)} recorded events in {nseg} segments [{label or module}]")
            return
        s = bad
        while s > 0 and trace[s]["op"] != "reset":
            s -= 1
        seg = trace[s:bad + 1]
        if exe:   # repeat on the real code and in the model
            lines = [{k: v for k, v in t.items() if k not in ("ret", "obs")} for t in seg]
            rep, crash = self.execute(exe, lines, 60, env, drv_args)
            if crash:
                self.violation(f"[{label}] {crash}", {"kind": "trace", "module": module, "ops": lines})
            tr2 = [{**l, **r} for l, r in zip(lines, rep)]
            _, bad2 = self._tlc_trace(module, tr2, cfg, timeout, consts=consts)
            if bad2 is None:
                lines = [{k: v for k, v in t.items() if k not in ("ret", "obs")} for t in trace[:bad + 1]]
                rep, crash = self.execute(exe, lines, 150, env, drv_args)
                _, bad3 = self._tlc_trace(module, [{**l, **r} for l, r in zip(lines, rep)], cfg, timeout, consts=consts)
                if bad3 is None and not crash:
                    raise CheckError(f"a rejected trace was accepted when it was recorded again: {json.dumps(trace[bad])[:500]}")
        self.violation(f"[{label}] the specification does not allow the recorded step {json.dumps(trace[bad])[:900]}",
                       {"kind": "trace", "module": module, "trace": seg})

    def schedules(self, exe, scenarios, module, label="", timeout=400, chunk=60000, tlc_timeout=800, split=4):
        """Run every scenario on the real code under the scheduler (harness/scheduler.h) and check each distinct history of
        events it produced against the trace specification.  Returns the histories as one trace."""
        recs = []
        size = max(1, (len(scenarios) + split - 1) // split)
        parts = [scenarios[i:i + size] for i in range(0, len(scenarios), size)]
        for part in self.par(*[lambda p=p: self.record(exe, [{"ops": p}], timeout=timeout, label=label) for p in parts]):
            recs += [r for r in part if r["op"] != "reset"]
        trace, owner, runs = [], [], 0
        for sc, r in zip(scenarios, recs):
            if not r["ret"]["ok"]:
                raise CheckError(f"scenario failed: {json.dumps(sc)[:300]}")
            runs += r["ret"]["v"]["runs"]
            for h in r["ret"]["v"]["hist"]:
                head = {k: v for k, v in sc.items() if k != "op"}
                trace += [{"op": "reset", "kind": sc["op"], **head}] + h
                owner += [sc] * (len(h) + 1)
        pieces, a = [], 0
        while a < len(trace):      # cut at resets
            b = min(len(trace), a + max(2000, min(chunk, len(trace) // split)))
            while b < len(trace) and trace[b]["op"] != "reset":
                b += 1
            pieces.append((a, b))
            a = b

        def one(a, b):
            res, bad = self._tlc_trace(module, trace[a:b], None, tlc_timeout)
            with self.lock:
                self.states += res["states"]
                self.transitions += res["generated"]
            if bad is None:
                return
            i = s = a + bad
            while trace[s]["op"] != "reset":
                s -= 1
            e = s + 1
            while e < len(trace) and trace[e]["op"] != "reset":
                e += 1
            hist = trace[s + 1:e]
            again = self.record(exe, [{"ops": [owner[i]]}], timeout=timeout, label=label)[-1]
            if hist not in again["ret"]["v"]["hist"]:
                raise CheckError(f"a rejected history did not repeat: {json.dumps(hist)[:600]}")
            self.violation(f"[{label}] scenario {json.dumps(owner[i])[:300]}: the specification does not allow event "
                           f"{i - s} of the recorded schedule {json.dumps(hist[:i - s])[:1500]}",
                           {"kind": "schedule", "module": module, "scenario": owner[i], "history": trace[s:e]})
        self.par(*[lambda a=a, b=b: one(a, b) for a, b in pieces])
        nseg = sum(1 for t in trace if t["op"] == "reset")
        self.traces += nseg
        for t in trace:
            k = t["op"] if t["op"] != "reset" else "scenario"
            self.opcount[k] = self.opcount.get(k, 0) + 1
        self.notes["schedules_run"] = self.notes.get("schedules_run", 0) + runs
        self.runs.append({"spec": module, "mode": "trace validation of explored schedules", "scenarios": len(scenarios),
                          "schedules": runs, "distinct_histories": nseg, "events": len(trace)})
        if len(self.samples) < 6:
            self.samples.append({"schedule": trace[:12]})
        log(f"  {len(scenarios)} scenarios, {runs} schedules, {nseg} distinct histories, {len(trace)} events validated [{label}]")
        return trace

    def races(self, ops, rounds=None):
        """Run the free-running scenarios `ops` of harness/races.cpp under ThreadSanitizer: the specifications take each access
        to shared data as one step, which a data race would break."""
        exe = self.build("races", san="tsan")
        supp = os.path.join(self.tmp, "tsan.supp")      # locked inside the C library, which ThreadSanitizer cannot see
        with open(supp, "w") as fh:
            fh.write("race:tzset_internal\nrace:tzfile_read\n")
        rounds = rounds or (60 if self.quick else 1500)
        done = 0
        for op in ops:
            replies, crash = self.execute(exe, [{"op": op, "rounds": rounds}], timeout=600,
                                          env={"TSAN_OPTIONS": "halt_on_error=1:exitcode=66:report_signal_unsafe=0:suppressions=" + supp})
            if crash == "TSAN-UNAVAILABLE":
                self.notes["data races"] = "ThreadSanitizer cannot start here: absence of data races was not checked"
                return
            if crash:
                self.violation(f"[{op}] threads running freely: {crash}", {"kind": "races", "op": op, "rounds": rounds})
            done += rounds
            self.notes["data races: " + op] = f"none in {rounds} rounds of threads running freely"
        log(f"  {done} rounds of threads running freely ({' '.join(ops)})")

    def refute(self, module, consts, cfg=None, timeout=300):
        """A deliberately wrong model must be refuted by its own invariants: the model can tell right from wrong."""
        text = re.sub(r"(?m)^PROPERTY.*$", "", open(os.path.join(SPEC, cfg or module + ".cfg")).read())   # safety and deadlock
        res = self.tlc(module, cfg, consts, timeout=timeout, expect=(12, 11), cfgtext=text)
        self.notes["wrong_models_refuted"] = self.notes.get("wrong_models_refuted", 0) + 1
        return res

    def binding_check(self, module, trace, corrupt, cfg=None, label=""):
        """Corrupt recorded traces: the trace specification must reject every one of them."""
        n = 0
        for t in corrupt(trace):
            _, bad = self._tlc_trace(module, t, cfg, 120)
            if bad is None:
                raise CheckError(f"the trace specification {module} accepted a corrupted trace")
            n += 1
        self.notes["corrupted_traces_rejected"] = self.notes.get("corrupted_traces_rejected", 0) + n

    # ---- results --------------------------------------------------------------------------------
    def par(self, *jobs):
        """Run independent parts of a check concurrently."""
        with ThreadPoolExecutor(max(2, NPROC // 2)) as ex:
            fs = [ex.submit(j) for j in jobs]
            errs = [f.exception() for f in fs]
        for k in (Violation, CheckError, Exception):
            for e in errs:
                if isinstance(e, k):
                    raise e
        return [f.result() for f in fs]

    def violation(self, desc, replay):
        with self.lock:
            self._violation(desc, replay)

    def _violation(self, desc, replay):
        d = os.path.join(BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, f"{self.prop}-{len(self.viol)}.json")
        with open(p, "w") as fh:
            json.dump({"property": self.prop, "what": desc, **replay}, fh, indent=1)
        self.viol.append(desc)
        if len(self.viol) > 1:
            raise Violation(desc)
        log("  " + desc)
        log(f"VIOLATION property={self.prop} replay={p}")
        raise Violation(desc)

    def need_ops(self, names):
        """Vacuity guard: every listed action must have been exercised on the real code."""
        miss = [n for n in names if not self.opcount.get(n)]
        if miss:
            raise CheckError(f"never exercised: {miss}")

    def finish(self):
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": {"states": self.states, "transitions": self.transitions,
                           "traces_validated_against_impl": self.traces,
                           "calls_compared": self.replayed_ops,
                           "calls_by_action": dict(sorted(self.opcount.items())),
                           "tlc_runs": self.runs, "samples": self.samples or [{"none": True}], **self.notes},
              "assumptions": self.assumptions, "wall_s": round(time.time() - self.t0, 2),
              "violations": len(self.viol)}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, f"{self.prop}.json"), "w") as fh:
            json.dump(ev, fh, indent=1)

    def cleanup(self):
        shutil.rmtree(self.tmp, ignore_errors=True)


def beh(paths):
    """Emitted records {p: [op records], e: {op..., ret, obs}} or plain lists of op records -> behaviours."""
    for x in paths:
        if isinstance(x, dict):
            yield {"init": x.get("i"), "ops": list(x.get("p") or []) + ([x["e"]] if "e" in x else [])}
        else:
            yield {"ops": x}
