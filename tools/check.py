#!/usr/bin/env python3
"""Decides one property:  check.py <ID> [quick|thorough]

Builds the harness against /repo's working tree, lets it record sessions with the
library, and has TLC check that the specification allows every recorded call.
Exit 0: it does.  1: VIOLATION.  2: the check itself failed.
"""
import collections, fcntl, hashlib, json, os, re, resource, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import plan

HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
TLA = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
BIN = os.path.join(HARNESS, "target", "debug", "pmharness")


class CheckError(Exception):
    pass


class Violation(Exception):
    def __init__(self, what, replay):
        super().__init__(what)
        self.what, self.replay = what, replay


def build(to):
    """Build the harness against /repo's working tree, and copy it to a place of this run"""
    os.makedirs(os.path.join(HARNESS, "target"), exist_ok=True)
    with open(os.path.join(HARNESS, "target", ".check-lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        build_locked()
        shutil.copy2(BIN, to)


def build_locked():
    # never trust time stamps to tell whether the library has changed
    subprocess.run(["cargo", "clean", "--offline", "--quiet", "-p", "prosemirror", "-p", "pmharness"], cwd=HARNESS,
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    p = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise CheckError("the harness does not build:\n" + p.stdout[-4000:])


def limits():
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))


def tlc(module, config, env, workers=8, timeout=1500, cwd=None, heap="6g", extra=()):
    """(exit code, output)"""
    meta = tempfile.mkdtemp(dir=cwd)
    cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseParallelGC", "-Xss64m", "-Xmx" + heap, "-cp", TLA, "tlc2.TLC",
           "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", config, *extra, module]
    e = dict(os.environ)
    e.update(env)
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise CheckError("TLC did not finish in %d s: %s" % (timeout, " ".join(cmd)))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return p.returncode, p.stdout


def states_of(out):
    m = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct states found", out)
    if not m:
        return 0, 0
    return int(m[-1][0].replace(",", "")), int(m[-1][1].replace(",", ""))


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.tmp = tempfile.mkdtemp(prefix="pmcheck-")
        self.bin = os.path.join(self.tmp, "pmharness")
        self.states = self.transitions = self.traces = self.calls = 0
        self.kinds = collections.Counter()
        self.inputs = set()
        self.samples = []
        self.models = []
        self.scopes = {}

    # ------------------------------------------------------------------ driving the library

    def harness(self, args, what):
        """Run the harness; returns the path of the recorded trace"""
        out = os.path.join(self.tmp, "trace.ndjson")
        pending = os.path.join(self.tmp, "pending")
        err = os.path.join(self.tmp, "stderr")
        with open(err, "wb") as f, open(os.path.join(self.tmp, "stdout"), "wb") as so:
            try:
                rc = subprocess.run([self.bin, *args, out, pending], stdout=so, stderr=f, cwd=self.tmp,
                                    preexec_fn=limits, timeout=1200).returncode
            except subprocess.TimeoutExpired:
                raise CheckError("the harness did not finish: " + what)
        if rc == 0:
            return out
        call = self.pending(pending)
        with open(err, errors="replace") as f:
            msg = f.read()[-2000:]
        if call is not None:
            ends = "does not return" if rc == 97 else "ends the process (%d)" % rc
            self.violation({"problem": "a call of the library " + ends, "call": call, "stderr": msg})
        if rc == 98 and "LIBRARY PANIC" in msg:
            self.violation({"problem": "the library panicked", "stderr": msg})
        raise CheckError("the harness failed (%s, exit %d): %s" % (what, rc, msg))

    @staticmethod
    def pending(path):
        try:
            with open(path, "rb") as f:
                head = f.read(12)
                n = int(head)
                return json.loads(f.read(n)) if n else None
        except (OSError, ValueError):
            return None

    # ------------------------------------------------------------------ judging what it did

    def validate(self, trace, origin):
        sessions = {}
        expected = 0
        with open(trace) as f:
            for line in f:
                s = json.loads(line)
                n = len(s["evs"])
                expected += n + 1
                self.traces += 1
                self.calls += n
                for ev in s["evs"]:
                    self.count(ev)
        if expected == 0:
            raise CheckError("nothing was recorded")
        rc, out = tlc("Trace.tla", "Trace.cfg", {"TRACE": trace, "PROP": self.prop}, cwd=self.tmp)
        gen, distinct = states_of(out)
        self.states += distinct
        self.transitions += max(0, gen - self.initials(trace))
        rejected = re.findall(r'<<"REJECTED", (\d+), (\d+)>>', out)
        if rejected:
            sid, k = map(int, rejected[0])
            self.reject(trace, sid, k, origin, "the specification does not allow this call")
        if rc != 0 or "No error has been found" not in out:
            if re.search(r"StackOverflow|OutOfMemory|java\.io|GC overhead", out):
                raise CheckError("TLC failed:\n" + out[-3000:])
            # an output of the library on which the specification has no value
            at = re.findall(r"/\\ s = (\d+)", out)
            ks = re.findall(r"/\\ k = (\d+)", out)
            if at and ks and "Error" in out:
                with open(trace) as f:
                    line = next(l for i, l in enumerate(f) if i + 1 == int(at[-1]))
                self.reject(trace, json.loads(line)["id"], int(ks[-1]) + 1, origin,
                            "the specification has no place for this call: " +
                            " ".join(re.findall(r"Error: .*|The exception was.*|.*Attempted.*", out))[:800])
            raise CheckError("TLC failed:\n" + out[-3000:])
        if distinct != expected:
            raise CheckError("TLC saw %d of %d states" % (distinct, expected))

    @staticmethod
    def initials(trace):
        with open(trace) as f:
            return sum(1 for _ in f)

    def count(self, ev):
        res = ev.get("res")
        if isinstance(res, dict):
            r = res.get("r", "")
            if r == "err" and isinstance(res.get("kind"), list):
                r += " " + res["kind"][0]
        elif isinstance(res, str) and len(res) < 12:
            r = res
        else:
            r = ""
        step = ev.get("step")
        op = ev["op"] + ("/" + step["st"] if isinstance(step, dict) and "st" in step else "")
        self.kinds[(op + " " + r).strip()] += 1
        text = json.dumps(ev, sort_keys=True)
        self.inputs.add(hashlib.blake2b(text.encode(), digest_size=8).digest())
        if len(self.samples) < 3 and 150 < len(text) < 1800 and self.kinds[(op + " " + r).strip()] == 1:
            self.samples.append(ev)

    def reject(self, trace, sid, k, origin, problem):
        with open(trace) as f:
            for line in f:
                s = json.loads(line)
                if s["id"] == sid:
                    s["evs"] = s["evs"][:k]
                    self.violation({"problem": problem, "origin": origin, "rejected_call": s["evs"][k - 1] if 0 < k <= len(s["evs"]) else None,
                                    "session": s})
        raise CheckError("session %d not found" % sid)

    def violation(self, info):
        info = dict(property=self.prop, seed=self.seed, tier=self.tier, **info)
        text = json.dumps(info, indent=1, ensure_ascii=False)
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        path = os.path.join(VERIF, "replays", "%s-%s.json" % (self.prop, hashlib.sha1(text.encode()).hexdigest()[:10]))
        with open(path, "w") as f:
            f.write(text)
        raise Violation(info["problem"], path)

    # ------------------------------------------------------------------ the parts of a check

    def recorded(self, seed, sessions):
        t = self.harness(["trace", self.prop, str(seed), str(sessions)], "seed %d" % seed)
        self.validate(t, "pmharness trace %s %d %d" % (self.prop, seed, sessions))
        os.unlink(t)

    def small(self, scope, part, target):
        """Run the library on one part of a scope that the specification enumerates;
        returns the number of parts"""
        key = json.dumps(scope, sort_keys=True)
        path = os.path.join(self.tmp, "scope-%s.json" % hashlib.sha1(key.encode()).hexdigest()[:8])
        if not os.path.exists(path):
            rc, out = tlc("Scope.tla", "Scope.cfg", dict({k: str(v) for k, v in scope.items()}, OUT=path),
                          workers=1, cwd=self.tmp)
            if rc != 0 or "No error has been found" not in out or not os.path.exists(path):
                raise CheckError("TLC did not enumerate the scope:\n" + out[-3000:])
        t = self.harness(["small", self.prop, str(part), str(target), path], "scope %s part %d" % (key, part))
        with open(os.path.join(self.tmp, "stdout")) as f:
            parts = int(f.read().split()[1])
        before = self.calls
        self.validate(t, "scope %s, part %d of %d" % (key, part % parts, parts))
        os.unlink(t)
        m = self.scopes.setdefault(key, {"model": "Scope.tla", "constants": scope, "parts": parts, "parts_run": 0, "calls": 0})
        m["parts_run"] += 1
        m["calls"] += self.calls - before
        m["exhausted"] = m["parts_run"] == parts
        return parts

    def model(self, module, what, **constants):
        """Model-check the specification itself; its laws have to hold"""
        env = {k: str(v) for k, v in constants.items()}
        env["OUT"] = os.path.join(self.tmp, "unused")
        t0 = time.time()
        rc, out = tlc(module + ".tla", module + ".cfg", env, cwd=self.tmp, timeout=3000)
        if rc != 0 or "No error has been found" not in out:
            raise CheckError("%s.tla %s: TLC does not confirm the laws:\n%s" % (module, constants, out[-3000:]))
        gen, distinct = states_of(out)
        self.states += distinct
        self.transitions += gen
        self.models.append({"model": module + ".tla", "what": what, "constants": constants, "states_generated": gen,
                            "distinct_states": distinct, "exhausted": True, "wall_s": round(time.time() - t0, 1)})

    def replayed(self, seed, behaviours):
        """Let the specification make up histories of a document with several replicas, step
        the library through them, and judge what it did"""
        procs = []
        each = -(-behaviours // 8)
        t0 = time.time()
        for i in range(8):
            meta = tempfile.mkdtemp(dir=self.tmp)
            env = dict(os.environ, MAX="60", VERSIONS="0", REPS="4", DEPTH="25", RANDOM="yes",
                       OUT=os.path.join(self.tmp, "behaviours-%d" % i))
            log = open(os.path.join(self.tmp, "sim-%d" % i), "w+")
            cmd = ["java", "-Dfile.encoding=UTF-8", "-XX:+UseSerialGC", "-Xss64m", "-Xmx2g", "-cp", TLA, "tlc2.TLC", "-workers", "1", "-metadir", meta,
                   "-noGenerateSpecTE", "-simulate", "num=%d" % each, "-depth", "40", "-seed", str(seed * 64 + i),
                   "-config", "CollabSim.cfg", "Collab.tla"]
            procs.append((subprocess.Popen(cmd, cwd=SPEC, env=env, stdout=log, stderr=subprocess.STDOUT), log))
        failed = None
        for p, log in procs:
            try:
                p.wait(timeout=1500)
            except subprocess.TimeoutExpired:
                p.kill()
                failed = "simulation did not finish"
            log.seek(0)
            text = log.read()
            log.close()
            if p.returncode != 0 or "Error" in text:
                failed = text[-3000:]
        if failed:
            raise CheckError("Collab.tla: " + failed)
        path = os.path.join(self.tmp, "behaviours")
        n = 0
        with open(path, "w") as f:
            for i in range(8):
                part = os.path.join(self.tmp, "behaviours-%d" % i)
                with open(part) as g:
                    for line in g:
                        f.write(line)
                        n += 1
                os.unlink(part)
        if n < behaviours:
            raise CheckError("Collab.tla: only %d behaviours" % n)
        before = self.calls
        t = self.harness(["replay", self.prop, path], "behaviours, seed %d" % seed)
        self.validate(t, "behaviours of Collab.tla, seed %d" % seed)
        os.unlink(t)
        os.unlink(path)
        self.models.append({"model": "Collab.tla", "what": "random behaviours of 25 actions replayed in the library", "seed": seed,
                            "behaviours": n, "calls": self.calls - before, "exhausted": False, "wall_s": round(time.time() - t0, 1)})

    def run(self):
        build(self.bin)
        plan.run(self)

    def evidence(self, wall, violations):
        cov = {
            "states": self.states,
            "transitions": self.transitions,
            "traces_validated_against_impl": self.traces,
            "calls_checked": self.calls,
            "distinct_calls": len(self.inputs),
            "calls_by_kind_and_result": dict(self.kinds.most_common(60)),
            "models": self.models,
            "small_scopes": list(self.scopes.values()),
            "samples": self.samples,
        }
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
              "coverage": cov, "assumptions": plan.ASSUMPTIONS, "wall_s": round(wall, 2), "violations": violations}
        d = os.path.join(VERIF, "evidence")
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    c = Check(prop, tier, seed)
    t0 = time.time()
    try:
        c.run()
        c.evidence(time.time() - t0, 0)
        print("ok property=%s tier=%s: %d sessions, %d calls, %d states, %.1f s" %
              (prop, tier, c.traces, c.calls, c.states, time.time() - t0))
        for m in c.scopes.values():
            print("   scope %s: part(s) %d of %d, %d calls" % (m["constants"], m["parts_run"], m["parts"], m["calls"]))
        for m in c.models:
            print("   model %s: %s" % (m["model"], json.dumps({k: v for k, v in m.items() if k != "model"})))
        return 0
    except Violation as v:
        c.evidence(time.time() - t0, 1)
        print(v.what)
        print("VIOLATION property=%s replay=%s" % (prop, v.replay))
        return 1
    except CheckError as e:
        print("CHECK FAILED property=%s: %s" % (prop, e))
        return 2
    finally:
        shutil.rmtree(c.tmp, ignore_errors=True)


if __name__ == "__main__":
    sys.exit(main())
