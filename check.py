#!/usr/bin/env python3
"""Decides one property:  check.py C01 [quick|thorough]

1. builds the harness against /repo's working tree;
2. TLC checks the design models of the property (spec/mc) and writes out the
   behaviours they enumerate as scripts;
3. the harness runs those scripts, and seeded random ones, against the library
   and records every call with its result;
4. TLC validates each recorded execution against spec/TediumApi.tla.

Exit 0: held.  Exit 1: VIOLATION line.  Exit 2: the check itself failed.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
SPEC = os.path.join(HERE, "spec")
HARNESS = os.path.join(HERE, "harness")
TLAJAR = "/opt/veriftools/tla"
JOBS = max(2, min(8, os.cpu_count() or 2))
# profile; random cases (quick, thorough); models: (module, config suffix per tier)
sys.path.insert(0, HERE)
from plan import PLAN  # noqa: E402


class Broken(Exception):
    """The check itself failed."""


def say(*a):
    print(*a, flush=True)


def run(cmd, log, timeout, env=None, cwd=None, limit_kb=None):
    if limit_kb:
        cmd = ["bash", "-c", f"ulimit -v {limit_kb}; exec \"$@\"", "x"] + cmd
    with open(log, "wb") as out:
        p = subprocess.Popen(cmd, stdout=out, stderr=subprocess.STDOUT, env=env, cwd=cwd)
        try:
            return p.wait(timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            return None


def tail(path, n=30):
    try:
        with open(path, errors="replace") as f:
            return "".join(f.readlines()[-n:])
    except OSError:
        return ""


def java(metadir, heap="2500m", workers="1"):
    cp = f"{TLAJAR}/tla2tools.jar:{TLAJAR}/CommunityModules-deps.jar"
    return ["java", "-Xss64m", f"-Xmx{heap}", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=4",
            "-cp", cp, "tlc2.TLC", "-metadir", metadir, "-noGenerateSpecTE", "-workers", workers]


class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.plan = PLAN[prop]
        self.work = os.path.join(HERE, "work", prop)
        if os.path.isdir(self.work):
            shutil.rmtree(self.work)
        os.makedirs(self.work)
        self.replays = os.path.join(HERE, "replays")
        os.makedirs(self.replays, exist_ok=True)
        self.binary = os.path.join(HERE, "target", "release", "tedium-conformance")
        self.states = self.transitions = 0
        self.traces = self.events = 0
        self.models, self.kinds, self.samples = [], {}, []
        self.violations = []
        self.deadline = time.time() + (840 if tier == "quick" else 3 * 3600)

    def left(self):
        return max(5, self.deadline - time.time())

    # -- 1
    def build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(HERE, "target"), RUSTFLAGS="-Awarnings")
        log = os.path.join(self.work, "build.log")
        rc = run(["cargo", "build", "--release", "--offline", "--locked", "--manifest-path",
                  os.path.join(HARNESS, "Cargo.toml")], log, min(800, self.left()), env=env)
        if rc != 0:
            raise Broken("the harness does not build:\n" + tail(log))

    # -- 2
    def model(self, name, cfg, workers):
        """Check a model; returns the scripts it printed, one list of lines per behaviour."""
        tag = f"{name}-{cfg}"
        log = os.path.join(self.work, tag + ".out")
        env = dict(os.environ, OUT=os.path.join(self.work, tag + ".gen"))
        cmd = java(os.path.join(self.work, "meta-" + tag), heap="5g", workers=str(workers)) + [
            "-deadlock", "-config", f"mc/{name}_{cfg}.cfg", f"mc/{name}.tla"]
        cmd[1:1] = [f"-DTLA-Library={SPEC}:{SPEC}/mc"]
        t = time.time()
        rc = run(cmd, log, self.left(), env=env, cwd=SPEC)
        text = open(log, errors="replace").read()
        if rc != 0:
            raise Broken(f"model {tag}: TLC ended with {rc}\n" + tail(log, 60))
        m = re.findall(r"^(\d+) states generated, (\d+) distinct states found", text, re.M)
        if not m:
            raise Broken(f"model {tag}: no result\n" + tail(log))
        gen, dist = int(m[-1][0]), int(m[-1][1])
        scripts = []
        for line in text.splitlines():
            if line.startswith('"GEN '):
                scripts.append(json.loads(json.loads(line)[4:]))
        scripts.sort(key=lambda s: json.dumps(s))
        self.states += dist
        self.transitions += gen
        self.models.append({"model": tag, "states": dist, "transitions": gen, "behaviours": len(scripts),
                            "wall_s": round(time.time() - t, 1)})
        return scripts

    # -- 3
    def execute(self, shard, cmd):
        """Run the harness; a process that dies is a violation of the call under way."""
        out = os.path.join(self.work, shard + ".nd")
        scratch = os.path.join(self.work, shard + ".d")
        os.makedirs(scratch, exist_ok=True)
        log = os.path.join(self.work, shard + ".log")
        rc = run([self.binary] + cmd(out, scratch), log, min(self.left(), 600 if self.tier == "quick" else 3000),
                 limit_kb=8000000)
        if rc == 2:
            raise Broken(f"harness, {shard}:\n" + tail(log))
        if rc != 0:
            op = {}
            try:
                with open(out + ".cur") as f:
                    op = json.loads(f.readline())
            except (OSError, ValueError):
                raise Broken(f"harness, {shard}: ended with {rc}\n" + tail(log))
            op["panic"] = "the call does not return" if rc is None else f"the process died ({rc})"
            data = open(out, "rb").read()
            if data and not data.endswith(b"\n"):
                data = data[:data.rfind(b"\n") + 1]
            with open(out, "wb") as f:
                f.write(data + json.dumps(op).encode() + b"\n")
        shutil.rmtree(scratch)
        return out

    # -- 4
    def validate(self, shard, trace):
        n = cases = 0
        kinds = {}
        with open(trace) as f:
            for line in f:
                n += 1
                i = line.find('"e":"') + 5
                k = line[i:line.find('"', i)]
                kinds[k] = kinds.get(k, 0) + 1
                if '"case":' in line[:40] or '"case":' in line:
                    cases += 1
        if n == 0:
            return [], 0, 0, {}
        log = os.path.join(self.work, shard + ".tlc")
        env = dict(os.environ, TRACE=trace)
        cmd = java(os.path.join(self.work, "meta-" + shard)) + ["-config", "TediumTrace.cfg", "TediumTrace.tla"]
        rc = run(cmd, log, self.left(), env=env, cwd=SPEC)
        text = open(log, errors="replace").read()
        bad = []
        for line in text.splitlines():
            m = re.match(r'"MISMATCH line (\d+) (.*)"$', line)
            if m:
                bad.append((int(m.group(1)), m.group(2)))
        if f'"CONSUMED {n}"' not in text:
            if rc is None or "OutOfMemory" in text or "StackOverflow" in text:
                raise Broken(f"validation of {shard} ended with {rc}:\n" + tail(log))
            m = re.findall(r"^/?\\? ?l = (\d+)", text, re.M) or re.findall(r"\bl = (\d+)", text)
            if not m or "TLC threw an unexpected exception" not in text and "Error:" not in text:
                raise Broken(f"validation of {shard} ended with {rc}:\n" + tail(log))
            # the specification gives no meaning to this event
            bad.append((int(m[-1]), "the recorded event has no meaning: " + " ".join(
                x.strip() for x in text.splitlines() if "ttempted" in x or "Error:" in x)[:300]))
        elif rc != 0:
            raise Broken(f"validation of {shard} ended with {rc}:\n" + tail(log))
        return bad, n, cases, kinds

    def report(self, shard, trace, bad):
        lines = open(trace).read().splitlines()
        for at, why in bad:
            if why.split(": ", 1)[-1].startswith("harness"):
                raise Broken(f"{shard} line {at}: {why}\n{lines[at - 1][:2000]}")
            first = at - 1
            while first > 0 and '"case"' not in lines[first]:
                first -= 1
            case = lines[first:at]
            path = os.path.join(self.replays, f"{self.prop}-{shard}-{at}.nd")
            with open(path, "w") as f:
                f.write("\n".join(case) + "\n")
            self.violations.append((why, path))

    def shard_of(self, kind, i, cmd):
        name = f"{kind}{i}"
        trace = self.execute(name, cmd)
        bad, n, cases, kinds = self.validate(name, trace)
        return name, trace, bad, n, cases, kinds

    def main(self):
        quick = self.tier == "quick"
        t0 = time.time()
        models = self.plan["models"]
        with cf.ThreadPoolExecutor(JOBS) as pool:
            b = pool.submit(self.build)
            ms = [pool.submit(self.model, name, cfg[0 if quick else 1], w)
                  for name, cfg, w in models if cfg[0 if quick else 1]]
            scripts = [s for m in ms for s in m.result()]
            b.result()
            self.built = time.time() - t0
            jobs = []
            # generated behaviours
            k = min(JOBS, max(1, len(scripts) // 20)) if scripts else 0
            for i in range(k):
                path = os.path.join(self.work, f"gen{i}.script")
                with open(path, "w") as f:
                    for j, s in enumerate(scripts[i::k]):
                        for a, op in enumerate(s):
                            if a == 0:
                                op = dict(op, case=f"g{i + j * k}")
                            f.write(json.dumps(op, separators=(",", ":")) + "\n")
                jobs.append(pool.submit(self.shard_of, "gen", i,
                                        lambda out, d, p=path: ["replay", p, out, d]))
            # random behaviours
            for pi, (profile, counts) in enumerate(self.plan["random"]):
                count = counts[0 if quick else 1]
                k = min(self.plan.get("shards", JOBS) if quick else JOBS * 4, count)
                for i in range(k):
                    lo, hi = count * i // k, count * (i + 1) // k
                    jobs.append(pool.submit(
                        self.shard_of, profile, i,
                        lambda out, d, p=profile, lo=lo, n=hi - lo: ["record", p, str(self.seed), str(lo), str(n), out, d]))
            done = [j.result() for j in jobs]
        for name, trace, bad, n, cases, kinds in done:
            self.report(name, trace, bad)
            self.events += n
            self.traces += cases
            for e, c in kinds.items():
                self.kinds[e] = self.kinds.get(e, 0) + c
            if len(self.samples) < 6:
                with open(trace) as f:
                    self.samples.append([f.readline()[:600].strip() for _ in range(4)])
        self.states += self.events + len(done)
        self.transitions += self.events
        self.evidence(time.time() - t0)
        known = known_findings(self.prop)
        fresh = [v for v in self.violations if not any(k in v[0] for k in known)]
        for k in known:
            say(f"KNOWN-FINDING: property={self.prop} {k}")
        if fresh:
            for why, path in fresh[:10]:
                say(f"# {why[:1500]}")
                say(f"VIOLATION property={self.prop} replay={path}")
            return 1
        say(f"{self.prop} held: {self.traces} executions, {self.events} calls, {self.states} states, "
            f"{time.time() - t0:.0f} s")
        shutil.rmtree(self.work)
        return 0

    def evidence(self, wall):
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        doc = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces,
                "calls_validated": self.events,
                "calls_by_kind": self.kinds,
                "design_models": self.models,
                "samples": self.samples,
                "rule": "states/transitions: distinct and generated states of the TLC runs (design models plus "
                        "one state per validated call); traces: executions of the library accepted by TediumApi",
            },
            "assumptions": self.plan["assumes"],
            "wall_s": round(wall, 1), "violations": len(self.violations),
        }
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(doc, f, indent=1)


def known_findings(prop):
    """Open findings listed for the property: the text that identifies each."""
    out = []
    for line in open(os.path.join(HERE, "KNOWN_FINDINGS.md")):
        m = re.match(r"known: property=(\S+) (.*)", line)
        if m and m.group(1) == prop:
            out.append(m.group(2).strip())
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1"))
    try:
        code = Check(prop, tier, seed).main()
    except Broken as e:
        say(f"ERROR {prop}: {e}")
        code = 2
    sys.exit(code)


if __name__ == "__main__":
    main()
