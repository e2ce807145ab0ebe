#!/usr/bin/env python3
"""check.py PROPERTY [quick|thorough]: decides one property for the code in /repo.

1. TLC explores the specification (spec/MC*.tla) and checks the property on it; every explored
   transition becomes a behaviour: a sequence of public calls with the specified results.
2. The behaviours are replayed on the code.
3. Random sessions are recorded from the code, and TLC checks them against the specification
   (spec/Trace.tla).
Exit 0: held. Exit 1 and "VIOLATION property=... replay=...": broken. Otherwise: the check failed."""
import concurrent.futures as cf
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
import plan  # noqa: E402

REPO = "/repo"
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
SPEC = os.path.join(HERE, "spec")
BIN = os.path.join(HERE, "harness", "target", "release", "harness")
T0 = time.time()


class Broken(Exception):
    """the check itself failed"""


def sh(cmd, **o):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **o)


# --- the harness, built from the current tree ---------------------------------------------------
def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "src"), os.path.join(HERE, "harness", "src")):
        for d, ds, fs in os.walk(base):
            ds.sort()
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode() + b"\0" + open(p, "rb").read())
    for p in (os.path.join(REPO, "Cargo.toml"), os.path.join(HERE, "harness", "Cargo.toml")):
        h.update(open(p, "rb").read())
    return h.hexdigest()


def build():
    """cargo goes by modification times; the stamp makes sure that it is never fooled by them"""
    hdir = os.path.join(HERE, "harness")
    stamp = os.path.join(hdir, "target", "stamp")
    now = tree_hash()
    if os.path.exists(stamp) and os.path.exists(BIN) and open(stamp).read() == now:
        return
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(hdir, "target"), CARGO_NET_OFFLINE="true")
    if os.path.exists(BIN):
        if os.path.exists(stamp):
            os.remove(stamp)
        sh(["cargo", "clean", "--offline", "--release", "-p", "bytecodec", "-p", "harness"], cwd=hdir, env=env)
    r = sh(["cargo", "build", "--release", "--offline", "--locked"], cwd=hdir, env=env)
    if r.returncode != 0:
        raise Broken("the harness does not build:\n" + r.stderr[-4000:])
    with open(stamp, "w") as f:
        f.write(now)


# --- TLC ------------------------------------------------------------------------------------------
class Tlc:
    def __init__(self, module, out, name, env, workers=4, args=(), timeout=800, cfg=None):
        self.log = os.path.join(out, name + ".tlc")
        meta = os.path.join(out, name + ".meta")
        cmd = ["java", "-XX:+UseParallelGC", "-Xss64m", "-Xmx4g", "-DTLA-Library=" + SPEC, "-cp", JARS, "tlc2.TLC",
               "-workers", str(workers), "-metadir", meta, "-noGenerateSpecTE", "-config", os.path.join(SPEC, (cfg or module) + ".cfg"), *args,
               os.path.join(SPEC, module + ".tla")]
        tmp = os.path.join(out, name + ".tmp")
        os.makedirs(tmp)
        env = dict(os.environ, JAVA_TOOL_OPTIONS="", TMPDIR=tmp, **env)
        cmd.insert(1, "-Djava.io.tmpdir=" + tmp)
        with open(self.log, "w") as f:
            try:
                self.rc = subprocess.run(cmd, stdout=f, stderr=subprocess.STDOUT, env=env, cwd=out, timeout=timeout).returncode
            except subprocess.TimeoutExpired:
                raise Broken("TLC on %s did not end in time" % module)
        shutil.rmtree(meta, ignore_errors=True)
        shutil.rmtree(tmp, ignore_errors=True)
        self.states = self.transitions = 0
        self.text = []
        self.printed = 0
        with open(self.log, errors="replace") as f:
            for line in f:
                if line.startswith('"'):
                    self.printed += 1
                    continue
                m = re.match(r"(\d+) states generated(?: \([^)]*\))?, (\d+) distinct states found, 0 states left", line)
                if m:
                    self.transitions, self.states = int(m.group(1)), int(m.group(2))
                m = re.match(r"The number of states generated: (\d+)", line)
                if m:
                    self.transitions = self.states = int(m.group(1))
                if not re.match(r"(Parsing|Semantic|Linting|Computed)", line):
                    self.text.append(line)
                    if len(self.text) > 4000:
                        del self.text[1000:2000]
        self.text = "".join(self.text)


# --- the check ------------------------------------------------------------------------------------
class Check:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.deep = 1 if tier == "thorough" else 0
        self.out = os.path.join(HERE, "out", "%s-%s" % (prop, tier))
        shutil.rmtree(self.out, ignore_errors=True)
        os.makedirs(self.out)
        self.violations = []
        self.lock = threading.Lock()
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, replayed_behaviours=0, replayed_calls=0,
                        recorded_sessions=0, recorded_calls=0, scenarios=0)
        self.samples = []
        self.built = threading.Event()
        self.build_error = None

    def violation(self, what, session, **more):
        with self.lock:
            if len(self.violations) >= 20:
                return
            p = os.path.join(self.out, "violation-%d.json" % (len(self.violations) + 1))
            with open(p, "w") as f:
                json.dump(dict(property=self.prop, what=what, session=session, **more), f, indent=1)
            self.violations.append(p)
            print("VIOLATION property=%s replay=%s" % (self.prop, p), flush=True)
            print("  " + what[:1000], flush=True)

    def harness(self, args, cur, shard="0/1", only=""):
        """runs the harness; returns its output lines, and how it ended if not normally"""
        self.built.wait()
        if self.build_error:
            raise self.build_error
        r = sh([BIN, *args], env=dict(os.environ, SHARD=shard, ONLY=only))
        lines = []
        for x in r.stdout.splitlines():
            try:
                lines.append(json.loads(x))
            except ValueError:
                pass
        if r.returncode == 0:
            return lines, None
        if r.returncode in (3, 101) or "HARNESS-ERROR" in r.stderr:
            raise Broken("harness: " + r.stderr[-2000:])
        return lines, ("the code hangs" if r.returncode == 4 else "the process was aborted (%d) %s" % (r.returncode, r.stderr[-300:]))

    def replay(self, log, scen, kind, fields, only):
        """replays the behaviours in the output of TLC"""
        n = 2 if os.path.getsize(log) > 20e6 else 1
        with cf.ThreadPoolExecutor(n) as ex:
            done = [ex.submit(self.harness, ["replay", log, ",".join(fields), "%s.cur%d" % (log, i), scen, kind], None, "%d/%d" % (i, n), ",".join(only)) for i in range(n)]
        total = 0
        for i, d in enumerate(done):
            lines, bad = d.result()
            for x in lines:
                if "mismatch" in x:
                    m = x["mismatch"]
                    s = m["session"]
                    op = s["ops"][m["op"]] if s["ops"] else {}
                    self.violation("%s differs in call %d of a session on %s: call %s, specified %s, observed %s" % (
                        m["field"], m["op"] + 1, json.dumps(s["s"]), json.dumps({k: v for k, v in op.items() if k != "x"}),
                        json.dumps(op.get("x")), json.dumps(m["got"])), s, field=m["field"], op=m["op"], observed=m["got"])
                elif "sessions" in x:
                    total += x["sessions"]
                    with self.lock:
                        self.cov["replayed_behaviours"] += x["sessions"]
                        self.cov["replayed_calls"] += x["calls"]
                        self.cov["traces_validated_against_impl"] += x["sessions"] - x["mismatches"]
            if bad:
                j = open("%s.cur%d" % (log, i)).read().strip() or "0"
                r = sh([BIN, "pick", log, j, scen, kind])
                self.violation("%s in a session on %s" % (bad, r.stdout[:800]), json.loads(r.stdout or "{}"))
        if len(self.samples) < 4:
            pick, seen = [], 0
            with open(log, errors="replace") as f:
                for j, line in enumerate(f):
                    if line.startswith('"'):
                        seen += 1
                        if seen in (7, 70):
                            pick.append(str(j))
                        if seen > 70:
                            break
            for x in sh([BIN, "pick", log, ",".join(pick), scen, kind]).stdout.splitlines() if pick else []:
                with self.lock:
                    self.samples.append(dict(replayed=json.loads(x)))
        return total

    def mc(self, job, name):
        scen = job["scen"](self.deep) if callable(job["scen"]) else job["scen"]
        sp = os.path.join(self.out, name + ".scen")
        json.dump(scen, open(sp, "w"))
        env = dict(SCEN=sp, HIST="1", DEPTH=str(job["depth"][self.deep]), MORE=str(self.deep))
        t = Tlc(job["module"], self.out, name, env, args=job.get("args", ()))
        if t.rc != 0 or (t.states == 0):
            raise Broken("the specification itself violates %s on the model %s:\n%s" % (self.prop, job["module"], t.text[-6000:]))
        with self.lock:
            self.cov["states"] += t.states
            self.cov["transitions"] += t.transitions
            self.cov["scenarios"] += len(scen)

        keep = os.environ.get("KEEP_MODEL")     # for tools/mutate.py
        if keep:
            base = os.path.join(keep, "%s-%s" % (self.prop, name))
            shutil.copy(t.log, base + ".log")
            shutil.copy(sp, base + ".scen")
            json.dump(dict(prop=self.prop, kind=job["kind"], fields=job["fields"], only=list(job.get("only", ()))), open(base + ".job", "w"))
        n = self.replay(t.log, sp, job["kind"], job["fields"], job.get("only", ()))
        if n == 0:
            raise Broken("the model %s shows no behaviour" % job["module"])
        if not self.violations:
            os.remove(t.log)

    def live(self, job, name):
        """a liveness property of the specification (its safety counterpart is replayed)"""
        scen = job["scen"](self.deep)
        sp = os.path.join(self.out, name + ".scen")
        json.dump(scen, open(sp, "w"))
        t = Tlc(job["module"], self.out, name, dict(SCEN=sp, HIST="0", DEPTH="0", MORE="0"), args=("-lncheck", "final"), cfg=job["module"] + "Live")
        if t.rc != 0 or t.states == 0:
            raise Broken("the specification itself violates %s:\n%s" % (self.prop, t.text[-6000:]))
        with self.lock:
            self.cov["states"] += t.states
            self.cov["transitions"] += t.transitions
            self.cov["scenarios"] += len(scen)
        os.remove(t.log)

    def rec(self, job, name):
        rp, cur, fp = (os.path.join(self.out, name + x) for x in (".rec", ".cur", ".fields"))
        json.dump(job["fields"], open(fp, "w"))
        count = job["count"][self.deep]
        chunk = 5000
        for c in range(0, count, chunk):
            lines, bad = self.harness(["record", json.dumps(job["profile"]), str(self.seed * 1000 + c // chunk), str(min(chunk, count - c)), rp, cur], cur)
            if bad:
                ops = [json.loads(x) for x in open(cur) if x.strip().endswith("}")]
                s = dict(ops[0], ops=ops[1:])
                self.violation("%s in a session on %s, call %s" % (bad, json.dumps(s.get("s")), json.dumps(ops[-1])), s)
                return
            sessions = json.load(open(rp))
            t = Tlc("Trace", self.out, "%s-%d" % (name, c), dict(SESSIONS=rp, FIELDS=fp))
            if t.rc == 12:
                sid = int(re.findall(r"sid = (\d+)", t.text)[-1])
                pos = int(re.findall(r"pos = (\d+)", t.text)[-1])
                ok = re.findall(r'ok = "(\w+)"', t.text)[-1]
                s = sessions[sid - 1]
                s = dict(k=s["k"], s=s["s"], ops=[dict(op, observed=o) for op, o in zip(s["ops"][:pos], s["obs"])])
                self.violation("%s is not as specified in call %d of a session on %s: %s" % (ok, pos, json.dumps(s["s"]), json.dumps(s["ops"][-1])), s, field=ok)
                return
            if t.rc != 0:
                raise Broken("TLC on recorded sessions:\n" + t.text[-4000:])
            with self.lock:
                self.cov["states"] += t.states
                self.cov["transitions"] += t.transitions
                self.cov["recorded_sessions"] += len(sessions)
                self.cov["recorded_calls"] += sum(len(s["ops"]) for s in sessions)
                self.cov["traces_validated_against_impl"] += len(sessions)
                if len(self.samples) < 6:
                    s = sessions[len(sessions) // 2]
                    self.samples.append(dict(recorded=dict(k=s["k"], s=s["s"], ops=[dict(op, observed=o) for op, o in zip(s["ops"][:6], s["obs"])])))
            os.remove(t.log)

    def known(self):
        """findings that are not repaired: each is reported while it is there, and only it"""
        for line in open(os.path.join(HERE, "known-findings.txt")):
            m = re.match(r"known: property=(\w+) session=(\S+) (.*)", line)
            if not m or m.group(1) != self.prop:
                continue
            f = json.load(open(os.path.join(HERE, m.group(2))))
            path = os.path.join(self.out, "known.sessions")
            with open(path, "w") as o:
                o.write(json.dumps(f["session"]) + "\n")
            lines, bad = self.harness(["replay", path, ",".join(plan.FULL), path + ".cur"], "")
            hit = [x["mismatch"] for x in lines if "mismatch" in x]
            if bad:
                self.violation(bad + " in a known session", f["session"])
            elif hit:
                h = hit[0]
                if h["op"] == f["op"] and all(h["got"].get(k) == v for k, v in f["observed"].items()):
                    print("KNOWN-FINDING: property=%s %s" % (self.prop, m.group(3)), flush=True)
                else:
                    self.violation("another failure than the known one in call %d: %s" % (h["op"] + 1, json.dumps(h["got"])), f["session"], op=h["op"], observed=h["got"])

    def run(self):
        jobs = plan.PLAN[self.prop]
        errors = []

        def guard(f, *a):
            try:
                f(*a)
            except Broken as e:
                errors.append(str(e))

        def bld():
            try:
                build()
            except Broken as e:
                self.build_error = e
            finally:
                self.built.set()
        with cf.ThreadPoolExecutor(4) as ex:
            fs = [ex.submit(bld)]
            fs.append(ex.submit(guard, self.known))
            for i, j in enumerate(jobs):
                fs.append(ex.submit(guard, getattr(self, j["job"]), j, "%s%d" % (j["job"], i)))
            for f in fs:
                f.result()
        if errors and not self.violations:
            print("CHECK-ERROR " + "\n".join(errors))
            return 2
        ev = dict(property=self.prop, tier=self.tier, seed=self.seed, level="model_checking",
                  coverage=dict(self.cov, samples=self.samples[:5],
                                rule="states and transitions: TLC, over the model and over the recorded sessions; a validated trace is one session "
                                     "whose every call gave the specified result, either replayed from the model or recorded and checked by TLC"),
                  assumptions=["the streams, items and compositions are those of the scenarios (lib/scen.py) and of the seeded generator (harness/src/gen.rs)",
                               "TLC and the harness's comparison of results are trusted"],
                  wall_s=round(time.time() - T0, 2), violations=len(self.violations))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", self.prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        print("%s %s: %s in %.1f s: %d states, %d transitions, %d behaviours replayed, %d sessions recorded and checked" % (
            self.prop, self.tier, "BROKEN" if self.violations else "holds", time.time() - T0, self.cov["states"], self.cov["transitions"],
            self.cov["replayed_behaviours"], self.cov["recorded_sessions"]))
        if not self.violations:
            shutil.rmtree(self.out, ignore_errors=True)
        return 1 if self.violations else 0


def main():
    if sys.argv[1] == "build":
        build()
        return 0
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    return Check(sys.argv[1], tier, int(os.environ.get("VERIF_SEED", "1"))).run()


if __name__ == "__main__":
    try:
        sys.exit(main())
    except Broken as e:
        print("CHECK-ERROR", e)
        sys.exit(2)
