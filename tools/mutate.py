#!/usr/bin/env python3
"""mutate.py list | run MODELDIR OUT [FILE...]: changes single places of the library and runs the kept behaviours of the model
on every change that passes the existing tests.  MODELDIR: from checks run with KEEP_MODEL=MODELDIR.
Works on scratch copies under /tmp; OUT gets one JSON line per change."""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import random
import re
import resource
import shutil
import subprocess
import sys
import tempfile
import threading
import types

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "/repo/src"
SWAP = [(r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "), (r" == ", " != "), (r" != ", " == "), (r" \+ ", " - "), (r" - ", " + "), (r" \+= ", " -= "), (r" -= ", " += "),
        (r" && ", " || "), (r" \|\| ", " && "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"), (r"\bmin\(", "max("), (r"\bmax\(", "min("), (r"!self\.", "self."), (r"\b0\b", "1"), (r"\b1\b", "0"),
        (r"\beos\)", "Eos::new(false))"), (r"\beos\)", "Eos::new(true))"), (r"eos\.is_reached\(\)", "false"), (r"eos\.is_reached\(\)", "true"), (r"ErrorKind::\w+", "ErrorKind::Other"),
        (r"ByteCount::Unknown", "ByteCount::Finite(0)"), (r"ByteCount::Finite\(0\)", "ByteCount::Unknown"), (r"ByteCount::Infinite", "ByteCount::Unknown"), (r"\bif (?!let)[^{]*\{$", "if true {"), (r"\bif (?!let)[^{]*\{$", "if false {"),
        (r"\bbreak\b", "continue"), (r"\.is_none\(\)", ".is_some()"), (r"\.is_some\(\)", ".is_none()"), (r"\.take\(\)", ".as_ref().cloned()"), (r"while ", "if "), (r"self\.is_idle\(\)", "true"), (r"self\.is_idle\(\)", "false"),
        (r"_be\b", "_le"), (r"BigEndian", "LittleEndian"), (r"LittleEndian", "BigEndian"), (r"saturating_add", "wrapping_add"), (r"\[offset\.\.\]", "[..]"), (r"\[\.\.limit\]", "[..]")]


# second set (SET=2): narrow numbers, lost remainders, the wrong share of a buffer, forgotten and repeated steps
SWAP2 = [(r" as u64\b", " as u8 as u64"), (r" as u64\b", " as u16 as u64"), (r" as u64\b", " as u32 as u64"), (r" as usize\b", " as u8 as usize"), (r" as usize\b", " as u16 as usize"), (r" as usize\b", " as u32 as usize"),
         (r"\.len\(\)", ".len().min(255)"), (r"\.len\(\)", ".len().min(1000)"), (r"\.len\(\)", ".len().min(5000)"), (r"\.len\(\)", ".len().saturating_sub(1)"), (r"\.len\(\)", ".len().min(65535)"),
         (r"Ok\(offset\)", "Ok(0)"), (r"Ok\(size\)", "Ok(0)"), (r"\[offset\.\.\]", "[offset.min(1)..]"), (r"\+= size", "+= size.min(1)"), (r"-= size", "-= size.min(1)"), (r"\bcmp::min\(", "cmp::min(300, "), (r"saturating_sub", "wrapping_sub"),
         (r"\beos\b(?=[,)])", "eos.back(ByteCount::Finite(1))"), (r"\beos\.back\([^)]*\)", "eos"), (r"track!\((.*)\)\?;$", r"let _ = \1;"), (r"(\S.*;)$", r"\1 \1"), (r"Some\(([a-z]+)\)", "None"), (r"\bNone\b(?!\))", "Default::default()"),
         (r"\bif (?!let)([^{]*)\{$", r"if !(\1) {"), (r"self\.(\w+)\.clear\(\);", ""), (r"is_reached\(\)", "is_reached() && buf.is_empty()"), (r"is_reached\(\)", "is_reached() && !buf.is_empty()"), (r"1024", "1000"), (r"buf\.is_empty\(\)", "false")]


def mutants():
    second = os.environ.get("SET") == "2"
    for f in sorted(glob.glob(SRC + "/*.rs")):
        skip = False
        lines = open(f).read().split("\n")
        for i, l in enumerate(lines):
            s = l.strip()
            if s.startswith("#[cfg(test)]"):
                skip = True     # up to the end of the module
            if skip and l == "}":
                skip = False
                continue
            if skip or s.startswith("//") or s.startswith("#") or s.startswith("use ") or not s:
                continue
            plain = s.endswith(";") and not re.match(r"(let|use|type|pub|const|struct|return [^;]|#|mod|extern|fn)\b", s) and s.count("(") == s.count(")") and s.count("{") == s.count("}")
            for a, b in (SWAP2 if second else SWAP):
                for m in re.finditer(a, l):
                    if b == r"\1 \1" and (not plain or "return" in s or "break" in s or "continue" in s):
                        continue
                    new = l[:m.start()] + m.expand(b) + l[m.end():]
                    if new != l:
                        yield f, i, l, new
            if plain and not second:
                yield f, i, l, ""
            if second and s.endswith(";") and i + 1 < len(lines) and lines[i + 1].strip().endswith(";") and not re.match(r"(use|type|pub|const|mod|extern|fn)\b", s):
                yield f, i, l + "\n" + lines[i + 1], lines[i + 1] + "\n" + l


def sh(cmd, cwd=None, env=None, timeout=600):
    with tempfile.TemporaryFile("w+", errors="replace") as f:
        p = subprocess.Popen(cmd, cwd=cwd, env=dict(os.environ, **(env or {})), stdin=subprocess.DEVNULL, stdout=f, stderr=subprocess.STDOUT, start_new_session=True,
                             preexec_fn=lambda: resource.setrlimit(resource.RLIMIT_AS, (8 << 30, 8 << 30)))
        try:
            rc = p.wait(timeout)
        except subprocess.TimeoutExpired:
            rc = 124
            os.killpg(p.pid, 9)
            p.wait()
        f.seek(0)
        return types.SimpleNamespace(returncode=rc, stdout=f.read())


class Worker:
    def __init__(self, root, jobs):
        self.d, self.jobs = root, jobs
        shutil.copytree("/repo", root + "/repo", symlinks=True)
        shutil.copytree(V + "/harness", root + "/harness", ignore=shutil.ignore_patterns("target"))
        p = root + "/harness/Cargo.toml"
        t = open(p).read()
        open(p, "w").write(t.replace("/repo", root + "/repo"))

    def run(self, m):
        f, i, old, new = m
        p = self.d + f
        keep = open(p).read()
        lines = keep.split("\n")
        k = old.count("\n") + 1
        assert lines[i:i + k] == old.split("\n")
        lines[i:i + k] = new.split("\n")
        open(p, "w").write("\n".join(lines))
        try:
            return self.judge(f)
        finally:
            open(p, "w").write(keep)

    def judge(self, f):
        r = sh(["cargo", "test", "--workspace", "--all-features", "--offline", "-q"], cwd=self.d + "/repo", timeout=45)
        if r.returncode != 0:
            return dict(r="invalid" if "could not compile" in r.stdout and "error" in r.stdout and "test result" not in r.stdout else "tests")
        r = sh(["cargo", "build", "--release", "--offline", "-q"], cwd=self.d + "/harness", env=dict(CARGO_TARGET_DIR=self.d + "/ht"), timeout=300)
        if r.returncode != 0:
            return dict(r="invalid")
        first = {"io.rs": "C19 C20 C17 C18", "io_async.rs": "C22", "fixnum.rs": "C15", "byte_count.rs": "C24", "eos.rs": "C24", "tuple.rs": "C11", "padding.rs": "C16", "bytes.rs": "C16", "slice.rs": "C10",
                 "monolithic.rs": "C23", "null.rs": "C16", "macros.rs": "C28"}.get(os.path.basename(f), "C12").split()
        killed = []
        for j in sorted(self.jobs, key=lambda j: (not set(j["prop"].split()) & set(first), j["size"])):
            r = sh([self.d + "/ht/release/harness", "replay", j["base"] + ".log", ",".join(j["fields"]), self.d + "/cur", j["base"] + ".scen", j["kind"]], env=dict(ONLY=",".join(j["only"]), SHARD="0/1"), timeout=200)
            if r.returncode != 0 or '"mismatch"' in r.stdout:
                killed.append(j["prop"])
                break
        return dict(r="killed" if killed else "survived", by=killed)


def main():
    if sys.argv[1] == "list":
        ms = list(mutants())
        for f, i, o, n in ms:
            print(os.path.basename(f), i + 1, o.strip(), "=>", n.strip())
        print(len(ms))
        return
    jobs, same = [], {}
    for p in sorted(glob.glob(sys.argv[2] + "/*.job")):
        j = json.load(open(p))
        j["base"] = p[:-4]
        j["size"] = os.path.getsize(j["base"] + ".log")
        k = (hashlib.sha256(open(j["base"] + ".scen", "rb").read()).hexdigest(), j["kind"], j["size"], str(j["only"]))
        if k in same:       # the same model: one replay with the fields of both properties
            same[k]["fields"] = sorted(set(same[k]["fields"]) | set(j["fields"]))
            same[k]["prop"] += " " + j["prop"]
        else:
            same[k] = j
            jobs.append(j)
    done = set()
    if os.path.exists(sys.argv[3]):
        done = {tuple(json.loads(x)["m"]) for x in open(sys.argv[3])}
    ms = [m for m in mutants() if (not sys.argv[4:] or os.path.basename(m[0]) in sys.argv[4:]) and tuple(m) not in done]
    random.Random(1).shuffle(ms)      # a sample, if it is stopped
    lock = threading.Lock()
    it = iter(ms)
    root = tempfile.mkdtemp(prefix="mut.", dir="/tmp")
    out = open(sys.argv[3], "a")

    def go(k):
        w = Worker("%s/%d" % (root, k), jobs)
        while True:
            with lock:
                m = next(it, None)
            if m is None:
                return
            r = w.run(m)
            with lock:
                out.write(json.dumps(dict(r, m=m)) + "\n")
                out.flush()
    n = int(os.environ.get("J", "4"))
    try:
        with cf.ThreadPoolExecutor(n) as ex:
            for x in [ex.submit(go, k) for k in range(n)]:
                x.result()
    finally:
        shutil.rmtree(root, ignore_errors=True)


main()
