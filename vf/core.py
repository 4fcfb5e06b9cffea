"""Runs a property's passes, merges what the monitors observed, decides."""
import hashlib
import json
import mmap
import os
import re
import shutil
import signal
import struct
import subprocess
import sys
import tempfile
import threading
import time

from vf import build
from vf.props import PROPS

VERIF = build.VERIF
KNOWN = os.path.join(VERIF, "known_findings.jsonl")
REPLAYS = os.path.join(VERIF, "replays")
EVIDENCE = os.path.join(VERIF, "evidence")

SAN_ENV = {
    "ASAN_OPTIONS": "abort_on_error=1:detect_leaks=0:detect_odr_violation=0:handle_abort=1:allocator_may_return_null=0:"
                    "hard_rss_limit_mb=6000:quarantine_size_mb=64:detect_stack_use_after_return=1:symbolize=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:abort_on_error=1:second_deadlock_stack=1:history_size=4:"
                    "ignore_noninstrumented_modules=1:suppressions=" + os.path.join(VERIF, "vf", "tsan.supp"),
}


class HarnessError(Exception):
    pass


def known_findings():
    out = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("{"):
                out.append(json.loads(line))
    return out


def crash_key(stderr, rc):
    """A stable name of a crash: the kind and the first frame in the code under test."""
    kind = None
    m = re.search(r"SUMMARY: (\w+): ([\w-]+(?: [\w-]+)?)", stderr)
    if m:
        kind = m.group(1) + ":" + m.group(2).split(" /")[0]
        if "data race" in m.group(2):
            kind = m.group(1) + ":data-race"
    if kind is None:
        m = re.search(r"runtime error: ([^\n]{0,80})", stderr)
        if m:
            kind = "UBSan:" + re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))
    if kind is None and "hard rss limit exhausted" in stderr:
        kind = "memory-exhausted"
    if kind is None and "terminate called" in stderr:
        m = re.search(r"terminate called.*?'([^']*)'", stderr)
        kind = "terminate:" + (m.group(1) if m else "")
    if kind is None:
        kind = "exit:%d" % rc if rc >= 0 else "signal:%s" % signal.Signals(-rc).name
    frame = ""
    for m in re.finditer(r"#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+)", stderr):
        if m.group(2).startswith(build.REPO + "/") or "/gen/lamppost/" in m.group(2):
            frame = re.sub(r"\(.*", "", m.group(1))
            break
    return "crash:%s@%s" % (kind, frame)


class Job(object):
    def __init__(self, pid, p, flavour, bins, seed, start, cases, tier, work, cfg):
        self.pid, self.p, self.flavour, self.bins = pid, p, flavour, bins
        self.seed, self.start, self.cases, self.tier, self.work, self.cfg = seed, start, cases, tier, work, cfg

    def run(self, decided=None):
        """decided: an event that ends the run early (another job has found a violation)"""
        d = tempfile.mkdtemp(dir=self.work)
        scratch = os.path.join(d, "scratch")
        os.mkdir(scratch)
        out, progress = os.path.join(d, "out.json"), os.path.join(d, "progress")
        args = [self.bins["harness"], "--prop", self.p["case"], "--seed", str(self.seed), "--start", str(self.start),
                "--cases", str(self.cases), "--out", out, "--progress", progress, "--scratch", scratch,
                "--tier", self.tier, "--hang", str(self.p.get("hang", 45))]
        for k, v in sorted(self.cfg.items()):
            args += ["--cfg-" + k, str(v)]
        for name, path in self.bins.items():
            if name != "harness":
                args += ["--cfg-bin." + name, path]
        env = dict(os.environ)
        env.update(SAN_ENV)
        env["VF_SCRATCH"] = scratch
        env["HOME"] = scratch
        env["LC_ALL"] = "C"
        err = open(os.path.join(d, "stderr"), "w+b")
        t0 = time.time()
        timed_out = False
        proc = subprocess.Popen(args, stdout=subprocess.DEVNULL, stderr=err, stdin=subprocess.DEVNULL, env=env,
                                cwd=scratch, start_new_session=True)
        limit = t0 + self.p.get("timeout", 400 if self.tier == "quick" else 6000)
        stopped = False
        while True:
            try:
                proc.wait(timeout=1)
                break
            except subprocess.TimeoutExpired:
                timed_out = time.time() > limit
                stopped = decided is not None and decided.is_set()
                if timed_out or stopped:
                    break
        # whatever the harness left behind (peers, children) ends with it
        try:
            os.killpg(proc.pid, signal.SIGKILL)
        except OSError:
            pass
        proc.wait()
        err.seek(0)
        stderr = err.read().decode("utf-8", "replace")
        err.close()
        res = {"rc": proc.returncode, "stderr": stderr[-200000:], "wall": time.time() - t0, "timeout": timed_out, "stopped": stopped,
               "job": self, "cur": self.start, "out": None}
        try:
            with open(progress, "rb") as f:
                res["cur"], res["done"] = struct.unpack("QQ", f.read(16))
        except Exception:
            pass
        if os.path.exists(out):
            try:
                res["out"] = json.load(open(out))
            except ValueError:
                pass
        shutil.rmtree(d, ignore_errors=True)
        return res


def run_jobs(jobs, workers, known=()):
    """All of them, unless one finds a violation that is not a known finding: the others then get a
    few more seconds to add theirs."""
    results = [None] * len(jobs)
    decided = threading.Event()
    nxt = [0]
    lock = threading.Lock()

    def worker():
        while True:
            with lock:
                i = nxt[0]
                if i >= len(jobs) or decided.is_set():
                    return
                nxt[0] += 1
            results[i] = jobs[i].run(decided)
            verdict, key, _ = classify(results[i])
            if verdict == "violation" and key not in known and not decided.is_set():
                time.sleep(5)
                decided.set()

    ts = [threading.Thread(target=worker) for _ in range(min(workers, len(jobs)))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    return [r for r in results if r is not None]


def classify(res):
    """-> (verdict, key, detail); verdict: ok, violation, hang, error"""
    out, rc = res["out"], res["rc"]
    if res["stopped"]:
        return "ok", "", ""
    if rc == 3:
        return "error", "harness", res["stderr"][-2000:]
    if res["timeout"]:
        return "hang", "timeout", "the run did not end in its time"
    if rc == 77:
        idle = out is not None and out["status"] == "deadlock"
        return ("violation" if idle else "hang"), "stuck", "no progress" + (", every thread waiting" if idle else "")
    if out is not None and rc == 0 and out["status"] == "ok":
        return "ok", "", ""
    if out is not None and rc == 10 and out["status"] == "violation":
        return "violation", out["key"], out["detail"]
    text = res["stderr"]
    return "violation", crash_key(text, rc), (text[:6000] or "process ended with %d" % rc)


def run_property(pid, tier, seed, quiet=False):
    p = PROPS[pid]
    t0 = time.time()
    os.makedirs(EVIDENCE, exist_ok=True)
    os.makedirs(REPLAYS, exist_ok=True)
    work = tempfile.mkdtemp(prefix="vf-%s-" % pid, dir=os.environ.get("TMPDIR", "/tmp"))
    counters, maxima, sigs, samples, inconclusive = {}, {}, set(), [], []
    evaluations, perturbations, found, passes = 0, 0, [], []
    known = [k for k in known_findings() if k.get("property") == pid and k.get("kind") == "finding"]
    try:
        for ps in p["passes"]:
            bins = build.build(ps["flavour"], p["harness"])
            total = ps["cases"][0 if tier == "quick" else 1]
            if total == 0:
                continue
            chunks = ps.get("chunks", 8)
            workers = ps.get("workers", 8)
            if tier == "thorough":
                chunks *= 4
            chunks = min(chunks, total)
            jobs, at = [], 0
            for i in range(chunks):
                n = total // chunks + (1 if i < total % chunks else 0)
                jobs.append(Job(pid, p, ps["flavour"], bins, seed, at, n, tier, work, ps.get("cfg", {})))
                at += n
            results = run_jobs(jobs, workers, [k["key"] for k in known])
            ran = 0
            for verdict, key, detail, r in sorted((classify(r) + (r,) for r in results), key=lambda x: x[0] == "hang"):
                if verdict == "error":
                    raise HarnessError(detail)
                if verdict == "hang" and any(k not in [x["key"] for x in known] for k, _, _ in found):
                    verdict = "ok"   # decided already
                if verdict == "hang":
                    # once more, alone on the machine, from the same start: only what stops again counts
                    j = r["job"]
                    again = Job(pid, p, j.flavour, bins, seed, j.start, r["cur"] - j.start + 1, tier, work, j.cfg).run()
                    v2, k2, d2 = classify(again)
                    if v2 == "hang":
                        verdict, key, detail = "violation", "stuck", "no progress, twice, in case %d" % r["cur"]
                    elif v2 == "violation":
                        verdict, key, detail = v2, k2, d2
                    else:
                        inconclusive.append("case %d made no progress once and completed when run again" % r["cur"])
                        verdict = "ok"
                if verdict == "violation":
                    found.append((key, detail, r))
                out = r["out"]
                if out:
                    ran += out["cases"]
                    perturbations += out["perturbations"]
                    for k, v in out["counters"].items():
                        counters[k] = counters.get(k, 0) + v
                    for k, v in out["maxima"].items():
                        maxima[k] = max(maxima.get(k, 0), v)
                    sigs.update(out["sigs"])
                    if len(samples) < 6:
                        samples += out["samples"][:2]
                    inconclusive += out["inconclusive"]
            evaluations += ran
            passes.append({"flavour": ps["flavour"], "cases": ran, "chunks": len(jobs), "cfg": ps.get("cfg", {})})
            if found:
                break
    finally:
        shutil.rmtree(work, ignore_errors=True)

    fresh, old = [], []
    for key, detail, r in found:
        hit = [k for k in known if k["key"] == key]
        (old if hit else fresh).append((key, detail, r))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": {
            "evaluations": evaluations, "distinct_nontrivial": len(sigs), "rule": p["rule"],
            "samples": samples[:6] or ["(none: the first case already failed)"],
            "observed": dict(sorted(counters.items())), "maxima": dict(sorted(maxima.items())),
            "schedule_perturbations": perturbations, "passes": passes, "inconclusive": inconclusive[:20],
        },
        "assumptions": p.get("assumptions", []),
        "wall_s": round(time.time() - t0, 2),
        "violations": len(fresh),
    }
    with open(os.path.join(EVIDENCE, pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    for k in sorted(set(k for k, _, _ in old)):
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    if fresh:
        seen = set()
        for key, detail, r in fresh:
            if key in seen:
                continue
            seen.add(key)
            path = os.path.join(REPLAYS, "%s-%s.json" % (pid, hashlib.sha1(key.encode()).hexdigest()[:10]))
            j = r["job"]
            with open(path, "w") as f:
                json.dump({"property": pid, "key": key, "flavour": j.flavour, "seed": j.seed, "start": j.start,
                           "case": r["cur"], "tier": j.tier, "cfg": j.cfg, "detail": detail,
                           "stderr": r["stderr"][:20000],
                           "rerun": "python3 /verif/run.py --replay " + path}, f, indent=1)
            plain = "".join(ch if ch == "\n" or ch.isprintable() else "?" for ch in detail).encode("ascii", "replace").decode()
            print("  key: %s" % key)
            print("  " + "\n  ".join(plain.splitlines()[:12])[:3000])
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    missing = [k for k in p.get("must_observe", []) if counters.get(k, 0) == 0]
    if evaluations == 0 or missing:
        print("inconclusive: nothing observed of %s" % (missing or "anything"), file=sys.stderr)
        return 2
    if not quiet:
        print("ok property=%s evaluations=%d distinct=%d wall=%.1fs" % (pid, evaluations, len(sigs), time.time() - t0))
        if inconclusive:
            print("  inconclusive parts: %d (%s)" % (len(inconclusive), inconclusive[0]))
    return 0


def replay(path):
    rec = json.load(open(path))
    p = PROPS[rec["property"]]
    bins = build.build(rec["flavour"], p["harness"])
    work = tempfile.mkdtemp(prefix="vf-replay-")
    try:
        for start in (rec["case"], rec["start"]):
            res = Job(rec["property"], p, rec["flavour"], bins, rec["seed"], start, rec["case"] - start + 1, rec["tier"], work, rec["cfg"]).run()
            verdict, key, detail = classify(res)
            print("from case %d to %d: %s %s\n%s" % (start, rec["case"], verdict, key, detail))
            if verdict != "ok":
                return 1
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 0
