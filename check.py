#!/usr/bin/env python3
"""Driver: build harnesses from /repo's working tree, run generated cases, shrink
and replay failures, write evidence.

  check.py C01            tier from VERIF_TIER (default quick), seed from VERIF_SEED
  check.py C01 thorough
  check.py --replay FILE  re-run one saved failing case
"""
import concurrent.futures as cf
import glob
import hashlib
import json
import os
import re
import shutil
import struct
import subprocess
import sys
import tempfile
import threading
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4
sys.path.insert(0, VERIF)
from checks_config import CHECKS, BINARIES  # noqa: E402

BASE = ["-std=c++11", "-include", "string", "-include", "functional", "-DEIGEN_MAX_CPP_VER=3",
        "-w", "-pthread", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(VERIF, "harness"),
        "-isystem", "/usr/include/eigen3"]
FLAVOURS = {
    # sanitized build: memory errors and undefined behaviour become failures
    "asan": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=address,undefined",
                                   "-fno-sanitize-recover=all", "-fno-sanitize=null,alignment,nonnull-attribute,vptr,float-divide-by-zero,float-cast-overflow,object-size,pointer-overflow",
                                   "-ftrivial-auto-var-init=pattern", "-fno-omit-frame-pointer"],
                 link=["-fsanitize=address,undefined"]),
    "tsan": dict(cxx="g++", flags=["-O1", "-g1", "-DNDEBUG", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    "plain": dict(cxx="g++", flags=["-O2", "-g1", "-DNDEBUG"], link=[]),
    "fuzz": dict(cxx="clang++", flags=["-O1", "-g", "-DNDEBUG", "-fsanitize=fuzzer-no-link,address,undefined", "-fno-sanitize-recover=all",
                                        "-fno-sanitize=null,alignment,nonnull-attribute,vptr,function,pointer-overflow"],
                 link=["-fsanitize=fuzzer,address,undefined"]),
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=0:exitcode=86:allocator_may_return_null=1:max_allocation_size_mb=512:"
                    "max_malloc_fill_size=1048576:malloc_fill_byte=255:detect_stack_use_after_return=0:handle_abort=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:exitcode=86",
    "TSAN_OPTIONS": "exitcode=66:halt_on_error=1:report_signal_unsafe=0:suppressions=" + os.path.join(VERIF, "harness", "tsan.supp"),
    "LC_ALL": "C", "OMP_NUM_THREADS": "1",
})


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode())
        h.update(b"\0")
    return h.hexdigest()[:24]


def read(p):
    with open(p, "rb") as f:
        return f.read()


_tree = {}


def headers_hash():
    if "h" not in _tree:
        parts = []
        for root in (os.path.join(REPO, "include"), os.path.join(VERIF, "harness")):
            for d, _, fs in sorted(os.walk(root)):
                for f in sorted(fs):
                    if f.endswith((".hpp", ".h")):
                        p = os.path.join(d, f)
                        parts += [p, read(p)]
        _tree["h"] = sha(*parts)
    return _tree["h"]


def compile_one(src, flavour):
    fl = FLAVOURS[flavour]
    flags = fl["flags"] + BASE
    key = sha(headers_hash(), src, read(src), fl["cxx"], " ".join(flags))
    obj = os.path.join(BUILD, "obj", key + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".tmp%d.%d" % (os.getpid(), threading.get_ident())
        r = subprocess.run([fl["cxx"]] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            raise BuildError("%s\n%s" % (src, "\n".join([l for l in r.stdout.splitlines() if "error" in l][:8])))
        os.replace(tmp, obj)
    return obj


def lib_sources():
    r = []
    for d, _, fs in sorted(os.walk(os.path.join(REPO, "src", "ldaplusplus"))):
        r += [os.path.join(d, f) for f in sorted(fs) if f.endswith(".cpp")]
    return r


APPS = ["lda", "slda", "fslda"]


def app_sources(name):
    d = os.path.join(REPO, "src", "applications")
    common = [p for p in sorted(glob.glob(os.path.join(d, "*.cpp"))) if os.path.basename(p)[:-4] not in APPS]
    return [os.path.join(d, name + ".cpp")] + common


def build_many(targets):
    """targets: list of (outname, sources, flavour, libs); returns {outname: path}"""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    todo = sorted({(s, fl) for _, srcs, fl, _ in targets for s in srcs})
    # biggest first
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    objs = {}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        futs = {t: ex.submit(compile_one, *t) for t in todo}
        for t, f in futs.items():
            objs[t] = f.result()
        outs = {}

        def link(t):
            name, srcs, fl, libs = t
            os_ = [objs[(s, fl)] for s in srcs]
            key = sha(*(os_ + libs))
            exe = os.path.join(BUILD, "%s-%s-%s" % (name, fl, key[:12]))
            if not os.path.exists(exe):
                tmp = exe + ".tmp%d" % os.getpid()
                r = subprocess.run([FLAVOURS[fl]["cxx"]] + FLAVOURS[fl]["link"] + ["-pthread"] + os_ + libs + ["-o", tmp],
                                   stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                if r.returncode:
                    raise BuildError(r.stdout[-1500:])
                os.replace(tmp, exe)
            return (name, fl), exe
        for k, exe in ex.map(link, targets):
            outs[k] = exe
    return outs


# ---------------------------------------------------------------- running

def read_state(path):
    with open(path, "rb") as f:
        magic, idx, n, beat = struct.unpack("<4Q", f.read(32))
        return idx, list(struct.unpack("<%dQ" % n, f.read(8 * n))), beat


class Result:
    pass


def summarize(stderr, rc):
    m = re.search(r"(ERROR: AddressSanitizer: [^\n]*|WARNING: ThreadSanitizer: [^\n]*|[^\n]*runtime error: [^\n]*)", stderr)
    if not m:
        m = re.search(r"(terminate called[^\n]*\n?[^\n]*)", stderr)
    s = m.group(1) if m else "process ended with status %d" % rc
    frames = re.findall(r"#\d+ (?:0x[0-9a-f]+ )?(?:in )?([^\n(]*)[^\n]*?(/[^\n: ]*src/[^\n: ]*:\d+|/[^\n: ]*include/ldaplusplus[^\n: ]*:\d+)", stderr)
    if frames:
        s += " at " + "; ".join("%s %s" % (a.strip(), b) for a, b in frames[:3])
    if "ThreadSanitizer" in s:
        fns = []
        for f in re.findall(r"#\d+ (ldaplusplus::[^\n(]{1,120})", stderr):
            if f not in fns:
                fns.append(f)
        s += " in " + ", ".join(fns[:4])
    return s


def group_cpu(pgid):
    """CPU seconds used by the live processes of a process group."""
    tck, total = os.sysconf("SC_CLK_TCK"), 0
    for d in os.listdir("/proc"):
        if d.isdigit():
            try:
                with open("/proc/%s/stat" % d) as f:
                    w = f.read().rsplit(")", 1)[1].split()
                if int(w[2]) == pgid:
                    total += int(w[11]) + int(w[12]) + int(w[13]) + int(w[14])
            except (OSError, IndexError, ValueError):
                pass
    return total / tck


LONGEST = [0.0]     # longest time any single case took


def run_proc(cmd, env, hang, state=None):
    """Run; returns (rc, stdout, stderr, hung). Hang = the state file's heartbeat is still for `hang` s, in which
    the processes were either idle or busy all the time (and not merely short of CPU)."""
    with tempfile.TemporaryFile() as so, tempfile.TemporaryFile() as se:
        p = subprocess.Popen(cmd, stdout=so, stderr=se, env=env, start_new_session=True)
        last, t_last, hung, cpu0 = None, time.time(), False, None
        while True:
            try:
                rc = p.wait(timeout=0.5 if time.time() - t_last > 2 else 0.05)
                break
            except subprocess.TimeoutExpired:
                pass
            beat = None
            if state:
                try:
                    with open(state, "rb") as f:
                        beat = f.read(32)[24:]
                except OSError:
                    pass
            if beat != last:
                last, t_last, cpu0 = beat, time.time(), None
            still = time.time() - t_last
            if state:
                LONGEST[0] = max(LONGEST[0], still)
            if still > 1 and cpu0 is None:
                cpu0 = group_cpu(p.pid)
            if still > hang:
                used = group_cpu(p.pid) - (cpu0 or 0)
                hung = used < 0.03 * still or used > 0.8 * hang or still > 5 * hang
            if hung:
                try:
                    os.killpg(p.pid, 9)
                except OSError:
                    pass
                rc = p.wait()
                break
        so.seek(0)
        se.seek(0)
        return rc, so.read().decode("utf8", "replace"), se.read().decode("utf8", "replace"), hung


def write_replay(path, prop, sub, flavour, choices, extra=""):
    with open(path, "w") as f:
        f.write("property %s\nsub %s\nflavour %s\n" % (prop, sub, flavour))
        for l in extra.splitlines():
            f.write("# " + l.replace("choices", "choice-list") + "\n")
        f.write("choices\n" + " ".join(map(str, choices)) + "\n")


class Runner:
    def __init__(self, prop, exes, env, scratch, tier, seed):
        self.prop, self.exes, self.env, self.scratch, self.tier, self.seed = prop, exes, env, scratch, tier, seed
        self.n = 0
        self.lock = threading.Lock()

    def tmp(self, suffix):
        with self.lock:
            self.n += 1
            return os.path.join(self.scratch, "f%d%s" % (self.n, suffix))

    def shard(self, spec, start, stride, cases, tlimit):
        exe = self.exes[(spec["bin"], spec["flavour"])]
        st, out = self.tmp(".state"), self.tmp(".json")
        cmd = [exe, "--sub", spec["sub"], "--seed", str(self.seed), "--start", str(start), "--stride", str(stride),
               "--cases", str(cases), "--time", str(tlimit), "--state", st, "--out", out]
        if self.tier == "thorough":
            cmd.append("--thorough")
        rc, so, se, hung = run_proc(cmd, self.env, spec["hang"], st)
        r = Result()
        r.spec, r.rc, r.hung, r.args = spec, rc, hung, (start, stride, cases, tlimit)
        r.info = None
        if os.path.exists(out):
            with open(out) as f:
                try:
                    r.info = json.load(f)
                except ValueError:
                    pass
        r.ok = rc == 0 and not hung
        r.error = None
        r.choices = None
        if not r.ok:
            if rc == 3:
                r.error = se[-2000:]
            idx, r.choices, beat = read_state(st)
            r.index, r.beat = idx, beat
            if hung:
                r.msg = "no progress for %d s (hang)" % spec["hang"]
            elif rc == 1 and "FAIL" in so:
                r.msg = so[so.index("FAIL") + 5:].strip()
            else:
                r.msg = summarize(se, rc)
            r.stderr = se[-6000:]
        for p in (st, out):
            if os.path.exists(p):
                os.unlink(p)
        return r

    def replay(self, spec, choices, hang=None):
        """-> (failed, message, description)"""
        exe = self.exes[(spec["bin"], spec["flavour"])]
        f = self.tmp(".replay")
        write_replay(f, self.prop, spec["sub"], spec["flavour"], choices)
        cmd = [exe, "--sub", spec["sub"], "--replay", f]
        if self.tier == "thorough":
            cmd.append("--thorough")
        rc, so, se, hung = run_proc(cmd, self.env, hang or spec["hang"])
        os.unlink(f)
        d = re.search(r"^CASE (.*)$", so, re.M)
        desc = d.group(1) if d else ""
        if rc == 3:
            return False, "", desc
        if hung:
            return True, "no progress for %d s (hang)" % (hang or spec["hang"]), desc
        if rc == 0:
            return False, "", desc
        if rc == 1 and "FAIL" in so:
            return True, so[so.index("FAIL") + 5:].strip(), desc
        return True, summarize(se, rc), desc

    def shrink(self, spec, choices, budget):
        t0 = time.time()
        best = list(choices)
        hang = 20

        def attempt(cands):
            cands = [c for c in cands if c != best]
            with cf.ThreadPoolExecutor(JOBS) as ex:
                for c, r in zip(cands, ex.map(lambda c: self.replay(spec, c, hang), cands)):
                    if r[0] and "hang" not in r[1]:
                        return c
            return None

        def left():
            return time.time() - t0 < budget
        improved = True
        while improved and left():
            improved = False
            # truncate / delete blocks
            size = max(1, len(best) // 2)
            while size >= 1 and left():
                i = 0
                while i < len(best) and left():
                    cands = [best[:j] + best[j + size:] for j in range(i, min(len(best), i + size * JOBS), size)]
                    g = attempt(cands)
                    if g is not None:
                        best, improved = g, True
                    else:
                        i += size * JOBS
                size = size // 2 if len(best) <= 400 or size > 8 else 0
            # zero blocks
            size = max(1, len(best) // 2)
            while size >= 1 and left():
                i = 0
                while i < len(best) and left():
                    cands = [best[:j] + [0] * len(best[j:j + size]) + best[j + size:]
                             for j in range(i, min(len(best), i + size * JOBS), size) if any(best[j:j + size])]
                    g = attempt(cands) if cands else None
                    if g is not None:
                        best, improved = g, True
                    else:
                        i += size * JOBS
                size = size // 2 if len(best) <= 400 or size > 8 else 0
            # minimise single values
            for i in range(min(len(best), 200)):
                if not left():
                    break
                v = best[i]
                if v == 0:
                    continue
                cands = sorted({0, 1, 2, v // 2, v // 4, v >> 8, v >> 32, v - 1} - {v})
                g = attempt([best[:i] + [x] + best[i + 1:] for x in cands if x < v])
                if g is not None:
                    best, improved = g, True
        return best


# ---------------------------------------------------------------- main

def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    with open(p) as f:
        k = json.load(f)
    return [e for e in k["findings"] if e["property"] == prop]


def targets_for(specs, extra_apps):
    t = []
    for b, fl in sorted({(s["bin"], s["flavour"]) for s in specs}):
        cfg = BINARIES[b]
        srcs = [os.path.join(VERIF, "harness", b + ".cpp")]
        if cfg.get("lib"):
            srcs += lib_sources()
        if cfg.get("app_objs"):
            srcs += app_sources("lda")[1:]
        t.append((b, srcs, fl, cfg.get("libs", [])))
    if extra_apps:
        for a in APPS:
            t.append(("app_" + a, app_sources(a) + [os.path.join(VERIF, "harness", "app_threads.cpp")] + lib_sources(), "asan", ["-ldocopt"]))
    return t


def specs_for(prop, tier):
    cfg = CHECKS[prop]
    out = []
    for s in cfg["subs"]:
        d = dict(s)
        d.setdefault("flavour", "asan")
        d.setdefault("bin", cfg["bin"])
        d.setdefault("hang", 60)
        d.setdefault("schedule", False)
        d["cases"] = s["quick"] if tier == "quick" else s.get("thorough", s["quick"] * 20)
        out.append(d)
    return out


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay_main(sys.argv[2])
    if sys.argv[1:] == ["--setup"]:
        return setup_main()
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    try:
        seed = int(os.environ.get("VERIF_SEED", "1"))
    except ValueError:
        seed = 1
    t0 = time.time()
    cfg = CHECKS[prop]
    specs = specs_for(prop, tier)
    scratch = tempfile.mkdtemp(prefix="sldapbt-")
    try:
        return run_check(prop, tier, seed, t0, cfg, specs, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def run_check(prop, tier, seed, t0, cfg, specs, scratch):
    try:
        exes = build_many(targets_for(specs, cfg.get("apps")))
    except BuildError as e:
        print("BUILD-ERROR %s" % e)
        return 2
    env = dict(ENV)
    env["PBT_SCRATCH"] = scratch
    for a in APPS:
        if ("app_" + a, "asan") in exes:
            env["PBT_APP_" + a.upper()] = exes[("app_" + a, "asan")]
    # a flavour whose runtime cannot start here (e.g. TSan without ASLR control) is dropped, and recorded
    dropped = []
    for b, fl in {(s["bin"], s["flavour"]) for s in specs}:
        r = subprocess.run([exes[(b, fl)], "--list"], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
        if r.returncode != 0 and fl == "tsan":
            dropped.append(fl)
    specs = [s for s in specs if s["flavour"] not in dropped]
    for p in cfg.get("prep", []):
        subprocess.run([os.path.join(VERIF, "harness", p[0])] + p[1:] + [scratch, str(seed), tier], env=env, check=False)
    t_build = time.time() - t0

    run = Runner(prop, exes, env, scratch, tier, seed)
    budget = cfg.get("budget", 100) if tier == "quick" else cfg.get("thorough_budget", 1500)
    # shards: every sub gets JOBS shards, run JOBS at a time; time limit per shard keeps the total bounded
    work = []
    totw = sum(s.get("weight", 1) for s in specs)
    for s in specs:
        n = min(JOBS, s["cases"])
        if s.get("serial"):
            n = 1
        tl = budget * s.get("weight", 1) / totw
        for i in range(n):
            cases = (s["cases"] - i + n - 1) // n
            work.append((s, i, n, cases, tl))
    results, failed_subs = [], set()
    lock = threading.Lock()

    def job(w):
        s, i, n, cases, tl = w
        with lock:
            if s["sub"] in failed_subs:
                return None
        r = run.shard(s, i, n, cases, tl)
        if not r.ok:
            with lock:
                failed_subs.add(s["sub"])
        return r
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for r in ex.map(job, work):
            if r is not None:
                results.append(r)
    known = load_known(prop)
    violations, notes = [], []
    rdir = os.path.join(VERIF, "replays")
    for sub in sorted({r.spec["sub"] for r in results if not r.ok}):
        if violations and time.time() - t0 > 300:
            notes.append("%s failed as well; not replayed, for time" % sub)
            continue
        bad = [r for r in results if r.spec["sub"] == sub and not r.ok]
        r = bad[0]
        spec = r.spec
        if r.error is not None:
            print("HARNESS-ERROR %s: %s" % (sub, r.error))
            return 2
        if r.info is None and r.beat == 0:
            print("HARNESS-ERROR %s did not start: %s" % (sub, r.msg))
            return 2
        print("candidate failure in %s: %s" % (sub, r.msg[:1500]))
        sys.stdout.flush()
        # replay before believing it
        need = 3
        tries = 30 if spec["schedule"] else 3
        fails, msg, desc = 0, r.msg, ""
        if spec["schedule"]:
            for _ in range(tries):
                f, m, d = run.replay(spec, r.choices, 50)
                if f:
                    fails, msg, desc = 1, m, d
                    break
        else:
            with cf.ThreadPoolExecutor(tries) as ex:
                for f, m, d in ex.map(lambda _: run.replay(spec, r.choices, 60), range(tries)):
                    if f:
                        fails, msg, desc = fails + 1, m, d
        confirmed = fails >= (1 if spec["schedule"] else need)
        choices = r.choices
        if not confirmed:
            # depends on what ran before it (or on the schedule): re-run the shard itself
            with cf.ThreadPoolExecutor(3) as ex:
                again = sum(not rr.ok and rr.error is None for rr in ex.map(lambda _: run.shard(spec, *r.args), range(3)))
            confirmed = again >= (1 if spec["schedule"] else 3)
            if confirmed:
                msg = r.msg + "  (reproduces by re-running seed %d start %d stride %d)" % (seed, r.args[0], r.args[1])
        elif "hang" not in msg and not spec["schedule"] and not spec.get("noshrink"):
            choices = run.shrink(spec, r.choices, 40 if tier == "quick" else 120)
            f, m, d = run.replay(spec, choices)
            if f:
                msg, desc = m, d
        if not confirmed:
            notes.append("a failure of %s did not reproduce and is not reported: %s" % (sub, r.msg[:300]))
            print("NOT-REPRODUCED %s" % notes[-1])
            continue
        os.makedirs(rdir, exist_ok=True)
        path = os.path.join(rdir, "%s-%s.replay" % (prop, sub))
        write_replay(path, prop, sub, spec["flavour"], choices, "%s\ncase: %s\nseed %d shard %s" % (msg, desc, seed, r.args[:2]))
        violations.append(dict(sub=sub, message=msg[:1500], case=desc[:1500], replay=path))
    # known findings: run their probes; print while they still fail
    finding_lines = []
    for e in known:
        if e.get("status") != "open":
            continue
        spec = dict(bin=e["bin"], sub=e["sub"], flavour=e.get("flavour", "asan"), hang=60, schedule=True)
        if (spec["bin"], spec["flavour"]) not in exes:
            continue
        seen = False
        for _ in range(e.get("tries", 3)):
            f, m, d = run.replay(spec, e["choices"])
            if f and re.search(e["match"], m):
                seen = True
                break
        if seen:
            line = "KNOWN-FINDING: property=%s %s" % (prop, e["what"])
            print(line)
            finding_lines.append(line)
    # libFuzzer campaign (short in the quick tier)
    fuzz = None
    if cfg.get("fuzz") and not violations:
        fuzz = run_fuzz(prop, cfg["fuzz"], tier, seed, env, scratch, violations, rdir)

    evals = sum(r.info["evaluations"] for r in results if r.info)
    distinct = set()
    labels, persub, samples = {}, {}, []
    for r in results:
        if not r.info:
            continue
        distinct.update(r.info["distinct"])
        ps = persub.setdefault(r.spec["sub"], dict(evaluations=0, nontrivial=0, discards=0, labels={}))
        ps["evaluations"] += r.info["evaluations"]
        ps["nontrivial"] += len(r.info["distinct"])
        ps["discards"] += r.info["discards"]
        for k, v in r.info["labels"].items():
            ps["labels"][k] = ps["labels"].get(k, 0) + v
        if sum(1 for x in samples if x.startswith(r.spec["sub"])) < 3:
            samples += [r.spec["sub"] + ": " + x for x in r.info["samples"][:2]]
    ev = dict(property=prop, tier=tier, seed=seed, level="exploration",
              coverage=dict(evaluations=evals, distinct_nontrivial=len(distinct), rule=cfg["rule"], samples=samples[:12],
                            per_sub=persub, dropped_flavours=dropped),
              wall_s=round(time.time() - t0, 2), violations=violations,
              assumptions=cfg.get("assumptions", []) + notes)
    ev["coverage"]["build_s"] = round(t_build, 1)
    if fuzz:
        ev["coverage"]["libfuzzer"] = fuzz
    if finding_lines:
        ev["coverage"]["known_findings"] = finding_lines
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    print("%s %s seed=%d: %d cases, %d distinct non-trivial, build %.0f s, total %.0f s, slowest case %.0f s" % (
        prop, tier, seed, evals, len(distinct), t_build, time.time() - t0, LONGEST[0]))
    for k, v in sorted(persub.items()):
        print("  %s: %d cases, %d non-trivial %s" % (k, v["evaluations"], v["nontrivial"], json.dumps(v["labels"])))
    for v in violations:
        print("  %s\n  case: %s" % (v["message"], v["case"]))
        print("VIOLATION property=%s replay=%s" % (prop, v["replay"]))
    if violations:
        return 1
    if evals == 0:
        print("HARNESS-ERROR nothing ran")
        return 2
    return 0


def run_fuzz(prop, cfg, tier, seed, env, scratch, violations, rdir):
    exe = build_many([(cfg["bin"], [os.path.join(VERIF, "harness", cfg["bin"] + ".cpp")], "fuzz", [])])[(cfg["bin"], "fuzz")]
    tot = 0
    procs = []
    secs = cfg["time" if tier == "thorough" else "quick_time"]
    for i in range(JOBS):
        corpus = os.path.join(scratch, "corpus%d" % i)
        os.makedirs(corpus)
        art = os.path.join(scratch, "art%d-" % i)
        cmd = [exe, "-seed=%d" % (seed * 100 + i + 1), "-max_total_time=%d" % secs, "-max_len=400", "-artifact_prefix=" + art,
               "-rss_limit_mb=3000", "-malloc_limit_mb=600", "-print_final_stats=1", corpus]
        if i % 2:
            seeds = os.path.join(VERIF, "harness", cfg["seeds"])
            cmd.append(seeds)
        procs.append((art, subprocess.Popen(cmd, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace")))
    for art, p in procs:
        _, se = p.communicate()
        m = re.search(r"stat::number_of_executed_units:\s*(\d+)", se)
        tot += int(m.group(1)) if m else 0
        crashes = [f for f in glob.glob(art + "*") if "slow-unit" not in f and "oom" not in f and "timeout" not in f]
        if crashes and not violations:
            os.makedirs(rdir, exist_ok=True)
            path = os.path.join(rdir, "%s-libfuzzer.bin" % prop)
            shutil.copy(crashes[0], path)
            ok = all(subprocess.run([exe, path], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode for _ in range(3))
            if ok:
                small = os.path.join(scratch, "minimized")
                subprocess.run([exe, "-minimize_crash=1", "-max_total_time=20", "-exact_artifact_path=" + small, path], env=env,
                               stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
                if os.path.exists(small) and subprocess.run([exe, small], env=env, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode:
                    shutil.copy(small, path)
                violations.append(dict(sub="libfuzzer", message=summarize(se, 1), case=read(path)[:200].hex(), replay=path))
    return dict(executions=tot, processes=JOBS, seconds=secs)


def setup_main():
    """Nothing is installed; only make sure the tools are there."""
    for tool in ("g++", "clang++"):
        print("%s: %s" % (tool, shutil.which(tool) or "missing"))
    return 0 if shutil.which("g++") and os.path.isdir(os.path.join(REPO, "include")) else 2


def replay_main(path):
    if path.endswith(".bin"):
        cfg = CHECKS[os.path.basename(path)[:3]]["fuzz"]
        exe = build_many([(cfg["bin"], [os.path.join(VERIF, "harness", cfg["bin"] + ".cpp")], "fuzz", [])])[(cfg["bin"], "fuzz")]
        r = subprocess.run([exe, path], env=ENV)
        print("FAILS" if r.returncode else "passes")
        return 1 if r.returncode else 0
    txt = open(path, errors="replace").read()
    prop, sub, fl = (re.search(r"^%s (\S+)" % k, txt, re.M).group(1) for k in ("property", "sub", "flavour"))
    choices = [int(x) for x in txt[txt.index("\nchoices\n") + 9:].split()]
    spec = [s for s in specs_for(prop, "quick") if s["sub"] == sub and s["flavour"] == fl][0]
    scratch = tempfile.mkdtemp(prefix="sldapbt-")
    try:
        exes = build_many(targets_for([spec], CHECKS[prop].get("apps")))
        env = dict(ENV)
        env["PBT_SCRATCH"] = scratch
        for a in APPS:
            if ("app_" + a, "asan") in exes:
                env["PBT_APP_" + a.upper()] = exes[("app_" + a, "asan")]
        for p in CHECKS[prop].get("prep", []):
            subprocess.run([os.path.join(VERIF, "harness", p[0])] + p[1:] + [scratch, "1", "quick"], env=env, check=False)
        run = Runner(prop, exes, env, scratch, "quick", 1)
        f, m, d = run.replay(spec, choices)
        print("case: %s\n%s" % (d, "FAILS: " + m if f else "passes"))
        return 1 if f else 0
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except BuildError as e:
        print("BUILD-ERROR %s" % e)
        sys.exit(2)
