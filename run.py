#!/usr/bin/env python3
"""Run the check of one property:  run.py P01 [quick|thorough]
Replay one case:               run.py --replay FILE

Exit 0: held (or only known findings), 1: VIOLATION printed, 2: no verdict.
"""
import hashlib
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import time
import traceback
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
EVID = os.path.join(ROOT, "evidence")
HARN = os.path.join(ROOT, "harness")
sys.path.insert(0, HARN)
from props import PROPS  # noqa: E402

NCPU = os.cpu_count() or 4
CASE_LIMIT = 60      # seconds without finishing a case before it is suspected of hanging
CASE_LIMIT_ALONE = 240
CASE_MEMORY = 3000   # MB in use by a driver before its case is suspected of growing without end
START = time.time()
DEADLINE = {"quick": 600, "thorough": 6 * 3600}

SAN = ["-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
MODES = {
    "asan": ["g++", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SAN,
    # Full checked iterators
    "dbg": ["g++", "-O1", "-g1", "-D_GLIBCXX_DEBUG"] + SAN,
    "clang": ["clang++", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS"] + SAN,
    "tsan": ["g++", "-O1", "-g1", "-fsanitize=thread"],
    # Results compared between differently built binaries
    "O0": ["g++", "-O0", "-g1"],
    "O3": ["g++", "-O3", "-DNDEBUG"],
    "clangO2": ["clang++", "-O2", "-DNDEBUG"],
    "cxx20": ["g++", "-O2", "-std=c++20"],
    # A Python module
    "module": ["g++", "-O1", "-g1", "-D_GLIBCXX_ASSERTIONS", "-shared", "-fPIC", "-fvisibility=hidden"],
    # Counts the blocks of code executed
    "work": ["g++", "-O1", "-g1", "-DNDEBUG", "-fsanitize-coverage=trace-pc"],
    # Run under valgrind, which also sees the use of uninitialised values
    "vg": ["g++", "-O1", "-g1"],
}
WRAP = {"vg": ["valgrind", "-q", "--error-exitcode=98", "--exit-on-first-error=yes", "--leak-check=no",
               "--track-origins=no"]}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=1:halt_on_error=1:abort_on_error=0:exitcode=99:allocator_may_return_null=0:"
                    "detect_stack_use_after_return=1:strict_string_checks=1:check_initialization_order=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1",
    "TSAN_OPTIONS": "halt_on_error=1:exitcode=99:second_deadlock_stack=1",
    "LC_ALL": "C.UTF-8",
})


class NoVerdict(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def config_header():
    """CoMMAConfig.h as the project's CMake would write it with the default types"""
    src = os.path.join(REPO, "config_files/CoMMAConfig.h.in")
    txt = open(src).read()
    ver = "1.3.2"
    try:
        m = re.search(r"project\s*\([^)]*?VERSION\s+([0-9.]+)", open(os.path.join(REPO, "CMakeLists.txt")).read(), re.S | re.I)
        ver = m.group(1)
    except Exception:
        pass
    part = (ver.split(".") + ["0", "0"])[:3]
    rep = {"PROJECT_VERSION": ver, "PROJECT_VERSION_MAJOR": part[0], "PROJECT_VERSION_MINOR": part[1],
           "PROJECT_VERSION_PATCH": part[2], "INDEX_T": "unsigned long", "REAL_T": "double", "INT_T": "int"}
    for k, v in rep.items():
        txt = txt.replace("@%s@" % k, v)
    return txt


def tree_hash():
    h = hashlib.sha256()
    for base in (os.path.join(REPO, "include"), os.path.join(REPO, "src"), HARN):
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x != "__pycache__")
            for f in sorted(fs):
                p = os.path.join(d, f)
                h.update(p.encode())
                with open(p, "rb") as fh:
                    h.update(fh.read())
    h.update(config_header().encode())
    return h


def compile_cmd(job, work, out):
    mode = MODES[job["mode"]]
    cmd = [mode[0], "-std=c++17"] + mode[1:] + [f.replace("/REPO", REPO) for f in job.get("flags", [])]
    if "config" in job:
        cmd += job["cflags"] + ["-I" + os.path.join(work, "all"), "-I" + HARN]
    else:
        cmd += ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(work, "inc"), "-I" + HARN]
    cmd += ["-D" + d for d in job.get("defs", [])]
    for src in [job["src"]] + job.get("more", []):
        src = src if os.path.isabs(src) else os.path.join(HARN, src)
        cmd.append(src.replace("/REPO/", REPO + "/"))
    cmd += ["-o", out, "-pthread"]
    return cmd


def sure(cmd, **kw):
    """Output of a command that fails, None if it works. Failures of the machine are not taken for failures of the command"""
    for _ in range(2):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, text=True,
                           errors="replace", **kw)
        if r.returncode == 0:
            return None
    if r.returncode < 0 or re.search(r"No space left|cannot allocate|out of memory|[Kk]illed|Too many open files", r.stdout):
        raise NoVerdict("%s\n%s" % (" ".join(cmd), r.stdout[-2000:]))
    return "%s\n%s" % (" ".join(cmd), r.stdout[:3000])


def install(j):
    """Install the library, configured as given, in the work directory; what goes wrong is returned as (key, text)"""
    for tool in ("cmake", "pkg-config", "ninja"):
        if shutil.which(tool) is None:
            raise NoVerdict("%s not found" % tool)
    work, res = j["work"], []
    shutil.rmtree(os.path.join(work, "cm"), ignore_errors=True)
    shutil.rmtree(os.path.join(work, "prefix"), ignore_errors=True)
    prefix = os.path.join(work, "prefix")
    conf = ["-D%s=%s" % kv for kv in zip(("INT_T", "INDEX_T", "REAL_T"), j["config"])]
    for cmd in (["cmake", "-G", "Ninja", "-S", REPO, "-B", os.path.join(work, "cm"), "-DBUILD_TESTS=OFF",
                 "-DBUILD_PYTHON_BINDINGS=OFF", "-DCMAKE_INSTALL_PREFIX=" + prefix] + conf,
                ["cmake", "--build", os.path.join(work, "cm")], ["cmake", "--install", os.path.join(work, "cm")]):
        e = sure(cmd)
        if e:
            return [("install-fails", e)]
    pc = [d for d, _, fs in os.walk(prefix) if "comma.pc" in fs]
    env = dict(os.environ, PKG_CONFIG_PATH=pc[0] if pc else "")
    e = sure(["pkg-config", "--cflags", "comma"], env=env)
    if e:
        return [("package-not-found", e)]
    j["cflags"] = subprocess.run(["pkg-config", "--cflags", "comma"], env=env, stdout=subprocess.PIPE, text=True).stdout.split()
    inc = os.path.join(prefix, "include")
    heads = sorted(os.path.relpath(os.path.join(d, f), inc) for d, _, fs in os.walk(inc) for f in fs if f.endswith(".h"))
    os.makedirs(os.path.join(work, "all"), exist_ok=True)
    with open(os.path.join(work, "all/vf_all_headers.h"), "w") as f:
        f.write("".join('#include "%s"\n' % h for h in reversed(heads)))
    if not j.get("headers"):
        return res
    for h in heads:
        one = os.path.join(work, "all/alone.cpp")
        with open(one, "w") as f:
            f.write('#include "%s"\nint main() {}\n' % h)
        for cxx in ("g++", "clang++"):
            e = sure([cxx, "-std=c++17", "-fsyntax-only"] + j["cflags"] + [one])
            if e:
                res.append(("header-alone-" + os.path.basename(h), e))
                break
    with open(os.path.join(work, "n_headers"), "w") as f:
        f.write(str(len(heads)))
    return res


def build(jobs):
    base = tree_hash()
    todo = []
    for j in jobs:
        h = base.copy()
        h.update(json.dumps([j["mode"], j.get("flags"), j.get("defs"), j["src"]]).encode())
        if "config" in j:
            h.update(json.dumps(j["config"]).encode())
            for f in ("CMakeLists.txt", "config_files/comma.pc.in"):
                h.update(open(os.path.join(REPO, f), "rb").read())
        work = os.path.join(BUILD, h.hexdigest()[:20])
        j["work"] = work
        j["bin"] = os.path.join(work, j.get("out", "drv"))
        if not os.path.exists(j["bin"]):
            todo.append(j)
    # Drop what older trees left behind
    if os.path.isdir(BUILD):
        keep = {j["work"] for j in jobs}
        ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)]
        ds = sorted((d for d in ds if d not in keep), key=os.path.getmtime)
        for d in ds[:-60]:
            subprocess.run(["rm", "-rf", d])

    def one(j):
        inc = os.path.join(j["work"], "inc/CoMMA")
        os.makedirs(inc, exist_ok=True)
        with open(os.path.join(inc, "CoMMAConfig.h"), "w") as f:
            f.write(config_header())
        tmp = j["bin"] + ".%d.tmp" % os.getpid()
        if "config" in j:
            bad = install(j)
            if "cflags" in j:
                e = sure(compile_cmd(j, j["work"], tmp))
                if e:
                    bad.append(("does-not-build", e))
            with open(os.path.join(j["work"], "bad.json"), "w") as f:
                json.dump(bad, f)
            if os.path.exists(tmp):
                os.rename(tmp, j["bin"])
            return None
        cmd = compile_cmd(j, j["work"], tmp)
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode != 0:
            # Perhaps only members that no test of the project names have changed
            r2 = subprocess.run(cmd + ["-DVF_MIN=1"], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r2.returncode == 0:
                r = r2
                open(os.path.join(j["work"], "reduced"), "w").close()
        if r.returncode != 0:
            return "%s\n%s" % (" ".join(cmd), r.stdout[:4000])
        os.rename(tmp, j["bin"])
        return None

    with ThreadPoolExecutor(NCPU) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise NoVerdict("driver does not build:\n" + errs[0])
    for j in jobs:
        if "config" in j:
            j["bad"] = json.load(open(os.path.join(j["work"], "bad.json")))


def crash_key(text, rc):
    """Kind of failure and the innermost frame inside the library"""
    kind = "exit%d" % rc if rc >= 0 else "signal%d" % -rc
    for pat, fmt in ((r"ERROR: AddressSanitizer: ([\w-]+)", "asan-%s"), (r"ERROR: LeakSanitizer: ([\w-]+)", "leak"),
                     (r"runtime error: ([^\n]{0,60})", "ubsan-%s"), (r"WARNING: ThreadSanitizer: ([\w ]+)", "tsan-%s"),
                     (r"Assertion [`']([^']*)' failed", "assert-%s"), (r"Error: ([^\n]{0,60})", "stl-%s"),
                     (r"==\d+== ((?:Conditional|Use of|Invalid|Syscall)[\w ]*)", "valgrind-%s"),
                     (r"terminate called after throwing[^']*'([^']*)'", "terminate-%s")):
        m = re.search(pat, text)
        if m:
            kind = fmt % m.group(1) if "%s" in fmt else fmt
            break
    kind = re.sub(r"0x[0-9a-f]+|\d{3,}", "N", kind).strip().replace(" ", "_")
    frame = ""
    for ln in text.splitlines():
        m = re.match(r"\s*#\d+ (?:0x[0-9a-f]+ in )?(.*)|==\d+==\s+(?:at|by) 0x[0-9A-F]+: (.*)", ln)
        if m and m.group(1) is None and m.group(2):
            g = re.search(r"\((\w+\.h):\d+\)", ln)
            if g and os.path.exists(os.path.join(REPO, "include/CoMMA", g.group(1))):
                f = re.search(r"comma::[\w:]*?(?:<[^()]*?>)?(?:::)?(~?\w+)\s*\(", m.group(2))
                frame = g.group(1) + (":" + f.group(1) if f else "")
                break
        elif m and "include/CoMMA/" in ln:
            frame = os.path.basename(re.search(r"include/CoMMA/([\w.]+)", ln).group(1))
            f = re.search(r"comma::[\w:]*?(?:<[^()]*?>)?(?:::)?(~?\w+)\s*\(", m.group(1))
            if f:
                frame += ":" + f.group(1)
            break
    return "crash:%s%s" % (kind, "@" + frame if frame else "")


def rss(pid):
    """Memory in use by a process, in MB"""
    try:
        return int(open("/proc/%d/statm" % pid).read().split()[1]) * os.sysconf("SC_PAGE_SIZE") >> 20
    except (OSError, IndexError, ValueError):
        return 0


def command(job):
    run = [x.replace("/REPO", REPO).replace("/HARN", HARN).replace("/BIN", job["bin"]) for x in job.get("run", ["/BIN"])]
    return WRAP.get(job["mode"], []) + run


class Chunk:
    """Runs cases [a, b) of a driver; survives crashes and hangs by going on after the bad case"""

    def __init__(self, job, idx, a, b, seed, rundir):
        self.job, self.a, self.b, self.seed = job, a, b, seed
        self.base = os.path.join(rundir, "%s-%d" % (job["name"], idx))
        self.viol, self.cnt, self.samples, self.distinct, self.notes = [], {}, [], set(), []
        self.res = {}
        self.peak = 0

    def launch(self, a, b, tag, limit):
        out, prog, err = (self.base + tag + x for x in (".out", ".prog", ".err"))
        for p in (out, prog):
            if os.path.exists(p):
                os.remove(p)
        cmd = command(self.job) + ["--seed", str(self.seed), "--from", str(a), "--to", str(b), "--out", out,
               "--progress", prog] + self.job.get("args", [])
        with open(err, "w") as fe:
            p = subprocess.Popen(cmd, stdout=fe, stderr=fe, stdin=subprocess.DEVNULL, env=ENV, start_new_session=True)
        last, since, hung, greedy = None, time.time(), False, False
        while True:
            try:
                p.wait(timeout=0.2)
                break
            except subprocess.TimeoutExpired:
                pass
            try:
                cur = open(prog).read().strip()
            except OSError:
                cur = None
            now = time.time()
            if cur != last:
                last, since = cur, now
            used = rss(p.pid)
            self.peak = max(self.peak, used)
            if used > CASE_MEMORY:
                greedy = True
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                break
            if now - since > limit or now - START > self.job["deadline"]:
                hung = now - since > limit
                os.killpg(p.pid, signal.SIGKILL)
                p.wait()
                if not hung:
                    return "deadline", None, None
                break
        try:
            cur = int(open(prog).read().strip())
        except (OSError, ValueError):
            cur = None
        text = open(err, errors="replace").read()
        ended = False
        try:
            for ln in open(out, errors="replace"):
                try:
                    d = json.loads(ln)
                except ValueError:
                    continue
                if d["type"] == "viol":
                    self.viol.append((d["case"], d["key"], d["msg"]))
                elif d["type"] == "res":
                    self.res[d["case"]] = (d["in"], d["out"])
                elif d["type"] == "end":
                    ended = True
                    for k, v in d["counters"].items():
                        self.cnt[k] = self.cnt.get(k, 0) + v
                    self.samples += d["samples"]
                    self.distinct.update(d["distinct"])
        except OSError:
            pass
        if hung:
            return "hang", cur, text
        if greedy:
            return "memory", cur, text
        if p.returncode == 0 and ended:
            return "ok", cur, text
        return "crash", cur, text if p.returncode is None else "rc=%d\n%s" % (p.returncode, text)

    def run(self):
        a, crashes = self.a, 0
        while a < self.b:
            st, cur, text = self.launch(a, self.b, "", CASE_LIMIT)
            if st == "ok":
                break
            if st == "deadline":
                self.notes.append("deadline reached before case %d of %s" % (self.b, self.job["name"]))
                break
            if cur is None:
                raise NoVerdict("driver %s gave no progress:\n%s" % (self.job["name"], text[-2000:]))
            if st == "hang":
                st2, _, text2 = self.launch(cur, cur + 1, ".alone", CASE_LIMIT_ALONE)
                if st2 == "hang":
                    self.viol.append((cur, "hang", "case %d does not finish within %d s" % (cur, CASE_LIMIT_ALONE)))
                elif st2 == "ok":
                    self.notes.append("case %d of %s exceeded %d s once, then finished" % (cur, self.job["name"], CASE_LIMIT))
                elif st2 == "crash":
                    st, text = "crash", text2
                else:
                    break
            if st == "memory":
                st2, _, text2 = self.launch(cur, cur + 1, ".alone", CASE_LIMIT_ALONE)
                if st2 in ("memory", "hang"):
                    self.viol.append((cur, "hang" if st2 == "hang" else "memory", "case %d alone does not finish within %d s and %d MB"
                                      % (cur, CASE_LIMIT_ALONE, CASE_MEMORY)))
                elif st2 == "ok":
                    self.notes.append("%s used more than %d MB at case %d, which alone does not" % (self.job["name"], CASE_MEMORY, cur))
                elif st2 == "crash":
                    st, text = "crash", text2
                else:
                    break
            if st == "crash":
                m = re.match(r"rc=(-?\d+)", text)
                rc = int(m.group(1)) if m else -1
                if rc == 3:
                    raise NoVerdict("driver %s: harness failure\n%s" % (self.job["name"], text[-2000:]))
                if rc == -9:
                    raise NoVerdict("driver %s was killed (memory?)" % self.job["name"])
                keep = "\n".join(text.splitlines()[:60])
                self.viol.append((cur, crash_key(text, rc), keep[:6000]))
            # The counters of an interrupted process are lost; redo the part before the bad case
            if cur > a:
                self.launch(a, cur, ".redo", CASE_LIMIT)
            crashes += 1
            a = cur + 1
            if crashes >= 3:
                break
            if len(self.viol) >= 10:
                break
        return self


def known_findings():
    """known: property=<id> key=<key> [case...] text   /   fixed: ... (suppresses nothing)"""
    res = []
    p = os.path.join(ROOT, "known_findings.txt")
    if os.path.exists(p):
        for ln in open(p):
            m = re.match(r"known:\s+property=(\S+)\s+key=(\S+)\s+(.*)", ln)
            if m:
                res.append(m.groups())
    return res


def run_check(pid, tier, seed):
    spec = PROPS[pid]
    rundir = os.path.join(BUILD, "run-%s-%d" % (pid, os.getpid()))
    os.makedirs(rundir, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    jobs = []
    for k, j in enumerate(spec["jobs"]):
        j = dict(j)
        j.setdefault("mode", "asan")
        j.setdefault("name", "%s_%d_%s" % (pid, k, j["mode"]))
        j["deadline"] = DEADLINE[tier]
        j["n"] = j["cases"] if tier == "quick" else int(j.get("thorough", j["cases"] * 20))
        jobs.append(j)
    try:
        build(jobs)
        for j in jobs:
            if "prepare" in j:
                j["prepare"](j, REPO)
        t_build = time.time() - START
        reduced = any(os.path.exists(os.path.join(j["work"], "reduced")) for j in jobs)
        chunks = []
        for j in jobs:
            if not os.path.exists(j["bin"]):
                continue
            per = j.get("chunk") or max(1, min(400, (j["n"] + 4 * NCPU - 1) // (4 * NCPU)))
            for i, a in enumerate(range(0, j["n"], per)):
                chunks.append(Chunk(j, i, a, min(j["n"], a + per), seed, rundir))
        done = []
        width = max(1, min(NCPU, spec.get("width", NCPU)))
        stop = False
        listed = {key for p, key, text in known_findings() if p == pid}
        with ThreadPoolExecutor(width) as ex:
            futs = [ex.submit(lambda c: None if stop else c.run(), c) for c in chunks]
            for f in as_completed(futs):
                c = f.result()
                if c is not None:
                    done.append(c)
                if sum(v[1] not in listed for c in done for v in c.viol) >= 25:
                    stop = True  # enough evidence of failure
        done.sort(key=lambda c: (c.job["name"], c.a))
        cnt, samples, distinct, viol, notes = {}, [], set(), [], []
        for c in done:
            for k, v in c.cnt.items():
                cnt[k] = cnt.get(k, 0) + v
            samples += c.samples
            distinct |= c.distinct
            notes += c.notes
            viol += [(c.job, *v) for v in c.viol]
        for j in jobs:
            viol += [(j, 0, key, "%s: %s" % (", ".join(j["config"]), text)) for key, text in j.get("bad", [])]
            if "config" in j:
                cnt["installations"] = cnt.get("installations", 0) + 1
            if j.get("headers") and os.path.exists(os.path.join(j["work"], "n_headers")):
                cnt["headers_alone"] = cnt.get("headers_alone", 0) + int(open(os.path.join(j["work"], "n_headers")).read())
        for group in sorted({j.get("group", "") for j in jobs} if spec.get("compare") else ()):
            viol += compare(done, [j for j in jobs if j.get("group", "") == group], cnt)
        known = {}
        unknown = []
        for v in viol:
            hit = None
            for (p, key, text) in known_findings():
                if p == pid and key == v[2]:
                    hit = (key, text)
            if hit:
                known[hit] = known.get(hit, 0) + 1
            else:
                unknown.append(v)
        for (key, text), n in sorted(known.items()):
            log("KNOWN-FINDING: property=%s %s (%d executions, key %s)" % (pid, text, n, key))
        if len(samples) > 6:
            step = len(samples) // 6
            samples = samples[::step][:6]
        ev = {
            "property": pid, "tier": tier, "seed": seed, "level": "exploration",
            "coverage": {
                "evaluations": cnt.get("monitor_evaluations", 0),
                "distinct_nontrivial": len(distinct),
                "rule": spec["rule"],
                "samples": [s[:1500] for s in samples],
            },
            "wall_s": round(time.time() - START, 1),
        }
        ev["coverage"]["executions"] = cnt.get("cases", 0)
        ev["coverage"]["observed"] = {k: cnt[k] for k in sorted(cnt)}
        ev["builds"] = sorted({j["mode"] for j in jobs})
        ev["build_s"] = round(t_build, 1)
        ev["peak_memory_mb"] = max([c.peak for c in done] or [0])
        ev["verdict"] = "violated" if unknown else "held"
        if reduced:
            notes.append("members without test not found: only the part of the monitors that does not need them was built")
        if notes:
            ev["notes"] = notes[:20]
        missing = ["%s %d < %d" % (k, cnt.get(k, 0), v) for k, v in spec["need"].items()
                   if cnt.get(k, 0) < v and not (reduced and k in spec.get("beyond_reduced", ()))]
        if len(distinct) < spec.get("need_distinct", 50):
            missing.append("distinct non-trivial cases %d < %d" % (len(distinct), spec.get("need_distinct", 50)))
        if missing and not unknown:
            ev["verdict"] = "inconclusive"
            ev["notes"] = ev.get("notes", []) + ["too little observed: " + "; ".join(missing)]
        write_evidence(pid, ev)
        if unknown:
            seen = {}
            for (job, case, key, msg) in unknown:
                seen.setdefault(key, []).append((job, case, msg))
            rep = os.path.join(EVID, "replay")
            os.makedirs(rep, exist_ok=True)
            for i, (key, vs) in enumerate(sorted(seen.items())):
                job, case, msg = min(vs, key=lambda v: len(v[2]))
                path = os.path.join(rep, "%s-%d-%d.json" % (pid, seed, i))
                with open(path, "w") as f:
                    json.dump({"property": pid, "seed": seed, "job": job["name"], "case": case, "key": key,
                               "occurrences": len(vs), "message": msg,
                               "command": "python3 %s/run.py --replay %s" % (ROOT, path)}, f, indent=1)
                log("%s: %s (%d occurrences), case %d\n    %s" % (pid, key, len(vs), case, msg[:1500]))
                log("VIOLATION property=%s replay=%s" % (pid, path))
            return 1
        if missing:
            raise NoVerdict("too little observed: " + "; ".join(missing))
        log("%s held on %d executions (%d distinct non-trivial, %d monitor evaluations, %.0f s)%s" % (
            pid, cnt.get("cases", 0), len(distinct), cnt.get("monitor_evaluations", 0), time.time() - START,
            "; " + "; ".join(notes[:3]) if notes else ""))
        return 0
    finally:
        subprocess.run(["rm", "-rf", rundir])


def compare(done, jobs, cnt):
    """The same case in all the builds"""
    byjob = {j["name"]: {} for j in jobs}
    for c in done:
        if c.job["name"] in byjob:
            byjob[c.job["name"]].update(c.res)
    ref = byjob[jobs[0]["name"]]
    res = []
    for j in jobs[1:]:
        label = j.get("label", j["mode"])
        for case, (i, o) in sorted(byjob[j["name"]].items()):
            if case not in ref:
                continue
            if ref[case][0] != i:
                raise NoVerdict("case %d is not the same in %s and %s" % (case, jobs[0]["name"], j["name"]))
            cnt["compared"] = cnt.get("compared", 0) + 1
            cnt["compared_" + label] = cnt.get("compared_" + label, 0) + 1
            if ref[case][1] != o:
                res.append((j, case, "differs-" + label,
                            "case %d gives other results when built as '%s' than as '%s'" % (case, built(j), built(jobs[0]))))
    return res


def built(j):
    return " ".join(MODES[j["mode"]]) + (" with types " + ", ".join(j["config"]) if "config" in j else "")


def write_evidence(pid, ev):
    tmp = os.path.join(EVID, ".%s.%d" % (pid, os.getpid()))
    with open(tmp, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")
    os.rename(tmp, os.path.join(EVID, pid + ".json"))


def replay(path):
    d = json.load(open(path))
    spec = PROPS[d["property"]]
    for k, j in enumerate(spec["jobs"]):
        j = dict(j)
        j.setdefault("mode", "asan")
        j.setdefault("name", "%s_%d_%s" % (d["property"], k, j["mode"]))
        if j["name"] == d["job"]:
            build([j])
            if "prepare" in j:
                j["prepare"](j, REPO)
            cmd = command(j) + ["--seed", str(d["seed"]), "--from", str(d["case"]), "--to", str(d["case"] + 1),
                   "--verbose"] + j.get("args", [])
            log(" ".join(cmd))
            return subprocess.run(cmd, env=ENV).returncode
    return 2


def main():
    if len(sys.argv) >= 3 and sys.argv[1] == "--replay":
        return replay(sys.argv[2])
    if len(sys.argv) < 2 or sys.argv[1] not in PROPS:
        print("usage: run.py <%s> [quick|thorough]" % "|".join(sorted(PROPS)))
        return 2
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    if tier not in DEADLINE:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        return run_check(pid, tier, seed)
    except NoVerdict as e:
        log("NO VERDICT property=%s: %s" % (pid, e))
        return 2
    except Exception:  # a failure of this script says nothing about the property
        log("NO VERDICT property=%s: %s" % (pid, traceback.format_exc()))
        return 2


if __name__ == "__main__":
    sys.exit(main())
