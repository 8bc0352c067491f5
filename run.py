#!/usr/bin/env python3
"""Driver for the runtime monitors of /verif.

  run.py <ID> [quick|thorough]        decide one property on /repo's current tree
  run.py <ID> --replay FILE           re-run the case(s) of a replay file, verbosely
  run.py <ID> [tier] --case N         run a single case with tracing
  run.py --build-all                  build every variant and harness (smoke test)

Exit 0: held on everything explored.  Exit 1: VIOLATION line printed.
Exit 2: no answer (build failure, harness failure, too little observed).
"""
import concurrent.futures, fcntl, hashlib, json, os, queue, re, shutil, signal, subprocess, sys, tempfile, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD") or os.path.join(HERE, "build")
OUT = os.path.join(HERE, "out")
sys.path.insert(0, HERE)
from checks import CHECKS  # noqa: E402

NCPU = os.cpu_count() or 8
COMMON = ["-g1", "-fno-omit-frame-pointer", "-pthread", "-Wno-everything"]
VARIANTS = {
    # as shipped: Release, asserts off, plus address and undefined behaviour sanitizers
    # (without the undefined-behaviour checks that double the compile time; dbg has them)
    "asan": dict(flags=["-O1", "-DNDEBUG", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                        "-fno-sanitize=vptr,function,alignment,null,object-size,pointer-overflow"], bt="Release"),
    # debug assertions of the library on (used by thorough runs)
    "dbg": dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=all",
                       "-fno-sanitize=vptr,function,alignment"], bt="Debug"),
    "tsan": dict(flags=["-O1", "-DNDEBUG", "-fsanitize=thread"], bt="Release"),
}
ENV_SAN = {
    "ASAN_OPTIONS": "abort_on_error=0:exitcode=86:detect_leaks=0:allocator_may_return_null=0:hard_rss_limit_mb=6000:detect_stack_use_after_return=1:strict_init_order=0:handle_abort=0",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=86",
    "TSAN_OPTIONS": "halt_on_error=0:exitcode=87:second_deadlock_stack=1:history_size=4:report_thread_leaks=0:report_signal_unsafe=0",
}


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class NoAnswer(Exception):
    pass


# ---------------------------------------------------------------- building
def tree_hash():
    h = hashlib.sha256()
    roots = ["tpie", "cmake_modules", "CMakeLists.txt"]
    files = []
    for r in roots:
        p = os.path.join(REPO, r)
        if os.path.isfile(p):
            files.append(p)
        for d, dn, fn in os.walk(p):
            dn[:] = [x for x in dn if x not in ("deadcode", ".git")]
            files += [os.path.join(d, f) for f in fn]
    for f in sorted(files):
        h.update(os.path.relpath(f, REPO).encode() + b"\0")
        with open(f, "rb") as fh:
            h.update(fh.read())
        h.update(b"\0")
    return h.hexdigest()[:16]


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", **kw)


def build(variant, sources, wraps, extra, name):
    """Build libtpie in this variant and link the harness; returns the binary."""
    os.makedirs(BUILD, exist_ok=True)
    th = tree_hash()
    vd = os.path.join(BUILD, variant)
    v = VARIANTS[variant]
    flags = v["flags"] + COMMON
    env = dict(os.environ, LC_ALL="C.UTF-8", CC="clang", CXX="clang++")
    for k in ("CFLAGS", "CXXFLAGS", "CPPFLAGS", "LDFLAGS"):
        env.pop(k, None)
    ccache = shutil.which("ccache")
    launcher = []
    if ccache:
        env.update(CCACHE_DIR=os.path.join(BUILD, "ccache"), CCACHE_MAXSIZE="4G", CCACHE_NOHASHDIR="1")
        launcher = [ccache]
    lock = open(os.path.join(BUILD, variant + ".lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stamp = os.path.join(vd, "vf.stamp")
        want = th + " " + REPO + " " + " ".join(flags)
        have = open(stamp).read() if os.path.exists(stamp) else ""
        fresh = have == want
        if not fresh:
            shutil.rmtree(vd, ignore_errors=True)
            cm = ["cmake", "-S", REPO, "-B", vd, "-G", "Ninja", "-Wno-dev",
                  "-DCMAKE_BUILD_TYPE=" + v["bt"],
                  "-DCMAKE_CXX_FLAGS_%s=%s" % (v["bt"].upper(), " ".join(flags)),
                  "-DTPIE_USE_GIT_COMMIT=OFF", "-DTPL_LOGGING=ON", "-DTPIE_PARALLEL_SORT=ON",
                  "-DTPIE_USE_SNAPPY=ON", "-DTPIE_USE_LZ4=ON", "-DTPIE_USE_ZSTD=ON", "-DCOMPILE_TEST=OFF"]
            # Nothing under /repo may steer the build: CMakeLists.txt sets flags itself, so pass ours by name
            cm.append("-DTPIE_NDEBUG=" + ("ON" if "-DNDEBUG" in flags else "OFF"))
            if ccache:
                cm.append("-DCMAKE_CXX_COMPILER_LAUNCHER=" + ccache)
            r = sh(cm, env=env)
            if r.returncode:
                raise NoAnswer("cmake failed:\n" + r.stdout[-3000:])
        jobs = [lambda: sh(["ninja", "-C", vd, "tpie"], env=env)] if not fresh else []
        hd = os.path.join(vd, "h_" + name)
        os.makedirs(hd, exist_ok=True)
        objs = []
        incs = ["-I" + REPO, "-I" + vd, "-I" + os.path.join(vd, "tpie"), "-I" + os.path.join(HERE, "harness")]

        def compile_one(src):
            obj = os.path.join(hd, os.path.basename(src) + ".o")
            cmd = launcher + ["clang++", "-std=c++17"] + flags + extra + ["-DVF_VARIANT_" + variant.upper()] + incs + ["-c", os.path.join(HERE, "harness", src), "-o", obj]
            return sh(cmd, env=env), obj

        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            libf = [ex.submit(j) for j in jobs]
            hf = [ex.submit(compile_one, s) for s in sources]
            for f in libf:
                r = f.result()
                if r.returncode:
                    raise NoAnswer("library build failed:\n" + r.stdout[-4000:])
            for f in hf:
                r, o = f.result()
                if r.returncode:
                    raise NoAnswer("harness build failed:\n" + r.stdout[-6000:])
                objs.append(o)
        exe = os.path.join(hd, name)
        link = ["clang++"] + flags + objs + ["-Wl,--wrap=" + w for w in wraps] + \
               [os.path.join(vd, "tpie", "libtpie.a"), "-o", exe,
                "-lboost_date_time", "-lboost_filesystem", "-lboost_system", "-lboost_thread",
                "-lsnappy", "-llz4", "-lzstd", "-pthread"]
        r = sh(link, env=env)
        if r.returncode:
            raise NoAnswer("link failed:\n" + r.stdout[-4000:])
        if not fresh:
            with open(stamp, "w") as f:
                f.write(want)
        return exe
    finally:
        lock.close()


# ---------------------------------------------------------------- crash reports
def frames(text):
    """function names of the first stack in a sanitizer report, /repo frames first"""
    out = []
    for m in re.finditer(r"^\s*#\d+ (?:0x[0-9a-f]+ in )?(.+?) (/\S+?)(?::\d+)*(?:\s|$)", text, re.M):
        fn, path = m.group(1), m.group(2)
        if path.startswith(REPO + "/"):
            fn = re.sub(r"\(.*", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", re.sub(r"<[^<>]*>", "", fn))))
            out.append(fn.strip().split(" ")[-1])
    return out


def crash_key(rc, err):
    m = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", err)
    if m:
        return "asan:%s:%s" % (m.group(1), (frames(err[m.start():]) or ["?"])[0])
    m = re.search(r"runtime error: ([^\n]+)", err)
    if m:
        w = re.sub(r"0x[0-9a-f]+|\d+", "N", m.group(1))[:60]
        return "ubsan:%s:%s" % (w, (frames(err[m.start():]) or ["?"])[0])
    m = re.search(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", err)
    if m:
        return tsan_key(err[m.start():])
    m = re.search(r"terminate called after throwing an instance of '([^']+)'|terminating due to uncaught exception of type ([\w:]+)", err)
    if m:
        return "terminate:" + (m.group(1) or m.group(2))
    if rc < 0:
        try:
            return "signal:" + signal.Signals(-rc).name
        except ValueError:
            return "signal:%d" % -rc
    return "exit:%d" % rc


def tsan_blocks(err):
    return [b for b in re.findall(r"WARNING: ThreadSanitizer: .*?\n={10,}", err, re.S)] or \
        re.findall(r"WARNING: ThreadSanitizer: .*", err, re.S)


def tsan_key(block):
    kind = re.match(r"(?:WARNING: ThreadSanitizer: )?([\w -]+)", block)
    kind = kind.group(1).strip() if kind else "report"
    m = re.match(r"WARNING: ThreadSanitizer: ([\w -]+?) \(", block)
    if m:
        kind = m.group(1).replace(" ", "-")
    parts = re.split(r"\n\n|\n  (?=Previous|Location|Thread|Mutex|As if)", block)
    tops = []
    for p in parts[:3]:
        f = frames(p)
        if f:
            tops.append(f[0])
    return "tsan:%s:%s" % (kind, "|".join(sorted(set(tops[:2]))) or "?")


# ---------------------------------------------------------------- running
class Lane:
    def __init__(self):
        self.counters, self.sigs, self.samples, self.viols, self.done = {}, set(), [], [], 0
        self.problem = None


def merge_counter(d, k, n):
    d[k] = max(d.get(k, 0), n) if k.startswith("max_") else d.get(k, 0) + n


def cpu_time(pid):
    """CPU seconds used so far by all threads of a process this program started"""
    try:
        with open("/proc/%d/stat" % pid) as f:
            w = f.read().rsplit(")", 1)[1].split()
        return (int(w[11]) + int(w[12])) / os.sysconf("SC_CLK_TCK")
    except (OSError, IndexError, ValueError):
        return 0.0


def run_proc(exe, cfg, pid, seed, tier, start, step, count, scratch, timeout, trace=False, stop=None):
    """one process; returns (status, last_idx, data) with status in done/crash/hang/deadlock/stopped"""
    env = dict(os.environ)
    for k in ("TMP", "TEMP", "TEMPDIR", "AMI_SINGLE_DEVICE", "TPIE_BLOCK_SIZE"):
        env.pop(k, None)
    env.update(ENV_SAN)
    env["ASAN_SYMBOLIZER_PATH"] = shutil.which("llvm-symbolizer") or shutil.which("llvm-symbolizer-18") or ""
    if env["ASAN_SYMBOLIZER_PATH"]:
        env["TSAN_OPTIONS"] += ":external_symbolizer_path=" + env["ASAN_SYMBOLIZER_PATH"]
    supp = os.path.join(HERE, "harness", "tsan.supp")
    if os.path.exists(supp):
        env["TSAN_OPTIONS"] += ":suppressions=" + supp
    env.update(cfg.get("env", {}))
    errp = scratch + ".err"
    args = [exe, "--seed", str(seed), "--prop", pid, "--start", str(start), "--step", str(step),
            "--count", str(count), "--scratch", scratch, "--tier", tier] + (["--trace"] if trace else [])
    with open(errp, "wb") as ef:
        p = subprocess.Popen(args, stdout=subprocess.PIPE, stderr=None if trace else ef, env=env, start_new_session=True,
                             stdin=subprocess.DEVNULL, cwd=os.path.dirname(scratch))
    q = queue.Queue()

    def reader():
        for line in p.stdout:
            q.put(line.decode("utf-8", "replace").rstrip("\n"))
        q.put(None)
    threading.Thread(target=reader, daemon=True).start()
    lane = Lane()
    last, finished, teardown = start, False, False
    hang, idle = None, False
    silent, cpu0 = 0, cpu_time(p.pid)
    while True:
        try:
            line = q.get(timeout=1)
        except queue.Empty:
            # counted in slices, so that a pause of the whole machine is not taken for a hang
            silent += 1
            if stop is not None and stop.is_set():
                hang = "stopped"
                break
            if silent < timeout:
                continue
            # Without output for all this time: did it at least compute?
            hang = "hang" if cpu_time(p.pid) - cpu0 > 0.04 * timeout else "deadlock"
            break
        if silent:
            silent = 0
        if line is not None and line.startswith("B "):
            cpu0 = cpu_time(p.pid)
            if stop is not None and stop.is_set():
                hang = "stopped"
                break
        if line is None:
            break
        t, _, rest = line.partition(" ")
        if t == "B":
            last = int(rest)
            lane.done += 1
        elif t == "V":
            idx, key, msg = (rest.split("\t", 2) + ["", ""])[:3]
            lane.viols.append(dict(case=int(idx), key=key, msg=msg))
        elif t == "S":
            lane.sigs.add(rest)
        elif t == "X":
            lane.samples.append(rest)
        elif t == "C":
            k, n = rest.rsplit(" ", 1)
            merge_counter(lane.counters, k, int(n))
        elif t == "T":
            teardown = True
        elif t == "DONE":
            finished = True
    stack = ""
    if hang in ("hang", "deadlock"):
        if shutil.which("gdb") and cfg.get("gdb", True):
            try:
                stack = sh(["gdb", "-p", str(p.pid), "-batch", "-ex", "thread apply all bt 12"], timeout=60).stdout[-6000:]
            except Exception:
                pass
    try:
        os.killpg(p.pid, signal.SIGKILL) if hang else None
    except ProcessLookupError:
        pass
    rc = p.wait()
    try:
        os.killpg(p.pid, signal.SIGKILL)  # stray children
    except (ProcessLookupError, PermissionError):
        pass
    err = ""
    if os.path.exists(errp):
        with open(errp, "rb") as f:
            err = f.read()[-400000:].decode("utf-8", "replace")
        os.unlink(errp)
    shutil.rmtree(scratch, ignore_errors=True)
    if hang:
        return hang, last, lane, rc, err + stack, teardown
    if finished and rc in (0, 87):
        return "done", last, lane, rc, err, teardown
    return "crash", last, lane, rc, err, teardown


def run_lane(exe, cfg, pid, seed, tier, laneno, lanes, total, tmp, vname, halt, known):
    """halt is set as soon as one lane has a violation that is not a known finding"""
    res = Lane()
    try:
        return run_lane_(res, exe, cfg, pid, seed, tier, laneno, lanes, total, tmp, vname, halt, known)
    finally:
        if not all(known(v["key"]) for v in res.viols):
            halt.set()


def run_lane_(res, exe, cfg, pid, seed, tier, laneno, lanes, total, tmp, vname, halt, known):
    idx, stop = laneno, total
    crashes = 0
    att = 0
    timeout = cfg.get("timeout", 100)
    kills = 0
    while idx < stop:
        cnt = (stop - idx + lanes - 1) // lanes
        cnt = min(cnt, cfg.get("batch", 10 ** 9))
        att += 1
        status, last, data, rc, err, tdown = run_proc(exe, cfg, pid, seed, tier, idx, lanes, cnt,
                                                      os.path.join(tmp, "l%d_%d" % (laneno, att)), timeout, stop=halt)
        res.done += data.done
        res.sigs |= data.sigs
        res.samples += data.samples
        for k, n in data.counters.items():
            merge_counter(res.counters, k, n)
        for v in data.viols:
            v["variant"] = vname
            res.viols.append(v)
        for b in tsan_blocks(err) if vname == "tsan" else []:
            res.viols.append(dict(case=last, key=tsan_key(b), msg="ThreadSanitizer report", report=b[:6000], variant=vname))
        if not all(known(v["key"]) for v in res.viols):
            halt.set()
        if status == "stopped":
            res.counters["lanes_cut_short"] = 1
            return res
        if status == "done":
            idx = idx + cnt * lanes
        elif status == "crash":
            if rc == -9:  # ended from outside (memory): no verdict; try again once
                kills += 1
                if kills > 1:
                    res.problem = "process killed from outside twice near case %d" % last
                    return res
                idx = last
                continue
            if rc == 99:
                res.problem = "harness failure at case %d: %s" % (last, err[-1500:])
                return res
            crashes += 1
            if not (vname == "tsan" and tsan_blocks(err) and rc == 87):
                res.viols.append(dict(case=last, key="crash:" + crash_key(rc, err), variant=vname,
                                      msg=("during teardown after " if tdown else "") + "process died (rc=%d)" % rc, report=err[-7000:]))
            idx = last + lanes
        elif status == "deadlock":  # no output and no computation: the threads wait for each other
            res.viols.append(dict(case=last, key="deadlock", variant=vname, msg="all threads asleep for %d s" % timeout, report=err[-7000:]))
            crashes += 1
            halt.set()
            idx = last + lanes
        else:  # hang: once more, alone, with a longer limit
            s2, l2, d2, rc2, err2, _ = run_proc(exe, cfg, pid, seed, tier, last, 1, 1,
                                                os.path.join(tmp, "l%d_%dh" % (laneno, att)), int(timeout * 1.3))
            if s2 in ("hang", "deadlock"):
                res.viols.append(dict(case=last, key="hang", variant=vname, msg="no progress in case (twice)", report=err2[-7000:]))
                crashes += 1
            elif s2 == "crash" and rc2 not in (-9, 99):
                res.viols.append(dict(case=last, key="crash:" + crash_key(rc2, err2), variant=vname, msg="process died (rc=%d)" % rc2, report=err2[-7000:]))
                crashes += 1
            else:
                res.viols += [dict(v, variant=vname) for v in d2.viols]
                res.counters["slow_retries"] = res.counters.get("slow_retries", 0) + 1
            idx = last + lanes
        if crashes >= 2 or len(res.viols) >= 6:
            res.counters["lanes_cut_short"] = 1
            return res
    return res


def known_findings(pid):
    out = []
    p = os.path.join(HERE, "known_findings.jsonl")
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line and not line.startswith("#"):
                d = json.loads(line)
                if d.get("property") == pid and d.get("status") == "open":
                    out.append(d)
    return out


def check(pid, tier, seed, only=None, trace=False, vsel=None):
    cfg = CHECKS[pid]
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="vf_%s_" % pid, dir=os.environ.get("VERIF_TMP", "/tmp"))
    runs = []
    try:
        plan = cfg["thorough"] if tier == "thorough" else cfg["quick"]
        agg, sigs, samples, viols, evals = {}, set(), [], [], 0
        kf = known_findings(pid)
        known = lambda key: any(re.fullmatch(d["key"], key) for d in kf)
        halt = threading.Event()
        plan = [p for p in plan if not vsel or p[0] == vsel]
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            exes = {}
            for (vname, harness, total) in plan:
                h = cfg["harnesses"][harness]
                if (vname, harness) not in exes:
                    exes[vname, harness] = ex.submit(build, vname, h["src"], h.get("wrap", []), h.get("flags", []), harness)
            exes = {k: f.result() for k, f in exes.items()}
        log("built in %.1fs" % (time.time() - t0))
        for (vname, harness, total) in plan:
            h = dict(cfg["harnesses"][harness])
            exe = exes[vname, harness]
            tb = time.time()
            if only is not None:
                for i in only:
                    s = run_proc(exe, h, pid, seed, tier, i, 1, 1, os.path.join(tmp, "one"), 600, trace)
                    log(s[0], "rc", s[3], [v["key"] + ": " + v["msg"] for v in s[2].viols], s[4][-6000:])
                    viols += s[2].viols
                    if s[0] != "done":
                        viols.append(dict(case=i, key="crash:" + crash_key(s[3], s[4]), msg=s[0]))
                continue
            lanes = min(h.get("procs", NCPU), total)
            scale = float(os.environ.get("VERIF_SCALE", "1"))
            total = max(lanes, int(total * scale))
            with concurrent.futures.ThreadPoolExecutor(max_workers=lanes) as ex:
                fs = [ex.submit(run_lane, exe, h, pid, seed, tier, l, lanes, total, tmp, vname, halt, known) for l in range(lanes)]
                rs = [f.result() for f in fs]
            for r in rs:
                if r.problem:
                    raise NoAnswer(r.problem)
                evals += r.done
                sigs |= {vname + harness + s for s in r.sigs}
                samples += r.samples[:2]
                for v in r.viols:
                    v["harness"] = harness
                    viols.append(v)
                for k, n in r.counters.items():
                    merge_counter(agg, k, n)
            runs.append(dict(variant=vname, harness=harness, cases=sum(r.done for r in rs), run_s=round(time.time() - tb, 1)))
            if halt.is_set():
                break
        if only is not None:
            return 1 if viols else 0
        # the run must have observed what the monitor needs
        new, seen = [], {}
        for v in viols:
            m = [d for d in kf if re.fullmatch(d["key"], v["key"])]
            if m:
                seen[m[0]["id"]] = seen.get(m[0]["id"], 0) + 1
            elif v["key"] not in [n["key"] for n in new]:
                new.append(v)
        missing = [c for c in cfg.get("require", []) if not agg.get(c)] if not new else []
        ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "exploration"),
                  coverage=dict(evaluations=evals, distinct_nontrivial=len(sigs), rule=cfg["rule"],
                                samples=samples[:8], monitors=agg, runs=runs),
                  assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 1), violations=len(new))
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        with open(os.path.join(HERE, "evidence", pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for d in kf:
            print("KNOWN-FINDING: property=%s %s (%s)" % (pid, d["what"], "observed %d times" % seen[d["id"]] if d["id"] in seen else "listed"))
        if new:
            os.makedirs(OUT, exist_ok=True)
            for i, v in enumerate(new[:5]):
                rp = os.path.join(OUT, "%s_%s_%d.json" % (pid, tier, i))
                with open(rp, "w") as f:
                    json.dump(dict(property=pid, tier=tier, seed=seed, **v, rerun="python3 run.py %s --replay %s" % (pid, rp)), f, indent=1)
                log("violation %s case %s: %s" % (v["key"], v["case"], v["msg"][:1500]))
                if v.get("report"):
                    log(v["report"][:2500])
                print("VIOLATION property=%s replay=%s" % (pid, rp), flush=True)
            return 1
        if missing:
            raise NoAnswer("monitors never saw: " + ", ".join(missing))
        if len(sigs) < 2:
            raise NoAnswer("fewer than two distinct non-trivial cases")
        print("OK property=%s tier=%s cases=%d distinct=%d wall=%.1fs" % (pid, tier, evals, len(sigs), time.time() - t0))
        log(json.dumps(agg))
        return 0
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def main():
    a = sys.argv[1:]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if a and a[0] == "--build-all":
        for pid, cfg in CHECKS.items():
            for (v, h, _) in cfg["quick"] + cfg["thorough"]:
                c = cfg["harnesses"][h]
                build(v, c["src"], c.get("wrap", []), c.get("flags", []), h)
        return 0
    if a and a[0] == "--self-test":
        # the toolchain the checks need is present and its sanitizers fire
        for t in ("clang++", "cmake", "ninja"):
            if not shutil.which(t):
                raise NoAnswer("missing tool " + t)
        with tempfile.TemporaryDirectory(prefix="vf_self_") as d:
            for flag, body in (("address", "int*p=new int[2];p[c+1]=1;"), ("undefined", "int x=0x7fffffff;x+=c;"),
                               ("thread", "int v=0;std::thread t([&]{v++;});v++;t.join();")):
                src = os.path.join(d, flag + ".cpp")
                open(src, "w").write("#include <thread>\n#include <stdio.h>\nint main(int c,char**){%s;puts(\"x\");}" % body)
                if sh(["clang++", "-O0", "-fsanitize=" + flag, "-fno-sanitize-recover=all", src, "-o", src + ".x", "-pthread"]).returncode:
                    raise NoAnswer("cannot compile with -fsanitize=" + flag)
                if sh([src + ".x"]).returncode == 0:
                    raise NoAnswer("-fsanitize=%s did not report a planted error" % flag)
        print("self-test ok")
        return 0
    pid = a[0]
    tier = next((x for x in a[1:] if x in ("quick", "thorough")), os.environ.get("VERIF_TIER", "quick"))
    if "--replay" in a:
        d = json.load(open(a[a.index("--replay") + 1]))
        return check(pid, d["tier"], d["seed"], only=[d["case"]], trace=True, vsel=d.get("variant"))
    if "--case" in a:
        return check(pid, tier, seed, only=[int(a[a.index("--case") + 1])], trace=True)
    return check(pid, tier, seed)


if __name__ == "__main__":
    try:
        sys.exit(main())
    except NoAnswer as e:
        log("NO ANSWER: %s" % e)
        sys.exit(2)
    except Exception:
        import traceback
        traceback.print_exc()
        sys.exit(2)
