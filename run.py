#!/usr/bin/env python3
"""Driver of the property checks.

  run.py C01              run the check of C01 (VERIF_SEED, VERIF_TIER=quick|thorough from the environment)
  run.py C01 --replay F   re-run a replay file written by a violation
  run.py --setup          compile the library variants once

Each check compiles /repo/src afresh (content-addressed under build/), runs a generated-input campaign in several
worker processes, confirms any failure by replaying its recorded choices, shrinks it, writes a replay file and
prints the VIOLATION line. Nothing outside /verif/build, /verif/evidence and /verif/replays is written."""
import concurrent.futures as cf
import fcntl, glob, hashlib, json, mmap, os, shutil, signal, struct, subprocess, sys, tempfile, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
BUILD = os.path.join(HERE, "build")
HARNESS = os.path.join(HERE, "harness")
sys.path.insert(0, HERE)

COMMON = ["-std=c++17", "-pthread", "-g1", "-D_CGRAPH_SILENCE_", "-D_ENABLE_LIKELY_", "-I" + SRC, "-I" + HARNESS, "-w"]
VARIANTS = {
    "plain": ["g++", "-O2"],
    "asan": ["g++", "-O1", "-fsanitize=address", "-fno-omit-frame-pointer"],
    "ubsan": ["clang++", "-O1", "-fsanitize=address,undefined", "-fno-sanitize=vptr,function,alignment",
              "-fno-sanitize-recover=all", "-fno-omit-frame-pointer"],
    "tsan": ["clang++", "-O1", "-fsanitize=thread"],
}
ENV = dict(os.environ)
ENV.update({
    "ASAN_OPTIONS": "detect_leaks=0:exitcode=99:abort_on_error=0:detect_stack_use_after_return=0:handle_abort=1:allocator_may_return_null=1",
    "UBSAN_OPTIONS": "print_stacktrace=1:exitcode=99",
    "TSAN_OPTIONS": "exitcode=99:halt_on_error=1:report_thread_leaks=0:second_deadlock_stack=1:suppressions=" + os.path.join(HARNESS, "tsan.supp"),
})
for k in ("CFLAGS", "CXXFLAGS", "LDFLAGS", "CPATH"):
    ENV.pop(k, None)


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=ENV, **kw)


def tree_hash(root, extra=""):
    h = hashlib.sha256(extra.encode())
    for d, dirs, files in sorted(os.walk(root)):
        dirs.sort()
        for f in sorted(files):
            p = os.path.join(d, f)
            h.update(os.path.relpath(p, root).encode())
            with open(p, "rb") as fh:
                h.update(fh.read())
    return h.hexdigest()[:16]


class Lock:
    def __init__(self, name):
        os.makedirs(BUILD, exist_ok=True)
        self.f = open(os.path.join(BUILD, name + ".lock"), "w")

    def __enter__(self):
        fcntl.flock(self.f, fcntl.LOCK_EX)

    def __exit__(self, *a):
        fcntl.flock(self.f, fcntl.LOCK_UN)


def prune(prefix, keep):
    ds = sorted(glob.glob(os.path.join(BUILD, prefix + "*")), key=os.path.getmtime)
    ds = [d for d in ds if not d.endswith(".lock")]
    for d in ds[:-keep]:
        shutil.rmtree(d, ignore_errors=True) if os.path.isdir(d) else os.unlink(d)


def compile_many(jobs):
    """jobs: list of (cmd, out). Returns list of failing outputs."""
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 8) as ex:
        rs = list(ex.map(lambda j: sh(j), jobs))
    return [r.stdout.decode(errors="replace") for r in rs if r.returncode != 0]


def lib_jobs(variant, d, unity=True):
    srcs = sorted(glob.glob(SRC + "/**/*.cpp", recursive=True))
    if unity:
        sizes = sorted(((os.path.getsize(s), s) for s in srcs), reverse=True)
        n = 8
        bins = [[0, []] for _ in range(n)]
        for sz, s in sizes:
            b = min(bins, key=lambda x: x[0])
            b[0] += sz + 6000
            b[1].append(s)
        units = []
        for i, (_, ss) in enumerate(bins):
            if not ss:
                continue
            u = os.path.join(d, "u%d.cpp" % i)
            with open(u, "w") as f:
                for s in sorted(ss):
                    f.write('#include "%s"\n' % s)
            units.append(u)
    else:
        units = srcs
    jobs, objs = [], []
    for i, u in enumerate(units):
        o = os.path.join(d, "%s%d.o" % ("u" if unity else "s", i))
        jobs.append(VARIANTS[variant] + COMMON + ["-c", u, "-o", o])
        objs.append(o)
    return jobs, objs


class BuildError(Exception):
    pass


def build(variants, harness_src):
    """Compile library variants and the harness against each; returns {variant: binary}."""
    src_hash = tree_hash(SRC, "v3")
    har_hash = tree_hash(HARNESS)
    out = {}
    with Lock("build"):
        todo, jobs = [], []
        for v in variants:
            flags = hashlib.sha256(" ".join(VARIANTS[v] + COMMON).encode()).hexdigest()[:6]
            ld = os.path.join(BUILD, "lib-%s-%s-%s" % (v, src_hash, flags))
            lib = os.path.join(ld, "libcg.a")
            need_lib = not os.path.exists(lib)
            binp = None
            if harness_src:
                bd = os.path.join(BUILD, "bin-%s-%s-%s-%s" % (v, src_hash, har_hash, flags))
                os.makedirs(bd, exist_ok=True)
                os.utime(bd)
                binp = os.path.join(bd, os.path.splitext(harness_src)[0])
                out[v] = binp
                if os.path.exists(binp):
                    os.utime(bd)
                    continue
            objs = []
            if need_lib:
                os.makedirs(ld, exist_ok=True)
                j, objs = lib_jobs(v, ld)
                jobs += j
            ho = None
            if harness_src:
                ho = binp + ".o"
                jobs.append(VARIANTS[v] + COMMON + ["-c", os.path.join(HARNESS, harness_src), "-o", ho])
            todo.append((v, ld, lib, need_lib, objs, ho, binp))
        errs = compile_many(jobs)
        if errs:
            # refactorings may make translation units clash when merged: fall back to one unit per file
            jobs2, todo2 = [], []
            for (v, ld, lib, need_lib, objs, ho, binp) in todo:
                if need_lib:
                    j, objs = lib_jobs(v, ld, unity=False)
                    jobs2 += j
                if ho:
                    jobs2.append(VARIANTS[v] + COMMON + ["-c", os.path.join(HARNESS, harness_src), "-o", ho])
                todo2.append((v, ld, lib, need_lib, objs, ho, binp))
            todo = todo2
            errs = compile_many(jobs2)
            if errs:
                raise BuildError(errs[0][:6000])
        link = []
        for (v, ld, lib, need_lib, objs, ho, binp) in todo:
            if need_lib:
                if sh(["ar", "rcs", lib + ".tmp"] + objs).returncode != 0:
                    raise BuildError("ar failed")
                os.rename(lib + ".tmp", lib)
                for o in objs:
                    os.unlink(o)
            if ho:
                link.append(VARIANTS[v] + ["-pthread", ho, "-Wl,--whole-archive", lib, "-Wl,--no-whole-archive", "-o", binp])
        errs = compile_many(link)
        if errs:
            raise BuildError(errs[0][:6000])
        prune("lib-", 10)
        prune("bin-", 14)
    return out


SHM_HEAD = struct.Struct("<QQII")


def read_shm(path):
    try:
        with open(path, "rb") as f:
            b = f.read()
        ci, done, n, running = SHM_HEAD.unpack_from(b, 0)
        off = SHM_HEAD.size
        msg = b[off:off + 4096].split(b"\0")[0].decode(errors="replace")
        desc = b[off + 4096:off + 4096 + 32768].split(b"\0")[0].decode(errors="replace")
        coff = off + 4096 + 32768
        n = min(n, 1 << 17)
        choices = list(struct.unpack_from("<%dI" % n, b, coff))
        return dict(index=ci, done=done, running=running, msg=msg, desc=desc, choices=choices)
    except Exception as e:
        return dict(index=0, done=0, running=0, msg="shm unreadable %s" % e, desc="", choices=[])


def describe_rc(rc):
    if rc is None:
        return "timeout"
    if rc < 0:
        try:
            return "killed by " + signal.Signals(-rc).name
        except ValueError:
            return "killed by signal %d" % -rc
    return {10: "property failed", 11: "hang", 99: "sanitizer report", 0: "ok"}.get(rc, "exit %d" % rc)


def tail(path, n=2500):
    try:
        with open(path, "rb") as f:
            b = f.read()
        t = b.decode(errors="replace")
        i = t.find("==ERROR: AddressSanitizer")
        if i < 0:
            i = t.find("runtime error:")
        if i < 0:
            i = t.find("WARNING: ThreadSanitizer")
        if i >= 0:
            return t[max(0, i - 200):i + n]
        return t[-n:]
    except OSError:
        return ""


class Campaign:
    def __init__(self, pid, cfg, tier, seed, tmp):
        self.pid, self.cfg, self.tier, self.seed, self.tmp = pid, cfg, tier, seed, tmp
        t = cfg["quick"] if tier == "quick" else cfg.get("thorough") or dict(
            cases=cfg["quick"]["cases"] * 15, budget=600)
        self.cases, self.budget = t["cases"], t["budget"]
        self.hang = cfg.get("hang", 30)
        self.stats = dict(evaluations=0, hashes=set(), nontrivial_total=0, labels={}, samples=[])
        self.n = 0

    def run_replay(self, binp, choices, repeat, budget, hang):
        self.n += 1
        base = os.path.join(self.tmp, "r%d" % self.n)
        with open(base + ".choices", "w") as f:
            f.write(" ".join(map(str, choices)))
        with open(base + ".log", "wb") as log:
            try:
                p = subprocess.run([binp, "--replay", base + ".choices", "--repeat", str(repeat), "--budget", str(budget),
                                    "--hang", str(hang), "--shm", base + ".shm"], stdout=log, stderr=log,
                                   env=ENV, cwd=self.tmp, timeout=budget + hang + 60)
                rc = p.returncode
            except subprocess.TimeoutExpired:
                rc = 11
        s = read_shm(base + ".shm")
        out = tail(base + ".log")
        for e in (".choices", ".log", ".shm"):
            try:
                os.unlink(base + e)
            except OSError:
                pass
        return rc, s, out

    def collect(self, path):
        try:
            d = json.load(open(path))
        except Exception:
            return
        st = self.stats
        st["evaluations"] += d["evaluations"]
        st["nontrivial_total"] += d["nontrivial_total"]
        st["hashes"].update(d["hashes"])
        for k, v in d["labels"].items():
            st["labels"][k] = st["labels"].get(k, 0) + v
        for s in d["samples"]:
            if len(st["samples"]) < 6:
                st["samples"].append(s)
        os.unlink(path)

    def explore(self, bins):
        """Run the workers; returns a list of failures [(variant, rc, shm, log)], possibly empty."""
        weights = self.cfg["variants"]
        slots = []
        for v, w in weights.items():
            slots += [v] * w
        W = len(slots)
        t0 = time.time()
        nexts = {w: w for w in range(W)}
        unconfirmed = []
        while nexts:
            left = max(2.0, self.budget - (time.time() - t0))
            procs = {}
            for w in list(nexts):
                v = slots[w]
                base = os.path.join(self.tmp, "w%d" % w)
                for e in (".shm", ".stats"):
                    if os.path.exists(base + e):
                        os.unlink(base + e)
                log = open(base + ".log", "wb")
                p = subprocess.Popen([bins[v], "--seed", str(self.seed), "--worker", str(nexts[w]), "--workers", str(W),
                                      "--cases", str(self.cases), "--budget", "%.1f" % left, "--hang", str(self.hang),
                                      "--shm", base + ".shm", "--stats", base + ".stats"],
                                     stdout=log, stderr=log, env=ENV, cwd=self.tmp)
                procs[w] = (p, base, log)
            failed = []
            limit = time.time() + left + self.hang + 120
            while procs:
                for w in list(procs):
                    p, base, log = procs[w]
                    rc = p.poll()
                    if rc is None and time.time() > limit:
                        p.kill()
                        p.wait()
                        rc = 11
                    if rc is None:
                        continue
                    log.close()
                    del procs[w]
                    if rc == 0:
                        self.collect(base + ".stats")
                        nexts.pop(w, None)
                    else:
                        s = read_shm(base + ".shm")
                        failed.append((slots[w], rc, s, tail(base + ".log")))
                        self.stats["evaluations"] += s["done"] + 1
                        nexts[w] = s["index"] + W
                if failed:
                    # give near-simultaneous failures a moment, then stop the rest
                    time.sleep(0.3)
                    for w in list(procs):
                        p, base, log = procs[w]
                        rc = p.poll()
                        if rc is None:
                            p.kill()
                            p.wait()
                            s = read_shm(base + ".shm")
                            nexts[w] = s["index"]
                            self.stats["evaluations"] += s["done"]
                        elif rc == 0:
                            self.collect(base + ".stats")
                            nexts.pop(w, None)
                        else:
                            s = read_shm(base + ".shm")
                            failed.append((slots[w], rc, s, tail(base + ".log")))
                            self.stats["evaluations"] += s["done"] + 1
                            nexts[w] = s["index"] + W
                        log.close()
                    procs = {}
                time.sleep(0.02)
            failed.sort(key=lambda f: (f[1] == 11, len(f[2]["choices"])))
            for f in failed[:4]:
                c = self.confirm(bins, f)
                if c:
                    return c, unconfirmed
                unconfirmed.append(f)
                os.makedirs(os.path.join(BUILD, "unconfirmed"), exist_ok=True)
                with open(os.path.join(BUILD, "unconfirmed", "%s-%s-%d.json" % (self.pid, os.path.basename(bins[f[0]]), os.getpid())), "w") as uf:
                    json.dump(dict(variant=f[0], rc=f[1], message=f[2]["msg"], description=f[2]["desc"], choices=f[2]["choices"], log=f[3]), uf, indent=1)
                print("note: a failure did not reproduce in 3 replay rounds: %s: %s" % (describe_rc(f[1]), f[2]["msg"][:300]))
                if len(unconfirmed) >= 3:
                    # three independent failures of the same check: not a glitch, even if each is schedule dependent
                    return f + (0,), unconfirmed
            if time.time() - t0 > self.budget:
                break
        return None, unconfirmed

    def confirm(self, bins, f):
        v, rc, s, log = f
        hang = max(self.hang, 40) if rc == 11 else self.hang
        hits = 0
        with cf.ThreadPoolExecutor(max_workers=3) as ex:
            futs = [ex.submit(self.run_replay, bins[v], s["choices"], 100000, 20, hang) for _ in range(3)]
            rs = [x.result() for x in futs]
        for r in rs:
            if r[0] != 0:
                hits += 1
                last = r
        if hits:
            return (v, last[0], dict(last[1], choices=s["choices"]), last[2], hits)
        return None

    def shrink(self, binp, choices, hang_case, budget):
        """Delete and lower choices while the case still fails (any failure)."""
        t0 = time.time()
        best = list(choices)
        per = dict(repeat=300, budget=3, hang=8 if hang_case else min(self.hang, 20))
        tried = 0

        def fails(c):
            rc, s, _ = self.run_replay(binp, c, per["repeat"], per["budget"], per["hang"])
            return rc != 0, s

        def try_batch(cands):
            nonlocal best, tried
            for i in range(0, len(cands), 8):
                if time.time() - t0 > budget:
                    return False
                grp = cands[i:i + 8]
                with cf.ThreadPoolExecutor(max_workers=8) as ex:
                    rs = list(ex.map(fails, grp))
                tried += len(grp)
                for c, (bad, s) in zip(grp, rs):
                    if bad:
                        m = s["choices"][:]   # choices really consumed
                        best = m if m and len(m) <= len(c) else c
                        return True
            return False

        improved = True
        while improved and time.time() - t0 < budget:
            improved = False
            n = len(best)
            cands = []
            k = n // 2
            while k >= 1 and len(cands) < 400:
                for st in range(n - k, -1, -k):
                    cands.append(best[:st] + best[st + k:])
                k //= 2 if k > 1 else 2
                if k == 0:
                    break
            if try_batch(cands):
                improved = True
                continue
            cands = []
            for i, x in enumerate(best):
                if x > 0:
                    cands.append(best[:i] + [0] + best[i + 1:])
                    if x > 1:
                        cands.append(best[:i] + [x // 2] + best[i + 1:])
                        cands.append(best[:i] + [x - 1] + best[i + 1:])
            if try_batch(cands):
                improved = True
        return best, tried


def load_findings(pid):
    p = os.path.join(HERE, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [x for x in json.load(open(p)) if x.get("property") == pid and x.get("status") == "known"]


def main():
    if len(sys.argv) > 1 and sys.argv[1] == "--setup":
        os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
        build(["plain", "asan", "ubsan"], None)
        print("setup ok")
        return 0
    from checks import CHECKS
    pid = sys.argv[1]
    cfg = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    if cfg.get("runner"):
        mod = __import__(cfg["runner"])
        return mod.main(pid, cfg, tier, seed, sys.argv[2:])
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    try:
        return run_cpp(pid, cfg, tier, seed, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


def write_evidence(pid, cfg, tier, seed, cov, t0, violations, extra_assumptions=()):
    ev = dict(property=pid, tier=tier, seed=seed, level=cfg.get("level", "exploration"), coverage=cov,
              assumptions=list(cfg.get("assumptions", [])) + list(extra_assumptions),
              wall_s=round(time.time() - t0, 2), violations=violations)
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    p = os.path.join(HERE, "evidence", pid + ".json")
    with open(p + ".tmp", "w") as f:
        json.dump(ev, f, indent=1)
    os.rename(p + ".tmp", p)


def run_cpp(pid, cfg, tier, seed, tmp, t0):
    try:
        bins = build(list(cfg["variants"]), cfg["src"])
    except BuildError as e:
        print("build of the check failed:\n%s" % e)
        return 3
    bt = time.time() - t0
    c = Campaign(pid, cfg, tier, seed, tmp)
    if "--replay" in sys.argv:
        r = json.load(open(sys.argv[sys.argv.index("--replay") + 1]))
        rc, s, log = c.run_replay(bins[r["variant"]], r["choices"], 100000, 20, max(c.hang, 40))
        print(s["desc"])
        print("result:", describe_rc(rc), s["msg"])
        if rc not in (0,):
            print(log)
            print("VIOLATION property=%s replay=%s" % (pid, sys.argv[sys.argv.index("--replay") + 1]))
            return 1
        return 0
    viol, unconfirmed = c.explore(bins)
    st = c.stats
    cov = dict(evaluations=st["evaluations"], distinct_nontrivial=len(st["hashes"]), rule=cfg["rule"],
               samples=(st["samples"] or ["(no sample recorded)"])[:6], classes=st["labels"],
               build_s=round(bt, 1), unreproduced_failures=len(unconfirmed), variants=cfg["variants"])
    if viol:
        v, rc, s, log, hits = viol
        print("failure found: %s: %s (reproduced in %d/3 replay rounds); shrinking" % (describe_rc(rc), s["msg"][:1500], hits))
        choices = s["choices"]
        if hits:
            best, tried = c.shrink(bins[v], choices, rc == 11, 60 if rc != 11 else 90)
            rr = None
            for _ in range(3):
                r2 = c.run_replay(bins[v], best, 3000, 6, max(c.hang, 40) if rc == 11 else c.hang)
                if r2[0] != 0:
                    rr = r2
                    break
            if rr is None:
                best = choices
            else:
                rc, s, log = rr[0], rr[1], rr[2]
        else:
            best, tried = choices, 0
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        rp = os.path.join(HERE, "replays", "%s-seed%d-%s.json" % (pid, seed, tier))
        with open(rp, "w") as f:
            json.dump(dict(property=pid, variant=v, outcome=describe_rc(rc), message=s["msg"], description=s["desc"],
                           choices=best, original_choices=choices, shrink_attempts=tried, log=log,
                           how="python3 run.py %s --replay %s" % (pid, rp)), f, indent=1)
        cov["minimal_failure"] = dict(message=s["msg"][:1500], description=s["desc"][:4000])
        write_evidence(pid, cfg, tier, seed, cov, t0, 1)
        print("minimal case:\n" + s["desc"][:3000])
        print("%s: %s" % (describe_rc(rc), s["msg"][:1500]))
        if rc not in (10, 11):
            print(log)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    write_evidence(pid, cfg, tier, seed, cov, t0, 0)
    for k in load_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: held on %d cases (%d distinct non-trivial), build %.1fs, total %.1fs%s" % (
        pid, st["evaluations"], len(st["hashes"]), bt, time.time() - t0,
        ", %d unreproduced" % len(unconfirmed) if unconfirmed else ""))
    print("classes:", json.dumps(st["labels"], sort_keys=True))
    return 0


if __name__ == "__main__":
    sys.exit(main())
