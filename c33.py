"""Runner of C33: builds the Python binding from the current tree, explores it with hypothesis in several processes."""
import concurrent.futures as cf
import glob, hashlib, json, os, shutil, subprocess, sys, tempfile, time
import run as R

PYS = ["/usr/bin/python3", sys.executable]


def build(asan=False):
    py = None
    for p in PYS:
        q = subprocess.run([p, "-c", "import sysconfig;print(sysconfig.get_paths()['include']);print(sysconfig.get_config_var('EXT_SUFFIX'))"], stdout=subprocess.PIPE)
        inc, suf = q.stdout.decode().split()
        if os.path.exists(os.path.join(inc, "Python.h")):
            py = p
            break
    if py is None:
        raise R.BuildError("no Python headers")
    h = R.tree_hash(R.SRC, "py2") + R.tree_hash(os.path.join(R.REPO, "python"))[:8]
    d = os.path.join(R.BUILD, "py-" + h + ("-asan" if asan else ""))
    so = os.path.join(d, "pycgraph" + suf)
    with R.Lock("pya" if asan else "py"):
        if os.path.exists(so):
            os.utime(d)
            return py, d
        os.makedirs(d, exist_ok=True)
        flags = ["g++", "-O1", "-std=c++11", "-pthread", "-fvisibility=hidden", "-fPIC", "-w", "-I" + R.SRC, "-I" + inc, "-I/usr/include", "-I/usr/lib/python3/dist-packages/pybind11/include"]
        san = ["-fsanitize=address", "-fno-omit-frame-pointer"] if asan else []
        flags += san
        binding = os.path.join(R.REPO, "python", "PyCGraph.cpp")
        for unity in (True, False):
            units = sorted(glob.glob(R.SRC + "/**/*.cpp", recursive=True))
            if unity:
                n, groups = 5, []
                for i in range(n):
                    u = os.path.join(d, "u%d.cpp" % i)
                    with open(u, "w") as f:
                        f.write("".join('#include "%s"\n' % s for s in units[i::n]))
                    groups.append(u)
                units = groups
            jobs, objs = [], []
            for i, u in enumerate([binding] + units):
                o = os.path.join(d, "o%d.o" % i)
                jobs.append(flags + ["-c", u, "-o", o])
                objs.append(o)
            errs = R.compile_many(jobs)
            if not errs:
                break
        else:
            raise R.BuildError(errs[0][:6000])
        errs = R.compile_many([["g++", "-shared", "-pthread"] + san + objs + ["-o", so + ".tmp"]])
        if errs:
            raise R.BuildError(errs[0][:6000])
        os.rename(so + ".tmp", so)
        for o in objs:
            os.unlink(o)
        R.prune("py-", 6)
    return py, d


def main(pid, cfg, tier, seed, args):
    t0 = time.time()
    try:
        with cf.ThreadPoolExecutor(2) as ex:
            f1, f2 = ex.submit(build), ex.submit(build, True)
            (py, mod), (_, amod) = f1.result(), f2.result()
    except R.BuildError as e:
        print("build of the check failed:\n%s" % e)
        return 3
    bt = time.time() - t0
    gen = ["python3-vt", os.path.join(R.HARNESS, "c33_gen.py"), "--worker-py", py]
    if "--replay" in args:
        f = args[args.index("--replay") + 1]
        q = subprocess.run(gen + ["--module", amod if json.load(open(f)).get("variant") == "asan" else mod, "--replay", f, "--repeat", "200"], stdout=subprocess.PIPE)
        m = json.loads(q.stdout)["message"]
        print("result:", m or "held")
        if m:
            print("VIOLATION property=%s replay=%s" % (pid, f))
        return 1 if m else 0
    budget = cfg[tier]["budget"]
    tmp = tempfile.mkdtemp(prefix="verif-%s-" % pid)
    st = dict(evaluations=0, hashes=set(), labels={}, samples=[])
    best, unconfirmed, broken = None, [], []
    try:
        W = 14
        ps, asans = [], set()
        for w in range(W):
            o = os.path.join(tmp, "w%d.json" % w)
            log = open(os.path.join(tmp, "w%d.log" % w), "wb")
            if w >= 9:
                asans.add(o)
            ps.append((subprocess.Popen(gen + ["--module", amod if w >= 9 else mod, "--seed", str(seed * 64 + w), "--budget", str(budget), "--out", o], stdout=log, stderr=log, cwd=tmp), o, log))
        end = time.time() + budget + 250
        for p, o, log in ps:
            try:
                p.wait(max(1, end - time.time()))
            except subprocess.TimeoutExpired:
                p.kill()
                p.wait()
            log.close()
            if not os.path.exists(o):
                broken.append(open(log.name, errors="replace").read()[-1500:])
                continue
            d = json.load(open(o))
            st["evaluations"] += d["evaluations"]
            st["hashes"].update(d["hashes"])
            st["samples"] += d["samples"]
            for k, v in d["labels"].items():
                st["labels"][k] = st["labels"].get(k, 0) + v
            unconfirmed += d["unconfirmed"]
            if d["best"] is not None and (best is None or len(json.dumps(d["best"])) < len(json.dumps(best[0]))):
                best = (d["best"], d["message"], "asan" if o in asans else "plain")
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    for u in unconfirmed:
        print("note: a failure did not reproduce in 60 replays: %s" % u["message"][:300])
    if unconfirmed:
        os.makedirs(os.path.join(R.BUILD, "unconfirmed"), exist_ok=True)
        with open(os.path.join(R.BUILD, "unconfirmed", "%s-%d.json" % (pid, os.getpid())), "w") as f:
            json.dump(unconfirmed, f)
    if best is None and len(unconfirmed) >= 3:
        best = (unconfirmed[0]["program"], unconfirmed[0]["message"], "plain")
    cov = dict(evaluations=st["evaluations"], distinct_nontrivial=len(st["hashes"]), rule=cfg["rule"], samples=(st["samples"] or ["(no sample recorded)"])[:6],
               classes=st["labels"], build_s=round(bt, 1), unreproduced_failures=len(unconfirmed))
    if best:
        os.makedirs(os.path.join(R.HERE, "replays"), exist_ok=True)
        rp = os.path.join(R.HERE, "replays", "%s-seed%d-%s.json" % (pid, seed, tier))
        with open(rp, "w") as f:
            json.dump(dict(property=pid, variant=best[2], message=best[1], program=best[0], how="python3 run.py %s --replay %s" % (pid, rp)), f, indent=1)
        cov["minimal_failure"] = dict(message=best[1][:1500], program=json.dumps(best[0])[:4000])
        R.write_evidence(pid, cfg, tier, seed, cov, t0, 1)
        print("minimal program:\n" + json.dumps(best[0])[:3000])
        print(best[1][:1500])
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if len(broken) > W // 2 or not st["evaluations"]:
        print("the check's own processes failed:\n" + (broken or ["?"])[0])
        return 3
    R.write_evidence(pid, cfg, tier, seed, cov, t0, 0)
    for k in R.load_findings(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    print("%s: held on %d cases (%d distinct non-trivial), build %.1fs, total %.1fs" % (pid, st["evaluations"], len(st["hashes"]), bt, time.time() - t0))
    print("classes:", json.dumps(st["labels"], sort_keys=True))
    return 0
