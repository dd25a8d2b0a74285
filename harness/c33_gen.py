"""Generates pipeline programs for the Python binding (hypothesis), has a worker process execute them and checks the reports.
argv: --worker-py PY --module DIR --seed N --budget S --out FILE [--replay FILE --repeat N]"""
import argparse, hashlib, json, os, select, subprocess, sys, tempfile, time
from hypothesis import given, settings, seed as hseed, HealthCheck, Phase, strategies as S

HERE = os.path.dirname(os.path.abspath(__file__))
MODES = ["run", "run", "process", "async", "asyncproc"]


# ------------------------------------------------------------------ programs
@S.composite
def programs(draw):
    I = lambda a, b: draw(S.integers(a, b))
    chance = lambda num, den: I(1, den) > den - num
    pick = lambda xs: xs[I(0, len(xs) - 1)]
    cnt = [0]
    runs = I(1, 4)
    cycles = I(1, 2)
    mode = pick(MODES)
    copies = pick([1, 1, 1, 1, 2, 3])
    engine = pick([0, 0, 0, 1, 2])
    nparams, nevents = I(0, 2), I(0, 2)
    total = runs * cycles
    special = chance(1, 4)      # timeouts and fences
    stage = engine == 0 and not special and chance(1, 6)
    fails = {}
    failing = chance(1, 3)
    use_fut = chance(1, 2)

    def base(k, depth):
        e = dict(id=cnt[0], k=k, loop=pick([1, 1, 1, 2, 3]), hold=0, deps=[], ch=[], style=I(0, 2), work=pick([0, 0, 1, 1, 2, 3]), lvl=pick([0, 0, 0, -1, 1, 2]),
                 vis=not chance(1, 12), sel=[I(0, 1) for _ in range(I(1, 3))], asp=pick([0, 0, 0, 1, 2]), fail=[], par=[], ev=[])
        cnt[0] += 1
        return e

    def leaf(depth):
        e = base("node" if not chance(1, 5) else "func", depth)
        if e["k"] == "func":
            e["sel"] = [0]    # functions never match
        if e["k"] == "node" and chance(1, 5):
            e["hold"] = I(1, 2)
        if nparams and chance(1, 2):
            e["par"] = [I(0, nparams - 1) for _ in range(I(1, 2))]
        if nevents and chance(1, 3):
            e["ev"] = [[pick([0, 0, 1, 2, 5, 6] + ([3, 4] if use_fut else [])), I(0, nevents - 1)] for _ in range(I(1, 2))]
        if failing and e["hold"] == 0 and chance(1, 3):
            r = I(0, total - 1)
            if r not in fails:
                fails[r] = e["id"]
                e["fail"] = [r]
        return e

    def elem(depth):
        if depth >= 3 or cnt[0] > 14 or chance(3, 5):
            return leaf(depth)
        k = pick(["cluster", "region", "cond", "smulti", "pmulti", "mutable"])
        e = base(k, depth)
        n = I(1, 4)
        for i in range(n):
            c = elem(depth + 1) if k != "mutable" else leaf(depth + 1)
            if k == "region":
                c["deps"] = [j for j in range(i) if chance(1, 3)]
            if k == "mutable":
                c["vis"] = True
            e["ch"].append(c)
        if k == "cond":
            e["pick"] = [I(-2, n) for _ in range(I(1, 3))]
        if k == "mutable":
            e["plan"] = []
            for _ in range(I(1, 3)):
                if failing and chance(1, 6):
                    e["plan"].append(dict(bad=True))
                    continue
                order = list(draw(S.permutations(range(n))))
                on = [x for x in order if not chance(1, 4)]
                edges = [[on[a], on[b]] for b in range(len(on)) for a in range(b) if chance(1, 3)]
                e["plan"].append(dict(on=on, edges=edges, loop=[pick([1, 1, 2, 3]) for _ in range(n)]))
        return e

    els = []
    for i in range(I(1, 7)):
        e = elem(0)
        e["deps"] = [j for j in range(i) if chance(1, 3)]
        els.append(e)
    blocked = 0
    if special:
        for e in els:
            if e["k"] == "node" and e["vis"] and not e["fail"] and chance(1, 2):
                e["loop"], e["hold"] = 1, 0
                if chance(1, 3):
                    e.update(tmo=I(5, 25), tst=0, late=True, par=[], ev=[], sel=[1])
                else:
                    e.update(tmo=20000, tst=I(0, 2))
        asy = [i for i, e in enumerate(els) if e.get("tmo")]
        for _ in range(I(0, 2)):
            if asy:
                f = base("fence", 0)
                f.update(loop=1, vis=True, style=0, lvl=0)
                f["waits"] = sorted({pick(asy) for _ in range(I(1, 3))})
                f["deps"] = sorted(set(f["waits"]) | {j for j in range(len(els)) if chance(1, 4)})
                els.append(f)
    sthr = 0
    if stage:
        roots = [e for e in els if e["k"] == "node" and not e["deps"] and e["vis"] and not e["fail"]]
        if len(roots) > 1:
            lp = I(1, 3)
            for e in roots:
                e.update(stage=True, loop=lp, hold=0)
            sthr = len(roots)
            # every member has to enter the same number of times: no run fails
            def clean(es):
                for e in es:
                    e["fail"] = []
                    if e["k"] == "mutable":
                        e["plan"] = [x for x in e["plan"] if not x.get("bad")] or [dict(on=[0], edges=[], loop=[1] * len(e["ch"]))]
                    clean(e["ch"])
            clean(els)
    waits = [0]

    def count(es):
        for e in es:
            if e["k"] in ("region", "pmulti", "mutable", "fence"):
                waits[0] += 1
            if e.get("tmo"):
                waits[0] += 2
            if e.get("stage"):
                waits[0] += 1
            if any(h in (3, 4) for h, _ in e["ev"]):
                waits[0] += 1
            count(e["ch"])
    count(els)
    threads = waits[0] + I(1, 4)
    drop = chance(1, 4)
    return dict(els=els, engine=engine, threads=threads, epoch=pick([0, 10]), batch=waits[0] == 0 and chance(1, 2), runs=runs, cycles=cycles, mode=mode,
                copies=copies, params=nparams, events=nevents, daemons=[I(1, 4) for _ in range(pick([0, 0, 1, 2]))], stage=sthr,
                drop=drop, ctl=[I(0, 3) for _ in range(I(0, 2))] if mode == "async" else [])


# ------------------------------------------------------------------ oracle
class Bad(AssertionError):
    pass


def need(c, msg):
    if not c:
        raise Bad(msg)


def per(e, r):
    """Executions of each leaf in one complete execution of e in run r (no failure)."""
    out = {}
    if not e["vis"]:
        return out
    one = {}
    if e["k"] in ("node", "func"):
        one = {e["id"]: 1 + e["hold"]}
    elif e["k"] == "fence":
        return out
    else:
        for c in chosen(e, r):
            for k, v in per(c, r).items():
                one[k] = one.get(k, 0) + v
    for k, v in one.items():
        out[k] = v * e["loop"]
    return out


def chosen(e, r):
    ch = e["ch"]
    if e["k"] == "cond":
        i = e["pick"][r % len(e["pick"])]
        return [ch[i]] if 0 <= i < len(ch) else [ch[-1]] if i == -1 else []
    if e["k"] in ("smulti", "pmulti"):
        return [c for c in ch if c["sel"][r % len(c["sel"])] % 2]
    if e["k"] == "mutable":
        p = e["plan"][r % len(e["plan"])]
        if p.get("bad"):
            return []
        res = []
        for i in p["on"]:
            c = dict(ch[i])
            c["loop"] = p["loop"][i]
            c["deps"] = []
            res.append(c)
        return res
    return ch


def edges(e, r, cs):
    """Pairs (i, j): chosen child i ends before chosen child j starts."""
    if e["k"] in ("cluster", "smulti"):
        return [(i, i + 1) for i in range(len(cs) - 1)] + [(i, j) for j in range(len(cs)) for i in range(j - 1)]
    if e["k"] == "mutable":
        p = e["plan"][r % len(e["plan"])]
        pos = {x: i for i, x in enumerate(p["on"])}
        return closure(len(cs), [(pos[a], pos[b]) for a, b in p["edges"]])
    if e["k"] == "region":
        return closure(len(cs), [(d, j) for j, c in enumerate(cs) for d in c["deps"]])
    return []


def closure(n, es):
    m = [[False] * n for _ in range(n)]
    for a, b in es:
        m[a][b] = True
    for k in range(n):
        for i in range(n):
            if m[i][k]:
                for j in range(n):
                    if m[k][j]:
                        m[i][j] = True
    return [(i, j) for i in range(n) for j in range(n) if m[i][j]]


def span(occ):
    a = [x for v in occ.values() for x in v]
    return (min(x[0] for x in a), max(x[1] for x in a)) if a else None


def check_exec(e, r, occ):
    """occ: leaf -> its executions (start, end) in one complete execution of e, in order."""
    exp = per(e, r)
    for k in set(exp) | set(occ):
        need(len(occ.get(k, [])) == exp.get(k, 0), "element %d was executed %d times instead of %d in run %d" % (k, len(occ.get(k, [])), exp.get(k, 0), r))
    if e["k"] in ("node", "func", "fence") or not exp:
        return
    L = e["loop"]
    last = None
    cs = chosen(e, r)
    for b in range(L):
        blk = {k: v[b * len(v) // L:(b + 1) * len(v) // L] for k, v in occ.items()}
        sp = span(blk)
        need(last is None or sp is None or last <= sp[0], "iterations of group %d overlap" % e["id"])
        last = sp[1] if sp else last
        subs = []
        for c in cs:
            ids = per(c, r)
            subs.append({k: blk.get(k, []) for k in ids})
        for i, j in edges(e, r, cs):
            a, b2 = span(subs[i]), span(subs[j])
            need(a is None or b2 is None or a[1] <= b2[0], "in group %d element %d started before element %d had finished" % (e["id"], cs[j]["id"], cs[i]["id"]))
        for c, s in zip(cs, subs):
            check_exec(c, r, s)


def flat(es, out=None):
    out = [] if out is None else out
    for e in es:
        out.append(e)
        flat(e["ch"], out)
    return out


def leaves_of(e):
    return [x["id"] for x in flat([e]) if x["k"] in ("node", "func")]


def bad_group(e, r):
    """First cause by which e can fail in run r: (kind, id, code, info) or None; at most one leaf fails per run."""
    if not e["vis"]:
        return []
    res = []
    if e["k"] in ("node", "func"):
        if r in e["fail"]:
            res.append((-100 - e["id"], "broken %d" % e["id"]))
    elif e["k"] == "mutable" and e["plan"][r % len(e["plan"])].get("bad"):
        res.append((-77, "no shape"))
    else:
        for c in chosen(e, r):
            res += bad_group(c, r)
    return res


def check_one(spec, out):
    T, els = out["trace"], spec["els"]
    need(not out["err"], "; ".join(out["err"][:3]))
    byid = {e["id"]: e for e in flat(els)}
    n = len(els)
    clo = closure(n, [(d, j) for j, e in enumerate(els) for d in e["deps"]])
    # structure reported by the binding
    if "relation" in out:
        par = {}
        for e in flat(els):
            for c in e["ch"]:
                par[c["id"]] = e
        for row in out["relation"]:
            e = byid[row[0]]
            sib = par[e["id"]]["ch"] if e["id"] in par else els
            dep = e["deps"] if e["id"] not in par or par[e["id"]]["k"] == "region" else []
            me = sib.index(e)
            succ = [x for x in sib if me in x["deps"]] if e["id"] not in par or par[e["id"]]["k"] == "region" else []
            nm = lambda x: "n%d" % x["id"]
            need(row[1] == sorted(nm(sib[d]) for d in dep), "predecessors of element %d are reported as %s" % (e["id"], row[1]))
            need(row[2] == sorted(nm(x) for x in succ), "successors of element %d are reported as %s" % (e["id"], row[2]))
            need(row[3] == [nm(c) for c in e["ch"]], "children of element %d are reported as %s" % (e["id"], row[3]))
            need(row[4] == (nm(par[e["id"]]) if e["id"] in par else ""), "the group of element %d is reported as %r" % (e["id"], row[4]))
            need(row[5] == nm(e) and row[6] == e["loop"], "name or loop of element %d is reported as %r, %d" % (e["id"], row[5], row[6]))
            need(row[7] == (e["k"] == "node") and row[8] == bool(e["ch"]), "the kind of element %d is misreported" % e["id"])
    # results of the calls
    r = -1
    want = []     # expected status of every run, in order
    exp = []
    def causes(r):
        return [x for e in els for x in bad_group(e, r)]
    for c in range(spec["cycles"]):
        if spec["mode"] in ("process", "asyncproc"):
            stt = [(0, "")]
            for _ in range(spec["runs"]):
                r += 1
                stt = causes(r) or [(0, "")]
                want.append((r, stt))
                if stt[0][0] != 0:
                    break
            exp.append(("process", stt))
        else:
            exp.append(("init", [(0, "")]))
            for _ in range(spec["runs"]):
                r += 1
                stt = causes(r) or [(0, "")]
                want.append((r, stt))
                exp.append(("run", stt))
            if not (c + 1 == spec["cycles"] and spec["drop"]):
                exp.append(("destroy", [(0, "")]))
    got = out["res"]
    need(len(got) == len(exp), "calls made: %s" % got)
    for g, (k, ss) in zip(got, exp):
        need(g[0] == k and any(g[1] == s[0] and (s[0] == 0 or g[2] == s[1]) for s in ss), "%s returned (%d, %r) instead of %s" % (g[0], g[1], g[2], ss))
    # split the trace into runs
    blocks, cur, pre = [], None, []
    for t in T:
        if t[0] == "R":
            cur = []
            blocks.append(cur)
        elif t[0] == "q":
            cur = None
        elif cur is not None:
            cur.append(t)
        else:
            if t[0] in ("s", "e", "ab", "af", "S", "X", "pr"):
                raise Bad("%s outside a run" % (t,))
    need(len(blocks) == len(want), "%d runs took place instead of %d" % (len(blocks), len(want)))
    total_trig, total_note = {}, {}
    for B, (r, ss) in zip(blocks, want):
        ok = ss[0][0] == 0
        occ, open_ = {}, {}
        code = None
        trig, note, must, incr = {}, {}, {}, {}
        ended_at = None
        for i, t in enumerate(B):
            if t[0] == "s":
                need(t[1] not in open_, "element %d was executed by two threads at once" % t[1])
                open_[t[1]] = i
                e = byid[t[1]]
                for k in e["par"]:
                    incr[k] = incr.get(k, 0) + 1
                for how, ev in e["ev"]:
                    if how <= 4:
                        note[ev] = note.get(ev, 0) + 1
                        if how != 2:
                            must[ev] = must.get(ev, 0) + 1
                need(ended_at is None, "element %d started after the run's parameters were reset" % t[1])
            elif t[0] == "e":
                occ.setdefault(t[1], []).append((open_.pop(t[1]), i))
                need(ended_at is None, "element %d ended after the run's parameters were reset" % t[1])
            elif t[0] == "t":
                trig[t[1]] = trig.get(t[1], 0) + 1
            elif t[0] == "r":
                code = t[2]
                ended_at = i
        need(not open_, "element %s was still executing when run returned" % list(open_))
        need(code is not None and any(code == s[0] for s in ss), "the parameters were reset with status %s in a run that gave %s" % (code, ss))
        for k in range(spec["params"]):
            re = [t for t in B if t[0] == "pr" and t[1] == k]
            need(len(re) == 1, "parameter %d: %d resets in a run" % (k, len(re)))
            need(re[0][2] == code and re[0][3] == incr.get(k, 0), "parameter %d ends a run with value %d and status %d; %d updates were made, status %d" % (k, re[0][3], re[0][2], incr.get(k, 0), code))
        for ev in range(spec["events"]):
            total_trig[ev] = total_trig.get(ev, 0) + trig.get(ev, 0)
            total_note[ev] = total_note.get(ev, 0) + note.get(ev, 0)
            need(total_trig[ev] <= total_note[ev], "event %d was triggered more often than notified" % ev)
            if note.get(ev, 0) == must.get(ev, 0) and all(h != 2 for e in byid.values() for h, v in e["ev"] if v == ev):
                need(trig.get(ev, 0) == must.get(ev, 0), "event %d: %d triggers by the end of the run for %d notifications" % (ev, trig.get(ev, 0), must.get(ev, 0)))
        # a batch leaves the stage only when all its members have entered
        if spec["stage"]:
            ent = 0
            left = 0
            for t in B:
                ent += t[0] == "S"
                if t[0] == "X":
                    left += 1
                    need(left <= ent // spec["stage"] * spec["stage"], "an element passed the stage before its batch was complete")
            need(left == ent and sum(1 for t in B if t[0] == "L") == ent // spec["stage"], "the stage was launched %d times for %d entries" % (sum(1 for t in B if t[0] == "L"), ent))
        if ok:
            used = set()
            for e in els:
                ids = leaves_of(e)
                used.update(ids)
                check_exec(e, r, {k: occ[k] for k in ids if k in occ})
            for i, j in clo:
                if els[i].get("late"):
                    continue
                a = span({k: occ[k] for k in leaves_of(els[i]) if k in occ})
                b = span({k: occ[k] for k in leaves_of(els[j]) if k in occ})
                need(a is None or b is None or a[1] <= b[0], "element %d started before element %d had finished" % (els[j]["id"], els[i]["id"]))
            # a fence holds back its dependents until what it waits for has ended
            for i, f in enumerate(els):
                if f["k"] != "fence":
                    continue
                for j in [b for a, b in clo if a == i]:
                    b = span({k: occ[k] for k in leaves_of(els[j]) if k in occ})
                    for w in f["waits"]:
                        a = span({k: occ[k] for k in leaves_of(els[w]) if k in occ})
                        need(a is None or b is None or a[1] <= b[0], "element %d started before the fence's element %d had ended" % (els[j]["id"], els[w]["id"]))
            # aspects and callbacks of every leaf
            for e in flat(els):
                if e["k"] not in ("node", "func"):
                    continue
                seq = [t for t in B if t[0] in ("s", "e", "ab", "af") and t[1] == e["id"]]
                times = len(occ.get(e["id"], [])) // (1 + e["hold"])
                unit = [("ab", a) for a in range(e["asp"])] + ["s", "e"] * (1 + e["hold"]) + [("af", a) for a in range(e["asp"])]
                if e.get("late"):
                    ats = [t for t in B if t[0] == "at" and t[1] == e["id"]]
                    need(len(ats) == e["asp"], "a timed-out element was notified %d times for %d aspects" % (len(ats), e["asp"]))
                    continue
                have = [(t[0], t[2]) if t[0] in ("ab", "af") else t[0] for t in seq]
                need(have == unit * times, "callbacks of element %d: %s" % (e["id"], have))
                need(all(t[3] == 0 for t in seq if t[0] == "af"), "an aspect of element %d saw an error" % e["id"])
        else:
            for k, v in occ.items():
                pass
            for e in els:
                ex = per(e, r)
                for k in leaves_of(e):
                    need(len(occ.get(k, [])) <= ex.get(k, 0), "element %d was executed %d times, %d at most, in a failed run" % (k, len(occ.get(k, [])), ex.get(k, 0)))
            for i, j in clo:
                b = span({k: occ[k] for k in leaves_of(els[j]) if k in occ})
                if b is None:
                    continue
                need(not bad_group(els[i], r), "element %d was executed although element %d failed" % (els[j]["id"], els[i]["id"]))
                if els[i].get("late"):
                    continue
                check_exec(els[i], r, {k: occ[k] for k in leaves_of(els[i]) if k in occ})
                a = span({k: occ[k] for k in leaves_of(els[i]) if k in occ})
                need(a is None or a[1] <= b[0], "element %d started before element %d had finished, in a failed run" % (els[j]["id"], els[i]["id"]))
    for k in range(spec["params"]):
        seq = [t[0] for t in T if t[0] in ("ps", "pr") and t[1] == k]
        need(seq == ["ps", "pr"] * len(want), "parameter %d: setups and resets %s in %d runs" % (k, seq, len(want)))
    # life cycle
    trig = {}
    for t in T:
        if t[0] == "t":
            trig[t[1]] = trig.get(t[1], 0) + 1
    for ev in range(spec["events"]):
        need(trig.get(ev, 0) == total_note.get(ev, 0), "event %d: %d triggers for %d notifications" % (ev, trig.get(ev, 0), total_note.get(ev, 0)))
        c = [sum(1 for t in T if t[0] == x and t[1] == ev) for x in ("ei", "ed")]
        need(c == [spec["cycles"], spec["cycles"] - dropped(spec)], "event %d: %d inits and %d destroys" % (ev, c[0], c[1]))
    vis = {}
    def walk(e, v):
        v = v and e["vis"]
        vis[e["id"]] = v
        for c in e["ch"]:
            walk(c, v)
    for e in els:
        walk(e, True)
    for e in flat(els):
        if e["k"] not in ("node", "func"):
            continue
        c = [sum(1 for t in T if t[0] == x and t[1] == e["id"]) for x in ("i", "x")]
        w = [spec["cycles"], spec["cycles"] - dropped(spec)] if vis[e["id"]] else [0, 0]
        need(c == w, "element %d: %d inits and %d destroys instead of %s" % (e["id"], c[0], c[1], w))
        seq = [(t[0],) + tuple(t[2:3]) for t in T if t[0] in ("i", "abi", "afi") and t[1] == e["id"]]
        need(seq == ([("abi", a) for a in range(e["asp"])] + [("i",)] + [("afi", a) for a in range(e["asp"])]) * c[0], "callbacks around the init of element %d: %s" % (e["id"], seq))
        seq = [(t[0],) + tuple(t[2:3]) for t in T if t[0] in ("x", "abd", "afd") and t[1] == e["id"]]
        need(seq == ([("abd", a) for a in range(e["asp"])] + [("x",)] + [("afd", a) for a in range(e["asp"])]) * c[1], "callbacks around the destroy of element %d: %s" % (e["id"], seq))
    for x in ("i", "x"):
        lv = []
        for t in T:
            if t[0] == "R" or (x == "i" and t[0] in ("x", "p")) or (x == "x" and t[0] == "i"):
                lv = []
            elif t[0] == x and any(e["id"] == t[1] for e in els):
                l = byid[t[1]]["lvl"]
                need(not lv or lv[-1] <= l, "an element of level %d was %s after one of level %s" % (l, "initialised" if x == "i" else "destroyed", lv[-1:]))
                lv.append(l)


def dropped(spec):
    return 1 if spec["drop"] and spec["mode"] in ("run", "async") else 0


# ------------------------------------------------------------------ execution
class Worker:
    def __init__(self, py, mod):
        self.py, self.mod, self.p = py, mod, None

    def start(self):
        env = dict(os.environ)
        env.pop("PYTHONPATH", None)
        if self.mod.endswith("-asan"):
            lib = subprocess.run(["gcc", "-print-file-name=libasan.so"], stdout=subprocess.PIPE).stdout.decode().strip()
            cpp = subprocess.run(["gcc", "-print-file-name=libstdc++.so.6"], stdout=subprocess.PIPE).stdout.decode().strip()
            env.update(LD_PRELOAD=lib + " " + cpp, ASAN_OPTIONS="detect_leaks=0:exitcode=99:handle_abort=1:detect_stack_use_after_return=0", PYTHONMALLOC="malloc")
        self.log = tempfile.TemporaryFile()
        self.p = subprocess.Popen([self.py, "-I", os.path.join(HERE, "c33_worker.py"), self.mod], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.log, env=env)
        self.buf = b""

    def kill(self):
        if self.p:
            self.p.kill()
            self.p.wait()
            self.p.stdin.close()
            self.p.stdout.close()
            self.p = None

    def ask(self, spec, limit):
        if self.p is None:
            self.start()
        try:
            self.p.stdin.write((json.dumps(spec) + "\n").encode())
            self.p.stdin.flush()
        except BrokenPipeError:
            pass
        end = time.time() + limit
        while b"\n" not in self.buf:
            r, _, _ = select.select([self.p.stdout], [], [], max(0.0, end - time.time()))
            if not r:
                self.kill()
                raise Bad("hang: no answer within %d s" % limit)
            d = os.read(self.p.stdout.fileno(), 1 << 20)
            if not d:
                self.p.wait()
                rc = self.p.returncode
                self.kill()
                self.log.seek(0, 2)
                self.log.seek(max(0, self.log.tell() - 6000))
                t = self.log.read().decode(errors="replace")
                i = t.find("==ERROR")
                raise Bad("the interpreter died (exit %s)\n%s" % (rc, t[i:i + 2500] if i >= 0 else t[-1200:]))
            self.buf += d
        line, self.buf = self.buf.split(b"\n", 1)
        return json.loads(line)


def judge(w, spec, limit=30):
    outs = w.ask(spec, limit)
    if isinstance(outs, dict):
        raise Bad("an exception came out of the binding: %s %s" % (outs["exception"], outs["where"]))
    for o in outs:
        try:
            check_one(spec, o)
        except Bad:
            raise
        except Exception as ex:
            raise Bad("unreadable report: %r" % ex)


class Stop(BaseException):
    pass


def main():
    ap = argparse.ArgumentParser()
    for a in ("--worker-py", "--module", "--out", "--replay"):
        ap.add_argument(a)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--repeat", type=int, default=30)
    ap.add_argument("--budget", type=float, default=10)
    a = ap.parse_args()
    w = Worker(a.worker_py, a.module)
    if a.replay:
        spec = json.load(open(a.replay))
        spec = spec.get("program", spec)
        msg = None
        for _ in range(a.repeat):
            try:
                judge(w, spec)
            except Bad as ex:
                msg = str(ex)
                break
        w.kill()
        print(json.dumps(dict(message=msg)))
        return 0
    t0 = time.time()
    stats = dict(evaluations=0, hashes=[], labels={}, samples=[])
    seen = set()
    st = dict(best=None, msg=None, deadline=None, unconfirmed=[])

    def label(k):
        stats["labels"][k] = stats["labels"].get(k, 0) + 1

    def test(spec):
        if st["deadline"] is None:
            if time.time() - t0 > a.budget:
                raise Stop()
        elif time.time() > st["deadline"]:
            raise Stop()
        stats["evaluations"] += 1
        es = flat(spec["els"])
        if len([e for e in es if e["k"] in ("node", "func", "fence")]) >= 3 and any(e["deps"] or e["ch"] for e in es):
            h = hashlib.sha256(json.dumps(spec, sort_keys=True).encode()).hexdigest()[:12]
            if h not in seen:
                seen.add(h)
            label("mode " + spec["mode"])
            if spec["copies"] > 1: label("several pipelines at once")
            if any(e["fail"] for e in es): label("with planned failures")
            if any(e["ch"] for e in es): label("with groups")
            if any(e.get("tmo") for e in es): label("with time limits or fences")
            if spec["stage"]: label("with a stage")
            if spec["daemons"]: label("with daemons")
            if len(stats["samples"]) < 2 and len(es) < 7: stats["samples"].append(json.dumps(spec)[:1500])
        hang = 30 if st["deadline"] is None else 10
        try:
            judge(w, spec, hang)
            if st["best"] is None:
                return
            again = 4
        except Bad as ex:
            if st["best"] is not None:
                st["best"], st["msg"] = spec, str(ex)
                raise
            # confirm before it counts
            msg = str(ex)
            st["first"] = (msg, spec)
            for _ in range(60 if "hang" not in msg else 3):
                try:
                    judge(w, spec, hang)
                except Bad as ex2:
                    st["best"], st["msg"], st["deadline"] = spec, str(ex2), time.time() + 60
                    st["orig"] = spec
                    raise
            st["unconfirmed"].append(dict(message=msg, program=spec))
            if len(st["unconfirmed"]) >= 3:
                st["best"], st["msg"], st["deadline"] = spec, msg, time.time()
            return
        for _ in range(again):   # while shrinking: schedule-dependent failures get some more chances
            try:
                judge(w, spec, hang)
            except Bad as ex:
                st["best"], st["msg"] = spec, str(ex)
                raise

    b = 0
    try:
        while st["best"] is None:
            run = settings(max_examples=200, deadline=None, database=None, suppress_health_check=list(HealthCheck), phases=[Phase.generate, Phase.shrink], report_multiple_bugs=False)(
                hseed(a.seed * 1000003 + b)(given(programs())(test)))
            b += 1
            run()
    except Stop:
        pass
    except BaseException as ex:
        if st["best"] is None and not isinstance(ex, KeyboardInterrupt):
            if type(ex).__name__ not in ("Flaky", "FlakyFailure"):
                w.kill()
                raise
    w.kill()
    stats["hashes"] = sorted(seen)
    stats["best"], stats["message"], stats["unconfirmed"] = st["best"], st["msg"], st["unconfirmed"]
    stats["first"] = st.get("first")
    json.dump(stats, open(a.out, "w"))
    return 0


if __name__ == "__main__":
    sys.exit(main())
