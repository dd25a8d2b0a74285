"""Executes pipeline programs through the Python binding. One JSON program per line in, one JSON report per line out.
argv[1]: directory that holds the pycgraph module."""
import gc, json, sys, threading, time
sys.path.insert(0, sys.argv[1])
sys.dont_write_bytecode = True
import pycgraph as pg
from pycgraph import CStatus

STRAT = [pg.GEventAsyncStrategy.PIPELINE_RUN_FINISH, pg.GEventAsyncStrategy.PIPELINE_DESTROY, pg.GEventAsyncStrategy.NO_WAIT]
sys.setswitchinterval(0.0002)


class Box:
    """What one pipeline of the program shares with its elements: the trace and the number of the current run."""
    def __init__(self, spec):
        self.spec, self.T, self.run, self.err = spec, [], -1, []
        self.trig, self.keep = {}, []
        self.destroyed = False


def busy(w):
    if w == 1:
        time.sleep(0.0003)
    elif w == 2:
        end = time.perf_counter() + 0.0003
        while time.perf_counter() < end:
            pass
    elif w == 3:
        time.sleep(0)
    elif w == 4:
        time.sleep(0.003)


class Hook(pg.GParam):
    """Counts the runs."""
    def bind(self, box):
        self.box = box
        return self

    def setup(self):
        self.box.run += 1
        self.box.T.append(("R", self.box.run))
        return CStatus()

    def reset(self, st):
        self.box.T.append(("r", self.box.run, st.getCode()))


class Par(pg.GParam):
    def bind(self, box, i):
        self.box, self.i, self.value = box, i, 0
        return self

    def setup(self):
        self.box.T.append(("ps", self.i))
        self.value = 0
        return CStatus()

    def reset(self, st):
        self.box.T.append(("pr", self.i, st.getCode(), self.value))


class Ev(pg.GEvent):
    def bind(self, box, i):
        self.box, self.i = box, i
        return self

    def init(self):
        self.box.T.append(("ei", self.i))
        return CStatus()

    def destroy(self):
        self.box.T.append(("ed", self.i))
        return CStatus()

    def trigger(self, param):
        busy(self.i % 4)
        if self.getGParam("hook") is not self.box.hook:
            self.box.err.append("an event does not see the pipeline's parameter")
        self.box.T.append(("t", self.i, threading.get_ident()))


class Dm(pg.GDaemon):
    def bind(self, box, i):
        self.box, self.i = box, i
        return self

    def daemonTask(self, param):
        if self.box.destroyed:
            self.box.err.append("a daemon was executed after destroy had returned")
        busy(self.i % 5)
        self.box.T.append(("d", self.i))
        if self.box.destroyed:
            self.box.err.append("a daemon was still executing when destroy returned")


class St(pg.GStage):
    def bind(self, box):
        self.box = box
        return self

    def launch(self, param):
        self.box.T.append(("L",))


class Asp(pg.GAspect):
    def bind(self, box, eid, i):
        self.box, self.eid, self.i = box, eid, i
        return self

    def beginRun(self):
        self.box.T.append(("ab", self.eid, self.i))
        return CStatus()

    def finishRun(self, st):
        self.box.T.append(("af", self.eid, self.i, st.getCode()))

    def beginInit(self):
        self.box.T.append(("abi", self.eid, self.i))
        return CStatus()

    def finishInit(self, st):
        self.box.T.append(("afi", self.eid, self.i, st.getCode()))

    def beginDestroy(self):
        self.box.T.append(("abd", self.eid, self.i))
        return CStatus()

    def finishDestroy(self, st):
        self.box.T.append(("afd", self.eid, self.i, st.getCode()))

    def enterTimeout(self):
        self.box.T.append(("at", self.eid, self.i))


def body(self, box, e):
    i = e["id"]
    box.T.append(("s", i, threading.get_ident()))
    busy(e["work"])
    for k in e["par"]:
        p = self.getGParam("p%d" % k)
        if p is None:
            box.err.append("element %d does not see parameter %d" % (i, k))
            continue
        with p:
            v = p.value
            busy(3)
            p.value = v + 1
    for how, ev in e["ev"]:
        if how == 0:
            n = sum(1 for x in list(box.T) if x[0] == "t" and x[1] == ev and x[2] == threading.get_ident())
            st = self.notify("e%d" % ev, pg.GEventType.SYNC)
            m = sum(1 for x in list(box.T) if x[0] == "t" and x[1] == ev and x[2] == threading.get_ident())
            if st.isErr():
                box.err.append("a synchronous notification failed: " + st.getInfo())
            if m != n + 1:
                box.err.append("a synchronous notification triggered its event %d times on the caller before it returned" % (m - n))
        elif how in (1, 2):
            st = self.notify("e%d" % ev, pg.GEventType.ASYNC, STRAT[how - 1])
            if st.isErr():
                box.err.append("an asynchronous notification failed: " + st.getInfo())
        elif how in (3, 4):
            f = self.asyncNotify("e%d" % ev, STRAT[how - 3])
            f.wait()
        else:
            if not self.notify("none", pg.GEventType.SYNC if how == 5 else pg.GEventType.ASYNC).isErr():
                box.err.append("notifying an unknown event returned OK")
    if e.get("stage"):
        box.T.append(("S", i))
        st = self.enterStage("stage")
        box.T.append(("X", i))
        if st.isErr():
            box.err.append("entering a stage failed: " + st.getInfo())
    if e.get("late"):   # body that ends only after its time has run out
        end = time.perf_counter() + 20
        while not self.isTimeout() and time.perf_counter() < end:
            time.sleep(0.001)
        if not self.isTimeout():
            box.err.append("an element beyond its time limit does not see itself as timed out")
    st = CStatus()
    if box.run in e["fail"]:
        st = CStatus(-100 - i, "broken %d" % i)
    box.T.append(("e", i))
    return st


def mixin(base):
    class M(base):
        def setup_(self, box, e):
            self.box, self.e, self.h = box, e, 0
            return self

        def init(self):
            self.box.T.append(("i", self.e["id"]))
            return CStatus()

        def destroy(self):
            self.box.T.append(("x", self.e["id"]))
            return CStatus()

        def isHold(self):
            if self.h < self.e["hold"]:
                self.h += 1
                return True
            self.h = 0
            return False

        def isMatch(self):
            s = self.e["sel"]
            return bool(s[self.box.run % len(s)] % 2)
    return M


class Node(mixin(pg.GNode)):
    def run(self):
        return body(self, self.box, self.e)


def gmixin(base):
    class M(base):
        def setup_(self, box, e, kids):
            self.box, self.e, self.h, self.kids = box, e, 0, kids
            return self

        def isHold(self):
            if self.h < self.e["hold"]:
                self.h += 1
                return True
            self.h = 0
            return False

        def isMatch(self):
            s = self.e["sel"]
            return bool(s[self.box.run % len(s)] % 2)
    return M


class Cluster(gmixin(pg.GCluster)):
    pass


class Region(gmixin(pg.GRegion)):
    pass


class SMulti(gmixin(pg.GSerialMultiCondition)):
    pass


class PMulti(gmixin(pg.GParallelMultiCondition)):
    pass


class Cond(gmixin(pg.GCondition)):
    def choose(self):
        s = self.e["pick"]
        return s[self.box.run % len(s)]


class Mutable(gmixin(pg.GMutable)):
    def reshape(self, elements):
        if [x.getName() for x in elements] != [x.getName() for x in self.kids]:
            self.box.err.append("reshape received other elements than the group's children")
        plan = self.e["plan"][self.box.run % len(self.e["plan"])]
        if plan.get("bad"):
            return CStatus(-77, "no shape")
        for a, b in plan["edges"]:
            if not elements[b].addDependGElements({elements[a]}).isOK():
                self.box.err.append("reshape cannot link its elements")
        for a in plan["on"]:
            elements[a].setVisible(True)
            elements[a].setLoop(plan["loop"][a])
        return CStatus()


KIND = dict(cluster=Cluster, region=Region, smulti=SMulti, pmulti=PMulti, cond=Cond, mutable=Mutable)


def make(box, e, sib):
    """Builds element e (children first); sib: siblings made so far."""
    name = "n%d" % e["id"]
    if e["k"] == "node":
        if e["style"] == 0:
            o = Node(name, e["loop"])
        elif e["style"] == 1:
            o = Node({sib[d] for d in e["deps"]}, name, e["loop"])
        else:
            o = Node()
            o.setName(name)
            o.setLoop(e["loop"])
        o.setup_(box, e)
    elif e["k"] == "fence":
        o = pg.GFence()
        o.setName(name)
    elif e["k"] == "func":
        o = pg.GFunction()
        o.setName(name)
        o.setLoop(e["loop"])
        o.setFunction(pg.CFunctionType.INIT, lambda: (box.T.append(("i", e["id"])), CStatus())[1])
        o.setFunction(pg.CFunctionType.RUN, lambda: body(o, box, e))
        o.setFunction(pg.CFunctionType.DESTROY, lambda: (box.T.append(("x", e["id"])), CStatus())[1])
    else:
        kids = []
        for c in e["ch"]:
            kids.append(make(box, c, kids))
        for c, k in zip(e["ch"], kids):
            if c["deps"] and e["k"] == "region" and not (c["k"] == "node" and c["style"] == 1):
                st = k.addDependGElements({kids[d] for d in c["deps"]})
                if st.isErr():
                    box.err.append("adding a dependence failed: " + st.getInfo())
        if e["style"] == 0:
            o = KIND[e["k"]](kids)
        else:
            o = KIND[e["k"]]()
            h = e["style"] % (len(kids) + 1)
            parts = [kids[:h], kids[h:]]
            box.keep.append(parts)
            for part in parts:
                if part:
                    st = o.addGElements(part)
                    if st.isErr():
                        box.err.append("adding children failed: " + st.getInfo())
        box.keep.append(kids)
        o.setup_(box, e, kids)
        o.setName(name)
        o.setLoop(e["loop"])
    if e["lvl"]:
        o.setLevel(e["lvl"])
    if not e["vis"]:
        o.setVisible(False)
    if e.get("tmo"):
        o.setTimeout(e["tmo"], [pg.GElementTimeoutStrategy.HOLD_BY_PIPELINE, pg.GElementTimeoutStrategy.NO_HOLD, pg.GElementTimeoutStrategy.AS_ERROR][e["tst"]])
    for i in range(e["asp"]):
        o.addGAspect(Asp().bind(box, e["id"], i))
    box.keep.append(o)
    box.obj[e["id"]] = o
    return o


def build(spec):
    box = Box(spec)
    box.obj = {}
    p = pg.GPipeline()
    cfg = pg.UThreadPoolConfig()
    cfg.default_thread_size = spec["threads"]
    cfg.max_thread_size = spec["threads"]
    cfg.secondary_thread_size = 0
    cfg.max_task_steal_range = max(0, spec["threads"] - 1)
    cfg.primary_thread_empty_interval = 2
    cfg.primary_thread_busy_epoch = spec["epoch"]
    cfg.batch_task_enable = bool(spec["batch"])
    p.setUniqueThreadPoolConfig(cfg)
    box.cfg = cfg
    p.setGEngineType([pg.GEngineType.DYNAMIC, pg.GEngineType.TOPO, pg.GEngineType.STATIC][spec["engine"]])
    box.hook = Hook().bind(box)
    p.createGParam(box.hook, "hook")
    for k in range(spec["params"]):
        q = Par().bind(box, k)
        box.keep.append(q)
        p.createGParam(q, "p%d" % k)
        if p.getGParam("p%d" % k) is not q or not p.hasGParam("p%d" % k):
            box.err.append("a parameter given to the pipeline is not the one it gives back")
    if p.hasGParam("absent") or p.getGParam("absent") is not None:
        box.err.append("an absent parameter is found")
    objs = []
    for e in spec["els"]:
        o = make(box, e, objs)
        objs.append(o)
    for e, o in zip(spec["els"], objs):
        if e["k"] == "fence":
            o.waitGElements({objs[w] for w in e["waits"]})
        st = p.registerGElement(o, set() if e["style"] == 1 and e["k"] == "node" else {objs[d] for d in e["deps"]}, "n%d" % e["id"], e["loop"])
        if st.isErr():
            box.err.append("registering an element failed: " + st.getInfo())
    for k in range(spec["events"]):
        p.addGEvent(Ev().bind(box, k), "e%d" % k)
    for i, ms in enumerate(spec["daemons"]):
        p.addGDaemon(Dm().bind(box, i), ms)
    if spec["stage"]:
        p.addGStage(St().bind(box), "stage", spec["stage"])
    box.objs = objs
    return p, box


def relation(box, spec, out):
    """What the binding reports about structure."""
    rows = []

    def walk(e, parent):
        o = box.obj[e["id"]]
        r = o.getRelation()
        rows.append([e["id"], sorted(x.getName() for x in r.predecessors), sorted(x.getName() for x in r.successors),
                     [x.getName() for x in r.children], r.belong.getName() if r.belong else "", o.getName(), o.getLoop(),
                     bool(o.isGNode()), bool(o.isGGroup())])
        for c in e.get("ch", []):
            walk(c, e)
    for e in spec["els"]:
        walk(e, None)
    out["relation"] = rows


def st(s):
    return [s.getCode(), s.getInfo()]


def drive(p, box, spec, out):
    res = []
    mode = spec["mode"]
    for c in range(spec["cycles"]):
        if mode == "process":
            box.T.append(("P",))
            res.append(["process"] + st(p.process(spec["runs"])))
            box.T.append(("p",))
        elif mode == "asyncproc":
            f = p.asyncProcess(spec["runs"])
            res.append(["process"] + st(f.get()))
            box.T.append(("p",))
        else:
            box.destroyed = False
            res.append(["init"] + st(p.init()))
            for _ in range(spec["runs"]):
                if mode == "async":
                    f = p.asyncRun()
                    for a in spec["ctl"]:
                        time.sleep(0.0003 * a)
                        p.suspend()
                        time.sleep(0.0003)
                        p.resume()
                    if spec["ctl"] and spec["ctl"][0] % 2:
                        f.wait()
                    r = f.get()
                else:
                    r = p.run()
                box.T.append(("q",))
                res.append(["run"] + st(r))
            if c + 1 == spec["cycles"] and spec["drop"]:
                break
            res.append(["destroy"] + st(p.destroy()))
            box.destroyed = True
            box.T.append(("p",))
    out["res"] = res


def one(spec):
    n = spec["copies"]
    pairs = [build(spec) for _ in range(n)]
    outs = [dict() for _ in range(n)]
    relation(pairs[0][1], spec, outs[0])
    if n == 1:
        drive(pairs[0][0], pairs[0][1], spec, outs[0])
    else:
        ts = [threading.Thread(target=drive, args=(p, b, spec, o)) for (p, b), o in zip(pairs, outs)]
        for t in ts:
            t.start()
        for t in ts:
            t.join()
    for (p, b), o in zip(pairs, outs):
        o["trace"], o["err"] = b.T, b.err
    boxes = [b for _, b in pairs]
    lens = [len(b.T) for b in boxes]
    p = None
    del pairs
    gc.collect()
    if spec["drop"]:
        # the pipelines are gone: nothing may run any more
        lens = [len(b.T) for b in boxes]
        time.sleep(0.004)
    for b, l, o in zip(boxes, lens, outs):
        if len(b.T) != l:
            o["err"].append("something ran after its pipeline was gone: %s" % (b.T[l:],))
    return outs


def main():
    import os
    out = os.fdopen(os.dup(1), "w")   # the library may print: keep that out of the reports
    os.dup2(2, 1)
    gc.collect()
    gc.freeze()
    for line in sys.stdin:
        try:
            r = one(json.loads(line))
        except BaseException as ex:   # a Python exception that comes out of the binding
            import traceback
            r = dict(exception=repr(ex), where=traceback.format_exc()[-1500:])
        out.write(json.dumps(r) + "\n")
        out.flush()
        gc.collect()


main()
