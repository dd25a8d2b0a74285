// C03: failures stop dependents, are reported with a real failing element's status, nothing is left running, next run is clean.
#include "probe.h"
using namespace pr;

static void graph_mode(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = src.pick({3, 1}) ? 20 : 10;
    o.maxDepth = src.pick({3, 2, 1});
    o.kinds = {REGION, CLUSTER, REGION, COND, MULTI_S, MULTI_P};
    o.groupDen = 5;
    o.groupLoops = false;
    Gen(src, g, o).build();
    int engine = src.pick({4, 2, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    bool shared = src.chance(1, 5);
    int runs = src.range(2, 6);
    std::vector<int> leaves;
    for (auto& s : g.specs) if (s->kind == NODE) leaves.push_back(s->id);
    std::vector<std::vector<std::pair<int, int>>> plan(runs);   // (leaf, failing call)
    std::vector<int> settle(runs);
    for (int r = 0; r < runs; r++) {
        int k = src.pick({2, 3, 2, 1});
        for (int i = 0; i < k; i++) { int l = leaves[src.below(leaves.size())]; plan[r].push_back({l, (int)src.below(std::max(1, g[l].loop))}); }
        settle[r] = src.pick({3, 1, 1}) * 150;
    }
    ctx.desc << "engine=" << engine << (shared ? " shared " : " ") << pd << "\nfailures per run:";
    for (auto& p : plan) { ctx.desc << " ["; for (auto& x : p) ctx.desc << " " << g[x.first].name << "@" << x.second; ctx.desc << " ]"; }
    ctx.desc << "\n" << g.str();
    ctx.publish();

    rec().reset();
    std::unique_ptr<UThreadPool> pool;
    Pipe pipe;
    Builder(g, pipe.p).build(0);
    pipe.p->setGEngineType(engine_type(engine));
    if (shared) { pool.reset(new UThreadPool(true, cfg)); pipe.p->setSharedThreadPool(pool.get()); }
    else pipe.p->setUniqueThreadPoolConfig(cfg);
    CStatus st = pipe.p->init();
    PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
    int failedRuns = 0, after = 0;
    for (int r = 0; r < runs; r++) {
        g.resetRun();
        for (auto& s : g.specs) s->failAt = -1;
        for (auto& x : plan[r]) g[x.first].failAt = x.second;
        uint32_t from = rec().add(API_B, 0);
        st = pipe.p->run();
        uint32_t to = rec().add(API_E, 0);
        for (auto& s : g.specs) PBT_CHECK(s->inflight.load() == 0, "run %d: %s was still executing after run returned", r, s->name.c_str());
        if (settle[r]) {
            std::this_thread::sleep_for(std::chrono::microseconds(settle[r]));
            PBT_CHECK(rec().size() == to + 1, "run %d: element activity after run returned", r);
        }
        Intervals iv = intervals(g, from + 1, to, "run");
        std::vector<int> failed;
        for (auto& s : g.specs) if (s->kind == NODE && s->failAt >= 0 && (int)iv[s->id].size() > s->failAt) {
            failed.push_back(s->id);
            PBT_CHECK((int)iv[s->id].size() == s->failAt + 1, "run %d: %s was called again after failing", r, s->name.c_str());
        }
        if (failed.empty()) {
            PBT_CHECK(st.isOK(), "run %d returned %d '%s' though nothing failed", r, st.getCode(), st.getInfo().c_str());
            check_full_run(g, from + 1, to, "run");
            if (failedRuns) after++;
            continue;
        }
        failedRuns++;
        PBT_CHECK(st.isErr(), "run %d returned OK though %s failed", r, g[failed[0]].name.c_str());
        bool match = false;
        for (int f : failed) if (st.getCode() == fail_code(&g[f]) && st.getInfo() == fail_msg(&g[f], "run")) match = true;
        PBT_CHECK(match, "run %d returned %d '%s', which is not the status of any element that failed", r, st.getCode(), st.getInfo().c_str());
        check_partial_run(g, iv, "failing run");
        for (int f : failed) for (int x : must_not_start(g, f))
            if (g[x].kind == NODE) PBT_CHECK(iv[x].empty(), "run %d: %s ran though %s, which it depends on, failed", r, g[x].name.c_str(), g[f].name.c_str());
    }
    st = pipe.p->destroy();
    PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
    ctx.nontrivial = failedRuns > 0 && g.size() > 2;
    if (failedRuns) ctx.label("failing run");
    if (after) ctx.label("good run after a failing one");
    ctx.label(std::string("engine:") + (engine == 0 ? "dynamic" : engine == 1 ? "static" : "topo"));
    if (blocking_groups(g)) ctx.label("with groups that wait");
}

static void process_mode(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 8; o.maxDepth = 0; o.loops = false; o.invisible = false;
    Gen(src, g, o).build();
    int engine = src.pick({4, 2, 1});
    int n = src.range(0, 6);
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, 0, pd);
    int k = src.pick({1, 3, 2});
    int first = n;
    for (int i = 0; i < k; i++) { Spec& s = g[src.below(g.size())]; s.failAt = src.range(0, 6); }
    // the failing element that is reached first: an element fails on its failAt-th run, if no earlier run failed
    for (auto& s : g.specs) if (s->failAt >= 0 && s->failAt < first) first = s->failAt;
    ctx.desc << "process(" << n << ") engine=" << engine << " " << pd << "\n" << g.str();
    ctx.publish();
    rec().reset();
    Pipe pipe;
    Builder(g, pipe.p).build(0);
    pipe.p->setGEngineType(engine_type(engine));
    pipe.p->setUniqueThreadPoolConfig(cfg);
    g.resetRun();
    CStatus st = pipe.p->process(n);
    bool bad = first < n;
    PBT_CHECK(st.isErr() == bad, "process returned %d '%s', failing run %s expected", st.getCode(), st.getInfo().c_str(), bad ? "was" : "was not");
    std::vector<int> calls(g.size()), inits(g.size()), destroys(g.size());
    for (uint32_t i = 0; i < rec().size(); i++) {
        const Event& e = rec().buf[i];
        if (e.type == RUN_B) calls[e.id]++;
        if (e.type == INIT) inits[e.id]++;
        if (e.type == DESTROY) destroys[e.id]++;
    }
    int full = bad ? first : n;
    for (auto& s : g.specs) {
        PBT_CHECK(inits[s->id] == 1 && destroys[s->id] == 1, "process: %s had %d init and %d destroy calls", s->name.c_str(), inits[s->id], destroys[s->id]);
        PBT_CHECK(calls[s->id] >= full && calls[s->id] <= full + (bad ? 1 : 0), "process(%d): %s ran %d times, %d runs before the failing one", n, s->name.c_str(), calls[s->id], full);
    }
    if (bad) {
        bool match = false;
        for (auto& s : g.specs) if (s->failAt == first && calls[s->id] == first + 1 && st.getCode() == fail_code(s.get()) && st.getInfo() == fail_msg(s.get(), "run")) match = true;
        PBT_CHECK(match, "process returned %d '%s', not the status of an element that failed", st.getCode(), st.getInfo().c_str());
    }
    ctx.nontrivial = bad && n > 1;
    ctx.label(bad ? "process stopped by a failure" : "process without failure");
}

static void prop(Src& src, Ctx& ctx) {
    if (src.chance(1, 5)) process_mode(src, ctx); else graph_mode(src, ctx);
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
