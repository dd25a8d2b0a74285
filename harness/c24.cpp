// C24: serial mode.
#include "probe.h"
using namespace pr;

static bool chain(Graph& g, const std::vector<int>& ids) {
    if (ids.empty()) return false;
    std::map<int, int> suc; int front = 0;
    for (int id : ids) { if (g[id].deps.size() > 1) return false; if (g[id].deps.empty()) front++; for (int d : g[id].deps) if (++suc[d] > 1) return false; }
    return front == 1;
}
static bool serial(Graph& g, int id) {
    Spec& s = g[id];
    if (s.timeout) return false;
    switch (s.kind) {
        case NODE: return true;
        case MULTI_P: if (s.children.size() > 1) return false; break;
        case MUTABLE_K: case SOME_K: return false;
        case REGION: if (s.engine != 0 || !chain(g, s.children)) return false; break;
        default: break;
    }
    for (int c : s.children) if (!serial(g, c)) return false;
    return true;
}

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    cur_graph() = &g;
    GenOpts o;
    o.maxDepth = src.range(0, 3); o.groupNum = 1; o.groupDen = 3; o.maxTotal = 20; o.holds = src.flip();
    bool wild = src.chance(1, 4);         // anything goes
    o.kinds = wild || src.chance(1, 3) ? std::vector<int>{CLUSTER, REGION, COND, MULTI_S, MULTI_P} : std::vector<int>{CLUSTER, REGION, COND, MULTI_S};
    o.engines = wild;
    o.maxTop = 6;
    Gen(src, g, o).build();
    // make every level a chain, then disturb a little
    std::vector<std::vector<int>*> levels{&g.top};
    for (auto& s : g.specs) if (s->kind == REGION) levels.push_back(&s->children);
    if (!wild) for (auto* l : levels) {
        std::vector<int> order = *l;
        for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[src.below((uint32_t)i)]);
        for (size_t i = 0; i < order.size(); i++) { g[order[i]].deps.clear(); if (i) g[order[i]].deps.push_back(order[i - 1]); }
    }
    std::vector<std::vector<int>> ord;    // registration order must be topological: recorded through deps
    int disturb = wild ? 0 : src.pick({4, 1, 1, 1, 1, 1});
    if (disturb == 1) { auto* l = levels[src.below((uint32_t)levels.size())]; if (l->size() > 2) { std::vector<int> tp = Builder(g, nullptr).topo(*l); int i = src.range(2, (int)tp.size() - 1); g[tp[i]].deps.push_back(tp[src.below(i - 1)]); } }        // extra edge
    if (disturb == 2) { auto* l = levels[src.below((uint32_t)levels.size())]; int id = (*l)[src.below((uint32_t)l->size())]; g[id].deps.clear(); }      // missing edge
    if (disturb == 3 || (wild && src.flip())) { Spec& s = g[src.below((uint32_t)g.size())]; if (s.loop <= 1 && s.kind == NODE) { s.timeout = 20000; s.tstrategy = src.range(0, 2); s.holds.clear(); } }
    if (disturb == 4) for (auto& s : g.specs) if (s->kind == REGION && src.flip()) s->engine = src.range(1, 2);
    int engine = disturb == 5 || wild ? src.pick({2, 1, 1}) : 0;
    bool shared = src.chance(1, 8);
    int when = src.range(0, 2);           // 0 before the configuration, 1 after it, 2 twice
    int runs = src.range(1, 3);
    std::vector<int> bad;
    for (int i = 0; i < runs; i++) bad.push_back(src.chance(1, 3) ? (int)src.below((uint32_t)g.size()) : -1);
    int mode = src.range(0, 1);
    bool reinit = src.flip();
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    ctx.desc << "engine=" << engine << " shared=" << shared << " when=" << when << " wild=" << wild << " disturb=" << disturb << " mode=" << mode << " " << pd << "\nfail:";
    for (int b : bad) ctx.desc << " " << b;
    ctx.desc << "\n" << g.str();
    ctx.publish();
    rec().reset();
    bool want = engine == 0 && !shared && chain(g, g.top);
    for (int t : g.top) want = want && serial(g, t);
    UThreadPool tp(false);
    Pipe pipe; GPipelinePtr p = pipe.p;
    Builder(g, p).build(0);
    p->setGEngineType(engine_type(engine));
    if (when != 0) p->setUniqueThreadPoolConfig(cfg);
    if (shared) { UThreadPoolConfig c2 = cfg; c2.monitor_enable_ = false; tp.setConfig(c2); PBT_CHECK(tp.init().isOK(), "pool init"); p->setSharedThreadPool(&tp); }
    CStatus st = p->makeSerial();
    PBT_CHECK(st.isOK() == want, "makeSerial returned %d '%s', expected it to be %s", st.getCode(), st.getInfo().c_str(), want ? "accepted" : "refused");
    if (when == 2) PBT_CHECK(p->makeSerial().isOK() == want, "a second makeSerial decides differently");
    if (when == 0 && !want) p->setUniqueThreadPoolConfig(cfg);
    uint64_t me = (uint64_t)std::hash<std::thread::id>{}(std::this_thread::get_id());
    bool parallel = engine == 0 && g.top.size() > 1;
    for (int t : g.top) parallel &= g[t].deps.empty() && g[t].visible && g[t].loop > 0 && g[t].kind == NODE;
    for (int it = 0; it < (reinit ? 2 : 1); it++) {
        g.resetInit();
        PBT_CHECK((st = p->init()).isOK(), "init failed: %s", st.getInfo().c_str());
        PBT_CHECK(p->makeSerial().isErr(), "makeSerial accepted an initialised pipeline");
        for (int r = 0; r < runs; r++) {
            g.resetRun();
            for (auto& s : g.specs) s->failAt = -1;
            int b = bad[r] >= 0 && g[bad[r]].kind == NODE ? bad[r] : -1;
            if (b >= 0) { g[b].failAt = 0; g[b].failMode = mode; }
            uint32_t from = rec().add(API_B, 0);
            st = p->run();
            uint32_t to = rec().add(API_E, 0);
            bool hit = false;
            for (uint32_t i = from + 1; i < to; i++) {
                const Event& e = rec().buf[i];
                if (e.type == RUN_B) {
                    if (e.id == b) hit = true;
                    if (want) PBT_CHECK(e.tid == me, "%s of a serial pipeline ran on another thread than the caller of run", g[e.id].name.c_str());
                    if (!want && parallel && !(cfg.default_thread_size_ == 0 && cfg.secondary_thread_size_ == 0)) PBT_CHECK(e.tid != me, "%s ran on the caller of run though the pipeline refused to become serial", g[e.id].name.c_str());
                }
            }
            if (!hit) {
                PBT_CHECK(st.isOK(), "run returned %d '%s' though nothing failed", st.getCode(), st.getInfo().c_str());
                check_full_run(g, from + 1, to, "run");
            } else {
                PBT_CHECK(st.isErr() && (mode == 0 ? st.getInfo() == fail_msg(&g[b], "run") : st.getInfo().find(fail_msg(&g[b], "run")) != std::string::npos), "run returned %d '%s' instead of the error of %s", st.getCode(), st.getInfo().c_str(), g[b].name.c_str());
                if (mode == 0) PBT_CHECK(st.getCode() == fail_code(&g[b]), "run returned the code %d instead of %d", st.getCode(), fail_code(&g[b]));
                Intervals iv = intervals(g, from + 1, to, "failing run");
                check_partial_run(g, iv, "failing run");
                if (want) for (uint32_t i = from + 1, after = 0; i < to; i++) { const Event& e = rec().buf[i]; if (e.type == RUN_B) { PBT_CHECK(!after, "%s started after the failure in a serial pipeline", g[e.id].name.c_str()); if (e.id == b) after = 1; } }
            }
        }
        PBT_CHECK((st = p->destroy()).isOK(), "destroy failed: %s", st.getInfo().c_str());
    }
    if (shared) { GPipelineFactory::remove(p); pipe.p = nullptr; tp.destroy(); }
    ctx.nontrivial = g.size() > 1;
    ctx.label(want ? "accepted" : "refused");
    bool as = false, grp = false; for (auto& s : g.specs) { as |= s->timeout > 0; grp |= s->isGroup(); }
    if (as) ctx.label("with an asynchronous element");
    if (grp && want) ctx.label("accepted with groups");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
