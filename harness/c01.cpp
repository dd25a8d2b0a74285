// C01: every element runs exactly its loop count, after its dependencies, and everything is over when run returns.
#include "probe.h"
using namespace pr;

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = src.pick({3, 3, 1}) == 2 ? 26 : 12;
    o.maxDepth = src.pick({3, 2, 1});
    o.kinds = {REGION};
    o.groupDen = 5;
    Gen(src, g, o).build();
    int engine = src.pick({4, 2, 1});
    int how = src.below(4);
    std::string pd;
    int need = blocking_groups(g);
    UThreadPoolConfig cfg = gen_pool(src, need, pd);
    bool shared = src.chance(1, 4);
    int inits = src.pick({3, 1, 1}) + 1;
    std::vector<int> runs;
    for (int i = 0; i < inits; i++) runs.push_back(src.range(1, 4));
    ctx.desc << "engine=" << engine << " how=" << how << (shared ? " shared " : " unique ") << pd << " runs=";
    for (int r : runs) ctx.desc << r << " ";
    ctx.desc << "\n" << g.str();
    ctx.publish();

    rec().reset();
    std::unique_ptr<UThreadPool> pool;
    Pipe pipe;
    Builder(g, pipe.p).build(how);
    pipe.p->setGEngineType(engine_type(engine));
    if (shared) { pool.reset(new UThreadPool(true, cfg)); pipe.p->setSharedThreadPool(pool.get()); }
    else pipe.p->setUniqueThreadPoolConfig(cfg);
    int edges = 0, total = 0;
    for (int i = 0; i < inits; i++) {
        CStatus st = pipe.p->init();
        PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
        for (int r = 0; r < runs[i]; r++) {
            g.resetRun();
            uint32_t from = rec().add(API_B, 0);
            st = pipe.p->run();
            uint32_t to = rec().add(API_E, 0);
            PBT_CHECK(st.isOK(), "run returned %d %s", st.getCode(), st.getInfo().c_str());
            for (auto& s : g.specs) PBT_CHECK(s->inflight.load() == 0, "%s still executing after run returned", s->name.c_str());
            check_full_run(g, from + 1, to, "run");
            total = total_expected(g);
        }
        uint32_t before = rec().size();
        st = pipe.p->destroy();
        PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
        for (uint32_t k = before; k < rec().size(); k++) PBT_CHECK(rec().buf[k].type == DESTROY, "element activity after the last run returned");
    }
    for (auto& s : g.specs) edges += (int)s->deps.size();
    ctx.nontrivial = edges >= 2 && total >= 4;
    ctx.label(std::string("engine:") + (engine == 0 ? "dynamic" : engine == 1 ? "static" : "topo"));
    if (need) ctx.label("with regions");
    if (shared) ctx.label("shared pool");
    if (inits > 1) ctx.label("re-init");
    if (edges == 0) ctx.label("no edges");
    if (g.size() > 15) ctx.label("more than 15 elements");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
