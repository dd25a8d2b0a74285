// C09: each execution of a mutable group runs exactly the graph its reshape built.
#include "probe.h"
using namespace pr;

static MPlan gen_plan(Src& src, int n, bool allowBad) {
    MPlan p;
    std::vector<int> perm(n);
    for (int i = 0; i < n; i++) perm[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(perm[i], perm[src.below(i + 1)]);
    auto deps = gen_dag(src, n);
    int keep = src.pick({2, 2, 1});             // all edges, half of them, none
    for (int j = 0; j < n; j++) for (int d : deps[j]) if (keep == 0 || (keep == 1 && src.flip())) p.ops.push_back({src.chance(1, 6) ? 3 : 2, perm[d], perm[j]});
    int extra = src.range(0, n);
    for (int i = 0; i < extra; i++) {
        int a = (int)src.below(n);
        switch (src.pick({3, 3, 1, 1})) {
            case 0: p.ops.push_back({0, a, 0}); break;
            case 1: p.ops.push_back({1, a, src.range(0, 3)}); break;
            case 2: p.ops.push_back({2, a, a}); break;
            case 3: p.ops.push_back({4, a, src.range(0, 1)}); break;
        }
    }
    // order of the operations is arbitrary
    for (int i = (int)p.ops.size() - 1; i > 0; i--) if (src.flip()) std::swap(p.ops[i], p.ops[src.below(i + 1)]);
    if (allowBad) {
        int k = src.pick({6, 1, 1, 3});
        if (k == 1 || k == 2) p.fail = k;
        if (k == 3 && n > 1) {   // a cycle through 2..n children
            int len = src.range(2, n);
            for (int i = 0; i < len; i++) p.ops.push_back({2, perm[i], perm[(i + 1) % len]});
        }
    }
    return p;
}

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 5;
    o.maxDepth = src.pick({3, 2});
    o.maxDepth += 1;
    o.groupNum = 1; o.groupDen = 2;
    o.kinds = {MUTABLE_K, MUTABLE_K, MUTABLE_K, CLUSTER, REGION, COND, MULTI_S, MULTI_P};
    o.holds = src.chance(1, 3);
    cur_graph() = &g;
    Gen gen(src, g, o);
    gen.build();
    std::vector<int> muts;
    for (auto& s : g.specs) if (s->kind == MUTABLE_K) muts.push_back(s->id);
    for (int m : muts) for (int c : g[m].children) g[c].visible = true;   // elements hidden at init are not initialised
    int engine = src.pick({3, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    bool shared = src.chance(1, 6);
    int runs = src.range(1, 6);
    int reinit = src.chance(1, 3) ? src.range(1, runs) : 0;
    std::vector<std::map<int, std::vector<MPlan>>> plans(runs);
    std::vector<std::pair<int, int>> leafFail(runs, {-1, 0});
    std::vector<int> leaves;
    for (auto& s : g.specs) if (s->kind == NODE) leaves.push_back(s->id);
    ctx.desc << "engine=" << engine << (shared ? " shared " : " ") << pd << (reinit ? " reinit before run " + std::to_string(reinit) : "") << "\n" << g.str();
    for (int r = 0; r < runs; r++) {
        ctx.desc << "run " << r << ":\n";
        int badAt = src.chance(1, 4) && !muts.empty() ? (int)muts[src.below(muts.size())] : -1;
        if (badAt < 0 && src.chance(1, 6) && !leaves.empty()) { leafFail[r] = {leaves[src.below(leaves.size())], src.range(0, 1)}; ctx.desc << "  " << g[leafFail[r].first].name << " fails at call " << leafFail[r].second << "\n"; }
        for (int m : muts) {
            int k = src.range(1, 3);
            for (int i = 0; i < k; i++) {
                plans[r][m].push_back(gen_plan(src, (int)g[m].children.size(), m == badAt));
                ctx.desc << "  " << g[m].name << " reshape " << i << ": " << plans[r][m].back().str() << "\n";
            }
        }
    }
    ctx.publish();

    rec().reset();
    std::unique_ptr<UThreadPool> pool;
    Pipe pipe;
    Builder(g, pipe.p).build(src.pick({3, 1, 1}));
    pipe.p->setGEngineType(engine_type(engine));
    if (shared) { pool.reset(new UThreadPool(true, cfg)); pipe.p->setSharedThreadPool(pool.get()); }
    else pipe.p->setUniqueThreadPoolConfig(cfg);
    CStatus st = pipe.p->init();
    PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
    int good = 0, bad = 0;
    bool after = false;
    // children of mutable groups: what the interpreter sees is decided by the reshapes alone
    for (int r = 0; r < runs; r++) {
        if (reinit && r == reinit) {
            st = pipe.p->destroy(); PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
            st = pipe.p->init(); PBT_CHECK(st.isOK(), "second init failed: %s", st.getInfo().c_str());
            g.resetInit();
        }
        g.resetRun();
        for (auto& s : g.specs) s->failAt = -1;
        for (auto& x : plans[r]) g[x.first].plans = x.second;
        if (leafFail[r].first >= 0) g[leafFail[r].first].failAt = leafFail[r].second;
        uint32_t from = rec().add(API_B, r);
        st = pipe.p->run();
        uint32_t to = rec().add(API_E, r);
        for (auto& s : g.specs) PBT_CHECK(s->inflight.load() == 0, "run %d: %s was still executing after run returned", r, s->name.c_str());
        Intervals iv = intervals(g, from + 1, to, "run");
        std::vector<int> failed;
        for (auto& s : g.specs) if (s->kind == NODE && s->failAt >= 0 && (int)iv[s->id].size() > s->failAt) failed.push_back(s->id);
        // which reshapes took place, and did one of them have to fail?
        bool mustFail = !failed.empty();
        std::set<std::string> msgs;
        std::string cyc;
        std::vector<int> nres(g.size());
        for (uint32_t i = from + 1; i < to; i++) if (rec().buf[i].type == RESHAPE) nres[rec().buf[i].id]++;
        for (int m : muts) for (int i = 0; i < nres[m]; i++) {
            MPlan& p = g[m].plans[i % g[m].plans.size()];
            if (p.fail) { mustFail = true; msgs.insert(fail_msg(&g[m], "reshape")); PBT_CHECK(i == nres[m] - 1, "run %d: %s was reshaped again after its reshape failed", r, g[m].name.c_str()); }
            else {
                Interp in(g);
                int n = (int)g[m].children.size();
                std::vector<std::set<int>> dep(n);
                for (auto& x : p.ops) if ((x.kind == 2 || x.kind == 3) && x.a != x.b) dep[x.b].insert(x.a);
                std::set<int> done;
                for (bool grow = true; grow;) { grow = false; for (int c = 0; c < n; c++) if (!done.count(c)) { bool ok = true; for (int d : dep[c]) if (!done.count(d)) ok = false; if (ok) { done.insert(c); grow = true; } } }
                if ((int)done.size() != n) { mustFail = true; cyc = "dag"; PBT_CHECK(i == nres[m] - 1, "run %d: %s was reshaped again after a cyclic reshape", r, g[m].name.c_str()); }
            }
        }
        if (!mustFail) {
            PBT_CHECK(st.isOK(), "run %d returned %d '%s' though nothing failed", r, st.getCode(), st.getInfo().c_str());
            check_full_run(g, from + 1, to, "run");
            good++;
            if (bad) after = true;
        } else {
            PBT_CHECK(st.isErr(), "run %d returned OK though a reshape or a child failed", r);
            bool match = !cyc.empty() && st.getInfo().find("dag") != std::string::npos;
            for (auto& m : msgs) if (st.getInfo().find(m) != std::string::npos) match = true;
            for (int f : failed) if (st.getInfo() == fail_msg(&g[f], "run")) match = true;
            PBT_CHECK(match, "run %d returned %d '%s', which is not the failure that took place", r, st.getCode(), st.getInfo().c_str());
            check_partial_run(g, iv, "failing run");
            bad++;
        }
    }
    st = pipe.p->destroy();
    PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
    ctx.nontrivial = !muts.empty() && good > 0 && runs > 1;
    if (bad) ctx.label("run with a failing or cyclic reshape or child");
    if (after) ctx.label("good run after a failing one");
    if (muts.size() > 1) ctx.label("several mutable groups");
    if (reinit) ctx.label("reinit");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
