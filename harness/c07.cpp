// C07: every group kind executes exactly what it promises, at any nesting, with varying choices per run and failing children.
#include "probe.h"
using namespace pr;

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 6; o.maxDepth = src.pick({2, 3, 2}) + 1; if (src.chance(1, 8)) o.maxDepth = 4;
    o.groupNum = 2; o.groupDen = 5; o.holds = src.flip(); o.maxTotal = 36;
    if (src.chance(1, 3)) o.kinds = {(int)src.range(CLUSTER, MULTI_P), (int)src.range(CLUSTER, MULTI_P)};
    Gen(src, g, o).build();
    int engine = src.pick({3, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    std::vector<int> leaves;
    for (auto& s : g.specs) if (s->kind == NODE) leaves.push_back(s->id);
    int runs = src.range(1, 4);
    // per run: new choices and possibly failing leaves
    struct R { std::vector<std::vector<int>> picks, matches; std::vector<std::pair<int, int>> fails; };
    std::vector<R> plan(runs);
    for (int r = 0; r < runs; r++) {
        plan[r].picks.resize(g.size()); plan[r].matches.resize(g.size());
        for (auto& s : g.specs) {
            plan[r].picks[s->id] = s->picks; plan[r].matches[s->id] = s->matches;
            if (r > 0 && src.chance(1, 2)) {
                for (auto& x : plan[r].picks[s->id]) x = src.range(-2, (int)s->children.size());
                for (auto& x : plan[r].matches[s->id]) x = src.chance(2, 3);
            }
        }
        int k = src.pick({5, 2, 1});
        for (int i = 0; i < k; i++) plan[r].fails.push_back({leaves[src.below(leaves.size())], (int)src.below(4)});
    }
    ctx.desc << "engine=" << engine << " " << pd << " runs=" << runs;
    for (int r = 0; r < runs; r++) { ctx.desc << "\nrun " << r << ":"; for (auto& s : g.specs) if (!plan[r].picks[s->id].empty()) { ctx.desc << " " << s->name << " picks"; for (int x : plan[r].picks[s->id]) ctx.desc << "," << x; }
        for (auto& s : g.specs) if (!plan[r].matches[s->id].empty()) { ctx.desc << " " << s->name << " matches"; for (int x : plan[r].matches[s->id]) ctx.desc << "," << x; }
        for (auto& f : plan[r].fails) ctx.desc << " fail " << g[f.first].name << "@" << f.second; }
    ctx.desc << "\n" << g.str();
    ctx.publish();
    rec().reset();
    Pipe pipe;
    Builder(g, pipe.p).build(src.replaying() ? 0 : 0);
    pipe.p->setGEngineType(engine_type(engine));
    pipe.p->setUniqueThreadPoolConfig(cfg);
    CStatus st = pipe.p->init();
    PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
    int failing = 0;
    for (int r = 0; r < runs; r++) {
        g.resetRun();
        for (auto& s : g.specs) { s->failAt = -1; s->picks = plan[r].picks[s->id]; s->matches = plan[r].matches[s->id]; }
        for (auto& f : plan[r].fails) g[f.first].failAt = f.second;
        uint32_t from = rec().add(API_B, 0);
        st = pipe.p->run();
        uint32_t to = rec().add(API_E, 0);
        for (auto& s : g.specs) PBT_CHECK(s->inflight.load() == 0, "run %d: %s was still executing after run returned", r, s->name.c_str());
        Intervals iv = intervals(g, from + 1, to, "run");
        std::vector<int> failed;
        for (auto& s : g.specs) if (s->kind == NODE && s->failAt >= 0 && (int)iv[s->id].size() > s->failAt) {
            failed.push_back(s->id);
            PBT_CHECK((int)iv[s->id].size() == s->failAt + 1, "run %d: %s was called again after failing", r, s->name.c_str());
        }
        if (failed.empty()) {
            PBT_CHECK(st.isOK(), "run %d returned %d '%s' though nothing failed", r, st.getCode(), st.getInfo().c_str());
            check_full_run(g, from + 1, to, "run");
        } else {
            failing++;
            bool match = false;
            for (int f : failed) if (st.getCode() == fail_code(&g[f]) && st.getInfo() == fail_msg(&g[f], "run")) match = true;
            PBT_CHECK(st.isErr() && match, "run %d returned %d '%s', not the status of a failing child", r, st.getCode(), st.getInfo().c_str());
            check_partial_run(g, iv, "failing run");
            // children of a parallel multi-condition all take part even when one fails
        }
    }
    st = pipe.p->destroy();
    PBT_CHECK(st.isOK(), "destroy failed");
    std::set<int> kinds; int depth = 0;
    for (auto& s : g.specs) { if (s->isGroup()) kinds.insert(s->kind); depth = std::max(depth, (int)g.ancestors(s->id).size()); }
    ctx.nontrivial = !kinds.empty() && leaves.size() >= 3;
    for (int k : kinds) ctx.label(std::string("has ") + kind_name(k));
    if (depth >= 2) ctx.label("nested groups");
    if (failing) ctx.label("failing child");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
