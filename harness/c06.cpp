// C06: per-element run protocol: prepare once per init, loop x hold, check once per execution, errors stop, invisible skipped.
#include "probe.h"
using namespace pr;

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 7; o.maxDepth = src.pick({2, 2, 1}); o.groupDen = 4; o.holds = true; o.maxTotal = 30;
    Gen(src, g, o).build();
    for (auto& s : g.specs) if (src.chance(1, 12)) s->visible = false;
    int engine = src.pick({3, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    int inits = src.range(1, 2);
    struct F { int kind, id, at; };   // 0 none 1 prepare 2 check 3 body
    std::vector<std::vector<F>> plan(inits);
    for (auto& v : plan) { int r = src.range(1, 4); for (int i = 0; i < r; i++) v.push_back(F{src.pick({4, 1, 1, 2}), (int)src.below(g.size()), (int)src.below(4)}); }
    ctx.desc << "engine=" << engine << " " << pd << "\nplan:";
    for (auto& v : plan) { ctx.desc << " init{"; for (auto& f : v) { ctx.desc << " "; if (f.kind) ctx.desc << (f.kind == 1 ? "prepare-fails:" : f.kind == 2 ? "check-fails:" : "body-fails:") << g[f.id].name << "@" << f.at; else ctx.desc << "ok"; } ctx.desc << " }"; }
    ctx.desc << "\n" << g.str();
    ctx.publish();
    rec().reset();
    Pipe pipe;
    Builder(g, pipe.p).build(0);
    pipe.p->setGEngineType(engine_type(engine));
    pipe.p->setUniqueThreadPoolConfig(cfg);
    bool nt = false;
    for (int i = 0; i < inits; i++) {
        CStatus st = pipe.p->init();
        PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
        g.resetInit();
        for (size_t r = 0; r < plan[i].size(); r++) {
            F f = plan[i][r];
            g.resetRun();
            for (auto& s : g.specs) { s->failAt = -1; s->prepareFail = s->checkFail = 0; }
            if (f.kind == 1) g[f.id].prepareFail = 1;
            if (f.kind == 2) g[f.id].checkFail = 1;
            if (f.kind == 3 && g[f.id].kind == NODE) g[f.id].failAt = f.at;
            // interpretation of a run without failures
            std::vector<char> prepBefore(g.size());
            for (auto& s : g.specs) prepBefore[s->id] = s->mPrepared;
            uint32_t from = rec().add(API_B, 0);
            st = pipe.p->run();
            uint32_t to = rec().add(API_E, 0);
            std::vector<std::vector<int>> seen(g.size());
            for (uint32_t k = from + 1; k < to; k++) { const Event& e = rec().buf[k]; if (e.type == RUN_B || e.type == RUN_E || e.type == PREPARE || e.type == HOLD || e.type == CHECKRES) seen[e.id].push_back(e.type); }
            auto cnt = [&](int id, int t) { int c = 0; for (int x : seen[id]) c += x == t; return c; };
            // did the planned failure happen?
            bool happened = false;
            if (f.kind == 1) happened = cnt(f.id, PREPARE) > 0;
            if (f.kind == 2) happened = cnt(f.id, CHECKRES) > 0;
            if (f.kind == 3) happened = g[f.id].failAt >= 0 && cnt(f.id, RUN_B) > f.at;
            if (!happened) {
                PBT_CHECK(st.isOK(), "run returned %d '%s' though nothing failed", st.getCode(), st.getInfo().c_str());
                check_full_run(g, from + 1, to, "run");
                for (auto& s : g.specs) PBT_CHECK(seen[s->id] == s->proto, "protocol of %s differs: saw %zu events, expected %zu (prepare %d/%d run %d hold %d check %d)", s->name.c_str(), seen[s->id].size(),
                    s->proto.size(), cnt(s->id, PREPARE), (int)std::count(s->proto.begin(), s->proto.end(), (int)PREPARE), cnt(s->id, RUN_B), cnt(s->id, HOLD), cnt(s->id, CHECKRES));
                for (auto& s : g.specs) if (!s->holds.empty() || s->loop != 1) nt = true;
            } else {
                nt = true;
                Spec& x = g[f.id];
                PBT_CHECK(st.isErr(), "%s failed but the run returned OK", x.name.c_str());
                if (f.kind == 1) {
                    PBT_CHECK(st.getCode() == fail_code(&x) && st.getInfo() == fail_msg(&x, "prepare"), "run returned %d '%s' instead of the prepare error of %s", st.getCode(), st.getInfo().c_str(), x.name.c_str());
                    PBT_CHECK(cnt(f.id, RUN_B) == 0 && cnt(f.id, HOLD) == 0, "%s ran though its prepareRun failed", x.name.c_str());
                    PBT_CHECK(cnt(f.id, PREPARE) == 1, "prepareRun of %s called %d times in a run it fails in", x.name.c_str(), cnt(f.id, PREPARE));
                } else if (f.kind == 2) {
                    PBT_CHECK(st.getInfo().find(fail_msg(&x, "check")) != std::string::npos, "run returned %d '%s' instead of the check error of %s", st.getCode(), st.getInfo().c_str(), x.name.c_str());
                    PBT_CHECK(cnt(f.id, CHECKRES) == 1, "checkRunResult of %s called %d times", x.name.c_str(), cnt(f.id, CHECKRES));
                } else {
                    PBT_CHECK(st.getCode() == fail_code(&x) && st.getInfo() == fail_msg(&x, "run"), "run returned %d '%s' instead of the error of %s", st.getCode(), st.getInfo().c_str(), x.name.c_str());
                    PBT_CHECK(cnt(f.id, RUN_B) == f.at + 1, "%s ran %d times, its call %d failed", x.name.c_str(), cnt(f.id, RUN_B), f.at);
                }
                Intervals iv = intervals(g, from + 1, to, "failing run");
                check_partial_run(g, iv, "failing run");
                for (auto& s : g.specs) {
                    bool isAnc = s->id == f.id;
                    for (int a : g.ancestors(f.id)) isAnc |= a == s->id;
                    // a prefix of the expected protocol, apart from the element (and owners) that failed
                    if (!isAnc) for (size_t k = 0; k < seen[s->id].size(); k++) PBT_CHECK(k < s->proto.size() && seen[s->id][k] == s->proto[k], "protocol of %s in a failing run is not a prefix of the expected one", s->name.c_str());
                    PBT_CHECK(cnt(s->id, PREPARE) <= (prepBefore[s->id] ? 0 : 1), "prepareRun of %s called again within one init", s->name.c_str());
                    // the interpreter assumed everybody prepared; take what really happened
                    s->mPrepared = prepBefore[s->id] || (cnt(s->id, PREPARE) > 0 && !(f.kind == 1 && s->id == f.id));
                    if (!s->visible) PBT_CHECK(seen[s->id].empty(), "invisible %s was executed", s->name.c_str());
                }
                ctx.label(f.kind == 1 ? "prepare failed" : f.kind == 2 ? "check failed" : "body failed");
            }
        }
        st = pipe.p->destroy();
        PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
    }
    ctx.nontrivial = nt;
    bool holds = false, inv = false, grp = false;
    for (auto& s : g.specs) { holds |= !s->holds.empty(); inv |= !s->visible; grp |= s->isGroup(); }
    if (holds) ctx.label("with holds");
    if (inv) ctx.label("with invisible elements");
    if (grp) ctx.label("with groups");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
