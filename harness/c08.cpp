// C08: some-group releases its dependents exactly when enough children have finished; leftovers end before run returns.
#include "probe.h"
using namespace pr;

class PSome : public GSome {
public:
    Spec* s = nullptr;
    std::atomic<int> n{0};
    CSize getWaitNum() override { return (CSize)n.load(); }
    CStatus prepareRun() override { return s ? prepare_answer(s) : CStatus(); }
    CStatus checkRunResult() override { return s ? check_answer(s) : CStatus(); }
};

struct Grp {
    PSome* some = nullptr;
    int id = -1, top = -1;              // spec of the group, of the top-level element it lives in
    int rep = 1;                        // executions per run
    std::vector<int> kids;              // leaf of every child
    std::vector<int> after;             // leaves that directly depend on the top-level element
    std::atomic<int> released{0};
};
struct Plan { int n = 0; std::vector<int> mode; };   // mode per child: 0 fast, 1 slow, 2 fails, 3 slow and fails, 4 throws

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    cur_graph() = &g;
    auto add = [&](Kind k, int parent) {
        int id = (int)g.specs.size();
        g.specs.emplace_back(new Spec());
        g[id].id = id; g[id].kind = k; g[id].parent = parent; g[id].name = "e" + std::to_string(id);
        if (k == NODE) g[id].delay = src.pick({6, 2, 2, 1, 1});
        return id;
    };
    int ng = src.pick({3, 1}) + 1;
    std::vector<std::unique_ptr<Grp>> gs;
    std::vector<int> pre, side;
    int threads = 0;
    for (int i = 0, k = src.range(0, 2); i < k; i++) pre.push_back(add(NODE, -1));
    for (int i = 0; i < ng; i++) {
        gs.emplace_back(new Grp());
        Grp& q = *gs.back();
        int wrap = src.pick({4, 2, 1});          // 0 top level, 1 in a looping cluster, 2 in a region
        int parent = -1;
        if (wrap) { parent = add(wrap == 1 ? CLUSTER : REGION, -1); q.rep = src.range(1, 3); g[parent].loop = q.rep; }
        q.id = add(SOME_K, parent);
        q.top = parent >= 0 ? parent : q.id;
        int m = src.range(1, 4);
        for (int c = 0; c < m; c++) {
            int k = -1;
            if (src.chance(1, 8)) { int cl = add(CLUSTER, q.id); k = add(NODE, cl); g[cl].children.push_back(k); g[q.id].children.push_back(cl); }
            else { k = add(NODE, q.id); g[q.id].children.push_back(k); }
            q.kids.push_back(k);
        }
        if (parent >= 0) g[parent].children.push_back(q.id);
        threads += 1 + 2 * m + (wrap == 2);
        for (int p : pre) if (src.flip()) g[q.top].deps.push_back(p);
        if (i > 0 && src.flip()) g[q.top].deps.push_back(gs[0]->top);
        for (int d = 0, k = src.range(0, 2); d < k; d++) { int x = add(NODE, -1); g[x].deps.push_back(q.top); q.after.push_back(x); }
    }
    for (int i = 0, k = src.range(0, 2); i < k; i++) side.push_back(add(NODE, -1));
    // registration order: dependencies first
    for (int p : pre) g.top.push_back(p);
    for (auto& q : gs) { g.top.push_back(q->top); for (int a : q->after) g.top.push_back(a); }
    for (int s : side) g.top.push_back(s);
    int engine = src.pick({4, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, threads, pd);
    cfg.primary_thread_empty_interval_ = src.pick({8, 1, 1}) == 0 ? 1 : 5;
    cfg.queue_emtpy_interval_ = src.range(1, 3);
    int runs = src.range(1, 5);
    bool reinit = src.chance(1, 4);
    std::vector<std::vector<Plan>> plan(runs);
    bool anySlow = false;
    for (int r = 0; r < runs; r++) for (auto& q : gs) {
        Plan p;
        int m = (int)q->kids.size();
        int slow = src.chance(2, 3) ? src.range(0, m) : 0;
        p.mode.assign(m, 0);
        for (int i = 0; i < slow; i++) p.mode[src.below(m)] = 1;
        int fast = 0;
        for (int x : p.mode) fast += x == 0;
        p.n = src.chance(1, 12) ? m + src.range(1, 2) : src.chance(1, 2) ? fast : src.range(0, fast);
        if (src.chance(1, 6)) { int c = (int)src.below(m); p.mode[c] = p.mode[c] == 1 ? 3 : src.flip() ? 2 : 4; }
        for (int x : p.mode) anySlow |= x == 1 || x == 3;
        plan[r].push_back(p);
    }
    if (anySlow) cfg.batch_task_enable_ = false;   // a batch is one thread's sequence: children in it cannot overlap
    ctx.desc << "engine=" << engine << " " << pd << (reinit ? " reinit" : "") << "\n";
    for (int r = 0; r < runs; r++) { ctx.desc << "run " << r << ":"; for (auto& p : plan[r]) { ctx.desc << " need " << p.n << " modes"; for (int x : p.mode) ctx.desc << x; } ctx.desc << "\n"; }
    ctx.desc << g.str();
    ctx.publish();

    rec().reset();
    std::atomic<bool> gateFree{false};           // this run cannot expect its dependents to start
    std::atomic<int> sawTimeout{0};
    std::vector<std::atomic<int>> seen(g.size());
    for (auto& x : seen) x = 0;
    Pipe pipe;
    GPipelinePtr p = pipe.p;
    for (int id : g.top) {
        Spec& s = g[id];
        GElementPtrSet deps;
        for (int d : s.deps) deps.insert(g[d].ptr);
        CStatus st;
        if (s.kind == NODE) {
            GElementPtr e = nullptr;
            st = p->registerGElement<PNode>(&e, deps, s.name, s.loop);
            bind_spec(e, &s);
        } else {
            Grp* q = nullptr;
            for (auto& x : gs) if (x->top == id) q = x.get();
            GElementPtrArr kids;
            for (int c : g[q->id].children) {
                if (g[c].kind == NODE) { auto* n = p->createGNode<PNode>(GNodeInfo(g[c].name)); bind_spec(n, &g[c]); kids.push_back(n); }
                else {
                    int l = g[c].children[0];
                    auto* n = p->createGNode<PNode>(GNodeInfo(g[l].name)); bind_spec(n, &g[l]);
                    auto* cl = p->createGGroup<PCluster>(GElementPtrArr{n}, {}, g[c].name); bind_spec(cl, &g[c]);
                    kids.push_back(cl);
                }
            }
            q->some = p->createGGroup<PSome>(kids, {}, g[q->id].name);
            q->some->s = &g[q->id];
            GElementPtr e = q->some;
            if (q->top != q->id) {
                if (s.kind == CLUSTER) e = p->createGGroup<PCluster>(GElementPtrArr{q->some}, {}, s.name, s.loop);
                else e = p->createGGroup<PRegion>(GElementPtrArr{q->some}, {}, s.name, s.loop);
                bind_spec(e, &s);
            }
            s.ptr = e;
            st = p->registerGGroup(&e, deps, s.name, s.loop);
        }
        PBT_CHECK(st.isOK(), "registering %s failed: %s", s.name.c_str(), st.getInfo().c_str());
    }
    p->setGEngineType(engine_type(engine));
    p->setUniqueThreadPoolConfig(cfg);
    for (auto& q : gs) {
        for (int a : q->after) { Grp* gp = q.get(); g[a].body = [gp](Spec*) { gp->released = 1; return CStatus(); }; }
    }
    CStatus st = p->init();
    PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
    bool nontriv = false;
    for (int r = 0; r < runs; r++) {
        g.resetRun();
        if (reinit && r == runs / 2 && r > 0) {
            st = p->destroy(); PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
            st = p->init(); PBT_CHECK(st.isOK(), "second init failed: %s", st.getInfo().c_str());
        }
        bool anyFail = false, tooMany = false;
        for (size_t i = 0; i < gs.size(); i++) {
            Grp& q = *gs[i];
            Plan& pl = plan[r][i];
            q.some->n = pl.n;
            q.released = 0;
            if (pl.n > (int)q.kids.size()) tooMany = true;
            for (size_t k = 0; k < q.kids.size(); k++) {
                Spec& c = g[q.kids[k]];
                int mode = pl.mode[k];
                c.failAt = mode >= 2 ? 0 : -1;
                c.failMode = mode == 4;
                if (mode >= 2) anyFail = true;
            }
        }
        gateFree = anyFail || tooMany;
        for (size_t i = 0; i < gs.size(); i++) {
            Grp* q = gs[i].get();
            Plan& pl = plan[r][i];
            for (size_t k = 0; k < q->kids.size(); k++) {
                int mode = pl.mode[k];
                bool slow = mode == 1 || mode == 3;
                bool never = pl.n == (int)q->kids.size() && !anyFail;
                g[q->kids[k]].body = [q, slow, never, &gateFree](Spec* s) {
                    auto* n = static_cast<PNode*>(s->ptr);
                    if (never && n->timedOut()) pbt::failf("%s sees itself as timed out though all children are needed", s->name.c_str());
                    if (!slow) return CStatus();
                    double t0 = pbt::now_s();
                    while (!n->timedOut()) {
                        if (pbt::now_s() - t0 > 8) pbt::failf("child %s was never marked as timed out though enough other children had finished", s->name.c_str());
                        std::this_thread::sleep_for(std::chrono::microseconds(30));
                    }
                    if (q->rep == 1 && !q->after.empty() && !gateFree) {
                        while (!q->released) {
                            if (pbt::now_s() - t0 > 8) pbt::failf("the dependents of the group waited for the slow child %s", s->name.c_str());
                            std::this_thread::sleep_for(std::chrono::microseconds(30));
                        }
                    }
                    do_delay(s->delay + 3);
                    return CStatus();
                };
            }
        }
        uint32_t from = rec().add(API_B, r);
        st = p->run();
        uint32_t to = rec().add(API_E, r);
        for (auto& s : g.specs) PBT_CHECK(s->inflight.load() == 0, "run %d: %s was still executing after run returned", r, s->name.c_str());
        if (src.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(200));
        PBT_CHECK(rec().size() == to + 1, "run %d: element activity after run returned", r);
        for (auto& s : g.specs) if (s->kind == NODE) PBT_CHECK(!static_cast<PNode*>(s->ptr)->timedOut(), "run %d: %s is still marked as timed out after the run", r, s->name.c_str());
        Intervals iv = intervals(g, from + 1, to, "run");
        std::vector<int> failed;
        for (auto& s : g.specs) if (s->kind == NODE && s->failAt >= 0 && !iv[s->id].empty()) failed.push_back(s->id);
        // status
        if (st.isErr()) {
            bool match = false, big = false;
            for (int f : failed) if (g[f].failMode ? st.getCode() == -996 && st.getInfo().find(fail_msg(&g[f], "run")) != std::string::npos : st.getCode() == fail_code(&g[f]) && st.getInfo() == fail_msg(&g[f], "run")) match = true;
            for (size_t i = 0; i < gs.size(); i++) if (plan[r][i].n > (int)gs[i]->kids.size()) big = true;
            PBT_CHECK(match || (big && st.getInfo().find("num is bigger") != std::string::npos) || (big && failed.empty()), "run %d returned %d '%s' though no such failure took place", r, st.getCode(), st.getInfo().c_str());
        } else {
            PBT_CHECK(!tooMany, "run %d returned OK though a group needs more children than it has", r);
        }
        if (!anyFail && !tooMany) PBT_CHECK(st.isOK(), "run %d returned %d '%s' though nothing failed", r, st.getCode(), st.getInfo().c_str());
        bool clean = !anyFail && !tooMany;
        for (int x : pre) { PBT_CHECK(iv[x].size() <= 1, "run %d: %s ran %zu times", r, g[x].name.c_str(), iv[x].size()); if (clean) PBT_CHECK(iv[x].size() == 1, "run %d: %s did not run", r, g[x].name.c_str()); }
        for (int x : side) { PBT_CHECK(iv[x].size() <= 1, "run %d: %s ran %zu times", r, g[x].name.c_str(), iv[x].size()); if (clean) PBT_CHECK(iv[x].size() == 1, "run %d: %s did not run", r, g[x].name.c_str()); }
        for (size_t i = 0; i < gs.size(); i++) {
            Grp& q = *gs[i];
            Plan& pl = plan[r][i];
            int m = (int)q.kids.size();
            int total = 0;
            bool gfail = false;
            for (int k : q.kids) {
                PBT_CHECK((int)iv[k].size() <= q.rep, "run %d: child %s ran %zu times", r, g[k].name.c_str(), iv[k].size());
                total += (int)iv[k].size();
                if (g[k].failAt >= 0 && !iv[k].empty()) gfail = true;
                for (int d : g[q.top].deps) if (!iv[k].empty()) {
                    int64_t need = -1;
                    if (g[d].kind == NODE) { PBT_CHECK(!iv[d].empty(), "run %d: %s ran without %s", r, g[k].name.c_str(), g[d].name.c_str()); need = iv[d][0].second; }
                    PBT_CHECK(iv[k][0].first > need, "run %d: child %s started before %s had finished", r, g[k].name.c_str(), g[d].name.c_str());
                }
            }
            if (pl.n > m) PBT_CHECK(total == 0, "run %d: children ran though the group needs more children than it has", r);
            if (clean) {
                PBT_CHECK(total >= pl.n * q.rep, "run %d: only %d child executions, at least %d needed", r, total, pl.n * q.rep);
                if (pl.n == m) for (int k : q.kids) PBT_CHECK((int)iv[k].size() == q.rep, "run %d: child %s ran %zu times, %d needed", r, g[k].name.c_str(), iv[k].size(), q.rep);
            }
            for (int a : q.after) {
                PBT_CHECK(iv[a].size() <= 1, "run %d: dependent %s ran %zu times", r, g[a].name.c_str(), iv[a].size());
                if (clean) PBT_CHECK(iv[a].size() == 1, "run %d: dependent %s did not run", r, g[a].name.c_str());
                if (iv[a].empty()) continue;
                PBT_CHECK(pl.n <= m, "run %d: dependent %s ran though the group was in error", r, g[a].name.c_str());
                int ended = 0, good = 0;
                for (int k : q.kids) for (size_t c = 0; c < iv[k].size(); c++) if (iv[k][c].second < iv[a][0].first) { ended++; if ((int)c != g[k].failAt) good++; }
                PBT_CHECK(good >= pl.n * q.rep, "run %d: dependent %s started when only %d of the needed %d child executions had finished", r, g[a].name.c_str(), good, pl.n * q.rep);
                if (pl.n == m && gfail) PBT_CHECK(false, "run %d: dependent %s ran though a needed child failed", r, g[a].name.c_str());
            }
            if (pl.n == m && gfail) PBT_CHECK(st.isErr(), "run %d returned OK though a needed child failed", r);
            if (m > 1 && pl.n > 0 && pl.n <= m) nontriv = true;
        }
        if (clean) ctx.label("good run");
        if (anyFail) ctx.label("failing child");
        if (tooMany) ctx.label("too many needed");
    }
    st = p->destroy();
    PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
    ctx.nontrivial = nontriv;
    if (anySlow) ctx.label("gated slow children");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
