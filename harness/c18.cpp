// C18: timeouts and fences.
#include "probe.h"
using namespace pr;

enum Role { PLAIN = 0, FAST, SLOW, EITHER, GFAST, GSLOW, CONDX, FENCE_R };
static const char* role_n[] = {"plain", "fast-async", "slow-async", "either-async", "fast-async-group", "slow-async-group", "cond-with-async", "fence"};
enum Gate { G_TIMEOUT = 0, G_DEP, G_AFTER };          // the slow body ends: after the timeout was notified / after a dependent started / after the run returned
struct Ent {
    Role role = PLAIN;
    int strategy = 0;                     // 0 error, 1 hold by pipeline, 2 no hold
    Gate gate = G_TIMEOUT;
    int dep = -1;                         // the dependent the gate waits for
    int spec = -1;                        // spec of the element (not for fences)
    std::vector<int> body;                // leaf specs executed by it (groups, cond children), in order
    std::vector<int> deps;                // entries
    std::vector<int> waits;               // fences: async specs waited for
    GElementPtr ptr = nullptr;
    std::set<int> anc;
};
struct World {
    std::mutex m; std::condition_variable cv;
    std::set<int> timeouts, started;      // specs
    bool runOver = false, planFail = false, giveUp = false;
} static W;

class TAspect : public GAspect {
public:
    CVoid enterTimeout() override {
        int id = atoi(getName().c_str() + 1);
        rec().add(ASPECT, id, A_TIMEOUT);
        std::lock_guard<std::mutex> lk(W.m);
        W.timeouts.insert(id);
        W.cv.notify_all();
    }
    CVoid enterCrashed() override { rec().add(ASPECT, atoi(getName().c_str() + 1), A_CRASH); }
};

static void prop(Src& src, Ctx& ctx) {
    Graph g; cur_graph() = &g;
    int n = src.sized(2, 9);
    int engine = src.pick({4, 1, 2});
    std::vector<Ent> es(n);
    auto spec = [&](Kind k, int parent) {
        int id = (int)g.specs.size();
        g.specs.emplace_back(new Spec());
        Spec& s = g[id]; s.id = id; s.kind = k; s.parent = parent; s.name = "e" + std::to_string(id);
        if (k == NODE) { s.delay = src.pick({6, 2, 2, 1, 1}); if (s.delay == 4) s.delay = src.range(4, 8); }
        return id;
    };
    auto dags = gen_dag(src, n);
    int nasync = 0, nfence = 0, nregion = 0;
    bool failing = src.chance(1, 2);
    int errSlow = failing && src.chance(1, 3) ? 1 : 0;   // one slow element whose timeout is an error
    for (int i = 0; i < n; i++) {
        Ent& e = es[i];
        e.deps = dags[i];
        std::vector<int> cand;            // async specs among the ancestors
        for (int d : e.deps) { e.anc.insert(d); e.anc.insert(es[d].anc.begin(), es[d].anc.end()); }
        for (int a : e.anc) {
            if (es[a].role == FAST || es[a].role == SLOW || es[a].role == EITHER || es[a].role == GFAST || es[a].role == GSLOW) cand.push_back(es[a].spec);
            if (es[a].role == CONDX) for (int c : es[a].body) cand.push_back(c);
        }
        int r = src.pick({4, 2, 4, 2, 1, 2, 1, cand.empty() ? 0 : 5});
        if (r == CONDX && e.deps.size() > 8) r = PLAIN;
        e.role = (Role)r;
        if (e.role == FENCE_R) {
            for (int c : cand) if (src.chance(2, 3)) e.waits.push_back(c);
            if (e.waits.empty()) e.waits.push_back(cand[0]);
            nfence++;
            continue;
        }
        if (e.role == PLAIN) { e.spec = spec(NODE, -1); e.body = {e.spec}; continue; }
        e.strategy = src.range(0, 2);
        if (e.role == SLOW || e.role == GSLOW) { if (errSlow && e.role == SLOW) { e.strategy = 0; errSlow = 0; failing = false; W.planFail = true; } else e.strategy = e.role == GSLOW ? 1 : src.range(1, 2); }
        if (e.role == EITHER) e.strategy = src.range(1, 2);
        int timeout = e.role == FAST || e.role == GFAST ? 20000 : src.range(1, 4);
        if (e.role == CONDX) {
            e.spec = spec(COND, -1);
            int k = src.range(1, 3);
            for (int c = 0; c < k; c++) {
                int id = spec(NODE, e.spec);
                g[id].timeout = src.flip() ? 20000 : 1; g[id].tstrategy = g[id].timeout > 1 ? src.range(0, 2) : src.range(1, 2);
                if (g[id].timeout == 1) g[id].delay = 12 + src.range(0, 40);
                e.body.push_back(id); nasync++;
            }
            g[e.spec].children = e.body;
            int pk = src.range(1, 3);
            for (int c = 0; c < pk; c++) g[e.spec].picks.push_back(src.range(-2, k));
            continue;
        }
        nasync++;
        if (e.role == GFAST || e.role == GSLOW) {
            Kind k = e.role == GSLOW ? CLUSTER : src.flip() ? CLUSTER : REGION;
            e.spec = spec(k, -1);
            if (k == REGION) { nregion++; g[e.spec].engine = src.range(0, 2); }
            int c = src.range(1, 3), inner = e.spec;
            if (k == CLUSTER && src.flip()) {       // the bodies sit deeper than directly below the timed group
                for (int lv = src.range(1, 2); lv > 0; lv--) { int id = spec(CLUSTER, inner); g[inner].children = {id}; inner = id; }
            }
            for (int j = 0; j < c; j++) { int id = spec(NODE, inner); if (k == REGION && j && src.flip()) g[id].deps.push_back(e.body[src.below(j)]); e.body.push_back(id); }
            g[inner].children = e.body;
        } else { e.spec = spec(NODE, -1); e.body = {e.spec}; }
        g[e.spec].timeout = timeout; g[e.spec].tstrategy = e.strategy;
        if (e.role == EITHER) g[e.spec].delay = src.flip() ? src.range(0, 3) : 3 + timeout * 50 + src.range(-12, 12);
    }
    W.planFail = failing;
    for (auto& e : es) if (e.role == SLOW && e.strategy == 0) W.planFail = true;
    // gates
    auto fenced = [&](int sp) { for (auto& e : es) for (int w : e.waits) if (w == sp) return true; return false; };
    for (int i = 0; i < n; i++) {
        Ent& e = es[i];
        if (e.role != SLOW && e.role != GSLOW) continue;
        bool f = fenced(e.spec);
        if (!f && e.role == SLOW && e.strategy != 1 && src.chance(2, 3)) { e.gate = G_AFTER; continue; }
        if (e.strategy == 0) continue;
        std::vector<int> c;
        for (int j = i + 1; j < n; j++) {
            if (es[j].role != PLAIN) continue;
            bool direct = false, bad = false;
            for (int d : es[j].deps) direct |= d == i;
            for (int a : es[j].anc) bad |= es[a].role == FENCE_R;
            if (engine) bad |= nfence > 0;      // these engines execute layer by layer or one by one: a fence holds up everything behind it
            if (direct && !bad) c.push_back(j);
        }
        if (!c.empty() && src.chance(4, 5)) { e.gate = G_DEP; e.dep = c[src.below(c.size())]; }
    }
    int inits = src.range(1, 2);
    std::vector<std::vector<std::pair<int, int>>> plan(inits);   // (spec that fails, how)
    for (auto& v : plan) { int r = src.range(1, 3); for (int i = 0; i < r; i++) {
        int who = -1, how = src.range(0, 1);
        if (failing && src.chance(2, 3)) { Ent& e = es[src.below(n)]; if (e.role != FENCE_R) who = e.body[src.below(e.body.size())]; }
        v.push_back({who, how});
    } }
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, 2 * nasync + nfence + nregion + 1, pd);
    cfg.batch_task_enable_ = false;
    cfg.primary_thread_empty_interval_ = src.range(1, 5);
    cfg.queue_emtpy_interval_ = src.range(1, 5);
    bool late = src.flip();                // leftover bodies are released only while the pipeline is being destroyed
    ctx.desc << "engine=" << engine << " late=" << late << " " << pd << "\n";
    for (int i = 0; i < n; i++) {
        Ent& e = es[i];
        ctx.desc << i << ":" << role_n[e.role];
        if (e.spec >= 0) ctx.desc << "(e" << e.spec << " strategy=" << e.strategy << " timeout=" << g[e.spec].timeout << " gate=" << e.gate << (e.dep >= 0 ? "/" + std::to_string(e.dep) : "") << ")";
        if (!e.waits.empty()) { ctx.desc << " waits{"; for (int w : e.waits) ctx.desc << " e" << w; ctx.desc << " }"; }
        ctx.desc << " <-"; for (int d : e.deps) ctx.desc << " " << d;
        ctx.desc << "\n";
    }
    ctx.desc << "failures:"; for (auto& v : plan) { ctx.desc << " init{"; for (auto& f : v) ctx.desc << " " << f.first << (f.second ? "t" : "s"); ctx.desc << " }"; }
    ctx.desc << "\n" << g.str();
    ctx.publish();
    rec().reset();
    // bodies
    std::vector<Ent*> owner(g.size(), nullptr);
    std::vector<int> gateDep(g.size(), -1);
    for (auto& e : es) {
        if (e.role == FENCE_R) continue;
        for (int b : e.body) owner[b] = &e;
        for (int b : e.body) {
            Ent* ep = &e; bool first = b == e.body[0];
            bool slow = (e.role == SLOW || e.role == GSLOW) && first;
            g[b].body = [ep, slow, &es, &g](Spec* s) -> CStatus {
                std::unique_lock<std::mutex> lk(W.m);
                W.started.insert(s->id);
                W.cv.notify_all();
                if (!slow) return CStatus();
                auto depStarted = [&] { return ep->dep < 0 || W.started.count(es[ep->dep].spec) > 0; };
                W.cv.wait(lk, [&] { return W.giveUp || W.timeouts.count(ep->spec) > 0; });
                if (ep->gate == G_DEP) {
                    if (W.planFail) W.cv.wait_for(lk, std::chrono::milliseconds(15), [&] { return W.giveUp || depStarted(); });
                    else W.cv.wait(lk, [&] { return W.giveUp || depStarted(); });
                    bool sure = depStarted() && ep->strategy == 1;
                    lk.unlock();
                    if (sure && !static_cast<PNode*>(s->ptr)->timedOut()) pbt::failf("%s does not see itself as timed out while it goes on after its timeout", s->name.c_str());
                    rec().add(MISC, s->id, sure);
                } else if (ep->gate == G_AFTER) W.cv.wait(lk, [&] { return W.giveUp || W.runOver; });
                return CStatus();
            };
        }
    }
    Pipe pipe;
    GPipelinePtr p = pipe.p;
    Builder b(g, p);
    std::vector<GFence*> fences;
    for (auto& e : es) {
        GElementPtrSet deps; for (int d : e.deps) deps.insert(es[d].ptr);
        CStatus st;
        if (e.role == FENCE_R) {
            GFence* f = nullptr;
            st = p->registerGElement<GFence>(&f, deps, "fence");
            PBT_CHECK(st.isOK(), "registering a fence failed: %s", st.getInfo().c_str());
            e.ptr = f;
            std::set<GElementPtr> w;
            for (int x : e.waits) w.insert(g[x].ptr);
            // an element without timeout is refused
            for (auto& o : es) if (o.role == PLAIN && o.ptr) { PBT_CHECK(has_cpp_exception([&] { f->waitGElement(o.ptr); }), "a fence accepted an element that is not asynchronous"); break; }
            f->waitGElements(w);
            fences.push_back(f);
        } else {
            if (g[e.spec].kind == NODE) { GElementPtr x = nullptr; st = p->registerGElement<PNode>(&x, deps, g[e.spec].name, 1); if (st.isOK()) bind_spec(x, &g[e.spec]); }
            else { GElementPtr x = b.make_group(e.spec, {}, g[e.spec].name); st = b.reg_group(g[e.spec], x, deps); }
            PBT_CHECK(st.isOK(), "registering %s failed: %s", g[e.spec].name.c_str(), st.getInfo().c_str());
            e.ptr = g[e.spec].ptr;
            b.config(g[e.spec]);
            if (g[e.spec].kind != NODE) for (int c : e.body) b.config(g[c]);
            e.ptr->addGAspect<TAspect>();
            if (e.role == CONDX) for (int c : e.body) g[c].ptr->addGAspect<TAspect>();
        }
    }
    // refused settings
    for (auto& s : g.specs) {
        PBT_CHECK(has_cpp_exception([&] { s->ptr->setTimeout(-1 - (int)src.below(5)); }), "a negative timeout was accepted");
        if (s->timeout) continue;
        s->ptr->setLoop(2 + src.below(3));
        PBT_CHECK(has_cpp_exception([&] { s->ptr->setTimeout(10); }), "a timeout was accepted by an element whose loop count is above one");
        s->ptr->setLoop(1);
        break;
    }
    p->setGEngineType(engine_type(engine));
    p->setUniqueThreadPoolConfig(cfg);
    if (src.chance(1, 6)) for (auto& s : g.specs) if (s->timeout) {
        // a loop count set after the timeout / a timeout withdrawn behind a fence's back: the pipeline refuses to start
        int keep = s->timeout;
        if (fenced(s->id) && src.flip()) { s->ptr->setTimeout(0); PBT_CHECK(p->init().isErr(), "a fence on an element that is not asynchronous was accepted"); s->ptr->setTimeout(keep, (GElementTimeoutStrategy)s->tstrategy); }
        else {
            bool thrown = has_cpp_exception([&] { s->ptr->setLoop(2); });
            if (!thrown) PBT_CHECK(p->init().isErr(), "a timeout with a loop count above one was accepted");
            s->ptr->setLoop(1);
        }
        ctx.label("refused configuration");
        return;      // what a failed init leaves behind is not the subject here
    }
    bool sawTimeout = false;
    std::vector<int> pauses;
    if (src.chance(1, 3)) for (int k = src.range(1, 4); k > 0; k--) pauses.push_back(src.range(0, 5) * 400 + src.range(0, 99));
    for (int it = 0; it < inits; it++) {
        CStatus st = p->init();
        PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
        g.resetInit();
        uint32_t from = 0, to = 0;
        std::vector<int> pend;              // specs whose body may be left over
        for (size_t r = 0; r < plan[it].size(); r++) {
            g.resetRun();
            // picks continue over the runs
            for (auto& s : g.specs) { s->failAt = -1; }
            int bad = plan[it][r].first;
            if (bad >= 0) { g[bad].failAt = 0; g[bad].failMode = plan[it][r].second; }
            for (auto& e : es) if (e.role == CONDX) std::rotate(g[e.spec].picks.begin(), g[e.spec].picks.begin() + 1, g[e.spec].picks.end());
            { std::lock_guard<std::mutex> lk(W.m); W.timeouts.clear(); W.started.clear(); W.runOver = false; W.giveUp = false; }
            from = rec().add(API_B, 0);
            std::thread pauser;
            if (pauses.size() && src.flip()) pauser = std::thread([&] {    // pausing does not undo anything
                for (int us : pauses) { std::this_thread::sleep_for(std::chrono::microseconds(us)); if (p->suspend().isErr()) pbt::fail("suspend failed on an initialised pipeline"); std::this_thread::sleep_for(std::chrono::microseconds(us % 300)); if (p->resume().isErr()) pbt::fail("resume failed on an initialised pipeline"); }
            });
            bool escaped = has_cpp_exception([&] { st = p->run(); });
            if (pauser.joinable()) { pauser.join(); ctx.label("paused"); }
            to = rec().add(API_E, 0);
            PBT_CHECK(!escaped, "run let an exception of an element escape");
            bool lastRun = r + 1 == plan[it].size();
            if (!(lastRun && late)) { std::lock_guard<std::mutex> lk(W.m); W.runOver = true; W.cv.notify_all(); }
            // ---- events
            struct L { int64_t s = -1, e = -1; int n = 0; };
            auto collect = [&](uint32_t upto, std::vector<L>& L1, std::vector<std::vector<int64_t>>& tmo, std::vector<int>& crash) {
                L1.assign(g.size(), L()); tmo.assign(g.size(), {}); crash.assign(g.size(), 0);
                for (uint32_t k = from + 1; k < upto; k++) {
                    const Event& e = rec().buf[k];
                    if (e.type == RUN_B) { L1[e.id].s = k; L1[e.id].n++; }
                    if (e.type == RUN_E) L1[e.id].e = k;
                    if (e.type == ASPECT && e.aux == A_TIMEOUT) tmo[e.id].push_back(k);
                    if (e.type == ASPECT && e.aux == A_CRASH) crash[e.id]++;
                }
            };
            std::vector<L> L1; std::vector<std::vector<int64_t>> tmo; std::vector<int> crash;
            collect(to, L1, tmo, crash);
            std::vector<int> leftover;
            for (auto& e : es) if (e.role != FENCE_R && e.role != CONDX) for (int x : e.body) if (L1[x].e < 0 && (L1[x].s >= 0 || (g[e.spec].kind == NODE && !tmo[e.spec].empty()))) leftover.push_back(x);
            // leftovers: only timed-out elements nobody waits for
            for (int x : leftover) {
                Ent& e = *owner[x];
                PBT_CHECK(!tmo[e.spec].empty() && (e.role == SLOW || e.role == EITHER) && e.strategy != 1, "%s was still executing when run returned", g[x].name.c_str());
                for (int i = 0; i < n; i++) if (es[i].role == FENCE_R) for (int w : es[i].waits) if (w == x && st.isOK()) pbt::failf("%s was still executing when run returned OK though a fence waits for it", g[x].name.c_str());
                pend.push_back(x);
            }
            if (!(lastRun && late)) {   // let leftovers end before the next run
                double t0 = pbt::now_s();
                for (int x : leftover) while (g[x].ends.load() == 0) { std::this_thread::sleep_for(std::chrono::microseconds(50)); if (pbt::now_s() - t0 > 25) pbt::failf("harness: leftover %s does not end", g[x].name.c_str()); }
                pend.clear();
                for (auto& e : es) if (e.role == CONDX) for (int x : e.body) while ((L1[x].s >= 0 || !tmo[x].empty()) && g[x].ends.load() == 0) std::this_thread::sleep_for(std::chrono::microseconds(50));
            }
            // which entries failed, which were reached
            std::vector<int> state(n, 1);     // 1 completed, 0 failed, -1 unreached
            std::vector<int64_t> done(n, -1);
            bool mustErr = false; int culprit = -1; bool byTimeout = false;
            for (int i = 0; i < n; i++) {
                Ent& e = es[i];
                int64_t lb = -1; bool reach = true;
                for (int d : e.deps) { if (state[d] != 1) reach = false; if (done[d] > lb) lb = done[d]; }
                if (!reach) {
                    state[i] = -1;
                    for (int x : e.body) PBT_CHECK(L1[x].s < 0, "%s started though an element it depends on failed", g[x].name.c_str());
                    continue;
                }
                done[i] = lb;
                if (e.role == FENCE_R) {
                    for (int w : e.waits) {
                        Ent* o = nullptr; for (auto& q : es) if (q.spec == w || std::count(q.body.begin(), q.body.end(), w)) o = &q;
                        std::vector<int> leaves = g[w].kind == NODE ? std::vector<int>{w} : o->body;
                        for (int x : leaves) if (L1[x].s >= 0 || !tmo[x].empty()) { if (L1[x].e < 0) { PBT_CHECK(st.isErr(), "a fence let the run succeed before %s finished", g[x].name.c_str()); continue; } if (L1[x].e > done[i]) done[i] = L1[x].e; }
                        for (int x : leaves) if (x == bad && L1[x].s >= 0) { state[i] = 0; mustErr = true; culprit = x; }
                    }
                    continue;
                }
                // start order
                std::vector<int> expect = e.body;
                if (e.role == CONDX) {
                    int k = g[e.spec].picks[0];
                    if (k == -1) k = (int)e.body.size() - 1;
                    expect.clear();
                    if (k >= 0 && k < (int)e.body.size()) expect.push_back(e.body[k]);
                    for (int x : e.body) if (!std::count(expect.begin(), expect.end(), x)) PBT_CHECK(L1[x].n == 0, "%s was executed though it was not chosen", g[x].name.c_str());
                }
                bool otherFailed = false;
                for (int j = 0; j < i; j++) if (state[j] == 0) otherFailed = true;
                bool any = false;
                for (int x : expect) {
                    if (L1[x].s < 0) continue;
                    any = true;
                    PBT_CHECK(L1[x].n == 1, "%s was executed %d times in one run", g[x].name.c_str(), L1[x].n);
                    PBT_CHECK(L1[x].s > lb, "%s started before something it depends on had completed", g[x].name.c_str());
                }
                (void)otherFailed;
                auto tm = [&](int x) { return tmo[x].empty() ? (int64_t)-1 : tmo[x][0]; };
                for (int x : e.body) PBT_CHECK(tmo[x].size() <= 1, "the timeout of %s was notified %zu times", g[x].name.c_str(), tmo[x].size());
                PBT_CHECK(tmo[e.spec].size() <= 1, "the timeout of %s was notified %zu times", g[e.spec].name.c_str(), tmo[e.spec].size());
                if (e.role == PLAIN || e.role == FAST || e.role == GFAST) PBT_CHECK(tmo[e.spec].empty(), "a timeout was notified for %s, which was in time", g[e.spec].name.c_str());
                bool gone = !tmo[e.spec].empty();
                for (int x : expect) gone |= !tmo[x].empty();
                if (!any && !expect.empty() && !gone) {
                    // may only be left out when the run failed somewhere else
                    state[i] = -2;      // not executed
                    continue;
                }
                if (e.role == SLOW || e.role == GSLOW) PBT_CHECK(tm(e.spec) >= 0, "no timeout was notified for %s", g[e.spec].name.c_str());
                bool t = tm(e.spec) >= 0;
                bool failed = false;
                if (e.role == CONDX) {
                    for (int x : expect) {
                        bool ct = tm(x) >= 0;
                        if (g[x].timeout > 1) PBT_CHECK(!ct, "a timeout was notified for %s, which was in time", g[x].name.c_str());
                        int64_t end = ct ? tm(x) : L1[x].e;
                        if (end > done[i]) done[i] = end;
                        if (!ct) PBT_CHECK(L1[x].e >= 0, "%s was still executing when run returned", g[x].name.c_str());
                        if (ct && g[x].tstrategy == 1) PBT_CHECK(L1[x].e >= 0, "run returned before %s had finished though the pipeline holds for it", g[x].name.c_str());
                        if (x == bad) { if (!ct) failed = true; else if (g[x].tstrategy == 1) { mustErr = true; culprit = x; } }
                    }
                } else if (t) {
                    sawTimeout = true;
                    if (tm(e.spec) > done[i]) done[i] = tm(e.spec);
                    if (e.strategy == 0) { failed = true; byTimeout = true; }
                    if (e.strategy == 1) {
                        for (int x : expect) if (L1[x].s >= 0 || g[e.spec].kind == NODE) PBT_CHECK(L1[x].e >= 0, "run returned before %s had finished though the pipeline holds for it", g[x].name.c_str());
                        if (bad >= 0 && std::count(expect.begin(), expect.end(), bad) && L1[bad].s >= 0) { mustErr = true; culprit = bad; }
                    }
                    if (e.role == GSLOW) {
                        // children that had not started when the timeout passed (certainly, if the gate saw a dependent start) are left out
                        bool sure = false;
                        for (uint32_t k = from + 1; k < to; k++) if (rec().buf[k].type == MISC && rec().buf[k].id == e.body[0] && rec().buf[k].aux) sure = true;
                        if (sure) for (size_t c = 1; c < e.body.size(); c++) PBT_CHECK(L1[e.body[c]].s < 0, "%s started inside a group that had already timed out", g[e.body[c]].name.c_str());
                    }
                } else {
                    bool inside = false;
                    for (int x : expect) {
                        if (x == bad) inside = true;
                        if (L1[x].s < 0) { PBT_CHECK(bad >= 0 && std::count(expect.begin(), expect.end(), bad), "%s was left out", g[x].name.c_str()); continue; }
                        PBT_CHECK(L1[x].e >= 0, "%s was still executing when run returned", g[x].name.c_str());
                        if (L1[x].e > done[i]) done[i] = L1[x].e;
                    }
                    if (inside && L1[bad].s >= 0) failed = true;
                }
                if (failed) { state[i] = 0; mustErr = true; if (!byTimeout) culprit = bad; }
            }
            bool skipped = false; int who = -1;
            for (int i = 0; i < n; i++) if (state[i] == -2) { skipped = true; who = i; }
            if (skipped) PBT_CHECK(st.isErr(), "%s was not executed in a run that returned OK", es[who].spec >= 0 ? g[es[who].spec].name.c_str() : "a fence");
            if (mustErr) {
                PBT_CHECK(st.isErr(), "%s %s but run returned OK", byTimeout ? "an element" : g[culprit].name.c_str(), byTimeout ? "ran out of its time" : "failed");
                if (!byTimeout) PBT_CHECK(st.getInfo().find(fail_msg(&g[culprit], "run")) != std::string::npos, "run returned %d '%s' instead of the error of %s", st.getCode(), st.getInfo().c_str(), g[culprit].name.c_str());
            } else if (bad < 0 && !byTimeout) PBT_CHECK(st.isOK(), "run returned %d '%s' though nothing failed", st.getCode(), st.getInfo().c_str());
            else if (bad >= 0 && L1[bad].s < 0) PBT_CHECK(st.isOK() || skipped, "run returned %d '%s' though the failing element was not executed", st.getCode(), st.getInfo().c_str());
            if (st.isOK() && !skipped) for (int i = 0; i < n; i++) PBT_CHECK(state[i] == 1, "harness: inconsistent");
            ctx.label(mustErr ? byTimeout ? "run failed by a timeout" : "run failed by an element" : "run succeeded");
        }
        std::thread releaser;
        if (!pend.empty()) releaser = std::thread([&] { std::this_thread::sleep_for(std::chrono::microseconds(300)); std::lock_guard<std::mutex> lk(W.m); W.runOver = true; W.giveUp = true; W.cv.notify_all(); });
        else { std::lock_guard<std::mutex> lk(W.m); W.runOver = true; W.giveUp = true; W.cv.notify_all(); }
        st = p->destroy();
        if (releaser.joinable()) releaser.join();
        PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
        for (auto& s : g.specs) PBT_CHECK(s->inflight.load() == 0, "%s was still executing after destroy", s->name.c_str());
    }
    ctx.nontrivial = sawTimeout || nfence > 0;
    if (sawTimeout) ctx.label("with a timeout");
    if (nfence) ctx.label("with fences");
    if (nfence > 1) ctx.label("with several fences");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
