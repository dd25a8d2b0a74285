// C27: the pipeline manager and the pipeline factory keep exact books.
#include "pbt.h"
#include "CGraph.h"
#include <algorithm>
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

// one probe pipeline: a small graph of counting nodes which all belong to one Book
struct Book {
    int id = 0, nodes = 0;
    std::atomic<int> live{0}, dtors{0};            // node objects
    std::atomic<int> inits{0}, runs{0}, destroys{0};
    std::atomic<int> inside{0}, maxInside{0};      // executions of the pipeline at a time, seen by its first node
    std::atomic<int> owner{0};
    std::atomic<bool> initFail{false}, runFail{false}, destroyFail{false};
    std::atomic<int> crash{0};
    int us = 0;
    // model
    bool init = false;                             // the pipeline is initialised
    void zero() { inits = runs = destroys = 0; maxInside = 0; }
};
struct PVal : public GParam { int v = 0; CVoid reset(const CStatus&) override {} std::atomic<int>* gone = nullptr; ~PVal() override { if (gone) (*gone)++; } };
class BNode : public GNode {
public:
    BNode(Book* b, int idx, bool last) : b_(b), idx_(idx), last_(last) { b_->live++; }
    ~BNode() override { b_->live--; b_->dtors++; b_ = nullptr; }
    CStatus init() override {
        b_->inits++;
        if (idx_ == 0 && b_->initFail) return CStatus(-31, "init of " + std::to_string(b_->id));
        if (idx_ == 0) CGRAPH_CREATE_GPARAM(PVal, "v");
        return CStatus();
    }
    CStatus run() override {
        if (idx_ == 0) { int n = ++b_->inside; if (n > b_->maxInside) b_->maxInside = n; }
        b_->runs++;
        auto* p = CGRAPH_GET_GPARAM(PVal, "v");
        if (!p) return CStatus(-41, "no parameter");
        if (idx_ == 0) { CGRAPH_PARAM_WRITE_CODE_BLOCK(p) { p->v = p->v % 1000 + 1000 * (b_->id + 1) + 1; } }
        else { CGRAPH_PARAM_READ_CODE_BLOCK(p) { if (p->v / 1000 != b_->id + 1) pbt::failf("pipeline %d reads a parameter value of pipeline %d", b_->id, p->v / 1000 - 1); } }
        if (b_->us) std::this_thread::sleep_for(std::chrono::microseconds(b_->us));
        CStatus st;
        if (last_) {
            if (b_->runFail) { st = CStatus(-32, "run of " + std::to_string(b_->id)); b_->inside--; if (b_->crash) throw CException(st.getInfo()); }
            else b_->inside--;
        }
        return st;
    }
    CStatus destroy() override { b_->destroys++; if (last_ && b_->destroyFail) return CStatus(-33, "destroy of " + std::to_string(b_->id)); return CStatus(); }
private:
    Book* b_; int idx_; bool last_;
};
static GPipelinePtr build(Book& b, int nodes, int cfgThreads) {
    GPipelinePtr p = GPipelineFactory::create();
    PBT_CHECK(p != nullptr, "the factory created nothing");
    b.nodes = nodes;
    std::set<GElementPtr> dep;
    for (int i = 0; i < nodes; i++) { auto* n = p->createGNode<BNode>(GNodeInfo(dep, "n" + std::to_string(i), 1), &b, i, i == nodes - 1); PBT_CHECK(p->registerGNode((GElementPPtr)&n, dep, "n" + std::to_string(i), 1).isOK(), "register"); dep = {n}; }
    UThreadPoolConfig c; c.default_thread_size_ = cfgThreads; c.secondary_thread_size_ = 0; c.max_thread_size_ = cfgThreads; c.monitor_enable_ = false; c.primary_thread_empty_interval_ = 2;
    p->setUniqueThreadPoolConfig(c);
    return p;
}

struct Mgr { std::unique_ptr<GPipelineManager> m; bool init = false; std::vector<int> free, used; };
static bool in(const std::vector<int>& v, int x) { return std::find(v.begin(), v.end(), x) != v.end(); }
static void del(std::vector<int>& v, int x) { v.erase(std::remove(v.begin(), v.end(), x), v.end()); }

static void seq(Src& src, Ctx& ctx) {
    int nm = src.pick({3, 1}) + 1, ops = src.sized(8, 70);
    std::vector<std::unique_ptr<Book>> bk;
    std::vector<GPipelinePtr> ps;                  // null: removed
    std::vector<Mgr> ms(nm);
    for (auto& m : ms) m.m.reset(new GPipelineManager());
    int fetched = 0, refused = 0, ran = 0, failed = 0;
    auto snap = [&] { for (auto& b : bk) b->zero(); };
    auto none = [&](const char* what) { for (auto& b : bk) PBT_CHECK(b->inits == 0 && b->runs == 0 && b->destroys == 0, "%s called elements of pipeline %d", what, b->id); };
    auto books = [&](Mgr& m, const char* what) {
        PBT_CHECK(m.m->getSize() == m.free.size() + m.used.size(), "after %s the manager reports %zu pipelines, it has %zu", what, (size_t)m.m->getSize(), m.free.size() + m.used.size());
        for (size_t i = 0; i < ps.size(); i++) if (ps[i]) PBT_CHECK(m.m->find(ps[i]) == (in(m.free, i) || in(m.used, i)), "after %s the manager %s pipeline %zu", what, m.m->find(ps[i]) ? "knows" : "does not know", i);
        PBT_CHECK(!m.m->find(nullptr), "the manager knows a null pipeline");
    };
    auto mk = [&] { bk.emplace_back(new Book()); bk.back()->id = (int)bk.size() - 1; ps.push_back(build(*bk.back(), src.range(1, 3), src.range(1, 2))); };
    for (int i = src.range(1, 4); i > 0; i--) mk();
    for (int i = 0; i < ops; i++) {
        Mgr& m = ms[src.below(nm)];
        snap();
        int w = (int)src.below(ps.size());
        int op = src.pick({3, 1, 3, 2, 8, 8, 6, 1, 1, 2, 2, 1, 1});
        if (!m.init && op >= 4 && op <= 6 && src.chance(3, 4)) op = m.free.size() < 2 ? 0 : 2;   // get going
        switch (op) {
            case 0: {
                if (!ps[w]) break;
                ctx.desc << " add" << w; ctx.publish();
                bool ok = !m.init && !in(m.free, w) && !in(m.used, w);
                CStatus st = m.m->add(ps[w]);
                PBT_CHECK(st.isOK() == ok, "adding pipeline %d: %d '%s'", w, st.getCode(), st.getInfo().c_str());
                if (ok) m.free.push_back(w);
                none("add"); books(m, "add");
                break;
            }
            case 1: {
                if (!ps[w]) break;
                ctx.desc << " remove" << w; ctx.publish();
                CStatus st = m.m->remove(ps[w]);
                if (m.init) PBT_CHECK(st.isErr(), "removing from an initialised manager is accepted");
                else { if (in(m.free, w)) PBT_CHECK(st.isOK(), "removing pipeline %d fails: %s", w, st.getInfo().c_str()); del(m.free, w); }
                none("remove"); books(m, "remove");
                break;
            }
            case 2: {
                ctx.desc << " init"; ctx.publish();
                std::vector<int> will; bool err = false;
                for (int p : m.free) { if (bk[p]->init) { err = true; continue; } will.push_back(p); if (bk[p]->initFail) err = true; }
                CStatus st = m.m->init();
                if (m.init) { PBT_CHECK(st.isErr(), "a second init is accepted"); none("a second init"); break; }
                PBT_CHECK(st.isErr() == err, "init of the manager: %d '%s'", st.getCode(), st.getInfo().c_str());
                for (auto& b : bk) PBT_CHECK(b->initFail && in(will, b->id) ? b->inits >= 1 : b->inits == (in(will, b->id) ? b->nodes : 0), "init of the manager: pipeline %d had %d element inits", b->id, (int)b->inits);
                for (int p : will) bk[p]->init = !bk[p]->initFail;
                m.init = !err;
                books(m, "init");
                bool bad = false; for (int p : will) bad |= bk[p]->initFail;
                if (bad) {           // what can be done with a pipeline whose init failed is not claimed: the history ends
                    snap();
                    PBT_CHECK(!m.m->fetch() && m.m->run().isErr() && m.m->destroy().isErr(), "a manager whose init failed can be used");
                    none("a manager whose init failed"); books(m, "a failed init");
                    goto out;
                }
                break;
            }
            case 3: {
                ctx.desc << " destroy"; ctx.publish();
                bool ok = m.init && m.used.empty();
                bool err = false; for (int p : m.free) err |= !bk[p]->init || bk[p]->destroyFail;
                CStatus st = m.m->destroy();
                if (!ok) { PBT_CHECK(st.isErr(), "destroy of a manager that is %s is accepted", m.init ? "in use" : "not initialised"); none("a refused destroy"); books(m, "a refused destroy"); break; }
                PBT_CHECK(st.isErr() == err, "destroy of the manager: %d '%s'", st.getCode(), st.getInfo().c_str());
                for (auto& b : bk) PBT_CHECK(b->destroyFail && in(m.free, b->id) && b->init ? b->destroys >= 1 : b->destroys == (in(m.free, b->id) && b->init ? b->nodes : 0), "destroy of the manager: pipeline %d had %d element destroys", b->id, (int)b->destroys);
                for (int p : m.free) if (!bk[p]->destroyFail) bk[p]->init = false;
                if (err) { for (int p : m.free) if (bk[p]->init) goto out; }   // what a pipeline is after a failed destroy is not claimed: the history ends
                m.init = false;
                books(m, "destroy");
                break;
            }
            case 4: {
                ctx.desc << " fetch"; ctx.publish();
                GPipelinePtr p = m.m->fetch();
                bool can = m.init && !m.free.empty();
                if (!can) { PBT_CHECK(p == nullptr, "a pipeline is handed out by a manager that %s", m.init ? "has none left" : "is not initialised"); refused++; break; }
                PBT_CHECK(p != nullptr, "no pipeline is handed out although %zu are free", m.free.size());
                int x = -1; for (int f : m.free) if (ps[f] == p) x = f;
                PBT_CHECK(x >= 0, "a pipeline is handed out that is not free");
                ctx.desc << x;
                del(m.free, x); m.used.push_back(x); fetched++;
                none("fetch"); books(m, "fetch");
                break;
            }
            case 5: {
                bool mine = !m.used.empty() && !src.chance(1, 4);
                int x = mine ? m.used[src.below(m.used.size())] : w;
                GPipelinePtr p = src.chance(1, 20) ? nullptr : ps[x];
                if (!p && ps[x] == nullptr) break;
                ctx.desc << " release" << (p ? x : -1); ctx.publish();
                bool ok = p && in(m.used, x);
                CStatus st = m.m->release(p);
                PBT_CHECK(st.isOK() == ok, "release of pipeline %d: %d '%s'", x, st.getCode(), st.getInfo().c_str());
                if (ok) { del(m.used, x); m.free.push_back(x); }
                none("release"); books(m, "release");
                break;
            }
            case 6: {
                ctx.desc << " run"; ctx.publish();
                CStatus st = m.m->run();
                if (!m.init || m.free.empty()) { PBT_CHECK(st.isErr(), "run is accepted by a manager that %s", m.init ? "has no free pipeline" : "is not initialised"); none("a refused run"); refused++; books(m, "a refused run"); break; }
                int x = -1;
                for (auto& b : bk) if (b->runs) { PBT_CHECK(x < 0, "one run executed pipelines %d and %d", x, b->id); x = b->id; }
                PBT_CHECK(x >= 0 && in(m.free, x), "run executed pipeline %d, which is not free", x);
                PBT_CHECK(bk[x]->runs == bk[x]->nodes, "run executed %d of %d elements", (int)bk[x]->runs, bk[x]->nodes);
                PBT_CHECK(st.isErr() == bk[x]->runFail, "run of pipeline %d: %d '%s'", x, st.getCode(), st.getInfo().c_str());
                if (st.isErr()) { PBT_CHECK(st.getInfo().find("run of " + std::to_string(x)) != std::string::npos, "run returned '%s'", st.getInfo().c_str()); failed++; }
                ran++; books(m, "run");
                break;
            }
            case 7: {
                ctx.desc << " clear"; ctx.publish();
                CStatus st = m.m->clear();
                PBT_CHECK(st.isOK() == !m.init, "clear: %d", st.getCode());
                if (!m.init) { m.free.clear(); m.used.clear(); }
                none("clear"); books(m, "clear");
                break;
            }
            case 8: {   // a null pipeline
                ctx.desc << " null"; ctx.publish();
                PBT_CHECK(m.m->add(nullptr).isErr() && m.m->remove(nullptr).isErr() && m.m->release(nullptr).isErr(), "a null pipeline is accepted");
                none("null"); books(m, "null");
                break;
            }
            case 9: {   // use a pipeline directly
                std::vector<int> mine; for (auto& x : ms) for (int u : x.used) mine.push_back(u);
                int x = mine.empty() ? w : mine[src.below(mine.size())];
                if (!ps[x]) break;
                ctx.desc << " use" << x; ctx.publish();
                CStatus st = ps[x]->run();
                if (!bk[x]->init) { PBT_CHECK(st.isErr(), "a pipeline that is not initialised runs"); none("a refused run"); break; }
                for (auto& b : bk) PBT_CHECK(b->runs == (b->id == x ? b->nodes : 0), "run of pipeline %d executed %d elements of pipeline %d", x, (int)b->runs, b->id);
                PBT_CHECK(st.isErr() == bk[x]->runFail, "run of pipeline %d: %d", x, st.getCode());
                break;
            }
            case 10: {  // faults come and go
                Book& b = *bk[w]; int k = src.pick({1, 3, 1});
                bool v = src.flip();
                ctx.desc << " fault" << w << (k == 0 ? "i" : k == 1 ? "r" : "d") << v;
                (k == 0 ? b.initFail : k == 1 ? b.runFail : b.destroyFail) = v;
                b.crash = src.below(2);
                break;
            }
            case 11: {  // the factory
                if (src.flip() && ps.size() < 10) { ctx.desc << " create"; mk(); break; }
                bool held = false; for (auto& x : ms) held |= in(x.free, w) || in(x.used, w);
                if (held || !ps[w]) break;
                ctx.desc << " delete" << w; ctx.publish();
                int before = bk[w]->live;
                PBT_CHECK(GPipelineFactory::remove(ps[w]).isOK(), "removing a pipeline fails");
                ps[w] = nullptr; bk[w]->init = false;
                for (auto& b : bk) PBT_CHECK(b->live == (ps[b->id] ? b->nodes : 0), "after removing pipeline %d, %d of the %d elements of pipeline %d exist", w, (int)b->live, b->nodes, b->id);
                PBT_CHECK(before == bk[w]->nodes, "elements of a pipeline were destroyed before it was removed");
                break;
            }
            default: {
                if (src.below(4)) break;
                PBT_CHECK(GPipelineFactory::remove(nullptr).isErr(), "removing a null pipeline is accepted");
            }
        }
    }
out:
    // a manager does not own its pipelines
    ms.clear();
    for (auto& b : bk) PBT_CHECK(b->live == (ps[b->id] ? b->nodes : 0), "elements of pipeline %d were destroyed with the manager", b->id);
    int drop = src.range(0, 3);
    for (size_t i = 0; i < ps.size() && drop > 0; i++) if (ps[i]) { PBT_CHECK(GPipelineFactory::remove(ps[i]).isOK(), "removing a pipeline fails"); ps[i] = nullptr; drop--; }
    PBT_CHECK(GPipelineFactory::clear().isOK(), "clear fails");
    for (auto& b : bk) PBT_CHECK(b->live == 0 && b->dtors == b->nodes, "pipeline %d: %d elements were created and %d destroyed when all was cleared", b->id, b->nodes, (int)b->dtors);
    ctx.nontrivial = fetched + ran >= 2; ctx.label("sequential");
    if (refused) ctx.label("with refused requests"); if (failed) ctx.label("with failing runs");
}

static void users(Src& src, Ctx& ctx) {
    int k = src.range(1, 5), n = src.range(1, 8), per = src.sized(2, 25);
    struct U { int mode, us; };
    std::vector<std::vector<U>> plan(n);
    for (auto& p : plan) for (int i = 0; i < per; i++) p.push_back({src.pick({3, 3, 1}), src.range(0, 60)});
    std::vector<std::unique_ptr<Book>> bk; std::vector<GPipelinePtr> ps;
    for (int i = 0; i < k; i++) { bk.emplace_back(new Book()); bk[i]->id = i; bk[i]->us = src.pick({2, 1}) ? src.range(1, 80) : 0; bk[i]->runFail = src.chance(1, 5); bk[i]->crash = src.below(2); ps.push_back(build(*bk[i], src.range(1, 3), src.range(1, 2))); }
    ctx.desc << k << " pipelines, " << n << " users with " << per << " requests each"; ctx.publish();
    GPipelineManager m;
    for (auto p : ps) PBT_CHECK(m.add(p).isOK(), "add");
    CStatus st = m.init();
    PBT_CHECK(st.isOK(), "init: %s", st.getInfo().c_str());
    std::atomic<int> given{0}, out{0}, expect{0}, holders{0}; std::atomic<bool> go{false};
    std::vector<std::atomic<int>> uses(k);
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
        while (!go) std::this_thread::yield();
        for (auto& u : plan[t]) {
            if (u.mode == 0) {                    // fetch, use, release
                GPipelinePtr p = m.fetch();
                if (!p) { if (n <= k) pbt::failf("no pipeline is handed out although %d of %d users can hold one of the %d", n, n, k); out++; continue; }
                int x = -1; for (int i = 0; i < k; i++) if (ps[i] == p) x = i;
                if (x < 0) pbt::failf("an unknown pipeline is handed out");
                if (bk[x]->owner.exchange(t + 1) != 0) pbt::failf("pipeline %d is handed to two users at a time", x);
                given++;
                if (u.us) std::this_thread::sleep_for(std::chrono::microseconds(u.us));
                CStatus s = p->run(); uses[x]++;
                if (s.isErr() != bk[x]->runFail) pbt::failf("run: %d '%s'", s.getCode(), s.getInfo().c_str());
                if (bk[x]->owner.exchange(0) != t + 1) pbt::failf("pipeline %d was handed to somebody else", x);
                s = m.release(p);
                if (s.isErr()) pbt::failf("taking back pipeline %d fails: %s", x, s.getInfo().c_str());
            } else if (u.mode == 1) {             // run
                CStatus s = m.run();
                if (s.isErr() && s.getInfo().find("run of") == std::string::npos) { if (n <= k) pbt::failf("run fails: %d '%s'", s.getCode(), s.getInfo().c_str()); out++; } else expect++;
            } else {                              // a release of what is not ours changes nothing
                GPipelinePtr p = m.fetch();
                if (!p) continue;
                if (m.release(p).isErr()) pbt::failf("taking back fails");
            }
        }
    });
    go = true;
    for (auto& t : ts) t.join();
    int sum = 0;
    for (auto& b : bk) { PBT_CHECK(b->maxInside <= 1 && b->inside == 0, "pipeline %d was run by %d users at a time", b->id, (int)b->maxInside); PBT_CHECK(b->runs % b->nodes == 0, "pipeline %d executed %d elements, it has %d", b->id, (int)b->runs, b->nodes); sum += b->runs / b->nodes; }
    PBT_CHECK(sum == expect + given, "%d runs for %d requests", sum, expect + given);
    PBT_CHECK((int)m.getSize() == k, "the manager reports %zu pipelines, it has %d", (size_t)m.getSize(), k);
    std::set<GPipelinePtr> all;
    for (int i = 0; i < k; i++) { GPipelinePtr p = m.fetch(); PBT_CHECK(p && all.insert(p).second, "after use, only %d of %d pipelines are handed out", i, k); }
    PBT_CHECK(!m.fetch(), "one pipeline too many is handed out");
    PBT_CHECK(m.destroy().isErr(), "destroy is accepted while pipelines are in use");
    for (auto p : all) PBT_CHECK(m.release(p).isOK() && m.release(p).isErr(), "release");
    PBT_CHECK(m.destroy().isOK(), "destroy fails");
    PBT_CHECK(GPipelineFactory::clear().isOK(), "clear fails");
    for (auto& b : bk) PBT_CHECK(b->inits == b->nodes && b->destroys == b->nodes && b->live == 0 && b->dtors == b->nodes, "pipeline %d: %d inits, %d destroys, %d object ends of %d elements", b->id, (int)b->inits, (int)b->destroys, (int)b->dtors, b->nodes);
    ctx.nontrivial = n >= 2 && sum >= 2; ctx.label(n > k ? "more users than pipelines" : "enough pipelines");
    if (out) ctx.label("some requests found none free");
}

static void factory(Src& src, Ctx& ctx) {
    int n = src.range(2, 5), per = src.sized(2, 10);
    struct O { int nodes, thr, cycles, runs, keep, us; };
    std::vector<std::vector<O>> plan(n);
    std::vector<std::vector<std::unique_ptr<Book>>> bk(n);
    int id = 0;
    for (int t = 0; t < n; t++) for (int i = 0; i < per; i++) { plan[t].push_back({src.range(1, 3), src.range(1, 2), src.range(0, 2), src.range(0, 3), src.pick({2, 1}), src.range(0, 30)}); bk[t].emplace_back(new Book()); bk[t].back()->id = id++; bk[t].back()->us = src.chance(1, 3) ? src.range(1, 40) : 0; }
    ctx.desc << n << " threads create and remove " << per << " pipelines each"; ctx.publish();
    std::vector<std::thread> ts;
    for (int t = 0; t < n; t++) ts.emplace_back([&, t] {
        for (int i = 0; i < per; i++) {
            auto& o = plan[t][i]; Book& b = *bk[t][i];
            GPipelinePtr p = build(b, o.nodes, o.thr);
            for (int c = 0; c < o.cycles; c++) {
                CStatus st = p->init();
                for (int r = 0; r < o.runs && st.isOK(); r++) {
                    st += p->run();
                    auto* v = p->getGParam<PVal>("v");
                    if (!v || v->v != 1000 * (b.id + 1) + r + 1) { if (v && v->v != 0 && v->v / 1000 == b.id + 1) continue; pbt::failf("pipeline %d: its parameter is %d after %d runs", b.id, v ? v->v : -1, r + 1); }
                }
                st += p->destroy();
                if (st.isErr()) pbt::failf("pipeline %d: %d '%s'", b.id, st.getCode(), st.getInfo().c_str());
            }
            if (b.inits != o.nodes * o.cycles || b.destroys != o.nodes * o.cycles || b.runs != o.nodes * o.cycles * o.runs) pbt::failf("pipeline %d: %d inits, %d runs, %d destroys", b.id, (int)b.inits, (int)b.runs, (int)b.destroys);
            if (b.live != o.nodes) pbt::failf("pipeline %d lost elements", b.id);
            if (!o.keep) { if (GPipelineFactory::remove(p).isErr()) pbt::failf("removing a pipeline fails"); if (b.live != 0 || b.dtors != o.nodes) pbt::failf("pipeline %d: %d of its %d elements were destroyed when it was removed", b.id, (int)b.dtors, o.nodes); }
        }
    });
    for (auto& t : ts) t.join();
    int kept = 0;
    for (int t = 0; t < n; t++) for (int i = 0; i < per; i++) if (plan[t][i].keep) { kept++; PBT_CHECK(bk[t][i]->live == plan[t][i].nodes, "a kept pipeline lost elements"); }
    PBT_CHECK(GPipelineFactory::clear().isOK(), "clear fails");
    for (auto& v : bk) for (auto& b : v) PBT_CHECK(b->live == 0 && b->dtors == b->nodes, "pipeline %d: %d of its %d elements were destroyed", b->id, (int)b->dtors, b->nodes);
    ctx.nontrivial = n * per >= 4; ctx.label("factory in several threads"); if (kept) ctx.label("some removed by clear");
}
static void prop(Src& src, Ctx& ctx) { int k = src.pick({4, 4, 2}); if (k == 0) seq(src, ctx); else if (k == 1) users(src, ctx); else factory(src, ctx); }
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
