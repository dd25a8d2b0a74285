// C12: parameter locks exclude, try-lock is exact, back-traces list the accessors once in order of first access.
#include "pbt.h"
#include "CGraph.h"
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

class V : public GParam {
public:
    int a = 0, b = 0;                 // changed together under the lock
    long long total = 0;
    std::atomic<int> inside{0};       // writers inside
    std::atomic<int> busy{0};         // attempts and holders
    std::atomic<int> epoch{0};
    CVoid reset(const CStatus&) override {}
};
struct Acc { int kind, key, hold, rec; };   // 0 lock/unlock, 1 write block, 2 try lock, 3 read block, 4 get only, 5 clean (chain only), 6 check trace throws
struct Log { uint64_t b, e; int key, who; };
static std::mutex logMtx;
static std::vector<Log>* logs;
static std::atomic<uint64_t> tick{0};
static std::atomic<long long> adds[4];
static bool bt[4];
static std::atomic<int> tryFail{0}, tryOk{0};

static void spin(int h) {
    if (h == 0) return;
    if (h == 1) { std::this_thread::yield(); return; }
    if (h < 5) { volatile int x = 0; for (int i = 0; i < h * 400; i++) x = x + i; return; }
    std::this_thread::sleep_for(std::chrono::microseconds((h - 4) * 20));
}
static void section(V* p, int hold, bool shared) {
    int in = p->inside.fetch_add(1);
    if (!shared && in != 0) pbt::fail("two elements are inside the critical section of one param at once");
    if (p->a != p->b) pbt::fail("a param was seen in the middle of another element's update");
    if (!shared) {
        p->a = p->a + 1;
        spin(hold);
        p->b = p->b + 1;
        p->total = p->total + 1;
    } else spin(hold);
    p->inside.fetch_sub(1);
}
class N : public GNode {
public:
    using GNode::getGParam;
    std::vector<Acc>* acc = nullptr; int id = 0; int reps = 1;
    CStatus run() override {
        for (int r = 0; r < reps; r++) for (auto& x : *acc) one(x);
        return CStatus();
    }
    void one(const Acc& x) {
        Log l; l.key = x.key; l.who = id;
        l.b = ++tick;
        V* p = getGParam<V>("p" + std::to_string(x.key));
        l.e = ++tick;
        if (!p) pbt::fail("a param was not found");
        { std::lock_guard<std::mutex> g(logMtx); logs->push_back(l); }
        switch (x.kind) {
            case 0: {
                p->busy++; p->epoch++;
                p->lock();
                for (int i = 0; i < x.rec; i++) { if (i % 2) p->lock(); else if (!p->tryLock()) pbt::fail("the holder of a lock could not take it again"); }
                section(p, x.hold, false);
                for (int i = 0; i < x.rec; i++) p->unlock();
                if (x.rec) { p->inside++; if (p->inside != 1) pbt::fail("a lock taken twice was released by one unlock"); spin(x.hold); p->inside--; }
                p->unlock();
                p->busy--; p->epoch++;
                adds[x.key]++;
                break;
            }
            case 1: {
                p->busy++; p->epoch++;
                { CGRAPH_PARAM_WRITE_CODE_BLOCK(p); section(p, x.hold, false); }
                p->busy--; p->epoch++;
                adds[x.key]++;
                break;
            }
            case 2: {
                // every other attempt raises busy, then epoch, before it touches the lock, and lowers busy after it released it
                int e0 = p->epoch.load();
                int others = p->busy.fetch_add(1);
                p->epoch++;
                bool ok = p->tryLock();
                int e1 = p->epoch.load();
                if (ok) { section(p, x.hold, false); p->unlock(); adds[x.key]++; tryOk++; }
                else { tryFail++; if (others == 0 && e1 == e0 + 1) pbt::fail("try-lock failed though nobody held or wanted the lock"); }
                p->busy--; p->epoch++;
                break;
            }
            case 3: {
                p->busy++; p->epoch++;
                { CGRAPH_PARAM_READ_CODE_BLOCK(p); section(p, x.hold, true); }
                p->busy--; p->epoch++;
                break;
            }
            case 6: {
                bool thrown = false;
                try { p->getBacktrace(); } catch (const CException&) { thrown = true; }
                if (thrown == bt[x.key]) pbt::failf("asking for the back-trace %s", thrown ? "threw though it is enabled" : "was accepted though it is disabled");
                if (p->addBacktrace("x").isErr() == bt[x.key]) pbt::fail("adding to the back-trace answered the wrong way");
                if (bt[x.key]) { std::lock_guard<std::mutex> g(logMtx); Log m; m.key = x.key; m.who = 1000; m.b = l.e; m.e = ++tick; logs->push_back(m); }
                break;
            }
            default: break;
        }
    }
};
// takes the lock and holds it until told; its partner tries
static std::atomic<int> phase{0};
class Holder : public GNode { public: CStatus run() override {
    V* p = getGParam<V>("p0"); p->busy++; p->epoch++; p->lock(); phase = 1;
    double t0 = pbt::now_s();
    while (phase != 2) { if (pbt::now_s() - t0 > 10) pbt::fail("a try-lock blocked while another element held the lock"); std::this_thread::yield(); }
    p->unlock(); p->busy--; p->epoch++; phase = 3; return CStatus(); } };
class Tryer : public GNode { public: CStatus run() override {
    V* p = getGParam<V>("p0");
    while (phase != 1) std::this_thread::yield();
    bool got = p->tryLock();
    if (got) pbt::fail("try-lock succeeded while another element held the lock");
    phase = 2;
    while (phase != 3) std::this_thread::yield();
    if (!p->tryLock()) pbt::fail("try-lock failed though the lock was free");
    p->unlock();
    phase = 0; return CStatus(); } };

static void prop(Src& src, Ctx& ctx) {
    int nk = src.range(1, 3);
    int layers = src.range(1, 3);
    bool duel = src.chance(1, 4);
    int runs = src.range(1, 3);
    bool cleanBetween = src.flip();
    for (int k = 0; k < nk; k++) { bt[k] = src.flip(); adds[k] = 0; }
    std::vector<std::vector<std::vector<Acc>>> plan(layers);
    std::vector<int> reps;
    ctx.desc << nk << " params, back-trace";
    for (int k = 0; k < nk; k++) ctx.desc << " " << bt[k];
    ctx.desc << ", " << runs << " runs" << (cleanBetween ? ", cleaned between" : "") << (duel ? ", holder/tryer" : "") << "\n";
    int width = 0;
    static const char* nm[] = {"lock", "write", "try", "read", "get", "", "trace"};
    for (auto& l : plan) {
        int w = src.range(1, 6);
        width = std::max(width, w);
        for (int i = 0; i < w; i++) {
            std::vector<Acc> a;
            int n = src.range(1, 5);
            for (int j = 0; j < n; j++) { Acc x{src.pick({4, 4, 3, 2, 2}), (int)src.below(nk), 0, 0}; if (src.chance(1, 12)) x.kind = 6; x.hold = src.pick({3, 2, 2, 2, 1, 1}); if (x.kind == 0) x.rec = src.pick({4, 1, 1}); a.push_back(x); }
            int rp = src.pick({2, 1, 1}) == 0 ? 1 : src.range(2, 12);
            reps.push_back(rp);
            ctx.desc << "  L" << (&l - &plan[0]) << " n" << reps.size() - 1 << " x" << rp << ":";
            for (auto& x : a) ctx.desc << " " << nm[x.kind] << "(" << x.key << ",h" << x.hold << (x.rec ? ",rec" + std::to_string(x.rec) : "") << ")";
            ctx.desc << "\n";
            l.push_back(a);
        }
    }
    ctx.publish();
    std::vector<Log> lg;
    logs = &lg;
    tryFail = tryOk = 0; phase = 0;
    GPipelinePtr p = GPipelineFactory::create();
    UThreadPoolConfig cfg;
    cfg.default_thread_size_ = std::max(width, 2) + 2; cfg.secondary_thread_size_ = 0; cfg.max_thread_size_ = cfg.default_thread_size_;
    cfg.max_task_steal_range_ = 100;
    p->setUniqueThreadPoolConfig(cfg);
    std::vector<N*> ns; std::vector<std::string> names;
    GElementPtrSet prev;
    int c = 0;
    for (auto& l : plan) {
        GElementPtrSet cur;
        for (auto& a : l) {
            GElementPtr e = nullptr;
            std::string nme = src.chance(1, 5) ? "" : "node " + std::to_string(c);
            PBT_CHECK((p->registerGElement<N>(&e, prev, nme)).isOK(), "register failed");
            N* n = static_cast<N*>(e); n->acc = &a; n->id = c; n->reps = reps[c]; ns.push_back(n);
            names.push_back(nme.empty() ? e->getSession() : nme);
            c++;
            cur.insert(e);
        }
        prev = cur;
    }
    if (duel) {
        GElementPtr h = nullptr, t = nullptr;
        PBT_CHECK((p->registerGElement<Holder>(&h, prev, "holder")).isOK() && (p->registerGElement<Tryer>(&t, prev, "tryer")).isOK(), "register failed");
    }
    for (int k = 0; k < nk; k++) PBT_CHECK(p->createGParam<V>("p" + std::to_string(k), bt[k]).isOK(), "create failed");
    PBT_CHECK(p->init().isOK(), "init failed");
    std::vector<V*> ps;
    for (int k = 0; k < nk; k++) ps.push_back(p->getGParam<V>("p" + std::to_string(k)));
    uint64_t since = ++tick;
    for (int k = 0; k < nk; k++) ps[k]->cleanBacktrace();
    for (int r = 0; r < runs; r++) {
        if (cleanBetween) { lg.clear(); for (auto* q : ps) q->cleanBacktrace(); since = ++tick; }
        CStatus st = p->run();
        PBT_CHECK(st.isOK(), "run failed: %s", st.getInfo().c_str());
        for (int k = 0; k < nk; k++) {
            PBT_CHECK(ps[k]->a == adds[k] && ps[k]->b == adds[k] && ps[k]->total == adds[k], "param %d: %d updates arrived, %lld were made", k, ps[k]->a, (long long)adds[k]);
            if (!bt[k]) {
                bool thrown = false;
                try { ps[k]->getBacktrace(); } catch (const CException&) { thrown = true; }
                PBT_CHECK(thrown, "the back-trace of a param without one was accepted");
                continue;
            }
            auto trace = ps[k]->getBacktrace();
            std::map<std::string, std::pair<uint64_t, uint64_t>> first;   // by name: earliest possible and latest possible moment of first access
            auto note = [&](const std::string& n, uint64_t b, uint64_t e) { auto it = first.find(n); if (it == first.end()) first[n] = {b, e}; else { it->second.first = std::min(it->second.first, b); it->second.second = std::min(it->second.second, e); } };
            for (auto& l : lg) if (l.key == k) note(l.who == 1000 ? "x" : names[l.who], l.b, l.e);
            std::set<std::string> seen;
            for (auto& t : trace) {
                if (duel && (t == "holder" || t == "tryer")) { PBT_CHECK(k == 0 && seen.insert(t).second, "wrong back-trace entry %s", t.c_str()); continue; }
                PBT_CHECK(first.count(t), "run %d: the back-trace of p%d lists '%s', which did not access it", r, k, t.c_str());
                PBT_CHECK(seen.insert(t).second, "run %d: the back-trace of p%d lists '%s' twice", r, k, t.c_str());
            }
            for (auto& f : first) PBT_CHECK(seen.count(f.first), "run %d: the back-trace of p%d lacks '%s'", r, k, f.first.c_str());
            if (duel && k == 0) PBT_CHECK(seen.count("holder") && seen.count("tryer"), "the back-trace of p0 lacks an accessor");
            for (size_t i = 0; i < trace.size(); i++) for (size_t j = i + 1; j < trace.size(); j++) {
                auto x = first.find(trace[i]), y = first.find(trace[j]);
                if (x == first.end() || y == first.end()) continue;
                PBT_CHECK(!(y->second.second < x->second.first), "run %d: the back-trace of p%d lists '%s' before '%s', which accessed it earlier", r, k, trace[i].c_str(), trace[j].c_str());
            }
        }
        (void)since;
    }
    PBT_CHECK(p->destroy().isOK(), "destroy failed");
    GPipelineFactory::remove(p);
    ctx.nontrivial = width > 1;
    if (tryFail) ctx.label("try-lock failed against a holder");
    if (tryOk) ctx.label("try-lock succeeded");
    if (duel) ctx.label("holder/tryer pair");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
