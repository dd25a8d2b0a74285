// C14: every notification triggers its event exactly once, within the bound of its kind and strategy.
#include "pbt.h"
#include "CGraph.h"
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

struct Ev {
    std::atomic<int> inits{0}, destroys{0}, started{0}, ended{0};
    std::atomic<int> sync{0}, runf{0}, dest{0}, nowait{0};     // notifications accepted
    std::atomic<bool> live{false};
    int delay = 0; bool thr = false, readParam = false, exclusive = false, daemonOnly = false; int val = 0; bool given = false; int kindOnly = -1;
    int total() { return sync + runf + dest + nowait; }
    int must() { return sync + runf; }
};
static std::vector<std::unique_ptr<Ev>>* evs;
static thread_local int tlStarted, tlEnded, tlEvent = -1;
static size_t made;
class P : public GPassedParam { public: int v = 0; CVoid clone(GPassedParam* p) override { auto* q = dynamic_cast<P*>(p); if (q) v = q->v; } };
class G : public GParam { public: int x = 7; CVoid reset(const CStatus&) override {} };
class E : public GEvent {
public:
    int id = (int)made++;
    CStatus init() override { auto& e = *(*evs)[id]; e.inits++; e.live = true; return CStatus(); }
    CStatus destroy() override { auto& e = *(*evs)[id]; e.destroys++; return CStatus(); }
    CVoid trigger(GEventParamPtr p) override {
        auto& e = *(*evs)[id];
        e.started++;
        if (tlEvent == id) tlStarted++;
        if (!e.live) pbt::failf("event %d triggered outside the life of its pipeline", id);
        auto* q = dynamic_cast<P*>(p);
        if (e.given ? (!q || q->v != e.val) : p != nullptr) pbt::failf("event %d was triggered without its parameter", id);
        if (e.readParam) for (int i = 0; i < 3; i++) { auto* g = getGParam<G>("g" + std::to_string(i)); if (!g || g->x != 7) pbt::fail("a triggered event does not see the pipeline's parameter"); }
        if (e.delay == 1) std::this_thread::yield();
        else if (e.delay > 1) std::this_thread::sleep_for(std::chrono::microseconds(e.delay * 100));
        if (tlEvent == id) tlEnded++;
        e.ended++;
        if (e.thr) throw CException("event throws");
    }
};
struct Act { int how, ev; bool wait; };   // 0 sync, 1 async run-finish, 2 async destroy, 3 async no-wait, 4 future run-finish, 5 future destroy, 6 future no-wait, 7 unknown sync, 8 unknown async, 9 unknown future
static std::mutex futMtx;
static std::vector<std::shared_future<CVoid>>* futs;
template <class T> static void act(T* self, const Act& a, bool afterEvents) {
    auto strat = [](int i) { return i == 0 ? GEventAsyncStrategy::PIPELINE_RUN_FINISH : i == 1 ? GEventAsyncStrategy::PIPELINE_DESTROY : GEventAsyncStrategy::NO_WAIT; };
    if (a.how >= 7) {
        std::string k = a.ev % 2 ? "nokey" : "";
        if (a.how < 9) { if (self->notify(k, a.how == 7 ? GEventType::SYNC : GEventType::ASYNC).isOK()) pbt::fail("notifying an unknown event returned OK"); }
        else { bool thrown = false; try { (void)self->asyncNotify(k); } catch (const CException&) { thrown = true; } if (!thrown) pbt::fail("asynchronously notifying an unknown event was accepted"); }
        return;
    }
    Ev& e = *(*evs)[a.ev];
    std::string key = "e" + std::to_string(a.ev);
    int endedBefore = e.ended;
    if (a.how == 0) {
        tlEvent = a.ev; tlStarted = tlEnded = 0;
        CStatus st = self->notify(key, GEventType::SYNC);
        if (st.isErr()) pbt::fail("a synchronous notification failed: " + st.getInfo());
        if (tlStarted != 1 || tlEnded != 1) pbt::failf("a synchronous notification triggered its event %d times and completed %d times before it returned", tlStarted, tlEnded);
        tlEvent = -1;
        e.sync++;
        return;
    }
    if (afterEvents) {   // the pool is gone
        if (a.how < 4) { if (self->notify(key, GEventType::ASYNC, strat(a.how - 1)).isOK()) pbt::fail("an asynchronous notification during element destroy was accepted"); }
        else { bool thrown = false; try { (void)self->asyncNotify(key, strat(a.how - 4)); } catch (const CException&) { thrown = true; } if (!thrown) pbt::fail("an asynchronous notification during element destroy was accepted"); }
        return;
    }
    int s = (a.how - 1) % 3;
    std::atomic<int>& cnt = s == 0 ? e.runf : s == 1 ? e.dest : e.nowait;
    if (a.how < 4) {
        if (s == 2) pbt::fail("harness: plain no-wait");
        cnt++;
        CStatus st = self->notify(key, GEventType::ASYNC, strat(s));
        if (st.isErr()) pbt::fail("an asynchronous notification failed: " + st.getInfo());
    } else {
        cnt++;
        auto f = self->asyncNotify(key, strat(s));
        if (!f.valid()) pbt::fail("an asynchronous notification gave an invalid future");
        if (a.wait) {
            bool thrown = false;
            try { f.get(); } catch (const CException& ex) { thrown = true; if (std::string(ex.what()).find("event throws") == std::string::npos) pbt::fail("the future of a notification carries a wrong error"); }
            if (thrown != e.thr) pbt::fail("the future of a notification does not carry the outcome of its trigger");
            if (e.ended < 1 || (e.exclusive && e.ended != endedBefore + 1)) pbt::fail("the future of an asynchronous notification was ready before its trigger ended");
        } else if (s == 2) { std::lock_guard<std::mutex> g(futMtx); futs->push_back(f); }
    }
}
class N : public GNode {
public:
    using GNode::notify; using GNode::asyncNotify;
    std::vector<Act> onInit, onRun, onDestroy; bool failRun = false;
    CStatus init() override { for (auto& a : onInit) act(this, a, false); return CStatus(); }
    CStatus run() override { for (auto& a : onRun) act(this, a, false); return failRun ? CStatus(-77, "planned") : CStatus(); }
    CStatus destroy() override { for (auto& a : onDestroy) act(this, a, true); return CStatus(); }
};
static std::vector<std::vector<Act>>* aspActs; static size_t aspMade;
class A : public GAspect {
public:
    using GAspect::notify; using GAspect::asyncNotify;
    size_t id = aspMade++;
    CStatus beginRun() override { for (auto& a : (*aspActs)[id]) act(this, a, false); return CStatus(); }
};
static std::vector<Act>* daeActs; static std::atomic<int> daeTicks{0};
class D : public GDaemon {
public:
    using GDaemon::notify; using GDaemon::asyncNotify;
    CVoid daemonTask(GDaemonParamPtr) override { for (auto& a : *daeActs) act(this, a, false); daeTicks++; }
};

static void prop(Src& src, Ctx& ctx) {
    std::vector<std::unique_ptr<Ev>> ev; evs = &ev; made = 0; aspMade = 0; daeTicks = 0;
    std::vector<std::shared_future<CVoid>> fs; futs = &fs;
    std::vector<std::vector<Act>> aa; aspActs = &aa;
    std::vector<Act> da; daeActs = &da;
    GPipelinePtr p = GPipelineFactory::create();
    int n = src.sized(1, 8), k = src.sized(1, 6);
    bool serial = src.chance(1, 8), shared = !serial && src.chance(1, 8), daemon = src.chance(1, 5);
    UThreadPoolConfig cfg;
    cfg.default_thread_size_ = src.range(1, 4); cfg.secondary_thread_size_ = src.pick({3, 1}); cfg.max_thread_size_ = cfg.default_thread_size_ + cfg.secondary_thread_size_;
    cfg.primary_thread_empty_interval_ = src.range(1, 3); cfg.queue_emtpy_interval_ = 1; cfg.batch_task_enable_ = src.chance(1, 4);
    std::unique_ptr<UThreadPool> pool;
    if (shared) { pool.reset(new UThreadPool(true, cfg)); p->setSharedThreadPool(pool.get()); }
    else p->setUniqueThreadPoolConfig(cfg);
    ctx.desc << n << " nodes " << k << " events" << (serial ? " serial" : "") << (shared ? " shared pool" : "") << " threads " << cfg.default_thread_size_ << "+" << cfg.secondary_thread_size_ << "\n";
    for (int i = 0; i < 3; i++) p->createGParam<G>("g" + std::to_string(i));
    for (int i = 0; i < k; i++) {
        ev.emplace_back(new Ev()); Ev& e = *ev.back();
        e.delay = src.pick({3, 1, 2}); if (e.delay == 2) e.delay = src.range(2, 20);
        e.exclusive = src.chance(1, 4); e.readParam = src.flip(); e.given = src.flip(); e.val = src.range(0, 1000);
        if (src.chance(1, 3)) e.kindOnly = src.below(7);
        e.daemonOnly = daemon && i == 0;
        if (e.daemonOnly) e.exclusive = true;
        P q; q.v = e.val;
        std::string key = "e" + std::to_string(i);
        if (e.given) p->addGEvent<E, P>(key, &q); else p->addGEvent<E>(key);
        if (src.chance(1, 4)) {
            bool thrown = false;
            size_t m0 = made;
            try { if (src.flip()) p->addGEvent<E>(key); else p->addGEvent<E, P>(key, &q); } catch (const CException&) { thrown = true; }
            PBT_CHECK(thrown && made == m0, "an event was registered twice under one key");
        }
        ctx.desc << key << " delay " << e.delay << (e.exclusive ? " exclusive" : "") << (e.daemonOnly ? " daemon" : "") << (e.given ? " param" : "") << "\n";
    }
    std::vector<int> exclOwner(k, -1);
    auto gen = [&](int who, bool run) {
        std::vector<Act> v; int m = src.pick({1, 3, 3, 2, 1});
        for (int i = 0; i < m; i++) {
            Act a; a.how = src.pick({4, 4, 3, 0, 4, 2, 2, 1, 1, 1}); a.ev = src.below(k); a.wait = src.flip();
            Ev& e = *ev[a.ev];
            if (a.how < 7) {
                if (e.daemonOnly) continue;
                if (e.kindOnly >= 0) a.how = e.kindOnly == 3 ? 6 : e.kindOnly;
                if (e.exclusive) { if (exclOwner[a.ev] == -1) exclOwner[a.ev] = who; if (exclOwner[a.ev] != who) continue; if (!(a.how == 0 || a.how >= 4)) a.how = 4; a.wait = true; }
                // a waited-for asynchronous trigger needs a free thread
                if (a.how >= 4 && a.wait && run && !serial) { if (n + 1 >= cfg.default_thread_size_ + cfg.secondary_thread_size_ && !e.exclusive) a.wait = false; }
                if (e.exclusive && a.how >= 4 && !serial && n + 1 >= cfg.default_thread_size_ + cfg.secondary_thread_size_) a.how = 0;
            }
            v.push_back(a);
        }
        return v;
    };
    auto show = [&](const std::vector<Act>& v) { static const char* nm[] = {"sync", "async", "asyncD", "asyncN", "fut", "futD", "futN", "unkS", "unkA", "unkF"}; for (auto& a : v) ctx.desc << " " << nm[a.how] << a.ev << (a.wait && a.how >= 4 && a.how < 7 ? "w" : ""); };
    std::vector<N*> ns; std::vector<GElementPtr> els;
    int fail = src.chance(1, 6) ? (int)src.below(n) : -1;
    for (int i = 0; i < n; i++) {
        GElementPtr e = nullptr; GElementPtrSet dep;
        if (i && (serial || src.flip())) dep.insert(els[serial ? i - 1 : src.below(i)]);
        PBT_CHECK((p->registerGElement<N>(&e, dep, "n" + std::to_string(i), src.chance(1, 5) ? src.range(0, 3) : 1)).isOK(), "register");
        els.push_back(e); N* nn = static_cast<N*>(e); ns.push_back(nn);
        nn->onRun = gen(i, true);
        if (src.chance(1, 5)) nn->onInit = gen(i, false);
        if (src.chance(1, 6)) nn->onDestroy = gen(i, false);
        nn->failRun = i == fail;
        if (src.chance(1, 5)) { aa.push_back(gen(i, true)); e->addGAspect<A>(); }
        ctx.desc << "n" << i; if (nn->failRun) ctx.desc << " fails"; ctx.desc << " init"; show(nn->onInit); ctx.desc << " run"; show(nn->onRun); ctx.desc << " destroy"; show(nn->onDestroy); ctx.desc << "\n";
    }
    if (daemon) {
        int m = src.range(1, 3);
        for (int i = 0; i < m; i++) da.push_back(Act{src.pick({2, 2, 2, 0, 1, 1, 1}), 0, true});
        for (auto& a : da) if (a.how == 6) a.wait = true;
        if (serial) for (auto& a : da) a.how = 0;
        for (auto& a : da) if (a.how == 1 || a.how == 2) ev[0]->exclusive = false;
        p->addGDaemon<D>(src.range(1, 3));
        ctx.desc << "daemon"; show(da); ctx.desc << "\n";
    }
    // only asynchronous events may throw
    std::vector<bool> syncUsed(k, false);
    for (auto* x : ns) for (auto* v : {&x->onRun, &x->onInit, &x->onDestroy}) for (auto& a : *v) if (a.how == 0) syncUsed[a.ev] = true;
    for (auto& v : aa) for (auto& a : v) if (a.how == 0) syncUsed[a.ev] = true;
    for (auto& a : da) if (a.how == 0) syncUsed[a.ev] = true;
    for (int i = 0; i < k; i++) ev[i]->thr = !syncUsed[i] && src.chance(1, 8);
    int cycles = src.range(1, 2), runs = src.range(0, 3);
    GEngineType eng = serial ? GEngineType::DYNAMIC : src.pick({3, 1, 1}) == 0 ? GEngineType::DYNAMIC : src.flip() ? GEngineType::STATIC : GEngineType::TOPO;
    p->setGEngineType(eng);
    if (serial && p->makeSerial().isErr()) serial = false;
    ctx.desc << cycles << " cycles of " << runs << " runs\n";
    ctx.publish();
    for (int c = 0; c < cycles; c++) {
        CStatus st = p->init(); PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
        for (int i = 0; i < k; i++) PBT_CHECK(ev[i]->inits == c + 1 && ev[i]->destroys == c, "event %d: init called %d and destroy %d times after %d pipeline inits", i, (int)ev[i]->inits, (int)ev[i]->destroys, c + 1);
        for (int r = 0; r < runs; r++) {
            st = p->run();
            if (fail < 0) PBT_CHECK(st.isOK(), "run failed: %s", st.getInfo().c_str());
            for (int i = 0; i < k; i++) {
                Ev& e = *ev[i];
                if (e.daemonOnly) continue;
                int ended = e.ended, tot = e.total(), must = e.must();
                PBT_CHECK(ended >= must, "run %d returned though only %d of at least %d triggers of event %d had ended", r, ended, must, i);
                PBT_CHECK(e.started <= tot, "event %d was triggered %d times for %d notifications", i, (int)e.started, tot);
            }
        }
        if (daemon) { double t0 = pbt::now_s(); int d0 = daeTicks; while (daeTicks < d0 + 1 && pbt::now_s() - t0 < 10) std::this_thread::sleep_for(std::chrono::microseconds(200)); }
        for (auto& f : fs) { try { f.get(); } catch (const CException&) {} }
        fs.clear();
        st = p->destroy(); PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
        for (int i = 0; i < k; i++) {
            Ev& e = *ev[i];
            PBT_CHECK(e.started == e.total() && e.ended == e.total(), "after destroy event %d had been triggered %d times (%d ended) for %d notifications (%d sync, %d until run end, %d until destroy, %d no-wait)", i, (int)e.started, (int)e.ended, e.total(), (int)e.sync, (int)e.runf, (int)e.dest, (int)e.nowait);
            PBT_CHECK(e.destroys == c + 1 && e.inits == c + 1, "event %d: destroy called %d times after %d pipeline destroys", i, (int)e.destroys, c + 1);
        }
    }
    GPipelineFactory::remove(p);
    int asyncs = 0;
    for (auto& e : ev) asyncs += e->runf + e->dest + e->nowait;
    ctx.nontrivial = asyncs > 0;
    if (daemon) ctx.label("daemon notifies");
    if (serial) ctx.label("serial pipeline");
    if (shared) ctx.label("shared pool");
    if (fail >= 0) ctx.label("a run fails");
    bool d = false; for (auto& e : ev) d |= e->dest > 0; if (d) ctx.label("destroy strategy");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
