// C28: everything created through the API is destroyed exactly once, at the latest when its pipeline (topic) is removed,
// and nothing is called on an object after its destruction.
#include "pbt.h"
#include "CGraph.h"
#include <algorithm>
#include <memory>
#include <new>
#include <unordered_map>
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

// ---------------------------------------------------------------- allocation balance (plain build only)
#if !defined(__SANITIZE_ADDRESS__)
static std::atomic<long> gNet{0};
static void* take(size_t n) { gNet.fetch_add(1, std::memory_order_relaxed); return malloc(n ? n : 1); }
static void give(void* p) { if (p) { gNet.fetch_sub(1, std::memory_order_relaxed); free(p); } }
void* operator new(size_t n) { void* p = take(n); if (!p) abort(); return p; }
void* operator new[](size_t n) { void* p = take(n); if (!p) abort(); return p; }
void* operator new(size_t n, const std::nothrow_t&) noexcept { return take(n); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, size_t) noexcept { give(p); }
void operator delete[](void* p, size_t) noexcept { give(p); }
static long net() { return gNet.load(); }
static const bool kBalance = true;
#else
static long net() { return 0; }
static const bool kBalance = false;
#endif

// ---------------------------------------------------------------- tracked objects
enum Kind : int { NODE = 0, GROUP, PARAM, PASSED, ASPECT, DAEMON, EVENT, STAGE, CAPTURE, MESSAGE, NK };
static const char* kn(int k) { static const char* n[] = {"node", "group", "parameter", "passed parameter", "aspect", "daemon", "event", "stage", "captured value", "message"}; return n[k]; }
struct Books {
    std::mutex m; std::unordered_map<const void*, int> live; long made[NK] = {}, gone[NK] = {}; std::atomic<int> inflight{0};
    void add(const void* p, int k) { std::lock_guard<std::mutex> l(m); if (!live.emplace(p, k).second) pbt::failf("a %s is constructed over a living object", kn(k)); made[k]++; }
    void del(const void* p, int k) { std::lock_guard<std::mutex> l(m); auto it = live.find(p); if (it == live.end() || it->second != k) pbt::failf("a %s is destroyed twice", kn(k)); live.erase(it); gone[k]++; }
    bool has(const void* p, int k) { std::lock_guard<std::mutex> l(m); auto it = live.find(p); return it != live.end() && it->second == k; }
    long alive(int k) { std::lock_guard<std::mutex> l(m); return made[k] - gone[k]; }
};
static Books& bk() { static Books* b = new Books(); return *b; }
struct Track {
    int k; uint64_t a = 0xA11CE, b = 0;
    explicit Track(int k_) : k(k_) { bk().add(this, k); }
    Track(const Track&) = delete;
    Track& operator=(const Track&) = delete;
    ~Track() { bk().del(this, k); a = 0xDEAD; }
    void use(const char* what) const { if (!bk().has(this, k)) pbt::failf("%s of a %s is called after its destruction", what, kn(k)); }
};
// the duration of a callback, its object must live from the beginning to the end
struct In {
    const Track& t; const char* w;
    In(const Track& t_, const char* w_) : t(t_), w(w_) { bk().inflight++; t.use(w); }
    ~In() { t.use(w); bk().inflight--; }
};

// ---------------------------------------------------------------- behaviours
struct Beh {
    int init = 0, destroy = 0, run = 0, runAt = 0;      // 0 ok, 1 error, 2 throws
    int us = 0;
    int ev = -1, evKind = 0;                            // event triggered in run: 0 sync, 1 async run-finish, 2 async destroy, 3 async no-wait
    int mk = -1, rm = -1, get = -1;                     // parameter created in init / removed in destroy / accessed in run
    int ekey = -1;
    std::atomic<int> calls{0};
    Beh() = default;
    Beh(const Beh& o) { *this = o; }
    Beh& operator=(const Beh& o) { init = o.init; destroy = o.destroy; run = o.run; runAt = o.runAt; us = o.us; ev = o.ev; evKind = o.evKind; mk = o.mk; rm = o.rm; get = o.get; ekey = o.ekey; return *this; }
};
static std::string pk(int i) { return "p" + std::to_string(i); }
static CStatus act(int how, const char* what) { if (how == 1) return CStatus(-21, what); if (how == 2) CGRAPH_THROW_EXCEPTION(what); return CStatus(); }
struct Val : public GParam {
    Track t{PARAM}; int v = 0; std::vector<int> data = std::vector<int>(20, 3);
    CStatus init() override { In i(t, "init"); return CStatus(); }
    CStatus setup() override { In i(t, "setup"); v = 0; return CStatus(); }
    CVoid reset(const CStatus&) override { In i(t, "reset"); }
    CStatus destroy() override { In i(t, "destroy"); return CStatus(); }
};
struct Val2 : public Val {};
struct Pass : public GPassedParam {
    Track t{PASSED}; int v = 0; std::string s = "some text which is longer than the inline buffer";
    CVoid clone(GPassedParam* p) override { In i(t, "clone"); auto* o = (Pass*)p; In j(o->t, "clone"); v = o->v; s = o->s; }
    void use() { In i(t, "use"); if (s.size() != 48) pbt::fail("a passed parameter has damaged content"); }
};
class TNode : public GNode {
public:
    explicit TNode() = default;
    explicit TNode(Beh* b) : b_(b) {}
    void bind(Beh* b) { b_ = b; }
    CStatus init() override { In i(t_, "init"); if (b_->mk >= 0) CGRAPH_CREATE_GPARAM_WITH_BACKTRACE(Val, pk(b_->mk)); return act(b_->init, "init"); }
    CStatus prepareRun() override { In i(t_, "prepareRun"); return CStatus(); }
    CStatus run() override {
        In i(t_, "run");
        Beh* b = b_; int n = b->calls++;
        if (b->get >= 0) { auto* p = CGRAPH_GET_GPARAM(Val, pk(b->get)); if (p) { p->t.use("a read access"); CGRAPH_PARAM_WRITE_CODE_BLOCK(p) { p->v++; } } }
        if (b->ekey >= 0) { auto* p = getEParam<Pass>(b->ekey ? "e1" : "e0"); if (p) p->use(); }
        if (b->us) std::this_thread::sleep_for(std::chrono::microseconds(b->us));
        if (b->ev >= 0) {
            std::string k = "ev" + std::to_string(b->ev);
            switch (b->evKind) { case 0: (void)notify(k, GEventType::SYNC); break;
                case 1: (void)notify(k, GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_RUN_FINISH); break;
                case 2: (void)notify(k, GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_DESTROY); break;
                default: (void)notify(k, GEventType::ASYNC, GEventAsyncStrategy::NO_WAIT); }
        }
        return n == b->runAt ? act(b->run, "run") : CStatus();
    }
    CStatus destroy() override { In i(t_, "destroy"); if (b_->rm >= 0) { CStatus x = CGRAPH_DELETE_GPARAM(pk(b_->rm)); } return act(b_->destroy, "destroy"); }
    CBool isHold() override { In i(t_, "isHold"); return false; }
    CBool isMatch() override { In i(t_, "isMatch"); return (b_->calls & 1) == 0; }
private:
    Track t_{NODE}; Beh* b_ = nullptr;
};
class TTmpl : public GTemplateNode<Beh*, std::string> {
public:
    TTmpl(Beh* b, std::string s) : b_(b), s_(std::move(s)) {}
    CStatus init() override { In i(t_, "init"); return act(b_->init, "init"); }
    CStatus run() override { In i(t_, "run"); int n = b_->calls++; if (s_ != "argument text beyond the inline size") pbt::fail("a template element has a damaged argument"); return n == b_->runAt ? act(b_->run, "run") : CStatus(); }
    CStatus destroy() override { In i(t_, "destroy"); return act(b_->destroy, "destroy"); }
private:
    Track t_{NODE}; Beh* b_; std::string s_;
};
class TCluster : public GCluster { Track t_{GROUP}; CBool isHold() override { In i(t_, "isHold"); return false; } };
class TRegion : public GRegion { Track t_{GROUP}; CBool isHold() override { In i(t_, "isHold"); return false; } };
class TCond : public GCondition { Track t_{GROUP}; int n_ = 0; CIndex choose() override { In i(t_, "choose"); return n_++ % 3; } };
class TMultiS : public GMultiCondition<GMultiConditionType::SERIAL> { Track t_{GROUP}; CBool isHold() override { In i(t_, "isHold"); return false; } };
class TMultiP : public GMultiCondition<GMultiConditionType::PARALLEL> { Track t_{GROUP}; CBool isHold() override { In i(t_, "isHold"); return false; } };
class TSome : public GSome { Track t_{GROUP}; CSize getWaitNum() override { In i(t_, "getWaitNum"); return 1; } };
class TMut : public GMutable {
    Track t_{GROUP}; int n_ = 0;
    CStatus reshape(GElementPtrArr& el) override {
        In i(t_, "reshape"); int n = n_++;
        for (size_t k = 0; k + 1 < el.size(); k++) { if ((n + k) % 3 == 0) (*el[k]) > el[k + 1]; else (*el[k])--; }
        return CStatus();
    }
};
class TAsp : public GAspect {
public:
    CStatus beginInit() override { In i(t_, "beginInit"); par(); return CStatus(); }
    CVoid finishInit(const CStatus&) override { In i(t_, "finishInit"); }
    CStatus beginRun() override { In i(t_, "beginRun"); par(); return CStatus(); }
    CVoid finishRun(const CStatus&) override { In i(t_, "finishRun"); par(); }
    CStatus beginDestroy() override { In i(t_, "beginDestroy"); return CStatus(); }
    CVoid finishDestroy(const CStatus&) override { In i(t_, "finishDestroy"); par(); }
    CVoid enterCrashed() override { In i(t_, "enterCrashed"); }
    CVoid enterTimeout() override { In i(t_, "enterTimeout"); }
    virtual void par() { auto* p = getAParam<Pass>(); if (p) p->use(); }
protected:
    Track t_{ASPECT};
};
class TAspBad : public TAsp { CStatus beginRun() override { In i(t_, "beginRun"); return CStatus(-7, "aspect"); } };
class TAspT : public GTemplateAspect<int, std::string> {
public:
    TAspT(int, std::string s) : s_(std::move(s)) {}
    CStatus beginRun() override { In i(t_, "beginRun"); if (s_.size() != 40) pbt::fail("a template aspect has a damaged argument"); return CStatus(); }
    CVoid finishRun(const CStatus&) override { In i(t_, "finishRun"); }
private:
    Track t_{ASPECT}; std::string s_;
};
class TDaemon : public GDaemon {
    Track t_{DAEMON};
    CVoid daemonTask(GDaemonParamPtr p) override {
        In i(t_, "daemonTask"); if (p) ((Pass*)p)->use();
        auto* v = CGRAPH_GET_GPARAM(Val, "own"); if (v) v->t.use("a daemon's access");
        std::this_thread::sleep_for(std::chrono::microseconds(300));
    }
    CMSec modify(GDaemonParamPtr p) override { In i(t_, "modify"); if (p) ((Pass*)p)->use(); return 0; }
};
class TDaemonT : public GTemplateDaemon<std::string> {
public:
    explicit TDaemonT(std::string s) : s_(std::move(s)) {}
    CVoid daemonTask(GDaemonParamPtr) override { In i(t_, "daemonTask"); if (s_.size() != 40) pbt::fail("a template daemon has a damaged argument"); (void)notify("ev0", GEventType::ASYNC, GEventAsyncStrategy::NO_WAIT); }
private:
    Track t_{DAEMON}; std::string s_;
};
class TEvent : public GEvent {
    Track t_{EVENT};
    CStatus init() override { In i(t_, "init"); return CStatus(); }
    CStatus destroy() override { In i(t_, "destroy"); return CStatus(); }
    CVoid trigger(GEventParamPtr p) override {
        In i(t_, "trigger"); if (p) ((Pass*)p)->use();
        auto* v = CGRAPH_GET_GPARAM(Val, "own"); if (v) v->t.use("an event's access");
        std::this_thread::sleep_for(std::chrono::microseconds(200));
        if (v) v->t.use("an event's access"); if (p) ((Pass*)p)->use();
    }
};
class TStage : public GStage {
    Track t_{STAGE};
    CStatus init() override { In i(t_, "init"); return CStatus(); }
    CStatus destroy() override { In i(t_, "destroy"); return CStatus(); }
    CVoid launch(GStageParamPtr p) override { In i(t_, "launch"); if (p) ((Pass*)p)->use(); }
};
struct Msg : public GMessageParam { Track t{MESSAGE}; std::string s = "a message text which does not fit inline"; };
class TStNode : public GNode {
public:
    explicit TStNode(Beh* b) : b_(b) {}
    CStatus run() override { In i(t_, "run"); b_->calls++; (void)enterStage("st" + std::to_string(b_->mk)); return CStatus(); }
private:
    Track t_{NODE}; Beh* b_;
};

// ---------------------------------------------------------------- plan
struct BOp { int op = 0, a = 0, b = 0, c = 0, bad = 0, reg = 1, loop = 1, tmo = 0, tst = 0; std::vector<int> deps, kids; int name = 0; Beh beh; };
struct LOp { int op, a; };
struct Plan { int threads = 2, shared = 0, helpers = 0, engine = 0; std::vector<BOp> build; std::vector<LOp> life; std::vector<BOp> late; int endWait = 0, viaClear = 0, two = 0; };

static const char* ON[] = {"createGNode", "registerGElement", "templateNode", "function", "group", "aspect", "eparam", "daemon", "event", "stage", "gparam", "again", "remove-dep", "stage-node", "fence", "setAspectAll", "singleton"};
class TSing : public GNode { Track t_{NODE}; CStatus run() override { In i(t_, "run"); return CStatus(); } };

struct World {
    GPipelinePtr p = nullptr;
    std::vector<GElementPtr> top, all; std::vector<GElementPtr> free_;   // top: may be depended on; free_: created, without a place yet
    std::vector<GElementPtr> kids;
    std::vector<std::unique_ptr<Beh>> behs;
    bool faulty = false;
    Beh* beh(const Beh& o) { behs.emplace_back(new Beh(o)); return behs.back().get(); }
};
template <class F> static bool guarded(const F& f) { try { f(); } catch (const CException&) { return false; } return true; }

static void buildOp(World& w, const BOp& o) {
    GElementPtrSet deps; for (int d : o.deps) if (!w.top.empty()) deps.insert(w.top[d % w.top.size()]);
    if (o.bad == 1) deps.insert(nullptr);
    if (o.bad == 2 && !w.kids.empty()) deps.insert(w.kids[o.a % w.kids.size()]);
    std::string name = o.name ? "n" + std::to_string(o.name) : "";
    auto place = [&](GElementPtr e, bool ok) { if (e && ok) { w.top.push_back(e); w.all.push_back(e); } };
    auto any = [&](int i) -> GElementPtr { return w.all.empty() ? nullptr : w.all[i % w.all.size()]; };
    switch (o.op) {
        case 0: case 13: {
            GElementPtr n = nullptr; Beh* b = w.beh(o.beh);
            if (o.op == 13) { b->mk = o.a % 2; }
            guarded([&] { if (o.op == 13) n = w.p->createGNode<TStNode>(GNodeInfo(o.bad ? deps : GElementPtrSet{}, name, 1), b); else n = w.p->createGNode<TNode>(GNodeInfo(o.reg == 2 || o.bad ? deps : GElementPtrSet{}, name, o.loop), b); });
            if (!n) break;
            if (o.tmo && o.loop == 1 && o.op == 0) n->setTimeout(o.tmo, (GElementTimeoutStrategy)o.tst);
            if (o.reg) { CStatus st = w.p->registerGNode(&n, deps, name, n->getLoop()); place(n, st.isOK()); if (o.reg == 3) { st = w.p->registerGNode(&n, {}, name, n->getLoop()); PBT_CHECK(st.isErr(), "a node is registered twice"); } }
            else w.free_.push_back(n);
            break;
        }
        case 1: { GElementPtr n = nullptr; CStatus st = w.p->registerGElement<TNode>(&n, deps, name, o.loop); if (st.isOK()) { ((TNode*)n)->bind(w.beh(o.beh)); place(n, true); } break; }
        case 2: { GTemplateNodePtr<Beh*, std::string> n = nullptr; CStatus st = w.p->registerGElement<TTmpl, Beh*, std::string>(&n, deps, w.beh(o.beh), std::string("argument text beyond the inline size")); place(n, st.isOK()); break; }
        case 3: {
            GElementPtr n = nullptr; CStatus st = w.p->registerGElement<GFunction>(&n, deps, name, o.loop); GFunctionPtr f = (GFunctionPtr)n;
            if (st.isOK()) {
                std::shared_ptr<Track> t(new Track(CAPTURE)); Beh* b = w.beh(o.beh);
                f->setFunction(CFunctionType::RUN, [t, b] { In i(*t, "function"); int n = b->calls++; return n == b->runAt ? act(b->run, "run") : CStatus(); });
                if (o.a & 1) f->setFunction(CFunctionType::INIT, [t, b] { In i(*t, "function"); return act(b->init, "init"); });
                if (o.a & 2) f->setFunction(CFunctionType::DESTROY, [t, b] { In i(*t, "function"); return act(b->destroy, "destroy"); });
                if (o.a & 4) f->setFunction(CFunctionType::RUN, [t] { In i(*t, "function"); return CStatus(); });
                place(f, true);
            }
            break;
        }
        case 4: {
            GElementPtrArr kids; std::vector<GElementPtr> mine;
            for (int k : o.kids) {
                GElementPtr n = nullptr;
                if (k >= 100 && !w.free_.empty()) { n = w.free_.back(); w.free_.pop_back(); if (std::find(kids.begin(), kids.end(), n) != kids.end()) n = nullptr; }
                if (!n) n = w.p->createGNode<TNode>(GNodeInfo("k" + std::to_string(k)), w.beh(o.beh));
                if ((o.b & 1) && kids.size() == 1 && !n->isGGroup() && n->getLoop() == 1 && o.tmo) n->setTimeout(o.tmo, GElementTimeoutStrategy::HOLD_BY_PIPELINE);
                kids.push_back(n); mine.push_back(n);
            }
            if (o.bad == 3) kids.push_back(nullptr);
            GElementPtr g = nullptr; GElementPtrSet cd = o.bad == 1 || o.bad == 2 ? deps : GElementPtrSet{};
            guarded([&] {
                switch (o.c) {
                    case 0: g = w.p->createGGroup<TCluster>(kids, cd, name, o.loop); break;
                    case 1: { auto* r = w.p->createGGroup<TRegion>(kids, cd, name, o.loop); g = r; if (o.b & 2) r->setGEngineType(GEngineType::TOPO); break; }
                    case 2: g = w.p->createGGroup<TCond>(kids, cd, name, o.loop); break;
                    case 3: g = w.p->createGGroup<TMultiS>(kids, cd, name, o.loop); break;
                    case 4: g = w.p->createGGroup<TMultiP>(kids, cd, name, o.loop); break;
                    case 5: g = w.p->createGGroup<TSome>(kids, cd, name, 1); break;
                    default: g = w.p->createGGroup<TMut>(kids, cd, name, o.loop); break;
                }
            });
            if (!g) { if (o.reg && !mine.empty()) { GElementPtr n = mine[0]; if (n->isGNode()) { CStatus st = w.p->registerGNode(&n, {}, "", 1); PBT_CHECK(st.isOK(), "a node of a group that could not be made cannot be registered: %s", st.getInfo().c_str()); place(n, true); } } break; }
            for (auto* k : mine) { w.kids.push_back(k); w.all.push_back(k); }
            if (o.reg) { CStatus st = w.p->registerGGroup(&g, o.bad == 1 || o.bad == 2 ? GElementPtrSet{} : deps, name, o.c == 5 ? 1 : o.loop); place(g, st.isOK()); } else w.free_.push_back(g);
            break;
        }
        case 5: { GElementPtr e = any(o.a); if (!e) break; if (o.b == 0) { Pass q; e->addGAspect<TAsp>(&q); } else if (o.b == 1) e->addGAspect<TAspT, int, std::string>(3, std::string(40, 'x')); else if (o.b == 2 && w.faulty) e->addGAspect<TAspBad>(); break; }
        case 6: { GElementPtr e = any(o.a); if (!e) break; Pass q; guarded([&] { e->addEParam(o.b & 1 ? "e1" : "e0", &q); if (o.b & 2) e->addEParam("e0", &q); }); break; }
        case 7: { if (o.b == 0) { Pass q; w.p->addGDaemon<TDaemon, Pass>(1 + o.a % 3, &q); } else if (o.b == 1) w.p->addGDaemon<TDaemon>(1); else w.p->addGDaemon<TDaemonT, std::string>(1 + o.a % 2, std::string(40, 'x')); break; }
        case 8: { std::string k = "ev" + std::to_string(o.a % 2); guarded([&] { Pass q; if (o.b) w.p->addGEvent<TEvent, Pass>(k, &q); else w.p->addGEvent<TEvent>(k); }); break; }
        case 9: { guarded([&] { Pass q; if (o.b == 0) w.p->addGStage<TStage, Pass>("st" + std::to_string(o.a % 2), o.bad ? 0 : 1, &q); else w.p->addGStage<TStage>("st" + std::to_string(o.a % 2), 1); }); break; }
        case 10: { if (o.b == 0) (void)w.p->createGParam<Val>("own"); else if (o.b == 1) (void)w.p->createGParam<Val2>("own"); else (void)w.p->createGParam<Val>(pk(o.a % 3)); break; }
        case 11: { GElementPtr e = w.top.empty() ? nullptr : w.top[o.a % w.top.size()]; if (!e) break; CStatus st = e->isGGroup() ? w.p->registerGGroup(&e, {}, name, 1) : e->isGNode() ? w.p->registerGNode(&e, {}, name, 1) : CStatus("x"); PBT_CHECK(st.isErr(), "an element is registered twice"); break; }
        case 12: { if (w.top.size() < 2) break; GElementPtr a = w.top[o.a % w.top.size()]; auto r = a->getRelation(); if (!r.predecessors_.empty()) (void)a->removeDepend(r.predecessors_[0]); break; }
        case 14: {
            GElementPtr n = nullptr; CStatus st = w.p->registerGElement<GFence>(&n, deps, name, 1); GFencePtr f = (GFencePtr)n;
            if (st.isOK()) place(f, true);
            break;
        }
        case 15: { Pass q; if (o.b == 0) { GElementPtrSet s; w.p->addGAspect<TAsp, Pass>(s, &q); } else { GElementPtrSet s; for (int d : o.deps) if (auto* e = any(d)) s.insert(e); w.p->addGAspect<TAsp>(s); } break; }
        default: break;
    }
}

struct Result { bool failed = false; int inits = 0, runs = 0; bool initialisedAtEnd = false, rejected = false; };
static Result execPlan(const Plan& pl) {
    Result R;
    {
        World w;
        std::unique_ptr<UThreadPool> tp;
        UThreadPoolConfig c; c.default_thread_size_ = pl.threads; c.secondary_thread_size_ = pl.helpers; c.max_thread_size_ = pl.threads + pl.helpers + 1; c.monitor_enable_ = false; c.primary_thread_empty_interval_ = 2; c.queue_emtpy_interval_ = 2;
        if (pl.shared) { tp.reset(new UThreadPool(false)); tp->setConfig(c); PBT_CHECK(tp->init().isOK(), "pool"); }
        w.p = GPipelineFactory::create();
        if (pl.shared) w.p->setSharedThreadPool(tp.get()); else w.p->setUniqueThreadPoolConfig(c);
        if (pl.engine) w.p->setGEngineType(pl.engine == 1 ? GEngineType::STATIC : GEngineType::TOPO);
        for (auto& b : pl.build) { if (b.beh.run || b.beh.init || b.beh.destroy || (b.op == 5 && b.b == 2)) w.faulty = true; }
        for (auto& b : pl.build) buildOp(w, b);
        bool init = false, dead = false;               // dead: a failed init or destroy, only removal and harmless calls follow
        auto note = [&](const CStatus& st) { if (st.isErr()) R.failed = true; return st.isOK(); };
        for (auto& l : pl.life) {
            if (dead) break;
            switch (l.op) {
                case 0: if (!init) { CStatus st; if (!guarded([&] { st = w.p->init(); })) { dead = true; R.failed = true; break; } if (note(st)) { init = true; R.inits++; } else dead = true; } break;
                case 1: if (init) { guarded([&] { note(w.p->run()); }); R.runs++; } break;
                case 2: if (init) { auto f = w.p->asyncRun(); if (l.a) std::this_thread::sleep_for(std::chrono::microseconds(l.a)); (void)w.p->cancel(); guarded([&] { note(f.get()); }); R.runs++; } break;
                case 3: if (init) { CStatus st; bool ok = guarded([&] { st = w.p->destroy(); }); if (ok && note(st)) init = false; else { dead = true; if (l.a & 1) guarded([&] { CStatus rs = w.p->run(); PBT_CHECK(rs.isErr() || pl.shared, "a run without a pool succeeds"); }); if (l.a & 2) guarded([&] { (void)w.p->destroy(); }); } } break;
                case 4: if (!init) { CStatus st; bool ok = guarded([&] { st = w.p->process(1 + l.a % 3); }); if (!ok || !note(st)) { dead = true; } else R.runs++; } break;
                case 5: if (!init) { std::ostringstream os; if (!guarded([&] { if (!note(w.p->perf(os))) dead = true; })) dead = R.failed = true; } break;
                case 6: { std::ostringstream os; (void)w.p->dump(os); break; }
                case 7: if (!init) { for (auto& b : pl.late) buildOp(w, b); } break;
                case 8: if (!init) guarded([&] { (void)w.p->trim(); }); break;
                case 9: if (!init) { auto f = w.p->asyncProcess(2); if (!guarded([&] { if (!note(f.get())) dead = true; })) dead = R.failed = true; } break;
                default: if (!init) { (void)w.p->run(); (void)w.p->destroy(); } else (void)w.p->init(); break;
            }
        }
        R.initialisedAtEnd = init;
        if (pl.endWait) std::this_thread::sleep_for(std::chrono::microseconds(pl.endWait));
        if (pl.viaClear) GPipelineFactory::clear(); else { GPipelineFactory::remove(w.p); }
        for (int k = 0; k < MESSAGE; k++) PBT_CHECK(bk().alive(k) == 0, "%ld of %ld %ss are alive after the pipeline is removed", bk().alive(k), bk().made[k], kn(k));
        tp.reset();
        for (int i = 0; bk().inflight && i < 4000; i++) std::this_thread::sleep_for(std::chrono::microseconds(500));
    }
    return R;
}

static Beh genBeh(Src& src, bool faulty) {
    Beh b;
    if (faulty) { b.init = src.pick({14, 1, 1}); b.run = src.pick({8, 1, 1}); b.runAt = src.range(0, 2); b.destroy = src.pick({14, 1, 1}); }
    b.us = src.pick({6, 2, 1}) ; b.us = b.us == 0 ? 0 : b.us == 1 ? src.range(1, 300) : src.range(1000, 4000);
    if (src.chance(1, 3)) { b.ev = src.range(0, 1); b.evKind = src.range(0, 3); }
    if (src.chance(1, 4)) b.mk = src.range(0, 2);
    if (src.chance(1, 5)) b.rm = src.range(0, 2);
    if (src.chance(1, 3)) b.get = src.range(0, 2);
    if (src.chance(1, 4)) b.ekey = src.range(0, 1);
    if (b.rm >= 0) b.rm = 7;                         // removed keys belong to no other element: created and removed by the same one
    if (b.rm == 7) { b.mk = 7; }
    return b;
}
static BOp genOp(Src& src, bool faulty, bool bads, bool tmo) {
    BOp o; o.op = src.pick({6, 4, 1, 2, 6, 3, 2, 2, 2, 1, 2, 1, 1, 1, 1, 1});
    o.a = src.range(0, 9); o.b = src.range(0, 2); o.reg = src.pick({1, 6, 1, 1}); o.reg = o.reg == 0 ? 1 : o.reg == 1 ? 1 : o.reg == 2 ? 0 : 3;
    if (src.chance(1, 12)) o.reg = 2;
    int nd = src.pick({3, 3, 1}); for (int i = 0; i < nd; i++) o.deps.push_back(src.range(0, 9));
    if (bads && src.chance(1, 6)) o.bad = src.range(1, 3);
    o.loop = src.pick({5, 1, 1}) + 1; if (o.op == 4 || true) o.name = src.range(0, 1) ? src.range(1, 30) : 0;
    if (tmo && src.chance(1, 3)) { o.tmo = src.range(1, 3); o.tst = src.range(0, 2); o.loop = 1; }
    if (o.op == 4) { o.c = src.range(0, 6); int k = src.range(o.c == 2 ? 3 : 1, 4); for (int i = 0; i < k; i++) o.kids.push_back(src.chance(1, 5) ? 100 + i : i); if (o.c == 5) { o.b = 0; } }
    o.beh = genBeh(src, faulty);
    return o;
}

static void pipelineCase(Src& src, Ctx& ctx) {
    Plan pl; bool faulty = src.chance(1, 2), bads = src.chance(1, 2), tmo = src.chance(1, 2);
    pl.threads = src.range(4, 8); pl.helpers = src.pick({2, 1}) ? 2 : 0; pl.shared = src.chance(1, 3); pl.engine = src.pick({4, 1, 1});
    if (tmo) pl.engine = 0;
    int n = src.sized(1, 12); for (int i = 0; i < n; i++) pl.build.push_back(genOp(src, faulty, bads, tmo));
    int m = src.pick({2, 1}) ? src.range(0, 2) : 0; for (int i = 0; i < m; i++) pl.late.push_back(genOp(src, faulty, bads, tmo));
    int k = src.sized(0, 8);
    for (int i = 0; i < k; i++) { LOp l; l.op = src.pick({4, 6, 1, 3, 2, 1, 1, 2, 1, 1, 1}); l.a = l.op == 2 ? src.range(0, 1500) : src.range(0, 7); pl.life.push_back(l); }
    pl.endWait = src.pick({3, 1}) ? src.range(1, 2000) : 0; pl.viaClear = src.chance(1, 4);
    // elements that wait for others occupy a thread: enough of them for everything at once
    int need = 0; for (auto* v : {&pl.build, &pl.late}) for (auto& o : *v) { if (o.op == 4) need += 1 + (o.c >= 4 ? 2 * (int)o.kids.size() : o.tmo ? 2 : 0); if (o.tmo || o.op == 13) need += 2; }
    if (need) pl.threads = std::min(40, pl.threads + need);
    ctx.desc << "threads " << pl.threads << "+" << pl.helpers << (pl.shared ? " shared" : "") << " engine " << pl.engine << ";";
    auto show = [&](const BOp& o) {
        ctx.desc << " " << ON[o.op]; if (o.op == 4) ctx.desc << o.c << "{" << o.kids.size() << "}"; if (o.op >= 5 && o.op <= 11) ctx.desc << o.a << "/" << o.b; if (!o.deps.empty()) { ctx.desc << " <-"; for (int d : o.deps) ctx.desc << d << ","; }
        if (o.bad) ctx.desc << " BAD" << o.bad; if (o.reg != 1) ctx.desc << " reg" << o.reg; if (o.loop > 1) ctx.desc << " x" << o.loop; if (o.tmo) ctx.desc << " limit" << o.tmo << "/" << o.tst;
        auto& b = o.beh; if (b.init) ctx.desc << " init!" << b.init; if (b.run) ctx.desc << " run!" << b.run << "@" << b.runAt; if (b.destroy) ctx.desc << " destroy!" << b.destroy; if (b.us) ctx.desc << " " << b.us << "us"; if (b.ev >= 0) ctx.desc << " ev" << b.ev << "/" << b.evKind; if (b.mk >= 0) ctx.desc << " mk" << b.mk; if (b.rm >= 0) ctx.desc << " rm";
        ctx.desc << ";";
    };
    for (auto& o : pl.build) show(o);
    if (!pl.late.empty()) { ctx.desc << " LATE"; for (auto& o : pl.late) show(o); }
    static const char* LN[] = {"init", "run", "run+cancel", "destroy", "process", "perf", "dump", "late", "trim", "asyncProcess", "misuse"};
    ctx.desc << " |"; for (auto& l : pl.life) ctx.desc << " " << LN[l.op]; ctx.desc << (pl.viaClear ? " clear" : " remove"); ctx.publish();
    long made0 = 0; for (int i = 0; i < NK; i++) made0 += bk().made[i];
    long before = net();
    Result R = execPlan(pl);
    long d = net() - before;
    if (kBalance && d > 0) {
        for (int i = 0; i < 100 && net() - before > 0; i++) std::this_thread::sleep_for(std::chrono::microseconds(500));
        d = net() - before;
        if (d > 0) {                                  // something may have been set up lazily: only what happens again counts
            long d2 = 0, d3 = 0; long b2 = net(); execPlan(pl); std::this_thread::sleep_for(std::chrono::milliseconds(20)); d2 = net() - b2;
            if (d2 > 0) { b2 = net(); execPlan(pl); std::this_thread::sleep_for(std::chrono::milliseconds(50)); d3 = net() - b2; }
            PBT_CHECK(!(d2 > 0 && d3 > 0), "%ld, then %ld, then %ld allocations are not released after the pipeline is removed", d, d2, d3);
        }
    }
    long made1 = 0; for (int i = 0; i < NK; i++) made1 += bk().made[i];
    ctx.nontrivial = made1 - made0 >= 4 && !pl.life.empty() && (R.inits + R.runs > 0 || R.failed);
    if (R.failed) ctx.label("with failure"); if (R.initialisedAtEnd) ctx.label("removed while initialised"); if (!R.inits && !R.runs) ctx.label("never run"); if (pl.shared) ctx.label("shared pool");
    if (tmo) ctx.label("with time limits");
}

static void messageCase(Src& src, Ctx& ctx) {
    struct Op { int op, a, s; }; std::vector<Op> ops; int n = src.sized(2, 40);
    for (int i = 0; i < n; i++) ops.push_back({src.pick({2, 6, 3, 1, 1, 5, 3, 1, 1}), src.range(0, 1), src.range(1, 2)});
    int cap = src.range(1, 5), keep = src.range(0, 3);
    ctx.desc << "messages cap " << cap << ":"; for (auto& o : ops) ctx.desc << " " << o.op << "/" << o.a; ctx.publish();
    long sent = 0;
    auto exec = [&] {
        std::vector<std::shared_ptr<Msg>> kept; std::vector<CIndex> conn;
        bool have[2] = {false, false};
        for (auto& o : ops) {
            std::string t = "t" + std::to_string(o.a); GMessagePushStrategy st = o.s == 1 ? GMessagePushStrategy::REPLACE : GMessagePushStrategy::DROP; CUInt cc = cap; CStatus r;
            switch (o.op) {
                case 0: { CStatus x = CGRAPH_CREATE_MESSAGE_TOPIC(Msg, t, cc) have[o.a] = true; break; }
                case 1: { std::shared_ptr<Msg> m(new Msg()); CStatus x = CGRAPH_SEND_MPARAM(Msg, t, m, st) sent++; if ((int)kept.size() < keep) kept.push_back(m); break; }
                case 2: if (have[o.a]) { std::shared_ptr<Msg> m; CStatus x = CGRAPH_RECV_MPARAM_WITH_TIMEOUT(Msg, t, m, 1) if (x.isOK()) { In i(m->t, "use"); } } break;
                case 3: { CStatus x = CGRAPH_REMOVE_MESSAGE_TOPIC(t) have[o.a] = false; break; }
                case 4: { auto id = CGRAPH_BIND_MESSAGE_TOPIC(Msg, t, cc) conn.push_back(id); break; }
                case 5: { std::shared_ptr<Msg> m(new Msg()); CStatus x = CGRAPH_PUB_MPARAM(Msg, t, m, st) sent++; break; }
                case 6: if (!conn.empty()) { std::shared_ptr<Msg> m; CStatus x = CGRAPH_SUB_MPARAM_WITH_TIMEOUT(Msg, conn[0], m, 1) if (x.isOK()) { In i(m->t, "use"); } } break;
                case 7: { CStatus x = CGRAPH_DROP_MESSAGE_TOPIC(t) break; }
                default: if (o.s == 1) { CGRAPH_CLEAR_MESSAGES() have[0] = have[1] = false; conn.clear(); }
            }
        }
        CGRAPH_CLEAR_MESSAGES()
        PBT_CHECK(bk().alive(MESSAGE) == (long)kept.size(), "%ld messages are alive after all topics are gone, the sender kept %zu", bk().alive(MESSAGE), kept.size());
        for (auto& m : kept) m->t.use("use");
    };
    long before = net(); exec();
    PBT_CHECK(bk().alive(MESSAGE) == 0, "%ld messages are never destroyed", bk().alive(MESSAGE));
    long d = net() - before;
    if (kBalance && d > 0) { long b = net(); exec(); long d2 = net() - b; b = net(); exec(); long d3 = net() - b; PBT_CHECK(d2 <= 0 || d3 <= 0, "%ld, then %ld, then %ld allocations remain after all topics are gone", d, d2, d3); }
    ctx.nontrivial = sent >= 3; ctx.label("messages");
}

int main(int argc, char** argv) {
    return pbt::run_main(argc, argv, [](Src& src, Ctx& ctx) { if (src.chance(1, 8)) messageCase(src, ctx); else pipelineCase(src, ctx); });
}
