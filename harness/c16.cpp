// C16: daemons run only between init and destroy, one execution at a time, never sooner than their interval.
#include "pbt.h"
#include "CGraph.h"
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

static double ms() { return pbt::now_s() * 1e3; }
struct Dm {
    int interval = 1; std::vector<int> mods, durs; bool given = false; int val = 0; bool notify = false; bool tmpl = false; int a = 0; std::string b;
    std::atomic<int> execs{0}, modCalls{0}, inside{0}, evs{0};
    std::atomic<bool> live{false};
    double lb = 0, last = 0;
    std::string who;
};
static std::vector<std::unique_ptr<Dm>>* dms;
static size_t made;
static int globalVal;
class P : public GPassedParam { public: int v = 0; CVoid clone(GPassedParam* p) override { auto* q = dynamic_cast<P*>(p); if (q) v = q->v; } };
class G : public GParam { public: int x = 0; std::atomic<int> hits{0}; CVoid reset(const CStatus&) override {} };
class E : public GEvent { public: CVoid trigger(GEventParamPtr p) override { auto* q = dynamic_cast<P*>(p); if (!q) pbt::fail("event without parameter"); (*dms)[q->v]->evs++; } };
template <class B> class Core : public B {
public:
    using B::B;
    CVoid daemonTask(GDaemonParamPtr p) override {
        Dm& d = *(*dms)[id()];
        double t = ms();
        if (!d.live) pbt::failf("%s was executed though its pipeline is not initialised", d.who.c_str());
        if (d.inside.fetch_add(1) != 0) pbt::failf("%s is executed twice at once", d.who.c_str());
        if (t < d.lb) pbt::failf("%s (interval %d ms): execution %d started %.3f ms before its interval had elapsed", d.who.c_str(), d.interval, (int)d.execs, d.lb - t);
        if ((int)this->getInterval() != d.interval) pbt::failf("%s sees an interval of %d ms", d.who.c_str(), (int)this->getInterval());
        look(p);
        d.last = t;
        int du = d.durs[d.execs % d.durs.size()];
        if (d.notify) { CStatus st = this->notify("ev" + std::to_string(id()), d.execs % 2 ? GEventType::SYNC : GEventType::ASYNC, GEventAsyncStrategy::PIPELINE_DESTROY); if (st.isErr()) pbt::fail("a daemon could not notify an event: " + st.getInfo()); }
        if (du > 0) std::this_thread::sleep_for(std::chrono::microseconds(du * 100));
        d.inside--;
        d.execs++;
    }
    CMSec modify(GDaemonParamPtr p) override {
        Dm& d = *(*dms)[id()];
        if (!d.live) pbt::failf("%s was asked for its interval though its pipeline is not initialised", d.who.c_str());
        look(p);
        int m = d.mods[d.modCalls++ % d.mods.size()];
        double t = ms();
        if (m > 0) d.lb = t + m;
        else if (t - d.last >= d.interval + 2.0) d.lb = t + d.interval;
        else d.lb = d.lb + d.interval - 1.001;      // the framework's clock counts whole milliseconds
        return m;
    }
    void look(GDaemonParamPtr p) {
        Dm& d = *(*dms)[id()];
        auto* q = dynamic_cast<P*>(p);
        if (d.given ? (!q || q->v != d.val) : p != nullptr) pbt::failf("%s does not see its own parameter", d.who.c_str());
        auto* g = this->template getGParam<G>("g");
        if (!g || g->x != globalVal) pbt::failf("%s does not see the pipeline's parameter", d.who.c_str());
        g->hits++;
    }
    virtual int id() = 0;
};
class D : public Core<GDaemon> { public: int i = (int)made++; int id() override { return i; } };
class T : public Core<GTemplateDaemon<int, std::string>> {
public:
    int i = (int)made++;
    explicit T(int a, std::string b) { Dm& d = *(*dms)[i]; if (a != d.a || b != d.b) pbt::fail("a template daemon was not given its arguments"); }
    int id() override { return i; }
};
class N : public GNode { public: bool failInit = false; int us = 0; CStatus init() override { return failInit ? CStatus(-9, "planned") : CStatus(); } CStatus run() override { if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); return CStatus(); } };

static void prop(Src& src, Ctx& ctx) {
    std::vector<std::unique_ptr<Dm>> dv; dms = &dv; made = 0;
    globalVal = src.range(1, 1000);
    GPipelinePtr p = GPipelineFactory::create();
    UThreadPoolConfig cfg; cfg.default_thread_size_ = 2; cfg.secondary_thread_size_ = 0; cfg.max_thread_size_ = 2; cfg.primary_thread_empty_interval_ = 2; p->setUniqueThreadPoolConfig(cfg);
    p->createGParam<G>("g"); p->getGParam<G>("g")->x = globalVal;
    int k = src.pick({3, 3, 2, 1}) + 1;
    bool longOne = false;
    for (int i = 0; i < k; i++) {
        dv.emplace_back(new Dm()); Dm& d = *dv.back();
        d.who = "daemon " + std::to_string(i);
        d.interval = src.pick({4, 3, 1}) == 0 ? src.range(1, 3) : src.chance(1, 4) ? 30000 : src.range(4, 12);
        if (d.interval == 30000) longOne = true;
        int m = src.range(1, 4);
        for (int j = 0; j < m; j++) d.mods.push_back(src.pick({5, 2, 1}) == 0 ? 0 : src.range(1, 6));
        m = src.range(1, 3);
        for (int j = 0; j < m; j++) d.durs.push_back(src.pick({4, 2, 1}) == 0 ? 0 : src.range(1, 40));
        d.given = src.flip(); d.val = src.range(0, 9999); d.notify = src.chance(1, 3);
        d.tmpl = src.chance(1, 4);
        P ep; ep.v = i; p->addGEvent<E, P>("ev" + std::to_string(i), &ep);
        P q; q.v = d.val;
        if (d.tmpl) { d.given = false; d.a = src.range(0, 99); d.b = std::string(src.range(0, 40), 'x'); p->addGDaemon<T, int, std::string>(d.interval, int(d.a), std::string(d.b)); }
        else if (d.given) p->addGDaemon<D, P>(d.interval, &q); else p->addGDaemon<D>(d.interval);
        q.v = -1;
        ctx.desc << d.who << " every " << d.interval << " ms, changes"; for (int x : d.mods) ctx.desc << " " << x; ctx.desc << ", durations (x100us)"; for (int x : d.durs) ctx.desc << " " << x; ctx.desc << (d.given ? ", parameter" : "") << (d.notify ? ", notifies" : "") << (d.tmpl ? ", template" : "") << "\n";
    }
    GElementPtr e = nullptr; PBT_CHECK((p->registerGElement<N>(&e, {}, "n", 1)).isOK(), "register");
    N* n = static_cast<N*>(e);
    n->us = src.pick({2, 1}) ? src.range(100, 3000) : 0;
    bool failInit = src.chance(1, 10);
    int cycles = src.range(1, 3);
    std::vector<int> style;
    for (int c = 0; c < cycles; c++) style.push_back(src.pick({3, 3, 2}));   // wait for executions, immediate destroy, runs
    ctx.desc << cycles << " cycles:"; for (int s : style) ctx.desc << " " << (s == 0 ? "wait" : s == 1 ? "at once" : "runs"); ctx.desc << (failInit ? "; element init fails" : "") << "\n";
    ctx.publish();
    uint64_t total = 0;
    if (failInit) {
        n->failInit = true;
        PBT_CHECK(p->init().isErr(), "init of a failing element returned OK");
        std::this_thread::sleep_for(std::chrono::milliseconds(src.range(0, 8)));
        GPipelineFactory::remove(p);
        ctx.label("init fails");
        return;
    }
    for (int c = 0; c < cycles; c++) {
        double t0 = ms();
        for (auto& d : dv) { d->live = true; d->lb = t0 + d->interval; }
        std::vector<int> b; for (auto& d : dv) b.push_back(d->execs);
        CStatus st = p->init(); PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
        if (style[c] == 0) {
            int want = src.range(1, 4);
            for (int i = 0; i < k; i++) { if (dv[i]->interval == 30000) { continue; } while (dv[i]->execs < b[i] + want) { if (ms() - t0 > 20000) pbt::failf("%s (interval %d ms) was executed %d times in %.0f ms", dv[i]->who.c_str(), dv[i]->interval, dv[i]->execs - b[i], ms() - t0); std::this_thread::sleep_for(std::chrono::microseconds(100)); } }
        } else if (style[c] == 2) { int r = src.range(1, 3); for (int i = 0; i < r; i++) { st = p->run(); PBT_CHECK(st.isOK(), "run failed: %s", st.getInfo().c_str()); } }
        double td = ms();
        st = p->destroy(); PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
        PBT_CHECK(ms() - td < 15000, "destroy waited %.0f ms for the interval of a daemon", ms() - td);
        for (auto& d : dv) { d->live = false; PBT_CHECK(d->inside == 0, "%s is still being executed after destroy", d->who.c_str()); if (d->notify) PBT_CHECK(d->evs == d->execs, "%s notified its event %d times, it was triggered %d times", d->who.c_str(), (int)d->execs, (int)d->evs); }
        if (c + 1 < cycles || src.chance(1, 4)) std::this_thread::sleep_for(std::chrono::microseconds(src.pick({2, 1}) ? src.range(100, 6000) : 0));
    }
    GPipelineFactory::remove(p);
    for (auto& d : dv) total += d->execs;
    ctx.nontrivial = total > 0;
    if (longOne) ctx.label("a daemon with a long interval");
    if (k > 1) ctx.label("several daemons");
    if (cycles > 1) ctx.label("re-init");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
