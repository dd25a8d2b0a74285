// C29: adapters (singleton, function, coordinator), template nodes and domain nodes keep their contract.
#include "pbt.h"
#include "CGraph.h"
#include <algorithm>
#include <set>
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;
static std::atomic<int>& clk() { static std::atomic<int> c{0}; return c; }
static void snooze(int us) { if (us) std::this_thread::sleep_for(std::chrono::microseconds(us)); }

// ---------------------------------------------------------------- singletons, functions, template nodes in graphs
struct SBook { std::atomic<int> inits{0}, runs{0}, destroys{0}, ctors{0}; std::atomic<bool> on{false}; std::atomic<const void*> self{nullptr}; int us = 0; };
static SBook* SB() { static SBook b[3]; return b; }
template <int K> class SNode : public GNode {
public:
    SNode() { SB()[K].ctors++; }
    CStatus init() override { same(); if (SB()[K].on.exchange(true)) pbt::failf("a singleton is initialised twice in one use"); SB()[K].inits++; return CStatus(); }
    CStatus run() override { same(); if (!SB()[K].on) pbt::failf("a singleton runs while it is not initialised"); SB()[K].runs++; snooze(SB()[K].us); if (!SB()[K].on) pbt::failf("a singleton is destroyed while it runs"); return CStatus(); }
    CStatus destroy() override { same(); if (!SB()[K].on.exchange(false)) pbt::failf("a singleton is destroyed twice in one use"); SB()[K].destroys++; return CStatus(); }
private:
    void same() { const void* e = nullptr; if (!SB()[K].self.compare_exchange_strong(e, this) && e != this) pbt::failf("a singleton is more than one object"); }
};
struct Pos {                                       // one place in a pipeline
    int kind = 0, k = 0, loop = 1, us = 0, cfg = 0; std::vector<int> deps; std::set<int> anc;
    GElementPtr el = nullptr; GFunctionPtr fn = nullptr;
    bool fi = false, fr = false, fd = false; int version = 0;
    std::atomic<int> inits{0}, runs{0}, destroys{0}, first{0}, last{0};
    std::atomic<int> failMode{0};                  // of the run function
    std::string text; int num = 0; double real = 0;
    void zero() { inits = runs = destroys = 0; first = last = 0; }
    CStatus body(int id) {
        int a = ++clk(); int z = 0; first.compare_exchange_strong(z, a);
        runs++; snooze(us);
        last = ++clk();
        if (failMode == 1) return CStatus(-61, "pos " + std::to_string(id));
        if (failMode == 2) throw CException("pos " + std::to_string(id));
        return CStatus();
    }
};
template <typename... Args> class TNode;
template <> class TNode<int, std::string> : public GTemplateNode<int, std::string> {
public:
    TNode(int n, std::string s) : n_(n), s_(std::move(s)) {}
    CStatus init() override { if (pos) pos->inits++; return CStatus(); }
    CStatus run() override { if (n_ != pos->num || s_ != pos->text) pbt::failf("a template element was given (%d,'%s') and has (%d,'%s')", pos->num, pos->text.c_str(), n_, s_.c_str()); return pos->body(id); }
    CStatus destroy() override { pos->destroys++; return CStatus(); }
    Pos* pos = nullptr; int id = 0;
private: int n_; std::string s_;
};
template <> class TNode<double> : public GTemplateNode<double> {
public:
    explicit TNode(double d) : d_(d) {}
    CStatus init() override { pos->inits++; return CStatus(); }
    CStatus run() override { if (d_ != pos->real) pbt::failf("a template element was given %f and has %f", pos->real, d_); return pos->body(id); }
    CStatus destroy() override { pos->destroys++; return CStatus(); }
    Pos* pos = nullptr; int id = 0;
private: double d_;
};
template <> class TNode<std::vector<int>, Pos*, bool> : public GTemplateNode<std::vector<int>, Pos*, bool> {
public:
    TNode(std::vector<int> v, Pos* p, bool f) : pos(p), v_(std::move(v)), f_(f) {}
    CStatus init() override { pos->inits++; return CStatus(); }
    CStatus run() override { if ((int)v_.size() != pos->num || (pos->num && v_.back() != pos->num) || f_ != (pos->num % 2 == 1)) pbt::failf("a template element was given other arguments"); return pos->body(id); }
    CStatus destroy() override { pos->destroys++; return CStatus(); }
    Pos* pos; int id = 0;
private: std::vector<int> v_; bool f_;
};
class MNode : public GNode {                       // created with move-only and reference arguments
public:
    MNode(std::unique_ptr<int> u, const std::string& s, Pos* p) : pos(p), u_(std::move(u)), s_(s) {}
    CStatus init() override { pos->inits++; return CStatus(); }
    CStatus run() override { if (!u_ || *u_ != pos->num || s_ != pos->text) pbt::failf("an element was given other construction arguments"); return pos->body(id); }
    CStatus destroy() override { pos->destroys++; return CStatus(); }
    Pos* pos; int id = 0;
private: std::unique_ptr<int> u_; std::string s_;
};
struct PP { GPipelinePtr p = nullptr; std::vector<std::unique_ptr<Pos>> pos; bool init = false, dead = false; std::set<int> ks; int runs = 0; };

static void graphs(Src& src, Ctx& ctx) {
    for (int k = 0; k < 3; k++) { auto& b = SB()[k]; b.inits = b.runs = b.destroys = 0; b.us = src.pick({3, 1}) ? src.range(1, 60) : 0; PBT_CHECK(!b.on, "a singleton is left initialised"); PBT_CHECK(b.ctors <= 1, "singleton %d was constructed %d times", k, (int)b.ctors); }
    clk() = 0;
    int np = src.pick({2, 2, 1}) + 1;
    std::vector<PP> ps(np);
    int nsing = 0, nfun = 0, ntmp = 0;
    auto setf = [&](PP& pp, int i) {               // (re)sets functions of a function element
        Pos* q = pp.pos[i].get();
        int v = ++q->version;
        GFunctionPtr f = q->fn;
        if (src.flip()) { q->fi = true; q->cfg = v; f->setFunction(CFunctionType::INIT, [q, v] { if (q->cfg != v) pbt::failf("a replaced init function is called"); q->inits++; return CStatus(); }); }
        if (!q->fr || src.flip()) { q->fr = true; int want = q->k = v; f->setFunction(CFunctionType::RUN, [q, want, i] { if (q->k != want) pbt::failf("a replaced run function is called"); return q->body(i); }); }
        if (src.flip()) { q->fd = true; f->setFunction(CFunctionType::DESTROY, [q] { q->destroys++; return CStatus(); }); }
    };
    for (int a = 0; a < np; a++) {
        PP& pp = ps[a];
        pp.p = GPipelineFactory::create();
        int n = src.sized(1, 9);
        ctx.desc << "pipeline " << a << ":";
        std::vector<GElementPtr> els;
        for (int i = 0; i < n; i++) {
            pp.pos.emplace_back(new Pos());
            Pos* q = pp.pos.back().get();
            q->kind = src.pick({4, 4, 2, 1, 1, 1}); q->loop = src.pick({4, 1}) ? src.range(2, 3) : 1; q->us = src.pick({3, 1}) ? src.range(1, 80) : 0;
            std::set<GElementPtr> dep;
            for (int j = 0; j < i; j++) if (src.chance(1, 3)) { q->deps.push_back(j); q->anc.insert(j); q->anc.insert(pp.pos[j]->anc.begin(), pp.pos[j]->anc.end()); dep.insert(els[j]); }
            std::string name = "p" + std::to_string(a) + "e" + std::to_string(i);
            CStatus st; GElementPtr e = nullptr;
            q->num = src.range(0, 9); q->text = std::string(src.range(0, 30), 'x') + std::to_string(q->num); q->real = src.range(-50, 50) / 8.0;
            static const char* KN[] = {"singleton", "function", "int,string", "double", "vector,ptr,bool", "created"};
            switch (q->kind) {
                case 0: {
                    q->k = src.below(3); pp.ks.insert(q->k); nsing++;
                    st = q->k == 0 ? pp.p->registerGElement<GSingleton<SNode<0>>>(&e, dep, name, q->loop) : q->k == 1 ? pp.p->registerGElement<GSingleton<SNode<1>>>(&e, dep, name, q->loop) : pp.p->registerGElement<GSingleton<SNode<2>>>(&e, dep, name, q->loop);
                    break;
                }
                case 1: {
                    nfun++;
                    if (src.flip()) { st = pp.p->registerGElement<GFunction>(&e, dep, name, q->loop); q->fn = dynamic_cast<GFunctionPtr>(e); }
                    else { st = pp.p->registerGElement<GFunction>(&q->fn, dep, name, q->loop); e = q->fn; }
                    PBT_CHECK(q->fn, "no function element");
                    if (!src.chance(1, 5)) setf(pp, i);
                    break;
                }
                case 2: {
                    ntmp++; q->loop = 1;
                    if (src.flip()) { GTemplateNodePtr<int, std::string> t = nullptr; st = pp.p->registerGElement<TNode<int, std::string>>(&t, dep, q->num, q->text); e = t; }
                    else e = (pp.p->registerGNode<TNode<int, std::string>, int, std::string>(dep, q->num, q->text));
                    auto* t = dynamic_cast<TNode<int, std::string>*>(e); PBT_CHECK(t, "no template element"); t->pos = q; t->id = i;
                    break;
                }
                case 3: {
                    ntmp++; q->loop = 1;
                    GTemplateNodePtr<double> t = nullptr; st = pp.p->registerGElement<TNode<double>>(&t, dep, q->real); e = t;
                    auto* u = dynamic_cast<TNode<double>*>(e); PBT_CHECK(u, "no template element"); u->pos = q; u->id = i;
                    break;
                }
                case 4: {
                    ntmp++; q->loop = 1; std::vector<int> v(q->num, q->num);
                    GTemplateNodePtr<std::vector<int>, Pos*, bool> t = nullptr; st = pp.p->registerGElement<TNode<std::vector<int>, Pos*, bool>>(&t, dep, v, q, q->num % 2 == 1); e = t;
                    static_cast<TNode<std::vector<int>, Pos*, bool>*>(e)->id = i;
                    break;
                }
                default: {
                    ntmp++;
                    auto* t = src.flip() ? pp.p->createGNode<MNode>(GNodeInfo(dep, name, q->loop), std::unique_ptr<int>(new int(q->num)), q->text, q) : pp.p->createGNode<MNode>(dep, name, q->loop, std::unique_ptr<int>(new int(q->num)), q->text, q);
                    t->id = i;
                    st = pp.p->registerGNode((GElementPPtr)&t, dep, name, q->loop); e = t;
                }
            }
            PBT_CHECK(st.isOK() && e, "registering %s fails: %s", name.c_str(), st.getInfo().c_str());
            q->el = e; els.push_back(e);
            ctx.desc << " e" << i << "=" << KN[q->kind]; if (q->kind == 0) ctx.desc << q->k; if (q->loop > 1) ctx.desc << "x" << q->loop; if (!q->deps.empty()) { ctx.desc << "("; for (int d : q->deps) ctx.desc << " e" << d; ctx.desc << ")"; }
        }
        UThreadPoolConfig c; c.default_thread_size_ = src.range(1, 4); c.secondary_thread_size_ = 0; c.max_thread_size_ = c.default_thread_size_ + src.range(0, 1); c.monitor_enable_ = false; c.primary_thread_empty_interval_ = 2; c.queue_emtpy_interval_ = 2;
        pp.p->setUniqueThreadPoolConfig(c);
        int eng = src.pick({3, 1, 1}); pp.p->setGEngineType(eng == 0 ? GEngineType::DYNAMIC : eng == 1 ? GEngineType::STATIC : GEngineType::TOPO);
        ctx.desc << "\n";
    }
    ctx.publish();
    int users[3] = {0, 0, 0}, uses[3] = {0, 0, 0}, ends[3] = {0, 0, 0}; long want[3] = {0, 0, 0};
    bool overlap = false;
    auto books = [&](const char* what) { for (int k = 0; k < 3; k++) { auto& b = SB()[k];
        PBT_CHECK(b.inits == uses[k] && b.destroys == ends[k] && b.runs == want[k], "after %s: singleton %d was initialised %d times, run %d times and destroyed %d times, expected %d, %ld, %d", what, k, (int)b.inits, (int)b.runs, (int)b.destroys, uses[k], want[k], ends[k]); } };
    auto mrun = [&](PP& pp) { for (auto& q : pp.pos) if (q->kind == 0) want[q->k] += q->loop; };
    auto chk = [&](PP& pp, int a) {
        for (size_t i = 0; i < pp.pos.size(); i++) {
            Pos& q = *pp.pos[i];
            if (q.kind == 0 || (q.kind == 1 && !q.fr)) { PBT_CHECK(q.runs == 0, "?"); continue; }
            PBT_CHECK(q.runs == q.loop, "pipeline %d: e%zu ran %d times, its loop is %d", a, i, (int)q.runs, q.loop);
            for (int d : q.anc) { Pos& w = *pp.pos[d]; if (w.runs) PBT_CHECK(w.last < q.first, "pipeline %d: e%zu started before e%d had ended", a, i, d); }
            q.zero();
        }
    };
    int ops = src.sized(3, 24);
    for (int o = 0; o < ops; o++) {
        int a = (int)src.below(np); PP& pp = ps[a];
        if (!pp.p) continue;
        switch (src.pick({4, 6, 3, 2, 1, 2, 1})) {
            case 0: {
                if (pp.init || pp.dead) break;
                ctx.desc << " init" << a; ctx.publish();
                for (auto& q : pp.pos) q->zero();
                CStatus st = pp.p->init();
                PBT_CHECK(st.isOK(), "init fails: %s", st.getInfo().c_str());
                pp.init = true;
                for (int k : pp.ks) { if (users[k]++ == 0) uses[k]++; else overlap = true; }
                for (auto& q : pp.pos) { bool want = q->kind > 1 || (q->kind == 1 && q->fi); PBT_CHECK(q->inits == (want ? 1 : 0), "an element's init was called %d times, expected %d", (int)q->inits, want); q->zero(); }
                books("init");
                break;
            }
            case 1: {
                if (!pp.init) break;
                ctx.desc << " run" << a; ctx.publish();
                CStatus st = pp.p->run();
                PBT_CHECK(st.isOK(), "run fails: %s", st.getInfo().c_str());
                mrun(pp); pp.runs++;
                chk(pp, a); books("run");
                break;
            }
            case 2: {
                if (!pp.init) break;
                ctx.desc << " destroy" << a; ctx.publish();
                CStatus st = pp.p->destroy();
                PBT_CHECK(st.isOK(), "destroy fails: %s", st.getInfo().c_str());
                pp.init = false;
                for (int k : pp.ks) if (--users[k] == 0) ends[k]++;
                for (auto& q : pp.pos) { bool want = q->kind > 1 || (q->kind == 1 && q->fd); PBT_CHECK(q->destroys == (want ? 1 : 0), "an element's destroy was called %d times, expected %d", (int)q->destroys, want); q->zero(); }
                books("destroy");
                break;
            }
            case 3: {       // all at the same time
                std::vector<std::thread> ts; std::atomic<int> bad{0};
                ctx.desc << " all-run"; ctx.publish();
                for (auto& x : ps) if (x.p && x.init) { mrun(x); x.runs++; GPipelinePtr p = x.p; ts.emplace_back([p, &bad] { if (p->run().isErr()) bad++; }); }
                for (auto& t : ts) t.join();
                PBT_CHECK(bad == 0, "run fails");
                for (int i = 0; i < np; i++) if (ps[i].p && ps[i].init) chk(ps[i], i);
                books("runs at a time");
                break;
            }
            case 4: {       // removed without destroy: nothing else is affected
                if (!src.chance(1, 3)) break;
                if (pp.init && !pp.ks.empty()) break;      // (what a shared singleton is then is not claimed)
                ctx.desc << " remove" << a; ctx.publish();
                GPipelineFactory::remove(pp.p); pp.p = nullptr; pp.init = false;
                books("remove");
                break;
            }
            case 5: {       // functions
                std::vector<int> fs; for (size_t i = 0; i < pp.pos.size(); i++) if (pp.pos[i]->kind == 1) fs.push_back((int)i);
                if (fs.empty()) break;
                int i = fs[src.below(fs.size())]; Pos& q = *pp.pos[i];
                ctx.desc << " set" << a << "." << i; ctx.publish();
                if (pp.init) {
                    bool threw = false; try { q.fn->setFunction(CFunctionType::RUN, [] { pbt::failf("a refused function is called"); return CStatus(); }); } catch (const CException&) { threw = true; }
                    PBT_CHECK(threw, "a function is replaced while the pipeline is initialised");
                } else setf(pp, i);
                break;
            }
            default: {      // a function fails
                std::vector<int> fs; for (size_t i = 0; i < pp.pos.size(); i++) if (pp.pos[i]->kind == 1 && pp.pos[i]->fr) fs.push_back((int)i);
                if (fs.empty() || !pp.init) break;
                int i = fs[src.below(fs.size())]; Pos& q = *pp.pos[i];
                q.failMode = src.range(1, 2);
                ctx.desc << " fail" << a << "." << i; ctx.publish();
                long before[3]; for (int k = 0; k < 3; k++) before[k] = SB()[k].runs;
                CStatus st = pp.p->run();
                PBT_CHECK(st.isErr() && st.getInfo().find("pos " + std::to_string(i)) != std::string::npos, "a function returned an error, run returned %d '%s'", st.getCode(), st.getInfo().c_str());
                if (q.failMode == 1) PBT_CHECK(st.getCode() == -61, "run returned %d", st.getCode());
                PBT_CHECK(q.runs == 1, "a failing function was called %d times", (int)q.runs);
                for (size_t j = 0; j < pp.pos.size(); j++) { if (pp.pos[j]->anc.count(i)) PBT_CHECK(pp.pos[j]->runs == 0, "e%zu ran although e%d had failed", j, i); PBT_CHECK(pp.pos[j]->runs <= pp.pos[j]->loop, "e%zu ran %d times", j, (int)pp.pos[j]->runs); }
                q.failMode = 0;
                for (int k = 0; k < 3; k++) { long most = 0; for (auto& x : pp.pos) if (x->kind == 0 && x->k == k && !x->anc.count(i)) most += x->loop; long d = SB()[k].runs - before[k]; PBT_CHECK(d >= 0 && d <= most, "a singleton ran %ld times in a failed run, at most %ld", d, most); want[k] = SB()[k].runs; }
                for (auto& x : pp.pos) x->zero();
                books("a failed run");
            }
        }
    }
    for (int a = 0; a < np; a++) if (ps[a].p && ps[a].init) { PBT_CHECK(ps[a].p->destroy().isOK(), "destroy fails"); for (int k : ps[a].ks) if (--users[k] == 0) ends[k]++; books("the last destroy"); }
    GPipelineFactory::clear();
    books("all");
    int runs = 0; for (auto& x : ps) runs += x.runs;
    ctx.nontrivial = runs > 0 && nsing + nfun + ntmp >= 2;
    ctx.label("graphs"); if (overlap) ctx.label("singleton shared by initialised pipelines"); if (nfun) ctx.label("functions"); if (ntmp) ctx.label("construction arguments");
}

// ---------------------------------------------------------------- coordinator
struct Gate { std::mutex m; std::condition_variable cv; int here = 0, cur = 0, max = 0; void zero() { here = cur = max = 0; } };
class Waiter : public GNode {          // runs on a helper thread only
public:
    Waiter(Gate* g, int all, int us) : g_(g), all_(all), us_(us) {}
    CStatus run() override {
        std::unique_lock<std::mutex> lk(g_->m);
        g_->cur++; g_->max = std::max(g_->max, g_->cur);
        if (all_) { g_->here++; g_->cv.notify_all(); g_->cv.wait(lk, [&] { return g_->here >= all_; }); }      // needs all_ threads at a time
        else { lk.unlock(); snooze(us_); lk.lock(); }
        g_->cur--;
        return CStatus();
    }
private: Gate* g_; int all_, us_;
};
class Pause : public GNode { public: CStatus run() override { std::this_thread::sleep_for(std::chrono::milliseconds(6)); return CStatus(); } };
template <int S> static CStatus regc(GPipelinePtr p, GElementPtr* e, std::set<GElementPtr> d, CSize loop) { return p->registerGElement<GCoordinator<S>>(e, d, "coord", loop); }
static CStatus coord(int s, GPipelinePtr p, GElementPtr* e, std::set<GElementPtr> d, CSize loop = 1) {
    switch (s) { case -3: return regc<-3>(p, e, d, loop); case -2: return regc<-2>(p, e, d, loop); case -1: return regc<-1>(p, e, d, loop); case 0: return regc<0>(p, e, d, loop); case 1: return regc<1>(p, e, d, loop); case 2: return regc<2>(p, e, d, loop); case 3: return regc<3>(p, e, d, loop); default: return regc<5>(p, e, d, loop); }
}
static void coordinator(Src& src, Ctx& ctx) {
    UThreadPoolConfig c; int extra = src.range(1, 6);
    c.default_thread_size_ = src.range(1, 3); c.secondary_thread_size_ = src.range(0, std::min(2, extra)); c.max_thread_size_ = c.default_thread_size_ + extra; c.monitor_enable_ = false; c.primary_thread_empty_interval_ = 2; c.queue_emtpy_interval_ = 2;
    struct St { int kind, n; Gate g; std::vector<GElementPtr> els; };
    int ns = src.range(1, 5);
    std::vector<std::unique_ptr<St>> st;
    // plan for the first run, so that no stage waits for a helper that does not exist
    int h = c.secondary_thread_size_, low = h;
    bool fails = false;
    ctx.desc << c.default_thread_size_ << " threads, " << c.secondary_thread_size_ << " helpers, at most " << extra << ":";
    for (int i = 0; i < ns; i++) {
        st.emplace_back(new St()); St& s = *st.back();
        s.kind = src.pick({4, 3, 2});
        if (s.kind == 0) { static const int sz[] = {1, 2, 3, 5, 0, -1, -2, -3}; s.n = sz[src.pick({3, 2, 2, 1, 1, 2, 1, 1})]; if (s.n < 0 && -s.n > h) { if (fails || !src.chance(1, 4)) s.n = 1; else fails = true; } if (!fails) h = s.n >= 0 ? std::min(extra, h + s.n) : h + s.n; ctx.desc << " coordinator(" << s.n << ")"; }
        else if (h == 0 || fails) { s.kind = 0; s.n = 1; if (!fails) h = std::min(extra, h + 1); ctx.desc << " coordinator(1)"; }
        else if (s.kind == 1) { s.n = src.range(1, h); ctx.desc << " together(" << s.n << ")"; }
        else { s.n = src.range(1, h + 3); ctx.desc << " load(" << s.n << ")"; }
        low = std::min(low, h);
    }
    int runs = src.range(1, 3), cycles = src.range(1, 2);
    ctx.desc << "; " << runs << " runs, " << cycles << " cycles"; ctx.publish();
    GPipelinePtr p = GPipelineFactory::create();
    p->setUniqueThreadPoolConfig(c);
    std::set<GElementPtr> dep{p->registerGNode<Pause>({}, "start", 1)};     // (a graph without any dependency is handed out in blocks)
    for (auto& s : st) {
        std::set<GElementPtr> nx; GElementPtr e = nullptr;
        if (s->kind == 0) { PBT_CHECK(coord(s->n, p, &e, dep).isOK(), "registering a coordinator fails"); nx.insert(e); GElementPtr w = p->registerGNode<Pause>({e}, "pause", 1); nx = {w}; }
        else { for (int i = 0; i < s->n; i++) { GElementPtr w = p->createGNode<Waiter>(GNodeInfo(dep, "w", 1), &s->g, s->kind == 1 ? s->n : 0, 2500); PBT_CHECK(p->registerGNode(&w, dep, "w", 1).isOK(), "register"); w->setBindingIndex(CGRAPH_LONG_TIME_TASK_STRATEGY); nx.insert(w); } }
        dep = nx;
    }
    if (src.chance(1, 10)) {   // a coordinator cannot loop
        GPipelinePtr q = GPipelineFactory::create(); GElementPtr e = nullptr;
        CStatus s = coord(1, q, &e, {}, 2);
        if (s.isOK()) s = q->init();
        PBT_CHECK(s.isErr(), "a coordinator with a loop is accepted");
        GPipelineFactory::remove(q);
    }
    int together = 0;
    for (int cy = 0; cy < cycles; cy++) {
        CStatus s = p->init();
        PBT_CHECK(s.isOK(), "init: %s", s.getInfo().c_str());
        int hh = c.secondary_thread_size_;
        for (int r = 0; r < runs; r++) {
            // what this run needs; a later run starts with the helpers the earlier ones left
            bool err = false, possible = true; int x = hh;
            for (auto& q : st) { if (q->kind == 0) { if (q->n < 0 && -q->n > x) { err = true; break; } x = q->n >= 0 ? std::min(extra, x + q->n) : x + q->n; } else if (x == 0 || (q->kind == 1 && q->n > x)) { possible = false; break; } }
            if (!possible) break;
            for (auto& q : st) q->g.zero();
            s = p->run();
            PBT_CHECK(s.isErr() == err, "run %d: %d '%s'", r, s.getCode(), s.getInfo().c_str());
            for (auto& q : st) {
                if (q->kind == 0) { if (q->n < 0 && -q->n > hh) break; hh = q->n >= 0 ? std::min(extra, hh + q->n) : hh + q->n; continue; }
                PBT_CHECK(q->kind != 1 || q->g.here == q->n, "?");
                PBT_CHECK(q->g.max >= 1 && q->g.max <= hh, "%d long-time elements ran at a time, there are %d helper threads", q->g.max, hh);
                together++;
            }
        }
        s = p->destroy();
        PBT_CHECK(s.isOK(), "destroy: %s", s.getInfo().c_str());
    }
    GPipelineFactory::clear();
    ctx.nontrivial = together > 0; ctx.label("coordinator"); if (fails) ctx.label("too many helpers released");
}

// ---------------------------------------------------------------- domain nodes
struct DScript { int type = 1; int st = 0; bool dflt = false; int refresh = 0; };
struct DBook { std::vector<DScript> script; std::atomic<int> k{0}; std::vector<std::string> calls; };
class DNode : public DAnnNode {
public:
    explicit DNode(DBook* b) : b_(b) {}
protected:
    DAnnFuncType prepareParam() override { cur_ = b_->script[b_->k++ % b_->script.size()]; b_->calls.push_back("prepare"); return static_cast<DAnnFuncType>(cur_.type); }
    CStatus hit(const char* n) { b_->calls.push_back(n); return cur_.st ? CStatus(cur_.st, n) : CStatus(); }
    CStatus train() override { return cur_.dflt ? DAnnNode::train() : hit("f1"); }
    CStatus search() override { return cur_.dflt ? DAnnNode::search() : hit("f2"); }
    CStatus insert() override { return cur_.dflt ? DAnnNode::insert() : hit("f3"); }
    CStatus update() override { return cur_.dflt ? DAnnNode::update() : hit("f4"); }
    CStatus remove() override { return cur_.dflt ? DAnnNode::remove() : hit("f5"); }
    CStatus loadModel() override { return cur_.dflt ? DAnnNode::loadModel() : hit("f6"); }
    CStatus saveModel() override { return cur_.dflt ? DAnnNode::saveModel() : hit("f7"); }
    CStatus edition() override { return cur_.dflt ? DAnnNode::edition() : hit("f8"); }
    CStatus refreshParam() override { b_->calls.push_back("refresh"); return cur_.refresh ? CStatus(cur_.refresh, "refresh") : DAnnNode::refreshParam(); }
private: DBook* b_; DScript cur_;
};
static void domain(Src& src, Ctx& ctx) {
    int n = src.range(1, 4), runs = src.range(1, 6), loop = src.pick({3, 1}) ? src.range(2, 4) : 1;
    std::vector<std::unique_ptr<DBook>> bk; GPipelinePtr p = GPipelineFactory::create();
    UThreadPoolConfig c; c.default_thread_size_ = 1; c.secondary_thread_size_ = 0; c.max_thread_size_ = 1; c.monitor_enable_ = false; c.primary_thread_empty_interval_ = 2; c.queue_emtpy_interval_ = 2; p->setUniqueThreadPoolConfig(c);
    std::set<GElementPtr> dep; bool errs = src.flip(); int called = 0;
    for (int i = 0; i < n; i++) {
        bk.emplace_back(new DBook()); int m = src.range(1, 8);
        for (int j = 0; j < m; j++) { DScript d; d.type = errs && src.chance(1, 8) ? (src.flip() ? 0 : src.range(9, 12)) : src.range(1, 8); if (errs && src.chance(1, 6)) d.st = -src.range(1, 99); d.dflt = errs && src.chance(1, 8); if (errs && src.chance(1, 8)) d.refresh = -src.range(1, 99); bk[i]->script.push_back(d); ctx.desc << " " << i << ":" << d.type << "/" << d.st << "/" << d.dflt << "/" << d.refresh; }
        GElementPtr e = p->createGNode<DNode>(GNodeInfo(dep, "d", loop), bk[i].get()); PBT_CHECK(p->registerGNode(&e, dep, "d", loop).isOK(), "register"); dep = {e};
    }
    ctx.desc << "; " << runs << " runs, loop " << loop; ctx.publish();
    PBT_CHECK(p->init().isOK(), "init");
    std::vector<int> k(n, 0); int bad = 0;
    for (int r = 0; r < runs; r++) {
        for (auto& b : bk) b->calls.clear();
        CStatus st = p->run();
        CStatus want; bool stop = false;
        for (int i = 0; i < n; i++) {
            std::vector<std::string> w;
            for (int l = 0; l < loop && !stop; l++) {
                DScript& d = bk[i]->script[k[i]++ % bk[i]->script.size()];
                w.push_back("prepare");
                if (d.type <= 0 || d.type >= 9) { want = CStatus("x"); stop = true; break; }
                if (d.dflt) { want = CStatus("x"); stop = true; break; }
                w.push_back("f" + std::to_string(d.type)); called++;
                if (d.st) { want = CStatus(d.st, w.back()); stop = true; break; }
                w.push_back("refresh");
                if (d.refresh) { want = CStatus(d.refresh, "refresh"); stop = true; }
            }
            std::string a, b; for (auto& x : bk[i]->calls) a += " " + x; for (auto& x : w) b += " " + x;
            PBT_CHECK(a == b, "run %d: node %d made the calls%s, expected%s", r, i, a.c_str(), b.c_str());
        }
        PBT_CHECK(st.isErr() == stop && (!stop || want.getInfo() == "x" || (st.getCode() == want.getCode() && st.getInfo() == want.getInfo())), "run %d returned %d '%s'", r, st.getCode(), st.getInfo().c_str());
        bad += stop;
    }
    PBT_CHECK(p->destroy().isOK(), "destroy");
    GPipelineFactory::clear();
    ctx.nontrivial = called >= 2; ctx.label("domain nodes"); if (bad) ctx.label("with errors");
}
static void prop(Src& src, Ctx& ctx) { int k = src.pick({6, 2, 2}); if (k == 0) graphs(src, ctx); else if (k == 1) coordinator(src, ctx); else domain(src, ctx); }
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
