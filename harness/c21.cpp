// C21: the thread pool runs every accepted task exactly once and delivers its result.
#include "pbt.h"
#include "CGraph.h"
#include <algorithm>
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

static std::atomic<int64_t> alive{0};
struct Token { Token() { alive++; } Token(const Token&) { alive++; } Token(Token&&) noexcept { alive++; } ~Token() { alive--; } Token& operator=(const Token&) = default; };
struct Plan {                       // one task
    int form = 0, tid = 0, prio = 0, us = 0, result = 0;   // result: 0 int, 1 throws, 2 void
    std::vector<int> kids;
    bool top = true;
};
enum { DEF, POOL, TID, BEYOND, ALL, PRIO, LONG, SEQ, GROUP, SINGLE };
static const char* FN[] = {"default", "pool", "thread", "beyond", "all", "priority", "long", "sequence", "group", "single"};
struct Env {
    UThreadPool* pool = nullptr;
    UThreadPoolConfig cfg;
    int steal = 0;
    std::vector<Plan> plans;
    std::vector<std::unique_ptr<std::atomic<int>>> runs;
    std::vector<std::future<int>> ints; std::vector<std::future<void>> voids;
    std::mutex mtx; std::map<int, std::thread::id> owner; std::map<std::thread::id, int> idx;
    std::vector<std::pair<int, std::future<int>>> fi; std::vector<std::pair<int, std::future<void>>> fv;
    std::atomic<int> running{0}, peak{0}, left{0};
};
static Env* E;
static CSize hid() { return std::hash<std::thread::id>{}(std::this_thread::get_id()); }
static int where(const char* what, int form, int tid) {
    int ix = E->pool->getThreadIndex(hid());
    int n = E->cfg.default_thread_size_;
    PBT_CHECK(ix == -2 || (ix >= 0 && ix < n), "a task runs on a thread with index %d", ix);
    {
        std::lock_guard<std::mutex> l(E->mtx);
        auto it = E->idx.find(std::this_thread::get_id());
        if (it == E->idx.end()) E->idx[std::this_thread::get_id()] = ix; else PBT_CHECK(it->second == ix, "a thread has index %d, then %d", it->second, ix);
        if (ix >= 0) { auto o = E->owner.emplace(ix, std::this_thread::get_id()).first; PBT_CHECK(o->second == std::this_thread::get_id(), "two threads have index %d", ix); }
    }
    if (form == PRIO || form == LONG) PBT_CHECK(ix == -2, "%s: a prioritised task runs on the primary thread %d", what, ix);
    if (form == TID || form == SEQ) {
        PBT_CHECK(ix >= 0, "%s: a task given to thread %d runs on a helper thread", what, tid);
        int d = (tid - ix + n) % n;
        PBT_CHECK(d <= std::max(E->steal, 0), "%s: a task given to thread %d runs on thread %d, outside the steal range %d", what, tid, ix, E->steal);
    }
    return ix;
}
static void launch(int id);
struct Body {
    int id; Token t;
    explicit Body(int i) : id(i) {}
    int work() const {
        const Plan& p = E->plans[id];
        int now = ++E->running; int pk = E->peak; while (now > pk && !E->peak.compare_exchange_weak(pk, now)) {}
        PBT_CHECK(now <= E->cfg.max_thread_size_ + 64, "too many tasks at once");
        if (++*E->runs[id] != 1) pbt::failf("task %d (%s) is executed twice", id, FN[p.form]);
        where("task", p.form, p.tid);
        if (p.us) std::this_thread::sleep_for(std::chrono::microseconds(p.us));
        for (int k : p.kids) launch(k);
        E->running--;
        if (E->plans[id].result == 1) throw std::runtime_error("planned " + std::to_string(id));
        return id * 7 + 3;
    }
};
struct IB : Body { using Body::Body; int operator()() const { return work(); } };
struct VB : Body { using Body::Body; void operator()() const { work(); } };
struct EB : Body { using Body::Body; void operator()() const { try { work(); } catch (std::runtime_error&) {} } };   // for the forms without a future
static int indexOf(const Plan& p) { switch (p.form) { case DEF: return CGRAPH_DEFAULT_TASK_STRATEGY; case POOL: return CGRAPH_POOL_TASK_STRATEGY; case ALL: return CGRAPH_TRIGGER_ALL_THREAD_STRATEGY; case LONG: return CGRAPH_LONG_TIME_TASK_STRATEGY; default: return p.tid; } }
static void keepI(int id, std::future<int> f) { std::lock_guard<std::mutex> l(E->mtx); E->fi.emplace_back(id, std::move(f)); }
static void keepV(int id, std::future<void> f) { std::lock_guard<std::mutex> l(E->mtx); E->fv.emplace_back(id, std::move(f)); }
static void launch(int id) {
    const Plan& p = E->plans[id];
    if (p.form == PRIO) { if (p.result == 2) keepV(id, E->pool->commitWithPriority(VB(id), p.prio)); else keepI(id, E->pool->commitWithPriority(IB(id), p.prio)); return; }
    if (p.result == 2) keepV(id, E->pool->commit(VB(id), indexOf(p)));
    else if (p.us % 3 == 1) E->pool->execute(EB(id), indexOf(p));
    else keepI(id, E->pool->commit(IB(id), indexOf(p)));
}
struct Op { int kind = 0; std::vector<int> ids; int arg = 0; int tid = 0; int us = 0; };   // 0 task, 1 sequence, 2 group, 3 single, 4 create helper, 5 release helper, 6 wake

struct Gate {
    std::mutex m; std::condition_variable cv; bool open = false; std::atomic<int> in{0};
    void wait() { in++; std::unique_lock<std::mutex> l(m); cv.wait(l, [&] { return open; }); }
    void release() { { std::lock_guard<std::mutex> l(m); open = true; } cv.notify_all(); }
};
static void sleepUs(int us) { if (us > 0) std::this_thread::sleep_for(std::chrono::microseconds(us)); }
template <class F> static void until(F f, double limit, const std::string& what) { double t = pbt::now_s(); while (!f()) { if (pbt::now_s() - t > limit) pbt::fail(what); sleepUs(100); } }

static UThreadPoolConfig genCfg(Src& src, Ctx& ctx, bool longIdle) {
    UThreadPoolConfig c;
    c.default_thread_size_ = src.range(1, 5);
    c.secondary_thread_size_ = src.pick({3, 2, 1});
    c.max_thread_size_ = c.default_thread_size_ + c.secondary_thread_size_ + src.pick({2, 2, 1});
    c.max_task_steal_range_ = src.range(0, 6);
    c.batch_task_enable_ = src.chance(1, 3);
    c.max_local_batch_size_ = src.range(1, 4); c.max_pool_batch_size_ = src.range(1, 4); c.max_steal_batch_size_ = src.range(1, 4);
    c.primary_thread_busy_epoch_ = src.range(0, 4);
    c.primary_thread_empty_interval_ = src.range(1, 4);
    c.queue_emtpy_interval_ = src.range(1, 4);
    c.secondary_thread_ttl_ = src.range(1, 10);
    c.bind_cpu_enable_ = src.chance(1, 4);
    c.deliver_running_primary_thread_enable_ = src.flip();
    c.monitor_enable_ = src.chance(1, 6); c.monitor_span_ = src.range(1, 3);
    if (longIdle) { c.primary_thread_empty_interval_ = 600000; c.deliver_running_primary_thread_enable_ = true; c.max_thread_size_ = c.default_thread_size_; c.secondary_thread_size_ = 0; c.monitor_enable_ = false; }
    ctx.desc << "threads " << c.default_thread_size_ << "+" << c.secondary_thread_size_ << " of " << c.max_thread_size_ << ", steal range " << c.max_task_steal_range_ << (c.batch_task_enable_ ? ", batches" : "") << (c.monitor_enable_ ? ", monitor" : "") << (c.deliver_running_primary_thread_enable_ ? ", deliver to running" : "") << ", idle " << c.primary_thread_empty_interval_ << " ms\n";
    return c;
}

static void prop(Src& src, Ctx& ctx) {
    int64_t alive0 = alive;
    Env env; E = &env;
    bool longIdle = src.chance(1, 5);
    int cycles = src.pick({3, 2, 1}) + 1;
    bool ctor = src.flip();
    env.cfg = genCfg(src, ctx, longIdle);
    if (ctor) { env.pool = new UThreadPool(true, env.cfg); PBT_CHECK(env.pool->isInit(), "the constructor did not initialise the pool"); }
    else { env.pool = new UThreadPool(false); PBT_CHECK(!env.pool->isInit(), "a fresh pool says it is initialised"); PBT_CHECK(env.pool->setConfig(env.cfg).isOK(), "setConfig"); }
    UThreadPool& pool = *env.pool;
    uint64_t total = 0; bool conc = false;
    for (int cyc = 0; cyc < cycles; cyc++) {
        if (cyc > 0) { env.cfg = genCfg(src, ctx, longIdle); PBT_CHECK(pool.setConfig(env.cfg).isOK(), "setConfig after destroy"); }
        if (cyc > 0 || !ctor) { if (src.chance(1, 4)) PBT_CHECK(pool.submit([] {}, 5).isErr(), "a pool that is not initialised accepts a task group"); CStatus st = pool.init(); PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str()); }
        const auto& c = env.cfg;
        int n = c.default_thread_size_, max = c.max_thread_size_;
        env.steal = std::min(c.max_task_steal_range_, n - 1);
        PBT_CHECK(pool.isInit(), "not initialised after init");
        PBT_CHECK(pool.getThreadIndex(hid()) == -1, "the initialising thread has index %d", pool.getThreadIndex(hid()));
        if (src.chance(1, 3)) { PBT_CHECK(pool.init().isOK(), "a second init"); UThreadPoolConfig o = c; o.default_thread_size_ = n + 1; o.max_thread_size_ = max + 3; PBT_CHECK(pool.setConfig(o).isErr(), "the configuration of an initialised pool can be changed"); }
        UThreadPoolConfig g = pool.getConfig(); PBT_CHECK(g.default_thread_size_ == n && g.max_thread_size_ == max, "getConfig disagrees");
        env.owner.clear(); env.idx.clear();
        bool helpers = max > n; int H = c.secondary_thread_size_; bool released = false, known = !c.monitor_enable_;
        // ---- burst
        env.plans.clear(); env.runs.clear(); env.fi.clear(); env.fv.clear(); env.peak = 0;
        int subs = src.range(1, 4);
        std::vector<std::vector<Op>> prog(subs);
        auto newTask = [&](bool kid) {
            Plan p; int f = kid ? src.pick({3, longIdle ? 0 : 2, 3, 0, longIdle ? 0 : 1}) : src.pick({5, longIdle ? 0 : 2, 4, longIdle ? 0 : 1, longIdle ? 0 : 2, helpers ? 3 : 0, helpers ? 2 : 0});
            p.form = f; p.tid = f == BEYOND ? n + src.range(0, 3) : src.range(0, n - 1); p.prio = src.range(-3, 3); p.us = src.pick({4, 2}) ? src.range(1, 300) : src.range(0, 1); p.result = src.pick({4, 1, 2});
            env.plans.push_back(p); env.runs.emplace_back(new std::atomic<int>(0));
            return int(env.plans.size() - 1);
        };
        bool abrupt = src.chance(1, 10) && cyc + 1 == cycles;
        for (auto& pr : prog) {
            int ops = src.sized(1, 14);
            for (int i = 0; i < ops; i++) {
                Op o; o.kind = src.pick({12, 2, abrupt ? 0 : 2, abrupt ? 0 : 1, 1, 1, longIdle ? 0 : 1}); o.us = src.pick({3, 1}) ? src.range(0, 200) : 0; o.tid = src.range(0, n - 1);
                if (o.kind == 0) { int t = newTask(false); o.ids.push_back(t); int k = abrupt ? 0 : src.pick({5, 1, 1}); for (int j = 0; j < k; j++) { int q = newTask(true); env.plans[t].kids.push_back(q); } }
                else if (o.kind == 1) { int k = src.range(2, 5); for (int j = 0; j < k; j++) { int t = newTask(true); env.plans[t].form = SEQ; env.plans[t].tid = o.tid; if (env.plans[t].result == 1) env.plans[t].result = 0; o.ids.push_back(t); } }
                else if (o.kind == 2) { int k = src.range(0, 5); for (int j = 0; j < k; j++) { int t = newTask(true); env.plans[t].form = GROUP; env.plans[t].result = 0; o.ids.push_back(t); } o.arg = src.pick({2, 1}); }
                else if (o.kind == 3) { int t = newTask(true); env.plans[t].form = SINGLE; env.plans[t].result = 0; o.ids.push_back(t); }
                else o.arg = src.range(0, 3);
                pr.push_back(o);
            }
        }
        ctx.desc << "cycle " << cyc << ": " << subs << " submitters" << (abrupt ? ", destroyed at once" : "") << "; tasks:"; for (auto& p : env.plans) ctx.desc << " " << FN[p.form]; ctx.desc << "\n"; ctx.publish();
        total += env.plans.size();
        auto submitter = [&](int s) {
            for (auto& o : prog[s]) {
                sleepUs(o.us);
                if (o.kind == 0) launch(o.ids[0]);
                else if (o.kind == 1) {
                    for (size_t j = 0; j < o.ids.size(); j++) {
                        bool first = j == 0, last = j + 1 == o.ids.size(); int t = o.ids[j];
                        if (env.plans[t].result == 2) keepV(t, pool.commitWithTid(VB(t), o.tid, first || last, first)); else if (env.plans[t].us % 2) keepI(t, pool.commitWithTid(IB(t), o.tid, first || last, first)); else pool.executeWithTid(EB(t), o.tid, first || last, first);
                    }
                } else if (o.kind == 2) {
                    UTaskGroup tg; for (int t : o.ids) tg.addTask(EB(t));
                    std::atomic<int> fin{0}; bool ok = false;
                    if (o.arg) tg.setOnFinished([&](const CStatus& st) { fin++; ok = st.isOK(); for (int t : o.ids) if (*env.runs[t] != 1) pbt::failf("the completion callback of a task group is called before task %d has run", t); });
                    CStatus st = pool.submit(tg);
                    PBT_CHECK(st.isOK(), "a task group without limit returned: %s", st.getInfo().c_str());
                    for (int t : o.ids) if (*env.runs[t] != 1) pbt::failf("a task group returned before its task %d had run", t);
                    if (o.arg) PBT_CHECK(fin == 1 && ok, "the completion callback of a task group was called %d times", (int)fin);
                } else if (o.kind == 3) {
                    int fin = 0; int t = o.ids[0];
                    CStatus st = pool.submit(EB(t), CGRAPH_MAX_BLOCK_TTL, [&](const CStatus& s) { fin++; if (s.isErr()) pbt::fail("the completion callback gets an error"); });
                    PBT_CHECK(st.isOK() && fin == 1 && *env.runs[t] == 1, "a single submitted task returned %s, its callback was called %d times, it ran %d times", st.getInfo().c_str(), fin, (int)*env.runs[t]);
                } else if (o.kind == 4) { PBT_CHECK(pool.createSecondaryThread(o.arg).isOK(), "createSecondaryThread"); }
                else if (o.kind == 5) { (void)pool.releaseSecondaryThread(o.arg); }
                else pool.wakeupAllThread();
            }
        };
        for (auto& pr : prog) for (auto& o : pr) { if (o.kind == 4 || o.kind == 5) known = false; if (o.kind == 5) released = true; }
        if (H == 0) for (auto& p : env.plans) if (p.form == PRIO) known = false;      // may have raised a helper by itself
        std::vector<std::thread> ts; for (int s = 1; s < subs; s++) ts.emplace_back(submitter, s);
        submitter(0); for (auto& t : ts) t.join();
        if (subs > 1) conc = true;
        if (!abrupt) {
            if (helpers) { PBT_CHECK(pool.createSecondaryThread(1).isOK(), "createSecondaryThread"); if (known) H = std::min(H + 1, max - n); }
            for (;;) {       // every task has run (children may still be submitted meanwhile)
                size_t done = 0; for (auto& r : env.runs) done += *r;
                if (done == env.plans.size() && env.running == 0) break;
                sleepUs(100);
            }
            { std::lock_guard<std::mutex> l(env.mtx); }
            for (auto& f : env.fi) {
                bool threw = false; int v = -1;
                try { v = f.second.get(); } catch (std::runtime_error& e) { threw = true; if (std::string(e.what()) != "planned " + std::to_string(f.first)) pbt::failf("the future of task %d yields the exception %s", f.first, e.what()); }
                PBT_CHECK(threw == (env.plans[f.first].result == 1), "the future of task %d %s", f.first, threw ? "yields an exception" : "does not yield its exception");
                if (!threw) PBT_CHECK(v == f.first * 7 + 3, "the future of task %d yields %d", f.first, v);
            }
            for (auto& f : env.fv) f.second.get();
            env.fi.clear(); env.fv.clear();
            int want = src.pick({1, 1, helpers ? 2 : 0, longIdle ? 0 : 2, 2});
            // ---- priorities
            if (want == 2 && !c.monitor_enable_ && !released) {
                // bring the helpers down to one
                int left = known ? H : -1;
                if (left > 1) { PBT_CHECK(pool.releaseSecondaryThread(left - 1).isOK(), "releasing %d of %d helper threads failed", left - 1, left); released = true; H = 1; }
                if (left >= 1) {
                    if (released) { CStatus st = pool.releaseSecondaryThread(0); PBT_CHECK(st.isOK(), "release 0"); }    // joins the released ones
                    PBT_CHECK(pool.releaseSecondaryThread(H + 1 + src.range(0, 2)).isErr(), "more helper threads than exist can be released");
                    Gate gt; auto f0 = pool.commitWithPriority([&] { gt.wait(); }, 100);
                    until([&] { return gt.in == 1; }, 20, "a prioritised task never starts");
                    int k = src.range(2, 12); std::vector<int> pr, got; std::mutex m; std::vector<std::future<void>> fs;
                    for (int i = 0; i < k; i++) { pr.push_back(src.range(-5, 5)); bool lng = src.chance(1, 6); int q = lng ? CGRAPH_LONG_TIME_TASK_STRATEGY : pr.back(); pr.back() = q; auto fn = [&, q] { std::lock_guard<std::mutex> l(m); got.push_back(q); }; fs.push_back(lng ? pool.commit(fn, CGRAPH_LONG_TIME_TASK_STRATEGY) : pool.commitWithPriority(fn, q)); }
                    gt.release(); f0.get(); for (auto& f : fs) f.get();
                    std::sort(pr.rbegin(), pr.rend());
                    if (pr != got) { std::string s; for (int x : got) s += " " + std::to_string(x); pbt::failf("one helper executes waiting prioritised tasks in the order%s", s.c_str()); }
                    ctx.label("priority order");
                }
            }
            // ---- every thread serves the pool queue at once
            if (want == 3 && known) {
                Gate gt; int k = n + H + src.range(0, 4); std::vector<std::future<void>> fs;
                int total_ = c.batch_task_enable_ ? k * 8 : k;
                for (int i = 0; i < total_; i++) fs.push_back(pool.commit([&] { gt.wait(); }, src.flip() ? CGRAPH_POOL_TASK_STRATEGY : CGRAPH_TRIGGER_ALL_THREAD_STRATEGY));
                until([&] { return gt.in >= n + H; }, 20, "only some of the pool's threads execute waiting tasks");
                sleepUs(src.range(0, 3000));
                if (!released) PBT_CHECK(gt.in <= n + H, "%d tasks are executed at once by %d threads", (int)gt.in, n + H);
                gt.release(); for (auto& f : fs) f.get();
                ctx.label("saturation");
            }
            // ---- stealing from a busy neighbour
            if (want == 1 && env.steal >= 1 && !longIdle) {
                int t = src.range(0, n - 1); Gate gt; int on = -1;
                auto f0 = pool.commit([&] { on = pool.getThreadIndex(hid()); gt.wait(); }, t);
                until([&] { return gt.in == 1; }, 20, "a task given to an idle thread never starts");
                std::vector<std::future<void>> fs; int k = src.range(1, 10);
                for (int i = 0; i < k; i++) { int us = src.range(0, 50); fs.push_back(pool.commit([us] { sleepUs(us); }, on)); }
                for (auto& f : fs) if (f.wait_for(std::chrono::seconds(20)) != std::future_status::ready) pbt::failf("idle threads (steal range %d) leave tasks queued behind the busy thread %d", env.steal, on);
                gt.release(); f0.get();
                ctx.label("stealing");
            }
            // ---- task groups with a limit
            if (want == 4) {
                Gate gt; int k = src.range(1, 4), slow = src.range(0, k); int ttl = src.range(0, 6), ttl2 = src.flip() ? CGRAPH_MAX_BLOCK_TTL : src.range(0, 6);
                std::vector<std::unique_ptr<std::atomic<int>>> ran; for (int i = 0; i < k; i++) ran.emplace_back(new std::atomic<int>(0));
                auto tg = std::unique_ptr<UTaskGroup>(new UTaskGroup());
                for (int i = 0; i < k; i++) { auto* r = ran[i].get(); bool s = i < slow; tg->addTask([&gt, r, s] { if (s) gt.wait(); ++*r; }); }
                PBT_CHECK((int)tg->getSize() == k, "a group of %d tasks says %d", k, (int)tg->getSize());
                int fin = 0; bool finErr = false;
                bool limit = slow > 0 || src.flip();
                if (limit) tg->setTtl(ttl); else ttl2 = CGRAPH_MAX_BLOCK_TTL;
                tg->setOnFinished([&](const CStatus& st) { fin++; finErr = st.isErr(); });
                double t0 = pbt::now_s();
                CStatus st = pool.submit(*tg, ttl2);
                double dt = (pbt::now_s() - t0) * 1e3;
                PBT_CHECK(fin == 1 && finErr == st.isErr(), "the completion callback of a limited group: %d calls, error %d, returned error %d", fin, finErr, st.isErr());
                if (slow > 0) {
                    PBT_CHECK(st.isErr(), "a task group whose tasks do not finish within its limit reports success");
                    PBT_CHECK(dt >= std::min<int64_t>(ttl, ttl2) - 0.1, "a task group gives up after %.2f ms, its limit is %d ms", dt, std::min<int>(ttl, ttl2));
                    PBT_CHECK(dt < 15000, "a task group with a limit of %d ms returns after %.0f ms", std::min<int>(ttl, ttl2), dt);
                }
                else if (st.isOK()) for (auto& r : ran) PBT_CHECK(*r == 1, "a task group reports success though one of its tasks has not run");
                if (!limit) PBT_CHECK(st.isOK(), "a task group without limit fails: %s", st.getInfo().c_str());
                gt.release();
                until([&] { for (auto& r : ran) if (*r != 1) return false; return true; }, 25, "tasks of a group that timed out are never executed");
                tg->clear(); PBT_CHECK(tg->getSize() == 0, "a cleared group has tasks");
                ctx.label(slow ? "group timeout" : "group in time");
            }
        }
        double td = pbt::now_s();
        if (cyc + 1 < cycles || src.flip()) {
            CStatus st = pool.destroy(); PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
            PBT_CHECK(!pool.isInit(), "still initialised after destroy"); PBT_CHECK(pool.destroy().isOK(), "a second destroy");
            PBT_CHECK(pbt::now_s() - td < 20, "destroy took %.0f s", pbt::now_s() - td);
        } else { delete env.pool; env.pool = nullptr; }
        for (auto& r : env.runs) PBT_CHECK(*r <= 1, "a task ran twice");
        if (abrupt) { env.fi.clear(); env.fv.clear(); ctx.label("destroyed with tasks waiting"); }
        if (c.monitor_enable_) ctx.label("monitor");
        if (c.batch_task_enable_) ctx.label("batches");
        if (longIdle) ctx.label("long idle interval");
    }
    if (env.pool) delete env.pool;
    env.pool = nullptr;
    PBT_CHECK(alive == alive0, "%lld task objects are left after the pool is gone", (long long)(alive - alive0));
    ctx.nontrivial = total >= 3 && conc;
    if (cycles > 1) ctx.label("re-init");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
