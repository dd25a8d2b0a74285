// C17: cancel, suspend and resume issued while a run is in progress.
#include "probe.h"
using namespace pr;

enum Mode { INSIDE = 0, INBODY, ASYNC, ATEND };      // where the call lands: while the k-th body is held inside, from the body itself, at any time after it started, in a parameter's reset at the end of the run
enum Op { O_SUS = 0, O_CAN, O_SUSCAN, O_CANRES, O_DUAL, O_DUALCAN };
static const char* mode_n[] = {"inside", "from-body", "async", "at-end-of-run"};
static const char* op_n[] = {"suspend-resume", "cancel", "suspend-cancel", "cancel-suspend-resume", "two-controllers", "two-controllers-cancel"};
struct Step { int run = 0, k = 0; Mode mode = INSIDE; Op op = O_SUS; int burst = 1; int release = 0; int wait = 0; };
enum Aux : int64_t { SUS_RET = 1, RES_CALL, CAN_CALL, CAN_RET, RUN_START, RUN_END, TRIG };

struct Ctl {
    std::mutex m;
    std::condition_variable cv;
    std::map<int, Step> steps;            // by run
    Step* armed = nullptr;
    int run = -1, endedRun = -1;
    bool go = false, finished = false;
    std::set<int> hit;                    // runs whose step was triggered
    uint64_t trigTid = 0;
    std::atomic<int> bodies{0};
    std::atomic<int> trigger{-1};
    GPipelinePtr p = nullptr;
};
static Ctl* C = nullptr;

static void mark(int64_t aux) { rec().add(MISC, 0, aux); }
static bool lenient = false;             // the process call may already be over: then a control call is an error without effect
static void must_ok(const CStatus& st, const char* what) { if (lenient && st.isErr()) return; PBT_CHECK(st.isOK(), "%s during a run returned %d '%s'", what, st.getCode(), st.getInfo().c_str()); }
static void nap(int w) { if (w == 0) return; if (w < 4) { for (int i = 0; i < w * 3; i++) std::this_thread::yield(); return; } std::this_thread::sleep_for(std::chrono::microseconds((w - 3) * 60)); }

class Hook : public GParam {
public:
    CStatus setup() override {
        std::lock_guard<std::mutex> lk(C->m);
        C->run++;
        cur_graph()->resetRun();
        C->bodies = 0;
        auto it = C->steps.find(C->run);
        C->armed = it == C->steps.end() ? nullptr : &it->second;
        C->go = false;
        C->trigger = C->armed && C->armed->mode != ATEND ? C->armed->k : -1;
        mark(RUN_START);
        return CStatus();
    }
    CVoid reset(const CStatus&) override {
        std::lock_guard<std::mutex> lk(C->m);
        C->trigger = -1;
        mark(RUN_END);
        if (C->armed && C->armed->mode == ATEND) {
            PBT_CHECK(C->p->suspend().isOK(), "suspend at the end of a run failed");
            mark(SUS_RET);
            C->hit.insert(C->run);
        }
        C->endedRun = C->run;
        C->cv.notify_all();
    }
};

static CStatus body(Spec* s) {
    int k = C->bodies.fetch_add(1);
    if (k != C->trigger.load()) return CStatus();
    std::unique_lock<std::mutex> lk(C->m);
    Step* st = C->armed;
    C->trigTid = (uint64_t)std::hash<std::thread::id>{}(std::this_thread::get_id());
    if (st->mode == INBODY) {
        mark(CAN_CALL);
        must_ok(C->p->cancel(), "cancel");
        mark(CAN_RET);
        if (st->op == O_CANRES) { must_ok(C->p->suspend(), "suspend"); must_ok(C->p->resume(), "resume"); }
    }
    C->hit.insert(C->run);
    C->cv.notify_all();
    if (st->mode == INSIDE) C->cv.wait(lk, [] { return C->go; });
    (void)s;
    return CStatus();
}
static void release() { std::lock_guard<std::mutex> lk(C->m); C->go = true; C->cv.notify_all(); }

static void perform(const Step& st) {
    GPipelinePtr p = C->p;
    auto sus = [&] { must_ok(p->suspend(), "suspend"); mark(SUS_RET); };
    auto res = [&] { mark(RES_CALL); must_ok(p->resume(), "resume"); };
    auto can = [&] { mark(CAN_CALL); must_ok(p->cancel(), "cancel"); mark(CAN_RET); };
    if (st.mode == ATEND) { nap(st.wait); res(); return; }
    if (st.mode == INBODY) return;
    if (st.release == 2) release();
    switch (st.op) {
        case O_SUS:
            for (int i = 0; i < st.burst; i++) { sus(); if (st.release == 1) release(); nap(st.wait); res(); }
            break;
        case O_CAN: can(); break;
        case O_SUSCAN: sus(); if (st.release == 1) release(); nap(st.wait); mark(RES_CALL); can(); break;
        case O_CANRES: can(); if (st.release == 1) release(); nap(st.wait); must_ok(p->suspend(), "suspend"); nap(st.wait); must_ok(p->resume(), "resume"); break;
        case O_DUAL: case O_DUALCAN: {
            auto loop = [&](int n) { for (int i = 0; i < n; i++) { must_ok(p->suspend(), "suspend"); nap(st.wait & 1); must_ok(p->resume(), "resume"); } };
            std::thread t([&] { loop(st.burst); });
            if (st.op == O_DUALCAN) { nap(st.wait); can(); t.join(); }
            else { loop(st.burst); t.join(); must_ok(p->resume(), "resume"); }
            break;
        }
    }
    release();
}

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = src.pick({2, 1}) ? 16 : 7; o.maxDepth = src.pick({2, 2, 1}); o.groupDen = 5; o.holds = src.flip(); o.maxTotal = 34;
    Gen(src, g, o).build();
    int engine = src.pick({4, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    int style = src.pick({3, 3, 1, 1});                 // run, process, asyncRun, asyncProcess
    bool proc = style == 1 || style == 3;
    int n = src.range(1, 4);
    Ctl ctl; C = &ctl;
    int early = src.chance(1, 5) ? src.range(1, 2) : 0;   // a control call between init and the first run
    int bodiesGuess = std::max<int>(1, (int)g.size());
    bool anyCancel = false, over = false;
    ctx.desc << "engine=" << engine << " style=" << style << " n=" << n << " early=" << early << " " << pd << "\nsteps:";
    for (int r = 0; r < n; r++) {
        if (!src.chance(4, 5) || over) continue;
        Step s; s.run = r;
        s.mode = (Mode)src.pick({4, 2, 3, proc ? 2 : 0});
        s.k = src.range(0, std::max(0, std::min(bodiesGuess - 1, 12)));
        s.op = s.mode == ATEND ? O_SUS : s.mode == INBODY ? (src.flip() ? O_CAN : O_CANRES) : (Op)src.pick({4, 3, 1, 1, 2, 2});
        s.burst = src.pick({2, 1}) == 0 ? 1 : src.range(2, 12);
        s.release = src.range(0, 2);
        s.wait = src.range(0, 7);
        bool can = s.op == O_CAN || s.op == O_SUSCAN || s.op == O_CANRES || s.op == O_DUALCAN;
        anyCancel |= can;
        ctl.steps[r] = s;
        // a step that may outlive its run is the last one of a process call
        if (proc && !(s.mode == INBODY || s.mode == ATEND || (s.mode == INSIDE && s.release == 0))) over = true;
        ctx.desc << " run" << r << "@" << s.k << ":" << mode_n[s.mode] << ":" << op_n[s.op] << " x" << s.burst << " rel=" << s.release << " wait=" << s.wait;
    }
    if (anyCancel) for (auto& s : g.specs) if (s->kind == NODE) s->holds.clear();
    for (auto& s : g.specs) if (s->kind == NODE) s->body = body;
    ctx.desc << "\n" << g.str();
    ctx.publish();
    rec().reset();
    Pipe pipe;
    ctl.p = pipe.p;
    Builder(g, pipe.p).build(0);
    pipe.p->setGEngineType(engine_type(engine));
    pipe.p->setUniqueThreadPoolConfig(cfg);
    PBT_CHECK(pipe.p->createGParam<Hook>("hook").isOK(), "createGParam failed");
    auto refused = [&](const char* when) {
        PBT_CHECK(pipe.p->cancel().isErr(), "cancel %s is not an error", when);
        PBT_CHECK(pipe.p->suspend().isErr(), "suspend %s is not an error", when);
        PBT_CHECK(pipe.p->resume().isErr(), "resume %s is not an error", when);
    };
    refused("before init");
    int stepsDone = 0;
    auto serve = [&](int r) {       // controller's part of run r; returns when the run ended or its step was performed
        auto it = ctl.steps.find(r);
        if (it == ctl.steps.end()) return;
        {
            std::unique_lock<std::mutex> lk(ctl.m);
            ctl.cv.wait(lk, [&] { return ctl.finished || ctl.hit.count(r) || ctl.endedRun >= r || ctl.run > r; });
            if (!ctl.hit.count(r)) return;
        }
        stepsDone++;
        lenient = proc && (it->second.mode == ASYNC || it->second.release != 0 || it->second.mode == ATEND);
        perform(it->second);
        lenient = false;
    };
    if (!proc) {
        must_ok(pipe.p->init(), "init");
        if (early == 1) must_ok(pipe.p->cancel(), "cancel");
        if (early == 2) must_ok(pipe.p->suspend(), "suspend");
        for (int r = 0; r < n; r++) {
            CStatus st;
            if (style == 0) {
                std::thread t([&] { st = pipe.p->run(); });
                serve(r);
                t.join();
            } else {
                auto f = pipe.p->asyncRun();
                serve(r);
                st = f.get();
            }
            PBT_CHECK(st.isOK(), "run %d returned %d '%s'", r, st.getCode(), st.getInfo().c_str());
        }
        must_ok(pipe.p->destroy(), "destroy");
    } else {
        CStatus st;
        auto work = [&](std::function<CStatus()> f) { st = f(); std::lock_guard<std::mutex> lk(ctl.m); ctl.finished = true; ctl.cv.notify_all(); };
        // process: the controller stops at the first step that cancels
        auto drive = [&] {
            for (int r = 0; r < n; r++) {
                serve(r);
                std::lock_guard<std::mutex> lk(ctl.m);
                if (ctl.finished) break;
            }
        };
        if (style == 1) {
            std::thread t([&] { work([&] { return pipe.p->process(n); }); });
            drive();
            t.join();
        } else {
            auto f = pipe.p->asyncProcess(n);
            std::thread t([&] { work([&] { return f.get(); }); });
            drive();
            t.join();
        }
        PBT_CHECK(st.isOK(), "process returned %d '%s'", st.getCode(), st.getInfo().c_str());
    }
    refused("after destroy");

    // ---- the history
    uint32_t end = rec().size();
    PBT_CHECK(!rec().overflow(), "harness: too many events");
    struct R { uint32_t from, to; };
    std::vector<R> runs;
    std::vector<std::pair<uint32_t, uint32_t>> cancels, susp;
    for (uint32_t i = 0; i < end; i++) {
        const Event& e = rec().buf[i];
        if (e.type == RUN_B) PBT_CHECK(!runs.empty() && runs.back().to == 0, "%s was executed outside any run", g[e.id].name.c_str());
        if (e.type != MISC) continue;
        switch (e.aux) {
            case RUN_START: runs.push_back({i + 1, 0}); break;
            case RUN_END: runs.back().to = i; break;
            case CAN_CALL: cancels.push_back({i, end}); break;
            case CAN_RET: cancels.back().second = i; break;
            case SUS_RET: susp.push_back({i, end}); break;
            case RES_CALL: if (!susp.empty()) susp.back().second = i; break;
        }
    }
    PBT_CHECK(!runs.empty() && runs.back().to != 0, "harness: unfinished run");
    int cancelled = 0;
    for (size_t r = 0; r < runs.size(); r++) {
        bool touched = false;
        for (auto& c : cancels) if (c.first < runs[r].to && c.second >= runs[r].from) touched = true;
        // in a process call a cancel may land between two runs: then the next one executes nothing
        if (proc) for (auto& c : cancels) if (c.second < runs[r].from) touched = true;
        g.resetRun(); g.resetInit();
        std::string what = "run " + std::to_string(r) + (touched ? " (cancelled)" : "");
        if (touched) {
            cancelled++;
            Intervals iv = intervals(g, runs[r].from, runs[r].to, what.c_str());
            check_partial_run(g, iv, what.c_str());
        } else check_full_run(g, runs[r].from, runs[r].to, what.c_str());
    }
    if (!proc) PBT_CHECK((int)runs.size() == n, "%zu runs took place, %d were started", runs.size(), n);
    else if (cancels.empty()) PBT_CHECK((int)runs.size() == n, "process executed %zu of %d runs though nothing cancelled it", runs.size(), n);
    for (auto& c : cancels) {
        uint32_t stop = end;
        std::map<uint64_t, int> perTid, startedEl;
        int startedRuns = 0;
        for (uint32_t i = c.second + 1; i < stop; i++) {
            const Event& e = rec().buf[i];
            if (e.type == MISC && e.aux == RUN_START) { startedRuns++; if (!proc) break; }
            if (e.type == RUN_B) {
                PBT_CHECK(++perTid[e.tid] <= 1, "after cancel returned, one thread started %d more elements (last: %s)", perTid[e.tid], g[e.id].name.c_str());
                PBT_CHECK(!startedRuns, "%s was executed in a run that started after the process call was cancelled", g[e.id].name.c_str());
            }
        }
        if (proc) PBT_CHECK(startedRuns <= 1, "%d runs of the process call started after it was cancelled", startedRuns);
    }
    bool dual = false;
    for (auto& s : ctl.steps) dual |= s.second.op == O_DUAL || s.second.op == O_DUALCAN;
    for (auto& u : susp) {
        std::map<uint64_t, int> perTid; std::map<int, int> perEl;
        for (uint32_t i = u.first + 1; i < u.second && i < end; i++) {
            const Event& e = rec().buf[i];
            if (e.type != RUN_B) continue;
            PBT_CHECK(++perTid[e.tid] <= 1, "while the pipeline was suspended, one thread started %d elements (last: %s)", perTid[e.tid], g[e.id].name.c_str());
            PBT_CHECK(++perEl[e.id] <= 1, "%s started twice while the pipeline was suspended", g[e.id].name.c_str());
        }
    }
    ctx.nontrivial = stepsDone > 0;
    if (cancelled) ctx.label("with a cancelled run");
    if (!susp.empty()) ctx.label("with a suspension");
    if (dual) ctx.label("with two controllers");
    for (auto& s : ctl.steps) ctx.label(std::string("step ") + mode_n[s.second.mode]);
    ctx.label(proc ? "process" : "run");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
