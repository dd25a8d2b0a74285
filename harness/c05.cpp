// C05: life-cycle model: random call histories against the pipeline state machine; init/destroy pairing and level order.
#include "probe.h"
using namespace pr;

class PDaemon : public GDaemon { public: CVoid daemonTask(GDaemonParamPtr) override { rec().add(MISC, 0, 77); } };
class PStage : public GStage {};
class PEvent : public GEvent { public: CVoid trigger(GEventParamPtr) override {} };

struct Model {
    Graph& g; Ctx& ctx;
    bool inited = false;
    int runsSeen = 0, inits = 0, rejected = 0;
    bool reach(Spec& s) { if (!s.visible) return false; for (int a : g.ancestors(s.id)) if (!g[a].visible) return false; return true; }
    void collect(int id, std::vector<int>& out) { if (g[id].kind == NODE) out.push_back(id); for (int c : g[id].children) collect(c, out); }
    // INIT or DESTROY events of [from,to): once per reachable node, levels ascending among siblings of the pipeline and of regions
    void check_pairing(uint32_t from, uint32_t to, int ev, const char* what) {
        std::map<int, uint32_t> at;
        for (uint32_t i = from; i < to; i++) {
            const Event& e = rec().buf[i];
            if (e.type == INIT || e.type == DESTROY) {
                PBT_CHECK(e.type == ev, "%s called the %s of %s", what, e.type == INIT ? "init" : "destroy", g[e.id].name.c_str());
                PBT_CHECK(!at.count(e.id), "%s called the %s of %s twice", what, ev == INIT ? "init" : "destroy", g[e.id].name.c_str());
                at[e.id] = i;
            }
        }
        for (auto& s : g.specs) if (s->kind == NODE) PBT_CHECK(at.count(s->id) == (reach(*s) ? 1u : 0u), "%s: %s of %s called %zu times", what, ev == INIT ? "init" : "destroy", s->name.c_str(), at.count(s->id));
        auto order = [&](const std::vector<int>& sib) {
            for (int a : sib) for (int b : sib) if (g[a].level < g[b].level) {
                std::vector<int> x, y;
                collect(a, x); collect(b, y);
                for (int p : x) for (int q : y) if (at.count(p) && at.count(q)) PBT_CHECK(at[p] < at[q], "%s: %s (level %d) was handled after %s (level %d)", what, g[p].name.c_str(), g[a].level, g[q].name.c_str(), g[b].level);
            }
        };
        order(g.top);
        for (auto& s : g.specs) if (s->kind == REGION) order(s->children);
    }
};

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 7; o.maxDepth = src.pick({2, 2, 1}); o.groupDen = 4; o.maxTotal = 24;
    Gen(src, g, o).build();
    size_t initial = g.size();
    std::string pd;
    int engine = src.pick({3, 1, 1});
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    enum Op { INIT_, RUN_, DESTROY_, PROCESS, REG, CREATE, DEPEND, LEVEL, SETTERS, ENGINE, CONFIG, CONTROL, ANALYSE, ARUN, APROC, ADD_EXTRAS, GROUPS, NOP };
    static const char* names[] = {"init", "run", "destroy", "process", "register", "createGNode", "addDepend", "setLevel", "setters", "setEngine", "setConfig", "control", "analyse", "asyncRun", "asyncProcess", "addExtras", "createGroup"};
    struct Step { int op, a, b, c; };
    std::vector<Step> steps;
    int n = src.sized(3, 24);
    for (int i = 0; i < n; i++) {
        Step s;
        s.op = src.pick({6, 6, 4, 2, 2, 1, 2, 3, 2, 2, 2, 2, 1, 2, 1, 1, 1});
        s.a = src.below(1000); s.b = src.below(1000); s.c = src.below(1000);
        steps.push_back(s);
    }
    int failInitAt = src.chance(1, 12) ? src.range(0, 2) : -1;   // the n-th successful init attempt fails instead
    ctx.desc << "engine=" << engine << " " << pd << "\n" << g.str() << "failing init: " << failInitAt << "\nhistory:";
    for (auto& s : steps) ctx.desc << " " << names[s.op] << "(" << s.a << "," << s.b << "," << s.c << ")";
    ctx.desc << "\n";
    ctx.publish();
    rec().reset();
    Pipe pipe;
    GPipelinePtr p = pipe.p;
    Builder bld(g, p);
    bld.build(src.pick({2, 1, 1, 1}));
    p->setGEngineType(engine_type(engine));
    p->setUniqueThreadPoolConfig(cfg);
    Model m{g, ctx};
    int attempts = 0;
    auto quiet = [&](uint32_t from, const char* what) { PBT_CHECK(rec().size() == from, "the rejected %s had side effects (an element callback was called)", what); m.rejected++; };
    auto clean_run = [&](CStatus st, uint32_t from, uint32_t to, const char* what) {
        PBT_CHECK(st.isOK(), "%s returned %d '%s'", what, st.getCode(), st.getInfo().c_str());
        for (uint32_t i = from; i < to; i++) PBT_CHECK(rec().buf[i].type != INIT && rec().buf[i].type != DESTROY, "%s called init or destroy of an element", what);
        check_full_run(g, from, to, what);
        m.runsSeen++;
    };
    bool dead = false;
    for (auto& s : steps) {
        if (dead) break;
        const char* nm = names[s.op];
        uint32_t from = rec().size();
        std::vector<Spec*> nodes;
        for (auto& x : g.specs) if (x->kind == NODE) nodes.push_back(x.get());
        switch (s.op) {
            case INIT_: {
                for (auto& x : g.specs) x->initFail = 0;
                Spec* bad = nullptr;
                if (!m.inited && attempts++ == failInitAt) for (auto* x : nodes) if (m.reach(*x) && !bad && (x->id % 3) == s.a % 3) { bad = x; x->initFail = 1; }
                CStatus st = p->init();
                if (m.inited) { PBT_CHECK(st.isErr(), "init of an initialised pipeline returned OK"); quiet(from, nm); }
                else if (bad) {
                    PBT_CHECK(st.getCode() == fail_code(bad) && st.getInfo() == fail_msg(bad, "init"), "init returned %d '%s' instead of the error of %s", st.getCode(), st.getInfo().c_str(), bad->name.c_str());
                    from = rec().size();
                    PBT_CHECK(p->run().isErr(), "run after a failed init returned OK");
                    PBT_CHECK(p->destroy().isErr(), "destroy after a failed init returned OK");
                    PBT_CHECK(p->cancel().isErr(), "cancel after a failed init returned OK");
                    quiet(from, "call after a failed init");
                    ctx.label("failed init");
                    dead = true;
                } else {
                    PBT_CHECK(st.isOK(), "init returned %d '%s'", st.getCode(), st.getInfo().c_str());
                    m.check_pairing(from, rec().size(), INIT, "init");
                    m.inited = true; m.inits++; g.resetInit();
                }
                break;
            }
            case RUN_: case ARUN: {
                g.resetRun();
                CStatus st;
                bool threw = has_cpp_exception([&] { st = s.op == RUN_ ? p->run() : p->asyncRun(s.a % 2 ? std::launch::async : std::launch::deferred).get(); });
                if (!m.inited) { PBT_CHECK(threw || st.isErr(), "%s of a pipeline that is not initialised was accepted", nm); quiet(from, nm); }
                else { PBT_CHECK(!threw, "%s threw", nm); clean_run(st, from, rec().size(), nm); }
                break;
            }
            case DESTROY_: {
                CStatus st = p->destroy();
                if (!m.inited) { PBT_CHECK(st.isErr(), "destroy of a pipeline that is not initialised returned OK"); quiet(from, nm); }
                else {
                    PBT_CHECK(st.isOK(), "destroy returned %d '%s'", st.getCode(), st.getInfo().c_str());
                    m.check_pairing(from, rec().size(), DESTROY, "destroy");
                    m.inited = false;
                }
                break;
            }
            case PROCESS: case APROC: {
                int k = s.a % 4, failRun = s.b % 3 == 0 && k > 0 ? s.c % k : -1;
                if (!m.inited) { g.resetInit(); g.resetRun(); }
                // a node whose run() fails in the run with index failRun: count its calls over the runs
                Spec* bad = nullptr;
                std::atomic<int> badRuns{0};
                if (failRun >= 0 && !m.inited) for (auto* x : nodes) if (!bad && m.reach(*x) && x->parent < 0 && x->loop == 1 && x->holds.empty()) bad = x;
                if (bad) bad->body = [&](Spec* q) { return badRuns++ == failRun ? CStatus(fail_code(q), fail_msg(q, "run")) : CStatus(); };
                CStatus st;
                bool threw = has_cpp_exception([&] { st = s.op == PROCESS ? p->process(k) : p->asyncProcess(k, s.b % 2 ? std::launch::async : std::launch::deferred).get(); });
                if (bad) bad->body = nullptr;
                if (m.inited) { PBT_CHECK(threw || st.isErr(), "%s of an initialised pipeline was accepted", nm); quiet(from, nm); break; }
                PBT_CHECK(!threw, "%s threw", nm);
                uint32_t to = rec().size();
                // split: INIT*, runs, DESTROY*
                uint32_t b = from, e = to;
                for (uint32_t i = from; i < to; i++) if (rec().buf[i].type == INIT) b = i + 1;
                for (uint32_t i = to; i > from; i--) if (rec().buf[i - 1].type == DESTROY) e = i - 1;
                m.check_pairing(from, b, INIT, "process");
                m.check_pairing(e, to, DESTROY, "process");
                for (uint32_t i = b; i < e; i++) PBT_CHECK(rec().buf[i].type != INIT && rec().buf[i].type != DESTROY, "process: init or destroy in the middle of the runs");
                int runs = bad ? failRun + 1 : k;
                if (bad) PBT_CHECK(st.getCode() == fail_code(bad) && st.getInfo() == fail_msg(bad, "run"), "process returned %d '%s' instead of the error of the failed run", st.getCode(), st.getInfo().c_str());
                else PBT_CHECK(st.isOK(), "process returned %d '%s'", st.getCode(), st.getInfo().c_str());
                // counts: complete runs are interpreted one after another
                std::vector<int> expect(g.size());
                for (int r = 0; r < runs; r++) {
                    Interp in(g); in.run();
                }
                std::vector<int> seen(g.size());
                for (uint32_t i = b; i < e; i++) if (rec().buf[i].type == RUN_B) seen[rec().buf[i].id]++;
                for (auto* x : nodes) {
                    if (!bad || x == bad) PBT_CHECK(seen[x->id] == x->mRun, "process(%d): %s ran %d times, expected %d", k, x->name.c_str(), seen[x->id], x->mRun);
                    else PBT_CHECK(seen[x->id] <= x->mRun, "process(%d) with run %d failing: %s ran %d times, at most %d expected", k, failRun, x->name.c_str(), seen[x->id], x->mRun);
                }
                m.inits++; m.runsSeen += runs;
                if (bad) ctx.label("process with a failing run");
                break;
            }
            case REG: case CREATE: {
                if (g.size() >= initial + 6) break;
                Spec* x = new Spec();
                x->name = "e" + std::to_string(g.size());
                GElementPtrSet deps;
                std::vector<int> dv;
                for (int t : g.top) if ((t * 7 + s.a) % 4 == 0) { dv.push_back(t); deps.insert(g[t].ptr); }
                GElementPtr e = nullptr;
                CStatus st;
                bool threw = false;
                if (s.op == REG) st = p->registerGElement<PNode>(&e, deps, x->name, 1 + s.b % 2);
                else threw = has_cpp_exception([&] { e = p->createGNode<PNode>(GNodeInfo(x->name + "n", 1)); st = p->registerGNode(&e, deps, x->name, 1 + s.b % 2); });
                if (m.inited) {
                    PBT_CHECK(threw || st.isErr(), "%s on an initialised pipeline was accepted", nm);
                    quiet(from, nm);
                    delete x;
                } else {
                    PBT_CHECK(!threw && st.isOK(), "%s failed: %s", nm, st.getInfo().c_str());
                    x->id = (int)g.size(); x->loop = 1 + s.b % 2; x->deps = dv;
                    g.specs.emplace_back(x); g.top.push_back(x->id);
                    bind_spec(e, x);
                    m.rejected += 0;
                }
                break;
            }
            case DEPEND: {   // a later top-level element on an earlier one of the topological order
                auto order = bld.topo(g.top);
                if (order.size() < 2) break;
                int j = 1 + s.a % (order.size() - 1), i = s.b % j;
                CStatus st = g[order[j]].ptr->addDependGElements({g[order[i]].ptr});
                if (m.inited) { PBT_CHECK(st.isErr(), "addDependGElements on an initialised element was accepted"); m.rejected++; }
                else {
                    PBT_CHECK(st.isOK(), "addDependGElements failed: %s", st.getInfo().c_str());
                    auto& d = g[order[j]].deps;
                    if (!std::count(d.begin(), d.end(), order[i])) d.push_back(order[i]);
                }
                break;
            }
            case LEVEL: {
                Spec& x = g[s.a % g.size()];
                int lv = s.b % 9 - 4;
                // elements of clusters and conditions are initialised by their group, whose own state guards them
                bool managed = x.parent < 0 || g[x.parent].kind == REGION;
                if (!managed) break;
                bool live = m.inited && m.reach(x);
                if (m.inited && !live) break;
                bool threw = has_cpp_exception([&] { x.ptr->setLevel(lv); });
                PBT_CHECK(threw == live, "setLevel on an %sinitialised element %s", live ? "" : "un", threw ? "threw" : "was accepted");
                if (!threw) x.level = lv; else m.rejected++;
                break;
            }
            case SETTERS: {
                if (!m.inited) break;
                Spec& x = g[g.top[s.a % g.top.size()]];
                if (!m.reach(x)) break;
                bool threw = has_cpp_exception([&] {
                    switch (s.b % 6) {
                        case 0: x.ptr->setName("zzz"); break;
                        case 1: x.ptr->setLoop(7); break;
                        case 2: x.ptr->setVisible(false); break;
                        case 3: x.ptr->setBindingIndex(2); break;
                        case 4: x.ptr->setTimeout(5); break;
                        default: x.ptr->setMacro(true);
                    }
                });
                PBT_CHECK(threw, "setter %d on an initialised element was accepted", s.b % 6);
                PBT_CHECK(x.ptr->getName() == x.name, "a rejected setter changed the name");
                PBT_CHECK((int)x.ptr->getLoop() == x.loop, "a rejected setter changed the loop count");
                quiet(from, nm);
                break;
            }
            case ENGINE: {
                bool threw = has_cpp_exception([&] { p->setGEngineType(engine_type(s.a % 3)); });
                PBT_CHECK(threw == m.inited, "setGEngineType on an %sinitialised pipeline %s", m.inited ? "" : "un", threw ? "threw" : "was accepted");
                if (threw) quiet(from, nm);
                break;
            }
            case CONFIG: {
                UThreadPoolConfig c2 = cfg;
                bool bad = s.a % 4 == 0;
                if (bad) { if (s.b % 2) c2.default_thread_size_ = -1 - s.b % 3; else { c2.default_thread_size_ = 9; c2.secondary_thread_size_ = 0; c2.max_thread_size_ = 4; } }
                else { if (c2.default_thread_size_ > 0) c2.default_thread_size_ += s.b % 2; c2.max_thread_size_ = c2.default_thread_size_ + c2.secondary_thread_size_ + 2; }
                bool threw = has_cpp_exception([&] { p->setUniqueThreadPoolConfig(c2); });
                PBT_CHECK(threw == (m.inited || bad), "setUniqueThreadPoolConfig (%s, pipeline %sinitialised) %s", bad ? "invalid" : "valid", m.inited ? "" : "un", threw ? "threw" : "was accepted");
                if (threw) quiet(from, nm);
                break;
            }
            case CONTROL: {
                CStatus st;
                for (int k = 0, c = s.a; k <= s.b % 3; k++, c /= 3) {
                    st = c % 3 == 0 ? p->cancel() : c % 3 == 1 ? p->suspend() : p->resume();
                    PBT_CHECK(st.isOK() == m.inited, "control call %d on an %sinitialised pipeline returned %d", c % 3, m.inited ? "" : "un", st.getCode());
                }
                quiet(from, nm);
                break;
            }
            case ANALYSE: {
                if (!m.inited) break;
                bool threw = false;
                CStatus st;
                std::ostringstream os;
                threw = has_cpp_exception([&] {
                    switch (s.a % 4) {
                        case 0: p->getMaxPara(); break;
                        case 1: p->trim(); break;
                        case 2: st = p->makeSerial(); break;
                        default: st = p->perf(os);
                    }
                });
                PBT_CHECK(threw || st.isErr(), "analysis call %d on an initialised pipeline was accepted", s.a % 4);
                quiet(from, nm);
                break;
            }
            case ADD_EXTRAS: {
                if (!m.inited) break;
                bool threw = has_cpp_exception([&] {
                    switch (s.a % 4) {
                        case 0: p->addGDaemon<PDaemon>(1); break;
                        case 1: p->addGEvent<PEvent>("ev"); break;
                        case 2: p->addGStage<PStage>("st", 2); break;
                        default: p->addGAspect<PAspect>();
                    }
                });
                PBT_CHECK(threw, "adding object %d to an initialised pipeline was accepted", s.a % 4);
                if (s.a % 4 == 0 && s.b % 8 == 0) std::this_thread::sleep_for(std::chrono::milliseconds(3));
                quiet(from, nm);
                break;
            }
            case GROUPS: {
                if (!m.inited) break;
                bool threw = has_cpp_exception([&] { p->createGGroup<PCluster>({}); });
                PBT_CHECK(threw, "createGGroup on an initialised pipeline was accepted");
                quiet(from, nm);
                break;
            }
        }
    }
    if (!dead && m.inited) {
        uint32_t from = rec().size();
        PBT_CHECK(p->destroy().isOK(), "the final destroy failed");
        m.check_pairing(from, rec().size(), DESTROY, "destroy");
    }
    ctx.nontrivial = m.inits >= 1 && m.runsSeen >= 1 && m.rejected >= 1;
    if (m.inits >= 2) ctx.label("initialised again");
    if (m.rejected) ctx.label("rejected calls");
    bool lv = false;
    for (int t : g.top) lv |= g[t].level != 0;
    if (lv) ctx.label("levels");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
