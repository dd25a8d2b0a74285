// C26: dump says exactly what the pipeline is; perf runs it once, reports it truthfully and leaves it as it was.
#include "dump.h"
using namespace pr;

class ASome : public GSome { public: CSize getWaitNum() override { return 1; } };
struct Times { bool has = false; double start = 0, finish = 0, per = 0, total = 0; bool hasTotal = false; };
static Times parse_times(const std::string& label, const std::string& who) {
    Times t;
    size_t nl = label.find('\n');
    if (nl == std::string::npos) return t;
    t.has = true;
    std::string r = label.substr(nl + 1);
    int used = 0;
    if (sscanf(r.c_str(), "[start %lfms, finish %lfms,\nper_cost %lfms, total_cost %lfms]%n", &t.start, &t.finish, &t.per, &t.total, &used) == 4 && used == (int)r.size()) { t.hasTotal = true; return t; }
    used = 0;
    if (sscanf(r.c_str(), "[start %lfms, finish %lfms,\nper_cost %lfms]%n", &t.start, &t.finish, &t.per, &used) == 3 && used == (int)r.size()) { t.total = t.per; return t; }
    pbt::failf("the measurements of %s are not readable: '%s'", who.c_str(), r.c_str());
    return t;
}
static std::string dump_text(GPipelinePtr p) {
    std::ostringstream os;
    CStatus st = p->dump(os);
    PBT_CHECK(st.isOK(), "dump returned %d '%s'", st.getCode(), st.getInfo().c_str());
    return os.str();
}
static void check_dump(Graph& g, GPipelinePtr p, const char* what) {
    dot::View v = dot::view(dump_text(p));
    dot::same(v, dot::expected(g, false), what);
    for (auto& l : v.label) PBT_CHECK(l.second.find('\n') == std::string::npos, "%s: the dump shows measurements of %s although nothing was measured: '%s'", what, l.first.c_str(), l.second.c_str());
}
static std::vector<std::map<int, int>> aspect_calls(Graph& g, uint32_t from, uint32_t to) {   // per element: (aspect index, phase) -> calls
    std::vector<std::map<int, int>> r(g.size());
    for (uint32_t i = from; i < to; i++) if (rec().buf[i].type == ASPECT) r[rec().buf[i].id][asp_idx(rec().buf[i].aux) * 16 + asp_phase(rec().buf[i].aux)]++;
    return r;
}

static void dump_mode(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 9; o.maxDepth = src.pick({1, 2, 2, 1}); o.groupDen = 3;
    o.kinds = {CLUSTER, REGION, COND, MULTI_S, MULTI_P, MUTABLE_K};
    Gen(src, g, o).build();
    for (auto& s : g.specs) if (src.chance(1, 10)) {   // unusual names, still distinct
        static const char* suf[] = {" with spaces", "-\"quoted\"", "\xe4\xb8\xad\xe6\x96\x87", "->{};[label=1]", "\\", "%s%n"};
        s->name += suf[src.below(6)];
    }
    for (auto& s : g.specs) if (s->kind == MUTABLE_K) for (int c : s->children) { g[c].visible = true; g[c].loop = 1; }
    int engine = src.pick({3, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    int how = src.pick({2, 1, 1, 1});
    bool some = src.chance(1, 4), fence = src.chance(1, 6), coord = src.chance(1, 6), func = src.chance(1, 6);
    int someLoopKids = src.range(1, 3);
    bool use = !some && !fence && !coord;
    ctx.desc << "dump; engine " << engine << " " << pd << " build " << how << "\n" << g.str() << "extra: " << (some ? "some group " : "") << (fence ? "fence " : "") << (coord ? "coordinator " : "") << (func ? "function " : "") << "\n";
    ctx.publish();
    rec().reset();
    Pipe pipe;
    GPipelinePtr p = pipe.p;
    Builder(g, p).build(how);
    p->setGEngineType(engine_type(engine));
    p->setUniqueThreadPoolConfig(cfg);
    dot::View want = dot::expected(g, false);
    auto top = [&](const char* n) { want.parent[n] = ""; want.label[n] = n; };
    GElementPtr dep = g[g.top[0]].ptr;
    auto edge = [&](const char* n) { want.edges.insert(std::make_tuple(g[g.top[0]].name, std::string(n), std::string())); };
    if (some) {
        GElementPtrArr kids;
        for (int i = 0; i < someLoopKids; i++) {
            std::string n = "kid" + std::to_string(i);
            auto* k = p->createGNode<PNode>(GNodeInfo(n, 1));
            k->setTimeout(1000);
            kids.push_back(k);
            want.parent[n] = "some"; want.label[n] = n;
        }
        GElementPtr e = p->createGGroup<ASome>(kids, {}, "some", 1);
        CStatus st = p->registerGGroup(&e, {dep}, "some", 1);
        PBT_CHECK(st.isOK(), "registering a some-group failed: %s", st.getInfo().c_str());
        top("some"); want.groupLabel["some"] = "some"; edge("some");
    }
    GElementPtr e = nullptr;
    if (fence) { p->registerGElement<GFence>(&e, {dep}, "fence"); top("fence"); edge("fence"); }
    if (coord) { p->registerGElement<GCoordinator<1>>(&e, {dep}, "coord"); top("coord"); edge("coord"); }
    if (func) { p->registerGElement<GFunction>(&e, {dep}, "func", 2); top("func"); edge("func"); want.edges.insert(std::make_tuple("func", "func", "2")); }
    auto chk = [&](const char* what) { dot::same(dot::view(dump_text(p)), want, what); };
    chk("dump of the built pipeline");
    if (use) {
        g.resetInit(); g.resetRun();
        CStatus st = p->init();
        PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
        chk("dump after init");
        uint32_t b = rec().add(API_B, 0);
        st = p->run();
        uint32_t t = rec().add(API_E, 0);
        PBT_CHECK(st.isOK(), "run failed: %s", st.getInfo().c_str());
        { std::vector<std::vector<int>> d; for (auto& s : g.specs) d.push_back(s->deps); check_full_run(g, b + 1, t, "run"); for (auto& s : g.specs) s->deps = d[s->id]; }
        chk("dump after run");
        p->destroy();
        chk("dump after destroy");
    }
    bool grp = false;
    for (auto& s : g.specs) grp |= s->isGroup();
    ctx.nontrivial = want.parent.size() >= 3;
    ctx.label("dump only");
    if (grp) ctx.label("with groups");
}

static void perf_mode(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 8; o.maxDepth = src.pick({1, 2, 1}); o.groupDen = 4;
    o.holds = src.chance(1, 4); o.groupHolds = false;
    Gen(src, g, o).build();
    int nasp = 0;
    for (auto& s : g.specs) if (src.chance(1, 4)) {
        int n = src.range(1, 2);
        for (int k = 0; k < n; k++) { AspSpec a; a.val = src.range(1, 99); a.how = src.below(2); s->aspects.push_back(a); nasp++; }
    }
    std::vector<int> sleepUs(g.size(), 0);
    for (auto& s : g.specs) if (s->kind == NODE && src.chance(1, 3)) sleepUs[s->id] = src.range(1, 6) * 100;
    int engine = src.pick({3, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    int how = src.pick({2, 1, 1, 1});
    int n = src.range(1, 4);
    struct Op { int op, a, mode; };
    std::vector<Op> ops;
    for (int i = 0; i < n; i++) ops.push_back({src.pick({5, 2, 1, 1, 2}), (int)src.below(1000), (int)src.below(2)});
    ops.push_back({src.pick({2, 1}) ? 1 : 0, 0, 0});
    bool lateKid = src.chance(1, 8);
    glob_expect() = src.flip() ? src.range(1, 100) : 0;
    static const char* on[] = {"perf", "process", "dump", "perf while initialised", "perf with a failing element"};
    ctx.desc << "perf; engine " << engine << " " << pd << " build " << how << "\n" << g.str() << "history:";
    for (auto& x : ops) ctx.desc << " " << on[x.op] << "(" << x.a << "," << x.mode << ")";
    ctx.desc << (lateKid ? "; one cluster gets its child directly" : "") << "\n";
    ctx.publish();
    rec().reset();
    Pipe pipe;
    GPipelinePtr p = pipe.p;
    Builder bld(g, p);
    bld.build(how);
    if (lateKid) {   // a child that the pipeline only meets at init (as the Python binding adds children)
        int c = (int)g.size(), k = c + 1;
        for (int i = 0; i < 2; i++) { g.specs.emplace_back(new Spec()); g[c + i].id = c + i; g[c + i].name = "e" + std::to_string(c + i); sleepUs.push_back(0); }
        g[c].kind = CLUSTER; g[c].children.push_back(k); g[k].parent = c;
        AspSpec a; a.val = 7; g[k].aspects.push_back(a);
        g.top.push_back(c);
        GElementPtr e = p->createGGroup<PCluster>({}, {}, g[c].name, 1);
        CStatus st = p->registerGGroup(&e, {}, g[c].name, 1);
        PBT_CHECK(st.isOK(), "registering an empty cluster failed");
        bind_spec(e, &g[c]);
        auto* kid = CAllocator::safeMallocCObject<PNode>();
        bind_spec(kid, &g[k]);
        kid->setName(g[k].name);
        bld.config(g[k]);
        st = static_cast<PCluster*>(e)->__addGElements_4py({kid});
        PBT_CHECK(st.isOK(), "adding a child failed: %s", st.getInfo().c_str());
    }
    if (glob_expect()) { p->createGParam<PGlobal>("glob"); p->getGParam<PGlobal>("glob")->v = glob_expect(); }
    p->setGEngineType(engine_type(engine));
    p->setUniqueThreadPoolConfig(cfg);
    std::vector<std::atomic<int64_t>> busyNs(g.size());
    for (auto& s : g.specs) if (s->kind == NODE && sleepUs[s->id]) s->body = [&](Spec* q) {
        auto a = std::chrono::steady_clock::now();
        std::this_thread::sleep_for(std::chrono::microseconds(sleepUs[q->id]));
        busyNs[q->id] += std::chrono::duration_cast<std::chrono::nanoseconds>(std::chrono::steady_clock::now() - a).count();
        return CStatus();
    };
    auto reach = [&](Spec& s) { if (!s.visible) return false; for (int a : g.ancestors(s.id)) if (!g[a].visible) return false; return true; };
    std::vector<std::map<int, int>> base;
    bool haveBase = false;
    int perfs = 0, failed = 0;
    for (auto& x : ops) {
        g.resetRun(); g.resetInit();
        for (auto& b : busyNs) b = 0;
        for (auto& s : g.specs) { s->failAt = -1; s->initFail = s->destroyFail = 0; }
        switch (x.op) {
            case 0: case 1: {
                uint32_t b = rec().add(API_B, 0);
                auto t0 = std::chrono::steady_clock::now();
                std::ostringstream os;
                CStatus st = x.op == 0 ? p->perf(os) : p->process();
                double wall = std::chrono::duration<double, std::milli>(std::chrono::steady_clock::now() - t0).count();
                uint32_t t = rec().add(API_E, 0);
                const char* what = on[x.op];
                PBT_CHECK(st.isOK(), "%s returned %d '%s'", what, st.getCode(), st.getInfo().c_str());
                check_full_run(g, b + 1, t, what);
                std::vector<int> in(g.size()), de(g.size());
                for (uint32_t i = b + 1; i < t; i++) { if (rec().buf[i].type == INIT) in[rec().buf[i].id]++; if (rec().buf[i].type == DESTROY) de[rec().buf[i].id]++; }
                for (auto& s : g.specs) if (s->kind == NODE) PBT_CHECK(in[s->id] == (reach(*s) ? 1 : 0) && de[s->id] == in[s->id], "%s: %s was initialised %d and destroyed %d times", what, s->name.c_str(), in[s->id], de[s->id]);
                // the user's aspects are called the same way every time
                auto calls = aspect_calls(g, b + 1, t);
                bool stable = true;     // (behaviour lists are cyclic, and the call counters are reset before each run)
                if (stable) {
                    if (haveBase) for (auto& s : g.specs) PBT_CHECK(calls[s->id] == base[s->id], "%s: the aspects of %s were not called as in the first run", what, s->name.c_str());
                    else { base = calls; haveBase = true; for (auto& s : g.specs) for (size_t k = 0; k < s->aspects.size(); k++) PBT_CHECK(calls[s->id][(int)k * 16 + A_BI] == (reach(*s) ? 1 : 0), "%s: aspect %zu of %s was called %d times at init", what, k, s->name.c_str(), calls[s->id][(int)k * 16 + A_BI]); }
                }
                if (x.op == 1) break;
                perfs++;
                dot::View v = dot::view(os.str());
                dot::same(v, dot::expected(g), "perf");
                std::vector<Times> tm(g.size());
                for (auto& s : g.specs) {
                    int execs = s->kind == NODE ? s->mRun : s->mIter;
                    Times q = tm[s->id] = parse_times(v.label[s->name], s->name);
                    if (s->isGroup()) {
                        std::string gl = v.groupLabel[s->name], l = v.label[s->name];
                        auto rest = [](const std::string& z) { size_t k = z.find('\n'); return k == std::string::npos ? std::string() : z.substr(k); };
                        PBT_CHECK(rest(gl) == rest(l), "perf: %s is shown with two different measurements", s->name.c_str());
                    }
                    PBT_CHECK(q.has == (execs > 0), "perf: %s was executed %d times and is %s", s->name.c_str(), execs, q.has ? "measured" : "not measured");
                    if (!q.has) continue;
                    int rounds = s->holds.empty() ? execs : s->mIter;     // one measurement per loop round, holds included in it
                    PBT_CHECK(q.hasTotal == (rounds > 1), "perf: %s was executed %d times, a total is %s", s->name.c_str(), rounds, q.hasTotal ? "shown" : "not shown");
                    double eps = 0.011;
                    PBT_CHECK(q.start >= -eps && q.per >= -eps && q.total >= -eps && q.finish >= q.start - eps, "perf: %s has inconsistent times %s", s->name.c_str(), v.label[s->name].c_str());
                    PBT_CHECK(q.finish <= wall + eps, "perf: %s finished at %.2fms, the whole call took %.2fms", s->name.c_str(), q.finish, wall);
                    PBT_CHECK(q.total <= q.finish - q.start + 2 * eps, "perf: %s took %.2fms in total between %.2f and %.2f", s->name.c_str(), q.total, q.start, q.finish);
                    PBT_CHECK(std::abs(q.per * rounds - q.total) <= 0.006 * rounds + eps, "perf: %s cost %.2f each over %d executions, %.2f in total", s->name.c_str(), q.per, rounds, q.total);
                    PBT_CHECK(q.total + eps >= busyNs[s->id] / 1e6, "perf: %s took %.2fms in total, its body took %.2fms", s->name.c_str(), q.total, busyNs[s->id] / 1e6);
                    for (int d : s->deps) if (tm[d].has || true) {
                        Times w = parse_times(v.label[g[d].name], g[d].name);
                        int sib = s->parent;
                        if (w.has && (sib < 0 || rounds == 1)) PBT_CHECK(q.start >= w.finish - 2 * eps || (sib >= 0 && w.hasTotal), "perf: %s started at %.2f, before %s finished at %.2f", s->name.c_str(), q.start, g[d].name.c_str(), w.finish);
                    }
                    if (s->parent >= 0) {
                        Times w = parse_times(v.label[g[s->parent].name], g[s->parent].name);
                        PBT_CHECK(w.has && w.start <= q.start + 2 * eps && w.finish >= q.finish - 2 * eps, "perf: %s ran from %.2f to %.2f, its group %s from %.2f to %.2f", s->name.c_str(), q.start, q.finish, g[s->parent].name.c_str(), w.start, w.finish);
                    }
                }
                break;
            }
            case 2: break;
            case 3: {
                CStatus st = p->init();
                PBT_CHECK(st.isOK(), "init failed");
                uint32_t c = rec().size();
                std::ostringstream os;
                bool threw = has_cpp_exception([&] { st = p->perf(os); });
                PBT_CHECK((threw || st.isErr()) && rec().size() == c, "perf of an initialised pipeline was accepted or had effects");
                st = p->destroy();
                PBT_CHECK(st.isOK(), "destroy failed");
                break;
            }
            default: {
                std::vector<Spec*> nodes;
                { Interp in(g); in.run(); }
                for (auto& s : g.specs) if (s->kind == NODE && s->mRun > 0) nodes.push_back(s.get());
                g.resetRun(); g.resetInit();
                if (nodes.empty()) break;
                Spec* bad = nodes[x.a % nodes.size()];
                bad->failAt = 0; bad->failMode = x.mode;
                std::ostringstream os;
                CStatus st;
                bool threw = has_cpp_exception([&] { st = p->perf(os); });
                PBT_CHECK(!threw, "perf threw when %s failed", bad->name.c_str());
                PBT_CHECK(st.isErr(), "perf returned OK although %s failed", bad->name.c_str());
                PBT_CHECK(st.getInfo().find(fail_msg(bad, "run")) != std::string::npos, "perf returned %d '%s' instead of the error of %s", st.getCode(), st.getInfo().c_str(), bad->name.c_str());
                failed++;
                for (auto& s : g.specs) s->failAt = -1;
                break;
            }
        }
        if (x.op == 2 || x.op == 0 || x.op == 4) check_dump(g, p, x.op == 4 ? "dump after a perf whose run failed" : "dump");
    }
    glob_expect() = 0;
    ctx.nontrivial = perfs > 0 && g.size() >= 3;
    ctx.label("perf");
    if (failed) ctx.label("perf with a failing run");
    if (nasp) ctx.label("user aspects");
}

static void prop(Src& src, Ctx& ctx) {
    glob_expect() = 0;
    if (src.pick({1, 2}) == 0) dump_mode(src, ctx); else perf_mode(src, ctx);
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
