// C25: save / load: a loaded pipeline has everything the saved one had, behaves the same and saves to the same form.
#include "dump.h"
#include <sys/mman.h>
#include <dirent.h>
using namespace pr;

// ---- the registered vocabulary
template <int K> class SAsp : public GAspect {
public:
    CStatus beginInit() override { hit(A_BI); return CStatus(); }
    CVoid finishInit(const CStatus&) override { hit(A_FI); }
    CStatus beginRun() override { hit(A_BR); return CStatus(); }
    CVoid finishRun(const CStatus&) override { hit(A_FR); }
    CStatus beginDestroy() override { hit(A_BD); return CStatus(); }
    CVoid finishDestroy(const CStatus&) override { hit(A_FD); }
private:
    void hit(int phase) {
        Spec* s = find_spec(this->getName());
        if (!s) pbt::failf("an aspect sees the element name '%s'", this->getName().c_str());
        rec().add(ASPECT, s->id, K << 8 | phase);
    }
};
template <int K> class SPar : public GParam { public: int v = 0; CVoid reset(const CStatus&) override {} };
template <int K> class SEP : public GElementParam { public: int v = 0; CVoid clone(GPassedParamPtr p) override { if (auto* q = dynamic_cast<SEP<K>*>(p)) v = q->v; } };
std::atomic<int> evHits[4], dmHits[4], stHits[4];
std::atomic<int64_t> dmInterval[4];
std::atomic<bool> evSawParam;
template <int K> class SEvent : public GEvent { public: CVoid trigger(GEventParamPtr) override { evHits[K]++; if (getGParam<SPar<0>>("p0") || getGParam<SPar<1>>("p0")) evSawParam = true; } };
template <int K> class SDaemon : public GDaemon { public: CVoid daemonTask(GDaemonParamPtr) override { dmInterval[K] = getInterval(); dmHits[K]++; } };
template <int K> class SStage : public GStage { public: CVoid launch(GStageParamPtr) override { stHits[K]++; } };
class UnNode : public GNode { public: CStatus run() override { return CStatus(); } };
class UnGroup : public GCluster {};

static void register_all() {
    CGRAPH_REGISTER_META_TYPE(PNode); CGRAPH_REGISTER_META_TYPE(PNode1); CGRAPH_REGISTER_META_TYPE(PNode2);
    CGRAPH_REGISTER_META_TYPE(PCluster); CGRAPH_REGISTER_META_TYPE(PRegion); CGRAPH_REGISTER_META_TYPE(PCond);
    CGRAPH_REGISTER_META_TYPE(PMultiS); CGRAPH_REGISTER_META_TYPE(PMultiP); CGRAPH_REGISTER_META_TYPE(PMutable);
    CGRAPH_REGISTER_META_TYPE(SAsp<0>); CGRAPH_REGISTER_META_TYPE(SAsp<1>); CGRAPH_REGISTER_META_TYPE(SAsp<2>);
    CGRAPH_REGISTER_META_TYPE(SPar<0>); CGRAPH_REGISTER_META_TYPE(SPar<1>);
    CGRAPH_REGISTER_META_TYPE(SEP<0>); CGRAPH_REGISTER_META_TYPE(SEP<1>);
    CGRAPH_REGISTER_META_TYPE(SEvent<0>); CGRAPH_REGISTER_META_TYPE(SEvent<1>);
    CGRAPH_REGISTER_META_TYPE(SDaemon<0>); CGRAPH_REGISTER_META_TYPE(SDaemon<1>); CGRAPH_REGISTER_META_TYPE(SDaemon<2>);
    CGRAPH_REGISTER_META_TYPE(SStage<0>); CGRAPH_REGISTER_META_TYPE(SStage<1>);
}

// a file that disappears with the process
struct TmpFile {
    int fd; std::string path;
    TmpFile() { fd = memfd_create("pipe", 0); path = "/proc/self/fd/" + std::to_string(fd); }
    ~TmpFile() { close(fd); }
    std::string bytes() {
        std::string r; char b[65536]; off_t o = 0; ssize_t k;
        while ((k = pread(fd, b, sizeof b, o)) > 0) { r.append(b, k); o += k; }
        return r;
    }
    std::string sorted() { std::string b = bytes(); std::sort(b.begin(), b.end()); return b; }
};
static int thread_count() {
    int n = 0;
    DIR* d = opendir("/proc/self/task");
    while (dirent* e = readdir(d)) n += e->d_name[0] != '.';
    closedir(d);
    return n;
}

struct Extra {
    std::vector<std::vector<int>> asp;                                   // per element: aspect classes in order
    std::vector<std::map<std::string, int>> ep;                          // per element: key -> class
    std::map<std::string, std::pair<int, bool>> par;                     // key -> class, backtrace
    std::map<std::string, int> ev;
    std::map<std::string, std::pair<int, int>> st;                       // key -> class, threshold
    std::map<int, int> dm;                                               // class -> interval
    std::string str() {
        std::ostringstream o;
        for (size_t i = 0; i < asp.size(); i++) { if (!asp[i].empty()) { o << "aspects of e" << i << ":"; for (int a : asp[i]) o << " " << a; o << "; "; } for (auto& x : ep[i]) o << "eparam e" << i << "." << x.first << ":" << x.second << "; "; }
        for (auto& x : par) o << "param " << x.first << ":" << x.second.first << (x.second.second ? " backtrace" : "") << "; ";
        for (auto& x : ev) o << "event " << x.first << ":" << x.second << "; ";
        for (auto& x : st) o << "stage " << x.first << ":" << x.second.first << " threshold " << x.second.second << "; ";
        for (auto& x : dm) o << "daemon " << x.first << " every " << x.second << "ms; ";
        return o.str();
    }
};
enum { SRC_ERR = 16 };

static void use_pipeline(Graph& g, Extra& x, GPipelinePtr p, UThreadPoolConfig& cfg, const char* what, int engine, int runs) {
    p->setGEngineType(engine_type(engine));
    PNode* any = nullptr;
    std::set<int> inited;
    init_hook() = [&](PNode* n, Spec* s) {
        PBT_CHECK(n->cls() == s->cls, "%s: %s is of class %d, not %d", what, s->name.c_str(), n->cls(), s->cls);
        PBT_CHECK((int)n->getLoop() == s->loop, "%s: %s has loop %d, not %d", what, s->name.c_str(), (int)n->getLoop(), s->loop);
        PBT_CHECK(n->binding() == s->binding, "%s: %s is bound to %d, not %d", what, s->name.c_str(), n->binding(), s->binding);
        for (int k = 0; k < 3; k++) {
            std::string key = "k" + std::to_string(k);
            auto it = x.ep[s->id].find(key);
            bool a = n->eparam<SEP<0>>(key) != nullptr, b = n->eparam<SEP<1>>(key) != nullptr;
            PBT_CHECK(a == (it != x.ep[s->id].end() && it->second == 0) && b == (it != x.ep[s->id].end() && it->second == 1), "%s: element parameter %s of %s is %s", what, key.c_str(), s->name.c_str(), a ? "of class 0" : b ? "of class 1" : "absent");
        }
        any = n;
    };
    for (auto& c : evHits) c = 0;
    for (auto& c : dmHits) c = 0;
    for (auto& c : stHits) c = 0;
    evSawParam = false;
    int t0 = thread_count();
    uint32_t from = rec().size();
    g.resetInit();
    CStatus st = p->init();
    PBT_CHECK(st.isOK(), "%s: init returned %d '%s'", what, st.getCode(), st.getInfo().c_str());
    int wantThreads = cfg.default_thread_size_ + cfg.secondary_thread_size_ + (cfg.monitor_enable_ ? 1 : 0) + (int)x.dm.size();
    PBT_CHECK(thread_count() - t0 == wantThreads, "%s: the pipeline has %d threads, expected %d", what, thread_count() - t0, wantThreads);
    // init order by level, once each
    std::map<int, uint32_t> at;
    for (uint32_t i = from; i < rec().size(); i++) if (rec().buf[i].type == INIT) { PBT_CHECK(!at.count(rec().buf[i].id), "%s: %s was initialised twice", what, g[rec().buf[i].id].name.c_str()); at[rec().buf[i].id] = i; }
    for (auto& s : g.specs) if (s->kind == NODE) {
        bool vis = s->visible;
        for (int a : g.ancestors(s->id)) if (!g[a].visible) vis = false;
        PBT_CHECK(at.count(s->id) == (vis ? 1u : 0u), "%s: %s was%s initialised", what, s->name.c_str(), vis ? " not" : "");
    }
    std::function<void(int, std::vector<int>&)> collect = [&](int id, std::vector<int>& o) { if (g[id].kind == NODE) o.push_back(id); for (int c : g[id].children) collect(c, o); };
    auto order = [&](const std::vector<int>& sib) {
        for (int a : sib) for (int b : sib) if (g[a].level < g[b].level) {
            std::vector<int> u, v;
            collect(a, u); collect(b, v);
            for (int q : u) for (int w : v) if (at.count(q) && at.count(w)) PBT_CHECK(at[q] < at[w], "%s: %s (level %d) was initialised after %s (level %d)", what, g[q].name.c_str(), g[a].level, g[w].name.c_str(), g[b].level);
        }
    };
    order(g.top);
    for (auto& s : g.specs) if (s->kind == REGION) order(s->children);
    // parameters
    for (int k = 0; k < 4; k++) {
        std::string key = "p" + std::to_string(k);
        auto it = x.par.find(key);
        if (any) {
            bool a = any->gparam<SPar<0>>(key) != nullptr, b = any->gparam<SPar<1>>(key) != nullptr;
            PBT_CHECK(a == (it != x.par.end() && it->second.first == 0) && b == (it != x.par.end() && it->second.first == 1), "%s: parameter %s is %s", what, key.c_str(), a ? "of class 0" : b ? "of class 1" : "absent");
            if (it != x.par.end()) {
                GParam* q = it->second.first ? (GParam*)any->gparam<SPar<1>>(key) : (GParam*)any->gparam<SPar<0>>(key);
                PBT_CHECK(q->getKey() == key, "%s: parameter %s calls itself '%s'", what, key.c_str(), q->getKey().c_str());
                bool records = false;
                has_cpp_exception([&] { records = !q->getBacktrace().empty(); });      // asking a parameter without this feature is an error
                PBT_CHECK(records == it->second.second, "%s: parameter %s %s its accesses", what, key.c_str(), it->second.second ? "does not record" : "records");
            }
        }
    }
    auto keys = p->getGParamKeys();
    PBT_CHECK(keys.size() == x.par.size(), "%s: %zu parameters are listed, expected %zu", what, keys.size(), x.par.size());
    // events
    if (any) for (int k = 0; k < 3; k++) {
        std::string key = "v" + std::to_string(k);
        auto it = x.ev.find(key);
        int h0 = evHits[0], h1 = evHits[1];
        st = any->event(key, GEventType::SYNC);
        PBT_CHECK(st.isOK() == (it != x.ev.end()), "%s: notify of event %s returned %d", what, key.c_str(), st.getCode());
        PBT_CHECK(evHits[0] - h0 == (it != x.ev.end() && it->second == 0) && evHits[1] - h1 == (it != x.ev.end() && it->second == 1), "%s: event %s triggered %d / %d", what, key.c_str(), evHits[0] - h0, evHits[1] - h1);
    }
    if (any && !x.ev.empty()) PBT_CHECK(evSawParam.load() == (x.par.count("p0") > 0), "%s: an event %s the pipeline's parameter", what, evSawParam ? "sees" : "does not see");
    // stages
    if (any) for (auto& s : x.st) {
        int h = stHits[s.second.first];
        std::vector<std::thread> th;
        for (int i = 0; i < s.second.second; i++) th.emplace_back([&] { any->stage(s.first); });
        for (auto& t : th) t.join();
        PBT_CHECK(stHits[s.second.first] - h == 1, "%s: stage %s with threshold %d launched %d times", what, s.first.c_str(), s.second.second, stHits[s.second.first] - h);
    }
    // runs
    for (int r = 0; r < runs; r++) {
        g.resetRun();
        uint32_t b = rec().add(API_B, 0);
        st = p->run();
        uint32_t e = rec().add(API_E, 0);
        PBT_CHECK(st.isOK(), "%s: run returned %d '%s'", what, st.getCode(), st.getInfo().c_str());
        check_full_run(g, b + 1, e, what);
        for (auto& s : g.specs) {   // aspects: every execution is surrounded by them in order
            auto& want = x.asp[s->id];
            std::vector<int> got[A_TIMEOUT + 1];
            for (uint32_t i = b + 1; i < e; i++) if (rec().buf[i].type == ASPECT && rec().buf[i].id == s->id) got[rec().buf[i].aux & 0xff].push_back(rec().buf[i].aux >> 8);
            int execs = s->mIter;
            for (int ph : {(int)A_BR, (int)A_FR}) {
                PBT_CHECK(got[ph].size() % (want.empty() ? 1 : want.size()) == 0 && (want.empty() ? got[ph].empty() : true), "%s: %s has %zu aspect calls for %zu aspects", what, s->name.c_str(), got[ph].size(), want.size());
                for (size_t i = 0; i < got[ph].size(); i++) PBT_CHECK(got[ph][i] == want[i % want.size()], "%s: aspects of %s run in another order", what, s->name.c_str());
                if (!want.empty()) PBT_CHECK((int)(got[ph].size() / want.size()) >= execs, "%s: the aspects of %s were called %zu times for %d executions", what, s->name.c_str(), got[ph].size(), execs);
            }
        }
        // the static engine runs macro elements (and no others) on the calling thread
        if (engine == 1) for (int id : g.top) if (g[id].kind == NODE) for (uint32_t i = b + 1; i < e; i++) if (rec().buf[i].type == RUN_B && rec().buf[i].id == id)
            PBT_CHECK((rec().buf[i].tid == rec().buf[b].tid) == (g[id].macro && g[id].binding == -1), "%s: %s element %s ran on %s thread", what, g[id].macro ? "macro" : "normal", g[id].name.c_str(), rec().buf[i].tid == rec().buf[b].tid ? "the caller's" : "another");
    }
    if (!x.dm.empty()) {
        for (auto& d : x.dm) {
            for (int i = 0; i < 4000 && !dmHits[d.first]; i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
            PBT_CHECK(dmHits[d.first] > 0, "%s: daemon %d never ran", what, d.first);
            PBT_CHECK(dmInterval[d.first] == d.second, "%s: daemon %d has the interval %lld, not %d", what, d.first, (long long)dmInterval[d.first], d.second);
        }
        for (int k = 0; k < 3; k++) if (!x.dm.count(k)) PBT_CHECK(!dmHits[k], "%s: daemon %d runs though it was not added", what, k);
    }
    st = p->destroy();
    PBT_CHECK(st.isOK(), "%s: destroy returned %d '%s'", what, st.getCode(), st.getInfo().c_str());
    init_hook() = nullptr;
}

static void add_extras(Graph& g, Extra& x, GPipelinePtr p) {
    for (auto& s : g.specs) {
        for (int a : x.asp[s->id]) { if (a == 0) s->ptr->addGAspect<SAsp<0>>(); else if (a == 1) s->ptr->addGAspect<SAsp<1>>(); else s->ptr->addGAspect<SAsp<2>>(); }
        for (auto& e : x.ep[s->id]) { SEP<0> a; SEP<1> b; if (e.second == 0) s->ptr->addEParam(e.first, &a); else s->ptr->addEParam(e.first, &b); }
    }
    for (auto& q : x.par) { CStatus st = q.second.first ? p->createGParam<SPar<1>>(q.first, q.second.second) : p->createGParam<SPar<0>>(q.first, q.second.second); PBT_CHECK(st.isOK(), "createGParam failed"); }
    for (auto& q : x.ev) { if (q.second) p->addGEvent<SEvent<1>>(q.first); else p->addGEvent<SEvent<0>>(q.first); }
    for (auto& q : x.st) { if (q.second.first) p->addGStage<SStage<1>>(q.first, q.second.second); else p->addGStage<SStage<0>>(q.first, q.second.second); }
    for (auto& q : x.dm) { if (q.first == 0) p->addGDaemon<SDaemon<0>>(q.second); else if (q.first == 1) p->addGDaemon<SDaemon<1>>(q.second); else p->addGDaemon<SDaemon<2>>(q.second); }
}

static void gen_graph(Src& src, Graph& g, Extra& x, std::string& pd, UThreadPoolConfig& cfg, bool small) {
    GenOpts o;
    o.maxTop = small ? 4 : 8; o.maxDepth = src.pick({2, 2, 1}) + (small ? 0 : 1); o.groupDen = 3; o.engines = false;
    o.kinds = {CLUSTER, REGION, COND, MULTI_S, MULTI_P, MUTABLE_K};
    o.holds = src.chance(1, 4);
    Gen(src, g, o).build();
    for (auto& s : g.specs) {
        s->cls = src.pick({3, 1, 1});
        if (s->kind != NODE) s->cls = 0;
        if (s->kind == MUTABLE_K) {
            MPlan pl;
            int n = (int)s->children.size();
            for (int i = 0; i < n; i++) if (src.chance(2, 3)) pl.ops.push_back({0, i, 0});
            if (src.flip()) for (int i = 1; i < n; i++) pl.ops.push_back({2, i - 1, i});
            s->plans.push_back(pl);
            for (int c : s->children) { g[c].visible = true; g[c].loop = 1; }
        }
        if (s->id % 7 == 3 && src.chance(1, 3)) {   // unusual names
            static const char* suf[] = {" with spaces", "-\"quoted\"", "\xe4\xb8\xad\xe6\x96\x87", "\n\t", "%s%n", ""};
            s->name += src.below(6) == 5 ? std::string(300 + src.below(300), 'x') : std::string(suf[src.below(5)]);
        }
    }
    x.asp.resize(g.size()); x.ep.resize(g.size());
    for (size_t i = 0; i < g.size(); i++) {
        if (src.chance(1, 4)) { int n = src.range(1, 3); for (int k = 0; k < n; k++) x.asp[i].push_back((int)src.below(3)); }
        if (src.chance(1, 5)) { int n = src.range(1, 2); for (int k = 0; k < n; k++) x.ep[i]["k" + std::to_string(src.below(3))] = (int)src.below(2); }
    }
    if (src.flip()) { int n = src.range(1, 3); for (int k = 0; k < n; k++) x.par["p" + std::to_string(src.below(4))] = {(int)src.below(2), src.flip()}; }
    if (src.chance(1, 3)) { int n = src.range(1, 3); for (int k = 0; k < n; k++) x.ev["v" + std::to_string(src.below(3))] = (int)src.below(2); }
    if (src.chance(1, 3)) { int n = src.range(1, 2); for (int k = 0; k < n; k++) x.st["s" + std::to_string(src.below(3))] = {(int)src.below(2), src.range(1, 4)}; }
    if (src.chance(1, 6)) { int n = src.range(1, 2); for (int k = 0; k < n; k++) x.dm[(int)src.below(3)] = src.range(1, 15); }
    cfg = gen_pool(src, blocking_groups(g), pd);
    cfg.secondary_thread_ttl_ = src.range(5, 30);
    if (src.chance(1, 4)) { cfg.monitor_enable_ = true; cfg.monitor_span_ = src.range(1, 9); }
}

static void errors(Src& src, Ctx& ctx) {
    Graph g; Extra x; std::string pd; UThreadPoolConfig cfg;
    gen_graph(src, g, x, pd, cfg, true);
    for (auto& s : g.specs) s->name = "e" + std::to_string(s->id);
    int what = src.below(11);
    static const char* nm[] = {"unregistered node", "unregistered group", "unregistered aspect", "unregistered parameter", "unregistered event", "unregistered daemon", "unregistered stage", "unregistered element parameter", "adapter", "missing or unwritable file", "initialised pipeline"};
    ctx.desc << "error case: " << nm[what] << "\n" << pd << "\n" << g.str() << x.str() << "\n";
    ctx.publish();
    ctx.label("error cases");
    rec().reset();
    Pipe pipe;
    GPipelinePtr p = pipe.p;
    Builder(g, p).build(src.pick({2, 1, 1, 1}) == 2 ? 0 : 1);
    p->setUniqueThreadPoolConfig(cfg);
    add_extras(g, x, p);
    Spec& some = g[src.below(g.size())];
    TmpFile f;
    GElementPtr e = nullptr;
    switch (what) {
        case 0: {
            if (some.parent < 0 || src.flip()) p->registerGElement<UnNode>(&e, {}, "un");
            else { e = p->createGNode<UnNode>(GNodeInfo("un", 1)); GElementPtr grp = p->createGGroup<PCluster>({e}, {}, "grp", 1); p->registerGGroup(&grp, {}, "grp", 1); }
            break;
        }
        case 1: { auto* n = p->createGNode<PNode>(GNodeInfo("e99999", 1)); GElementPtr grp = p->createGGroup<UnGroup>({n}, {}, "grp", 1); p->registerGGroup(&grp, {}, "grp", 1); break; }
        case 2: some.ptr->addGAspect<SAsp<7>>(); break;
        case 3: p->createGParam<SPar<7>>("un"); break;
        case 4: p->addGEvent<SEvent<3>>("un"); break;
        case 5: p->addGDaemon<SDaemon<3>>(1000); break;
        case 6: p->addGStage<SStage<3>>("un", 2); break;
        case 7: { SEP<7> q; some.ptr->addEParam("un", &q); break; }
        case 8: {
            if (src.flip()) p->registerGElement<GFunction>(&e, {}, "fn"); else p->registerGElement<GFence>(&e, {}, "fence");
            PBT_CHECK(p->save(f.path).isErr(), "a pipeline with an adapter was saved");
            ctx.nontrivial = true;
            return;
        }
        case 9: {
            PBT_CHECK(p->save("/nonexistent-dir-of-the-check/x/pipe.cgraph").isErr(), "saving into a directory that does not exist succeeded");
            Pipe q;
            PBT_CHECK(q.p->load("/nonexistent-dir-of-the-check/x/pipe.cgraph").isErr(), "loading a missing file succeeded");
            // and the pipeline that could not be loaded is still usable
            Builder(g, q.p).build(0);
            q.p->setUniqueThreadPoolConfig(cfg);
            CStatus st = q.p->process();
            PBT_CHECK(st.isOK(), "a pipeline that refused to load does not work: %s", st.getInfo().c_str());
            ctx.nontrivial = true;
            return;
        }
        default: {
            CStatus st = p->save(f.path);
            PBT_CHECK(st.isOK(), "save returned %d '%s'", st.getCode(), st.getInfo().c_str());
            std::string before = f.bytes();
            st = p->init();
            PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
            uint32_t n = rec().size();
            PBT_CHECK(p->save(f.path).isErr(), "an initialised pipeline was saved");
            PBT_CHECK(f.bytes() == before, "a rejected save changed the file");
            PBT_CHECK(p->load(f.path).isErr(), "an initialised pipeline was loaded");
            PBT_CHECK(rec().size() == n, "a rejected call had effects");
            g.resetRun(); g.resetInit();
            uint32_t b = rec().add(API_B, 0);
            st = p->run();
            uint32_t t = rec().add(API_E, 0);
            PBT_CHECK(st.isOK(), "run failed: %s", st.getInfo().c_str());
            check_full_run(g, b + 1, t, "run after rejected calls");
            p->destroy();
            ctx.nontrivial = true;
            return;
        }
    }
    CStatus st = p->save(f.path);
    PBT_CHECK(st.isOK(), "save returned %d '%s'", st.getCode(), st.getInfo().c_str());
    Pipe q;
    bool threw = has_cpp_exception([&] { st = q.p->load(f.path); });
    PBT_CHECK(!threw, "load threw instead of returning an error");
    PBT_CHECK(st.isErr(), "a file with an %s was loaded", nm[what]);
    ctx.nontrivial = true;
}

// an element with a time limit: the limit and its strategy survive
static void timed(Src& src, Ctx& ctx) {
    int strategy = src.below(3);
    bool over = src.chance(2, 3);
    int ms = over ? src.range(5, 9) : 60000;
    ctx.desc << "one element with a time limit of " << ms << "ms, strategy " << strategy << ", " << (over ? "exceeded" : "kept") << "\n";
    ctx.publish();
    ctx.label("time limits");
    Graph g;
    cur_graph() = &g;
    for (int i = 0; i < 2; i++) { g.specs.emplace_back(new Spec()); g[i].id = i; g[i].name = "e" + std::to_string(i); g.top.push_back(i); }
    g[0].timeout = ms; g[0].tstrategy = strategy;
    g[0].parent = -1;
    std::atomic<bool> open{false}, done{false}, inside{false};
    g[0].body = [&](Spec*) { inside = true; if (over) while (!open) std::this_thread::sleep_for(std::chrono::milliseconds(1)); else std::this_thread::sleep_for(std::chrono::milliseconds(10)); done = true; return CStatus(); };
    rec().reset();
    TmpFile f;
    {
        Pipe pipe;
        Builder(g, pipe.p).build(src.below(2));
        CStatus st = pipe.p->save(f.path);
        PBT_CHECK(st.isOK(), "save returned %d '%s'", st.getCode(), st.getInfo().c_str());
    }
    Pipe q;
    CStatus st = q.p->load(f.path);
    PBT_CHECK(st.isOK(), "load returned %d '%s'", st.getCode(), st.getInfo().c_str());
    st = q.p->init();
    PBT_CHECK(st.isOK(), "init returned %d", st.getCode());
    std::thread opener;
    if (over && strategy == 1) opener = std::thread([&] { while (!inside) std::this_thread::yield(); std::this_thread::sleep_for(std::chrono::milliseconds(40)); open = true; });
    st = q.p->run();
    bool fin = done.load();
    open = true;
    if (opener.joinable()) opener.join();
    for (int i = 0; i < 20000 && !(done && g[0].ends > 0); i++) std::this_thread::sleep_for(std::chrono::milliseconds(1));
    if (!over) PBT_CHECK(st.isOK() && fin, "an element that kept its limit of %dms: run returned %d '%s', finished=%d", ms, st.getCode(), st.getInfo().c_str(), fin);
    else if (strategy == 0) PBT_CHECK(st.isErr() && !fin, "an element over its time limit of %dms is not an error after loading (run returned %d, finished=%d)", ms, st.getCode(), fin);
    else if (strategy == 1) PBT_CHECK(st.isOK() && fin, "an element over its time limit (hold by pipeline): run returned %d '%s', finished=%d", st.getCode(), st.getInfo().c_str(), fin);
    else PBT_CHECK(st.isOK() && !fin, "an element over its time limit (not held): run returned %d '%s', finished=%d", st.getCode(), st.getInfo().c_str(), fin);
    std::this_thread::sleep_for(std::chrono::milliseconds(2));
    q.p->destroy();
    ctx.nontrivial = true;
}

static void prop(Src& src, Ctx& ctx) {
    static bool once = (register_all(), true); (void)once;
    init_hook() = nullptr;
    int mode = src.pick({8, 3, 1});
    if (mode == 1) return errors(src, ctx);
    if (mode == 2) return timed(src, ctx);
    Graph g; Extra x; std::string pd; UThreadPoolConfig cfg;
    gen_graph(src, g, x, pd, cfg, false);
    int how = src.pick({2, 1, 1, 1});
    if (how == 2) for (auto& s : g.specs) if (s->parent < 0) s->cls = 0;     // (that way of building uses the plain node class)
    bool runFirst = src.flip(), cycleBeforeSave = src.chance(1, 3), saveAgainBefore = src.flip();
    int flip = src.below(11), runs = src.range(1, 2);
    int rb = src.below(1000), engine = src.pick({2, 1});
    ctx.desc << pd << "\n" << g.str() << x.str() << "\nengine " << engine << " build " << how << " original run first=" << runFirst << " then saved=" << cycleBeforeSave << " second save before init=" << saveAgainBefore << " changed attribute " << flip << "\n";
    ctx.publish();
    rec().reset();
    TmpFile f1, f2, f3;
    dot::View v0;
    bool plain = true;
    for (auto& s : g.specs) if (s->name != "e" + std::to_string(s->id)) plain = false;
    std::vector<char> vis0; std::vector<int> loop0; std::vector<std::vector<int>> deps0;
    for (auto& s : g.specs) { vis0.push_back(s->visible); loop0.push_back(s->loop); deps0.push_back(s->deps); }
    auto rewind = [&] { for (auto& s : g.specs) { s->visible = vis0[s->id]; s->loop = loop0[s->id]; s->deps = deps0[s->id]; } };
    auto hasMut = [&] { for (auto& s : g.specs) if (s->kind == MUTABLE_K) return true; return false; };
    bool mut = hasMut();
    {
        Pipe pipe;
        GPipelinePtr p = pipe.p;
        Builder(g, p).build(how);
        p->setUniqueThreadPoolConfig(cfg);
        add_extras(g, x, p);
        CStatus st;
        auto save1 = [&] {
            st = p->save(f1.path);
            PBT_CHECK(st.isOK(), "save returned %d '%s'", st.getCode(), st.getInfo().c_str());
        };
        if (!cycleBeforeSave || mut) save1();
        if (plain) { std::ostringstream os; p->dump(os); v0 = dot::view(os.str()); }
        if (runFirst) { use_pipeline(g, x, p, cfg, "original", engine, runs); rewind(); }
        if (cycleBeforeSave && !mut) save1();
        // a pipeline that differs in one stored attribute is stored differently
        if (!mut || !runFirst) {
            TmpFile fd;
            UThreadPoolConfig c2 = cfg;
            Spec& s = g[rb % g.size()];
            const char* changed = "";
            bool did = true;
            switch (flip) {
                case 0: c2.pipeline_wait_busy_epoch_ += 17; changed = "pipeline_wait_busy_epoch_"; break;
                case 1: c2.deliver_running_primary_thread_enable_ = !c2.deliver_running_primary_thread_enable_; changed = "deliver_running_primary_thread_enable_"; break;
                case 2: c2.max_task_steal_range_ += 1; changed = "max_task_steal_range_"; break;
                case 3: c2.secondary_thread_ttl_ += 1; changed = "secondary_thread_ttl_"; break;
                case 4: c2.bind_cpu_enable_ = !c2.bind_cpu_enable_; changed = "bind_cpu_enable_"; break;
                case 5: { int k = rb % 6; int* fl[] = {&c2.max_local_batch_size_, &c2.max_pool_batch_size_, &c2.max_steal_batch_size_, &c2.primary_thread_busy_epoch_, &c2.primary_thread_policy_, &c2.secondary_thread_policy_}; *fl[k] += 1; changed = "a thread pool setting"; break; }
                case 6: { int k = rb % 5; if (k == 0) c2.primary_thread_empty_interval_ += 1; else if (k == 1) c2.queue_emtpy_interval_ += 1; else if (k == 2) c2.primary_thread_priority_ += 1; else if (k == 3) c2.secondary_thread_priority_ += 1; else c2.batch_task_enable_ = !c2.batch_task_enable_; changed = "a thread pool setting"; break; }
                case 7: if (s.kind == NODE) { s.ptr->setMacro(!s.macro); changed = "macro"; } else did = false; break;
                case 8: s.ptr->setLevel(s.level + 1); changed = "level"; break;
                case 9: s.ptr->setVisible(!s.visible); changed = "visibility"; break;
                default: s.ptr->setBindingIndex(s.binding + 3); changed = "binding"; break;
            }
            p->setUniqueThreadPoolConfig(c2);
            if (did) {
                st = p->save(fd.path);
                PBT_CHECK(st.isOK(), "save returned %d", st.getCode());
                PBT_CHECK(fd.bytes() != f1.bytes(), "the saved form does not depend on %s", changed);
                Pipe q2; TmpFile fe;
                st = q2.p->load(fd.path);
                PBT_CHECK(st.isOK(), "load of the changed pipeline returned %d '%s'", st.getCode(), st.getInfo().c_str());
                st = q2.p->save(fe.path);
                PBT_CHECK(st.isOK() && fe.sorted() == fd.sorted(), "changing %s is lost when loading (saved again: %zu bytes, was %zu)", changed, fe.bytes().size(), fd.bytes().size());
            }
        }
    }
    // load into a fresh pipeline
    auto load = [&](Pipe& q, TmpFile& f, const char* what) {
        CStatus st;
        bool threw = has_cpp_exception([&] { st = q.p->load(f.path); });
        PBT_CHECK(!threw && st.isOK(), "%s: load %s %d '%s'", what, threw ? "threw" : "returned", st.getCode(), st.getInfo().c_str());
        if (plain) { std::ostringstream os; q.p->dump(os); dot::same(dot::view(os.str()), v0, what); }
    };
    Pipe q;
    load(q, f1, "loaded pipeline");
    CStatus st;
    if (saveAgainBefore) {
        st = q.p->save(f2.path);
        PBT_CHECK(st.isOK(), "saving the loaded pipeline returned %d '%s'", st.getCode(), st.getInfo().c_str());
        PBT_CHECK(f2.sorted() == f1.sorted(), "the saved form of the loaded pipeline differs (%zu bytes, was %zu)", f2.bytes().size(), f1.bytes().size());
    }
    for (auto& s : g.specs) s->ptr = nullptr;
    use_pipeline(g, x, q.p, cfg, "loaded pipeline", engine, runs);
    rewind();
    if (!saveAgainBefore || !mut) {
        st = q.p->save(f3.path);
        PBT_CHECK(st.isOK(), "saving the loaded pipeline after use returned %d '%s'", st.getCode(), st.getInfo().c_str());
        if (!mut) PBT_CHECK(f3.sorted() == f1.sorted(), "the saved form of the loaded pipeline differs after use (%zu bytes, was %zu)", f3.bytes().size(), f1.bytes().size());
    }
    TmpFile& last = saveAgainBefore ? f2 : f3;
    if (mut && !saveAgainBefore) plain = false;     // the last reshape of the mutable groups is visible in the second file
    Pipe r;
    load(r, last, "pipeline loaded from the second file");
    if (!mut || saveAgainBefore) { use_pipeline(g, x, r.p, cfg, "pipeline loaded from the second file", engine, 1); rewind(); }
    bool grp = false;
    for (auto& s : g.specs) grp |= s->isGroup();
    ctx.nontrivial = g.size() >= 3;
    if (grp) ctx.label("with groups");
    if (!x.par.empty()) ctx.label("parameters");
    if (!x.dm.empty()) ctx.label("daemons");
    if (!x.st.empty()) ctx.label("stages");
    if (!x.ev.empty()) ctx.label("events");
    if (mut) ctx.label("mutable groups");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
