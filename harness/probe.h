// Instrumented CGraph elements, random graph/pool generators and the reference interpreter shared by the pipeline checks.
#ifndef VERIF_PROBE_H
#define VERIF_PROBE_H

#include "pbt.h"
#include "CGraph.h"
#include <functional>
#include <memory>
#include <condition_variable>

namespace pr {
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

// ---------------------------------------------------------------- event recorder
enum Ev : int { RUN_B = 0, RUN_E, INIT, DESTROY, PREPARE, CHECKRES, HOLD, MATCH, CHOOSE, RESHAPE, API_B, API_E, ASPECT, MISC, NEV };
struct Event { int type; int id; int64_t aux; uint64_t tid; };
constexpr uint32_t kEvCap = 1u << 18;
struct Recorder {
    Event* buf = new Event[kEvCap];
    std::atomic<uint8_t>* done = new std::atomic<uint8_t>[kEvCap]();
    std::atomic<uint32_t> n{0};
    void reset() {
        uint32_t v = n.load() < kEvCap ? n.load() : kEvCap;
        for (uint32_t i = 0; i < v; i++) done[i].store(0, std::memory_order_relaxed);
        n.store(0);
    }
    uint32_t add(int type, int id, int64_t aux = 0) {
        uint32_t i = n.fetch_add(1, std::memory_order_acq_rel);
        if (i < kEvCap) {
            buf[i] = Event{type, id, aux, (uint64_t)std::hash<std::thread::id>{}(std::this_thread::get_id())};
            done[i].store(1, std::memory_order_release);
        }
        if (type == API_E) sync(i);     // what is read up to here is complete
        return i;
    }
    void sync(uint32_t upto) const { for (uint32_t i = 0; i < upto && i < kEvCap; i++) while (!done[i].load(std::memory_order_acquire)) std::this_thread::yield(); }
    uint32_t size() const { uint32_t v = n.load(std::memory_order_acquire); if (v > kEvCap) v = kEvCap; sync(v); return v; }
    bool overflow() const { return n.load() >= kEvCap; }
};
inline Recorder& rec() { static Recorder r; return r; }

// ---------------------------------------------------------------- element specification
enum Kind : int { NODE = 0, CLUSTER, REGION, COND, MULTI_S, MULTI_P, SOME_K, MUTABLE_K };
inline const char* kind_name(int k) { static const char* n[] = {"node", "cluster", "region", "cond", "multiS", "multiP", "some", "mutable"}; return n[k]; }

enum Phase : int { A_BI = 0, A_FI, A_BR, A_FR, A_BD, A_FD, A_CRASH, A_TIMEOUT };
struct AspSpec {
    int failPhase = -1, failMode = 1, failCall = 0;     // begin phase that fails (1 status, 2 throw) at its failCall-th call of the current window
    int val = 0;
    int how = 0;            // 0 element with parameter, 1 element with constructor arguments, 2 added through the pipeline (by the harness)
    std::atomic<int> calls[8] = {};
    AspSpec() = default;
    AspSpec(const AspSpec& o) : failPhase(o.failPhase), failMode(o.failMode), failCall(o.failCall), val(o.val), how(o.how) {}
    void reset() { for (auto& c : calls) c = 0; }
};
// what one reshape of a mutable group does: operations in order
struct MPlan {
    struct Op { int kind, a, b; };      // 0 a-- (visible), 1 a--*b (loop), 2 a > b with a visible, 3 addDependGElements: b depends on a, 4 a.setVisible(b)
    std::vector<Op> ops;
    int fail = 0;                       // 1 returns an error, 2 throws
    std::string str() const {
        std::ostringstream o;
        static const char* n[] = {"vis ", "loop ", "link ", "dep ", "setvis "};
        for (auto& x : ops) o << n[x.kind] << x.a << (x.kind ? "," + std::to_string(x.b) : "") << "; ";
        if (fail) o << "fail" << fail;
        return o.str();
    }
};
struct Spec {
    std::vector<MPlan> plans;           // mutable groups: reshapes of the current run by call index (cyclic)
    std::atomic<int> reshapes{0};
    int mPlan = 0;
    std::vector<AspSpec> aspects;
    int id = 0;
    Kind kind = NODE;
    std::string name;
    int parent = -1;
    std::vector<int> children;      // in order
    std::vector<int> deps;          // siblings this one depends on
    int loop = 1, level = 0, binding = -1;
    bool macro = false, visible = true, parentMulti = false;
    int cls = 0;                    // which node class (0..2)
    int engine = 0;                 // regions
    // behaviour of the current run
    std::vector<int> holds;         // hold answers: number of extra repetitions for the k-th iteration (cyclic)
    std::vector<int> picks;         // choose()/isMatch() answers by call index (cyclic)
    std::vector<int> matches;       // isMatch() answers by call index (cyclic)
    int failAt = -1;                // index of the run() call in this run that fails
    int failMode = 0;               // 0 status, 1 throw
    int initFail = 0, destroyFail = 0, prepareFail = 0, checkFail = 0, holdThrow = -1;   // 1 status, 2 throw
    int delay = 0;                  // 0 none, 1 yield, 2..: spin/sleep
    int timeout = 0; int tstrategy = 0;
    // live
    GElementPtr ptr = nullptr;
    std::atomic<int> runCalls{0}, holdIter{0}, holdCnt{0}, chooseCalls{0}, matchCalls{0}, holdCalls{0};
    std::atomic<int> inflight{0}, ends{0};
    std::atomic<int> bodiesRunning{0};
    std::function<CStatus(Spec*)> body;   // extra body
    // interpreter state
    int mRun = 0, mHoldIter = 0, mChoose = 0, mMatch = 0, mIter = 0;
    void resetRun() {
        runCalls = 0; holdIter = 0; holdCnt = 0; chooseCalls = 0; matchCalls = 0; holdCalls = 0; ends = 0;
        mRun = mHoldIter = mChoose = mMatch = mIter = mPlan = 0; reshapes = 0;
        for (auto& a : aspects) a.reset();
    }
    bool mPrepared = false;
    std::vector<int> proto;   // expected protocol events of this run (interpreter)
    bool isGroup() const { return kind != NODE; }
};

inline std::string fail_msg(const Spec* s, const char* where) { return std::string("err-") + where + "-" + std::to_string(s->id); }
inline int fail_code(const Spec* s) { return -1000 - s->id; }

inline void do_delay(int d) {
    switch (d) {
        case 0: break;
        case 1: std::this_thread::yield(); break;
        case 2: { volatile int x = 0; for (int i = 0; i < 300; i++) x = x + i; (void)x; break; }
        case 3: { volatile int x = 0; for (int i = 0; i < 5000; i++) x = x + i; (void)x; break; }
        default: std::this_thread::sleep_for(std::chrono::microseconds(20 * (d - 3)));
    }
}

inline bool hold_answer(Spec* s) {
    rec().add(HOLD, s->id);
    int c = s->holdCalls++;
    if (s->holdThrow >= 0 && c == s->holdThrow) throw CException(fail_msg(s, "hold"));
    if (s->holds.empty()) { return false; }
    int want = s->holds[s->holdIter.load() % s->holds.size()];
    if (s->holdCnt.load() < want) { s->holdCnt++; return true; }
    s->holdCnt = 0; s->holdIter++;
    return false;
}
inline bool match_answer(Spec* s) {
    rec().add(MATCH, s->id);
    if (s->matches.empty()) return true;
    return s->matches[s->matchCalls++ % s->matches.size()] != 0;
}
inline CStatus prepare_answer(Spec* s) {
    rec().add(PREPARE, s->id);
    if (s->prepareFail == 2) throw CException(fail_msg(s, "prepare"));
    if (s->prepareFail == 1) return CStatus(fail_code(s), fail_msg(s, "prepare"));
    return CStatus();
}
inline CStatus check_answer(Spec* s) {
    rec().add(CHECKRES, s->id);
    if (s->checkFail == 2) throw CException(fail_msg(s, "check"));
    if (s->checkFail == 1) return CStatus(fail_code(s), fail_msg(s, "check"));
    return CStatus();
}

Spec* find_spec(const std::string& name);     // elements that were not bound (loaded ones) find their spec by name
#define PR_COMMON_OVERRIDES \
    Spec* s = nullptr; \
    CBool isMatch() override { if (!s) s = find_spec(this->getName()); return s ? match_answer(s) : true; } \
    CStatus prepareRun() override { if (!s) s = find_spec(this->getName()); return s ? prepare_answer(s) : CStatus(); } \
    CStatus checkRunResult() override { if (!s) s = find_spec(this->getName()); return s ? check_answer(s) : CStatus(); }
#define PR_HOLD CBool isHold() override { if (!s) s = find_spec(this->getName()); return s ? hold_answer(s) : false; }

class PNode;
inline std::function<void(PNode*, Spec*)>& init_hook() { static std::function<void(PNode*, Spec*)> f; return f; }
class PNode : public GNode {
public:
    virtual int cls() const { return 0; }
    CIndex binding() const { return getBindingIndex(); }
    CIndex threadIndex() { return getThreadIndex(); }
    template <class T> T* eparam(const std::string& key) { return getEParam<T>(key); }
    template <class T> T* gparam(const std::string& key) { return getGParam<T>(key); }
    CStatus event(const std::string& key, GEventType t) { return notify(key, t); }
    CStatus stage(const std::string& key) { return enterStage(key); }
    PR_COMMON_OVERRIDES
    PR_HOLD
    bool timedOut() { return isTimeout(); }
    CStatus init() override {
        if (!s) s = find_spec(this->getName());
        rec().add(INIT, s->id);
        if (init_hook()) init_hook()(this, s);
        if (s->initFail == 2) throw CException(fail_msg(s, "init"));
        if (s->initFail == 1) return CStatus(fail_code(s), fail_msg(s, "init"));
        return CStatus();
    }
    CStatus destroy() override {
        rec().add(DESTROY, s->id);
        if (s->destroyFail == 2) throw CException(fail_msg(s, "destroy"));
        if (s->destroyFail == 1) return CStatus(fail_code(s), fail_msg(s, "destroy"));
        return CStatus();
    }
    CStatus run() override {
        Spec* q = s;
        int call = q->runCalls.fetch_add(1);
        rec().add(RUN_B, q->id, call);
        if (q->inflight.fetch_add(1) != 0) pbt::failf("element %s runs concurrently with itself", q->name.c_str());
        do_delay(q->delay);
        CStatus st;
        if (q->body) st = q->body(q);
        bool bad = call == q->failAt;
        q->inflight.fetch_sub(1);
        rec().add(RUN_E, q->id, call);
        q->ends++;
        if (bad) {
            if (q->failMode == 1) throw CException(fail_msg(q, "run"));
            return CStatus(fail_code(q), fail_msg(q, "run"));
        }
        return st;
    }
};
class PNode1 : public PNode { public: int cls() const override { return 1; } };
class PNode2 : public PNode { public: int cls() const override { return 2; } };
class PCluster : public GCluster { public: PR_COMMON_OVERRIDES PR_HOLD };
class PRegion : public GRegion { public: PR_COMMON_OVERRIDES PR_HOLD };
class PCond : public GCondition {
public:
    PR_COMMON_OVERRIDES PR_HOLD
    CIndex choose() override {
        if (!s) s = find_spec(this->getName());
        rec().add(CHOOSE, s->id);
        if (s->picks.empty()) return 0;
        return s->picks[s->chooseCalls++ % s->picks.size()];
    }
};
class PMultiS : public GMultiCondition<GMultiConditionType::SERIAL> { public: PR_COMMON_OVERRIDES PR_HOLD };
class PMultiP : public GMultiCondition<GMultiConditionType::PARALLEL> { public: PR_COMMON_OVERRIDES PR_HOLD };

class PMutable : public GMutable {
public:
    PR_COMMON_OVERRIDES PR_HOLD
    CStatus reshape(GElementPtrArr& elements) override {
        if (!s) s = find_spec(this->getName());
        rec().add(RESHAPE, s->id);
        if (s->plans.empty()) return CStatus();
        MPlan& p = s->plans[s->reshapes++ % s->plans.size()];
        for (auto& o : p.ops) {
            auto& a = *elements[o.a];
            switch (o.kind) {
                case 0: a--; break;
                case 1: a-- * (CSize)o.b; break;
                case 2: a-- > elements[o.b]; break;
                case 3: { CStatus st = elements[o.b]->addDependGElements({elements[o.a]}); if (st.isErr()) pbt::failf("addDependGElements in reshape failed: %s", st.getInfo().c_str()); break; }
                case 4: a.setVisible(o.b != 0); break;
            }
        }
        if (p.fail == 2) throw CException(fail_msg(s, "reshape"));
        if (p.fail == 1) return CStatus(fail_code(s), fail_msg(s, "reshape"));
        return CStatus();
    }
};

struct Graph;
inline Graph*& cur_graph() { static Graph* g = nullptr; return g; }
Spec& spec_of(int id);
int spec_count();

class PAspParam : public GAspectParam {
public:
    int id = -1, idx = -1, val = 0;
    CVoid clone(GPassedParamPtr p) override { auto* q = dynamic_cast<PAspParam*>(p); if (q) { id = q->id; idx = q->idx; val = q->val; } }
};
class PGlobal : public GParam { public: int v = 0; CVoid reset(const CStatus&) override {} };
inline int& glob_expect() { static int v = 0; return v; }   // != 0: the pipeline owns a PGlobal "glob" with this value
template <class Base>
class AspCore : public Base {
public:
    using Base::Base;
    CStatus beginInit() override { return begin(A_BI); }
    CVoid finishInit(const CStatus& st) override { hit(A_FI, st.getCode()); }
    CStatus beginRun() override { return begin(A_BR); }
    CVoid finishRun(const CStatus& st) override { hit(A_FR, st.getCode()); }
    CStatus beginDestroy() override { return begin(A_BD); }
    CVoid finishDestroy(const CStatus& st) override { hit(A_FD, st.getCode()); }
    CVoid enterCrashed() override { hit(A_CRASH, 0); }
    CVoid enterTimeout() override { hit(A_TIMEOUT, 0); }
    virtual void who(int& id, int& idx, int& val) = 0;
private:
    AspSpec* hit(int phase, int code, int* pid = nullptr, int* pidx = nullptr) {
        int id = -1, idx = -1, val = 0;
        who(id, idx, val);
        if (id == -2) {   // added through the pipeline: one parameter for several elements
            id = atoi(this->getName().c_str() + 1);
            if (id < 0 || id >= spec_count()) pbt::failf("an aspect sees the unknown element name '%s'", this->getName().c_str());
            Spec& s = spec_of(id);
            for (size_t k = 0; k < s.aspects.size(); k++) if (s.aspects[k].val == val) idx = (int)k;
        }
        if (id < 0 || id >= spec_count()) pbt::fail("an aspect lost its parameter");
        Spec& s = spec_of(id);
        if (idx < 0 || idx >= (int)s.aspects.size() || s.aspects[idx].val != val) pbt::failf("the aspect parameter of %s is not the copy it was given", s.name.c_str());
        if (this->getName() != s.name) pbt::failf("an aspect of %s sees the element name '%s'", s.name.c_str(), this->getName().c_str());
        if (glob_expect()) {
            auto* g = this->template getGParam<PGlobal>("glob");
            if (!g || g->v != glob_expect()) pbt::failf("an aspect of %s does not see the pipeline's parameter", s.name.c_str());
        }
        rec().add(ASPECT, id, ((int64_t)code << 16) | (idx << 8) | phase);
        if (pid) { *pid = id; *pidx = idx; }
        return &s.aspects[idx];
    }
    CStatus begin(int phase) {
        int id, idx;
        AspSpec* a = hit(phase, 0, &id, &idx);
        int c = a->calls[phase]++;
        if (a->failPhase == phase && c == a->failCall) {
            std::string m = "err-asp-" + std::to_string(id) + "-" + std::to_string(idx);
            if (a->failMode == 2) throw CException(m);
            return CStatus(-5000 - id * 16 - idx, m);
        }
        return CStatus();
    }
};
class PAspect : public AspCore<GAspect> {
public:
    void who(int& id, int& idx, int& val) override {
        auto* p = getAParam<PAspParam>();
        if (p) { id = p->id; idx = p->idx; val = p->val; }
    }
};
class PTAspect : public AspCore<GTemplateAspect<int, int, int>> {
public:
    explicit PTAspect(int a, int b, int c) : a_(a), b_(b), c_(c) {}
    void who(int& id, int& idx, int& val) override { id = a_; idx = b_; val = c_; }
    int a_, b_, c_;
};
inline int asp_phase(int64_t aux) { return aux & 0xff; }
inline int asp_idx(int64_t aux) { return (aux >> 8) & 0xff; }
inline int asp_code(int64_t aux) { return (int)(aux >> 16); }

inline void bind_spec(GElementPtr e, Spec* s) {
    s->ptr = e;
    switch (s->kind) {
        case NODE: static_cast<PNode*>(e)->s = s; break;
        case CLUSTER: static_cast<PCluster*>(e)->s = s; break;
        case REGION: static_cast<PRegion*>(e)->s = s; break;
        case COND: static_cast<PCond*>(e)->s = s; break;
        case MULTI_S: static_cast<PMultiS*>(e)->s = s; break;
        case MULTI_P: static_cast<PMultiP*>(e)->s = s; break;
        case MUTABLE_K: static_cast<PMutable*>(e)->s = s; break;
        default: break;
    }
}

// ---------------------------------------------------------------- graph
struct Graph {
    std::vector<std::unique_ptr<Spec>> specs;
    std::vector<int> top;
    Spec& operator[](int i) { return *specs[i]; }
    size_t size() const { return specs.size(); }
    void resetRun() { for (auto& s : specs) { s->resetRun(); s->proto.clear(); } }
    void resetInit() { for (auto& s : specs) s->mPrepared = false; }
    std::vector<int> ancestors(int id) { std::vector<int> r; for (int p = specs[id]->parent; p >= 0; p = specs[p]->parent) r.push_back(p); return r; }
    std::string str() {
        std::ostringstream o;
        std::function<void(int, int)> one = [&](int id, int ind) {
            Spec& s = *specs[id];
            o << std::string(ind * 2, ' ') << s.name << ":" << kind_name(s.kind);
            if (!s.deps.empty()) { o << " <-"; for (int d : s.deps) o << " " << specs[d]->name; }
            if (s.loop != 1) o << " loop=" << s.loop;
            if (s.level) o << " level=" << s.level;
            if (s.binding != -1) o << " bind=" << s.binding;
            if (s.macro) o << " macro";
            if (!s.visible) o << " invisible";
            if (s.kind == REGION) o << " engine=" << s.engine;
            auto vec = [&](const char* n, const std::vector<int>& v) { if (!v.empty()) { o << " " << n << "=["; for (size_t i = 0; i < v.size(); i++) o << (i ? "," : "") << v[i]; o << "]"; } };
            vec("holds", s.holds); vec("picks", s.picks); vec("matches", s.matches);
            if (s.failAt >= 0) o << " fail@" << s.failAt << (s.failMode ? "(throw)" : "(status)");
            if (s.timeout) o << " timeout=" << s.timeout << "/" << s.tstrategy;
            auto fl = [&](const char* n, int v) { if (v) o << " " << n << (v == 2 ? "(throw)" : "(status)"); };
            fl("initFail", s.initFail); fl("destroyFail", s.destroyFail); fl("prepareFail", s.prepareFail); fl("checkFail", s.checkFail);
            if (s.holdThrow >= 0) o << " holdThrow@" << s.holdThrow;
            for (auto& a : s.aspects) { o << " aspect"; if (a.failPhase >= 0) o << "{fail phase " << a.failPhase << "@" << a.failCall << (a.failMode == 2 ? "(throw)" : "(status)") << "}"; }
            if (s.delay) o << " delay=" << s.delay;
            o << "\n";
            for (int c : s.children) one(c, ind + 1);
        };
        for (int t : top) one(t, 0);
        return o.str();
    }
};

inline Spec& spec_of(int id) { return (*cur_graph())[id]; }
inline int spec_count() { return (int)cur_graph()->size(); }
inline Spec* find_spec(const std::string& name) {
    if (!cur_graph() || name.size() < 2 || name[0] != 'e') return nullptr;
    int id = atoi(name.c_str() + 1);
    return id >= 0 && id < spec_count() && spec_of(id).name == name ? &spec_of(id) : nullptr;
}

struct GenOpts {
    int minTop = 1, maxTop = 10;          // elements per dag level
    int maxDepth = 2;
    int groupNum = 1, groupDen = 6;       // probability of a group at depth < maxDepth
    std::vector<int> kinds = {CLUSTER, REGION, COND, MULTI_S, MULTI_P};
    bool loops = true, holds = false, levels = true, bindings = true, macros = true, invisible = true, delays = true, engines = true;
    bool groupLoops = true, groupHolds = true;
    int maxTotal = 40;
};

// Random DAG over n vertices: index order is topological before the permutation applied by the caller.
inline std::vector<std::vector<int>> gen_dag(Src& src, int n) {
    std::vector<std::vector<int>> deps(n);
    if (n <= 1) return deps;
    int style = src.pick({3, 2, 2, 2, 2, 2, 2, 2, 2, 1});
    auto add = [&](int from, int to) { for (int d : deps[to]) if (d == from) return; deps[to].push_back(from); };
    switch (style) {
        case 0: {   // uniform density
            int den = src.range(1, 9);
            for (int j = 1; j < n; j++) for (int i = 0; i < j; i++) if ((int)src.below(10) < den) add(i, j);
            break;
        }
        case 1: for (int j = 1; j < n; j++) add(j - 1, j); break;                    // chain
        case 2: break;                                                                // all parallel
        case 3: for (int j = 1; j < n; j++) add((int)src.below(j), j); break;          // out-tree
        case 4: for (int i = 0; i < n - 1; i++) add(i, i + 1 + (int)src.below(n - 1 - i)); break;   // in-tree
        case 5: {   // layered
            int w = src.range(1, 4);
            for (int j = w; j < n; j++) { int base = (j / w - 1) * w; for (int k = 0; k < w; k++) if (src.chance(2, 3)) add(base + k, j); }
            break;
        }
        case 6: {   // parallel chains joined
            int w = src.range(2, 4);
            for (int j = w; j < n - 1; j++) add(j - w, j);
            for (int j = (n - 1 - w > 0 ? n - 1 - w : 0); j < n - 1; j++) if (src.chance(3, 4)) add(j, n - 1);
            break;
        }
        case 7: {   // diamonds
            int i = 0;
            while (i + 3 < n) { add(i, i + 1); add(i, i + 2); add(i + 1, i + 3); add(i + 2, i + 3); i += 3; }
            break;
        }
        case 8: {   // fan-out then fan-in plus isolated
            for (int j = 1; j < n - 1; j++) { if (src.chance(3, 4)) add(0, j); if (src.chance(3, 4)) add(j, n - 1); }
            break;
        }
        case 9: {   // complete
            for (int j = 1; j < n; j++) for (int i = 0; i < j; i++) add(i, j);
            break;
        }
    }
    int extra = src.pick({3, 1, 1, 1});
    for (int k = 0; k < extra && n > 1; k++) { int j = src.range(1, n - 1); add((int)src.below(j), j); }
    return deps;
}

class Gen {
public:
    Gen(Src& s, Graph& g, GenOpts o) : src(s), g(g), o(o) {}
    void build() {
        cur_graph() = &g;
        int n = src.sized(o.minTop, o.maxTop);
        g.top = level(-1, n, 0, true);
    }
    // elements of one level; dag = with dependencies
    std::vector<int> level(int parent, int n, int depth, bool dag) {
        std::vector<int> ids;
        for (int i = 0; i < n; i++) ids.push_back(element(parent, depth));
        if (dag) {
            auto deps = gen_dag(src, n);
            // permute so that registration order is not the topological order of the style
            for (int j = 0; j < n; j++) for (int d : deps[j]) g[ids[j]].deps.push_back(ids[d]);
        }
        return ids;
    }
    int element(int parent, int depth) {
        int id = (int)g.specs.size();
        g.specs.emplace_back(new Spec());
        Spec& s = g[id];
        s.id = id;
        s.parent = parent;
        s.name = "e" + std::to_string(id);
        bool group = depth < o.maxDepth && (int)g.specs.size() < o.maxTotal && !o.kinds.empty() && src.chance(o.groupNum, o.groupDen);
        if (group) s.kind = (Kind)o.kinds[src.below(o.kinds.size())];
        if (o.loops && (!group || o.groupLoops)) s.loop = src.pick({8, 1, 2, 1}) == 0 ? 1 : src.pick({2, 2, 1}) == 2 ? 0 : src.range(2, 3);
        if (o.levels) s.level = src.chance(1, 3) ? src.range(-3, 3) : 0;
        if (o.macros) { bool m = src.chance(1, 8); s.macro = m && !group; }
        if (o.invisible) s.visible = !src.chance(1, 16);
        if (!group && o.bindings && src.chance(1, 6)) s.binding = src.pick({1, 1, 1, 1}) == 0 ? -2 : src.range(0, 9);
        if (!group && o.delays) s.delay = src.pick({10, 3, 3, 2, 2}) ; if (s.delay == 4) s.delay = src.range(4, 8);
        if (o.holds && (!group || o.groupHolds) && src.chance(1, 5)) { int k = src.range(1, 3); for (int i = 0; i < k; i++) g[id].holds.push_back(src.range(0, 2)); }
        if (group) {
            Kind kd = g[id].kind;
            if (o.engines && kd == REGION) g[id].engine = src.pick({3, 1, 1});
            int n = src.sized(kd == REGION ? 1 : 1, 5);
            auto ch = level(id, n, depth + 1, kd == REGION);
            g[id].children = ch;
            if (kd == COND) { int k = src.range(1, 3); for (int i = 0; i < k; i++) g[id].picks.push_back(src.range(-2, n)); }
            if (kd == MULTI_S || kd == MULTI_P) for (int c : ch) { g[c].parentMulti = true; int k = src.range(1, 3); for (int i = 0; i < k; i++) g[c].matches.push_back(src.chance(2, 3) ? 1 : 0); }
        }
        return id;
    }
    Src& src; Graph& g; GenOpts o;
};

// number of threads that may be blocked at once waiting for children in the pool
inline int blocking_groups(Graph& g) {
    int n = 0;
    for (auto& s : g.specs) {
        if (s->kind == REGION || s->kind == MULTI_P || s->kind == SOME_K || s->kind == MUTABLE_K) n++;
        if (s->timeout > 0) n++;
    }
    return n;
}

// A configuration the pipeline accepts; `need` threads may block waiting for work queued behind them.
inline UThreadPoolConfig gen_pool(Src& src, int need, std::string& d) {
    UThreadPoolConfig c;
    int prim;
    bool noPrimary = src.chance(1, 16);
    int style = src.pick({2, 3, 2});
    if (style == 0) prim = need + 1;
    else if (style == 1) prim = need + 1 + src.range(0, 3);
    else prim = need + 1 + src.range(0, 7);
    c.secondary_thread_size_ = src.pick({4, 1, 1});
    if (noPrimary) { c.default_thread_size_ = 0; c.secondary_thread_size_ = need + 1 + src.range(0, 2); }
    else c.default_thread_size_ = prim;
    c.max_thread_size_ = c.default_thread_size_ + c.secondary_thread_size_ + src.pick({3, 1, 1}) * 2;
    if (c.max_thread_size_ < 1) c.max_thread_size_ = 1;
    c.max_task_steal_range_ = need > 0 ? 1000 : src.pick({4, 1, 1, 1}) == 0 ? 7 : src.range(0, prim);
    c.batch_task_enable_ = src.chance(1, 3);
    c.max_local_batch_size_ = src.range(1, 4);
    c.max_pool_batch_size_ = src.range(1, 4);
    c.max_steal_batch_size_ = src.range(1, 4);
    c.pipeline_wait_busy_epoch_ = src.pick({4, 2, 1, 1}) == 0 ? 0 : (src.flip() ? src.range(1, 20) : 2000);
    c.primary_thread_busy_epoch_ = src.pick({3, 1, 1}) == 0 ? 3 : src.range(0, 40);
    c.primary_thread_empty_interval_ = src.pick({2, 1, 1}) == 0 ? 10 : src.range(1, 30);
    c.queue_emtpy_interval_ = src.range(1, 15);
    c.deliver_running_primary_thread_enable_ = src.chance(1, 4);
    c.bind_cpu_enable_ = src.chance(1, 16);
    std::ostringstream o;
    o << "pool{prim=" << c.default_thread_size_ << " sec=" << c.secondary_thread_size_ << " max=" << c.max_thread_size_
      << " steal=" << c.max_task_steal_range_ << " batch=" << c.batch_task_enable_ << "/" << c.max_local_batch_size_ << "/" << c.max_pool_batch_size_
      << "/" << c.max_steal_batch_size_ << " waitBusy=" << c.pipeline_wait_busy_epoch_ << " busy=" << c.primary_thread_busy_epoch_
      << " empty=" << c.primary_thread_empty_interval_ << " deliver=" << c.deliver_running_primary_thread_enable_ << "}";
    d = o.str();
    return c;
}
inline GEngineType engine_type(int e) { return e == 0 ? GEngineType::DYNAMIC : e == 1 ? GEngineType::STATIC : GEngineType::TOPO; }

// ---------------------------------------------------------------- construction in a pipeline
class Builder {
public:
    Builder(Graph& g, GPipelinePtr p) : g(g), p(p) {}
    // how: 0 registerGElement with dependencies, 1 register all then addDependGElements, 2 create + registerGNode, 3 operator syntax
    void build(int how) {
        std::vector<int> order = topo(g.top);
        for (int id : order) {
            Spec& s = g[id];
            GElementPtrSet deps;
            if (how == 0 || how == 2) for (int d : s.deps) deps.insert(g[d].ptr);
            CStatus st;
            if (s.kind == NODE) {
                if (how == 2) {
                    auto* n = p->createGNode<PNode>(GNodeInfo(s.name + "x", 1));
                    GElementPtr e = n;
                    st = p->registerGNode(&e, deps, s.name, s.loop);
                    bind_spec(e, &s);
                } else {
                    GElementPtr e = nullptr;
                    st = s.cls == 1 ? p->registerGElement<PNode1>(&e, deps, s.name, s.loop) : s.cls == 2 ? p->registerGElement<PNode2>(&e, deps, s.name, s.loop) : p->registerGElement<PNode>(&e, deps, s.name, s.loop);
                    bind_spec(e, &s);
                }
            } else {
                GElementPtr e = make_group(id, {}, s.name);
                if (how == 2) st = p->registerGGroup(&e, deps, s.name, s.loop);
                else st = reg_group(s, e, deps);
            }
            PBT_CHECK(st.isOK(), "registering %s failed: %s", s.name.c_str(), st.getInfo().c_str());
        }
        if (how == 1) for (int id : order) {
            Spec& s = g[id];
            GElementPtrSet deps;
            for (int d : s.deps) deps.insert(g[d].ptr);
            CStatus st = s.ptr->addDependGElements(deps);
            PBT_CHECK(st.isOK(), "addDependGElements on %s failed: %s", s.name.c_str(), st.getInfo().c_str());
        }
        if (how == 3) for (int id : order) {
            Spec& s = g[id];
            for (int d : s.deps) (*g[d].ptr)-- > s.ptr;
        }
        for (auto& sp : g.specs) config(*sp);
    }
    void config(Spec& s) {
        if (s.level) s.ptr->setLevel(s.level);
        if (s.binding != -1) s.ptr->setBindingIndex(s.binding);
        if (s.macro) s.ptr->setMacro(true);
        if (!s.visible) s.ptr->setVisible(false);
        if (s.timeout) s.ptr->setTimeout(s.timeout, (GElementTimeoutStrategy)s.tstrategy);
        for (size_t i = 0; i < s.aspects.size(); i++) {
            if (s.aspects[i].how == 2) continue;
            if (s.aspects[i].how == 1) { s.ptr->addGAspect<PTAspect, int, int, int>(s.id, (int)i, s.aspects[i].val); continue; }
            PAspParam ap; ap.id = s.id; ap.idx = (int)i; ap.val = s.aspects[i].val;
            s.ptr->addGAspect<PAspect, PAspParam>(&ap);
            ap.id = -7; ap.val = -7;
        }
    }
    CStatus reg_group(Spec& s, GElementPtr& e, const GElementPtrSet& deps) {
        switch (s.kind) {
            case CLUSTER: return p->registerGElement<PCluster>(&e, deps, s.name, s.loop);
            case REGION: return p->registerGElement<PRegion>(&e, deps, s.name, s.loop);
            case COND: return p->registerGElement<PCond>(&e, deps, s.name, s.loop);
            case MULTI_S: return p->registerGElement<PMultiS>(&e, deps, s.name, s.loop);
            case MUTABLE_K: return p->registerGElement<PMutable>(&e, deps, s.name, s.loop);
            default: return p->registerGElement<PMultiP>(&e, deps, s.name, s.loop);
        }
    }
    GElementPtr make(int id, const GElementPtrSet& deps) {
        Spec& s = g[id];
        if (s.kind == NODE) {
            GNodeInfo ni(deps, s.name, s.loop);
            GElementPtr e = s.cls == 1 ? (GElementPtr)p->createGNode<PNode1>(ni) : s.cls == 2 ? (GElementPtr)p->createGNode<PNode2>(ni) : (GElementPtr)p->createGNode<PNode>(ni);
            bind_spec(e, &s);
            return e;
        }
        return make_group(id, deps, s.name);
    }
    GElementPtr make_group(int id, const GElementPtrSet& deps, const std::string& name) {
        Spec& s = g[id];
        for (int c : topo(s.children)) {
            GElementPtrSet cd;
            for (int d : g[c].deps) cd.insert(g[d].ptr);
            make(c, cd);
        }
        GElementPtrArr arr;
        for (int c : s.children) arr.push_back(g[c].ptr);
        GElementPtr e = nullptr;
        switch (s.kind) {
            case CLUSTER: e = p->createGGroup<PCluster>(arr, deps, name, s.loop); break;
            case REGION: { auto* r = p->createGGroup<PRegion>(arr, deps, name, s.loop); r->setGEngineType(engine_type(s.engine)); e = r; break; }
            case COND: e = p->createGGroup<PCond>(arr, deps, name, s.loop); break;
            case MULTI_S: e = p->createGGroup<PMultiS>(arr, deps, name, s.loop); break;
            case MUTABLE_K: e = p->createGGroup<PMutable>(arr, deps, name, s.loop); break;
            default: e = p->createGGroup<PMultiP>(arr, deps, name, s.loop); break;
        }
        bind_spec(e, &s);
        return e;
    }
    std::vector<int> topo(const std::vector<int>& ids) {
        std::vector<int> r; std::set<int> done;
        while (r.size() < ids.size()) {
            size_t before = r.size();
            for (int id : ids) {
                if (done.count(id)) continue;
                bool ok = true;
                for (int d : g[id].deps) if (!done.count(d)) ok = false;
                if (ok) { r.push_back(id); done.insert(id); }
            }
            if (r.size() == before) pbt::fail("harness: cyclic spec");
        }
        return r;
    }
    Graph& g; GPipelinePtr p;
};

// ---------------------------------------------------------------- reference interpreter
struct Act {
    enum T { LEAF, SEQ, PAR, DAG } t = SEQ;
    int leaf = -1, call = 0, owner = -1;
    std::vector<std::unique_ptr<Act>> ch;
    std::vector<std::vector<int>> deps;   // DAG: indices into ch
    bool bad = false;                     // this step fails
};
using ActP = std::unique_ptr<Act>;

class Interp {
public:
    explicit Interp(Graph& g) : g(g) {}
    ActP run() { return dag(g.top); }
    ActP dag(const std::vector<int>& ids) {
        ActP a(new Act()); a->t = Act::DAG;
        std::map<int, int> pos;
        // topological so that the checker can go in index order
        std::set<int> done; std::vector<int> order;
        while (order.size() < ids.size()) for (int id : ids) {
            if (done.count(id)) continue;
            bool ok = true;
            for (int d : g[id].deps) if (!done.count(d)) ok = false;
            if (ok) { order.push_back(id); done.insert(id); }
        }
        for (int id : order) {
            pos[id] = (int)a->ch.size();
            std::vector<int> dv;
            for (int d : g[id].deps) dv.push_back(pos[d]);
            a->ch.push_back(exec(id));
            a->deps.push_back(dv);
        }
        return a;
    }
    ActP exec(int id) {
        Spec& s = g[id];
        ActP a(new Act());
        a->owner = id;
        if (!s.visible) return a;
        if (!s.mPrepared) { s.mPrepared = true; s.proto.push_back(PREPARE); }
        for (int i = 0; i < s.loop; i++) {
            s.mIter++;
            for (;;) {
                a->ch.push_back(body(id));
                if (s.kind == NODE) { s.proto.push_back(RUN_B); s.proto.push_back(RUN_E); }
                s.proto.push_back(HOLD);
                if (s.holds.empty()) break;
                int want = s.holds[s.mHoldIter % s.holds.size()];
                bool again = holdLeft(id, want);
                if (!again) break;
            }
        }
        s.proto.push_back(CHECKRES);
        return a;
    }
    ActP body(int id) {
        Spec& s = g[id];
        ActP a(new Act());
        switch (s.kind) {
            case NODE: a->t = Act::LEAF; a->leaf = id; a->call = s.mRun++; break;
            case CLUSTER: for (int c : s.children) a->ch.push_back(exec(c)); break;
            case REGION: return dag(s.children);
            case MUTABLE_K: {
                for (int c : s.children) { g[c].visible = false; g[c].loop = 1; g[c].deps.clear(); }
                if (s.plans.empty()) break;
                MPlan& p = s.plans[s.mPlan++ % s.plans.size()];
                auto dep = [&](int a, int b) {
                    if (a == b) return;
                    for (int d : g[b].deps) if (d == a) return;
                    g[b].deps.push_back(a);
                };
                for (auto& o : p.ops) {
                    int x = s.children[o.a];
                    switch (o.kind) {
                        case 0: g[x].visible = true; break;
                        case 1: g[x].visible = true; g[x].loop = o.b; break;
                        case 2: g[x].visible = true; g[s.children[o.b]].visible = true; dep(x, s.children[o.b]); break;
                        case 3: dep(x, s.children[o.b]); break;
                        case 4: g[x].visible = o.b != 0; break;
                    }
                }
                if (p.fail || cyclic(s.children)) { a->bad = true; break; }
                return dag(s.children);
            }
            case COND: {
                int k = s.picks.empty() ? 0 : s.picks[s.mChoose++ % s.picks.size()];
                if (k == -1) k = (int)s.children.size() - 1;
                if (k >= 0 && k < (int)s.children.size()) a->ch.push_back(exec(s.children[k]));
                break;
            }
            case MULTI_S: case MULTI_P:
                a->t = s.kind == MULTI_P ? Act::PAR : Act::SEQ;
                for (int c : s.children) {
                    Spec& cs = g[c];
                    bool m = cs.matches.empty() ? true : cs.matches[cs.mMatch++ % cs.matches.size()] != 0;
                    if (m) a->ch.push_back(exec(c));
                }
                break;
            default: break;
        }
        return a;
    }
    bool cyclic(const std::vector<int>& ids) {
        std::set<int> done;
        for (bool grow = true; grow;) {
            grow = false;
            for (int id : ids) if (!done.count(id)) {
                bool ok = true;
                for (int d : g[id].deps) if (!done.count(d)) ok = false;
                if (ok) { done.insert(id); grow = true; }
            }
        }
        return done.size() != ids.size();
    }
    Graph& g;
    std::map<int, int> cnt;
private:
    bool holdLeft(int id, int want) {
        int& c = cnt[id];
        if (c < want) { c++; return true; }
        c = 0; g[id].mHoldIter++;
        return false;
    }
};

// Compare the events in (from, to) with the interpretation of a run without failures.
inline void check_full_run(Graph& g, uint32_t from, uint32_t to, const char* what) {
    std::vector<std::vector<std::pair<int64_t, int64_t>>> iv(g.size());
    for (uint32_t i = from; i < to; i++) {
        const Event& e = rec().buf[i];
        if (e.type == RUN_B) {
            PBT_CHECK((int64_t)iv[e.id].size() == e.aux, "%s: call order of %s broken", what, g[e.id].name.c_str());
            iv[e.id].push_back({i, -1});
        } else if (e.type == RUN_E) {
            PBT_CHECK(e.aux < (int64_t)iv[e.id].size(), "%s: stray end of %s", what, g[e.id].name.c_str());
            iv[e.id][e.aux].second = i;
        }
    }
    Interp in(g);
    ActP root = in.run();
    for (auto& sp : g.specs) {
        if (sp->kind != NODE) continue;
        PBT_CHECK((int)iv[sp->id].size() == sp->mRun, "%s: %s ran %d times, expected %d", what, sp->name.c_str(), (int)iv[sp->id].size(), sp->mRun);
        for (auto& x : iv[sp->id]) PBT_CHECK(x.second >= 0, "%s: %s had not finished when run returned", what, sp->name.c_str());
    }
    std::function<int64_t(Act*, int64_t, int)> chk = [&](Act* a, int64_t lb, int blame) -> int64_t {
        switch (a->t) {
            case Act::LEAF: {
                auto x = iv[a->leaf][a->call];
                PBT_CHECK(x.first > lb, "%s: call %d of %s started before something it must follow had finished (event %lld, bound %lld, %s)",
                          what, a->call, g[a->leaf].name.c_str(), (long long)x.first, (long long)lb,
                          lb >= 0 && lb < to ? ("bound is " + g[rec().buf[lb].id].name).c_str() : "");
                return x.second > lb ? x.second : lb;
            }
            case Act::SEQ: { for (auto& c : a->ch) lb = chk(c.get(), lb, blame); return lb; }
            case Act::PAR: { int64_t e = lb; for (auto& c : a->ch) { int64_t v = chk(c.get(), lb, blame); if (v > e) e = v; } return e; }
            case Act::DAG: {
                std::vector<int64_t> ends(a->ch.size());
                int64_t all = lb;
                for (size_t i = 0; i < a->ch.size(); i++) {
                    int64_t b = lb;
                    for (int d : a->deps[i]) if (ends[d] > b) b = ends[d];
                    ends[i] = chk(a->ch[i].get(), b, blame);
                    if (ends[i] > all) all = ends[i];
                }
                return all;
            }
        }
        return lb;
    };
    chk(root.get(), -1, -1);
}

// Intervals of every leaf in (from, to); checks call order and that everything started has ended.
using Intervals = std::vector<std::vector<std::pair<int64_t, int64_t>>>;
inline Intervals intervals(Graph& g, uint32_t from, uint32_t to, const char* what) {
    Intervals iv(g.size());
    for (uint32_t i = from; i < to; i++) {
        const Event& e = rec().buf[i];
        if (e.type == RUN_B) {
            PBT_CHECK((int64_t)iv[e.id].size() == e.aux, "%s: call order of %s broken (call %lld after %zu calls in this run)", what, g[e.id].name.c_str(), (long long)e.aux, iv[e.id].size());
            iv[e.id].push_back({i, -1});
        } else if (e.type == RUN_E) {
            PBT_CHECK(e.aux < (int64_t)iv[e.id].size(), "%s: stray end of %s", what, g[e.id].name.c_str());
            iv[e.id][e.aux].second = i;
        }
    }
    for (auto& sp : g.specs) for (auto& x : iv[sp->id]) PBT_CHECK(x.second >= 0, "%s: %s was still executing when run returned", what, sp->name.c_str());
    return iv;
}

// A run in which something failed: whatever started must have had everything before it complete, nobody runs more often than expected.
// `failed`: elements that failed outside their body (they count as not complete)
inline void check_partial_run(Graph& g, const Intervals& iv, const char* what, const std::set<int>* failed = nullptr) {
    Interp in(g);
    ActP root = in.run();
    struct R { bool started = false, complete = true; int64_t minS = INT64_MAX, maxE = -1; };
    for (auto& sp : g.specs) if (sp->kind == NODE)
        PBT_CHECK((int)iv[sp->id].size() <= sp->mRun, "%s: %s ran %d times, at most %d expected", what, sp->name.c_str(), (int)iv[sp->id].size(), sp->mRun);
    std::function<R(Act*)> chk = [&](Act* a) -> R {
        R r;
        auto merge = [&](const R& x) { r.started |= x.started; r.complete &= x.complete; r.minS = std::min(r.minS, x.minS); r.maxE = std::max(r.maxE, x.maxE); };
        switch (a->t) {
            case Act::LEAF:
                if (a->call < (int)iv[a->leaf].size()) { r.started = true; r.minS = iv[a->leaf][a->call].first; r.maxE = iv[a->leaf][a->call].second; }
                else r.complete = false;
                if (a->call == g[a->leaf].failAt) r.complete = false;
                break;
            case Act::SEQ: case Act::PAR:
                for (auto& c : a->ch) {
                    R x = chk(c.get());
                    if (a->t == Act::SEQ && x.started)
                        PBT_CHECK(r.complete && x.minS > r.maxE, "%s: a step started before the step it follows had completed", what);
                    merge(x);
                }
                break;
            case Act::DAG: {
                std::vector<R> rs;
                for (size_t i = 0; i < a->ch.size(); i++) {
                    R x = chk(a->ch[i].get());
                    for (int d : a->deps[i]) {
                        if (x.started) PBT_CHECK(rs[d].complete && x.minS > rs[d].maxE, "%s: an element started before an element it depends on had completed", what);
                    }
                    merge(x);
                    for (int d : a->deps[i]) { x.complete &= rs[d].complete; x.maxE = std::max(x.maxE, rs[d].maxE); }
                    rs.push_back(x);
                }
                break;
            }
        }
        if (a->bad) r.complete = false;
        if (failed && a->owner >= 0 && failed->count(a->owner)) r.complete = false;
        return r;
    };
    chk(root.get());
}

inline int total_expected(Graph& g) { int n = 0; for (auto& s : g.specs) n += s->mRun; return n; }

// transitive dependents of `id` among siblings, and of each ancestor: everything that must not start after a failure of id
inline std::set<int> must_not_start(Graph& g, int id) {
    std::set<int> out;
    std::function<void(int)> sub = [&](int x) { out.insert(x); for (int c : g[x].children) sub(c); };
    int cur = id;
    for (;;) {
        int par = g[cur].parent;
        const std::vector<int>& sib = par < 0 ? g.top : g[par].children;
        if (par < 0 || g[par].kind == REGION) {
            std::set<int> reach{cur};
            bool grow = true;
            while (grow) { grow = false; for (int x : sib) if (!reach.count(x)) for (int d : g[x].deps) if (reach.count(d)) { reach.insert(x); grow = true; break; } }
            for (int x : reach) if (x != cur) sub(x);
        } else if (g[par].kind == CLUSTER || g[par].kind == MULTI_S) {
            bool after = false;
            for (int x : sib) { if (after) sub(x); if (x == cur) after = true; }
        }
        if (par < 0) break;
        cur = par;
    }
    return out;
}

struct Pipe {   // owned pipeline
    GPipelinePtr p;
    Pipe() : p(GPipelineFactory::create()) {}
    ~Pipe() { if (p) { GPipelineFactory::remove(p); p = nullptr; } }
};

inline bool has_cpp_exception(const std::function<void()>& f, std::string* what = nullptr) {
    try { f(); } catch (const CException& e) { if (what) *what = e.what(); return true; }
    return false;
}

}  // namespace pr
#endif
