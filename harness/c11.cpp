// C11: shared parameters behave as a typed map with a per-run life cycle.
#include "pbt.h"
#include "CGraph.h"
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

struct Obj { int type; std::string key; bool alive = true; int setups = 0, resets = 0, inits = 0, destroys = 0; int resetCode = 0; std::string resetInfo; bool failSetup = false; bool failInit = false; uint64_t lastSetup = 0, lastReset = 0; };
static std::vector<Obj>* objs;
static std::mutex objMtx;
static std::atomic<uint64_t> tick{0};

template <int T>
class P : public GParam {
public:
    int id, value = 0;
    P() { std::lock_guard<std::mutex> l(objMtx); id = (int)objs->size(); objs->push_back(Obj()); objs->back().type = T; }
    ~P() override { std::lock_guard<std::mutex> l(objMtx); if (!(*objs)[id].alive) pbt::failf("param %d destroyed twice", id); (*objs)[id].alive = false; }
    CStatus init() override { auto& o = me(); o.inits++; return o.failInit ? CStatus(-77, "init refused") : CStatus(); }
    CStatus destroy() override { me().destroys++; return CStatus(); }
    CStatus setup() override { auto& o = me(); o.setups++; o.lastSetup = ++tick; return o.failSetup ? CStatus(-4000 - id, "setup-" + std::to_string(id)) : CStatus(); }
    CVoid reset(const CStatus& st) override { auto& o = me(); o.resets++; o.lastReset = ++tick; o.resetCode = st.getCode(); o.resetInfo = st.getInfo(); }
private:
    Obj& me() { std::lock_guard<std::mutex> l(objMtx); if (!(*objs)[id].alive) pbt::fail("callback on a destroyed param"); return (*objs)[id]; }
};
class D0 : public P<3> { };   // never created under another type's key by accident: a distinct exact type

// type 0..2: P<0..2>; type 3: a class derived from P<3>; type 4: its base, only asked for
struct Op { int kind, key, type, val; };   // 0 create 1 get 2 getNoEmpty 3 remove 4 keys 5 write 6 read 7 create with backtrace 8 concerned keys
static const char* opn[] = {"create", "get", "getOrThrow", "remove", "keys", "write", "read", "createBt", "concerned"};
static const int kKeys = 4;
static const std::string keyOf(int k) { static const char* n[] = {"a", "b", "", "a b\"c"}; return n[k]; }

struct Res { int code = 0; int id = -1; int val = 0; bool thrown = false; std::set<std::string> keys; bool operator==(const Res& o) const { return code == o.code && id == o.id && val == o.val && thrown == o.thrown && keys == o.keys; }
    std::string str() const { std::string s = "code=" + std::to_string(code) + " id=" + std::to_string(id) + " val=" + std::to_string(val) + (thrown ? " thrown" : "") + " keys:"; for (auto& k : keys) s += "[" + k + "]"; return s; } };

template <class T, class W> static Res doOpT(W* w, const Op& o) {
    Res r;
    std::string k = keyOf(o.key);
    switch (o.kind) {
        case 0: r.code = w->template createGParam<T>(k).getCode(); break;
        case 7: r.code = w->template createGParam<T>(k, true).getCode(); break;
        case 1: { T* p = w->template getGParam<T>(k); r.id = p ? p->id : -1; if (p && p->getKey() != k) pbt::fail("the param reports another key"); break; }
        case 2: try { T* p = w->template getGParamWithNoEmpty<T>(k); r.id = p ? p->id : -2; } catch (const CException&) { r.thrown = true; } break;
        case 3: r.code = w->removeGParam(k).getCode(); break;
        case 4: for (auto& x : w->getGParamKeys()) { if (!r.keys.insert(x).second) pbt::fail("a key is listed twice"); } break;
        case 5: { T* p = w->template getGParam<T>(k); r.id = p ? p->id : -1; if (p) { p->lock(); p->value = o.val; p->unlock(); } break; }
        case 6: { T* p = w->template getGParam<T>(k); r.id = p ? p->id : -1; if (p) { CGRAPH_PARAM_READ_CODE_BLOCK(p); r.val = p->value; } break; }
        case 8: for (auto& x : w->getConcernedGParamKeys()) { if (!r.keys.insert(x).second) pbt::fail("a used key is listed twice"); } break;
    }
    return r;
}
template <class W> static Res doOp(W* w, const Op& o) {
    switch (o.type) { case 0: return doOpT<P<0>>(w, o); case 1: return doOpT<P<1>>(w, o); case 2: return doOpT<P<2>>(w, o); case 3: return doOpT<D0>(w, o); default: return doOpT<P<3>>(w, o); }
}

// model
struct Model {
    std::map<std::string, std::pair<int, int>> m;   // key -> (type, id)
    std::map<int, int> val;
    int next = 0;
    std::map<int, std::set<std::string>> used;   // by caller (-1: the pipeline)
    Res apply(const Op& o, int who) {
        Res r;
        std::string k = keyOf(o.key);
        auto it = m.find(k);
        int id = it != m.end() && it->second.first == o.type ? it->second.second : -1;
        switch (o.kind) {
            case 0: case 7: if (it == m.end()) { m[k] = {o.type, next}; val[next] = 0; next++; } else if (it->second.first != o.type) r.code = -1; break;
            case 8: r.keys = used[who]; break;
            case 1: r.id = id; break;
            case 2: if (id < 0) r.thrown = true; else r.id = id; break;
            case 3: if (it == m.end()) r.code = -1; else m.erase(it); break;
            case 4: for (auto& x : m) r.keys.insert(x.first); break;
            case 5: r.id = id; if (id >= 0) val[id] = o.val; break;
            case 6: r.id = id; if (id >= 0) r.val = val[id]; break;
        }
        if (id >= 0 && (o.kind == 1 || o.kind == 2 || o.kind == 5 || o.kind == 6)) used[who].insert(k);
        return r;
    }
};

struct Script { std::vector<Op> initOps, runOps; int failMode = 0; };
class N : public GNode {
public:
    using GNode::createGParam; using GNode::getGParam; using GNode::getGParamWithNoEmpty; using GNode::removeGParam; using GNode::getGParamKeys; using GNode::getConcernedGParamKeys;
    Script* sc = nullptr; std::vector<Res> initRes, runRes; int runs = 0; bool expectRun = true; std::string nm;
    CStatus init() override { for (auto& o : sc->initOps) initRes.push_back(doOp(this, o)); return CStatus(); }
    CStatus run() override {
        runs++;
        uint64_t t = ++tick; first = first ? first : t; last = t;
        for (auto& o : sc->runOps) runRes.push_back(doOp(this, o));
        if (sc->failMode == 1) return CStatus(-88, "node failed " + nm);
        if (sc->failMode == 2) throw CException("node threw " + nm);
        last = ++tick;
        return CStatus();
    }
    uint64_t first = 0, last = 0;
};
// concurrent layer
class C : public GNode {
public:
    int idx = 0, times = 0, rounds = 0, ctype = 0; bool racing = false;
    std::vector<int> seenIds; int createCode = 0; int createdId = -1; int lost = -1;
    CStatus run() override {
        seenIds.clear();
        if (racing) {
            CStatus st = ctype == 0 ? createGParam<P<0>>("race") : createGParam<P<1>>("race");
            createCode = st.getCode();
            createdId = -1;
            if (ctype == 0) { auto* p = getGParam<P<0>>("race"); createdId = p ? p->id : -1; } else { auto* p = getGParam<P<1>>("race"); createdId = p ? p->id : -1; }
            std::string mine = "mine" + std::to_string(idx) + "-" + std::to_string(rounds++);
            if (createGParam<P<2>>(mine).isErr()) pbt::fail("creating an own key failed");
            auto* q = getGParam<P<2>>(mine);
            if (!q) pbt::fail("an own key just created was not found");
            q->value = 5;
        }
        for (int i = 0; i < times; i++) {
            auto* p = getGParam<P<0>>("shared");
            if (!p) { seenIds.push_back(-1); continue; }
            seenIds.push_back(p->id);
            CGRAPH_PARAM_WRITE_CODE_BLOCK(p);
            p->value++;
        }
        return CStatus();
    }
};

static Op gen_op(Src& src, bool inRun) {
    int k = src.pick({4, 3, 2, 2, 1, 3, 3, 1, 1});
    Op o{k, (int)src.below(kKeys), 0, 0};
    o.type = src.pick({5, 2, 1, 2, k == 1 || k == 2 || k == 6 ? 1 : 0});
    o.val = src.range(1, 99);
    (void)inRun;
    return o;
}
static std::string op_str(const Op& o) { return std::string(opn[o.kind]) + "<" + std::to_string(o.type) + ">(" + std::to_string(o.key) + (o.kind == 5 ? "=" + std::to_string(o.val) : "") + ")"; }

static void prop(Src& src, Ctx& ctx) {
    std::vector<Obj> registry;
    registry.reserve(4096);
    objs = &registry;
    tick = 0;
    int nn = src.range(1, 4), nc = src.pick({2, 2, 2, 1}) ; if (nc) nc += 1;
    int runs = 0;
    bool racing = src.flip();
    int times = src.range(1, 30);
    std::vector<Script> scripts(nn);
    struct Step { int kind; Op op; std::vector<Script> scripts; int setupKey = -1; };   // 0 op on the pipeline, 1 init, 2 run, 3 destroy, 4 process
    std::vector<Step> steps;
    bool inited = false;
    int total = src.sized(3, 24);
    for (int i = 0; i < total; i++) {
        Step s;
        s.kind = src.pick({6, 2, 5, 1});
        if (s.kind == 1 && inited) s.kind = 2;
        if (s.kind == 2 && !inited) s.kind = 1;
        if (s.kind == 3 && !inited) s.kind = 0;
        if (s.kind == 0) s.op = gen_op(src, false);
        if (s.kind == 1) { inited = true; }
        if (s.kind == 3) inited = false;
        if (s.kind == 1 || s.kind == 2) {
            s.scripts.resize(nn);
            for (auto& sc : s.scripts) {
                int k = src.pick({2, 2, 2, 1, 1});
                for (int j = 0; j < k; j++) (s.kind == 1 ? sc.initOps : sc.runOps).push_back(gen_op(src, true));
                if (s.kind == 2) sc.failMode = src.pick({12, 1, 1});
            }
            if (s.kind == 2) { runs++; s.setupKey = src.chance(1, 6) ? (int)src.below(kKeys) : -1; }
        }
        steps.push_back(s);
    }
    for (auto& s : steps) {
        static const char* n[] = {"pipeline.", "init", "run", "destroy"};
        ctx.desc << n[s.kind];
        if (s.kind == 0) ctx.desc << op_str(s.op);
        for (size_t i = 0; i < s.scripts.size(); i++) {
            ctx.desc << " n" << i << "{";
            for (auto& o : s.scripts[i].initOps) ctx.desc << op_str(o) << " ";
            for (auto& o : s.scripts[i].runOps) ctx.desc << op_str(o) << " ";
            ctx.desc << (s.scripts[i].failMode ? "FAIL" + std::to_string(s.scripts[i].failMode) : "") << "}";
        }
        if (s.setupKey >= 0) ctx.desc << " failing setup of key " << s.setupKey;
        ctx.desc << "\n";
    }
    ctx.desc << nn << " chained nodes, " << nc << " concurrent nodes" << (racing ? " that create params" : "") << ", " << times << " accesses\n";
    ctx.publish();

    GPipelinePtr p = GPipelineFactory::create();
    std::vector<N*> ns; std::vector<C*> cs;
    GElementPtr prev = nullptr;
    for (int i = 0; i < nn; i++) {
        GElementPtr e = nullptr;
        GElementPtrSet d; if (prev) d.insert(prev);
        std::string nm = "n" + std::to_string(i);
        PBT_CHECK((p->registerGElement<N>(&e, d, nm).isOK()), "register failed");
        ns.push_back(static_cast<N*>(e)); ns.back()->sc = &scripts[i]; ns.back()->nm = nm; e->setLevel(i);
        prev = e;
    }
    for (int i = 0; i < nc; i++) {
        GElementPtr e = nullptr;
        PBT_CHECK((p->registerGElement<C>(&e, {prev}, "c" + std::to_string(i)).isOK()), "register failed");
        C* c = static_cast<C*>(e); cs.push_back(c); c->idx = i; c->times = times; c->racing = racing; c->ctype = racing && src.chance(1, 3) ? 1 : 0;
    }
    Model model;
    auto findId = [&](const std::string& k) { auto it = model.m.find(k); return it == model.m.end() ? -1 : it->second.second; };
    if (nc) {   // the object the concurrent layer works on
        PBT_CHECK(p->createGParam<P<0>>("shared").isOK(), "create failed");
        model.m["shared"] = {0, model.next}; model.val[model.next] = 0; model.next++;
    }
    int64_t sharedExpect = 0;
    int mutated = 0, goodRuns = 0, badRuns = 0;
    for (auto& s : steps) {
        if (s.kind == 0) {
            Res want = model.apply(s.op, -1), got = doOp(p, s.op);
            PBT_CHECK(want == got, "pipeline.%s: got %s, expected %s", op_str(s.op).c_str(), got.str().c_str(), want.str().c_str());
            mutated++;
        } else if (s.kind == 1) {
            for (int i = 0; i < nn; i++) { scripts[i] = s.scripts[i]; ns[i]->initRes.clear(); model.used[i].clear(); }
            std::vector<int> inits, ids;
            for (auto& x : model.m) { ids.push_back(x.second.second); }
            std::map<int, int> before;
            for (int id : ids) before[id] = registry[id].inits;
            CStatus st = p->init();
            PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
            // params known before the elements' init are initialised once
            for (int id : ids) PBT_CHECK(registry[id].inits == before[id] + 1, "init: param %d had %d init calls", id, registry[id].inits - before[id]);
            // elements are initialised one at a time, in the order of their levels
            for (int i = 0; i < nn; i++) {
                PBT_CHECK(ns[i]->initRes.size() == s.scripts[i].initOps.size(), "n%d: init did not run once", i);
                for (size_t j = 0; j < s.scripts[i].initOps.size(); j++) {
                    Res want = model.apply(s.scripts[i].initOps[j], i);
                    PBT_CHECK(want == ns[i]->initRes[j], "n%d init %s: got %s, expected %s", i, op_str(s.scripts[i].initOps[j]).c_str(), ns[i]->initRes[j].str().c_str(), want.str().c_str());
                }
            }
        } else if (s.kind == 3) {
            std::map<int, int> before;
            for (auto& x : model.m) before[x.second.second] = registry[x.second.second].destroys;
            CStatus st = p->destroy();
            PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
            for (auto& x : before) PBT_CHECK(registry[x.first].destroys == x.second + 1, "destroy: param %d had %d destroy calls", x.first, registry[x.first].destroys - x.second);
        } else {
            for (int i = 0; i < nn; i++) { scripts[i] = s.scripts[i]; ns[i]->runRes.clear(); ns[i]->runs = 0; ns[i]->first = ns[i]->last = 0; }
            int sid = s.setupKey >= 0 ? findId(keyOf(s.setupKey)) : -1;
            if (sid >= 0) registry[sid].failSetup = true;
            std::vector<int> su(registry.size()), re(registry.size());
            for (size_t i = 0; i < registry.size(); i++) { su[i] = registry[i].setups; re[i] = registry[i].resets; }
            auto start = model.m;
            for (auto* c : cs) { c->seenIds.clear(); c->createCode = 1; }
            std::set<int> preRace; for (auto& x : model.m) preRace.insert(x.second.second);
            size_t nobj = registry.size();
            uint64_t t0 = ++tick;
            CStatus st = p->run();
            uint64_t t1 = ++tick;
            if (sid >= 0) registry[sid].failSetup = false;
            for (auto& x : start) {
                Obj& o = registry[x.second.second];
                PBT_CHECK(o.setups == su[x.second.second] + 1, "run: setup of param %d was called %d times", x.second.second, o.setups - su[x.second.second]);
                PBT_CHECK(o.lastSetup > t0 && o.lastSetup < t1, "setup outside the run");
            }
            if (sid >= 0) {
                PBT_CHECK(st.isErr() && st.getInfo() == "setup-" + std::to_string(sid), "a failing setup gave %d '%s'", st.getCode(), st.getInfo().c_str());
                for (auto* n : ns) PBT_CHECK(n->runs == 0, "an element ran though a param's setup failed");
                for (auto* c : cs) PBT_CHECK(c->createCode == 1 && c->seenIds.empty(), "an element ran though a param's setup failed");
                badRuns++;
                continue;
            }
            bool failed = false; int failer = -1;
            for (int i = 0; i < nn; i++) {
                if (failed) { PBT_CHECK(ns[i]->runs == 0, "n%d ran after a failure", i); continue; }
                PBT_CHECK(ns[i]->runs == 1, "n%d ran %d times", i, ns[i]->runs);
                for (auto& x : start) PBT_CHECK(registry[x.second.second].lastSetup < ns[i]->first || !registry[x.second.second].alive, "n%d started before a param's setup", i);
                for (size_t j = 0; j < s.scripts[i].runOps.size(); j++) {
                    Res want = model.apply(s.scripts[i].runOps[j], i);
                    PBT_CHECK(want == ns[i]->runRes[j], "n%d run %s: got %s, expected %s", i, op_str(s.scripts[i].runOps[j]).c_str(), ns[i]->runRes[j].str().c_str(), want.str().c_str());
                }
                if (s.scripts[i].failMode) { failed = true; failer = i; }
            }
            if (failed) {
                PBT_CHECK(st.isErr() && st.getInfo().find("n" + std::to_string(failer)) != std::string::npos, "a failing node gave %d '%s'", st.getCode(), st.getInfo().c_str());
                badRuns++;
            } else {
                PBT_CHECK(st.isOK(), "run failed: %s", st.getInfo().c_str());
                goodRuns++;
                int shared = findId("shared");
                for (auto* c : cs) {
                    PBT_CHECK((int)c->seenIds.size() == times, "a concurrent node did not run");
                    for (int id : c->seenIds) PBT_CHECK(id == shared, "a concurrent node saw param %d instead of %d", id, shared);
                }
                sharedExpect += (int64_t)cs.size() * times;
                if (nc) {
                    auto* q = p->getGParam<P<0>>("shared");
                    model.used[-1].insert("shared");
                    PBT_CHECK(q && q->value == sharedExpect, "updates under the lock were lost: %d instead of %lld", q ? q->value : -1, (long long)sharedExpect);
                }
                if (racing && nc) {
                    int winType = -1;
                    auto it = model.m.find("race");
                    if (it != model.m.end()) winType = it->second.first;
                    else { for (auto* c : cs) if (c->createCode == 0) { PBT_CHECK(winType < 0 || winType == c->ctype, "concurrent creations with different types were both accepted"); winType = c->ctype; } PBT_CHECK(winType >= 0, "no concurrent creation was accepted"); }
                    int id = -1;
                    for (auto* c : cs) {
                        PBT_CHECK((c->createCode == 0) == (c->ctype == winType), "concurrent creation: type %d got code %d, winner %d", c->ctype, c->createCode, winType);
                        if (c->ctype != winType) { PBT_CHECK(c->createdId == -1, "a param of the wrong type was returned"); continue; }
                        PBT_CHECK(id < 0 || c->createdId == id, "two creators of one key see different objects");
                        id = c->createdId;
                        PBT_CHECK(id >= 0, "a created param was not found");
                    }
                    if (it == model.m.end()) model.m["race"] = {winType, id}; else PBT_CHECK(it->second.second == id, "the object under a key changed");
                    for (auto* c : cs) {
                        std::string mine = "mine" + std::to_string(c->idx) + "-" + std::to_string(c->rounds - 1);
                        auto* q = p->getGParam<P<2>>(mine);
                        model.used[-1].insert(mine);
                        PBT_CHECK(q && q->value == 5, "a param created concurrently is lost");
                        model.m[mine] = {2, q->id};
                    }
                    model.next = (int)registry.size();
                }
            }
            for (auto& x : model.m) {
                Obj& o = registry[x.second.second];
                int was = x.second.second < (int)re.size() ? re[x.second.second] : 0;
                PBT_CHECK(o.resets == was + 1, "run: reset of param %d was called %d times", x.second.second, o.resets - was);
                PBT_CHECK(o.resetCode == st.getCode() && o.resetInfo == st.getInfo(), "reset got status %d '%s', the run returned %d '%s'", o.resetCode, o.resetInfo.c_str(), st.getCode(), st.getInfo().c_str());
                for (auto* n : ns) PBT_CHECK(o.lastReset > n->last, "reset was called before the elements had finished");
            }
            (void)nobj;
        }
        // life of the objects
        std::set<int> live;
        for (auto& x : model.m) live.insert(x.second.second);
        PBT_CHECK((int)registry.size() == model.next, "%zu param objects were made, %d expected", registry.size(), model.next);
        for (size_t i = 0; i < registry.size(); i++) PBT_CHECK(registry[i].alive == (live.count((int)i) > 0), "param %zu is %s", i, registry[i].alive ? "still alive after its removal" : "destroyed though it was not removed");
    }
    GPipelineFactory::remove(p);
    for (size_t i = 0; i < registry.size(); i++) PBT_CHECK(!registry[i].alive, "param %zu outlives its pipeline", i);
    ctx.nontrivial = goodRuns > 0 && mutated > 0;
    if (badRuns) ctx.label("failing run or setup");
    if (goodRuns > 1) ctx.label("several good runs");
    if (racing && nc && goodRuns) ctx.label("concurrent creation");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
