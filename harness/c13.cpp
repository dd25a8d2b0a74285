// C13: passed-in parameters are private copies with the values given.
#include "pbt.h"
#include "CGraph.h"
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

struct Val {
    int a = 0; std::string s; std::vector<int> v;
    bool operator==(const Val& o) const { return a == o.a && s == o.s && v == o.v; }
    std::string str() const { std::ostringstream o; o << a << "/" << s << "/" << v.size(); return o.str(); }
};
static std::atomic<int> alive{0};
template <int K>
class PP : public GPassedParam {
public:
    Val val; std::atomic<int> clones{0};
    PP() { alive++; }
    ~PP() override { alive--; val.a = -99; }
    CVoid clone(GPassedParam* p) override {
        auto* q = dynamic_cast<PP*>(p);
        if (!q) pbt::fail("clone was given a parameter of another type");
        val = q->val; q->clones++;
    }
};
static Val change(Val v, int how) {
    switch (how % 4) {
        case 0: v.a = v.a * 31 + how + 1; break;
        case 1: v.s += (char)('a' + how % 26); if (v.s.size() > 60) v.s = "z" + std::to_string(how); break;
        case 2: v.v.push_back(how); if (v.v.size() > 20) v.v.clear(); break;
        default: v.a = how; v.s = std::string(how % 40, 'q'); v.v.assign(how % 7, how); break;
    }
    return v;
}
// what one receiver expects of its copy
struct Slot { bool given = false; int type = 0; Val want; const void* addr = nullptr; std::atomic<int> seen{0}; int mutate = 0; std::string who; };
static std::set<const void*>* addrs;   // all copies seen, with the receiver they belong to
static std::map<const void*, Slot*>* owner;
static std::mutex mtx;
template <int K>
static void look(Slot& sl, PP<K>* p) {
    std::lock_guard<std::mutex> g(mtx);
    sl.seen++;
    PBT_CHECK(p != nullptr, "%s does not get the parameter it was given", sl.who.c_str());
    PBT_CHECK(p->val == sl.want, "%s sees %s, it was given %s", sl.who.c_str(), p->val.str().c_str(), sl.want.str().c_str());
    if (!sl.addr) { sl.addr = p; auto it = owner->find(p); PBT_CHECK(it == owner->end() || it->second == &sl, "%s and %s share one parameter object", sl.who.c_str(), it->second->who.c_str()); (*owner)[p] = &sl; }
    else PBT_CHECK(sl.addr == p, "%s sees another parameter object than before", sl.who.c_str());
    if (sl.mutate) { p->val = change(p->val, sl.mutate); sl.want = change(sl.want, sl.mutate); sl.mutate = sl.mutate * 7 % 101 + 1; }
}
static void look_any(Slot& sl, GPassedParamPtr p) {
    if (!sl.given) { PBT_CHECK(p == nullptr, "%s got a parameter though none was given", sl.who.c_str()); sl.seen++; return; }
    PBT_CHECK(p != nullptr, "%s does not get the parameter it was given", sl.who.c_str());
    if (sl.type == 0) look<0>(sl, dynamic_cast<PP<0>*>(p)); else look<1>(sl, dynamic_cast<PP<1>*>(p));
}

struct EPSpec { std::map<std::string, Slot*> keys; };
class N : public GNode {
public:
    EPSpec* ep = nullptr; std::vector<std::string> events, stages; int id = 0; int loops = 0;
    CStatus init() override { probe(); return CStatus(); }
    CStatus run() override {
        probe();
        for (auto& e : events) { CStatus s = notify(e, GEventType::SYNC); if (s.isErr()) pbt::fail("notify failed: " + s.getInfo()); }
        for (auto& e : stages) { CStatus s = enterStage(e); if (s.isErr()) pbt::fail("enterStage failed: " + s.getInfo()); }
        return CStatus();
    }
    void probe() {
        static const char* all[] = {"k0", "k1", "k2", ""};
        for (auto* k : all) {
            auto it = ep->keys.find(k);
            auto* p0 = getEParam<PP<0>>(k); auto* p1 = getEParam<PP<1>>(k);
            PBT_CHECK(getEParam<PP<2>>(k) == nullptr, "an element parameter was returned as a type it does not have");
            if (it == ep->keys.end()) { PBT_CHECK(!p0 && !p1, "an element parameter appeared under the unused key '%s'", k); continue; }
            Slot& sl = *it->second;
            if (sl.type == 0) { PBT_CHECK(!p1, "an element parameter was returned as a type it does not have"); look<0>(sl, p0); }
            else { PBT_CHECK(!p0, "an element parameter was returned as a type it does not have"); look<1>(sl, p1); }
        }
    }
};
// receivers find their slot by creation order of the class's objects
static std::vector<Slot*> *aspSlots, *daeSlots, *evSlots, *stSlots;
static size_t aspN, daeN, evN, stN;
template <std::vector<Slot*>** L, size_t* C> static Slot* mine() { size_t i = (*C)++; return i < (*L)->size() ? (**L)[i] : nullptr; }
class A : public GAspect {
public:
    Slot* sl = mine<&aspSlots, &aspN>();
    CStatus beginInit() override { go(); return CStatus(); }
    CVoid finishRun(const CStatus&) override { go(); }
    CStatus beginDestroy() override { go(); return CStatus(); }
    void go() {
        if (!sl->given) {
            bool thrown = false;
            try { (void)getAParam<PP<0>>(); } catch (const CException&) { thrown = true; }
            PBT_CHECK(thrown, "an aspect without parameter was given one");
            return;
        }
        if (sl->type == 0) { PBT_CHECK(getAParam<PP<1>>() == nullptr, "an aspect parameter was returned as a type it does not have"); look<0>(*sl, getAParam<PP<0>>()); }
        else { PBT_CHECK(getAParam<PP<0>>() == nullptr, "an aspect parameter was returned as a type it does not have"); look<1>(*sl, getAParam<PP<1>>()); }
    }
};
class D : public GDaemon {
public:
    Slot* sl = mine<&daeSlots, &daeN>();
    CVoid daemonTask(GDaemonParamPtr p) override { look_any(*sl, p); }
    CMSec modify(GDaemonParamPtr p) override { look_any(*sl, p); return 0; }
};
class E : public GEvent { public: Slot* sl = mine<&evSlots, &evN>(); CVoid trigger(GEventParamPtr p) override { look_any(*sl, p); } };
class S : public GStage { public: Slot* sl = mine<&stSlots, &stN>(); CVoid launch(GStageParamPtr p) override { look_any(*sl, p); } };

static void prop(Src& src, Ctx& ctx) {
    std::vector<std::unique_ptr<Slot>> slots;
    std::vector<Slot*> as, ds, es, ss;
    std::map<const void*, Slot*> own;
    aspSlots = &as; daeSlots = &ds; evSlots = &es; stSlots = &ss; owner = &own;
    aspN = daeN = evN = stN = 0;
    int before = alive.load();
    GPipelinePtr p = GPipelineFactory::create();
    UThreadPoolConfig cfg; cfg.default_thread_size_ = 3; cfg.secondary_thread_size_ = 0; cfg.max_thread_size_ = 3; p->setUniqueThreadPoolConfig(cfg);
    int n = src.sized(1, 6);
    std::vector<EPSpec> eps(n);
    std::vector<N*> ns; std::vector<GElementPtr> els;
    for (int i = 0; i < n; i++) {
        GElementPtr e = nullptr; GElementPtrSet dep;
        if (i && src.chance(2, 3)) dep.insert(els[src.below(i)]);
        PBT_CHECK((p->registerGElement<N>(&e, dep, "n" + std::to_string(i), 1 + (src.chance(1, 4) ? src.range(0, 2) : 0))).isOK(), "register");
        els.push_back(e); ns.push_back(static_cast<N*>(e)); ns.back()->ep = &eps[i]; ns.back()->id = i;
    }
    GElementPtrArr kids;
    std::unique_ptr<PP<0>> src0(new PP<0>()); std::unique_ptr<PP<1>> src1(new PP<1>());   // caller's objects, reused for several receivers
    int steps = src.sized(1, 24), gives = 0, replaced = 0, shared = 0;
    std::vector<std::string> evKeys, stKeys;
    auto slot = [&](const std::string& who, bool given, int type) {
        slots.emplace_back(new Slot());
        Slot& s = *slots.back(); s.given = given; s.type = type; s.who = who;
        s.want = type == 0 ? src0->val : src1->val;
        s.mutate = src.chance(1, 2) ? src.range(1, 100) : 0;
        if (given) gives++;
        return &s;
    };
    for (int i = 0; i < steps; i++) {
        int op = src.pick({6, 4, 2, 2, 3, 6});
        int type = src.below(2);
        bool given = src.chance(5, 6);
        switch (op) {
            case 0: {   // element parameter
                int e = src.below(n);
                static const char* ks[] = {"k0", "k1", "k2", ""};
                std::string k = ks[src.pick({4, 4, 2, 1})];
                std::string who = "element parameter n" + std::to_string(e) + "." + k;
                auto& m = eps[e].keys;
                if (m.count(k)) { replaced++; own.erase(m[k]->addr); }
                m[k] = slot(who, true, type);
                if (type == 0) els[e]->addEParam(k, src0.get()); else els[e]->addEParam(k, src1.get());
                ctx.desc << "eparam n" << e << "." << k << " type" << type << " " << m[k]->want.str() << "\n";
                break;
            }
            case 1: {
                bool viaPipe = src.chance(1, 3);
                GElementPtrSet to;
                for (auto* e : els) if (src.flip()) to.insert(e);
                if (!viaPipe) to = {els[src.below(n)]};
                size_t cnt = to.empty() ? els.size() : to.size();
                if (cnt > 1) shared++;
                for (size_t k = 0; k < cnt; k++) { as.push_back(slot("aspect " + std::to_string(as.size()), given, type)); }
                ctx.desc << "aspect x" << cnt << " type" << type << (given ? "" : " none") << "\n";
                if (viaPipe) { if (!given) p->addGAspect<A>(to); else if (type == 0) p->addGAspect<A, PP<0>>(to, src0.get()); else p->addGAspect<A, PP<1>>(to, src1.get()); }
                else { auto* e = *to.begin(); if (!given) e->addGAspect<A>(); else if (type == 0) e->addGAspect<A, PP<0>>(src0.get()); else e->addGAspect<A, PP<1>>(src1.get()); }
                break;
            }
            case 2: {
                if (ds.size() >= 3) break;
                ds.push_back(slot("daemon " + std::to_string(ds.size()), given, type));
                ctx.desc << "daemon type" << type << (given ? "" : " none") << "\n";
                if (!given) p->addGDaemon<D>(1); else if (type == 0) p->addGDaemon<D, PP<0>>(1, src0.get()); else p->addGDaemon<D, PP<1>>(1, src1.get());
                break;
            }
            case 3: {
                std::string k = "ev" + std::to_string(es.size());
                es.push_back(slot("event " + k, given, type)); evKeys.push_back(k);
                ctx.desc << k << " type" << type << (given ? "" : " none") << "\n";
                if (!given) p->addGEvent<E>(k); else if (type == 0) p->addGEvent<E, PP<0>>(k, src0.get()); else p->addGEvent<E, PP<1>>(k, src1.get());
                break;
            }
            case 4: {
                std::string k = "st" + std::to_string(ss.size());
                ss.push_back(slot("stage " + k, given, type)); stKeys.push_back(k);
                ctx.desc << k << " type" << type << (given ? "" : " none") << "\n";
                if (!given) p->addGStage<S>(k, 1); else if (type == 0) p->addGStage<S, PP<0>>(k, 1, src0.get()); else p->addGStage<S, PP<1>>(k, 1, src1.get());
                break;
            }
            default: {   // the caller changes or replaces its own objects
                int how = src.range(1, 100);
                if (src.chance(1, 4)) { Val k0 = src0->val, k1 = src1->val; src0.reset(new PP<0>()); src1.reset(new PP<1>()); src0->val = k0; src1->val = k1; }
                if (type == 0) src0->val = change(src0->val, how); else src1->val = change(src1->val, how);
                ctx.desc << "caller changes type" << type << "\n";
            }
        }
    }
    for (auto& k : evKeys) ns[src.below(n)]->events.push_back(k);
    for (auto& k : stKeys) ns[src.below(n)]->stages.push_back(k);
    bool dropCaller = src.flip();
    int cycles = src.range(1, 2), runs = src.range(1, 3);
    ctx.desc << "caller's objects " << (dropCaller ? "freed" : "changed") << " before init, " << cycles << " cycles of " << runs << " runs\n";
    ctx.publish();
    PBT_CHECK(aspN == as.size() && daeN == ds.size() && evN == es.size() && stN == ss.size(), "one receiver object per registration expected");
    if (dropCaller) { src0.reset(); src1.reset(); } else { src0->val = change(src0->val, 77); src1->val = change(src1->val, 79); }
    for (int c = 0; c < cycles; c++) {
        CStatus st = p->init(); PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
        for (int r = 0; r < runs; r++) { st = p->run(); PBT_CHECK(st.isOK(), "run failed: %s", st.getInfo().c_str()); }
        if (!ds.empty() && c == 0) {
            double t0 = pbt::now_s();
            for (auto* d : ds) while (d->seen < 2 && pbt::now_s() - t0 < 5) std::this_thread::sleep_for(std::chrono::milliseconds(1));
        }
        st = p->destroy(); PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
    }
    for (auto* s : es) PBT_CHECK(s->seen > 0, "%s never got triggered", s->who.c_str());
    GPipelineFactory::remove(p);
    src0.reset(); src1.reset();
    PBT_CHECK(alive.load() == before, "%d copies of passed parameters were not released", alive.load() - before);
    ctx.nontrivial = gives >= 2;
    if (replaced) ctx.label("an element parameter was replaced");
    if (shared) ctx.label("one object given to several aspects");
    if (!ds.empty()) ctx.label("daemons");
    if (!es.empty()) ctx.label("events");
    if (!ss.empty()) ctx.label("stages");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
