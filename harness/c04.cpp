// C04: the framework's exception, wherever it is thrown, becomes the crash status of the phase; one crash notification; recovery.
#include "probe.h"
using namespace pr;

static bool ends_with(const std::string& a, const std::string& b) { return a.size() >= b.size() && a.compare(a.size() - b.size(), b.size(), b) == 0; }
struct Site { int kind, id, at, idx; };   // 0 body 1 prepare 2 check 3 hold 4 begin-run aspect
static const char* kSite[] = {"body", "prepare", "check", "hold", "beginRun"};

// crash notifications in (from,to): exactly one per aspect of a thrower, none away from its chain of owners
static void check_crashes(Graph& g, uint32_t from, uint32_t to, const std::set<int>& throwers, const char* what) {
    std::map<std::pair<int, int>, int> cnt;
    for (uint32_t i = from; i < to; i++) { const Event& e = rec().buf[i]; if (e.type == ASPECT && asp_phase(e.aux) == A_CRASH) cnt[{e.id, asp_idx(e.aux)}]++; }
    std::set<int> owners;
    for (int t : throwers) for (int a : g.ancestors(t)) owners.insert(a);
    for (auto& s : g.specs) for (size_t k = 0; k < s->aspects.size(); k++) {
        int c = cnt.count({s->id, (int)k}) ? cnt[{s->id, (int)k}] : 0;
        if (throwers.count(s->id)) PBT_CHECK(c == 1, "%s: aspect %zu of %s, which threw, got %d crash notifications", what, k, s->name.c_str(), c);
        else if (owners.count(s->id)) PBT_CHECK(c <= 1, "%s: aspect %zu of the owner %s got %d crash notifications", what, k, s->name.c_str(), c);
        else PBT_CHECK(c == 0, "%s: aspect %zu of %s got a crash notification though it did not throw", what, k, s->name.c_str());
    }
}

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 9; o.maxDepth = src.pick({2, 2, 1}); o.groupDen = 4; o.holds = true; o.groupHolds = false; o.groupLoops = false; o.maxTotal = 30;
    Gen(src, g, o).build();
    std::vector<int> leaves, withAsp;
    for (auto& s : g.specs) {
        int n = src.pick({3, 2, 1});
        for (int i = 0; i < n; i++) { AspSpec a; a.val = src.range(0, 1000); s->aspects.push_back(a); }
        if (n) withAsp.push_back(s->id);
        if (s->kind == NODE) leaves.push_back(s->id);
    }
    int engine = src.pick({3, 2, 2});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    int inits = src.range(1, 2);
    struct Round { int initSite = -1, initIdx = -1; int destSite = -1, destIdx = -1; std::vector<std::vector<Site>> runs; };
    std::vector<Round> rounds(inits);
    auto edge = [&](int& id, int& idx) {   // throwing init/destroy: a node's body or an aspect
        if (!leaves.empty() && src.flip()) { id = leaves[src.below(leaves.size())]; idx = -1; }
        else if (!withAsp.empty()) { id = withAsp[src.below(withAsp.size())]; idx = src.below(g[id].aspects.size()); }
    };
    for (auto& r : rounds) {
        int n = src.range(1, 4);
        for (int i = 0; i < n; i++) {
            std::vector<Site> v;
            int k = src.pick({2, 4, 1, 1});
            for (int j = 0; j < k; j++) {
                Site s;
                s.kind = src.pick({3, 1, 1, 1, 2});
                if (s.kind == 0 && !leaves.empty()) s.id = leaves[src.below(leaves.size())];
                else if (s.kind == 4 && !withAsp.empty()) s.id = withAsp[src.below(withAsp.size())];
                else { if (s.kind == 0 || s.kind == 4) s.kind = 2; s.id = src.below(g.size()); }
                s.at = src.pick({3, 1, 1});
                s.idx = s.kind == 4 ? src.below(g[s.id].aspects.size()) : 0;
                v.push_back(s);
            }
            r.runs.push_back(v);
        }
        if (src.chance(1, 8)) edge(r.initSite, r.initIdx);
        if (src.chance(1, 8)) edge(r.destSite, r.destIdx);
    }
    ctx.desc << "engine=" << engine << " " << pd << "\n";
    for (auto& r : rounds) {
        ctx.desc << "init";
        if (r.initSite >= 0) ctx.desc << "[throws: " << g[r.initSite].name << (r.initIdx >= 0 ? " aspect " + std::to_string(r.initIdx) : "") << "]";
        for (auto& v : r.runs) { ctx.desc << " run["; for (auto& s : v) ctx.desc << " " << g[s.id].name << "." << kSite[s.kind] << "@" << s.at; ctx.desc << " ]"; }
        ctx.desc << " destroy";
        if (r.destSite >= 0) ctx.desc << "[throws: " << g[r.destSite].name << (r.destIdx >= 0 ? " aspect " + std::to_string(r.destIdx) : "") << "]";
        ctx.desc << "\n";
    }
    ctx.desc << g.str();
    ctx.publish();
    rec().reset();
    Pipe pipe;
    Builder(g, pipe.p).build(src.pick({2, 1}));
    pipe.p->setGEngineType(engine_type(engine));
    pipe.p->setUniqueThreadPoolConfig(cfg);
    bool crashed = false, recovered = false, done = false;
    auto clearFaults = [&] {
        g.resetRun();
        for (auto& s : g.specs) { s->failAt = s->holdThrow = -1; s->failMode = 1; s->initFail = s->destroyFail = s->prepareFail = s->checkFail = 0; for (auto& a : s->aspects) a.failPhase = -1; }
    };
    // init/destroy with a possible throwing site; true when it happened (the pipeline is given up then)
    auto edge_phase = [&](bool isInit, int site, int idx) -> bool {
        clearFaults();
        const char* nm = isInit ? "init" : "destroy";
        std::string msg;
        int ph = isInit ? A_BI : A_BD;
        if (site >= 0) {
            Spec& x = g[site];
            if (idx < 0) { (isInit ? x.initFail : x.destroyFail) = 2; msg = fail_msg(&x, nm); }
            else { x.aspects[idx].failPhase = ph; x.aspects[idx].failMode = 2; x.aspects[idx].failCall = 0; msg = "err-asp-" + std::to_string(site) + "-" + std::to_string(idx); }
        }
        uint32_t from = rec().add(API_B, 0);
        CStatus st;
        std::string what;
        bool threw = has_cpp_exception([&] { st = isInit ? pipe.p->init() : pipe.p->destroy(); }, &what);
        uint32_t to = rec().add(API_E, 0);
        bool happened = false;
        for (uint32_t i = from + 1; i < to; i++) {
            const Event& e = rec().buf[i];
            if (site >= 0 && e.id == site && (idx < 0 ? e.type == (isInit ? INIT : DESTROY) : e.type == ASPECT && asp_phase(e.aux) == ph && asp_idx(e.aux) == idx)) happened = true;
        }
        if (!happened) {
            PBT_CHECK(!threw && st.isOK(), "%s failed though nothing threw: %s%s", nm, st.getInfo().c_str(), what.c_str());
            check_crashes(g, from + 1, to, {}, nm);
            return false;
        }
        PBT_CHECK(threw || st.isErr(), "%s returned OK though %s threw", nm, g[site].name.c_str());
        PBT_CHECK(ends_with(threw ? what : st.getInfo(), msg), "%s reported '%s' instead of the exception's message '%s'", nm, threw ? what.c_str() : st.getInfo().c_str(), msg.c_str());
        if (!threw) PBT_CHECK(st.isCrash(), "%s returned %d instead of the crash code", nm, st.getCode());
        check_crashes(g, from + 1, to, {site}, nm);
        return true;
    };
    for (int i = 0; i < inits && !done; i++) {
        Round& R = rounds[i];
        if (edge_phase(true, R.initSite, R.initIdx)) {
            clearFaults();
            uint32_t n = rec().size();
            CStatus st = pipe.p->run();
            PBT_CHECK(st.isErr() && rec().size() == n, "run was accepted after a failed init");
            ctx.label("init threw");
            crashed = done = true;
            break;
        }
        g.resetInit();
        bool bad = false;
        for (auto& sites : R.runs) {
            clearFaults();
            std::vector<char> prepBefore(g.size());
            for (auto& s : g.specs) prepBefore[s->id] = s->mPrepared;
            for (auto& s : sites) {
                Spec& x = g[s.id];
                switch (s.kind) {
                    case 0: x.failAt = s.at; break;
                    case 1: x.prepareFail = 2; break;
                    case 2: x.checkFail = 2; break;
                    case 3: x.holdThrow = s.at; break;
                    default: { AspSpec& a = x.aspects[s.idx]; a.failPhase = A_BR; a.failMode = 2; a.failCall = s.at; }
                }
            }
            uint32_t from = rec().add(API_B, 0);
            CStatus st;
            std::string what;
            bool threw = has_cpp_exception([&] { st = pipe.p->run(); }, &what);
            uint32_t to = rec().add(API_E, 0);
            PBT_CHECK(!threw, "run let an exception escape: %s", what.c_str());
            Intervals iv = intervals(g, from + 1, to, "run");
            std::set<int> throwers;
            std::vector<std::string> msgs;
            std::map<int, int> prep, holdN, check;
            std::map<std::pair<int, int>, int> asp;
            for (uint32_t k = from + 1; k < to; k++) {
                const Event& e = rec().buf[k];
                if (e.type == PREPARE) prep[e.id]++;
                if (e.type == HOLD) holdN[e.id]++;
                if (e.type == CHECKRES) check[e.id]++;
                if (e.type == ASPECT && asp_phase(e.aux) == A_BR) asp[{e.id, asp_idx(e.aux)}]++;
            }
            for (auto& sp : g.specs) {
                Spec& x = *sp;
                auto hit = [&](const std::string& m) { throwers.insert(x.id); msgs.push_back(m); };
                if (x.failAt >= 0 && x.kind == NODE && (int)iv[x.id].size() > x.failAt) { hit(fail_msg(&x, "run")); PBT_CHECK((int)iv[x.id].size() == x.failAt + 1, "%s ran on after throwing", x.name.c_str()); }
                if (x.prepareFail && prep[x.id]) { hit(fail_msg(&x, "prepare")); PBT_CHECK(iv[x.id].empty(), "%s ran though its prepareRun threw", x.name.c_str()); }
                if (x.holdThrow >= 0 && holdN[x.id] > x.holdThrow) { hit(fail_msg(&x, "hold")); PBT_CHECK(x.kind != NODE || (int)iv[x.id].size() == x.holdThrow + 1, "%s ran on after its hold test threw", x.name.c_str()); }
                if (x.checkFail && check[x.id]) hit(fail_msg(&x, "check"));
                for (size_t k = 0; k < x.aspects.size(); k++) if (x.aspects[k].failPhase == A_BR && asp[{x.id, (int)k}] > x.aspects[k].failCall) hit("err-asp-" + std::to_string(x.id) + "-" + std::to_string(k));
            }
            check_crashes(g, from + 1, to, throwers, "run");
            if (throwers.empty()) {
                PBT_CHECK(st.isOK(), "run returned %d '%s' though nothing threw", st.getCode(), st.getInfo().c_str());
                check_full_run(g, from + 1, to, "run");
                if (bad) recovered = true;
                continue;
            }
            crashed = bad = true;
            for (auto& s : sites) if (throwers.count(s.id)) ctx.label(std::string("thrown from ") + kSite[s.kind]);
            PBT_CHECK(st.isCrash(), "run returned %d '%s' instead of the crash code", st.getCode(), st.getInfo().c_str());
            bool match = false;
            for (auto& m : msgs) match |= ends_with(st.getInfo(), m);
            PBT_CHECK(match, "run returned '%s', which is not the message of anything thrown (e.g. '%s')", st.getInfo().c_str(), msgs[0].c_str());
            check_partial_run(g, iv, "crashed run", &throwers);
            for (int t : throwers) for (int x : must_not_start(g, t)) if (g[x].kind == NODE) PBT_CHECK(iv[x].empty(), "%s ran though %s, which it depends on, threw", g[x].name.c_str(), g[t].name.c_str());
            for (auto& s : g.specs) s->mPrepared = prepBefore[s->id] || (prep[s->id] && !s->prepareFail);
        }
        if (edge_phase(false, R.destSite, R.destIdx)) { ctx.label("destroy threw"); crashed = done = true; }
    }
    if (recovered) ctx.label("good run after a crash");
    ctx.nontrivial = crashed;
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
