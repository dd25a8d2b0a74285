// C10: aspects bracket init, run iterations and destroy of their element in order and see the right status.
#include "probe.h"
using namespace pr;

struct Item { int t; int idx; int code; };   // t: phase, or 100 = body
struct Fault { int kind = 0, id = -1, idx = 0, at = 0, mode = 1; };   // 0 none 1 begin callback 2 body

struct Parser {
    Graph& g; Spec& s; const std::vector<Item>& v; const char* what; Fault f;
    size_t i = 0;
    int crash() { return -996; }
    std::string show() {
        std::ostringstream o;
        static const char* n[] = {"beginInit", "finishInit", "beginRun", "finishRun", "beginDestroy", "finishDestroy", "crashed", "timeout"};
        for (auto& x : v) { if (x.t == 100) o << " BODY"; else { o << " " << n[x.t] << "#" << x.idx; if (x.code) o << "(" << x.code << ")"; } }
        return o.str();
    }
    void bad(const char* m) { pbt::failf("%s: %s: %s; aspects=%zu, observed:%s (at item %zu)", what, s.name.c_str(), m, s.aspects.size(), show().c_str(), i); }
    void all(int ph, const char* m, int* code) {
        for (size_t k = 0; k < s.aspects.size(); k++, i++) {
            if (i >= v.size() || v[i].t != ph || v[i].idx != (int)k) bad(m);
            if (code) { if (k == 0 && *code == 1) *code = v[i].code; if (v[i].code != *code) bad("the aspects were given different statuses, or not the body's"); }
        }
    }
    // returns brackets completed
    int parse(int bph, int fph, int maxIter, bool descFault, std::vector<int> bodies, int faultCode) {
        int iters = 0, calls = 0, begins = 0;
        bool over = false;
        while (i < v.size()) {
            if (over) bad("activity after the element had failed");
            if (iters >= maxIter) bad("more iterations than expected");
            // begin callbacks
            bool failed = false;
            for (size_t k = 0; k < s.aspects.size(); k++) {
                if (i >= v.size() || v[i].t != bph || v[i].idx != (int)k) bad("begin callbacks are not all called in order");
                i++;
                if (f.kind == 1 && f.id == s.id && f.idx == (int)k && begins == f.at) { failed = true; break; }
            }
            begins++;
            if (failed) { over = true; if (f.mode == 2) all(A_CRASH, "crash notification missing", nullptr); continue; }
            int code = 0;
            bool crashed = false;
            if (s.kind == NODE) {
                int n = iters < (int)bodies.size() ? bodies[iters] : 0, b = 0;
                for (; b < n; b++) {
                    if (i >= v.size() || v[i].t != 100) bad("the body is not called between the begin and finish callbacks");
                    i++;
                    if (f.kind == 2 && f.id == s.id && calls++ == f.at) { over = true; if (f.mode == 2) crashed = true; else code = faultCode; break; }
                }
            } else if (descFault && i < v.size() && (v[i].t == A_CRASH || v[i].code != 0)) {
                over = true;
                if (v[i].t == A_CRASH) crashed = true;
                else { code = v[i].code; if (code != faultCode && code != crash()) bad("the group's finish callbacks were given an error nobody returned"); }
            }
            if (crashed) { all(A_CRASH, "crash notifications missing or out of order", nullptr); continue; }
            all(fph, "finish callbacks are not all called in order", &code);
            iters++;
            if (s.aspects.empty() && s.kind != NODE) break;
        }
        return iters;
    }
};

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    o.maxTop = 6; o.maxDepth = src.pick({2, 2, 1}); o.groupDen = 4; o.holds = true; o.maxTotal = 24;
    Gen(src, g, o).build();
    std::vector<int> leaves, withAsp;
    int uniq = 1;
    for (auto& s : g.specs) {
        int n = src.pick({2, 3, 2, 1});
        for (int i = 0; i < n; i++) { AspSpec a; a.val = uniq++; a.how = src.pick({2, 1}); s->aspects.push_back(a); }
    }
    struct Pl { std::vector<int> ids; int val; };   // aspects added through the pipeline
    std::vector<Pl> pls;
    int np = src.pick({2, 2, 1});
    for (int i = 0; i < np; i++) {
        Pl p; p.val = 1000 + i;
        if (!src.flip()) for (auto& s : g.specs) if (src.flip()) p.ids.push_back(s->id);
        for (auto& s : g.specs) if (p.ids.empty() || std::count(p.ids.begin(), p.ids.end(), s->id)) { AspSpec a; a.val = p.val; a.how = 2; s->aspects.push_back(a); }
        pls.push_back(p);
    }
    for (auto& s : g.specs) { if (s->kind == NODE) leaves.push_back(s->id); if (!s->aspects.empty()) withAsp.push_back(s->id); }
    int engine = src.pick({3, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    glob_expect() = src.flip() ? src.range(1, 1000) : 0;
    auto gen_fault = [&](int noneW) {
        Fault f;
        f.kind = src.pick({noneW, 2, 1});
        if (f.kind == 1 && withAsp.empty()) f.kind = 0;
        if (f.kind == 2 && leaves.empty()) f.kind = 0;
        if (f.kind == 1) { f.id = withAsp[src.below(withAsp.size())]; f.idx = src.below(g[f.id].aspects.size()); }
        if (f.kind == 2) f.id = leaves[src.below(leaves.size())];
        if (f.kind) { f.at = src.pick({3, 1, 1}); f.mode = src.range(1, 2); }
        return f;
    };
    int inits = src.range(1, 2);
    struct Round { Fault init, destroy; std::vector<Fault> runs; };
    std::vector<Round> rounds(inits);
    for (auto& r : rounds) { int n = src.range(0, 3); for (int i = 0; i < n; i++) r.runs.push_back(gen_fault(3)); r.init = gen_fault(20); r.destroy = gen_fault(20); r.init.at = r.destroy.at = 0; }
    auto fstr = [&](const Fault& f) { std::ostringstream d; if (f.kind) d << "[" << (f.kind == 1 ? "begin of aspect " + std::to_string(f.idx) + " of " : "body of ") << g[f.id].name << " fails@" << f.at << (f.mode == 2 ? " throw" : " status") << "]"; return d.str(); };
    ctx.desc << "engine=" << engine << " " << pd << " glob=" << glob_expect() << "\n";
    for (auto& p : pls) { ctx.desc << "pipeline aspect on"; if (p.ids.empty()) ctx.desc << " all"; for (int i : p.ids) ctx.desc << " " << g[i].name; ctx.desc << "\n"; }
    for (auto& r : rounds) { ctx.desc << "init" << fstr(r.init); for (auto& f : r.runs) ctx.desc << " run" << fstr(f); ctx.desc << " destroy" << fstr(r.destroy) << "\n"; }
    ctx.desc << g.str();
    ctx.publish();
    rec().reset();
    Pipe pipe;
    Builder(g, pipe.p).build(src.pick({2, 1}));
    for (auto& p : pls) {
        GElementPtrSet set;
        for (int i : p.ids) set.insert(g[i].ptr);
        PAspParam ap; ap.id = -2; ap.val = p.val;
        pipe.p->addGAspect<PAspect, PAspParam>(set, &ap);
        ap.val = -9;
    }
    if (glob_expect()) { pipe.p->createGParam<PGlobal>("glob"); pipe.p->getGParam<PGlobal>("glob")->v = glob_expect(); }
    pipe.p->setGEngineType(engine_type(engine));
    pipe.p->setUniqueThreadPoolConfig(cfg);
    bool faulted = false, done = false;
    size_t maxAsp = 0;
    for (auto& s : g.specs) maxAsp = std::max(maxAsp, s->aspects.size());
    // one API call: 0 init 1 run 2 destroy; returns whether it went through without a fault
    auto phase = [&](int ph, const Fault& f) -> bool {
        const char* nm = ph == 0 ? "init" : ph == 1 ? "run" : "destroy";
        int bph = ph == 0 ? A_BI : ph == 1 ? A_BR : A_BD, fph = bph + 1;
        g.resetRun();
        std::string msg;
        int code = 0;
        for (auto& s : g.specs) { s->failAt = -1; s->initFail = s->destroyFail = 0; for (auto& a : s->aspects) a.failPhase = -1; }
        if (f.kind == 1) { auto& a = g[f.id].aspects[f.idx]; a.failPhase = bph; a.failCall = f.at; a.failMode = f.mode; code = -5000 - f.id * 16 - f.idx; msg = "err-asp-" + std::to_string(f.id) + "-" + std::to_string(f.idx); }
        if (f.kind == 2) { Spec& x = g[f.id]; if (ph == 0) x.initFail = f.mode; else if (ph == 2) x.destroyFail = f.mode; else { x.failAt = f.at; x.failMode = f.mode - 1; } code = fail_code(&x); msg = fail_msg(&x, nm); }
        if (f.mode == 2 && f.kind) code = -996;
        std::vector<char> prepBefore(g.size());
        for (auto& s : g.specs) prepBefore[s->id] = s->mPrepared;
        uint32_t from = rec().add(API_B, 0);
        CStatus st;
        std::string what;
        bool threw = has_cpp_exception([&] { st = ph == 0 ? pipe.p->init() : ph == 1 ? pipe.p->run() : pipe.p->destroy(); }, &what);
        uint32_t to = rec().add(API_E, 0);
        PBT_CHECK(!threw || ph != 1, "run let an exception escape: %s", what.c_str());
        std::vector<std::vector<Item>> seq(g.size());
        bool happened = false;
        std::vector<int> bcount(g.size());
        std::map<std::pair<int, int>, int> begin;
        for (uint32_t i = from + 1; i < to; i++) {
            const Event& e = rec().buf[i];
            int bodyEv = ph == 0 ? INIT : ph == 1 ? RUN_B : DESTROY;
            if (e.type == bodyEv) { seq[e.id].push_back({100, 0, 0}); if (f.kind == 2 && e.id == f.id && bcount[e.id]++ == f.at) happened = true; }
            if (e.type == ASPECT) {
                int p = asp_phase(e.aux), k = asp_idx(e.aux);
                seq[e.id].push_back({p, k, asp_code(e.aux)});
                if (f.kind == 1 && p == bph && e.id == f.id && k == f.idx && begin[{e.id, k}]++ == f.at) happened = true;
            }
        }
        // the interpretation of a clean run: iterations and bodies per iteration
        std::vector<std::vector<int>> bodies(g.size());
        if (ph == 1) {
            Interp in(g); in.run();
            for (auto& s : g.specs) if (s->kind == NODE) {
                for (int k = 0; k < s->mIter; k++) bodies[s->id].push_back(1 + (s->holds.empty() ? 0 : s->holds[k % s->holds.size()]));
            }
        }
        std::set<int> owners;
        if (happened) { for (int a : g.ancestors(f.id)) owners.insert(a); }
        auto reach = [&](Spec& s) { if (!s.visible) return false; for (int a : g.ancestors(s.id)) if (!g[a].visible) return false; return true; };
        for (auto& sp : g.specs) {
            Spec& s = *sp;
            int expect = ph == 1 ? s.mIter : reach(s) ? 1 : 0;
            if (ph != 1) bodies[s.id] = {1};
            Parser p{g, s, seq[s.id], nm, happened ? f : Fault()};
            int it = p.parse(bph, fph, expect, owners.count(s.id) > 0, bodies[s.id], code);
            if (!happened && (s.kind == NODE || !s.aspects.empty())) PBT_CHECK(it == expect, "%s: %s went through %d bracketed iterations, expected %d; observed:%s", nm, s.name.c_str(), it, expect, p.show().c_str());
        }
        if (!happened) {
            PBT_CHECK(!threw && st.isOK(), "%s failed with '%s%s' though nothing failed", nm, st.getInfo().c_str(), what.c_str());
            if (ph == 1) { g.resetRun(); for (auto& s : g.specs) s->mPrepared = prepBefore[s->id]; check_full_run(g, from + 1, to, "run"); }
            return true;
        }
        faulted = true;
        ctx.label(std::string(nm) + (f.kind == 1 ? ": begin callback failed" : ": body failed") + (f.mode == 2 ? " (throw)" : " (status)"));
        PBT_CHECK(threw || st.isErr(), "%s returned OK though %s failed", nm, g[f.id].name.c_str());
        std::string got = threw ? what : st.getInfo();
        PBT_CHECK(got.size() >= msg.size() && got.compare(got.size() - msg.size(), msg.size(), msg) == 0, "%s reported '%s' instead of '%s'", nm, got.c_str(), msg.c_str());
        if (!threw) PBT_CHECK(st.getCode() == code, "%s returned the code %d instead of %d", nm, st.getCode(), code);
        if (f.mode == 1) PBT_CHECK(!threw, "%s threw for a returned error", nm);
        if (ph == 1) {   // which elements got prepared
            std::vector<int> prep(g.size());
            for (uint32_t i = from + 1; i < to; i++) if (rec().buf[i].type == PREPARE) prep[rec().buf[i].id]++;
            for (auto& s : g.specs) s->mPrepared = prepBefore[s->id] || prep[s->id];
        }
        return false;
    };
    for (int i = 0; i < inits && !done; i++) {
        g.resetInit();
        if (!phase(0, rounds[i].init)) { done = true; break; }
        for (auto& f : rounds[i].runs) phase(1, f);
        if (!phase(2, rounds[i].destroy)) done = true;
    }
    glob_expect() = 0;
    ctx.nontrivial = maxAsp >= 2;
    if (!pls.empty()) ctx.label("aspects added through the pipeline");
    bool ga = false;
    for (auto& s : g.specs) ga |= s->isGroup() && !s->aspects.empty();
    if (ga) ctx.label("aspects on groups");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
