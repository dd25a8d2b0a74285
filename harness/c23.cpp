// C23: max parallelism, trim, separation and relations against brute-force graph algorithms.
#include "probe.h"
using namespace pr;

using Mat = std::vector<std::vector<char>>;
static Mat closure(Graph& g, const std::vector<int>& ids) {
    size_t n = ids.size();
    std::map<int, int> pos; for (size_t i = 0; i < n; i++) pos[ids[i]] = (int)i;
    Mat r(n, std::vector<char>(n, 0));
    for (size_t i = 0; i < n; i++) for (int d : g[ids[i]].deps) r[pos[d]][i] = 1;
    for (size_t k = 0; k < n; k++) for (size_t i = 0; i < n; i++) if (r[i][k]) for (size_t j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1;
    return r;
}
// largest antichain = n - maximum matching of the closure (Dilworth)
static int antichain(const Mat& r) {
    int n = (int)r.size(), match = 0;
    std::vector<int> to(n, -1);
    std::function<bool(int, std::vector<char>&)> aug = [&](int u, std::vector<char>& seen) {
        for (int v = 0; v < n; v++) if (r[u][v] && !seen[v]) { seen[v] = 1; if (to[v] < 0 || aug(to[v], seen)) { to[v] = u; return true; } }
        return false;
    };
    for (int u = 0; u < n; u++) { std::vector<char> seen(n, 0); match += aug(u, seen); }
    return n - match;
}
static double paths(Graph& g, const std::vector<int>& ids) {
    std::map<int, double> c; double tot = 0;
    std::set<int> done; 
    while (done.size() < ids.size()) for (int id : ids) {
        if (done.count(id)) continue;
        bool ok = true; for (int d : g[id].deps) ok &= done.count(d) > 0;
        if (!ok) continue;
        double x = g[id].deps.empty() ? 1 : 0; for (int d : g[id].deps) x += c[d];
        c[id] = x; done.insert(id); tot += x;
    }
    return tot;
}
static const std::vector<int>& sib(Graph& g, int parent) { return parent < 0 ? g.top : g[parent].children; }
static bool levelSeparate(Graph& g, int parent, int a, int b) {
    const auto& ids = sib(g, parent);
    if (parent >= 0 && g[parent].kind != REGION) return g[parent].kind == CLUSTER || g[parent].kind == COND || g[parent].kind == MULTI_S;
    Mat r = closure(g, ids);
    size_t x = std::find(ids.begin(), ids.end(), a) - ids.begin(), y = std::find(ids.begin(), ids.end(), b) - ids.begin();
    return r[x][y] || r[y][x];
}
static bool separate(Graph& g, int a, int b) {
    if (a == b) return false;
    std::vector<int> pa{a}, pb{b};
    for (int x : g.ancestors(a)) pa.push_back(x);
    for (int x : g.ancestors(b)) pb.push_back(x);
    if (std::count(pa.begin(), pa.end(), b) || std::count(pb.begin(), pb.end(), a)) return true;
    for (size_t i = 0; i < pa.size(); i++) for (size_t j = 0; j < pb.size(); j++)
        if (g[pa[i]].parent == g[pb[j]].parent) return levelSeparate(g, g[pa[i]].parent, pa[i], pb[j]);
    return false;
}

static void prop(Src& src, Ctx& ctx) {
    Graph g;
    GenOpts o;
    bool flat = src.flip();
    o.maxTop = flat ? 14 : 7; o.maxDepth = flat ? 0 : src.range(1, 3); o.groupNum = 1; o.groupDen = 3; o.maxTotal = 34; o.delays = false; o.invisible = false; o.loops = src.flip();
    o.kinds = {REGION, REGION, CLUSTER, COND, MULTI_S, MULTI_P};
    Gen(src, g, o).build();
    std::vector<int> levels{-1};
    for (auto& s : g.specs) if (s->kind == REGION) levels.push_back(s->id);
    for (int l : levels) if (paths(g, sib(g, l)) > 4000) { ctx.label("too many paths"); for (int id : sib(g, l)) g[id].deps.resize(std::min<size_t>(g[id].deps.size(), 2)); }
    int how = src.range(0, 3);
    int engine = src.pick({3, 1, 1});
    std::string pd;
    UThreadPoolConfig cfg = gen_pool(src, blocking_groups(g), pd);
    int nops = src.range(3, 9);
    struct O { int kind, a, b; };
    std::vector<O> ops;
    for (int i = 0; i < nops; i++) ops.push_back(O{src.pick({3, 3, 3, 2, 2, 2, 2}), (int)src.below(g.size()), (int)src.bits() & 0xffff});
    ctx.desc << "how=" << how << " engine=" << engine << " " << pd << "\nops:";
    static const char* on[] = {"maxpara", "separate", "trim", "relation", "setLevel", "removeDepend", "init-run-destroy"};
    for (auto& p : ops) ctx.desc << " " << on[p.kind] << "(e" << p.a << "," << p.b << ")";
    ctx.desc << "\n" << g.str();
    ctx.publish();
    rec().reset();
    Pipe pipe; GPipelinePtr p = pipe.p;
    Builder(g, p).build(how);
    p->setGEngineType(engine_type(engine));
    p->setUniqueThreadPoolConfig(cfg);
    int edges = 0;
    bool hasGroup = false;
    for (auto& s : g.specs) { edges += (int)s->deps.size(); hasGroup |= s->isGroup(); }
    auto relations = [&](const char* when) {
        for (auto& s : g.specs) {
            GElementRelation r = s->ptr->getRelation();
            std::set<GElementPtr> pre, suc, pw, sw;
            for (auto* x : r.predecessors_) pre.insert(x);
            for (auto* x : r.successors_) suc.insert(x);
            PBT_CHECK(pre.size() == r.predecessors_.size() && suc.size() == r.successors_.size(), "%s: %s lists a relation twice", when, s->name.c_str());
            for (int d : s->deps) pw.insert(g[d].ptr);
            for (auto& q : g.specs) for (int d : q->deps) if (d == s->id) sw.insert(q->ptr);
            PBT_CHECK(pre == pw, "%s: %s has %zu predecessors, expected %zu (or others)", when, s->name.c_str(), pre.size(), pw.size());
            PBT_CHECK(suc == sw, "%s: %s has %zu successors, expected %zu (or others)", when, s->name.c_str(), suc.size(), sw.size());
            GElementPtrArr ch; for (int c : s->children) ch.push_back(g[c].ptr);
            PBT_CHECK(ch == r.children_, "%s: the children of %s differ from what was added", when, s->name.c_str());
            PBT_CHECK(r.belong_ == (s->parent < 0 ? nullptr : g[s->parent].ptr), "%s: the owner of %s is wrong", when, s->name.c_str());
        }
    };
    int removed = 0;
    for (auto& q : ops) {
        switch (q.kind) {
            case 0: {
                if (hasGroup) { PBT_CHECK(has_cpp_exception([&] { p->getMaxPara(); }), "getMaxPara accepted a pipeline with groups"); break; }
                int want = antichain(closure(g, g.top));
                CSize got = p->getMaxPara();
                PBT_CHECK((int)got == want, "getMaxPara is %zu, the largest independent set has %d elements", got, want);
                break;
            }
            case 1:
                for (auto& a : g.specs) for (auto& b : g.specs) {
                    bool want = separate(g, a->id, b->id), got = p->checkSeparate(a->ptr, b->ptr);
                    PBT_CHECK(want == got, "checkSeparate(%s, %s) is %d, expected %d", a->name.c_str(), b->name.c_str(), (int)got, (int)want);
                }
                break;
            case 2: {
                // the pipeline's own level and the regions reached from it through regions
                int want = 0;
                std::function<void(int)> red = [&](int l) {
                    const auto& ids = sib(g, l);
                    Mat r = closure(g, ids);
                    std::map<int, int> pos; for (size_t i = 0; i < ids.size(); i++) pos[ids[i]] = (int)i;
                    for (int id : ids) {
                        std::vector<int> keep;
                        for (int d : g[id].deps) { bool implied = false; for (int e : g[id].deps) implied |= r[pos[d]][pos[e]] != 0; if (implied) want++; else keep.push_back(d); }
                        g[id].deps = keep;
                    }
                    for (int id : ids) if (g[id].kind == REGION) red(id);
                };
                red(-1);
                CSize got = p->trim();
                PBT_CHECK((int)got == want, "trim removed %zu edges, %d are implied by others", got, want);
                removed += want;
                relations("after trim");
                PBT_CHECK(p->trim() == 0, "a second trim removed something");
                break;
            }
            case 3: relations("before init"); break;
            case 4: { Spec& s = g[q.a]; s.level = q.b % 7 - 3; s.ptr->setLevel(s.level); break; }
            case 5: {
                Spec& s = g[q.a];
                if (!s.deps.empty() && q.b % 4) {
                    int k = q.b % (int)s.deps.size();
                    CStatus st = s.ptr->removeDepend(g[s.deps[k]].ptr);
                    PBT_CHECK(st.isOK(), "removeDepend of an existing dependency failed: %s", st.getInfo().c_str());
                    s.deps.erase(s.deps.begin() + k);
                } else {
                    Spec& t = g[q.b % g.size()];
                    if (std::count(s.deps.begin(), s.deps.end(), t.id)) break;
                    PBT_CHECK(s.ptr->removeDepend(t.ptr).isErr(), "removing a dependency that does not exist succeeded");
                }
                relations("after removeDepend");
                break;
            }
            default: {
                g.resetRun(); g.resetInit();
                CStatus st = p->init();
                PBT_CHECK(st.isOK(), "init failed: %s", st.getInfo().c_str());
                PBT_CHECK(has_cpp_exception([&] { p->trim(); }), "trim accepted an initialised pipeline");
                PBT_CHECK(has_cpp_exception([&] { p->getMaxPara(); }), "getMaxPara accepted an initialised pipeline");
                for (auto& s : g.specs) for (int d : s->deps) { if (s->parent < 0) PBT_CHECK(s->ptr->removeDepend(g[d].ptr).isErr(), "removeDepend accepted an initialised element"); break; }
                relations("after init");
                uint32_t from = rec().add(API_B, 0);
                st = p->run();
                uint32_t to = rec().add(API_E, 0);
                PBT_CHECK(st.isOK(), "run failed: %s", st.getInfo().c_str());
                check_full_run(g, from + 1, to, "run");
                st = p->destroy();
                PBT_CHECK(st.isOK(), "destroy failed: %s", st.getInfo().c_str());
                relations("after destroy");
            }
        }
    }
    PBT_CHECK(!p->checkSeparate(g[0].ptr, g[0].ptr), "an element is separate from itself");
    ctx.nontrivial = edges >= 3;
    if (removed) ctx.label("edges trimmed");
    if (hasGroup) ctx.label("with groups"); else ctx.label("flat");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
