// C02: cyclic dependency sets are rejected at init for every engine and level; acyclic ones never are.
#include "probe.h"
using namespace pr;

struct Lvl { std::vector<int> ids; std::vector<std::pair<int, int>> edges; bool cyclic = false; int engine = 0; };

static void gen_edges(Src& src, Lvl& l) {
    int n = (int)l.ids.size();
    // mostly a DAG plus, half of the time, back edges of random length; sometimes an arbitrary digraph
    if (src.chance(1, 4)) {
        int m = src.range(0, 2 * n);
        for (int k = 0; k < m; k++) l.edges.push_back({(int)src.below(n), (int)src.below(n)});
    } else {
        auto deps = gen_dag(src, n);
        for (int j = 0; j < n; j++) for (int d : deps[j]) l.edges.push_back({d, j});
        int back = src.pick({3, 2, 1});
        for (int k = 0; k < back && n > 1; k++) { int j = src.range(1, n - 1); l.edges.push_back({j, (int)src.below(j)}); }
        if (src.chance(1, 6)) { int x = (int)src.below(n); l.edges.push_back({x, x}); }
    }
    // Floyd-Warshall reachability
    std::vector<std::vector<char>> r(n, std::vector<char>(n, 0));
    for (auto& e : l.edges) if (e.first != e.second) r[e.first][e.second] = 1;
    for (int k = 0; k < n; k++) for (int i = 0; i < n; i++) if (r[i][k]) for (int j = 0; j < n; j++) if (r[k][j]) r[i][j] = 1;
    for (int i = 0; i < n; i++) if (r[i][i]) l.cyclic = true;
}

static void prop(Src& src, Ctx& ctx) {
    // levels: 0 = pipeline; 1.. = regions, each nested (through random wrappers) in the pipeline or another region
    Graph g;
    cur_graph() = &g;
    int nlev = src.pick({3, 3, 1}) + 1;
    std::vector<Lvl> lv(nlev);
    auto add = [&](Kind k) { int id = (int)g.size(); g.specs.emplace_back(new Spec()); g[id].id = id; g[id].kind = k; g[id].name = "e" + std::to_string(id); return id; };
    std::vector<int> regionOf(nlev, -1), wrapOf(nlev, -1), parentLevel(nlev, 0);
    for (int l = 0; l < nlev; l++) {
        int n = src.sized(1, 9);
        for (int i = 0; i < n; i++) lv[l].ids.push_back(add(NODE));
        lv[l].engine = src.pick({2, 1, 1});
        if (l > 0) {
            parentLevel[l] = (int)src.below(l);
            regionOf[l] = add(REGION);
            int w = src.pick({3, 1, 1});
            wrapOf[l] = w == 0 ? -1 : add(w == 1 ? CLUSTER : COND);
            lv[parentLevel[l]].ids.push_back(wrapOf[l] >= 0 ? wrapOf[l] : regionOf[l]);
        }
    }
    for (int l = 0; l < nlev; l++) gen_edges(src, lv[l]);
    bool viaProcess = src.chance(1, 4);
    bool anyCyc = false;
    for (int l = 0; l < nlev; l++) {
        ctx.desc << "level " << l << (l ? " (region in level " + std::to_string(parentLevel[l]) + (wrapOf[l] >= 0 ? std::string(" inside ") + kind_name(g[wrapOf[l]].kind) : "") + ")" : "")
                 << " engine=" << lv[l].engine << " n=" << lv[l].ids.size() << (lv[l].cyclic ? " cyclic" : " acyclic") << " edges:";
        for (auto& e : lv[l].edges) ctx.desc << " " << g[lv[l].ids[e.first]].name << ">" << g[lv[l].ids[e.second]].name;
        ctx.desc << "\n";
        anyCyc |= lv[l].cyclic;
    }
    ctx.publish();
    rec().reset();
    Pipe pipe;
    UThreadPoolConfig cfg;
    cfg.default_thread_size_ = nlev + 1; cfg.max_thread_size_ = nlev + 1; cfg.primary_thread_empty_interval_ = 10;
    pipe.p->setUniqueThreadPoolConfig(cfg);
    pipe.p->setGEngineType(engine_type(lv[0].engine));
    auto deps = [&](int l, const std::vector<int>& ids) {
        for (auto& e : lv[l].edges) {
            CStatus st = g[ids[e.second]].ptr->addDependGElements({g[ids[e.first]].ptr});
            PBT_CHECK(st.isOK(), "adding a dependency between siblings failed: %s", st.getInfo().c_str());
        }
    };
    std::function<void(int)> make = [&](int l) {
        for (int id : lv[l].ids) {
            if (g[id].ptr) continue;
            if (g[id].kind == NODE) {
                if (l == 0) { GElementPtr e = nullptr; CStatus st = pipe.p->registerGElement<PNode>(&e, {}, g[id].name); PBT_CHECK(st.isOK(), "register failed"); bind_spec(e, &g[id]); }
                else bind_spec(pipe.p->createGNode<PNode>(GNodeInfo(g[id].name)), &g[id]);
            } else {
                int k = -1;
                for (int m = 1; m < nlev; m++) if (regionOf[m] == id || wrapOf[m] == id) k = m;
                make(k);
                GElementPtrArr arr;
                for (int c : lv[k].ids) arr.push_back(g[c].ptr);
                auto* r = pipe.p->createGGroup<PRegion>(arr, {}, g[regionOf[k]].name);
                r->setGEngineType(engine_type(lv[k].engine));
                bind_spec(r, &g[regionOf[k]]);
                GElementPtr e = r;
                if (wrapOf[k] >= 0) {
                    if (g[wrapOf[k]].kind == CLUSTER) e = pipe.p->createGGroup<PCluster>({e}, {}, g[wrapOf[k]].name);
                    else e = pipe.p->createGGroup<PCond>({e}, {}, g[wrapOf[k]].name);
                    bind_spec(e, &g[wrapOf[k]]);
                }
                if (l == 0) {
                    CStatus st = g[id].kind == REGION ? pipe.p->registerGElement<PRegion>(&e) : g[id].kind == CLUSTER ? pipe.p->registerGElement<PCluster>(&e) : pipe.p->registerGElement<PCond>(&e);
                    PBT_CHECK(st.isOK(), "register group failed %s", st.getInfo().c_str());
                }
            }
        }
        deps(l, lv[l].ids);
    };
    make(0);
    CStatus st = viaProcess ? pipe.p->process(1) : pipe.p->init();
    if (anyCyc) {
        PBT_CHECK(st.isErr(), "%s accepted a cyclic dependency graph", viaProcess ? "process" : "init");
        for (int l = 0; l < nlev; l++) if (lv[l].cyclic) {
            std::set<int> ids(lv[l].ids.begin(), lv[l].ids.end());
            for (uint32_t i = 0; i < rec().size(); i++) {
                const Event& e = rec().buf[i];
                PBT_CHECK(!(ids.count(e.id) && (e.type == INIT || e.type == RUN_B)), "%s of %s was called at a cyclic level", e.type == INIT ? "init" : "run", g[e.id].name.c_str());
            }
        }
        for (uint32_t i = 0; i < rec().size(); i++) PBT_CHECK(rec().buf[i].type != RUN_B, "an element ran though init failed");
        if (!viaProcess) { CStatus r = pipe.p->run(); PBT_CHECK(r.isErr(), "run was accepted after a failed init"); }
    } else {
        PBT_CHECK(st.isOK(), "an acyclic graph was rejected: %s", st.getInfo().c_str());
        if (!viaProcess) {
            st = pipe.p->run(); PBT_CHECK(st.isOK(), "run of an acyclic graph failed: %s", st.getInfo().c_str());
            st = pipe.p->destroy(); PBT_CHECK(st.isOK(), "destroy failed");
        }
        std::vector<int> pos(g.size(), -1), endp(g.size(), -1);
        for (uint32_t i = 0; i < rec().size(); i++) { const Event& e = rec().buf[i]; if (e.type == RUN_B) { PBT_CHECK(pos[e.id] < 0, "an element ran twice"); pos[e.id] = i; } if (e.type == RUN_E) endp[e.id] = i; }
        for (auto& s : g.specs) if (s->kind == NODE) PBT_CHECK(pos[s->id] >= 0, "%s did not run", s->name.c_str());
        for (auto& l : lv) for (auto& e : l.edges) {
            int a = l.ids[e.first], b = l.ids[e.second];
            if (a != b && g[a].kind == NODE && g[b].kind == NODE) PBT_CHECK(pos[b] > endp[a], "dependency order broken");
        }
    }
    int edges = 0;
    for (auto& l : lv) edges += (int)l.edges.size();
    ctx.nontrivial = edges >= 3;
    ctx.label(anyCyc ? "cyclic" : "acyclic");
    for (int l = 0; l < nlev; l++) if (lv[l].cyclic) ctx.label(std::string(l ? "cycle in a region, engine " : "cycle at pipeline level, engine ") + std::to_string(lv[l].engine));
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
