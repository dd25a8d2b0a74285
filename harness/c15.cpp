// C15: a stage with threshold N releases exactly complete batches of N.
#include "pbt.h"
#include "CGraph.h"
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

struct St {
    int N = 1, members = 0; bool slowLaunch = false, throwNothing = true;
    std::atomic<int> entered{0}, left{0}, launches{0}, inLaunch{0}, inits{0}, destroys{0};
};
static std::vector<std::unique_ptr<St>>* sts;
static size_t made;
class S : public GStage {
public:
    int id = (int)made++;
    CStatus init() override { (*sts)[id]->inits++; return CStatus(); }
    CStatus destroy() override { (*sts)[id]->destroys++; return CStatus(); }
    CVoid launch(GStageParamPtr) override {
        St& s = *(*sts)[id];
        if (s.inLaunch.fetch_add(1) != 0) pbt::failf("stage %d is launched twice at once", id);
        int k = s.launches.fetch_add(1) + 1;
        if (s.entered < k * s.N) pbt::failf("stage %d (threshold %d) launched its batch %d after %d entries", id, s.N, k, (int)s.entered);
        if (s.slowLaunch) std::this_thread::sleep_for(std::chrono::microseconds(200));
        else std::this_thread::yield();
        if (s.left > (k - 1) * s.N) pbt::failf("stage %d: an element had passed before the launch of its batch %d ended (%d had left)", id, k, (int)s.left);
        s.inLaunch--;
    }
};
class N : public GNode {
public:
    std::vector<int> path; int delay = 0; int reps = 1; int unknown = 0; int holds = 0, held = 0;
    CStatus run() override {
        for (int r = 0; r < reps; r++) {
            for (int x : path) {
                if (delay == 1) std::this_thread::yield(); else if (delay > 1) std::this_thread::sleep_for(std::chrono::microseconds(delay * 15));
                St& s = *(*sts)[x];
                s.entered++;
                CStatus st = enterStage("s" + std::to_string(x));
                int j = s.left.fetch_add(1) + 1;
                if (st.isErr()) pbt::fail("entering a stage failed: " + st.getInfo());
                int need = (j + s.N - 1) / s.N;
                if (s.launches < need) pbt::failf("%d elements have passed stage %d (threshold %d) after %d launches", j, x, s.N, (int)s.launches);
            }
        }
        if (unknown && enterStage(unknown == 1 ? "nostage" : "").isOK()) pbt::fail("entering an unknown stage returned OK");
        return CStatus();
    }
    CBool isHold() override { if (held < holds) { held++; return true; } held = 0; return false; }
};
class R : public GRegion {};
static void prop(Src& src, Ctx& ctx) {
    std::vector<std::unique_ptr<St>> st; sts = &st; made = 0;
    GPipelinePtr p = GPipelineFactory::create();
    int layers = src.range(1, 3), width = 0;
    GEngineType eng = src.chance(1, 3) ? GEngineType::STATIC : GEngineType::DYNAMIC;   // the topo engine is serial
    p->setGEngineType(eng);
    GElementPtrSet prev;
    std::vector<std::pair<int, int>> expect;      // stage -> entries per run
    bool multi = false, batches = false, overlap = false;
    int inRegion = 0;
    for (int l = 0; l < layers; l++) {
        bool samePath = src.chance(2, 3);       // everyone together, any repetitions; otherwise more members than the threshold, one entry each
        int M, stages = 0; std::vector<int> path;
        int thr;
        if (samePath) { M = src.pick({2, 3, 2, 1}) == 0 ? 2 : src.range(1, 8); thr = M; }
        else { thr = src.range(1, 4); M = thr * src.range(1, 4); if (M > 12) M = thr * 2; overlap |= M > thr; }
        stages = samePath ? src.range(1, 3) : 1;
        for (int i = 0; i < stages; i++) {
            int id = (int)st.size();
            st.emplace_back(new St()); st.back()->N = thr; st.back()->slowLaunch = src.chance(1, 4);
            p->addGStage<S>("s" + std::to_string(id), thr);
            path.push_back(id);
        }
        int reps = samePath ? (src.pick({2, 2}) == 0 ? 1 : src.range(2, 12)) : 1;
        int loop = samePath && src.chance(1, 3) ? src.range(2, 4) : 1;
        int holds = samePath && src.chance(1, 4) ? src.range(1, 3) : 0;
        if (samePath && src.chance(1, 3) && path.size() > 1) path.push_back(path[0]);     // enter the first stage again after the others
        bool region = src.chance(1, 4);
        width = std::max(width, M);
        ctx.desc << "layer " << l << ": " << M << " elements, threshold " << thr << ", path";
        for (int x : path) ctx.desc << " s" << x;
        ctx.desc << ", reps " << reps << " loop " << loop << " holds " << holds << (region ? ", in a region" : "") << "\n";
        GElementPtrSet cur; GElementPtrArr kids; std::vector<N*> all;
        for (int i = 0; i < M; i++) {
            GElementPtr e = nullptr;
            if (region) { e = p->createGNode<N>(GNodeInfo("n" + std::to_string(l) + "_" + std::to_string(i), loop)); kids.push_back(e); }
            else { PBT_CHECK((p->registerGElement<N>(&e, prev, "n" + std::to_string(l) + "_" + std::to_string(i), loop)).isOK(), "register"); cur.insert(e); }
            all.push_back(static_cast<N*>(e));
        }
        for (auto* n : all) { n->path = path; n->reps = reps; n->holds = holds; n->delay = src.pick({3, 2, 2}); if (n->delay == 2) n->delay = src.range(2, 8); if (src.chance(1, 8)) n->unknown = src.range(1, 2); }
        if (region) {
            inRegion++;
            GElementPtr g = p->createGGroup<R>(kids);
            if (eng != GEngineType::DYNAMIC) static_cast<R*>(g)->setGEngineType(eng);
            PBT_CHECK((p->registerGElement<R>(&g, prev, "region" + std::to_string(l), 1)).isOK(), "register region");
            cur.insert(g);
        }
        std::map<int, int> per;
        for (int x : path) per[x] += M * reps * loop * (holds + 1);
        for (auto& q : per) { expect.push_back(q); if (q.second / thr > 1) batches = true; }
        if (M > 1 && thr > 1) multi = true;
        prev = cur;
    }
    UThreadPoolConfig cfg;
    cfg.default_thread_size_ = width + 1 + inRegion; cfg.secondary_thread_size_ = 0; cfg.max_thread_size_ = cfg.default_thread_size_;
    cfg.max_task_steal_range_ = 100; cfg.batch_task_enable_ = false; cfg.primary_thread_empty_interval_ = src.range(1, 5);
    cfg.primary_thread_busy_epoch_ = src.range(0, 20);
    p->setUniqueThreadPoolConfig(cfg);
    int runs = src.range(1, 3), cycles = src.range(1, 2);
    if (src.chance(1, 8)) { bool thrown = false; size_t m0 = made; try { p->addGStage<S>("s0", 2); } catch (const CException&) { thrown = true; } PBT_CHECK(thrown && made == m0, "a stage was registered twice under one key"); }
    if (src.chance(1, 8)) { bool thrown = false; size_t m0 = made; try { p->addGStage<S>("bad", src.range(-2, 0)); } catch (const CException&) { thrown = true; } PBT_CHECK(thrown && made == m0, "a stage with a threshold below one was accepted"); }
    ctx.desc << runs << " runs, " << cycles << " cycles\n";
    ctx.publish();
    int total = 0;
    for (int c = 0; c < cycles; c++) {
        CStatus s = p->init(); PBT_CHECK(s.isOK(), "init failed: %s", s.getInfo().c_str());
        for (int r = 0; r < runs; r++) {
            s = p->run(); PBT_CHECK(s.isOK(), "run failed: %s", s.getInfo().c_str());
            total++;
            for (auto& q : expect) {
                St& x = *st[q.first];
                PBT_CHECK(x.entered == q.second * total && x.left == q.second * total, "stage %d: %d entries and %d exits, %d expected", q.first, (int)x.entered, (int)x.left, q.second * total);
                PBT_CHECK(x.launches == q.second * total / x.N, "stage %d: %d launches for %d entries with threshold %d", q.first, (int)x.launches, q.second * total, x.N);
            }
        }
        s = p->destroy(); PBT_CHECK(s.isOK(), "destroy failed: %s", s.getInfo().c_str());
        for (auto& x : st) PBT_CHECK(x->inits == c + 1 && x->destroys == c + 1, "a stage's init was called %d times and its destroy %d times", (int)x->inits, (int)x->destroys);
    }
    GPipelineFactory::remove(p);
    ctx.nontrivial = multi;
    if (batches) ctx.label("a stage is used by several batches");
    if (overlap) ctx.label("more elements than the threshold");
    if (inRegion) ctx.label("in a region");
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
