// C19: topic messages: delivered once, in order, within capacity rules.
#include "msg.h"
using namespace msg;
using pbt::Src;
using pbt::Ctx;
static const char* TN[] = {"t", "t0", "", "PS_PRE_t", "SR_PRE_t"};
struct Topic { bool exists = false; int type = 0; int cap = 0; std::deque<Got> q; };
static CStatus create(const std::string& t, int type, int cap) { CUInt c = cap; if (type == 0) { CStatus st = CGRAPH_CREATE_MESSAGE_TOPIC(A, t, c) return st; } CStatus st = CGRAPH_CREATE_MESSAGE_TOPIC(B, t, c) return st; }
static CStatus sendT(const std::string& t, int type, int s, int n, int k) { return type == 0 ? send<A>(t, s, n, k) : send<B>(t, s, n, k); }
static CStatus recvT(const std::string& t, int type, CMSec to, Got& g) { return type == 0 ? recv<A>(t, to, g) : recv<B>(t, to, g); }
static CStatus removeT(const std::string& t) { CStatus st = CGRAPH_REMOVE_MESSAGE_TOPIC(t) return st; }
static CStatus pubA(const std::string& t) { std::shared_ptr<A> m(new A(1, 1)); CStatus st = CGRAPH_PUB_MPARAM(A, t, m, GMessagePushStrategy::DROP) return st; }

static void seq(Src& src, Ctx& ctx) {
    Topic tp[5]; int n = 0, recvd = 0, fulls = 0;
    int k = src.range(1, 5), ops = src.sized(4, 70);
    for (int i = 0; i < ops; i++) {
        int w = src.range(0, k - 1); Topic& t = tp[w]; std::string name = TN[w];
        switch (src.pick({3, 10, 7, 1, 1, 1})) {
            case 0: {
                int type = src.pick({3, 2}), cap = src.pick({3, 1}) ? src.range(4, 20) : src.range(1, 3); bool same = t.exists && src.flip(); if (same) { type = t.type; cap = t.cap; }
                ctx.desc << " create" << w << (type ? "B" : "A") << cap; ctx.publish();
                CStatus st = create(name, type, cap); bool want = !t.exists || (type == t.type && cap == t.cap);
                PBT_CHECK(st.isOK() == want, "creating topic '%s' (exists %d) with %s type and size returns '%s'", name.c_str(), t.exists, want ? "the same" : "another", st.getInfo().c_str());
                if (!t.exists) { t.exists = true; t.type = type; t.cap = cap; t.q.clear(); }
                break;
            }
            case 1: {
                int s = src.pick({2, 2, 2}); bool full = t.exists && (int)t.q.size() == t.cap; if (full) fulls++;
                if (full && s == 0) s = 1 + src.range(0, 1);
                ctx.desc << " send" << w << sname(s)[0] << n; ctx.publish();
                CStatus st = sendT(name, t.type, w, n, s); PBT_CHECK(st.isOK() == t.exists, "a send to the %s topic returns '%s'", t.exists ? "existing" : "unknown", st.getInfo().c_str());
                if (t.exists) { if (full) { if (s == 1) { t.q.pop_front(); t.q.push_back({w, n}); } } else t.q.push_back({w, n}); }
                n++;
                break;
            }
            case 2: {
                int to = src.pick({3, 1}) ? src.range(1, 2) : 0; Got g{-1, -1}; ctx.desc << " recv" << w; ctx.publish();
                double t0 = pbt::now_s(); CStatus st = recvT(name, t.type, to, g);
                if (t.exists && !t.q.empty()) { PBT_CHECK(st.isOK(), "a receive from a topic with %zu messages fails: %s", t.q.size(), st.getInfo().c_str()); PBT_CHECK(g.s == w && g.n == t.q.front().n, "topic %d yields message %d of topic %d, expected message %d", w, g.n, g.s, t.q.front().n); t.q.pop_front(); recvd++; }
                else { PBT_CHECK(st.isErr(), "a receive from an empty or unknown topic succeeds"); if (t.exists) PBT_CHECK(pbt::now_s() - t0 >= to * 1e-3 - 1e-4, "a receive gives up before its limit"); }
                break;
            }
            case 3: { ctx.desc << " remove" << w; ctx.publish(); CStatus st = removeT(name); PBT_CHECK(st.isOK() == t.exists, "removing a topic (exists %d) returns '%s'", t.exists, st.getInfo().c_str()); t.exists = false; t.q.clear(); break; }
            case 4: PBT_CHECK(pubA(name).isErr(), "a send/receive topic can be published to"); break;
            default: if (src.chance(1, 4)) { CGRAPH_CLEAR_MESSAGES() for (auto& x : tp) { x.exists = false; x.q.clear(); } ctx.desc << " clear"; }
        }
    }
    CGRAPH_CLEAR_MESSAGES()
    PBT_CHECK(alive() == 0, "%lld messages are alive after all topics are gone", (long long)alive());
    ctx.nontrivial = recvd >= 2; ctx.label("sequential"); if (fulls) ctx.label("full topic");
}

static void conc(Src& src, Ctx& ctx) {
    int topics = src.range(1, 2); bool mixed = src.chance(1, 3), dropOnly = !mixed && src.chance(1, 4), noise = src.flip();
    struct Prod { int topic; std::vector<int> strat, us; }; struct Cons { int topic; std::vector<int> us; std::vector<Got> got; };
    std::vector<Prod> ps; std::vector<Cons> cs; std::vector<int> cap(topics), type(topics); std::vector<int> perTopic(topics, 0);
    for (int t = 0; t < topics; t++) {
        type[t] = src.pick({3, 2}); cap[t] = src.pick({3, 1}) ? src.range(3, 12) : src.range(1, 2);
        int np = src.range(1, 3), nc = src.range(1, 3);
        for (int i = 0; i < np; i++) { Prod p; p.topic = t; int m = src.sized(1, 30); for (int j = 0; j < m; j++) { p.strat.push_back(mixed ? src.pick({2, 1, 1}) : dropOnly ? 2 : 0); p.us.push_back(src.pick({5, 1}) ? src.range(0, 80) : 0); } perTopic[t] += m; ps.push_back(p); }
        for (int i = 0; i < nc; i++) { Cons c; c.topic = t; c.us.assign(7, 0); for (auto& u : c.us) u = src.pick({4, 1}) ? src.range(0, 100) : 0; cs.push_back(c); }
        if (dropOnly && src.flip()) cap[t] = perTopic[t];
    }
    ctx.desc << topics << " topics, " << ps.size() << " senders, " << cs.size() << " receivers" << (mixed ? ", mixed strategies" : dropOnly ? ", dropping" : ", waiting") << (noise ? ", other topics come and go" : "") << "; capacities"; for (int c : cap) ctx.desc << " " << c; ctx.desc << "; sends"; for (auto& p : ps) ctx.desc << " " << p.strat.size(); ctx.desc << "\n"; ctx.publish();
    std::vector<std::string> name; for (int t = 0; t < topics; t++) { name.push_back("c" + std::to_string(t)); PBT_CHECK(create(name[t], type[t], cap[t]).isOK(), "create"); }
    std::atomic<int> active{(int)ps.size()}; std::atomic<bool> stop{false};
    std::vector<std::thread> ts;
    for (size_t i = 0; i < ps.size(); i++) ts.emplace_back([&, i] { auto& p = ps[i]; for (size_t j = 0; j < p.strat.size(); j++) { sleepUs(p.us[j]); CStatus st = sendT(name[p.topic], type[p.topic], (int)i, (int)j, p.strat[j]); if (st.isErr()) pbt::failf("a send failed: %s", st.getInfo().c_str()); } active--; });
    for (size_t i = 0; i < cs.size(); i++) ts.emplace_back([&, i] {
        auto& c = cs[i]; size_t k = 0;
        for (;;) { bool last = active == 0; Got g; CStatus st = recvT(name[c.topic], type[c.topic], 1, g); if (st.isOK()) { c.got.push_back(g); sleepUs(c.us[k++ % 7]); } else if (last) break; }
    });
    std::thread nz; int nn = src.range(3, 40);
    if (noise) nz = std::thread([&] { for (int i = 0; i < nn || active > 0; i++) { if (active == 0 && i >= nn) break; std::string t = "noise" + std::to_string(i % 23); Got g; if (create(t, 0, 4).isErr()) pbt::fail("creating another topic failed"); if (sendT(t, 0, 0, i, 0).isErr()) pbt::fail("send to a fresh topic"); if (recvT(t, 0, 0, g).isErr() || g.n != i) pbt::fail("a fresh topic yields a wrong message"); if (removeT(t).isErr()) pbt::fail("remove"); } });
    for (auto& t : ts) t.join();
    if (noise) nz.join();
    std::vector<std::vector<int>> cnt(ps.size()); for (size_t i = 0; i < ps.size(); i++) cnt[i].assign(ps[i].strat.size(), 0);
    std::vector<int> got(topics, 0);
    for (auto& c : cs) { std::vector<int> last(ps.size(), -1); for (auto& g : c.got) { PBT_CHECK(g.s >= 0 && g.s < (int)ps.size() && ps[g.s].topic == c.topic, "a message of another topic is received"); PBT_CHECK(g.n > last[g.s], "message %d of sender %d is received after message %d", g.n, g.s, last[g.s]); last[g.s] = g.n; if (++cnt[g.s][g.n] > 1) pbt::failf("message %d of sender %d is received twice", g.n, g.s); got[c.topic]++; } }
    for (size_t i = 0; i < ps.size(); i++) for (size_t j = 0; j < cnt[i].size(); j++) if (!mixed && (!dropOnly || cap[ps[i].topic] >= perTopic[ps[i].topic])) PBT_CHECK(cnt[i][j] == 1, "message %zu of sender %zu is lost", j, i);
    for (int t = 0; t < topics; t++) if (mixed || dropOnly) PBT_CHECK(got[t] >= std::min(cap[t], perTopic[t]) || mixed, "topic of capacity %d delivers %d of %d messages", cap[t], got[t], perTopic[t]);
    for (int t = 0; t < topics; t++) PBT_CHECK(removeT(name[t]).isOK(), "remove");
    CGRAPH_CLEAR_MESSAGES()
    PBT_CHECK(alive() == 0, "%lld messages are alive after all topics are gone", (long long)alive());
    ctx.nontrivial = ps.size() >= 2 || cs.size() >= 2; ctx.label(mixed ? "concurrent, mixed strategies" : dropOnly ? "concurrent, dropping" : "concurrent, waiting"); if (noise) ctx.label("other topics come and go");
}

// topics are removed and created again while others send and receive
static void chaos(Src& src, Ctx& ctx) {
    int cap = src.range(1, 4), np = src.range(1, 3), nc = src.range(1, 3), rounds = src.range(1, 6), m = src.range(5, 60);
    std::vector<int> us; for (int i = 0; i < rounds * 2; i++) us.push_back(src.range(0, 300));
    bool clearAll = src.chance(1, 4); int type = src.pick({3, 1});
    ctx.desc << np << " senders of " << m << ", " << nc << " receivers; the topic (capacity " << cap << ") is " << (clearAll ? "cleared" : "removed") << " " << rounds << " times\n"; ctx.publish();
    PBT_CHECK(create("x", type, cap).isOK(), "create");
    std::atomic<int> active{np}; std::vector<std::thread> ts; std::vector<std::vector<Got>> got(nc);
    for (int i = 0; i < np; i++) ts.emplace_back([&, i] { for (int j = 0; j < m; j++) (void)sendT("x", type, i, j, (i + j) % 3); active--; });
    for (int i = 0; i < nc; i++) ts.emplace_back([&, i] { for (;;) { bool last = active == 0; Got g; if (recvT("x", type, 1, g).isOK()) got[i].push_back(g); else { if (last) break; sleepUs(20); } } });
    for (int r = 0; r < rounds; r++) { sleepUs(us[r * 2]); if (clearAll) { CGRAPH_CLEAR_MESSAGES() } else PBT_CHECK(removeT("x").isOK(), "remove"); sleepUs(us[r * 2 + 1]); PBT_CHECK(create("x", type, cap).isOK(), "create again"); }
    for (auto& t : ts) t.join();
    std::set<std::pair<int, int>> seen;
    for (auto& g : got) { std::vector<int> last(np, -1); for (auto& x : g) { PBT_CHECK(seen.insert({x.s, x.n}).second, "message %d of sender %d is received twice", x.n, x.s); PBT_CHECK(x.n > last[x.s], "out of order"); last[x.s] = x.n; } }
    CGRAPH_CLEAR_MESSAGES()
    PBT_CHECK(alive() == 0, "%lld messages are alive after all topics are gone", (long long)alive());
    ctx.nontrivial = true; ctx.label("removed while in use");
}
static void prop(Src& src, Ctx& ctx) {
    switch (src.pick({3, 4, 1})) { case 0: seq(src, ctx); break; case 1: conc(src, ctx); break; default: chaos(src, ctx); }
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
