// C20: publish/subscribe: every current subscriber gets every message, isolated from the others.
#include "msg.h"
using namespace msg;
using pbt::Src;
using pbt::Ctx;
static const char* TN[] = {"t", "t0", "", "SR_PRE_t"};
struct Conn { int topic; int cap; std::deque<Got> q; bool live = true; CIndex id = 0; };
static CIndex bindT(const std::string& t, int type, int cap) { CUInt c = cap; if (type == 0) { CIndex i = CGRAPH_BIND_MESSAGE_TOPIC(A, t, c) return i; } CIndex i = CGRAPH_BIND_MESSAGE_TOPIC(B, t, c) return i; }
static CStatus pubT(const std::string& t, int type, int s, int n, int k) { return type == 0 ? pub<A>(t, s, n, k) : pub<B>(t, s, n, k); }
static CStatus subT(CIndex c, int type, CMSec to, Got& g) { return type == 0 ? sub<A>(c, to, g) : sub<B>(c, to, g); }
static CStatus dropT(const std::string& t) { CStatus st = CGRAPH_DROP_MESSAGE_TOPIC(t) return st; }
static CStatus detach(const std::string& t, CIndex c) { CStatus st = CGRAPH_DETACH_CONN_ID(t, c) return st; }

static void seq(Src& src, Ctx& ctx) {
    int k = src.range(1, 4), ops = src.sized(5, 80), n = 0, got = 0; std::vector<int> type(k), known(k, 0); for (auto& t : type) t = src.pick({3, 2});
    std::vector<Conn> cs; std::set<CIndex> used; int multi = 0, detached = 0;
    for (int i = 0; i < ops; i++) {
        int w = src.range(0, k - 1); std::string name = TN[w];
        switch (src.pick({4, 9, 8, 2, 1, 1, 1})) {
            case 0: { if (cs.size() > 12) break; Conn c; c.topic = w; c.cap = src.pick({3, 1}) ? src.range(3, 12) : src.range(1, 2); ctx.desc << " bind" << w << "/" << c.cap; ctx.publish(); c.id = bindT(name, type[w], c.cap); PBT_CHECK(used.insert(c.id).second, "connection id %d is handed out twice", (int)c.id); cs.push_back(c); known[w] = 2; break; }
            case 1: {
                int s = src.pick({2, 2, 2}); bool full = false; int live = 0; for (auto& c : cs) if (c.live && c.topic == w) { live++; if ((int)c.q.size() == c.cap) full = true; }
                if (full && s == 0) s = 1 + src.range(0, 1);
                ctx.desc << " pub" << w << sname(s)[0] << n; ctx.publish();
                CStatus st = pubT(name, type[w], w, n, s);
                if (live) PBT_CHECK(st.isOK(), "publishing to a topic with %d connections fails: %s", live, st.getInfo().c_str());
                if (known[w] == 0) PBT_CHECK(st.isErr(), "publishing to an unknown topic succeeds");
                if (live > 1) multi++;
                for (auto& c : cs) if (c.live && c.topic == w) { if ((int)c.q.size() < c.cap) c.q.push_back({w, n}); else if (s == 1) { c.q.pop_front(); c.q.push_back({w, n}); } }
                n++; break;
            }
            case 2: {
                if (cs.empty()) { Got g; PBT_CHECK(subT(src.range(1, 5), 0, 0, g).isErr(), "reading from an unknown connection succeeds"); break; }
                Conn& c = cs[src.below(cs.size())]; int to = src.pick({4, 1}) ? 1 : 0; Got g{-1, -1}; ctx.desc << " sub#" << (&c - &cs[0]); ctx.publish();
                CStatus st = subT(c.id, type[c.topic], to, g);
                if (!c.live) PBT_CHECK(st.isErr(), "reading from an ended connection succeeds");
                else if (c.q.empty()) PBT_CHECK(st.isErr(), "reading from a connection without messages succeeds");
                else { PBT_CHECK(st.isOK(), "reading from a connection with %zu messages fails: %s", c.q.size(), st.getInfo().c_str()); PBT_CHECK(g.s == c.topic && g.n == c.q.front().n, "a connection yields message %d of topic %d, expected %d of %d", g.n, g.s, c.q.front().n, c.topic); c.q.pop_front(); got++; }
                break;
            }
            case 3: {
                if (cs.empty()) break; Conn& c = cs[src.below(cs.size())]; ctx.desc << " detach#" << (&c - &cs[0]); ctx.publish();
                bool wrong = src.chance(1, 5) && k > 1; if (wrong) { (void)detach(TN[(c.topic + 1) % k], c.id); break; }
                CStatus st = detach(TN[c.topic], c.id); if (c.live) { PBT_CHECK(st.isOK(), "detaching a connection fails: %s", st.getInfo().c_str()); detached++; } c.live = false; c.q.clear(); if (known[c.topic]) known[c.topic] = 1;
                for (auto& d : cs) if (d.live && d.topic == c.topic) known[c.topic] = 2;
                break;
            }
            case 4: { if (!src.flip()) break; ctx.desc << " drop" << w; ctx.publish(); CStatus st = dropT(name); if (known[w] == 2) PBT_CHECK(st.isOK(), "dropping a topic fails: %s", st.getInfo().c_str()); if (known[w] == 0) PBT_CHECK(st.isErr(), "dropping an unknown topic succeeds"); known[w] = 0; for (auto& c : cs) if (c.topic == w) { c.live = false; c.q.clear(); } break; }
            case 5: { Got g; PBT_CHECK(recv<A>(name, 0, g).isErr() && send<A>(name, 0, 0, 2).isErr(), "a publish topic can be used as a send/receive topic"); break; }
            default: if (src.chance(1, 4)) { ctx.desc << " clear"; CGRAPH_CLEAR_MESSAGES() for (auto& c : cs) { Got g; PBT_CHECK(subT(c.id, type[c.topic], 0, g).isErr(), "a connection can be read after clear"); } cs.clear(); used.clear(); for (auto& x : known) x = 0; }
        }
    }
    CGRAPH_CLEAR_MESSAGES()
    PBT_CHECK(alive() == 0, "%lld messages are alive after all topics are gone", (long long)alive());
    ctx.nontrivial = got >= 2 && multi > 0; ctx.label("sequential"); if (detached) ctx.label("detached");
}

static void conc(Src& src, Ctx& ctx) {
    int topics = src.range(1, 2); bool mixed = src.chance(1, 4), churn = src.flip(), churnSmall = src.flip(), lateDrop = src.chance(1, 4);
    struct Prod { int topic; std::vector<int> strat, us; }; struct Cons { int topic, cap; CIndex id; std::vector<int> us; std::vector<Got> got; };
    std::vector<Prod> ps; std::vector<Cons> cs; std::vector<int> type(topics);
    for (int t = 0; t < topics; t++) {
        type[t] = src.pick({3, 2}); int np = src.range(1, 3), nc = src.range(1, 3);
        for (int i = 0; i < np; i++) { Prod p; p.topic = t; int m = src.sized(1, 25); for (int j = 0; j < m; j++) { p.strat.push_back(mixed ? src.pick({2, 1, 1}) : 0); p.us.push_back(src.pick({5, 1}) ? src.range(0, 80) : 0); } ps.push_back(p); }
        for (int i = 0; i < nc; i++) { Cons c; c.topic = t; c.cap = src.pick({3, 1}) ? src.range(3, 12) : src.range(1, 2); c.us.assign(7, 0); for (auto& u : c.us) u = src.pick({4, 1}) ? src.range(0, 100) : 0; cs.push_back(c); }
    }
    int cn = src.range(2, 40); std::vector<int> cus; for (int i = 0; i < cn; i++) cus.push_back(src.range(0, 120));
    ctx.desc << topics << " topics, " << ps.size() << " publishers of"; for (auto& p : ps) ctx.desc << " " << p.strat.size(); ctx.desc << ", connections (capacity)"; for (auto& c : cs) ctx.desc << " " << c.topic << "(" << c.cap << ")"; ctx.desc << (mixed ? ", mixed strategies" : ", waiting") << (churn ? ", other connections come and go " : "") << (churn ? cn : 0) << "\n"; ctx.publish();
    std::vector<std::string> name; for (int t = 0; t < topics; t++) name.push_back("p" + std::to_string(t));
    std::set<CIndex> ids; for (auto& c : cs) { c.id = bindT(name[c.topic], type[c.topic], c.cap); PBT_CHECK(ids.insert(c.id).second, "ids"); }
    std::atomic<int> active{(int)ps.size()}; std::vector<std::thread> ts;
    for (size_t i = 0; i < ps.size(); i++) ts.emplace_back([&, i] { auto& p = ps[i]; for (size_t j = 0; j < p.strat.size(); j++) { sleepUs(p.us[j]); CStatus st = pubT(name[p.topic], type[p.topic], (int)i, (int)j, p.strat[j]); if (st.isErr()) pbt::failf("a publication failed: %s", st.getInfo().c_str()); } active--; });
    for (size_t i = 0; i < cs.size(); i++) ts.emplace_back([&, i] { auto& c = cs[i]; size_t k = 0; for (;;) { bool last = active == 0; Got g; CStatus st = subT(c.id, type[c.topic], 1, g); if (st.isOK()) { c.got.push_back(g); sleepUs(c.us[k++ % 7]); } else if (last) break; } });
    if (churn) {
        // connections that are not read: publishers that wait on them must be released when they are detached
        std::vector<std::pair<int, CIndex>> open; std::mutex mx;
        for (int i = 0; i < cn; i++) {
            int t = i % topics; CIndex id = bindT(name[t], type[t], churnSmall ? 1 + i % 3 : 1000); if (!ids.insert(id).second) pbt::failf("connection id %d is handed out twice", (int)id);
            sleepUs(cus[i]); Got g; int lastN[8]; for (int& x : lastN) x = -1;
            for (int r = 0; r < i % 4; r++) { CStatus st = subT(id, type[t], 0, g); if (st.isOK()) { PBT_CHECK(ps[g.s].topic == t && g.n > lastN[g.s], "a late connection gets message %d of publisher %d", g.n, g.s); lastN[g.s] = g.n; } }
            PBT_CHECK(detach(name[t], id).isOK(), "detach fails"); PBT_CHECK(subT(id, type[t], 0, g).isErr(), "a detached connection can be read");
        }
    }
    for (auto& t : ts) t.join();
    for (auto& c : cs) {
        std::vector<int> last(ps.size(), -1), cnt(ps.size(), 0);
        for (auto& g : c.got) { PBT_CHECK(ps[g.s].topic == c.topic, "a message of another topic is delivered"); PBT_CHECK(g.n > last[g.s], "connection %d gets message %d of publisher %d after message %d", (int)c.id, g.n, g.s, last[g.s]); last[g.s] = g.n; cnt[g.s]++; }
        if (!mixed) for (size_t i = 0; i < ps.size(); i++) if (ps[i].topic == c.topic) PBT_CHECK(cnt[i] == (int)ps[i].strat.size(), "connection %d gets %d of the %zu messages of publisher %zu", (int)c.id, cnt[i], ps[i].strat.size(), i);
    }
    if (lateDrop) { for (int t = 0; t < topics; t++) PBT_CHECK(dropT(name[t]).isOK(), "drop"); for (auto& c : cs) { Got g; PBT_CHECK(subT(c.id, type[c.topic], 0, g).isErr(), "a connection of a dropped topic can be read"); } }
    CGRAPH_CLEAR_MESSAGES()
    PBT_CHECK(alive() == 0, "%lld messages are alive after all topics are gone", (long long)alive());
    ctx.nontrivial = cs.size() >= 2; ctx.label(mixed ? "concurrent, mixed strategies" : "concurrent, waiting"); if (churn) ctx.label("other connections come and go");
}
static void prop(Src& src, Ctx& ctx) { if (src.pick({3, 5}) == 0) seq(src, ctx); else conc(src, ctx); }
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
