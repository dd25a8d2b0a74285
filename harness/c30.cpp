// C30: LRU cache, small vector and serial-unique array against models, on counting element types.
#include "pbt.h"
#include "CGraph.h"
#include <list>
#include <algorithm>
using namespace CGraph;
using pbt::Src;
using pbt::Ctx;

static int64_t alive;
struct Tr {          // tracked, heap-owning value
    int v = 0; std::string pad;
    Tr() { alive++; } Tr(int x) : v(x), pad(std::abs(x) % 7 * 9, 'p') { alive++; }
    Tr(const Tr& o) : v(o.v), pad(o.pad) { alive++; }
    Tr& operator=(const Tr& o) { v = o.v; pad = o.pad; return *this; }
    ~Tr() { alive--; }
    bool operator==(const Tr& o) const { return v == o.v && pad == o.pad; }
    bool operator<(const Tr& o) const { return v < o.v; }
};
namespace std { template <> struct hash<Tr> { size_t operator()(const Tr& t) const { return std::hash<int>()(std::abs(t.v) % 5); } }; }
static int num(const Tr& t) { if (t.pad != std::string(std::abs(t.v) % 7 * 9, 'p')) pbt::fail("an element's contents are damaged"); return t.v; }
static int num(int t) { return t; }
static int num(const std::string& t) { return atoi(t.c_str()); }
template <class T> T mk(int v) { return T(v); }
template <> std::string mk<std::string>(int v) { return std::to_string(v) + std::string(std::abs(v) % 5 * 8, ' '); }

template <class K, class V, CSize C> void lru(Src& src, Ctx& ctx) {
    ctx.desc << "lru of capacity " << C << ":"; ctx.label("lru");
    auto l = std::unique_ptr<ULru<K, V, C>>(new ULru<K, V, C>());
    std::list<std::pair<int, int>> m;       // most recent first
    PBT_CHECK(l->getCapacity() == C, "capacity %zu", (size_t)l->getCapacity());
    int ops = src.sized(2, 60), evict = 0, keys = src.range(1, (int)C * 2 + 2);
    for (int i = 0; i < ops; i++) {
        int k = src.range(0, keys - 1);
        auto it = std::find_if(m.begin(), m.end(), [&](std::pair<int, int>& p) { return p.first == k; });
        int op = src.pick({5, 5, 1});
        if (op == 0) {
            int v = src.range(0, 999); ctx.desc << " put " << k << "=" << v; ctx.publish();
            l->put(mk<K>(k), mk<V>(v));
            if (it != m.end()) m.erase(it); else if (m.size() >= C) { m.pop_back(); evict++; }
            m.emplace_front(k, v);
        } else if (op == 1) {
            ctx.desc << " get " << k; ctx.publish();
            V v = mk<V>(-7); bool r = l->get(mk<K>(k), v);
            PBT_CHECK(r == (it != m.end()), "get %d returned %d", k, r);
            if (r) { PBT_CHECK(num(v) == it->second, "get %d yields %d, expected %d", k, num(v), it->second); auto p = *it; m.erase(it); m.push_front(p); }
            else PBT_CHECK(num(v) == -7, "get of an absent key wrote a value");
        } else if (src.chance(1, 4)) { ctx.desc << " clear"; l->clear(); m.clear(); }
    }
    // read everything out in reverse recency order, so that reading does not evict or hide anything
    std::vector<std::pair<int, int>> all(m.rbegin(), m.rend());
    for (int k = 0; k < keys; k++) if (std::none_of(all.begin(), all.end(), [&](std::pair<int, int>& p) { return p.first == k; })) { V v = mk<V>(0); PBT_CHECK(!l->get(mk<K>(k), v), "key %d should have been evicted", k); }
    for (auto& p : all) { V v = mk<V>(0); PBT_CHECK(l->get(mk<K>(p.first), v) && num(v) == p.second, "key %d lost", p.first); }
    ctx.nontrivial = evict > 0; if (evict) ctx.label("lru evicts");
}
template <class T, CSize C> void small(Src& src, Ctx& ctx) {
    ctx.desc << "small vector of step " << C << ":"; ctx.label("small vector");
    typedef USmallVector<T, C> SV;
    std::vector<std::unique_ptr<SV>> v; std::vector<std::vector<int>> m;
    v.emplace_back(new SV()); m.emplace_back();
    auto same = [&](size_t i, const char* op) {
        const SV& a = *v[i]; auto& b = m[i];
        PBT_CHECK(a.size() == b.size() && a.empty() == b.empty(), "after %s: size %zu, expected %zu", op, (size_t)a.size(), b.size());
        std::vector<T> x = a.asVector(); PBT_CHECK(x.size() == b.size(), "after %s: asVector() has %zu elements", op, x.size());
        size_t q = 0; for (const auto& e : a) { PBT_CHECK(q < b.size() && num(e) == b[q], "after %s: element %zu", op, q); q++; }
        PBT_CHECK(q == b.size(), "after %s: iteration yields %zu elements", op, q);
        for (q = 0; q < b.size(); q++) { PBT_CHECK(num(a[q]) == b[q] && num(x[q]) == b[q], "after %s: element %zu is %d, expected %d", op, q, num(a[q]), b[q]); }
        if (!b.empty()) PBT_CHECK(num(a.front()) == b.front() && num(a.back()) == b.back(), "after %s: front/back", op);
    };
    int ops = src.sized(2, 50), grown = 0, copies = 0;
    for (int k = 0; k < ops; k++) {
        size_t i = src.below((uint32_t)v.size());
        int x = src.range(0, 11); std::string op;
        auto pos = std::find(m[i].begin(), m[i].end(), x);
        switch (src.pick({6, 4, 3, 2, 2, 2, 1, 1})) {
            case 0: { bool u = src.flip(); op = u ? "insert unique " : "insert "; ctx.desc << " " << op << x << "@" << i; ctx.publish(); size_t b = m[i].size(); if (src.flip() || !u) { if (u) v[i]->insert(mk<T>(x)); else v[i]->insert(mk<T>(x), false); } else v[i]->insert(mk<T>(x), true); if (!u || pos == m[i].end()) m[i].push_back(x); if (b && b % C == 0 && m[i].size() > b) grown++; break; }
            case 1: { op = "remove"; ctx.desc << " " << op << x << "@" << i; ctx.publish(); bool r = v[i]->remove(mk<T>(x)); PBT_CHECK(r == (pos != m[i].end()), "remove(%d) returned %d", x, r); if (r) m[i].erase(pos); break; }
            case 2: { op = "hasValue"; ctx.desc << " has " << x << "@" << i; PBT_CHECK(v[i]->hasValue(mk<T>(x)) == (pos != m[i].end()), "hasValue(%d)", x); break; }
            case 3: if (src.chance(1, 3)) { op = "clear"; ctx.desc << " clear@" << i; ctx.publish(); v[i]->clear(); m[i].clear(); } break;
            case 4: if (!m[i].empty()) { op = "assignment by index"; size_t q = src.below((uint32_t)m[i].size()); ctx.desc << " set" << q << "=" << x << "@" << i; (*v[i])[q] = mk<T>(x); m[i][q] = x; } break;
            case 5: if (v.size() < 4) { op = "copy"; ctx.desc << " copy@" << i; ctx.publish(); v.emplace_back(new SV(*v[i])); m.push_back(m[i]); copies++; } break;
            case 6: { size_t j = src.below((uint32_t)v.size()); op = "assignment"; ctx.desc << " assign" << j << "@" << i; ctx.publish(); *v[i] = *v[j]; m[i] = m[j]; copies++; break; }
            default: if (!m[i].empty()) { op = "insert of an own element"; size_t q = src.below((uint32_t)m[i].size()); ctx.desc << " own" << q << "@" << i; ctx.publish(); v[i]->insert((*v[i])[q], false); int y = m[i][q]; m[i].push_back(y); }
        }
        for (size_t z = 0; z < v.size(); z++) same(z, op.c_str());
    }
    ctx.nontrivial = grown > 0; if (grown) ctx.label("small vector grows"); if (copies) ctx.label("small vector copied");
}
template <class T> void uniq(Src& src, Ctx& ctx) {
    ctx.desc << "unique array:"; ctx.label("unique array");
    USerialUniqueArray<T> a; std::vector<int> m; int dup = 0;
    int ops = src.sized(2, 50);
    for (int k = 0; k < ops; k++) {
        int x = src.range(0, 15);
        int op = src.pick({8, 3, 1});
        if (op == 0) { ctx.desc << " +" << x; ctx.publish(); a.uniqueAdd(mk<T>(x)); if (std::find(m.begin(), m.end(), x) == m.end()) m.push_back(x); else dup++; }
        else if (op == 1) {
            std::vector<T> out; int pre = src.range(0, 2); for (int i = 0; i < pre; i++) out.push_back(mk<T>(900));
            a.getUniqueArray(out);
            PBT_CHECK(out.size() == m.size() + pre, "the array has %zu elements, expected %zu", out.size() - pre, m.size());
            for (size_t i = 0; i < m.size(); i++) PBT_CHECK(num(out[i + pre]) == m[i], "element %zu is %d, expected %d", i, num(out[i + pre]), m[i]);
        } else { ctx.desc << " clear"; a.clear(); m.clear(); }
    }
    std::vector<T> out; a.getUniqueArray(out); PBT_CHECK(out.size() == m.size(), "final size");
    for (size_t i = 0; i < m.size(); i++) PBT_CHECK(num(out[i]) == m[i], "final element %zu", i);
    ctx.nontrivial = dup > 0;
}
static void prop(Src& src, Ctx& ctx) {
    int64_t before = alive;
    switch (src.pick({2, 2, 1, 1, 2, 2, 2, 1, 1})) {
        case 0: lru<int, int, 3>(src, ctx); break;
        case 1: lru<Tr, Tr, 5>(src, ctx); break;
        case 2: lru<std::string, Tr, 1>(src, ctx); break;
        case 3: lru<int, std::string, 16>(src, ctx); break;
        case 4: small<int, 4>(src, ctx); break;
        case 5: small<Tr, 2>(src, ctx); break;
        case 6: small<std::string, 1>(src, ctx); break;
        case 7: uniq<int>(src, ctx); break;
        default: uniq<Tr>(src, ctx);
    }
    PBT_CHECK(alive == before, "%lld elements were not destroyed exactly once", (long long)(alive - before));
}
int main(int argc, char** argv) { return pbt::run_main(argc, argv, prop); }
