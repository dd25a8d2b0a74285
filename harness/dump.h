// Reader for the graph text a pipeline dumps (the subset of DOT it uses), and the comparison with a Graph.
#ifndef VERIF_DUMP_H
#define VERIF_DUMP_H
#include "probe.h"

namespace dot {
struct Node { std::string id, cluster; std::map<std::string, std::string> attrs; };
struct Edge { std::string a, b; std::map<std::string, std::string> attrs; };
struct Cluster { std::string id, parent; std::map<std::string, std::string> attrs; };
struct Text {
    std::vector<Node> nodes;
    std::vector<Edge> edges;
    std::map<std::string, Cluster> clusters;
};

class Parser {
public:
    explicit Parser(const std::string& t) : t(t) { next(); }
    Text parse() {
        expect("digraph"); next(); expect("{");
        body("");
        if (!tok.empty()) bad("text after the closing brace");
        return out;
    }
private:
    void bad(const std::string& m) { pbt::failf("the dumped text is not a well-formed graph: %s near offset %zu: '%s'", m.c_str(), i, t.substr(i > 20 ? i - 20 : 0, 60).c_str()); }
    void next() {
        while (i < t.size() && isspace((unsigned char)t[i])) i++;
        tok.clear(); str = false;
        if (i >= t.size()) return;
        char c = t[i];
        if (c == '"') {
            str = true; i++;
            while (i < t.size() && t[i] != '"') { if (t[i] == '\\' && i + 1 < t.size()) i++; tok += t[i++]; }
            if (i >= t.size()) bad("string without an end");
            i++;
            tok = "\"" + tok;
            return;
        }
        if (t.compare(i, 2, "->") == 0) { tok = "->"; i += 2; return; }
        if (strchr("{}[]=;,", c)) { tok = std::string(1, c); i++; return; }
        while (i < t.size() && (isalnum((unsigned char)t[i]) || t[i] == '_' || t[i] == '.' || (unsigned char)t[i] > 127)) tok += t[i++];
        if (tok.empty()) bad("unexpected character");
    }
    void expect(const char* s) { if (tok != s) bad(std::string("expected ") + s); next(); }
    std::string id() { if (tok.empty() || (!str && strchr("{}[]=;,", tok[0])) || tok == "->") bad("expected a name"); std::string r = str ? tok.substr(1) : tok; next(); return r; }
    void attrs(std::map<std::string, std::string>& m) {
        while (tok == "[" && !str) {
            next();
            while (tok != "]") {
                std::string k = id();
                expect("=");
                m[k] = id();
                if (tok == "," || tok == ";") next();
                if (tok.empty()) bad("attribute list without an end");
            }
            next();
        }
    }
    void body(const std::string& cluster) {
        for (;;) {
            if (tok.empty()) bad("block without an end");
            if (tok == "}" && !str) { next(); return; }
            if (tok == ";") { next(); continue; }
            if (tok == "subgraph") {
                next();
                std::string c = id();
                if (out.clusters.count(c)) bad("block " + c + " opened twice");
                out.clusters[c] = Cluster{c, cluster, {}};
                expect("{");
                body(c);
                continue;
            }
            std::string a = id();
            if (tok == "=") {
                next();
                std::string v = id();
                if (!cluster.empty()) out.clusters[cluster].attrs[a] = v;
            } else if (tok == "->") {
                next();
                Edge e; e.a = a; e.b = id();
                attrs(e.attrs);
                out.edges.push_back(e);
            } else {
                Node n; n.id = a; n.cluster = cluster;
                attrs(n.attrs);
                out.nodes.push_back(n);
            }
        }
    }
    const std::string& t;
    size_t i = 0;
    std::string tok;
    bool str = false;
    Text out;
};

inline std::string first_line(const std::string& s) { return s.substr(0, s.find('\n')); }

// what the dump says, with names in place of addresses
struct View {
    std::map<std::string, std::string> parent;                          // element -> enclosing group ("" = top)
    std::map<std::string, std::string> label;                           // element -> full label text
    std::map<std::string, std::string> groupLabel;                      // group -> label of its block
    std::multiset<std::tuple<std::string, std::string, std::string>> edges;   // from, to, label
    std::map<std::string, bool> red;
    std::string str() const {
        std::ostringstream o;
        for (auto& p : parent) o << p.first << " in '" << p.second << "' '" << first_line(label.at(p.first)) << "'\n";
        for (auto& p : groupLabel) o << p.first << " block '" << first_line(p.second) << "'\n";
        for (auto& e : edges) o << std::get<0>(e) << " -> " << std::get<1>(e) << " [" << std::get<2>(e) << "]\n";
        return o.str();
    }
};
inline View view(const std::string& text) {
    Text t = Parser(text).parse();
    std::map<std::string, std::string> name;      // id -> name
    View v;
    std::map<std::string, std::string> cl;
    for (auto& n : t.nodes) {
        auto it = n.attrs.find("label");
        if (it == n.attrs.end()) continue;
        if (name.count(n.id)) pbt::failf("the dump contains the element '%s' twice", first_line(it->second).c_str());
        std::string nm = first_line(it->second);
        name[n.id] = nm;
        if (v.label.count(nm)) pbt::failf("the dump contains two elements named '%s'", nm.c_str());
        v.label[nm] = it->second;
        cl[nm] = n.cluster;
    }
    auto group_of = [&](const std::string& c) -> std::string {
        if (c.empty()) return "";
        std::string id = c.compare(0, 8, "cluster_") == 0 ? c.substr(8) : c;
        if (!name.count(id)) pbt::failf("the dump has a group block %s that belongs to no element", c.c_str());
        return name[id];
    };
    for (auto& c : cl) v.parent[c.first] = group_of(c.second);
    for (auto& n : t.nodes) if (!name.count(n.id)) pbt::failf("the dump mentions %s, which is no element", n.id.c_str());
    for (auto& c : t.clusters) {
        std::string g = group_of(c.first);
        if (group_of(c.second.parent) != v.parent[g]) pbt::failf("the block of group %s is not nested like its element", g.c_str());
        auto it = c.second.attrs.find("label");
        v.groupLabel[g] = it == c.second.attrs.end() ? "" : it->second;
    }
    for (auto& e : t.edges) {
        if (!name.count(e.a) || !name.count(e.b)) pbt::failf("the dump has an edge from or to an element it does not contain");
        auto it = e.attrs.find("label");
        v.edges.insert(std::make_tuple(name[e.a], name[e.b], it == e.attrs.end() ? std::string() : it->second));
    }
    return v;
}

// what the dump of a pipeline with the graph g must say
inline View expected(pr::Graph& g, bool mutableChildren = true) {
    using namespace pr;
    View v;
    for (auto& sp : g.specs) {
        Spec& s = *sp;
        bool hidden = false;                       // what is inside a mutable group is not shown
        if (!mutableChildren) for (int a : g.ancestors(s.id)) hidden |= g[a].kind == MUTABLE_K;
        if (hidden) continue;
        v.parent[s.name] = s.parent < 0 ? "" : g[s.parent].name;
        v.label[s.name] = s.name;
        if (s.isGroup() && (mutableChildren || s.kind != MUTABLE_K)) v.groupLabel[s.name] = s.name + (s.loop > 1 ? "(loop=" + std::to_string(s.loop) + ")" : "");
        if (!s.isGroup() && s.loop > 1) v.edges.insert(std::make_tuple(s.name, s.name, std::to_string(s.loop)));
        for (int d : s.deps) v.edges.insert(std::make_tuple(g[d].name, s.name, ""));
        if (s.kind == CLUSTER) for (size_t i = 1; i < s.children.size(); i++) v.edges.insert(std::make_tuple(g[s.children[i - 1]].name, g[s.children[i]].name, ""));
        if (s.kind == COND || s.kind == MULTI_S || s.kind == MULTI_P) for (size_t i = 0; i < s.children.size(); i++) v.edges.insert(std::make_tuple(s.name, g[s.children[i]].name, std::to_string(i)));
    }
    return v;
}
inline void same(const View& got, const View& want, const char* what) {
    for (auto& p : want.parent) {
        PBT_CHECK(got.parent.count(p.first), "%s: the element %s is missing", what, p.first.c_str());
        PBT_CHECK(got.parent.at(p.first) == p.second, "%s: %s is shown inside '%s', not '%s'", what, p.first.c_str(), got.parent.at(p.first).c_str(), p.second.c_str());
    }
    for (auto& p : got.parent) PBT_CHECK(want.parent.count(p.first), "%s: unknown element '%s'", what, p.first.c_str());
    for (auto& p : want.groupLabel) {
        PBT_CHECK(got.groupLabel.count(p.first), "%s: the group %s has no block", what, p.first.c_str());
        PBT_CHECK(first_line(got.groupLabel.at(p.first)) == p.second, "%s: the block of group %s is labelled '%s', not '%s'", what, p.first.c_str(), first_line(got.groupLabel.at(p.first)).c_str(), p.second.c_str());
    }
    for (auto& p : got.groupLabel) PBT_CHECK(want.groupLabel.count(p.first), "%s: %s is shown as a group", what, p.first.c_str());
    for (auto& e : want.edges) PBT_CHECK(got.edges.count(e) == want.edges.count(e), "%s: the edge %s -> %s [%s] appears %zu times, expected %zu", what, std::get<0>(e).c_str(), std::get<1>(e).c_str(), std::get<2>(e).c_str(), got.edges.count(e), want.edges.count(e));
    for (auto& e : got.edges) PBT_CHECK(want.edges.count(e), "%s: unexpected edge %s -> %s [%s]", what, std::get<0>(e).c_str(), std::get<1>(e).c_str(), std::get<2>(e).c_str());
}
}  // namespace dot
#endif
