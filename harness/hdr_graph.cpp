// Graphs and small sets.   hdr_graph OUT SEED MODE A B
//   MODE all:  every undirected graph on A vertices with number in [B, B+1024)      MODE rand: A random graphs of up to B vertices
//   MODE sets: A random experiments on SmallBitset, GospersHack, SubsetEnumerator
#include "tracelog.hpp"
#include <mutable/util/AdjacencyMatrix.hpp>
#include <mutable/util/MinCutAGaT.hpp>
#include <algorithm>
#include <random>
#include <set>
#include <util/AdjacencyMatrix.cpp>

using namespace m;
using S = SmallBitset;
static std::mt19937_64 rng;
static auto & O = tl::Out::get();
static unsigned R(unsigned n) { return n ? rng() % n : 0; }

static std::string J(uint64_t b) { std::string r = "["; for (int i = 0; i < 64; ++i) if (b >> i & 1) { if (r.size() > 1) r += ','; r += std::to_string(i); } return r + "]"; }
static std::string J(S s) { return J(uint64_t(s)); }
static std::string N(long n) { return std::to_string(n); }
struct List {
    std::string s = "["; long n = 0;
    void add(const std::string &x) { if (n++) s += ','; s += x; if (n > 60000) { fprintf(stderr, "runaway enumeration\n"); raise(SIGALRM); } }
    std::string str() const { return s + "]"; }
};
static std::string edges(const AdjacencyMatrix &M, unsigned n) {
    List l; for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (M(i, j)) l.add("[" + N(i) + "," + N(j) + "]"); return l.str();
}
template<typename... T> static void ev(const char *name, T... x) { std::string s = std::string("[\"") + name + "\""; ((s += "," + std::string(x)), ...); O.ev(s + "]"); }

struct Graph { unsigned n; std::vector<unsigned> V; std::vector<std::pair<unsigned,unsigned>> E; };
static S subset(const Graph &g, bool nonempty = true) {
    for (;;) { uint64_t b = 0; unsigned p = 1 + R(4); for (auto v : g.V) if (R(4) < p) b |= 1UL << v; if (b or not nonempty) return S(b); }
}
static S all(const Graph &g) { uint64_t b = 0; for (auto v : g.V) b |= 1UL << v; return S(b); }

static void undirected(const Graph &g, int effort) {
    O.begin("\"kind\":\"undirected\"");
    AdjacencyMatrix M(g.n);
    for (auto [u, v] : g.E) M(u, v) = M(v, u) = true;
    ev("G", N(g.n), edges(M, g.n));
    const S A = all(g);
    for (int i = 0; i < effort; ++i) {
        S s = i ? subset(g) : A, t = subset(g), src = subset(g);
        ev("nb", J(s), J(M.neighbors(s)));
        ev("re", J(src), J(M.reachable(src)));
        ev("rs", J(src), J(t), J(M.reachable(src, t)));
        ev("co", J(s), M.is_connected(s) ? "true" : "false");
        ev("co", J(t), M.is_connected(t) ? "true" : "false");
        if (S r = s - t; r and t) ev("cl", J(r), J(t), M.is_connected(r, t) ? "true" : "false");
    }
    for (int i = 0; i < effort; ++i) {
        S super = i ? subset(g) : A, src = i % 3 ? subset(g) : super;
        List l; 
        if (i % 3 == 0) M.for_each_CSG_undirected(super, [&](S x) { l.add(J(x)); });
        else M.for_each_CSG_undirected(super, src, [&](S x) { l.add(J(x)); });
        ev("csg", J(super), J(src), l.str());
        List p; M.for_each_CSG_pair_undirected(super, [&](S x, S y) { p.add("[" + J(x) + "," + J(y) + "]"); });
        ev("ccp", J(super), p.str());
        if (super.size() > 1 and M.is_connected(super)) {
            List c; MinCutAGaT{}.partition(M, [&](S x, S y) { c.add("[" + J(x) + "," + J(y) + "]"); }, super);
            ev("mc", J(super), c.str());
        }
    }
    if (g.n <= 12) ev("tcu", edges(M.transitive_closure_undirected(), g.n));
    {
        std::vector<std::vector<int>> w(g.n, std::vector<int>(g.n));
        List ws; int range = 1 + R(6);
        for (auto [u, v] : std::set<std::pair<unsigned,unsigned>>([&]{ std::set<std::pair<unsigned,unsigned>> d; for (auto [x, y] : g.E) d.emplace(std::min(x, y), std::max(x, y)); return d; }())) { w[u][v] = w[v][u] = int(R(2 * range)) - range; ws.add("[" + N(u) + "," + N(v) + "," + N(w[u][v]) + "]"); }
        auto F = M.minimum_spanning_forest([&](std::size_t a, std::size_t b) { return double(w.at(a).at(b)); });
        ev("msf", ws.str(), edges(F, g.n));
        if (g.n <= 12) {
            unsigned root = g.V[R(g.V.size())];
            ev("tree", N(root), edges(F, g.n), edges(F.tree_directed_away_from(S::Singleton(root)), g.n));
        }
    }
    O.end();
}

static void directed(unsigned n) {
    O.begin("\"kind\":\"directed\"");
    AdjacencyMatrix M(n); unsigned p = 1 + R(5);
    for (unsigned i = 0; i < n; ++i) for (unsigned j = 0; j < n; ++j) if (R(10) < p and (i != j or R(4) == 0)) M(i, j) = true;
    ev("G", N(n), edges(M, n));
    ev("tcd", edges(M.transitive_closure_directed(), n));
    AdjacencyMatrix C(M); unsigned a = R(n), b = R(n);
    C(a, b) = not C(a, b);
    ev("flip", N(a), N(b), edges(C, n), M == C ? "true" : "false", M != C ? "true" : "false");
    C(a, b) = M(a, b);
    ev("same", edges(C, n), M == C ? "true" : "false", M != C ? "true" : "false");
    O.end();
}

static uint64_t bits(int style) {
    switch (style % 5) { case 0: return rng() & 0xff; case 1: return rng(); case 2: return rng() & rng() & rng() & rng();
        case 3: return (rng() & rng() & rng()) | 1UL << 63; default: return ~(rng() & rng() & rng() & rng() & rng()); }
}
static void sets() {
    O.begin("\"kind\":\"sets\"");
    for (int i = 0; i < 6; ++i) {
        S a(bits(R(5))), b(bits(R(5)));
        ev("bin", J(a), J(b), J(a | b), J(a & b), J(a - b), a.is_subset(b) ? "true" : "false", a == b ? "true" : "false", a != b ? "true" : "false", J(~a));
        S x = a; x |= b; S y = a; y &= b; S z = a; z -= b;
        ev("bin", J(a), J(b), J(x), J(y), J(z), (a & b).is_subset(a) == true ? (a.is_subset(b) ? "true" : "false") : "true", a == b ? "true" : "false", a != b ? "true" : "false", J(~a));
        List f, r; for (auto e : a) f.add(N(e)); for (auto it = a.rbegin(); it != a.rend(); ++it) r.add(N(*it));
        List fs; for (auto it = a.begin(); it != a.end(); it++) fs.add(J(it.as_set()));
        List rs; for (auto it = a.crbegin(); it != a.crend(); it++) rs.add(J(it.as_set()));
        ev("iter", J(a), f.str(), r.str(), fs.str(), rs.str());
        ev("un", J(a), N(a.size()), a.empty() ? "true" : "false", a.is_singleton() ? "true" : "false");
        if (a) { ev("hi", J(a), J(a.hi()), J(a.mask_to_lo()), J(least_subset(a))); S lo = least_subset(a); ev("lm", J(lo), J(lo.singleton_to_lo_mask())); S d = a; --d; ev("dec", J(a), J(d)); }
        if (~uint64_t(a)) { S d = a; ++d; ev("inc", J(a), J(d)); }
        unsigned k = R(65); ev("all", N(k), J(S::All(k)));
        unsigned p = R(64); bool v = R(2); S c = a; c[p] = v; ev("set", J(a), N(p), v ? "true" : "false", J(c), a[p] ? "true" : "false", c.at(p) ? "true" : "false");
    }
    {   // all subsets of a small set
        S a(0); unsigned k = R(7); while (a.size() < k) a(R(64)) = true;
        List l; if (a) for (S n = least_subset(a); bool(n); n = next_subset(n, a)) l.add(J(n));
        ev("sub", J(a), l.str());
        for (unsigned q = 0; q <= a.size(); ++q) {
            List e; for (SubsetEnumerator it(a, q); it; ++it) e.add(J(*it));
            ev("ksub", J(a), N(q), e.str());
        }
    }
    {
        unsigned n = R(9), k = R(n + 1); List l;
        for (auto it = GospersHack::enumerate_all(k, n); it; ++it) l.add(J(*it));
        ev("gos", N(k), N(n), l.str());
        n = 1 + R(8); uint64_t from = 1 + R((1u << n) - 1); List f;
        for (auto it = GospersHack::enumerate_from(S(from), n); it; ++it) f.add(J(*it));
        ev("gof", J(from), N(n), f.str());
        n = 60 + R(4); k = 1 + R(1); List h;
        for (auto it = GospersHack::enumerate_all(k, n); it; ++it) h.add(J(*it));
        ev("gos", N(k), N(n), h.str());
        List h2; k = n - R(2);
        for (auto it = GospersHack::enumerate_all(k, n); it; ++it) h2.add(J(~*it));
        ev("goc", N(k), N(n), h2.str());
    }
    O.end();
}

int main(int argc, char **argv) {
    O.file(argv[1]); rng.seed(std::stoull(argv[2]) * 7919 + std::hash<std::string>{}(argv[3]) + std::stoull(argv[5]));
    std::string mode = argv[3]; tl::catch_crashes(); alarm(mode == "rand" ? 240 : 60);
    unsigned a = std::stoul(argv[4]), b = std::stoul(argv[5]);
    if (mode == "all") {
        for (unsigned g = b; g < std::min(b + 1024u, 1u << (a * (a - 1) / 2)); ++g) {
            Graph G{a, {}, {}}; unsigned k = 0;
            for (unsigned i = 0; i < a; ++i) G.V.push_back(i);
            for (unsigned i = 0; i < a; ++i) for (unsigned j = i + 1; j < a; ++j) if (g >> k++ & 1) G.E.emplace_back(i, j);
            undirected(G, 2);
        }
    } else if (mode == "rand") {
        for (unsigned i = 0; i < a; ++i) {
            unsigned n = 2 + R(b - 1); bool wide = R(2);
            Graph G{wide ? 64u : n, {}, {}};
            std::vector<unsigned> lab; for (unsigned v = 0; v < G.n; ++v) lab.push_back(v);
            std::shuffle(lab.begin(), lab.end(), rng);
            if (wide and R(2)) lab[0] = 63, lab[1] = 0;
            lab.resize(n); std::sort(lab.begin(), lab.end()); lab.erase(std::unique(lab.begin(), lab.end()), lab.end()); G.V = lab; n = lab.size();
            std::shuffle(lab.begin(), lab.end(), rng);
            unsigned shape = R(4), p = R(7);
            for (unsigned x = 1; x < n; ++x) {
                if (shape == 0) G.E.emplace_back(lab[x - 1], lab[x]);
                else if (shape == 1) G.E.emplace_back(lab[0], lab[x]);
                else if (shape == 2) G.E.emplace_back(lab[R(x)], lab[x]);
                for (unsigned y = 0; y < x; ++y) if (R(12) < p) G.E.emplace_back(lab[y], lab[x]);
            }
            undirected(G, 5);
            directed(1 + R(7));
        }
    } else for (unsigned i = 0; i < a; ++i) sets();
    O.close();
    printf("{\"traces\":%ld}\n", O.n);
}
