// Partial plans of a plan, and coverings of a logical plan by physical operators.   drv_phys OUT SEED N partial|cover
#include "tracelog.hpp"
#include "IR/PartialPlanGenerator.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/IR/Operator.hpp>
#include <mutable/IR/PhysicalOptimizer.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/storage/Store.hpp>
#include <algorithm>
#include <functional>
#include <map>
#include <random>
#include <sstream>

using namespace m;
static std::mt19937_64 rng;
static auto & O = tl::Out::get();
static unsigned R(unsigned n) { return n ? rng() % n : 0; }
static std::string N(long v) { return std::to_string(v); }
template<class C, class F> static std::string list(const C &c, F f) { std::string r; bool first = true; for (auto &x : c) { if (not first) r += ","; first = false; r += f(x); } return "[" + r + "]"; }
static std::string J(uint64_t b) { std::string r = "["; for (int i = 0; i < 64; ++i) if (b >> i & 1) { if (r.size() > 1) r += ','; r += std::to_string(i); } return r + "]"; }
static std::string J(SmallBitset s) { return J(uint64_t(s)); }

/*----- partial plans -----*/
using Nodes = std::map<uint64_t, std::pair<uint64_t, uint64_t>>;
static void split(uint64_t s, Nodes &nodes, unsigned shape) {
    if ((s & (s - 1)) == 0) return;
    std::vector<unsigned> v; for (unsigned i = 0; i < 64; ++i) if (s >> i & 1) v.push_back(i);
    std::shuffle(v.begin(), v.end(), rng);
    unsigned k = shape == 0 ? 1 : shape == 1 ? v.size() - 1 : shape == 2 ? v.size() / 2 : 1 + R(v.size() - 1);
    uint64_t l = 0; for (unsigned i = 0; i < k; ++i) l |= 1UL << v[i];
    nodes[s] = {l, s & ~l};
    split(l, nodes, shape); split(s & ~l, nodes, shape);
}
// brackets, commas and strings
static std::string tokens(const std::string &s) {
    std::vector<std::string> t;
    for (std::size_t i = 0; i < s.size(); ++i) {
        if (isspace((unsigned char) s[i])) continue;
        std::string x(1, s[i]);
        if (s[i] == '"') while (++i < s.size()) { x += s[i]; if (s[i] == '"') break; }
        t.push_back(x);
    }
    return list(t, [](auto &x) { return tl::jstr(x); });
}
template<class PT> static void partial(const char *kind, const QueryGraph &G, unsigned n, const Nodes &nodes, const Nodes &other) {
    PT T(G);
    auto put = [&](const Nodes &ns) { for (auto &[s, lr] : ns) { auto &e = T[SmallBitset(s)]; e.left = SmallBitset(lr.first); e.right = SmallBitset(lr.second); e.cost = 1; } };
    for (unsigned i = 0; i < n; ++i) T[SmallBitset::Singleton(i)].cost = 0;
    put(other); put(nodes);
    std::vector<std::vector<SmallBitset>> got;
    PartialPlanGenerator P;
    P.for_each_complete_partial_plan(T, [&](const auto &p) { got.push_back(p); });
    O.ev(std::string("[\"partial\",\"") + kind + "\"," + list(got, [](auto &p) { return list(p, [](auto s) { return J(s); }); }) + "]");
    std::shuffle(got.begin(), got.end(), rng);
    if (got.size() > 6) got.resize(6);
    for (auto &g : got) std::shuffle(g.begin(), g.end(), rng);
    std::ostringstream out;
    P.write_partial_plans_JSON(out, G, T, [&](PartialPlanGenerator::callback_type f) { for (auto &g : got) f(g); });
    O.ev("[\"json\"," + list(got, [](auto &p) { return list(p, [](auto s) { return J(s); }); }) + "," + tokens(out.str()) + "]");
}
static void partials(unsigned count) {
    Catalog &C = Catalog::Get();
    std::ostringstream sink; Diagnostic diag(false, sink, sink);
    for (unsigned g = 0; g < count; ++g) {
        unsigned n = g < 4 ? g : 1 + R(7);
        std::ostringstream q; q << "SELECT ";
        if (n == 0) q << "1"; else { q << "* FROM "; for (unsigned i = 0; i < n; ++i) q << (i ? ", " : "") << "t" << i; }
        q << ";";
        O.begin("\"kind\":\"partial\"");
        auto stmt = m::statement_from_string(diag, q.str());
        auto G = QueryGraph::Build(*stmt);
        Nodes nodes, other;
        uint64_t all = (1UL << n) - 1;
        split(all, nodes, R(5));
        if (R(2)) split(all, other, R(5));        // entries that are no part of the final plan
        O.ev("[\"tree\"," + N(n) + "," + list(nodes, [](auto &x) { return "[" + J(x.first) + "," + J(x.second.first) + "," + J(x.second.second) + "]"; }) + "]");
        partial<PlanTableSmallOrDense>("dense", *G, n, nodes, other);
        partial<PlanTableLargeAndSparse>("sparse", *G, n, nodes, other);
        O.end();
    }
}

/*----- coverings -----*/
// A condition is a set of properties: 0, 1: predicated or not; 2, 3: one or two lanes; 4: never
using Cond = unsigned;
static ConditionSet cond(Cond c) {
    ConditionSet s;
    if (c & 1) s.add_condition(Predicated(false));
    if (c & 2) s.add_condition(Predicated(true));
    if (c & 4) s.add_condition(SIMD(1));
    if (c & 8) s.add_condition(SIMD(2));
    if (c & 16) s.add_condition(Unsatisfiable());
    return s;
}
static Cond bits(const ConditionSet &s) { for (Cond c = 0; c < 32; ++c) if ((c & 3) != 3 and (c & 12) != 12 and s == cond(c)) return c; return 99; }
static Cond random_cond(bool never) { Cond c = 0; if (R(2)) c |= 1 << R(2); if (R(2)) c |= 4 << R(2); if (never and R(30) == 0) c |= 16; return c; }

// What is known of a kind of physical operators: costs by the matched root, conditions of the children by their position,
// own condition or (if none) that of the child chosen
struct Phys { bool on; unsigned cost[32]; Cond pre[8]; Cond post; bool last; };
static Phys phys[64];

struct Base : MatchBase { int kind; std::vector<const Operator*> inner; std::vector<unsharable_shared_ptr<const MatchBase>> children;
    void execute(setup_t, pipeline_t, teardown_t) const override { }
    const Operator & get_matched_root() const override { return *inner.front(); }
    void print(std::ostream&, unsigned) const override { } };
template<int K, class Pattern> struct Op : PhysicalOperator<Op<K, Pattern>, Pattern> {
    using Self = Op;
    static void execute(const Match<Op>&, setup_t, pipeline_t, teardown_t) { }
    static double cost(const Match<Op> &M);
    static ConditionSet pre_condition(std::size_t i, const get_nodes_t<Pattern>&) { return cond(phys[K].pre[i]); }
    static ConditionSet post_condition(const Match<Op>&) { return cond(phys[K].post); }
    static ConditionSet adapt_post_conditions(const Match<Op>&, std::vector<std::reference_wrapper<const ConditionSet>> &&c) { return ConditionSet(phys[K].last ? c.back().get() : c.front().get()); }
};
namespace m {
template<int K, class Pattern> struct Match<Op<K, Pattern>> : Base {
    template<class... A> Match(A... a) { init(std::forward_as_tuple(a...), std::make_index_sequence<sizeof...(A) - 1>()); }
    template<class T, std::size_t... I> void init(T &&t, std::index_sequence<I...>) {
        kind = K; inner = {static_cast<const Operator*>(std::get<I>(t))...};
        children = std::move(std::get<sizeof...(I)>(t));
    }
};
}
template<int K, class Pattern> double Op<K, Pattern>::cost(const Match<Op> &M) { return phys[K].cost[M.inner.front()->id() % 32]; }

using W = Wildcard;
template<class... T> using P = pattern_t<T...>;
// every pattern appears a second time, with other costs and conditions
#define PATTERNS(X) X(0, ScanOperator) X(1, FilterOperator) X(2, P<FilterOperator COMMA W>) X(3, JoinOperator) X(4, P<JoinOperator COMMA W COMMA W>) \
    X(5, P<JoinOperator COMMA P<FilterOperator COMMA W> COMMA W>) X(6, P<JoinOperator COMMA W COMMA P<FilterOperator COMMA ScanOperator>>) X(7, P<FilterOperator COMMA JoinOperator>) \
    X(8, P<ProjectionOperator COMMA P<FilterOperator COMMA ScanOperator>>) X(9, ProjectionOperator) X(10, LimitOperator) X(11, P<LimitOperator COMMA P<SortingOperator COMMA W>>) \
    X(12, SortingOperator) X(13, P<JoinOperator COMMA P<JoinOperator COMMA W COMMA W> COMMA P<LimitOperator COMMA W>>) X(14, P<JoinOperator COMMA ScanOperator COMMA W>) \
    X(15, P<FilterOperator COMMA P<FilterOperator COMMA W>>)
#define COMMA ,
static const unsigned NP = 16;

static std::vector<const Operator*> ops;
static std::unique_ptr<Producer> tree(unsigned size, const Table &t) {
    if (size <= 1) return std::make_unique<ScanOperator>(t.store(), t.name());
    unsigned x = R(12);
    if (x < 3) { auto f = std::make_unique<FilterOperator>(cnf::CNF()); f->add_child(tree(size - 1, t).release()); return f; }
    if (x < 4) { auto f = std::make_unique<ProjectionOperator>(std::vector<ProjectionOperator::projection_type>()); f->add_child(tree(size - 1, t).release()); return f; }
    if (x < 5) { auto f = std::make_unique<LimitOperator>(1, 0); f->add_child(tree(size - 1, t).release()); return f; }
    if (x < 6) { auto f = std::make_unique<SortingOperator>(std::vector<SortingOperator::order_type>()); f->add_child(tree(size - 1, t).release()); return f; }
    if (x < 7) { auto l = std::make_unique<LimitOperator>(1, 0); auto f = std::make_unique<SortingOperator>(std::vector<SortingOperator::order_type>()); f->add_child(tree(size > 2 ? size - 2 : 1, t).release()); l->add_child(f.release()); return l; }
    auto j = std::make_unique<JoinOperator>(cnf::CNF());
    unsigned k = R(6) == 0 and size > 3 ? 3 : 2, left = size - 1;
    for (unsigned i = 0; i < k; ++i) { unsigned s = i + 1 == k ? std::max(1u, left) : 1 + R(std::max(1u, left > 1 ? left - 1 : 1)); j->add_child(tree(s, t).release()); left = left > s ? left - s : 0; }
    return j;
}
static std::string logical(const Operator &o) {
    const char *k = is<const ScanOperator>(&o) ? "scan" : is<const FilterOperator>(&o) ? "filter" : is<const JoinOperator>(&o) ? "join" : is<const ProjectionOperator>(&o) ? "project" : is<const LimitOperator>(&o) ? "limit" : "sort";
    std::string c = "[]";
    if (auto x = cast<const Consumer>(&o)) c = list(x->children(), [](auto c) { return logical(*c); });
    return "[\"" + std::string(k) + "\"," + N(o.id()) + "," + c + "]";
}
static std::string physical(const MatchBase &m) {
    auto &b = static_cast<const Base&>(m);
    return "[" + N(b.kind) + "," + list(b.inner, [](auto o) { return N(o->id()); }) + "," + N(b.cost() < 1e9 ? (long) b.cost() : -1) + "," + list(b.children, [](auto &c) { return physical(*c); }) + "]";
}
static void covers(unsigned count) {
    Catalog &C = Catalog::Get();
    auto &T = C.get_database_in_use().get_table(C.pool("t0"));
    for (unsigned g = 0; g < count; ++g) {
        unsigned miss = R(4) ? 8 : 3;
        for (unsigned k = 0; k < 2 * NP; ++k) {
            auto &p = phys[k];
            p.on = k % NP == 0 ? k == 0 or R(2) : R(miss) and (k < NP or R(2));
            unsigned style = R(3);
            for (auto &c : p.cost) c = style == 0 ? 1 : style == 1 ? R(4) : R(20);
            bool easy = R(k < NP ? 4 : 2);
            for (auto &c : p.pre) c = easy or R(2) ? 0 : random_cond(true);
            p.post = R(3) ? random_cond(false) : 0;
            if (R(2)) p.post = 0;
            p.last = R(2);
        }
        auto plan = tree(1 + R(9), T);
        O.begin("\"kind\":\"cover\"");
        PhysicalOptimizerImpl<ConcretePhysicalPlanTable> opt;
        std::vector<unsigned> order; for (unsigned k = 0; k < 2 * NP; ++k) if (phys[k].on) order.push_back(k);
        std::shuffle(order.begin(), order.end(), rng);
        for (auto k : order) switch (k) {
#define X(K, ...) case K: opt.register_operator<Op<K, __VA_ARGS__>>(); break; case K + NP: opt.register_operator<Op<K + NP, __VA_ARGS__>>(); break;
            PATTERNS(X)
#undef X
        }
        opt.cover(*plan);
        O.ev("[\"ops\"," + list(order, [](auto k) { auto &p = phys[k]; return "[" + N(k) + "," + N(k % NP) + "," + list(p.cost, [](auto c) { return N(c); }) + "," + list(p.pre, [](auto c) { return J(c); }) + "," + J(p.post) + "," + N(p.last) + "]"; }) + "]");
        O.ev("[\"plan\"," + logical(*plan) + "]");
        std::string t;
        unsigned nops = plan->id() + 1;
        for (unsigned i = 0; i < nops; ++i) {
            if (i) t += ",";
            std::string e;
            for (auto it = opt.table()[i].begin(); it != opt.table()[i].end(); ++it) { if (e.size()) e += ","; e += "[" + J(bits(it->condition)) + "," + N((long) it->entry.cost()) + "," + physical(it->entry.match()) + "]"; }
            t += "[" + e + "]";
        }
        O.ev("[\"table\",[" + t + "]]");
        if (opt.has_plan()) { auto m = opt.extract_plan(); O.ev("[\"best\"," + physical(*m) + "]"); } else O.ev("[\"none\"]");
        O.end();
    }
}

/*----- conditions -----*/
using Order = std::vector<std::pair<unsigned, unsigned>>;       // attribute, direction
struct Set { bool has = false; Order order; unsigned pred = 2, simd = 0; bool never = false; };
static const char *DIRS[] = {"asc", "desc", "any"};
static std::string attr(unsigned a) { return tl::jstr(a < 4 ? std::string(1, "abcd"[a]) : a < 8 ? std::string("t.") + "abcd"[a - 4] : std::string("u.") + "abcd"[a - 8]); }
static Schema::Identifier ident(unsigned a) {
    auto &C = Catalog::Get(); auto n = C.pool(std::string(1, "abcd"[a % 4]).c_str());
    return a < 4 ? Schema::Identifier(n) : Schema::Identifier(C.pool(a < 8 ? "t" : "u"), n);
}
static unsigned attribute(const Schema::Identifier &i) { for (unsigned a = 0; a < 12; ++a) if (i == ident(a)) return a; return 12; }
static std::string text(const Order &o) { return list(o, [](auto &x) { return "[" + attr(x.first) + "," + tl::jstr(DIRS[x.second]) + "]"; }); }
static std::string text(const Set &s) { return "[" + (s.has ? "[" + text(s.order) + "]" : "[]") + "," + N(s.pred) + "," + N(s.simd) + "," + N(s.never) + "]"; }
static Sortedness::order_t made(const Order &o) { Sortedness::order_t r; for (auto &[a, d] : o) r.add(ident(a), d == 0 ? Sortedness::O_ASC : d == 1 ? Sortedness::O_DESC : Sortedness::O_UNDEF); return r; }
static Order seen(const Sortedness::order_t &o) { Order r; for (auto &[i, d] : o) r.push_back({attribute(i), d == Sortedness::O_ASC ? 0 : d == Sortedness::O_DESC ? 1 : 2}); return r; }
static void put(ConditionSet &c, const Set &s) {
    std::vector<int> o{0, 1, 2, 3}; std::shuffle(o.begin(), o.end(), rng);
    for (int k : o) switch (k) {
        case 0: if (s.has) c.add_condition(Sortedness(made(s.order))); break;
        case 1: if (s.pred != 2) c.add_condition(Predicated(s.pred)); break;
        case 2: if (s.simd) c.add_condition(SIMD(s.simd)); break;
        case 3: if (s.never) c.add_condition(Unsatisfiable()); break;
    }
}
static Set seen(ConditionSet &c, Set s) {           // of the conditions there are
    if (s.has) s.order = seen(c.get_condition<Sortedness>().orders());
    if (s.pred != 2) s.pred = c.get_condition<Predicated>().predicated();
    if (s.simd) s.simd = c.get_condition<SIMD>().num_simd_lanes();
    return s;
}
static Order random_order(unsigned width) {
    Order o; unsigned style = R(4);
    for (unsigned i = R(R(5) ? 4 : 7); i-- > 0; ) { unsigned a = R(width); if (std::none_of(o.begin(), o.end(), [&](auto &x) { return x.first == a; })) o.push_back({a, style < 2 ? 0 : style == 2 ? 2 : R(8) ? R(2) : R(3)}); }
    return o;
}
static Set random_set(unsigned width) { Set s; if (R(8)) { s.has = true; s.order = random_order(width); } if (R(2)) s.pred = R(2); if (R(2)) s.simd = 1 << R(3); s.never = R(30) == 0; return s; }
static Set near(Set s, unsigned width) {        // a set like another one
    for (unsigned k = R(3); k-- > 0; ) switch (R(9)) {
        case 0: if (s.order.size()) s.order.pop_back(); break;
        case 1: if (s.order.size()) s.order.erase(s.order.begin()); break;
        case 2: std::shuffle(s.order.begin(), s.order.end(), rng); break;
        case 3: for (auto &x : s.order) x.second = 2; break;
        case 4: if (s.order.size()) s.order[R(s.order.size())].second = R(3); break;
        case 5: s.pred = R(3); break;
        case 6: s.simd = R(2); break;
        case 7: s = random_set(width); break;
        case 8: s.order.clear(); s.has = R(2); break;
    }
    return s;
}
static void conditions(unsigned count) {
    for (unsigned g = 0; g < count; ++g) {
        O.begin("\"kind\":\"conditions\"");
        unsigned width = R(3) ? 4 : R(2) ? 3 : 12;
        for (unsigned i = 0; i < 30; ++i) {
            Set a = random_set(width), b = near(a, width);
            ConditionSet A, B; put(A, a); put(B, b);
            switch (R(6)) {
                case 0: case 1: O.ev("[\"implied\"," + text(a) + "," + text(b) + "," + N(A.implied_by(B)) + "]"); O.ev("[\"implied\"," + text(b) + "," + text(a) + "," + N(ConditionSet(B).implied_by(A)) + "]"); break;
                case 2: O.ev("[\"equal\"," + text(a) + "," + text(b) + "," + N(A == B) + "]"); { ConditionSet C(A); O.ev("[\"equal\"," + text(a) + "," + text(a) + "," + N(A == C and not (C != A)) + "]"); } break;
                case 3: {
                    std::vector<std::pair<unsigned, unsigned>> m; std::vector<unsigned> to; for (unsigned k = 0; k < 12; ++k) to.push_back(k);
                    if (R(2)) std::shuffle(to.begin(), to.end(), rng);
                    unsigned keep = R(4);
                    if (R(2)) for (unsigned k = 0; k < width; ++k) { if (keep and R(4) < keep + 1) m.push_back({k, to[m.size()]}); }
                    else for (unsigned k = R(6); k-- > 0; ) m.push_back({R(width), to[m.size()]});
                    if (R(2)) std::shuffle(m.begin(), m.end(), rng);
                    std::vector<std::pair<Schema::Identifier, Schema::Identifier>> o2n; for (auto &[x, y] : m) o2n.emplace_back(ident(x), ident(y));
                    A.project_and_rename(o2n);
                    O.ev("[\"project\"," + text(a) + "," + list(m, [](auto &x) { return "[" + attr(x.first) + "," + attr(x.second) + "]"; }) + "," + text(seen(A, a)) + "]");
                    break; }
                case 4: {
                    unsigned k = R(3); std::string v; bool refused = false, replace = R(2); Set want = a; Order o = random_order(width); unsigned p = R(2), w = 1 + R(4);
                    try {
                        if (k == 0) { v = "[" + text(o) + "]"; want.has = true; if (replace) A.add_or_replace_condition(Sortedness(made(o))); else A.add_condition(Sortedness(made(o))); }
                        if (k == 1) { v = N(p); want.pred = p; if (replace) A.add_or_replace_condition(Predicated(p)); else A.add_condition(Predicated(p)); }
                        if (k == 2) { v = N(w); want.simd = w; if (replace) A.add_or_replace_condition(SIMD(w)); else A.add_condition(SIMD(w)); }
                    } catch (const m::invalid_argument&) { refused = true; }
                    if (replace) O.ev("[\"replace\"," + text(a) + "," + N(k + 1) + "," + v + "," + text(seen(A, want)) + "]");
                    else O.ev("[\"add\"," + text(a) + "," + N(k + 1) + "," + v + "," + N(refused) + "," + text(seen(A, want)) + "]");
                    break; }
                default: {
                    Order x = random_order(width), y = random_order(width); auto X = made(x), Y = made(y); bool refused = false;
                    try { X.merge(Y); } catch (const m::invalid_argument&) { refused = true; }
                    O.ev("[\"merge\"," + text(x) + "," + text(y) + "," + N(refused) + "," + text(refused ? Order() : seen(X)) + "]");
                }
            }
        }
        O.end();
    }
}

int main(int argc, char **argv) {
    O.file(argv[1]); rng.seed(std::stoull(argv[2]) * 7907 + 5);
    Catalog &C = Catalog::Get();
    Options::Get().quiet = true; Options::Get().statistics = false;
    auto &db = C.add_database(C.pool("db")); C.set_database_in_use(db);
    for (int i = 0; i < 8; ++i) {
        auto &t = db.add_table(C.pool(("t" + std::to_string(i)).c_str()));
        t.push_back(C.pool("k"), Type::Get_Integer(Type::TY_Vector, 4));
        t.store(C.create_store(t)); t.layout(C.data_layout());
    }
    tl::catch_crashes(); alarm(200);
    if (std::string(argv[4]) == "partial") partials(std::stoul(argv[3])); else if (std::string(argv[4]) == "cond") conditions(std::stoul(argv[3])); else covers(std::stoul(argv[3]));
    O.close();
    printf("{\"traces\":%ld}\n", O.n);
    fflush(stdout); _exit(0);
}
