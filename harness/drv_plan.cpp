// Join ordering.   drv_plan OUT SEED NGRAPHS MAXN LIST [catalog options...]      LIST: comma separated enumerators, or "all"
// Every graph becomes a statement over tables t0..t7 with join predicates ti.kj = tj.ki; cardinalities come from a table.
#include "tracelog.hpp"
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/CostFunctionCout.hpp>
#include <mutable/IR/PlanEnumerator.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/storage/Store.hpp>
#include <algorithm>
#include <random>
#include <set>
#include <sstream>

using namespace m;
static std::mt19937_64 rng;
static auto & O = tl::Out::get();
static unsigned R(unsigned n) { return n ? rng() % n : 0; }
static std::vector<long> card;

struct Model : DataModel { SmallBitset S; Model(SmallBitset S) : S(S) { } void assign_to(Subproblem s) override { S = s; } };
// cardinality of a set of relations = card[set]
struct TableCE : CardinalityEstimatorCRTP<TableCE>
{
    using P = std::unique_ptr<DataModel>;
    static SmallBitset s(const DataModel &d) { return static_cast<const Model&>(d).S; }
    P empty_model() const override { return std::make_unique<Model>(SmallBitset()); }
    P estimate_scan(const QueryGraph&, Subproblem S) const override { return std::make_unique<Model>(S); }
    P estimate_filter(const QueryGraph&, const DataModel &d, const cnf::CNF&) const override { return std::make_unique<Model>(s(d)); }
    P estimate_limit(const QueryGraph&, const DataModel &d, std::size_t, std::size_t) const override { return std::make_unique<Model>(s(d)); }
    P estimate_grouping(const QueryGraph&, const DataModel &d, const std::vector<group_type>&) const override { return std::make_unique<Model>(s(d)); }
    P estimate_join(const QueryGraph&, const DataModel &l, const DataModel &r, const cnf::CNF&) const override { return std::make_unique<Model>(s(l) | s(r)); }
    template<typename PlanTable> P operator()(estimate_join_all_tag, PlanTable &&, const QueryGraph&, Subproblem S, const cnf::CNF&) const { return std::make_unique<Model>(S); }
    std::size_t predict_cardinality(const DataModel &d) const override { return card.at(uint64_t(s(d))); }
    void print(std::ostream &out) const override { out << "table"; }
};
// a cost function in which the sides of a join are not interchangeable
struct Asym : CostFunctionCRTP<Asym>
{
    template<typename PT> double operator()(calculate_filter_cost_tag, const PT &T, const QueryGraph&, const CardinalityEstimator &CE, Subproblem s, const cnf::CNF&) const { return T[s].cost; }
    template<typename PT> double operator()(calculate_join_cost_tag, const PT &T, const QueryGraph&, const CardinalityEstimator &CE, Subproblem l, Subproblem r, const cnf::CNF&) const {
        return T[l].cost + T[r].cost + 2. * CE.predict_cardinality(*T[l].model) + 5. * CE.predict_cardinality(*T[r].model);
    }
    template<typename PT> double operator()(calculate_grouping_cost_tag, const PT &T, const QueryGraph&, const CardinalityEstimator &CE, Subproblem s, const std::vector<const ast::Expr*>&) const { return T[s].cost; }
};

static std::string J(uint64_t b) { std::string r = "["; for (int i = 0; i < 64; ++i) if (b >> i & 1) { if (r.size() > 1) r += ','; r += std::to_string(i); } return r + "]"; }

template<typename PT>
static void run(const char *kind, const std::string &name, const QueryGraph &G, const CostFunction &CF, unsigned n)
{
    Catalog &C = Catalog::Get();
    PT T(G);
    auto &CE = C.get_database_in_use().cardinality_estimator();
    for (unsigned i = 0; i < n; ++i) { auto s = SmallBitset::Singleton(i); T[s].cost = 0; T[s].model = CE.estimate_scan(G, s); }
    C.plan_enumerator(C.pool(name.c_str()))(G, CF, T);
    std::string e;
    for (uint64_t i = 1; i < 1UL << n; ++i) {
        SmallBitset S(i);
        if (S.size() < 2 or not T.has_plan(S)) continue;
        auto &x = T[S];
        char b[32]; snprintf(b, sizeof b, "%.0f", x.cost);
        if (not (x.cost >= 0 and x.cost < 2e9 and x.cost == (long) x.cost)) snprintf(b, sizeof b, "-1");
        if (not e.empty()) e += ',';
        e += "[" + J(i) + "," + J(uint64_t(x.left)) + "," + J(uint64_t(x.right)) + "," + b + "]";
    }
    O.ev("[\"" + name + "\",\"" + kind + "\",[" + e + "]]");
}

int main(int argc, char **argv) {
    O.file(argv[1]); rng.seed(std::stoull(argv[2]) * 104729 + argc);
    unsigned graphs = std::stoul(argv[3]), maxn = std::stoul(argv[4]); std::string list = argv[5];
    Catalog &C = Catalog::Get();
    std::string label = list;
    { std::vector<const char*> a = {argv[0]}; for (int i = 6; i < argc; ++i) { a.push_back(argv[i]); label += " "; label += argv[i]; } a.push_back(nullptr);
      C.arg_parser()(int(a.size() - 1), a.data()); }
    Options::Get().quiet = true; Options::Get().statistics = false;
    auto &db = C.add_database(C.pool("db")); C.set_database_in_use(db);
    db.cardinality_estimator(std::make_unique<TableCE>());
    for (int i = 0; i < 12; ++i) {
        auto &t = db.add_table(C.pool(("t" + std::to_string(i)).c_str()));
        for (int j = 0; j < 12; ++j) t.push_back(C.pool(("k" + std::to_string(j)).c_str()), Type::Get_Integer(Type::TY_Vector, 4));
        t.store(C.create_store(t)); t.layout(C.data_layout());
    }
    std::vector<std::string> names;
    if (list == "all") { for (auto it = C.plan_enumerators_begin(); it != C.plan_enumerators_end(); ++it) if (strcmp(*it->first, "HeuristicSearch")) names.push_back(*it->first); std::sort(names.begin(), names.end()); }
    else { std::stringstream ss(list); for (std::string x; std::getline(ss, x, ','); ) names.push_back(x); }
    tl::catch_crashes(); alarm(200);
    std::ostringstream sink; Diagnostic diag(false, sink, sink);
    CostFunctionCout cout_cf; Asym asym;
    std::streambuf *old = std::cout.rdbuf(sink.rdbuf());
    for (unsigned g = 0; g < graphs; ++g) {
        unsigned n = g < 6 ? g % 3 + 1 : 2 + R(maxn - 1), shape = R(6), p = R(7);
        std::vector<unsigned> lab; for (unsigned v = 0; v < n; ++v) lab.push_back(v);
        std::shuffle(lab.begin(), lab.end(), rng);
        std::set<std::pair<unsigned,unsigned>> E;
        auto edge = [&](unsigned a, unsigned b) { if (a != b) E.emplace(std::min(a, b), std::max(a, b)); };
        for (unsigned x = 1; x < n; ++x) {
            if (shape == 0) edge(lab[x - 1], lab[x]); else if (shape == 1) edge(lab[0], lab[x]); else edge(lab[R(x)], lab[x]);
            if (shape > 2) for (unsigned y = 0; y < x; ++y) if (R(12) < p) edge(lab[y], lab[x]);
        }
        if (shape == 0 and n > 2 and R(2)) edge(lab[0], lab[n - 1]);
        // cardinalities: arbitrary for every set of relations, but never more than the Cartesian product
        card.assign(1UL << n, 0);
        unsigned style = R(4), base = style == 3 ? 3 : 40;
        for (uint64_t i = 1; i < 1UL << n; ++i) {
            SmallBitset S(i);
            if (S.is_singleton()) { card[i] = (style == 2 ? 0 : 1) + R(base); continue; }
            long cap = 1; for (auto v : S) cap = std::min(cap * card[1UL << v], 20000L);
            card[i] = style == 1 ? std::max(1L, cap / (1 + R(30))) : R(unsigned(std::min(cap, style == 3 ? 4L : 400L) + 1));
            if (style != 2 and card[i] == 0) card[i] = 1;
        }
        std::ostringstream q; q << "SELECT * FROM ";
        for (unsigned i = 0; i < n; ++i) q << (i ? ", " : "") << "t" << i;
        bool first = true;
        std::vector<std::pair<unsigned,unsigned>> EE(E.begin(), E.end()); std::shuffle(EE.begin(), EE.end(), rng);
        for (auto [a, b] : EE) { if (R(2)) std::swap(a, b); q << (first ? " WHERE " : " AND ") << "t" << a << ".k" << b << (R(5) ? " = " : " < ") << "t" << b << ".k" << a; first = false; }
        q << ";";
        bool skew = R(3) == 0;
        std::string cs, es;
        for (uint64_t i = 1; i < 1UL << n; ++i) { if (not cs.empty()) cs += ','; cs += "[" + J(i) + "," + std::to_string(card[i]) + "]"; }
        for (auto [a, b] : E) { if (not es.empty()) es += ','; es += "[" + std::to_string(a) + "," + std::to_string(b) + "]"; }
        bool nonzero = std::find(card.begin() + 1, card.end(), 0) == card.end();
        O.begin("\"kind\":" + tl::jstr(label) + ",\"sql\":" + tl::jstr(q.str()));
        O.ev("[\"G\"," + std::to_string(n) + ",[" + es + "],[" + cs + "],\"" + (skew ? "asym" : "cout") + "\"]");
        auto stmt = m::statement_from_string(diag, q.str());
        auto G = QueryGraph::Build(*stmt);
        const CostFunction &CF = skew ? (const CostFunction&) asym : (const CostFunction&) cout_cf;
        for (auto &name : names) {
            if (name == "HeuristicSearch" and (skew or n < 2)) continue;                       // defined for C_out only
            if ((name == "IKKBZ" or name == "LinearizedDP") and not nonzero and n > 12) continue;
            run<PlanTableSmallOrDense>("dense", name, *G, CF, n);
            run<PlanTableLargeAndSparse>("sparse", name, *G, CF, n);
        }
        O.end();
    }
    std::cout.rdbuf(old);
    O.close();
    printf("{\"traces\":%ld}\n", O.n);
    fflush(stdout); _exit(0);
}
