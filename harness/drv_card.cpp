// Cardinality estimation: injection files and estimates.   drv_card OUT SEED N
#include "tracelog.hpp"
#include "storage/PaxStore.hpp"
#include <mutable/catalog/CardinalityEstimator.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/IR/CNF.hpp>
#include <mutable/IR/PlanTable.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <random>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace m; using namespace m::storage;
static auto & O = tl::Out::get();
static std::mt19937_64 rng;
static unsigned long R(unsigned long n) { return n ? rng() % n : 0; }
static std::string N(long v) { return std::to_string(v); }
static std::string Q(const std::string &s) { return "\"" + s + "\""; }
static std::string big(unsigned long v) { std::string r; for (; v; v /= 10000) r += (r.empty() ? "" : ",") + std::to_string(v % 10000); return "[" + r + "]"; }
static unsigned long size() { static const unsigned long s[] = {0, 1, 2, 5, 17, 1000, 1000000, 4294967296ul, 1000000000000ul, 1ul << 63, ~0ul, 12345678901234567890ul}; return R(3) ? R(200) : s[R(12)]; }

static void history() {
    Catalog::Clear(); auto &C = Catalog::Get(); Options::Get().quiet = true; Options::Get().statistics = false;
    auto &DB = C.add_database(C.pool("db")); C.set_database_in_use(DB);
    unsigned n = 1 + R(5), tables = 1 + R(3); std::vector<unsigned> rows;
    for (unsigned i = 0; i < tables; ++i) {
        auto &T = DB.add_table(C.pool(("t" + N(i)).c_str()));
        T.push_back(C.pool("a"), Type::Get_Integer(Type::TY_Vector, 4)); T.push_back(C.pool("b"), Type::Get_Integer(Type::TY_Vector, 4));
        T.store(std::make_unique<PaxStore>(T)); PAXLayoutFactory f; T.layout(f);
        rows.push_back(R(8)); for (unsigned k = 0; k < rows.back(); ++k) T.store().append();
    }
    std::vector<std::string> al; std::vector<unsigned> tb; std::string from, where, group, ids;
    static const char *A[] = {"x", "xy", "y", "a", "z", "t0"}; std::vector<std::string> names(A, A + 6); std::shuffle(names.begin(), names.end(), rng);
    for (unsigned i = 0; i < n; ++i) { al.push_back(names[i]); tb.push_back(R(tables)); from += (i ? ", t" : "t") + N(tb[i]) + " AS " + al[i]; if (i) where += (i > 1 ? " AND " : " WHERE ") + al[R(i)] + ".a = " + al[i] + ".b"; }
    std::vector<std::string> keys; unsigned g = R(4);
    for (unsigned i = 0; i < g; ++i) { auto k = al[R(n)] + (R(2) ? ".a" : ".b"); bool alias = R(3) == 0; if (std::find(keys.begin(), keys.end(), k) != keys.end()) continue; group += (keys.empty() ? " GROUP BY " : ", ") + k + (alias ? " AS k" + N(i) : ""); keys.push_back(alias ? "k" + N(i) : k); }
    std::ostringstream out, err; Diagnostic diag(false, out, err);
    O.begin("\"kind\":\"cardinalities\"");
    auto stmt = statement_from_string(diag, "SELECT " + std::string(group.empty() ? al[0] + ".a" : "COUNT()") + " FROM " + from + where + group + ";");
    auto G = QueryGraph::Build(*stmt);
    // the injection file
    std::string json, desc; unsigned bad = 0; bool whole = false;
    auto entry = [&](bool first) {
        std::vector<std::string> r;
        if (keys.size() and R(4) == 0) { std::string s = "g"; for (unsigned k = 0, e = 1 + R(keys.size()); k < e; ++k) s += "#" + keys[k]; r.push_back(s); }
        else { for (auto &a : al) if (R(2)) r.push_back(a); if (r.empty()) r.push_back(al[R(n)]); if (R(10) == 0) r.push_back("other"); }
        std::shuffle(r.begin(), r.end(), rng);
        std::string js, ds; for (auto &x : r) { js += (js.empty() ? "" : ", ") + Q(x); ds += (ds.empty() ? "" : ",") + Q(x); }
        auto s = size(); bool good = true; std::string rel = "\"relations\": [" + js + "]", sz = "\"size\": " + std::to_string(s);
        if (R(14) == 0) { good = false; switch (R(9)) {
            case 0: rel = "\"relation\": [" + js + "]"; break; case 1: sz = "\"sizes\": 1"; break; case 2: rel = "\"relations\": [1, 2]"; break; case 3: sz = "\"size\": \"many\""; break;
            case 4: sz = "\"size\": -5"; break; case 5: sz = "\"size\": null"; break; case 6: sz = "\"size\": [1]"; break; case 7: rel = "\"relations\": [[" + js + "]]"; break; default: rel = "\"relations\": null, \"x\": 1"; sz = "\"siz\": 2"; } }
        json += (first ? "{" : ", {") + (R(2) ? rel + ", " + sz : sz + ", " + rel) + "}";
        desc += (first ? "[[" : ",[[") + ds + "]," + big(s) + "," + N(good) + "]";
        return good;
    };
    unsigned entries = R(3 * n + 3);
    for (unsigned i = 0; i < entries; ++i) entry(i == 0);
    std::string file = "{\"other\": [], \"db\": [" + json + "]}";
    if (R(15) == 0) { whole = true; switch (R(7)) { case 0: file = file.substr(0, R(file.size())); break; case 1: file = "[1]"; break; case 2: file = "{\"dc\": []}"; break; case 3: file = "{\"db\": 5}"; break; case 4: file = "{\"db\": \"x\"}"; break; case 5: file = "17"; break; default: file = ""; } }
    std::string verdict = "ok"; std::istringstream in(file); std::unique_ptr<InjectionCardinalityEstimator> I;
    O.head = "\"kind\":\"reading a file\"";
    try { I = std::make_unique<InjectionCardinalityEstimator>(diag, C.pool("db"), in); } catch (const std::exception&) { verdict = "raised"; }
    O.ev("[\"read\"," + Q(verdict) + "," + N(err.str().size() + out.str().size() > 0) + "," + N(whole) + ",[" + (whole ? "" : desc) + "]]");
    CartesianProductEstimator P; const CardinalityEstimator *E[2] = {I.get(), &P};
    if (I) for (unsigned which = 0; which < 2; ++which) {
        auto &CE = *E[which]; std::string w = which ? "\"cart\"" : "\"inj\""; PlanTableSmallOrDense PT(*G);
        O.head = std::string("\"kind\":\"estimates by ") + (which ? "cart" : "inj") + "\"";
        struct M { std::unique_ptr<DataModel> m; unsigned long set; }; std::vector<M> ms;
        cnf::CNF none;
        auto log = [&](const std::string &op) { O.ev("[\"est\"," + w + "," + big(CE.predict_cardinality(*ms.back().m)) + "," + op + "]"); };
        for (unsigned i = 0; i < n; ++i) {
            auto s = Subproblem::Singleton(i); PT[s].model = CE.estimate_scan(*G, s);
            ms.push_back({CE.estimate_scan(*G, s), 1ul << i}); log("[\"scan\"," + Q(al[i]) + "," + big(rows[tb[i]]) + "]");
        }
        for (unsigned k = 0; k < 12; ++k) {
            unsigned a = R(ms.size()), b = R(ms.size());
            switch (R(7)) {
                case 0: ms.push_back({CE.estimate_filter(*G, *ms[a].m, none), ms[a].set}); log("[\"filter\"," + N(a + 1) + "]"); break;
                case 1: { auto l = size(), o = R(2) ? 0 : size(); ms.push_back({CE.estimate_limit(*G, *ms[a].m, l, o), ms[a].set}); log("[\"limit\"," + N(a + 1) + "," + big(l) + "," + big(o) + "]"); break; }
                case 2: { unsigned e = R(keys.size() + 1); std::vector<CardinalityEstimator::group_type> gs(G->group_by().begin(), G->group_by().begin() + e); std::string s; for (unsigned i = 0; i < e; ++i) s += (i ? "," : "") + Q(keys[i]);
                    if (which and e == 0) break;
                    ms.push_back({CE.estimate_grouping(*G, *ms[a].m, gs), ms[a].set}); std::string id = "g"; for (unsigned i = 0; i < e; ++i) id += "#" + keys[i];
                    log("[\"group\"," + N(a + 1) + "," + Q(e ? id : "") + "]"); break; }
                case 3: { unsigned long s = 0; std::string l; for (unsigned i = 0; i < n; ++i) if (R(2)) { s |= 1ul << i; l += (l.empty() ? "" : ",") + N(i + 1); } if (not s) break;
                    ms.push_back({CE.estimate_join_all(*G, PT, Subproblem(s), none), s}); log("[\"all\",[" + l + "]]"); break; }
                default: for (int t = 0; t < 20 and (ms[a].set & ms[b].set); ++t) a = R(ms.size()), b = R(ms.size());
                    if (ms[a].set & ms[b].set) break;
                    ms.push_back({CE.estimate_join(*G, *ms[a].m, *ms[b].m, none), ms[a].set | ms[b].set}); log("[\"join\"," + N(a + 1) + "," + N(b + 1) + "]");
            }
        }
    }
    O.head = "\"kind\":\"cardinalities\"";
    O.end();
}

int main(int, char **argv) {
    O.file(argv[1]); O.dedupe = false;
    unsigned long seed = std::stoul(argv[2]); int n = std::stoi(argv[3]);
    for (int i = 0; i < n; i += 20) {
        fflush(O.f);
        if (pid_t p = fork()) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { O.begin("\"kind\":\"?\""); O.ev("[\"crash\",\"killed\"]"); O.end(); fflush(O.f); } O.n += 20; continue; }
        struct rlimit lim{2ul << 30, 2ul << 30}; setrlimit(RLIMIT_DATA, &lim);
        tl::catch_crashes(); alarm(60);
        if (not getenv("VERIF_LOUD")) freopen("/dev/null", "w", stderr);
        for (int k = i; k < i + 20 and k < n; ++k) { rng.seed(seed * 100003 + k); history(); }
        fflush(O.f); _exit(0);
    }
    O.close();
    printf("{\"traces\":%ld}\n", O.n);
}
