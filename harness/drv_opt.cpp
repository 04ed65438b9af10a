// Logical plans: what a statement says, the plan of the real optimiser, and the plan after its schemas were minimised.   drv_opt OUT SCRIPT
// Script lines as of drv_sql:  T <head>   O <options>   X.. <sql> (executed)   Q.. <sql> (planned)   E
#include "tracelog.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/Schema.hpp>
#include <mutable/IR/Operator.hpp>
#include <mutable/IR/Optimizer.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/parse/AST.hpp>
#include <functional>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace m; using namespace m::ast;
static auto & O = tl::Out::get();
static std::string N(long v) { return std::to_string(v); }
static std::string Q(const std::string &s) { return tl::jstr(s); }
static std::string S(const ThreadSafePooledOptionalString &s) { return Q(s.has_value() ? *s : ""); }
template<class C, class F> static std::string list(const C &c, F f) { std::string r; bool first = true; for (auto &x : c) { if (not first) r += ","; first = false; r += f(x); } return "[" + r + "]"; }

// An expression: its text, and the identifiers it is made of
static std::string ids(const Expr &e) {
    std::set<std::string> s;
    std::function<void(const Expr&)> go = [&](const Expr &e) {
        if (auto d = cast<const Designator>(&e)) s.insert("[" + S(d->table_name.text) + "," + S(d->attr_name.text) + "]");
        else if (auto f = cast<const FnApplicationExpr>(&e)) {
            if (f->get_function().is_aggregate()) s.insert("[\"\"," + Q(to_string(e)) + "]"); else for (auto &a : f->args) go(*a);
        } else if (auto u = cast<const UnaryExpr>(&e)) go(*u->expr);
        else if (auto b = cast<const BinaryExpr>(&e)) { go(*b->lhs); go(*b->rhs); }
        else if (auto q = cast<const QueryExpr>(&e)) s.insert("[" + Q(*q->alias()) + ",\"$res\"]");
    };
    go(e);
    return list(s, [](auto &x) { return x; });
}
static std::string own(const Expr &e) {
    if (auto d = cast<const Designator>(&e)) return "[" + S(d->table_name.text) + "," + S(d->attr_name.text) + "]";
    return "[\"\"," + Q(to_string(e)) + "]";
}
static std::string args(const FnApplicationExpr &f) { return list(f.args, [](auto &a) { return "[" + own(*a) + "," + ids(*a) + "]"; }); }
static std::string agg(const FnApplicationExpr &f) { return "[" + Q(to_string(static_cast<const Expr&>(f))) + "," + args(f) + "]"; }
template<class A> static std::string named(const Expr &e, const A &alias) {
    return "[" + Q(to_string(e)) + "," + ids(e) + "," + S(alias) + "," + own(e) + "]";
}

/*----- statements -----*/
struct Desc {
    unsigned atoms = 0, bools = 0; bool too_big = false;
    std::vector<const FnApplicationExpr*> aggs; std::set<std::string> seen;
    std::vector<const QueryExpr*> where_queries, having_queries, select_queries, *queries = nullptr;
    void collect(const Expr &e) {
        if (auto f = cast<const FnApplicationExpr>(&e)) {
            if (f->get_function().is_aggregate()) { if (seen.insert(to_string(e)).second) aggs.push_back(f); return; }
            for (auto &a : f->args) collect(*a);
        } else if (auto u = cast<const UnaryExpr>(&e)) collect(*u->expr);
        else if (auto b = cast<const BinaryExpr>(&e)) { collect(*b->lhs); collect(*b->rhs); }
        else if (auto q = cast<const QueryExpr>(&e)) queries->push_back(q);
        else if (auto d = cast<const Designator>(&e)) { if (auto t = std::get_if<const Expr*>(&d->target())) if (d->table_name.text.has_value() == false) collect_target(**t); }
    }
    void collect_target(const Expr&) { }
    std::string formula(const Expr &e) {
        if (auto u = cast<const UnaryExpr>(&e); u and u->op().type == TK_Not) return "[\"not\"," + formula(*u->expr) + "]";
        if (auto b = cast<const BinaryExpr>(&e)) {
            auto o = b->op().type; bool bl = b->lhs->type()->is_boolean() and b->rhs->type()->is_boolean();
            if (o == TK_And) return "[\"and\"," + formula(*b->lhs) + "," + formula(*b->rhs) + "]";
            if (o == TK_Or) return "[\"or\"," + formula(*b->lhs) + "," + formula(*b->rhs) + "]";
            if (bl and (o == TK_EQUAL or o == TK_BANG_EQUAL)) { ++bools; return std::string(o == TK_EQUAL ? "[\"eq\"," : "[\"ne\",") + formula(*b->lhs) + "," + formula(*b->rhs) + "]"; }
        }
        ++atoms;
        return "[\"atom\"," + Q(to_string(e)) + "]";
    }
    static std::string select(const SelectStmt &s, bool &big) {
        Desc D; auto r = D.describe(s, big); if (D.atoms > 6 or D.bools > 1) big = true; return r;
    }
    std::string describe(const SelectStmt &s, bool &big) {
        std::string r = "{\"from\":[";
        if (s.from) r += [&] { auto l = list(as<FromClause>(*s.from).from, [&](auto &f) {
            if (auto t = std::get_if<Token>(&f.source)) return "[" + S(f.alias ? f.alias.text : t->text) + ",\"table\"," + Q(*f.table().name()) + "]";
            return "[" + S(f.alias.text) + ",\"query\"," + select(as<SelectStmt>(*std::get<Stmt*>(f.source)), big) + "]";
        }); return l.substr(1, l.size() - 2); }();
        r += "],\"where\":";
        queries = &where_queries;
        if (s.where) { auto &w = *as<WhereClause>(*s.where).where; collect(w); r += formula(w); } else r += "[\"none\"]";
        r += ",\"group\":";
        if (s.group_by) r += list(as<GroupByClause>(*s.group_by).group_by, [&](auto &g) { return named(*g.first, g.second.text); }); else r += "[]";
        queries = &having_queries;
        r += ",\"having\":";
        if (s.having) { auto &h = *as<HavingClause>(*s.having).having; collect(h); r += formula(h); } else r += "[\"none\"]";
        auto &sel = as<SelectClause>(*s.select); std::string p;
        queries = &select_queries;
        auto add = [&](std::string &to, const Expr &e, const ThreadSafePooledOptionalString &a) { to += (to.empty() ? "" : ",") + named(e, a); };
        for (auto &e : sel.expanded_select_all) { add(p, *e, {}); collect(*e); }
        for (auto &[e, a] : sel.select) { collect(*e); add(p, *e, a.text); }
        r += ",\"select\":[" + p + "],\"order\":";
        std::vector<const QueryExpr*> none; queries = &none;
        if (s.order_by) r += list(as<OrderByClause>(*s.order_by).order_by, [&](auto &o) { collect(*o.first); return "[" + Q(to_string(*o.first)) + "," + ids(*o.first) + "," + N(o.second) + "]"; }); else r += "[]";
        if (none.size()) big = true;
        r += ",\"aggs\":" + list(aggs, [](auto f) { return agg(*f); });
        auto subs = [&](auto &v) { return list(v, [&](auto q) { return "[" + Q(*q->alias()) + ",\"query\"," + select(as<SelectStmt>(*q->query), big) + "]"; }); };
        r += ",\"wsubs\":" + subs(where_queries) + ",\"hsubs\":" + subs(having_queries) + ",\"ssubs\":" + subs(select_queries);
        r += ",\"limit\":";
        if (s.limit) { auto &l = as<LimitClause>(*s.limit); r += "[" + std::string(*l.limit.text) + "," + (l.offset ? std::string(*l.offset.text) : "0") + "]"; } else r += "[]";
        return r + "}";
    }
};

/*----- plans -----*/
static std::string schema(const Schema &s) { return list(s, [](auto &e) { return "[" + S(e.id.prefix) + "," + Q(*e.id.name) + "," + N(not e.nullable()) + "," + N(e.unique()) + "]"; }); }
static std::string form(const cnf::CNF &f) {
    return list(f, [](auto &c) { return list(c, [](auto &p) { return "[" + N(p.negative()) + "," + Q(to_string(p.expr())) + "," + ids(p.expr()) + "," + own(p.expr()) + "]"; }); });
}
static std::string tree(const Operator &o) {
    auto s = "\"," + schema(o.schema()) + ",";
    if (auto x = cast<const ScanOperator>(&o)) return "[\"scan" + s + Q(*x->alias()) + "," + Q(*x->store().table().name()) + "]";
    if (auto x = cast<const FilterOperator>(&o)) return "[\"filter" + s + form(x->filter()) + "," + tree(*x->child(0)) + "]";
    if (auto x = cast<const JoinOperator>(&o)) return "[\"join" + s + form(x->predicate()) + "," + list(x->children(), [](auto c) { return tree(*c); }) + "]";
    if (auto x = cast<const ProjectionOperator>(&o)) return "[\"project" + s + list(x->projections(), [](auto &p) { return named(p.first.get(), p.second); }) + "," + (x->children().empty() ? "[\"nothing\",[]]" : tree(*x->child(0))) + "]";
    if (auto x = cast<const GroupingOperator>(&o)) return "[\"group" + s + list(x->group_by(), [](auto &g) { return named(g.first.get(), g.second); }) + "," + list(x->aggregates(), [](auto &a) { return agg(a.get()); }) + "," + tree(*x->child(0)) + "]";
    if (auto x = cast<const AggregationOperator>(&o)) return "[\"agg" + s + list(x->aggregates(), [](auto &a) { return agg(a.get()); }) + "," + tree(*x->child(0)) + "]";
    if (auto x = cast<const SortingOperator>(&o)) return "[\"sort" + s + list(x->order_by(), [](auto &p) { return "[" + Q(to_string(p.first.get())) + "," + ids(p.first.get()) + "," + N(p.second) + "," + own(p.first.get()) + "]"; }) + "," + tree(*x->child(0)) + "]";
    if (auto x = cast<const LimitOperator>(&o)) return "[\"limit" + s + N(x->limit()) + "," + N(x->offset()) + "," + tree(*x->child(0)) + "]";
    return "[\"?" + s + "0]";
}

static void run(const std::vector<std::string> &L) {
    Catalog &C = Catalog::Get();
    Options::Get().quiet = true; Options::Get().statistics = false;
    std::ostringstream out, err; Diagnostic diag(false, out, err);
    static std::ofstream devnull("/dev/null");
    std::cout.rdbuf(devnull.rdbuf());
    for (auto &l : L) {
        char k = l[0];
        if (k == 'O') {
            auto &w = *new std::vector<std::string>{"drv"};
            { std::stringstream ss(l.substr(2)); for (std::string x; ss >> x; )
                if (x == "--plan-table-las") Options::Get().plan_table_type = Options::PT_LargeAndSparse;
                else if (x == "--plan-table-sod") Options::Get().plan_table_type = Options::PT_SmallOrDense;
                else w.push_back(x); }
            std::vector<const char*> a; for (auto &x : w) a.push_back(x.c_str()); a.push_back(nullptr);
            C.arg_parser()(int(a.size() - 1), a.data());
            continue;
        }
        std::string sql = l.substr(3);
        err.str(""); diag.clear();
        try {
            auto s = statement_from_string(diag, sql);
            if (k == 'X') { execute_statement(diag, *s); continue; }
            bool big = false;
            auto d = Desc::select(as<SelectStmt>(*s), big);
            if (big) { O.ev("[\"skip\"]"); continue; }
            O.ev("[\"query\"," + d + "]");
            auto G = QueryGraph::Build(*s);
            Optimizer Opt(C.plan_enumerator(), C.cost_function());
            auto plan = Opt(*G);
            O.ev("[\"plan\"," + tree(*plan) + "]");
            plan->minimize_schema();
            O.ev("[\"minimized\"," + tree(*plan) + "]");
        } catch (const std::exception &e) {
            diag.clear();
            O.ev("[\"err\"," + tl::jstr(std::string(e.what()) + ": " + err.str().substr(0, 160)) + "]");
        }
    }
}

int main(int, char **argv) {
    O.file(argv[1]); O.dedupe = false;
    std::ifstream in(argv[2]);
    std::string l, head; std::vector<std::string> L;
    long id = 0;
    while (std::getline(in, l)) {
        if (l[0] == 'T') { head = l.substr(2); L.clear(); continue; }
        if (l[0] != 'E') { L.push_back(l); continue; }
        fflush(O.f);
        if (pid_t p = fork()) { int st; waitpid(p, &st, 0); ++id;
            if (WIFSIGNALED(st)) { O.dedupe = false; O.begin(head); O.ev("[\"crash\",\"killed\"]"); O.end(); fflush(O.f); }
            continue; }
        O.n = id;
        O.begin(head);
        tl::catch_crashes(); alarm(30);
        { rlimit r{4ul << 30, 4ul << 30}; setrlimit(RLIMIT_DATA, &r); }
        if (not getenv("VERIF_LOUD")) freopen("/dev/null", "w", stderr);
        run(L);
        O.end(); fflush(O.f);
        _exit(0);
    }
    O.close();
    return 0;
}
