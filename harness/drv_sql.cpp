// SQL statements against the interpreter.   drv_sql OUT SCRIPT
// Script lines:  T <head>   O <options>   X<mode> <sql>   Q<mode> <sql>   E
// modes of X: e execute_statement, c command_from_string, s scheduler, p process_stream; of Q: e execute_query, m the steps of the query command, p printed by the shell.
// With transactions: B <slot> <start>   X/Qt <slot> <sql> (the commands of a transaction; t delivers tuples, u prints)   U <table> <row> <end>: a row ends
//                    F <name> <content>: a file (\n for new lines), its name stands in for the path in IMPORT.
// Every trace runs in a process of its own, on an empty catalog.
#include "tracelog.hpp"
#include "backend/Interpreter.hpp"
#include <mutable/backend/Backend.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/DatabaseCommand.hpp>
#include <mutable/IR/Operator.hpp>
#include <mutable/IR/Optimizer.hpp>
#include <mutable/IR/PhysicalOptimizer.hpp>
#include <mutable/IR/QueryGraph.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <cmath>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace m;
static auto & O = tl::Out::get();

static std::string I(long v) { return v > 2147483647 or v < -2147483647 ? "-2147483648" : std::to_string(v); }
static std::string units(double v) { if (not (std::abs(v) < 2e5)) return "-2147483648"; return std::to_string((long) std::floor(v * 10000. + .41)); }

static std::string value(const Type *ty, const Tuple &t, std::size_t i) {
    if (t.is_null(i)) return "[0]";
    if (ty->is_boolean()) return t[i].as_b() ? "[3,1]" : "[3,0]";
    if (ty->is_character_sequence()) {
        std::string r = "[2"; auto p = reinterpret_cast<const unsigned char*>(t[i].as_p());
        for (unsigned n = as<const CharacterSequence>(ty)->length; n and p and *p; --n, ++p) r += "," + std::to_string(*p);
        return r + "]";
    }
    if (ty->is_date()) return "[5," + I((int32_t) t[i].as_i()) + "]";
    if (ty->is_date_time()) return "[6," + I(t[i].as_i()) + "]";
    auto n = as<const Numeric>(ty);
    switch (n->kind) {
        case Numeric::N_Int: return "[1," + std::to_string(t[i].as_i()) + "]";  // may exceed 32 bits, see SCALED in lib/sqlgen.py
        case Numeric::N_Decimal: {
            long v = t[i].as_i(); unsigned s = n->scale;
            for (; s < 4; ++s) v *= 10;
            for (; s > 4; --s) v /= 10;
            return "[4," + I(v) + "," + std::to_string(n->scale) + "]";
        }
        case Numeric::N_Float: return "[7," + units(n->precision == 32 ? t[i].as_f() : t[i].as_d()) + "]";
    }
    return "[9]";
}

// The steps of the command that the shell makes of a query, with the results delivered to a callback
static void command(const ast::Stmt &stmt, std::unique_ptr<Consumer> consumer, Scheduler::Transaction *t = nullptr) {
    Catalog &C = Catalog::Get();
    auto G = QueryGraph::Build(stmt);
    if (t) { G->transaction(t); for (auto &pre : C.pre_optimizations()) (*pre.second)(*G); }
    Optimizer Opt(C.plan_enumerator(), C.cost_function());
    std::unique_ptr<Producer> plan = Opt(*G);
    for (auto &post : C.logical_post_optimizations()) plan = (*post.second).operator()(std::move(plan));
    consumer->add_child(plan.release());
    auto backend = C.create_backend();
    PhysicalOptimizerImpl<ConcretePhysicalPlanTable> P;
    backend->register_operators(P); P.cover(*consumer);
    auto physical = P.extract_plan();
    for (auto &post : C.physical_post_optimizations()) physical = (*post.second).operator()(std::move(physical));
    backend->execute(*physical);
}

static void run(const std::vector<std::string> &L) {
    Catalog &C = Catalog::Get();
    Options::Get().quiet = true; Options::Get().statistics = false;
    std::ostringstream out, err; Diagnostic diag(false, out, err);
    static std::ofstream devnull("/dev/null");
    std::cout.rdbuf(devnull.rdbuf());
    std::map<std::string, std::unique_ptr<Scheduler::Transaction>> txns;
    for (auto &l : L) {
        char k = l[0];
        if (k == 'B') {
            std::istringstream ss(l.substr(2)); std::string slot; long t; ss >> slot >> t;
            txns[slot] = std::make_unique<Scheduler::Transaction>(); txns[slot]->start_time(t); O.ev("[\"ok\"]"); continue;
        }
        if (k == 'F') {
            auto sp = l.find(' ', 2); std::ofstream f(l.substr(2, sp - 2)); auto c = l.substr(sp + 1);
            for (std::size_t i = 0; i < c.size(); ++i) if (c[i] == '\\' and i + 1 < c.size() and c[i + 1] == 'n') { f << '\n'; ++i; } else f << c[i];
            O.ev("[\"ok\"]"); continue;
        }
        if (k == 'U') {
            std::istringstream ss(l.substr(2)); std::string name; unsigned long row; long t; ss >> name >> row >> t;
            auto &T = C.get_database_in_use().get_table(C.pool(name.c_str())); auto S = T.schema(); Schema sub; auto &a = T.at(C.pool("$ts_end"));
            sub.add(S[a.id].id, S[a.id].type, S[a.id].constraints);
            auto sm = Interpreter::compile_store(sub, T.store().memory().addr(), T.layout(), S, row);
            Tuple tup(sub); tup.set(0, Value(int64_t(t))); Tuple *args[] = {&tup}; sm(args);
            O.ev("[\"ok\"]"); continue;
        }
        if (k == 'O') {
            auto &w = *new std::vector<std::string>{"drv"};   // options keep pointers into it
            { std::stringstream ss(l.substr(2)); for (std::string x; ss >> x; )
                if (x == "--plan-table-las") Options::Get().plan_table_type = Options::PT_LargeAndSparse;   // of the shell
                else if (x == "--plan-table-sod") Options::Get().plan_table_type = Options::PT_SmallOrDense;
                else w.push_back(x); }
            std::vector<const char*> a; for (auto &x : w) a.push_back(x.c_str()); a.push_back(nullptr);
            C.arg_parser()(int(a.size() - 1), a.data());
            continue;
        }
        char m = l[1]; std::string sql = l.substr(3); Scheduler::Transaction *txn = nullptr;
        if (m == 't' or m == 'u') { auto sp = sql.find(' '); txn = txns.at(sql.substr(0, sp)).get(); sql = sql.substr(sp + 1); }
        err.str(""); diag.clear();
        try {
            if (k == 'X') {
                if (m == 'e') { auto s = statement_from_string(diag, sql); execute_statement(diag, *s); }
                else if (m == 't') { auto c = command_from_string(diag, sql); c->transaction(txn); c->execute(diag); }
                else if (m == 'c') { auto c = command_from_string(diag, sql); if (c) c->execute(diag); }
                else { std::istringstream in(sql); process_stream(in, "-", diag); }
                O.ev(err.str().empty() ? "[\"ok\"]" : "[\"err\"," + tl::jstr(err.str().substr(0, 160)) + "]");
            } else if (m == 'p' or m == 'u') {
                std::ostringstream res; auto old = std::cout.rdbuf(res.rdbuf());
                if (m == 'u') { auto c = command_from_string(diag, sql); c->transaction(txn); c->execute(diag); }
                else { std::istringstream in(sql); process_stream(in, "-", diag); }
                std::cout.rdbuf(old);
                O.ev(err.str().find("error") == std::string::npos ? "[\"text\"," + tl::jstr(res.str()) + "]" : "[\"err\"," + tl::jstr(err.str().substr(0, 160)) + "]");
            } else {
                std::string rows; long n = 0;
                auto s = statement_from_string(diag, sql);
                if (getenv("VERIF_PLAN")) logical_plan_from_statement(diag, as<const ast::SelectStmt>(*s), std::make_unique<NoOpOperator>(std::cerr))->dump(std::cerr);
                auto cb = std::make_unique<CallbackOperator>([&](const Schema &S, const Tuple &t) {
                    rows += n++ ? ",[" : "[";
                    for (std::size_t i = 0; i != S.num_entries(); ++i) { if (i) rows += ','; rows += value(S[i].type, t, i); }
                    rows += ']';
                });
                if (m == 'm' or m == 't') command(*s, std::move(cb), txn); else execute_query(diag, as<const ast::SelectStmt>(*s), std::move(cb));
                O.ev("[\"rows\",[" + rows + "]]");
            }
        } catch (const std::exception &e) {
            diag.clear();
            O.ev("[\"err\"," + tl::jstr(std::string(e.what()) + ": " + err.str().substr(0, 160)) + "]");
        }
    }
}

int main(int, char **argv) {
    O.file(argv[1]); O.dedupe = false;
    std::ifstream in(argv[2]);
    std::string l, head; std::vector<std::string> L;
    long id = 0;
    while (std::getline(in, l)) {
        if (l[0] == 'T') { head = l.substr(2); L.clear(); continue; }
        if (l[0] != 'E') { L.push_back(l); continue; }
        fflush(O.f);
        if (pid_t p = fork()) { int st; waitpid(p, &st, 0); ++id;
            if (WIFSIGNALED(st)) { O.dedupe = false; O.begin(head); O.ev("[\"crash\",\"killed\"]"); O.end(); fflush(O.f); }   // nothing recorded
            continue; }
        O.n = id;
        O.begin(head);
        tl::catch_crashes(); alarm(30);
        { rlimit r{4ul << 30, 4ul << 30}; setrlimit(RLIMIT_DATA, &r); }
        if (not getenv("VERIF_LOUD")) freopen("/dev/null", "w", stderr);
        run(L);
        O.end(); fflush(O.f);
        _exit(0);
    }
    O.close();
    return 0;
}
