// The SQL front end on texts: tokens, syntax trees, types, normal forms, patterns.   drv_text OUT SCRIPT
// Script lines:  T <head>   L<mode> <hex>   P <hex> (parse and print)   p <hex> (parse)   S <hex> (statement executed)   Y <hex> (types of a query)   C <hex> (normal form)   N <hex> <hex>
//                K <hex> <hex> (string, pattern)   U <hex> (escape)   E
#include "tracelog.hpp"
#include "lex/Lexer.hpp"
#include "parse/Parser.hpp"
#include "parse/ASTPrinter.hpp"
#include "parse/Sema.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/IR/CNF.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/util/fn.hpp>
#include <fstream>
#include <functional>
#include <iostream>
#include <random>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace m; using namespace m::ast;
static auto & O = tl::Out::get();
static std::string unhex(const std::string &h) { std::string r; for (std::size_t i = 0; i + 1 < h.size(); i += 2) r += char(std::stoi(h.substr(i, 2), nullptr, 16)); return r; }
static std::string codes(const std::string &s) { std::string r = "["; for (std::size_t i = 0; i < s.size(); ++i) r += (i ? "," : "") + std::to_string((unsigned char) s[i]); return r + "]"; }
static std::string J(const std::string &s) { return tl::jstr(s); }
static std::string txt(const Token &t) { std::ostringstream os; if (t.text.has_value()) os << t.text; return os.str(); }
static std::string ty(const Token &t) { std::ostringstream os; os << t.type; return os.str(); }

struct Front
{
    std::istringstream in; std::ostringstream out, err; Diagnostic diag; Lexer lexer;
    Front(const std::string &s) : in(s), diag(false, out, err), lexer(diag, Catalog::Get().get_pool(), "-", in) { }
};

//---- syntax trees -------------------------------------------------------------------------------------------------------
static std::string type(const Type *t) {
    if (not t) return "[\"null\"]";
    if (t->is_error()) return "[\"error\"]";
    if (t->is_none()) return "[\"none\"]";
    auto p = cast<const PrimitiveType>(t);
    if (not p) return "[\"other\"]";
    std::string r;
    if (t->is_boolean()) r = "\"bool\"";
    else if (auto c = cast<const CharacterSequence>(t)) r = std::string(c->is_varying ? "\"varchar\"" : "\"char\"") + "," + std::to_string(c->length);
    else if (t->is_date()) r = "\"date\"";
    else if (t->is_date_time()) r = "\"datetime\"";
    else if (auto n = cast<const Numeric>(t)) switch (n->kind) {
        case Numeric::N_Int: r = "\"int\"," + std::to_string(n->precision); break;
        case Numeric::N_Float: r = n->precision == 32 ? "\"float\"" : "\"double\""; break;
        case Numeric::N_Decimal: r = "\"decimal\"," + std::to_string(n->precision) + "," + std::to_string(n->scale); break;
    } else r = "\"other\"";
    return "[" + r + "]";
}
static std::string category(const Type *t) { auto p = t ? cast<const PrimitiveType>(t) : nullptr; return p ? (p->is_scalar() ? "\"scalar\"" : "\"vector\"") : "\"-\""; }

struct Dump : ConstASTVisitor
{
    std::string r;
    using ConstASTVisitor::operator();
    template<typename T> std::string of(const T &x) { std::string o; std::swap(o, r); (*this)(x); std::swap(o, r); return o; }
    template<typename T> std::string opt(const T &p) { return p ? of(*p) : "[]"; }
    static std::string tok(const Token &t) { return J(txt(t)); }
    void operator()(Const<ErrorExpr>&) override { r = "[\"err\"]"; }
    void operator()(Const<Designator> &e) override { r = "[\"d\"," + (e.has_explicit_table_name() ? tok(e.table_name) : "\"\"") + "," + tok(e.attr_name) + "]"; }
    void operator()(Const<Constant> &e) override { r = "[\"k\"," + J(ty(e.tok)) + "," + tok(e.tok) + "]"; }
    void operator()(Const<FnApplicationExpr> &e) override { std::string s = "[\"f\"," + of(*e.fn) + ",["; bool c = false; for (auto &a : e.args) { if (c) s += ','; c = true; s += of(*a); } r = s + "]]"; }
    void operator()(Const<UnaryExpr> &e) override { r = "[\"u\"," + tok(e.op()) + "," + of(*e.expr) + "]"; }
    void operator()(Const<BinaryExpr> &e) override { auto a = of(*e.lhs), b = of(*e.rhs); r = "[\"b\"," + tok(e.op()) + "," + a + "," + b + "]"; }
    void operator()(Const<QueryExpr> &e) override { r = "[\"q\"," + of(*e.query) + "]"; }
    void operator()(Const<ErrorClause>&) override { r = "[\"err\"]"; }
    template<typename V> std::string list(const V &v) { std::string s = "["; bool c = false; for (auto &[e, t] : v) { if (c) s += ','; c = true; s += "[" + of(*e) + "," + tok(t) + "]"; } return s + "]"; }
    void operator()(Const<SelectClause> &c) override { r = std::string("[") + (c.select_all ? "1" : "0") + "," + list(c.select) + "]"; }
    void operator()(Const<FromClause> &c) override {
        std::string s = "["; bool n = false;
        for (auto &f : c.from) { if (n) s += ','; n = true;
            if (auto t = std::get_if<Token>(&f.source)) s += "[" + tok(*t) + "," + tok(f.alias) + "]"; else s += "[" + of(*std::get<Stmt*>(f.source)) + "," + tok(f.alias) + "]"; }
        r = s + "]";
    }
    void operator()(Const<WhereClause> &c) override { r = "[" + of(*c.where) + "]"; }
    void operator()(Const<GroupByClause> &c) override { r = list(c.group_by); }
    void operator()(Const<HavingClause> &c) override { r = "[" + of(*c.having) + "]"; }
    void operator()(Const<OrderByClause> &c) override { std::string s = "["; bool n = false; for (auto &[e, a] : c.order_by) { if (n) s += ','; n = true; s += "[" + of(*e) + "," + (a ? "\"ASC\"" : "\"DESC\"") + "]"; } r = s + "]"; }
    void operator()(Const<LimitClause> &c) override { r = "[" + tok(c.limit) + "," + tok(c.offset) + "]"; }
    void operator()(Const<PrimaryKeyConstraint>&) override { r = "[\"primary\"]"; }
    void operator()(Const<UniqueConstraint>&) override { r = "[\"unique\"]"; }
    void operator()(Const<NotNullConstraint>&) override { r = "[\"notnull\"]"; }
    void operator()(Const<CheckConditionConstraint> &c) override { r = "[\"check\"," + of(*c.cond) + "]"; }
    void operator()(Const<ReferenceConstraint> &c) override { r = "[\"ref\"," + tok(c.table_name) + "," + tok(c.attr_name) + "]"; }
    void operator()(Const<Instruction> &i) override { std::ostringstream o; o << i.name; std::string s = "[\"instruction\"," + tok(i.tok) + ",[" + J(o.str()); for (auto &a : i.args) s += "," + J(a); r = s + "]]"; }
    void operator()(Const<ErrorStmt>&) override { r = "[\"err\"]"; }
    void operator()(Const<EmptyStmt>&) override { r = "[\"empty\"]"; }
    void operator()(Const<CreateDatabaseStmt> &s) override { r = "[\"create database\"," + tok(s.database_name) + "]"; }
    void operator()(Const<DropDatabaseStmt> &s) override { r = "[\"drop database\"," + std::to_string(s.has_if_exists) + "," + tok(s.database_name) + "]"; }
    void operator()(Const<UseDatabaseStmt> &s) override { r = "[\"use\"," + tok(s.database_name) + "]"; }
    void operator()(Const<CreateTableStmt> &s) override {
        std::string o = "[\"create table\"," + tok(s.table_name) + ",["; bool n = false;
        for (auto &a : s.attributes) { if (n) o += ','; n = true; o += "[" + tok(a->name) + "," + type(a->type) + ",["; bool m = false; for (auto &c : a->constraints) { if (m) o += ','; m = true; o += of(*c); } o += "]]"; }
        r = o + "]]";
    }
    void operator()(Const<DropTableStmt> &s) override { r = "[\"drop table\"," + std::to_string(s.has_if_exists) + names(s.table_names) + "]"; }
    template<typename V> std::string names(const V &v) { std::string o = ",["; bool n = false; for (auto &t : v) { if (n) o += ','; n = true; o += tok(*t); } return o + "]"; }
    void operator()(Const<CreateIndexStmt> &s) override {
        std::string o = "[\"create index\"," + std::string(s.has_unique ? "1," : "0,") + (s.has_if_not_exists ? "1," : "0,") + tok(s.index_name) + "," + tok(s.table_name) + "," + tok(s.method) + ",["; bool n = false;
        for (auto &k : s.key_fields) { if (n) o += ','; n = true; o += of(*k); }
        r = o + "]]";
    }
    void operator()(Const<DropIndexStmt> &s) override { r = "[\"drop index\"," + std::to_string(s.has_if_exists) + names(s.index_names) + "]"; }
    void operator()(Const<SelectStmt> &s) override {
        auto a = of(*s.select), f = opt(s.from), w = opt(s.where), g = opt(s.group_by), h = opt(s.having), o = opt(s.order_by), l = opt(s.limit);
        r = "[\"select\"," + a + "," + f + "," + w + "," + g + "," + h + "," + o + "," + l + "]";
    }
    void operator()(Const<InsertStmt> &s) override {
        std::string o = "[\"insert\"," + tok(s.table_name) + ",["; bool n = false;
        for (auto &t : s.tuples) { if (n) o += ','; n = true; o += "["; bool m = false;
            for (auto &[k, e] : t) { if (m) o += ','; m = true; o += k == InsertStmt::I_Default ? "[\"default\"]" : k == InsertStmt::I_Null ? "[\"null\"]" : "[\"x\"," + of(*e) + "]"; } o += "]"; }
        r = o + "]]";
    }
    void operator()(Const<UpdateStmt> &s) override { std::string o = "[\"update\"," + tok(s.table_name) + ",["; bool n = false; for (auto &[t, e] : s.set) { if (n) o += ','; n = true; o += "[" + tok(t) + "," + of(*e) + "]"; } o += "],"; r = o + opt(s.where) + "]"; }
    void operator()(Const<DeleteStmt> &s) override { r = "[\"delete\"," + tok(s.table_name) + "," + opt(s.where) + "]"; }
    void operator()(Const<DSVImportStmt> &s) override { r = "[\"import\"," + tok(s.table_name) + "," + tok(s.path) + "," + tok(s.rows) + "," + tok(s.delimiter) + "," + tok(s.escape) + "," + tok(s.quote) + "," + std::to_string(s.has_header) + "," + std::to_string(s.skip_header) + "]"; }
};

static std::string tokens(const std::string &s, unsigned &errors) {
    Front F(s); std::string r = "["; 
    for (;;) { Token t = F.lexer.next(); long v = t.type == TK_DEC_INT or t.type == TK_OCT_INT ? strtol(txt(t).c_str(), nullptr, 0) : 0; r += "[" + J(ty(t)) + "," + J(txt(t)) + "," + std::to_string(std::clamp(v, 0L, 2147483647L)) + "]"; if (t.type == TK_EOF) break; r += ","; }
    errors = F.diag.num_errors();
    return r + "]";
}
static std::string parse(const std::string &s, unsigned &errors, std::string *again = nullptr) {
    Front F(s); Parser P(F.lexer); std::string r = "["; bool n = false;
    while (P.token()) { if (n) r += ','; n = true; auto c = P.parse(); Dump d; d(*c); r += d.r;
        if (again and not F.diag.num_errors()) { std::ostringstream os; ASTPrinter print(os); print(*c); *again += os.str(); if (is<Instruction>(*c)) *again += ";"; *again += "\n"; } }
    errors = F.diag.num_errors();
    return r + "]";
}

static void lex(char mode, const std::string &s) {
    std::ostringstream out, err; Diagnostic diag(false, out, err);
    std::unique_ptr<std::istream> in;
    if (mode == 'i') in = std::make_unique<std::istringstream>(s);
    else if (mode == 's') in = std::make_unique<std::stringstream>(s);
    else { std::string p = "/tmp/verif_lex." + std::to_string(getpid()); { std::ofstream f(p, std::ios::binary); f << s; } in = std::make_unique<std::fstream>(p, std::ios::in | std::ios::out | std::ios::binary); unlink(p.c_str()); }
    Lexer L(diag, Catalog::Get().get_pool(), "-", *in);
    std::string r = "[";
    for (std::size_t n = 0; n < 2 * s.size() + 3; ++n) {
        Token t = L.next();
        r += "[" + J(ty(t)) + "," + codes(txt(t)) + "," + std::to_string(t.pos.line) + "," + std::to_string(t.pos.column) + "]";
        if (t.type == TK_EOF) break;
        r += ",";
    }
    if (r.back() == ',') r.pop_back();
    O.ev("[\"lex\"," + codes(s) + "," + r + "]," + std::to_string(diag.num_errors()) + "]");
}

static std::string clauses(const cnf::CNF &c) {
    std::string r = "["; bool n = false;
    for (auto &cl : c) { if (n) r += ','; n = true; r += "["; bool m = false; for (auto &p : cl) { if (m) r += ','; m = true; Dump d; d(p.expr()); r += "[" + std::string(p.negative() ? "1" : "0") + "," + d.r + "]"; } r += "]"; }
    return r + "]";
}
static std::unique_ptr<Stmt> analyzed(Front &F) { Parser P(F.lexer); auto s = P.parse_Stmt(); if (F.diag.num_errors()) { return nullptr; } Sema S(F.diag); S(*s); return s; }

static void run(const std::vector<std::string> &L) {
    Options::Get().quiet = true;
    for (auto &l : L) {
        std::istringstream is(l.substr(2)); std::string a, b; is >> a >> b; a = unhex(a); b = unhex(b);
        switch (l[0]) {
            case 'L': lex(l[1], a); break;
            case 'p': { unsigned e0, e1; auto t = tokens(a, e0); auto p = parse(a, e1); O.ev("[\"accept\"," + t + "," + std::to_string(e1) + "," + p + "]"); break; }
            case 'P': {
                unsigned e0, e1, e2 = 0, e3; std::string again; auto t = tokens(a, e0); auto p = parse(a, e1, &again);
                std::string t2 = "[]", p2 = "[]";
                if (not e1) { t2 = tokens(again, e3); p2 = parse(again, e2); }
                O.ev("[\"parse\"," + t + "," + std::to_string(e1) + "," + p + "," + t2 + "," + std::to_string(e2) + "," + p2 + "]");
                break;
            }
            case 'S': { std::ostringstream o, e; Diagnostic d(false, o, e); auto s = statement_from_string(d, a); execute_statement(d, *s); break; }
            case 'Z': {               // any statement: analysed if it parses
                Front F(a); Parser P(F.lexer); auto s = P.parse_Stmt(); unsigned n = F.diag.num_errors();
                if (not n) { Sema S(F.diag); S(*s); n = F.diag.num_errors(); }
                O.ev("[\"sema\"," + std::to_string(n) + "]");
                break;
            }
            case 'O': {               // all types, in an order given by a seed
                std::mt19937 g(std::stoul(a)); std::vector<std::function<const PrimitiveType*()>> mk; std::vector<std::string> want;
                auto add = [&](std::string w, auto f) { for (auto c : {Type::TY_Scalar, Type::TY_Vector}) { want.push_back("[[" + w + "]," + (c == Type::TY_Scalar ? "\"scalar\"]" : "\"vector\"]")); mk.push_back([=]() -> const PrimitiveType* { return f(c); }); } };
                add("\"bool\"", [](auto c) -> const PrimitiveType* { return Type::Get_Boolean(c); });
                add("\"date\"", [](auto c) -> const PrimitiveType* { return Type::Get_Date(c); });
                add("\"datetime\"", [](auto c) -> const PrimitiveType* { return Type::Get_Datetime(c); });
                add("\"float\"", [](auto c) -> const PrimitiveType* { return Type::Get_Float(c); });
                add("\"double\"", [](auto c) -> const PrimitiveType* { return Type::Get_Double(c); });
                for (unsigned n : {1, 2, 4, 8}) add("\"int\"," + std::to_string(n), [n](auto c) -> const PrimitiveType* { return Type::Get_Integer(c, n); });
                for (unsigned n : {1, 2, 3, 4, 7, 8, 9, 15, 16, 31, 32, 33, 63, 64, 127, 128, 255, 256, 1000}) {
                    add("\"char\"," + std::to_string(n), [n](auto c) -> const PrimitiveType* { return Type::Get_Char(c, n); });
                    add("\"varchar\"," + std::to_string(n), [n](auto c) -> const PrimitiveType* { return Type::Get_Varchar(c, n); });
                }
                for (unsigned p = 1; p <= 19; ++p) for (unsigned k = 0; k <= p; ++k) if (k < 4 or k + 2 > p or g() % 4 == 0)
                    add("\"decimal\"," + std::to_string(p) + "," + std::to_string(k), [=](auto c) -> const PrimitiveType* { return Type::Get_Decimal(c, p, k); });
                std::unordered_map<const Type*, unsigned> id; auto no = [&](const Type *t) { return std::to_string(id.try_emplace(t, id.size() + 1).first->second); };
                std::vector<unsigned> o; for (int r = 0; r < 2; ++r) for (unsigned i = 0; i < mk.size(); ++i) o.push_back(i);
                std::shuffle(o.begin(), o.end(), g);
                std::string r; for (auto i : o) { auto t = mk[i](); r += (r.empty() ? "[" : ",[") + want[i] + ",[" + type(t) + "," + category(t) + "]," + no(t) + "," + std::to_string(t->size()) + "," + std::to_string(t->alignment()) + "," + no(t->as_scalar()) + "," + no(t->as_vectorial()) + "]"; }
                O.ev("[\"types\",[" + r + "]]");
                std::vector<const Numeric*> num; for (auto &f : mk) if (auto n = cast<const Numeric>(f())) num.push_back(n);
                r = ""; for (int i = 0; i < 3000; ++i) {
                    auto x = num[g() % 26 < 12 ? g() % 12 : g() % num.size()], y = num[g() % 26 < 12 ? g() % 12 : g() % num.size()]; auto z = arithmetic_join(x, y);
                    auto show = [](const Type *t) { return "[" + type(t) + "," + category(t) + "]"; };
                    r += (r.empty() ? "[" : ",[") + show(x) + "," + show(y) + "," + show(z) + "]"; }
                O.ev("[\"joins\",[" + r + "]]");
                std::set<const Type*> fs; r = "";   // function types over a few types
                std::vector<const Type*> few; for (int i = 0; i < 10; ++i) few.push_back(mk[g() % mk.size()]());        // and types that are alike
                for (auto c : {Type::TY_Scalar, Type::TY_Vector}) { few.push_back(Type::Get_Date(c)); few.push_back(Type::Get_Datetime(c)); few.push_back(Type::Get_Char(c, 1)); few.push_back(Type::Get_Char(c, 2)); few.push_back(Type::Get_Varchar(c, 1)); few.push_back(Type::Get_Boolean(c)); }
                for (int i = 0; i < 400; ++i) {
                    auto one = [&]() -> const Type* { return i < 60 ? num[g() % 3] : few[g() % few.size()]; };
                    auto R = one(); std::vector<const Type*> ps; for (unsigned k = g() % (i < 60 ? 3 : i % 3 ? 2 : 4); k; --k) ps.push_back(one());
                    const Type *f = Type::Get_Function(R, ps);
                    r += (r.empty() ? "[" : ",[") + std::string("[") + no(R); for (auto q : ps) r += "," + no(q); r += "]," + no(f) + "]"; }
                O.ev("[\"functions\",[" + r + "]]");
                break;
            }
            case 'Y': case 'W': {     // the type of the only expression of SELECT / WHERE
                Front F(a);
                // the tree as parsed, before the analysis rewrites it
                unsigned e1; auto tree = parse(a, e1);
                auto s = analyzed(F);
                if (not s) { fprintf(stderr, "does not parse: %s\n", a.c_str()); _exit(3); }
                auto &q = as<SelectStmt>(*s);
                auto &e = l[0] == 'Y' ? *as<SelectClause>(*q.select).select[0].first : *as<WhereClause>(*q.where).where;
                O.ev("[\"" + std::string(l[0] == 'Y' ? "type" : "cond") + "\"," + tree + "," + std::to_string(F.diag.num_errors()) + "," + type(e.type()) + "," + category(e.type()) + "]");
                break;
            }
            case 'C': case 'N': {
                Front F(a); auto s = analyzed(F);
                if (not s or F.diag.num_errors()) { fprintf(stderr, "rejected: %s %s\n", a.c_str(), F.err.str().c_str()); _exit(3); }
                auto &e = *as<WhereClause>(*as<SelectStmt>(*s).where).where; Dump d; d(e); auto c = cnf::to_CNF(e);
                if (l[0] == 'C') { O.ev("[\"cnf\"," + d.r + "," + clauses(c) + "]"); break; }
                Front G(b); auto t = analyzed(G); if (not t or G.diag.num_errors()) _exit(3);
                auto &f = *as<WhereClause>(*as<SelectStmt>(*t).where).where; Dump g; g(f); auto k = cnf::to_CNF(f);
                O.ev("[\"and\"," + d.r + "," + g.r + "," + clauses(c and k) + "]");
                O.ev("[\"or\"," + d.r + "," + g.r + "," + clauses(c or k) + "]");
                O.ev("[\"not\"," + d.r + "," + clauses(not c) + "]");
                if (c.size() and k.size()) { O.ev("[\"cl\"," + clauses(cnf::CNF{c[0]}) + "," + clauses(cnf::CNF{k.back()}) + "," + clauses(cnf::CNF{c[0] or k.back()}) + "," + clauses(c[0] and k.back()) + "," + clauses(not c[0]) + "]"); }
                break;
            }
            case 'K': {
                auto yn = [](auto f) -> std::string { try { return f() ? "1" : "0"; } catch (m::exception&) { return "2"; } };
                O.ev("[\"like\"," + codes(a) + "," + codes(b) + "," + yn([&] { return like(a, b); }) + "," + yn([&] { return std::regex_match(a, pattern_to_regex(b.c_str())); }) + "," + yn([&] { return std::regex_match(a, pattern_to_regex(b.c_str(), true)); })
                    + "," + yn([&] { return like(a, b, '!'); }) + "," + yn([&] { return std::regex_match(a, pattern_to_regex(b.c_str(), false, '!')); }) + "]");
                break;
            }
            case 'U': O.ev("[\"esc\"," + codes(a) + "," + codes(escape(a)) + "," + codes(unescape(escape(a))) + "," + codes(unescape(a)) + "," + codes(interpret(quote(escape(a)))) + "]"); break;
        }
    }
}

int main(int, char **argv) {
    O.file(argv[1]); O.dedupe = false;
    std::ifstream in(argv[2]);
    std::string l, head; std::vector<std::string> L;
    long id = 0;
    while (std::getline(in, l)) {
        if (l[0] == 'T') { head = l.substr(2); L.clear(); continue; }
        if (l[0] != 'E') { L.push_back(l); continue; }
        fflush(O.f);
        if (pid_t p = fork()) { int st; waitpid(p, &st, 0); ++id;
            if (WIFSIGNALED(st)) { O.begin(head); O.ev("[\"crash\",\"killed\"]"); O.end(); fflush(O.f); }
            else if (WEXITSTATUS(st) == 3) return 3;
            continue; }
        O.n = id;
        O.begin(head);
        tl::catch_crashes(); alarm(30);
        { rlimit r{4ul << 30, 4ul << 30}; setrlimit(RLIMIT_DATA, &r); }
        if (not getenv("VERIF_LOUD")) freopen("/dev/null", "w", stderr);
        run(L);
        O.end(); fflush(O.f);
        _exit(0);
    }
    O.close();
    return 0;
}
