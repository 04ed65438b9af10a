// Histories of definitions.   drv_ddl OUT SEED N
#include "tracelog.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/DatabaseCommand.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/storage/Index.hpp>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace m;
static auto & O = tl::Out::get();
static std::mt19937_64 rng;
static unsigned long R(unsigned long n) { return n ? rng() % n : 0; }
static std::string N(long v) { return std::to_string(v); }
static std::string Q(const std::string &s) { return "\"" + s + "\""; }

static const char *DBS[] = {"d0", "d1", "d2"}, *TS[] = {"t0", "t1", "t2", "t3"}, *IS[] = {"i0", "i1", "i2"}, *AS[] = {"a", "b", "c"};
struct Ty { const char *tok, *sql, *lit; };
static const Ty TYS[] = {{"i4", "INT(4)", "7"}, {"i4", "INT(4)", "8"}, {"i8", "INT(8)", "9"}, {"i1", "INT(1)", "5"}, {"i2", "INT(2)", "6"}, {"c5", "CHAR(5)", "\"abc\""},
    {"v6", "VARCHAR(6)", "\"x\""}, {"f", "FLOAT", "1.5"}, {"d", "DOUBLE", "2.5"}, {"b", "BOOL", "TRUE"}, {"date", "DATE", "d'2020-02-03'"}, {"dt", "DATETIME", "d'2020-02-03 04:05:06'"},
    {"n4", "DECIMAL(4, 2)", "1.25"}, {"n9", "DECIMAL(9, 2)", "1.25"}, {"n18", "DECIMAL(18, 2)", "1.25"}, {"bad", "INT(3)", "1"}};
static std::string token(const Type *t) {
    if (t->is_boolean()) return "b";
    if (auto c = cast<const CharacterSequence>(t)) return (c->is_varying ? "v" : "c") + N(c->length);
    if (t->is_date()) return "date";
    if (t->is_date_time()) return "dt";
    auto n = as<const Numeric>(t);
    if (n->kind == Numeric::N_Float) return n->precision == 32 ? "f" : "d";
    return (n->kind == Numeric::N_Int ? "i" : "n") + N(n->precision);
}
static std::string literal(const Type *t, unsigned k) {
    if (t->is_boolean()) return k % 2 ? "TRUE" : "FALSE";
    if (t->is_character_sequence()) return "\"s" + N(k % 10) + "\"";
    if (t->is_date()) return "d'2020-02-0" + N(1 + k % 9) + "'";
    if (t->is_date_time()) return "d'2020-02-0" + N(1 + k % 9) + " 01:02:03'";
    return N(k % 10);
}
static std::string field(const Type *t, unsigned k) {
    auto s = literal(t, k);
    if (t->is_date() or t->is_date_time()) return s.substr(2, s.size() - 3);
    return s;
}

static std::string dump() {
    Catalog &C = Catalog::Get();
    std::string r = "[" + (C.has_database_in_use() ? Q(*C.get_database_in_use().name) : "\"-\"") + ",[";
    bool f1 = true; std::size_t count = 0;
    for (auto d : DBS) {
        auto dn = C.pool(d);
        if (not C.has_database(dn)) continue;
        ++count;
        auto &DB = C.get_database(dn);
        r += (f1 ? "[" : ",[") + Q(d) + ",["; f1 = false;
        bool f2 = true; std::size_t n = 0;
        std::map<const Attribute*, std::string> known;
        for (auto t : TS) if (DB.has_table(C.pool(t))) { ++n; auto &T = DB.get_table(C.pool(t)); for (unsigned i = 0; i < T.num_attrs(); ++i) known[&T[i]] = std::string(t) + "." + *T[i].name; }
        for (auto t : TS) {
            if (not DB.has_table(C.pool(t))) continue;
            auto &T = DB.get_table(C.pool(t));
            r += (f2 ? "[" : ",[") + Q(std::string(*T.name())) + ",["; f2 = false;
            auto pk = T.primary_key();
            for (unsigned i = 0; i < T.num_attrs(); ++i) {
                auto &A = T[i]; bool isp = false; for (auto &p : pk) isp |= p.get().id == A.id;
                auto ref = A.reference ? known.count(A.reference) ? known[A.reference] : "?" : "-";
                bool uq = false; if (ref != "?") for (auto &e : T.schema()) if (e.id.name == A.name) uq = e.references_unique();
                r += (i ? ",[" : "[") + Q(*A.name) + "," + Q(token(A.type)) + "," + N(A.not_nullable) + "," + N(A.unique) + "," + N(isp) + "," + Q(ref) + "," + N(uq) + "]";
            }
            r += "]," + N(T.store().num_rows()) + "]";
        }
        if (n != DB.size()) r += ",\"unknown tables\"";
        r += "],[";
        f2 = true;
        for (auto i : IS) {
            if (not DB.has_index(C.pool(i))) continue;
            auto &I = DB.get_index(C.pool(i));
            r += (f2 ? "[" : ",[") + Q(i) + "," + Q(I.method() == idx::IndexMethod::Array ? "array" : "rmi") + "," + N(I.num_entries()) + "]"; f2 = false;
        }
        r += "],[";
        f2 = true;
        for (auto t : TS) {
            if (not DB.has_table(C.pool(t))) continue;
            auto &T = DB.get_table(C.pool(t));
            for (unsigned i = 0; i < T.num_attrs(); ++i) for (auto m : {idx::IndexMethod::Array, idx::IndexMethod::Rmi}) {
                if (not DB.has_index(C.pool(t), T[i].name, m)) continue;
                auto &I = DB.get_index(C.pool(t), T[i].name, m); std::string name = "?";
                for (auto i : IS) if (DB.has_index(C.pool(i)) and &DB.get_index(C.pool(i)) == &I) name = i;
                r += (f2 ? "[" : ",[") + Q(t) + "," + Q(*T[i].name) + "," + Q(m == idx::IndexMethod::Array ? "array" : "rmi") + "," + Q(name) + "]"; f2 = false;
            }
        }
        r += "]]";
    }
    if (count != C.num_databases()) r += ",\"unknown databases\"";
    return r + "]]";
}

struct Op { std::string sql, json, kind; };
static Op drop(std::vector<std::string> ns, bool tables) {
    bool e = R(2); std::string kind = tables ? "TABLE " : "INDEX ", s = "DROP " + kind + (e ? "IF EXISTS " : ""), j;
    for (unsigned i = 0; i < ns.size(); ++i) { s += (i ? ", " : "") + ns[i]; j += (i ? "," : "") + Q(ns[i]); }
    kind = tables ? "droptable" : "dropindex";
    return {s + ";", Q(kind) + ",[" + j + "]," + N(e), kind};
}
// the tables or indexes that exist, shuffled
static std::vector<std::string> alive(bool tables) {
    Catalog &C = Catalog::Get(); std::vector<std::string> r;
    if (not C.has_database_in_use()) return r;
    auto &DB = C.get_database_in_use();
    if (tables) { for (auto t : TS) if (DB.has_table(C.pool(t))) r.push_back(t); }
    else for (auto i : IS) if (DB.has_index(C.pool(i))) r.push_back(i);
    std::shuffle(r.begin(), r.end(), rng);
    return r;
}
static Op make(bool late) {
    Catalog &C = Catalog::Get();
    auto table = [&] { return std::string(TS[R(R(4) ? 3 : 4)]); };
    // prefer a table that exists
    auto existing = [&]() -> Table* { if (not C.has_database_in_use()) return nullptr; auto &DB = C.get_database_in_use(); for (int k = 0; k < 6; ++k) { auto t = table(); if (DB.has_table(C.pool(t.c_str()))) return &DB.get_table(C.pool(t.c_str())); } return nullptr; };
    switch (R(late ? 22 : 30)) {
        case 0: case 1: { auto d = DBS[R(3)]; return {"CREATE DATABASE " + std::string(d) + ";", "\"createdb\"," + Q(d), "createdb"}; }
        case 2: { auto d = DBS[R(3)]; bool e = R(2); return {"DROP DATABASE " + std::string(e ? "IF EXISTS " : "") + d + ";", "\"dropdb\"," + Q(d) + "," + N(e), "dropdb"}; }
        case 3: case 4: { auto d = DBS[R(3)]; return {"USE " + std::string(d) + ";", "\"use\"," + Q(d), "use"}; }
        case 5: case 6: case 7: case 8: case 9: case 10: {
            auto t = table(); std::string s = "CREATE TABLE " + t + " ( ", j; unsigned n = 1 + R(3); bool pk = false;
            std::vector<const char*> names(AS, AS + 3); if (R(3) == 0) std::shuffle(names.begin(), names.end(), rng); if (R(8) == 0) names[R(3)] = names[R(3)];
            for (unsigned i = 0; i < n; ++i) {
                auto &ty = TYS[R(R(30) ? 15 : 16)];
                bool nn = R(4) == 0, uq = R(4) == 0, p = R(pk ? 20 : 5) == 0; unsigned chk = R(8) ? 0 : 1 + R(2); if (chk == 2 and R(2)) chk = 1; std::string ref = "-";
                pk |= p;
                s += std::string(i ? ", " : "") + names[i] + " " + ty.sql;
                std::string tyt = ty.tok, rt = "-", ra = "-";
                std::vector<std::string> cs;
                if (nn) { cs.push_back(" NOT NULL"); if (R(6) == 0) cs.push_back(" NOT NULL"); }
                if (uq) cs.push_back(" UNIQUE");
                if (p) cs.push_back(" PRIMARY KEY");
                if (chk) cs.push_back(chk == 1 ? std::string(" CHECK (") + names[i] + " = " + names[i] + ")" : " CHECK (1 + 2)");
                if (not late and R(4) == 0) {
                    auto T = R(5) ? existing() : nullptr; rt = T ? std::string(*T->name()) : table();
                    unsigned k = T ? R(T->num_attrs()) : 0; ra = T and R(6) ? std::string(*(*T)[k].name) : AS[R(3)];
                    if (T and R(4) and T->has_attribute(C.pool(ra.c_str()))) {        // of the same type
                        tyt = token(T->at(C.pool(ra.c_str())).type);
                        for (auto &y : TYS) if (tyt == y.tok) { auto at = s.rfind(ty.sql); s = s.substr(0, at) + y.sql; break; }
                    }
                    cs.push_back(" REFERENCES " + rt + "(" + ra + ")");
                    if (R(15) == 0) { cs.push_back(cs.back()); rt = "twice"; }
                }
                std::shuffle(cs.begin(), cs.end(), rng);
                for (auto &c : cs) s += c;
                j += (i ? ",[" : "[") + Q(names[i]) + "," + Q(tyt) + "," + N(nn) + "," + N(uq) + "," + N(p) + "," + N(chk) + "," + Q(rt) + "," + Q(ra) + "]";
            }
            return {s + " );", "\"createtable\"," + Q(t) + ",[" + j + "]", "createtable"};
        }
        case 11: case 12: {
            std::vector<std::string> ts(TS, TS + 4); std::shuffle(ts.begin(), ts.end(), rng); ts.resize(R(2) ? 1 : 1 + R(3));
            return drop(ts, true);
        }
        case 13: case 14: case 15: case 16: case 17: case 18: {
            auto T = R(8) ? existing() : nullptr; std::string t = T ? std::string(*T->name()) : table(), a = T and R(8) ? std::string(*(*T)[R(T->num_attrs())].name) : AS[R(3)];
            auto i = IS[R(3)]; bool u = R(20) == 0, e = R(3) == 0; static const char *ms[] = {"array", "rmi", "", "default", "btree"}; std::string m = ms[R(R(10) ? 4 : 5)]; bool two = R(20) == 0;
            return {"CREATE " + std::string(u ? "UNIQUE " : "") + "INDEX " + (e ? "IF NOT EXISTS " : "") + i + " ON " + t + (m.empty() ? "" : " USING " + (m == "default" ? "DEFAULT" : m)) + " (" + a + (two ? ", b" : "") + ");",
                    "\"createindex\"," + Q(i) + "," + N(e) + "," + Q(t) + "," + Q(a) + "," + Q(m.empty() ? "default" : m) + "," + N(u) + "," + N(two), "createindex"};
        }
        case 19: case 20: case 21: {
            std::vector<std::string> is(IS, IS + 3); std::shuffle(is.begin(), is.end(), rng); is.resize(R(2) ? 1 : 1 + R(3));
            return drop(is, false);
        }
        default: {
            auto T = existing(); std::string t = T ? std::string(*T->name()) : table();
            if (not T and C.has_database_in_use() and C.get_database_in_use().has_table(C.pool(t.c_str()))) T = &C.get_database_in_use().get_table(C.pool(t.c_str()));
            bool import = R(3) == 0;
            unsigned n = 1 + R(4); unsigned width = T and (import or R(10)) ? T->num_attrs() : 1 + R(3);
            std::string s, j, f;
            for (unsigned i = 0; i < n; ++i) {
                s += i ? ", (" : "("; j += i ? ",[" : "["; 
                for (unsigned k = 0; k < width; ++k) {
                    bool in = T and k < T->num_attrs();
                    bool null = not (in and (*T)[k].not_nullable) and R(4) == 0;
                    auto v = R(100);
                    s += (k ? ", " : "") + (null ? "NULL" : in ? literal((*T)[k].type, v) : "1");
                    f += (k ? "," : "") + (null ? "" : in ? field((*T)[k].type, v) : "1");
                    j += (k ? "," : "") + N(not null);
                }
                s += ")"; j += "]"; f += "\n";
            }
            if (import) {
                static unsigned no = 0; auto path = std::string(getenv("DDL_DIR")) + "/f" + N(no++) + ".csv"; { std::ofstream o(path); o << f; }
                return {"IMPORT INTO " + t + " DSV \"" + path + "\";", "\"insert\"," + Q(t) + ",[" + j + "]", "import"};
            }
            return {"INSERT INTO " + t + " VALUES " + s + ";", "\"insert\"," + Q(t) + ",[" + j + "]", "insert"};
        }
    }
}

static void history(unsigned steps) {
    Catalog &C = Catalog::Get();
    Options::Get().quiet = true; Options::Get().statistics = false;
    std::ostringstream out, err; Diagnostic diag(false, out, err);
    static std::ofstream devnull("/dev/null"); std::cout.rdbuf(devnull.rdbuf());
    std::vector<std::pair<unsigned, std::unique_ptr<DatabaseCommand>>> slots; unsigned no = 0;
    O.begin("\"kind\":\"definitions\"");
    auto failed = [&] { return err.str().find("error:") != std::string::npos; };
    auto said = [&] { std::string r; for (char ch : err.str()) if (isalnum(ch) or ch == ' ') r += ch; return getenv("VERIF_SAID") ? "," + Q(r) : std::string(); };
    unsigned severals = 0; bool eager = R(5); unsigned which = R(3);
    for (unsigned i = 0; i < steps; ++i) {
        err.str(""); diag.clear();
        if (slots.size() and R(3) == 0) {
            unsigned k = R(slots.size()); std::string ok;
            O.head = "\"kind\":\"executed later\"";
            try { slots[k].second->execute(diag); ok = failed() ? "err" : "ok"; } catch (const std::exception&) { ok = "err"; }
            O.ev("[\"exec\"," + N(slots[k].first) + "," + Q(ok) + "," + dump() + "]");
            slots.erase(slots.begin() + k);
            continue;
        }
        bool late = slots.size() < 3 and R(6) == 0;
        // several at once, of which one goes before they do
        bool tables = R(3) == 0, several = false, one = false;
        if (slots.size() < 3 and R(8) == 0 and alive(tables).size() > 1) late = several = true;
        else if (not late and severals and R(6) == 0 and alive(tables).size()) one = true;
        auto op = several ? drop(alive(tables), tables) : one ? drop({alive(tables)[0]}, tables) : make(late);
        if (i < 2 and eager) { auto d = DBS[which]; if (i) op = {"USE " + std::string(d) + ";", "\"use\"," + Q(d), "use"}; else op = {"CREATE DATABASE " + std::string(d) + ";", "\"createdb\"," + Q(d), "createdb"}; }
        if (late) {
            std::unique_ptr<DatabaseCommand> c; std::string ok = "ok";
            try { c = command_from_string(diag, op.sql); } catch (const std::exception&) { ok = "err"; }
            if (ok == "ok" and not c) ok = "nothing";
            O.ev("[\"prep\"," + N(no) + "," + Q(ok) + "," + dump() + ",[" + op.json + "]]");
            if (c) { slots.emplace_back(no, std::move(c)); severals += several; } ++no;
            continue;
        }
        static const char ms[] = "cpe"; char m = ms[R(3)];
        if (m == 'e' and (op.kind == "dropdb" or op.kind == "droptable" or op.kind == "dropindex" or op.kind == "createindex")) m = 'c';
        std::string ok;
        O.head = "\"kind\":\"" + std::string(1, m) + ": " + op.kind + "\"";        // for a crash report
        try {
            if (m == 'e') { auto s = statement_from_string(diag, op.sql); execute_statement(diag, *s); }
            else if (m == 'c') { auto c = command_from_string(diag, op.sql); if (c) c->execute(diag); }
            else { std::istringstream in(op.sql); process_stream(in, "-", diag); }
            ok = failed() ? "err" : "ok";
        } catch (const std::exception&) { ok = "err"; }
        O.ev("[\"do\",\"" + std::string(1, m) + "\"," + Q(ok) + "," + dump() + ",[" + op.json + "]" + said() + "]");
    }
    O.head = "\"kind\":\"definitions\"";
    O.end();
}

int main(int, char **argv) {
    O.file(argv[1]); O.dedupe = false;
    unsigned long seed = std::stoul(argv[2]); int n = std::stoi(argv[3]);
    std::string dir = std::string(argv[1]) + ".d"; setenv("DDL_DIR", dir.c_str(), 1);
    for (int i = 0; i < n; ++i) {
        fflush(O.f);
        if (getenv("VERIF_ONLY") and i != std::stoi(getenv("VERIF_ONLY"))) continue;
        std::filesystem::create_directories(dir);
        if (pid_t p = getenv("VERIF_ONLY") ? 0 : fork()) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { O.begin("\"kind\":\"?\""); O.ev("[\"crash\",\"killed\"]"); O.end(); fflush(O.f); } ++O.n; continue; }
        rng.seed(seed * 100003 + i);
        struct rlimit lim{2ul << 30, 2ul << 30}; setrlimit(RLIMIT_DATA, &lim);
        tl::catch_crashes(); alarm(60);
        if (not getenv("VERIF_LOUD")) freopen("/dev/null", "w", stderr);
        history(20 + R(60));
        fflush(O.f); _exit(0);
    }
    std::filesystem::remove_all(dir);
    O.close();
    printf("{\"traces\":%ld}\n", O.n);
}
