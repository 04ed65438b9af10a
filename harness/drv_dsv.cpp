// Imports of delimiter-separated files.   drv_dsv OUT SEED N
#include "tracelog.hpp"
#include "backend/Interpreter.hpp"
#include "storage/PaxStore.hpp"
#include "storage/RowStore.hpp"
#include <mutable/io/Reader.hpp>
#include <mutable/mutable.hpp>
#include <mutable/Options.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <cmath>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <limits>
#include <random>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace m; using namespace m::storage;
static auto & O = tl::Out::get();
static std::mt19937_64 rng;
static unsigned long R(unsigned long n) { return n ? rng() % n : 0; }
static std::string N(long v) { return std::to_string(v); }
static std::string Q(const std::string &s) { return "\"" + s + "\""; }
static std::string codes(const std::string &s) { std::string r; for (unsigned char c : s) r += (r.empty() ? "" : ",") + N(c); return "[" + r + "]"; }

struct Ty { const char *tok; unsigned arg; const PrimitiveType * (*get)(); };
#define V Type::TY_Vector
static const Ty TYS[] = {
    {"i", 1, [] { return (const PrimitiveType*) Type::Get_Integer(V, 1); }}, {"i", 2, [] { return (const PrimitiveType*) Type::Get_Integer(V, 2); }},
    {"i", 4, [] { return (const PrimitiveType*) Type::Get_Integer(V, 4); }}, {"i", 8, [] { return (const PrimitiveType*) Type::Get_Integer(V, 8); }},
    {"n", 0, [] { return (const PrimitiveType*) Type::Get_Decimal(V, 9, 0); }}, {"n", 2, [] { return (const PrimitiveType*) Type::Get_Decimal(V, 9, 2); }}, {"n", 3, [] { return (const PrimitiveType*) Type::Get_Decimal(V, 18, 3); }},
    {"f", 0, [] { return (const PrimitiveType*) Type::Get_Float(V); }}, {"d", 0, [] { return (const PrimitiveType*) Type::Get_Double(V); }},
    {"b", 0, [] { return (const PrimitiveType*) Type::Get_Boolean(V); }}, {"date", 0, [] { return (const PrimitiveType*) Type::Get_Date(V); }}, {"dt", 0, [] { return (const PrimitiveType*) Type::Get_Datetime(V); }},
    {"c", 60, [] { return (const PrimitiveType*) Type::Get_Char(V, 60); }}, {"c", 70, [] { return (const PrimitiveType*) Type::Get_Varchar(V, 70); }},
    {"c", 4, [] { return (const PrimitiveType*) Type::Get_Char(V, 4); }}, {"c", 3, [] { return (const PrimitiveType*) Type::Get_Varchar(V, 3); }},
};
static const Ty LTYS[] = {
    {"c", 310, [] { return (const PrimitiveType*) Type::Get_Char(V, 310); }}, {"c", 320, [] { return (const PrimitiveType*) Type::Get_Varchar(V, 320); }},
};
static bool LNG, MANY;                                  // long cells; many rows
static unsigned size() { static const unsigned S[] = {14, 15, 16, 31, 32, 33, 62, 63, 64, 65, 127, 128, 129, 150}; return S[R(14)]; }
static const char *NAMES[] = {"a", "bb", "c", "dd", "e"};

struct Cfg { char d = ',', q = '"', e = '\\'; bool hdr = false, skip = false; long rows = -1; };

static std::string digits(unsigned n) { std::string r; for (unsigned i = 0; i < n; ++i) r += char('0' + R(10)); return r; }
static std::string junk(const Cfg &c, bool nl) {
    std::string r; std::string al = std::string("ab0 \\'\"/.-;") + c.e;
    for (unsigned i = LNG and not R(4) ? 2 * size() : R(5); i-- > 0; ) { char ch = al[R(al.size())]; if (ch == c.d or ch == c.q) continue; r += ch; }
    return r;
}
static std::string sign() { return R(3) ? "" : R(3) ? "-" : "+"; }
static std::string quoted(const Cfg &c) {
    std::string r(1, c.q);
    for (unsigned i = LNG and R(2) ? size() : R(8); i-- > 0; ) switch (R(LNG ? 20 : 7)) {
        case 0: r += c.e; r += c.q; break;
        case 1: r += c.d; break;
        case 2: r += '\n'; break;
        case 3: if (c.e != c.q) { r += c.e; r += R(2) ? c.e : 'n'; break; }
        [[fallthrough]];
        default: r += "xyz \xc3\xa4\xff 19."[R(11)];
    }
    if (R(30)) r += c.q;                                // or left open
    if (R(12) == 0) { bool l = LNG; LNG = false; r += junk(c, false); LNG = l; }        // something after it
    return r;
}
static std::string number(const Ty &t) {
    std::string s = sign();
    if (*t.tok == 'i') {
        if (R(4) == 0) {            // around the limits
            static const char *lim[][3] = {{"127", "128", "129"}, {"32767", "32768", "32769"}, {"2147483647", "2147483648", "2147483649"}, {"9223372036854775807", "9223372036854775808", "9223372036854775809"}};
            return s + (R(5) ? "" : "00") + lim[t.arg == 1 ? 0 : t.arg == 2 ? 1 : t.arg == 4 ? 2 : 3][R(3)];
        }
        if (R(12) == 0) return s + digits(R(2) ? 20 + R(4) : 0);
        return s + digits(1 + R(t.arg == 1 ? 2 : t.arg == 2 ? 4 : t.arg == 4 ? 9 : 18));
    }
    if (*t.tok == 'n') {
        if (R(15) == 0) return s + digits(20 + R(4));
        s += digits(R(8) ? 1 + R(6) : 0);
        if (R(2)) s += "." + digits(R(R(4) ? 3 : 6));
        return s;
    }
    if (*t.tok == 'd' and R(20) == 0) return s + "1e999";
    static const char *fr[] = {"", ".", ".5", ".25", ".750", ".0", ".500"};
    return s + digits(R(8) ? 1 + R(4) : 0) + fr[R(7)];
}
static std::string calendar(const Ty &t, const Cfg &c) {
    char b[64]; unsigned y = R(5) and *t.tok == 'd' and t.tok[1] == 't' ? 1971 + R(66) : 1971 + R(66);
    if (std::string(t.tok) == "date" and R(2)) y = 1 + R(9998);
    snprintf(b, sizeof b, "%04u-%02u-%02u", y, unsigned(R(12) ? 1 + R(12) : R(2) ? 0 : 13 + R(87)), unsigned(R(12) ? 1 + R(28) : R(2) ? 0 : 32 + R(68)));
    std::string s = b;
    if (std::string(t.tok) == "dt") { snprintf(b, sizeof b, " %02u:%02u:%02u", unsigned(R(24) + (R(15) ? 0 : 24)), unsigned(R(60) + (R(15) ? 0 : 40)), unsigned(R(60) + (R(15) ? 0 : 40))); s += b; }
    if (R(10) == 0) s = s.substr(0, R(s.size() + 1));
    if (R(15) == 0) s[R(s.size())] = 'x';
    if (R(20) == 0) s += junk(c, false);
    if (R(3) == 0) s = c.q + s + (R(10) ? std::string(1, c.q) : "");
    return s;
}
static std::string cell(const Ty *t, const Cfg &c) {
    if (R(7) == 0) return "";
    if (R(20) == 0) return junk(c, false);
    if (not t) return R(2) ? quoted(c) : junk(c, false);
    switch (*t->tok) {
        case 'b': return R(10) == 0 ? R(2) ? "true" : "1" : R(2) ? "TRUE" : "FALSE";
        case 'c': return R(2) ? quoted(c) : junk(c, false) + (R(12) ? "" : c.q + junk(c, false));
        case 'd': if (t->tok[1]) return calendar(*t, c); [[fallthrough]];
        default: return R(40) == 0 ? number(*t) + "x" : number(*t);
    }
}

static std::string num(long v) { // sign and digits
    std::string r = v < 0 ? "[-1" : v ? "[1" : "[0"; auto s = std::to_string(v);
    if (v) for (char c : s) if (c != '-') r += std::string(",") + c;
    return r + "]";
}
static std::string value(const Type *t, const Tuple &u, unsigned i) {
    if (u.is_null(i)) return "[]";
    if (t->is_boolean()) return "[" + N(u.get(i).as<bool>()) + "]";
    if (t->is_character_sequence()) { auto s = codes(u.get(i).as<const char*>()); return s == "[]" ? "[0]" : "[0," + s.substr(1); }
    if (t->is_date() or t->is_date_time()) return "[" + N(u.get(i).as<int64_t>()) + "]";
    if (t->is_floating_point()) {
        double d = t->is_float() ? u.get(i).as<float>() : u.get(i).as<double>();
        if (d == std::numeric_limits<double>::max()) return "[1,1]";
        if (d == std::numeric_limits<double>::lowest()) return "[1,-1]";
        return d * 4 == std::floor(d * 4) and std::abs(d) < 1e8 ? "[" + N(long(d * 4)) + "]" : "[2,2]";
    }
    return num(u.get(i).as<int64_t>());
}

static void history() {
    Catalog::Clear(); auto &C = Catalog::Get();
    Options::Get().quiet = true;
    auto &DB = C.add_database(C.pool("db")); C.set_database_in_use(DB);
    auto &T = DB.add_table(C.pool("t"));
    LNG = R(12) == 0; MANY = R(12) == 0;
    unsigned n = 1 + R(R(3) and not MANY ? 5 : 2); std::vector<const Ty*> tys; std::string decl;
    for (unsigned i = 0; i < n; ++i) {
        auto &t = LNG and R(2) ? LTYS[R(2)] : TYS[LNG ? R(12) : R(16)]; tys.push_back(&t);
        T.push_back(C.pool(NAMES[i]), t.get());
        decl += (i ? ",[" : "[") + codes(NAMES[i]) + "," + Q(t.tok) + "," + N(t.arg) + "]";
    }
    if (R(2)) { T.store(std::make_unique<PaxStore>(T)); PAXLayoutFactory f; T.layout(f); }
    else { T.store(std::make_unique<RowStore>(T)); RowLayoutFactory f; T.layout(f); }
    O.begin("\"kind\":\"import\",\"cols\":[" + decl + "]");
    std::string path = std::string(getenv("DSV_DIR")) + "/f.csv";
    std::size_t seen = 0;
    for (unsigned k = 1 + R(3); k-- > 0; ) {
        Cfg c; unsigned how = R(3);
        if (how < 2 and R(2)) { c.d = ",;|\t"[R(how ? 3 : 4)]; c.q = "\"'$"[R(3)]; c.e = "\\/\"'$!"[R(6)]; }
        if (how == 2) c.e = c.q;
        if (R(3) == 0) c.hdr = true;
        if (R(4) == 0) { c.skip = true; if (R(4)) c.hdr = true; }
        if (R(4) == 0) c.rows = R(MANY ? 80 : 5);
        std::string text; std::vector<const Ty*> cols = tys; bool dup = false;
        if (c.hdr and not c.skip) {
            std::vector<unsigned> o; for (unsigned i = 0; i < n; ++i) o.push_back(i);
            std::shuffle(o.begin(), o.end(), rng); if (R(2)) o.resize(1 + R(n)); if (R(4) == 0) o.insert(o.begin() + R(o.size() + 1), 99); if (R(12) == 0) o.push_back(o[0]);
            cols.clear();
            for (auto i : o) { text += (cols.empty() ? "" : std::string(1, c.d)) + (i == 99 ? "zz" : NAMES[i]); cols.push_back(i == 99 ? nullptr : tys[i]); }
            text += "\n";
        } else if (c.hdr or c.skip) text += (R(8) ? std::string("some") + c.d + "header" : "") + "\n";
        for (unsigned r = MANY ? size() / 2 + R(3) : R(6); r-- > 0; ) {
            unsigned w = cols.size();
            if (R(15) == 0) w = R(cols.size() + 3);
            for (unsigned i = 0; i < w; ++i) text += (i ? std::string(1, c.d) : "") + cell(i < cols.size() ? cols[i] : nullptr, c);
            if (r or R(4)) text += "\n";
        }
        if (R(60) == 0) text.clear();
        { std::ofstream o(path); o << text; }
        std::ostringstream out, err; Diagnostic diag(false, out, err); std::string ok = "ok";
        O.head = "\"kind\":\"import " + N(how) + "\",\"cols\":[" + decl + "]";
        try {
            if (how == 0) {
                DSVReader::Config g; g.delimiter = c.d; g.quote = c.q; g.escape = c.e; g.has_header = c.hdr; g.skip_header = c.skip; if (c.rows >= 0) g.num_rows = c.rows;
                DSVReader rd(T, g, diag); std::istringstream in(text); rd(in, path.c_str());
            } else if (how == 1) {
                auto lit = [](char ch) { return ch == '"' or ch == '\\' ? std::string("\"\\") + ch + "\"" : ch == '\t' ? std::string("\"\\t\"") : std::string("\"") + ch + "\""; };
                std::string s = "IMPORT INTO t DSV \"" + path + "\"";
                if (c.rows >= 0) s += " ROWS " + N(c.rows);
                if (c.d != ',') s += " DELIMITER " + lit(c.d);
                if (c.e != '\\') s += " ESCAPE " + lit(c.e);
                if (c.q != '"') s += " QUOTE " + lit(c.q);
                if (c.hdr) s += " HAS HEADER";
                if (c.skip) s += " SKIP HEADER";
                std::istringstream in(s + ";"); process_stream(in, "-", diag);
            } else
                load_from_CSV(diag, T, path, c.rows >= 0 ? c.rows : std::numeric_limits<std::size_t>::max(), c.hdr, c.skip);
            ok = diag.num_errors() or err.str().find(": error: ") != std::string::npos ? "err" : "ok";
        } catch (const m::runtime_error&) { ok = how == 2 ? "err" : "raised"; }
          catch (const std::exception &e) { ok = "raised"; }
        // the lines of the reports
        std::set<long> lines; std::istringstream rep(err.str()); std::string line;
        while (std::getline(rep, line)) if (line.rfind(path + ":", 0) == 0 and line.find(": error:") != std::string::npos) lines.insert(std::stol(line.substr(path.size() + 1)));
        std::string ls; for (auto l : lines) ls += (ls.empty() ? "" : ",") + N(l);
        // all rows
        std::string rows; Schema S = T.schema(); Tuple u(S); std::size_t total = T.store().num_rows();
        if (total) {
            auto L = Interpreter::compile_load(S, T.store().memory().addr(), T.layout(), S);
            for (std::size_t r = 0; r < total and r < 500; ++r) {
                u.clear(); Tuple *args[] = {&u}; L(args);
                rows += r ? ",[" : "["; for (unsigned i = 0; i < n; ++i) rows += (i ? "," : "") + value(T[i].type, u, i); rows += "]";
            }
        }
        O.ev("[\"import\"," + Q(ok) + ",[" + ls + "],[" + rows + "]," + codes(text) + "," + N((unsigned char)c.d) + "," + N((unsigned char)c.q) + "," + N((unsigned char)c.e) + "," + N(c.hdr) + "," + N(c.skip) + "," + N(c.rows) + "]");
        seen = total;
    }
    O.head = "\"kind\":\"import\",\"cols\":[" + decl + "]";
    O.end();
}

int main(int, char **argv) {
    O.file(argv[1]); O.dedupe = false;
    unsigned long seed = std::stoul(argv[2]); int n = std::stoi(argv[3]);
    std::string dir = std::string(argv[1]) + ".d"; setenv("DSV_DIR", dir.c_str(), 1);
    std::filesystem::create_directories(dir);
    for (int i = 0; i < n; i += 50) {
        fflush(O.f);
        if (getenv("VERIF_ONLY") and i / 50 != std::stoi(getenv("VERIF_ONLY")) / 50) continue;
        if (pid_t p = getenv("VERIF_ONLY") ? 0 : fork()) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { O.begin("\"kind\":\"?\",\"cols\":[]"); O.ev("[\"crash\",\"killed\"]"); O.end(); fflush(O.f); } O.n += 50; continue; }
        struct rlimit lim{2ul << 30, 2ul << 30}; setrlimit(RLIMIT_DATA, &lim);
        tl::catch_crashes(); alarm(60);
        if (not getenv("VERIF_LOUD")) freopen("/dev/null", "w", stderr);
        for (int k = i; k < i + 50 and k < n; ++k) { rng.seed(seed * 100003 + k); if (getenv("VERIF_ONLY") and k != std::stoi(getenv("VERIF_ONLY"))) continue; history(); }
        fflush(O.f); _exit(0);
    }
    std::filesystem::remove_all(dir);
    O.close();
    printf("{\"traces\":%ld}\n", O.n);
}
