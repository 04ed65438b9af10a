// Data layouts and stored rows.   drv_store OUT SEED layout|rows|index N [option...]
#include "tracelog.hpp"
#include "backend/Interpreter.hpp"
#include "storage/ColumnStore.hpp"
#include "storage/PaxStore.hpp"
#include "storage/RowStore.hpp"
#include <mutable/catalog/Catalog.hpp>
#include <mutable/mutable.hpp>
#include <mutable/storage/DataLayoutFactory.hpp>
#include <cmath>
#include <deque>
#include <functional>
#include <random>
#include <sys/resource.h>
#include <sys/wait.h>

using namespace m; using namespace m::storage;
static auto & O = tl::Out::get();
static std::mt19937_64 rng;
static unsigned long R(unsigned long n) { return n ? rng() % n : 0; }
static std::string N(long v) { return v > 2147483647 or v < -2147483647 ? "-2147483648" : std::to_string(v); }
static bool reorder = true, less = false;

static const PrimitiveType * type(unsigned bias) {
    static const Type::category_t V = Type::TY_Vector;
    if (bias == 1 and R(2)) return Type::Get_Boolean(V);
    if (bias == 2 and R(2)) return Type::Get_Integer(V, 1);
    switch (R(12)) {
        case 0: case 1: return Type::Get_Boolean(V);
        case 2: return Type::Get_Char(V, bias == 3 ? 1 + R(900) : 1 + R(9));
        case 3: return Type::Get_Varchar(V, bias == 3 ? 1 + R(900) : 1 + R(9));
        case 4: return Type::Get_Integer(V, 1);
        case 5: return Type::Get_Integer(V, 2);
        case 6: return Type::Get_Integer(V, 4);
        case 7: return Type::Get_Integer(V, 8);
        case 8: return Type::Get_Float(V);
        case 9: return Type::Get_Double(V);
        case 10: return Type::Get_Decimal(V, 1 + R(18), R(2));
        default: return R(2) ? (const PrimitiveType*) Type::Get_Date(V) : Type::Get_Datetime(V);
    }
}
static std::vector<const PrimitiveType*> types(unsigned max) {
    std::vector<const PrimitiveType*> r; unsigned n = 1 + R(R(12) == 0 ? max : std::min(max, 8u)), bias = R(6);
    for (unsigned i = 0; i < n; ++i) r.push_back(type(bias));
    return r;
}

static std::string tree(const DataLayout::Node &n, const std::vector<const PrimitiveType*> &ty) {
    if (auto l = cast<const DataLayout::Leaf>(&n)) {
        bool same = l->index() < ty.size() ? l->type() == ty[l->index()] : l->type()->is_bitmap();
        return "[\"l\"," + N(l->index()) + "," + N(l->type()->size()) + "," + N(l->type()->alignment()) + "," + N(same) + "]";
    }
    auto &i = as<const DataLayout::INode>(n);
    std::string r;
    for (auto it = i.begin(); it != i.end(); ++it) { auto &c = *it; r += (r.empty() ? "[" : ",[") + N(c.offset_in_bits) + "," + N(c.stride_in_bits) + "," + tree(*c.ptr, ty) + "]"; }
    return "[\"n\"," + N(i.num_tuples()) + ",[" + r + "]]";
}
static std::string groups(const DataLayout &L) {
    std::string r;
    L.for_sibling_leaves([&](const std::vector<DataLayout::leaf_info_t> &leaves, const DataLayout::level_info_stack_t &levels, uint64_t base) {
        std::string a, b;
        for (auto &l : leaves) a += (a.empty() ? "[" : ",[") + N(l.leaf.index()) + "," + N(l.offset_in_bits) + "," + N(l.stride_in_bits) + "]";
        for (auto &l : levels) b += (b.empty() ? "[" : ",[") + N(l.stride_in_bits) + "," + N(l.num_tuples) + "]";
        r += (r.empty() ? "[[" : ",[[") + a + "],[" + b + "]," + N(base) + "]";
    });
    return "[" + r + "]";
}
/** A layout made by hand: PAX-like blocks of blocks. */
static DataLayout nested(const std::vector<const PrimitiveType*> &ty, bool finite) {
    static const unsigned shapes[][3] = {{12, 4, 0}, {12, 4, 2}, {8, 8, 4}, {6, 3, 0}, {1, 0, 0}, {5, 1, 0}, {16, 8, 8}, {9, 3, 1}, {24, 8, 0}, {4, 0, 0}};
    auto &s = shapes[R(10)];
    // distribute the leaves over the levels
    std::vector<std::vector<unsigned>> at(3);
    unsigned depth = s[1] ? s[2] ? 3 : 2 : 1;
    for (unsigned i = 0; i <= ty.size(); ++i) at[R(depth)].push_back(i);
    for (auto &v : at) std::shuffle(v.begin(), v.end(), rng);
    auto size = [&](unsigned i) -> uint64_t { return i < ty.size() ? ty[i]->size() : ty.size(); };
    auto up = [](uint64_t x) { return (x + 7) / 8 * 8; };
    bool bytebool = R(2);
    unsigned bmgap = R(2) ? R(9) : 0;
    auto stride = [&](unsigned i, unsigned n) -> uint64_t { if (n == 1) return 0; if (i == ty.size()) return size(i) + bmgap; if (size(i) % 8 == 0) return size(i) + 8 * R(2); return bytebool ? 8 : 1; };
    // inner sizes bottom up
    struct plan { unsigned n; std::vector<std::tuple<unsigned, uint64_t, uint64_t>> leaves; uint64_t inner_off = 0, inner_stride = 0, size = 0; };
    std::vector<plan> P(depth);
    for (unsigned d = depth; d-- > 0; ) {
        auto &p = P[d]; p.n = s[d];
        uint64_t off = 8 * R(2);
        bool first = R(2);
        auto inner = [&] { if (d + 1 < depth) { p.inner_off = off; unsigned k = p.n / P[d + 1].n; p.inner_stride = p.n == 1 ? 0 : P[d + 1].size; off += P[d + 1].size * k; } };
        if (first) inner();
        for (auto i : at[d]) { auto st = stride(i, p.n); p.leaves.emplace_back(i, off, st); off = up(off + (p.n - 1) * st + size(i)) + 8 * R(2); }
        if (not first) inner();
        p.size = up(off) + 8 * R(3);
    }
    DataLayout L(finite ? s[0] * (2 + R(8)) : 0);
    std::function<void(DataLayout::INode&, unsigned)> fill = [&](DataLayout::INode &n, unsigned d) {
        auto &p = P[d];
        unsigned where = R(p.leaves.size() + 1), k = 0;
        auto inner = [&] { if (d + 1 < depth) fill(n.add_inode(P[d + 1].n, p.inner_off, p.inner_stride), d + 1); };
        for (auto &[i, off, st] : p.leaves) { if (k++ == where) inner(); n.add_leaf(i < ty.size() ? (const Type*) ty[i] : Type::Get_Bitmap(Type::TY_Vector, ty.size()), i, off, st); }
        if (k <= where) inner();
    };
    fill(L.add_inode(P[0].n, P[0].size ? P[0].size : 8), 0);
    return L;
}
struct Kind { std::string name; unsigned long n; };
static std::unique_ptr<DataLayoutFactory> factory(Kind &k) {
    switch (R(6)) {
        case 0: k = {"row", 0}; return std::make_unique<RowLayoutFactory>();
        case 1: case 2: { static const unsigned long t[] = {16, 128, 1024, 1, 2, 7, 8, 9, 17, 33}; k = {"tuples", R(2) ? t[R(10)] : 1 + R(100)}; return std::make_unique<PAXLayoutFactory>(PAXLayoutFactory::NTuples, k.n); }
        default: { static const unsigned long t[] = {1ul << 22, 1ul << 12, 1ul << 16, 1ul << 19, 1ul << 26, 64, 100, 256, 1000};
                   k = {"bytes", R(2) ? t[R(9)] : R(4) == 0 ? 1 + R(16) : 16 + R(300)}; return std::make_unique<PAXLayoutFactory>(PAXLayoutFactory::NBytes, k.n); }
    }
}

static void layouts(unsigned n) {
    O.begin("\"kind\":\"layouts\"");
    while (n--) {
        auto ty = types(70);
        std::string ts; for (auto t : ty) ts += (ts.empty() ? "[" : ",[") + N(t->size()) + "," + N(t->alignment()) + "]";
        Kind k; bool byhand = R(5) == 0;
        std::unique_ptr<DataLayoutFactory> f; if (byhand) k = {"hand", 0}; else { f = factory(k); if (R(2)) f = f->clone(); }
        unsigned long num = R(2) ? 0 : 2 + R(1000);
        DataLayout L = byhand ? nested(ty, num) : f->make(ty.begin(), ty.end(), num);
        O.ev("[\"" + k.name + "\"," + N(k.n) + "," + N(reorder) + "," + N(num) + "," + N(L.is_finite() ? L.num_tuples() : 0) + ",[" + ts + "]," + tree(static_cast<const DataLayout::INode&>(L), ty) + "," + groups(L) + "," + N(L.stride_in_bits()) + "]");
    }
    O.end();
}

/*----- rows ---------------------------------------------------------------------------------------------------------*/
static std::string value(const Type *ty, const Tuple &t, std::size_t i) {
    if (t.is_null(i)) return "\"-\"";
    if (ty->is_boolean()) return t[i].as_b() ? "\"t\"" : "\"f\"";
    if (ty->is_character_sequence()) return tl::jstr("s" + std::string((const char*) t[i].as_p()));
    if (auto n = cast<const Numeric>(ty); n and n->kind == Numeric::N_Float) { char b[64]; snprintf(b, 64, "\"%a\"", n->precision == 32 ? (double) t[i].as_f() : t[i].as_d()); return b; }
    return "\"" + std::to_string(t[i].as_i()) + "\"";
}
/** The value at its place, by the layout alone. */
static std::string raw(const uint8_t *mem, const DataLayout::INode &n, std::size_t row, std::size_t idx, const PrimitiveType *ty, bool bit) {
    for (auto it = n.begin(); it != n.end(); ++it) {
        auto &c = *it;
        if (auto l = cast<const DataLayout::Leaf>(c.ptr.get())) {
            if (l->index() != idx) continue;
            uint64_t b = c.offset_in_bits + row * c.stride_in_bits;
            if (bit) b += 0;
            auto p = mem + b / 8;
            if (ty->is_boolean()) return (*p >> b % 8) & 1 ? "\"t\"" : "\"f\"";
            if (auto s = cast<const CharacterSequence>(ty)) return tl::jstr("s" + std::string((const char*) p, strnlen((const char*) p, s->length)));
            if (auto f = cast<const Numeric>(ty); f and f->kind == Numeric::N_Float) { char o[64]; if (f->precision == 32) { float x; memcpy(&x, p, 4); snprintf(o, 64, "\"%a\"", x); } else { double x; memcpy(&x, p, 8); snprintf(o, 64, "\"%a\"", x); } return o; }
            int64_t v = 0; switch (ty->size()) { case 8: v = *(int8_t*) p; break; case 16: { int16_t x; memcpy(&x, p, 2); v = x; break; } case 32: { int32_t x; memcpy(&x, p, 4); v = x; break; } default: memcpy(&v, p, 8); }
            return "\"" + std::to_string(v) + "\"";
        } else {
            auto &in = as<const DataLayout::INode>(*c.ptr);
            auto r = raw(mem + c.offset_in_bits / 8 + row / in.num_tuples() * c.stride_in_bits / 8, in, row % in.num_tuples(), idx, ty, bit);
            if (not r.empty()) return r;
        }
    }
    return "";
}
static bool nullbit(const uint8_t *mem, const DataLayout::INode &n, std::size_t row, std::size_t attr, std::size_t idx, bool &found) {
    for (auto it = n.begin(); it != n.end(); ++it) {
        auto &c = *it;
        if (auto l = cast<const DataLayout::Leaf>(c.ptr.get())) {
            if (l->index() != idx) continue;
            uint64_t b = c.offset_in_bits + row * c.stride_in_bits + attr; found = true;
            return mem[b / 8] >> b % 8 & 1;
        } else {
            auto &in = as<const DataLayout::INode>(*c.ptr);
            bool r = nullbit(mem + c.offset_in_bits / 8 + row / in.num_tuples() * c.stride_in_bits / 8, in, row % in.num_tuples(), attr, idx, found);
            if (found) return r;
        }
    }
    return false;
}
static void put(Tuple &t, std::size_t i, const PrimitiveType *ty) {
    if (ty->is_boolean()) { t.set(i, Value(bool(R(2)))); return; }
    if (auto s = cast<const CharacterSequence>(ty)) {
        unsigned n = R(3) ? R(std::min<unsigned>(s->length, 6) + 1) : s->length;
        static const char cs[] = "ab \x01\x7f\xff'\\0";
        t.not_null(i); char *p = (char*) t[i].as_p();
        for (unsigned k = 0; k < n; ++k) p[k] = cs[R(9)];
        p[n] = 0; return;
    }
    if (auto n = cast<const Numeric>(ty); n and n->kind == Numeric::N_Float) {
        static const double ds[] = {0, 1, -1, 0.5, -2.25, 1e30, -1e-30, 3.4028234663852886e38, 1.1754943508222875e-38};
        double d = R(3) ? ds[R(9)] : double(long(rng())) / 4096;
        if (n->precision == 32) t.set(i, Value(float(d))); else t.set(i, Value(d)); return;
    }
    unsigned bits = ty->size(); int64_t v = int64_t(rng());
    switch (R(6)) { case 0: v = 0; break; case 1: v = -1; break; case 2: v = int64_t(1ul << (bits - 1)); break; case 3: v = int64_t((1ul << (bits - 1)) - 1); break; case 4: v = R(100); break; }
    v = bits == 64 ? v : int64_t(uint64_t(v) << (64 - bits)) >> (64 - bits);
    t.set(i, Value(v));
}

static void rows(unsigned steps) {
    Catalog &C = Catalog::Get();
    auto &DB = C.add_database(C.pool("db"));
    auto &T = DB.add_table(C.pool("t"));
    auto ty = types(60); if (R(40) == 0) { ty.clear(); for (unsigned i = 0; i < 64; ++i) ty.push_back(type(R(3))); }
    unsigned nn = R(3) ? 4 : R(2);   // how many are NOT NULL
    for (unsigned i = 0; i < ty.size(); ++i) { T.push_back(C.pool(("a" + std::to_string(i)).c_str()), ty[i]); if (R(4) >= nn) T[i].not_nullable = true; }
    std::string st; unsigned s = R(3);
    if (s == 0) { st = "row"; T.store(std::make_unique<RowStore>(T)); } else if (s == 1) { st = "column"; T.store(std::make_unique<ColumnStore>(T)); }
    else { st = "pax"; T.store(std::make_unique<PaxStore>(T)); }
    Kind k;
    if (R(4) == 0) { k = {"hand", 0}; T.layout(nested(ty, false)); } else { auto f = factory(k); T.layout(*f); }
    std::string nl; for (unsigned i = 0; i < ty.size(); ++i) nl += (i ? "," : "") + N(not T[i].not_nullable);
    O.begin("\"kind\":\"" + st + " store, layout " + k.name + " " + std::to_string(k.n) + (reorder ? "" : " in order") + "\",\"nullable\":[" + nl + "]");
    auto S = T.schema(); auto &store = T.store();
    auto mem = (uint8_t*) store.memory().addr();
    const auto &root = static_cast<const DataLayout::INode&>(T.layout());
    if (R(2)) {                                                   // memory used before
        unsigned long n = std::min<unsigned long>(store.memory().size(), std::max<unsigned long>(1 << 16, T.layout().stride_in_bits() / 8 * 4));
        if (n > (4 << 20)) n = 4 << 20;
        for (unsigned long i = 0; i < n; ++i) mem[i] = uint8_t(rng());
    }
    // sub-schema of some attributes
    auto pick = [&](std::vector<unsigned> &A) { Schema sub; A.clear();
        for (unsigned i = 0; i < ty.size(); ++i) if (R(2)) A.push_back(i);
        if (A.empty()) A.push_back(R(ty.size()));
        if (R(2)) std::shuffle(A.begin(), A.end(), rng);
        for (auto a : A) sub.add(S[a].id, S[a].type, S[a].constraints);
        return sub; };
    auto list = [](const std::vector<unsigned> &A) { std::string r = "["; for (unsigned i = 0; i < A.size(); ++i) r += (i ? "," : "") + N(A[i]); return r + "]"; };
    auto write = [&](unsigned long from, unsigned long n, bool all) {
        std::vector<unsigned> A; Schema sub;
        if (all) { for (unsigned i = 0; i < ty.size(); ++i) A.push_back(i); for (auto a : A) sub.add(S[a].id, S[a].type, S[a].constraints); } else sub = pick(A);
        auto sm = Interpreter::compile_store(sub, mem, T.layout(), S, from);
        std::string r;
        for (unsigned long j = 0; j < n; ++j) {
            Tuple t(sub); std::string v;
            for (unsigned i = 0; i < A.size(); ++i) {
                if (not T[A[i]].not_nullable and R(3) == 0) t.null(i); else put(t, i, ty[A[i]]);
                v += (i ? "," : "") + value(ty[A[i]], t, i);
            }
            Tuple *args[] = {&t}; sm(args);
            r += (j ? ",[" : "[") + v + "]";
        }
        O.ev("[\"w\"," + N(from) + "," + list(A) + ",[" + r + "]]");
    };
    std::unique_ptr<StoreWriter> W;
    for (unsigned step = 0; step < steps; ++step) {
        unsigned long have = store.num_rows();
        switch (R(6)) {
            case 0: case 1: {                                     // append
                unsigned long n = R(8) ? R(20) : R(300); if (have > 400) n = R(3);
                if (ty.size() > 20) n = R(12);
                for (unsigned long j = 0; j < n; ++j) store.append();
                O.ev("[\"append\"," + N(n) + "," + N(store.num_rows()) + "]");
                if (n) write(have, n, true);
                break;
            }
            case 2: if (have) { unsigned long n = 1 + R(std::min(have, 3ul)); for (unsigned long j = 0; j < n; ++j) store.drop(); O.ev("[\"drop\"," + N(n) + "," + N(store.num_rows()) + "]"); } break;
            case 3: if (have) { auto from = R(have); write(from, 1 + R(std::min(have - from, 20ul)), R(2)); } break;   // overwrite
            default: {
                if (not have) break;
                std::vector<unsigned> A; Schema sub = pick(A);
                auto from = R(2) ? 0 : R(have); auto n = R(3) ? have - from : R(have - from) + 1;
                auto sm = Interpreter::compile_load(sub, mem, T.layout(), S, from);
                std::string r; Tuple t(sub);
                for (unsigned long j = 0; j < n; ++j) {
                    Tuple *args[] = {&t}; sm(args);
                    std::string v; for (unsigned i = 0; i < A.size(); ++i) v += (i ? "," : "") + value(ty[A[i]], t, i);
                    r += (j ? ",[" : "[") + v + "]";
                }
                O.ev("[\"r\"," + N(from) + "," + list(A) + ",[" + r + "]]");
            }
        }
    }
    // everything, by position
    std::string r; std::vector<unsigned> A; for (unsigned i = 0; i < ty.size(); ++i) A.push_back(i);
    for (unsigned long j = 0; j < store.num_rows(); ++j) {
        std::string v;
        for (auto i : A) { bool found = false, null = nullbit(mem, root, j, i, ty.size(), found) and found and not T[i].not_nullable; v += (i ? "," : "") + (null ? "\"-\"" : raw(mem, root, j, i, ty[i], false)); }
        r += (j ? ",[" : "[") + v + "]";
    }
    O.ev("[\"r\",0," + list(A) + ",[" + r + "]]");
    O.end();
}

/*----- indexes ------------------------------------------------------------------------------------------------------*/
#include <mutable/storage/Index.hpp>
template<typename K> struct Keys { static K get(unsigned style) {
    using L = std::numeric_limits<K>;
    if constexpr (std::is_floating_point_v<K>) {
        switch (style) {
            case 0: return K(long(R(8))) - 4;
            case 1: return K(double(long(rng())) / 65536);
            case 2: { static const K v[] = {0, K(-0.0), L::max(), L::lowest(), L::min(), -L::min(), L::denorm_min(), L::infinity(), -L::infinity(), 1}; return v[R(10)]; }
            case 3: return std::exp(K(double(R(2000)) / 100));
            case 4: return K(R(1000)) / 7;
            default: return K(R(2) ? 1 : -1) * std::ldexp(K(1 + R(7)), int(R(2 * L::max_exponent - 8)) - L::max_exponent);
        }
    } else {
        switch (style) {
            case 0: return K(long(R(8)) - 4);
            case 1: return K(rng());
            case 2: { static const K v[] = {L::max(), L::min(), K(L::max() - 1), K(L::min() + 1), 0, 1, K(-1)}; return v[R(7)]; }
            case 3: return K(1ul << R(sizeof(K) * 8 - 1));
            case 4: return K(R(1000));
            default: return K(long(R(40)) * long(R(40)) * long(R(40)));
        }
    }
} };
template<> struct Keys<bool> { static bool get(unsigned) { return R(2); } };
template<> struct Keys<const char*> { static const char * get(unsigned style) {
    static std::deque<std::string> all;
    std::string s; unsigned n = R(style + 2);
    while (n--) s += "ab\x7f\xff z"[R(6)];
    all.push_back(s); return all.back().c_str();
} };
template<typename K> static bool less_(const K &a, const K &b) { if constexpr (std::same_as<K, const char*>) return strcmp(a, b) < 0; else return a < b; }

template<typename I, typename K> static void index(const char *kind, const PrimitiveType *ty) {
    Catalog &C = Catalog::Get();
    std::vector<std::pair<std::deque<K>, std::deque<K>>> rounds;          // added, asked
    unsigned style = R(6);
    auto key = [&] { return Keys<K>::get(R(5) ? style : R(6)); };
    unsigned nr = 1 + R(3);
    for (unsigned r = 0; r < nr; ++r) {
        std::deque<K> a, b;
        unsigned long n = R(10) == 0 ? R(2) : R(6) ? R(40) : R(1200);
        for (unsigned long i = 0; i < n; ++i) { if (i and R(4) == 0) a.push_back(a[R(a.size())]); else a.push_back(key()); }
        for (unsigned i = 0; i < 60; ++i) {
            auto &from = R(2) or rounds.empty() ? a : rounds[R(rounds.size())].first;
            K k = from.empty() or R(3) == 0 ? key() : from[R(from.size())];
            if constexpr (std::is_floating_point_v<K>) { if (R(3) == 0) k = std::nextafter(k, R(2) ? INFINITY : -INFINITY); }
            else if constexpr (not std::same_as<K, bool> and not std::same_as<K, const char*>) { if (R(3) == 0) k = K(std::uintmax_t(k) + R(3) - 1); }
            b.push_back(k);
        }
        rounds.emplace_back(a, b);
    }
    std::deque<K> order;
    for (auto &[a, b] : rounds) { order.insert(order.end(), a.begin(), a.end()); order.insert(order.end(), b.begin(), b.end()); }
    std::sort(order.begin(), order.end(), less_<K>);
    order.erase(std::unique(order.begin(), order.end(), [](const K &x, const K &y) { return not less_(x, y) and not less_(y, x); }), order.end());
    auto rank = [&](const K &k) -> unsigned long { return std::lower_bound(order.begin(), order.end(), k, less_<K>) - order.begin(); };
    O.begin("\"kind\":\"" + std::string(kind) + "\"");
    I idx;
    unsigned long v = 0; bool first = true;
    for (auto &[a, b] : rounds) {
        std::string s;
        if (std::exchange(first, false) and ty and R(3)) {                                       // from a table
            auto &DB = C.add_database(C.pool("db")); C.set_database_in_use(DB);
            auto &T = DB.add_table(C.pool("t"));
            unsigned at = R(3), k = 0;
            for (; k < at; ++k) T.push_back(C.pool(("x" + std::to_string(k)).c_str()), type(0));
            T.push_back(C.pool("k"), ty);
            if (R(2)) T.push_back(C.pool("y"), type(0));
            switch (R(3)) { case 0: T.store(std::make_unique<RowStore>(T)); break; case 1: T.store(std::make_unique<ColumnStore>(T)); break; default: T.store(std::make_unique<PaxStore>(T)); }
            Kind kd; auto f = factory(kd); T.layout(*f);
            auto S = T.schema(); auto mem = (uint8_t*) T.store().memory().addr();
            unsigned nulls = R(3) ? 5 : 0;
            auto sm = Interpreter::compile_store(S, mem, T.layout(), S, 0);
            for (std::size_t i = 0; i < a.size(); ) {
                T.store().append();
                Tuple t(S); for (unsigned j = 0; j < S.num_entries(); ++j) t.null(j);
                bool null = nulls and R(nulls) == 0;
                if (not null) {
                    if constexpr (std::same_as<K, const char*>) { t.not_null(at); strcpy((char*) t[at].as_p(), a[i]); }
                    else if constexpr (std::same_as<K, bool>) t.set(at, Value(bool(a[i])));
                    else if constexpr (std::is_floating_point_v<K>) t.set(at, Value(a[i]));
                    else t.set(at, Value(int64_t(a[i])));
                }
                Tuple *args[] = {&t}; sm(args);
                s += (s.empty() ? "[" : ",[") + (null ? "-1" : N(rank(a[i]))) + "," + N(v) + "]"; ++v;
                if (not null) ++i;
            }
            Schema ks; ks.add(S[at].id, S[at].type, S[at].constraints);
            O.ev("[\"load\",[" + s + "]]");
            idx.bulkload(T, ks);
        } else {
            for (auto &k : a) {
                auto w = v++;
                if constexpr (std::same_as<K, const char*>) { std::string tmp = k; idx.add(tmp.c_str(), w); std::fill(tmp.begin(), tmp.end(), '#'); }
                else idx.add(k, w);
                s += (s.empty() ? "[" : ",[") + N(rank(k)) + "," + N(w) + "]";
            }
            O.ev("[\"add\",[" + s + "]]");
            if (not a.empty() or not idx.finalized()) {
                bool t1 = false, t2 = false; auto &ci = std::as_const(idx);
                try { ci.lower_bound(b[0]); } catch (const m::exception&) { t1 = true; }
                try { ci.upper_bound(b[0]); } catch (const m::exception&) { t2 = true; }
                O.ev("[\"early\"," + N(t1 and t2 and not idx.finalized()) + "]");
            }
            if constexpr (std::same_as<K, const char*>) for (int i = 0; i < 200; ++i) { auto s = C.pool(("other string " + std::to_string(R(5000))).c_str()); (void) s; }
            idx.finalize();
        }
        auto &ci = std::as_const(idx);
        std::string es; for (auto it = ci.begin(); it != ci.end(); ++it) {
            bool known = [&] { auto p = std::lower_bound(order.begin(), order.end(), it->first, less_<K>); return p != order.end() and not less_(K(it->first), *p); }();
            es += (es.empty() ? "[" : ",[") + (known ? N(rank(it->first)) : "-2") + "," + N(it->second) + "]"; }
        O.ev("[\"all\"," + N(idx.num_entries()) + "," + N(idx.finalized()) + ",[" + es + "]]");
        s.clear();
        for (auto &k : b) s += (s.empty() ? "[" : ",[") + N(rank(k)) + "," + N(ci.lower_bound(k) - ci.begin()) + "," + N(ci.upper_bound(k) - ci.begin()) + "]";
        O.ev("[\"ask\",[" + s + "]]");
    }
    O.end();
}
static void indexes() {
    using namespace m::idx; static const Type::category_t V = Type::TY_Vector;
    bool dec = R(3) == 0;
    switch (R(14)) {
        case 0: return index<ArrayIndex<bool>, bool>("array bool", Type::Get_Boolean(V));
        case 1: return index<ArrayIndex<int8_t>, int8_t>("array 1", dec ? Type::Get_Decimal(V, 2, 1) : Type::Get_Integer(V, 1));
        case 2: return index<ArrayIndex<int16_t>, int16_t>("array 2", dec ? Type::Get_Decimal(V, 4, 2) : Type::Get_Integer(V, 2));
        case 3: return index<ArrayIndex<int32_t>, int32_t>("array 4", dec ? R(2) ? (const PrimitiveType*) Type::Get_Date(V) : Type::Get_Decimal(V, 9, 2) : Type::Get_Integer(V, 4));
        case 4: return index<ArrayIndex<int64_t>, int64_t>("array 8", dec ? R(2) ? (const PrimitiveType*) Type::Get_Datetime(V) : Type::Get_Decimal(V, 18, 2) : Type::Get_Integer(V, 8));
        case 5: return index<ArrayIndex<float>, float>("array float", Type::Get_Float(V));
        case 6: return index<ArrayIndex<double>, double>("array double", Type::Get_Double(V));
        case 7: return index<ArrayIndex<const char*>, const char*>("array string", R(2) ? Type::Get_Char(V, 8) : Type::Get_Varchar(V, 8));
        case 8: return index<RecursiveModelIndex<int8_t>, int8_t>("rmi 1", dec ? Type::Get_Decimal(V, 2, 1) : Type::Get_Integer(V, 1));
        case 9: return index<RecursiveModelIndex<int16_t>, int16_t>("rmi 2", dec ? Type::Get_Decimal(V, 4, 2) : Type::Get_Integer(V, 2));
        case 10: return index<RecursiveModelIndex<int32_t>, int32_t>("rmi 4", dec ? R(2) ? (const PrimitiveType*) Type::Get_Date(V) : Type::Get_Decimal(V, 9, 2) : Type::Get_Integer(V, 4));
        case 11: return index<RecursiveModelIndex<int64_t>, int64_t>("rmi 8", dec ? R(2) ? (const PrimitiveType*) Type::Get_Datetime(V) : Type::Get_Decimal(V, 18, 2) : Type::Get_Integer(V, 8));
        case 12: return index<RecursiveModelIndex<float>, float>("rmi float", Type::Get_Float(V));
        default: return index<RecursiveModelIndex<double>, double>("rmi double", Type::Get_Double(V));
    }
}

int main(int argc, char **argv) {
    O.file(argv[1]); O.dedupe = false;
    unsigned long seed = std::stoul(argv[2]); std::string mode = argv[3]; int n = std::stoi(argv[4]);
    std::vector<const char*> a{"drv"};
    for (int i = 5; i < argc; ++i) { std::string x = argv[i]; if (x == "--no-attribute-reordering") reorder = false; if (x == "--pax-pack-one-tuple-less") less = true; a.push_back(argv[i]); }
    a.push_back(nullptr);
    Catalog::Get().arg_parser()(int(a.size() - 1), a.data());
    for (int i = 0; i < n; ++i) {
        fflush(O.f);
        if (pid_t p = fork()) { int st; waitpid(p, &st, 0); if (WIFSIGNALED(st)) { O.begin("\"kind\":\"?\""); O.ev("[\"crash\",\"killed\"]"); O.end(); fflush(O.f); } ++O.n; continue; }
        rng.seed(seed * 100003 + i);
        struct rlimit lim{2ul << 30, 2ul << 30}; setrlimit(RLIMIT_DATA, &lim);
        tl::catch_crashes(); alarm(60);
        if (not getenv("VERIF_LOUD")) freopen("/dev/null", "w", stderr);
        if (mode == "layout") layouts(40); else if (mode == "index") indexes(); else rows(4 + R(12));
        fflush(O.f); _exit(0);
    }
    O.close();
    printf("{\"traces\":%ld}\n", O.n);
}
