// Utilities under random histories.   hdr_util OUT SEED MODE N
//   MODE alloc | lists | maps | shared | memory | args
#include "tracelog.hpp"
#include <algorithm>
#include <map>
#include <memory>
#include <random>
#include <set>
#include <string>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
// memory that is mapped, by start address
static std::map<uintptr_t, size_t> mapped;
static bool bad_unmap = false;
static void * rec_mmap(void *a, size_t n, int p, int f, int fd, off_t o) {
    void *r = ::mmap(a, n, p, f, fd, o);
    if (r != MAP_FAILED and not (f & MAP_FIXED)) mapped[uintptr_t(r)] = n;
    return r;
}
static int rec_munmap(void *a, size_t n) {
    const uintptr_t s = uintptr_t(a), pg = 4096;
    if (n) {
        uintptr_t e = s + (n + pg - 1) / pg * pg;
        bool hit = false;
        for (auto it = mapped.begin(); it != mapped.end();) {
            auto [b, l] = *it;
            if (b + l <= s or b >= e) { ++it; continue; }
            hit = true;
            it = mapped.erase(it);
            if (b < s) mapped[b] = s - b;
            if (b + l > e) mapped[e] = b + l - e;
        }
        if (not hit) bad_unmap = true;
    }
    return ::munmap(a, n);
}
#include <mutable/util/ADT.hpp>
#include <mutable/util/fn.hpp>
#include <mutable/util/macro.hpp>
#include <mutable/util/memory.hpp>
#include <mutable/util/unsharable_shared_ptr.hpp>
#define mmap rec_mmap
#define munmap rec_munmap
#include <mutable/util/list_allocator.hpp>
#include <util/memory.cpp>
#undef mmap
#undef munmap
#include <util/ArgParser.cpp>
#include <util/fn.cpp>
#include <util/container/RefCountingHashMap.hpp>

using namespace m;
static std::mt19937_64 rng;
static auto & O = tl::Out::get();
static unsigned R(unsigned n) { return n ? rng() % n : 0; }
static std::string N(long n) { return std::to_string(n); }
static std::string J(bool b) { return b ? "true" : "false"; }
template<typename C> static std::string J(const C &c) { std::string r = "["; for (auto &x : c) { if (r.size() > 1) r += ','; if constexpr (std::is_same_v<std::decay_t<decltype(x)>, std::string>) r += x; else r += N(x); } return r + "]"; }
using VS = std::vector<std::string>;
template<typename... T> static void ev(const char *name, T... x) { std::string s = std::string("[\"") + name + "\""; ((s += "," + std::string(x)), ...); O.ev(s + "]"); }

/*----- list_allocator: memory ---------------------------------------------------------------------------------------*/
namespace alloc {
struct Block { int id, k; uint8_t *p; size_t size, align; };
static std::map<uintptr_t, int> names;      // region -> number
static std::string snapshot(std::vector<std::unique_ptr<list_allocator>> &A, std::vector<Block> &B) {
    // regions: number, size, alignment
    VS reg;
    for (auto it = names.begin(); it != names.end();) if (mapped.count(it->first)) ++it; else it = names.erase(it);
    static int last = 0;
    for (auto &[b, n] : mapped) {
        if (not names.count(b)) names[b] = ++last;
        reg.push_back("[" + N(names[b]) + "," + N(n) + "," + N(std::min<uintptr_t>(b & -b, 1 << 30)) + "]");
    }
    auto place = [&](uintptr_t a) {
        auto it = mapped.upper_bound(a);
        if (it == mapped.begin()) return std::string("0,0");
        --it;
        return a < it->first + it->second ? N(names[it->first]) + "," + N(a - it->first) : std::string("0,0");
    };
    VS fr;
    for (unsigned k = 0; k < A.size(); ++k) {
        if (not A[k]) continue;
        std::ostringstream os; os << *A[k];
        std::string s = os.str();
        unsigned n = 0;
        for (size_t i = s.find('['); i != std::string::npos; i = s.find('[', i + 1)) {
            bool mark = s[i + 1] == '*';
            uintptr_t a = std::stoull(s.substr(i + 1 + mark), nullptr, 16);
            size_t c = s.find(", ", i);
            fr.push_back("[" + N(k + 1) + "," + place(a) + "," + s.substr(c + 2, s.find('B', c) - c - 2) + "," + N(mark) + "]");
            ++n;
        }
        if (n != A[k]->num_chunks_available()) fr.push_back("[0,0,0,0,0]");
    }
    VS us;
    for (auto &b : B) {
        bool ok = true;
        if (place(uintptr_t(b.p)) != "0,0") for (size_t i = 0; i < b.size; ++i) ok &= b.p[i] == uint8_t(b.id * 37 + i * 11);
        us.push_back("[" + N(b.id) + "," + place(uintptr_t(b.p)) + "," + J(ok) + "]");
    }
    return J(reg) + "," + J(fr) + "," + J(us) + "," + J(not bad_unmap);
}
static void run(unsigned len) {
    O.begin("\"kind\":\"alloc\"");
    mapped.clear(); names.clear(); bad_unmap = false;
    std::vector<std::unique_ptr<list_allocator>> A(2);
    std::vector<Block> B;
    int ids = 0;
    const bool exp = R(3) == 0;
    auto make = [&](unsigned k) {
        size_t init = R(2) ? 0 : 1 + R(3 * 4096);
        A[k] = std::make_unique<list_allocator>(init, exp ? AllocationStrategy::Exponential : AllocationStrategy::Linear);
        ev("new", N(k + 1), N(init), snapshot(A, B));
    };
    for (unsigned k = 0; k < 2; ++k) make(k);
    auto size = [&]() -> size_t {
        switch (R(8)) { case 0: return 0; case 1: return 1 + R(8); case 2: return 4080 + R(20); case 3: return 4096 * (1 + R(3)) - 8; case 4: return R(9000); default: return 1 + R(400); }
    };
    for (unsigned i = 0; i < len; ++i) {
        unsigned k = R(2), o = R(20);
        if (o < 10) {
            Block b{++ids, int(k), nullptr, size(), R(3) ? 0u : R(8) ? 1u << R(7) : 1u << R(14)};
            switch (R(4)) {
                case 0: if (b.size and b.size % 8 == 0) { b.align = 8; b.p = (uint8_t*) A[k]->allocate<uint64_t>(b.size / 8); break; }
                default: b.p = (uint8_t*) A[k]->allocate(b.size, b.align);
            }
            if (b.p) for (size_t i = 0; i < b.size; ++i) b.p[i] = uint8_t(b.id * 37 + i * 11);
            if (b.p) B.push_back(b);
            ev("alloc", N(k + 1), N(b.id), N(b.size), N(b.align), J(b.p != nullptr), snapshot(A, B));
        } else if (o < 18) {
            if (B.empty()) continue;
            unsigned j = R(4) ? R(B.size()) : B.size() - 1;
            Block b = B[j]; B.erase(B.begin() + j);
            memset(b.p, 0xAA, b.size);
            A[b.k]->deallocate(b.p, b.size);
            ev("free", N(b.k + 1), N(b.id), snapshot(A, B));
        } else if (o == 18) {
            using std::swap; swap(*A[0], *A[1]);
            for (auto &b : B) b.k = 1 - b.k;
            ev("swap", snapshot(A, B));
        } else {   // free everything of one allocator, then replace it by the other or destroy it
            for (unsigned j = 0; j < B.size();) if (B[j].k == int(k)) {
                Block b = B[j]; B.erase(B.begin() + j);
                A[k]->deallocate(b.p, b.size);
                ev("free", N(k + 1), N(b.id), snapshot(A, B));
            } else ++j;
            if (R(2)) {
                A[k].reset();
                ev("destroy", N(k + 1), snapshot(A, B));
                make(k);
            } else {
                *A[k] = std::move(*A[1 - k]);
                for (auto &b : B) b.k = k;
                // what remains of the other one is unspecified but usable
                A[1 - k].reset();
                ev("move", N(k + 1), N(2 - k), snapshot(A, B));
                make(1 - k);
            }
        }
    }
    for (auto &b : B) A[b.k]->deallocate(b.p, b.size);
    B.clear();
    ev("freeall", snapshot(A, B));
    A[0].reset(); ev("destroy", "1", snapshot(A, B));
    A[1].reset(); ev("destroy", "2", snapshot(A, B));
    O.end();
}
}

/*----- containers ---------------------------------------------------------------------------------------------------*/
static long tokens = 0;
/** Owns a token, unless default constructed or moved from. */
struct Tok {
    int v = 0; bool owns = false;
    Tok() = default;
    Tok(int v) : v(v), owns(true) { ++tokens; }
    Tok(const Tok &o) : v(o.v), owns(o.owns) { if (owns) ++tokens; }
    Tok(Tok &&o) : v(o.v), owns(o.owns) { o.owns = false; o.v = -1; }
    ~Tok() { drop(); v = -2; }
    Tok & operator=(Tok o) { std::swap(v, o.v); std::swap(owns, o.owns); return *this; }
    void drop() { if (owns) --tokens; owns = false; }
    operator int() const { return v; }
};
namespace lists {
using L = doubly_linked_list<Tok>;
static std::vector<int> fwd(const L &l) { std::vector<int> r; for (auto it = l.begin(); it != l.end(); ++it) { r.push_back(it->v); if (r.size() > 500) break; } return r; }
static std::string snap(L &a, L &b) {
    std::string s;
    for (L *p : {&a, &b}) {
        const L &c = *p;
        std::vector<int> bw, back, r2;
        for (auto it = p->rbegin(); it != p->rend(); it++) { bw.push_back(int(*it)); if (bw.size() > 500) break; }
        auto it = c.cend();
        while (it != c.cbegin()) { --it; back.push_back(it->v); if (back.size() > 500) break; }
        for (auto it = c.crbegin(); it != c.crend(); ++it) { r2.push_back(it->v); if (r2.size() > 500) break; }
        s += J(fwd(c)) + "," + J(bw) + "," + J(back) + "," + J(r2) + "," + N(c.size()) + "," + J(c.empty()) + "," + (c.empty() ? "[]" : J(std::vector<int>{int(c.front()), int(p->back())})) + ",";
    }
    return s + N(tokens);
}
static void run(unsigned len) {
    O.begin("\"kind\":\"lists\"");
    tokens = 0;
    L *l[2] = {new L(), new L()};
    int x = 0;
    auto at = [&](L &a, unsigned p) { if (R(2)) { auto it = a.begin(); while (p--) ++it; return it; } auto it = a.end(); for (unsigned k = a.size() - p; k--;) --it; return it; };
    auto deref = [&](L &a, L::iterator it) { return it == a.end() ? N(0) : N(int(*it)); };
    for (unsigned i = 0; i < len; ++i) {
        unsigned k = R(2); L &a = *l[k], &b = *l[1 - k];
        std::string K = N(k + 1), ret = "0", name; VS arg;
        if (a.size() > 12 and R(2)) { for (int n = R(6); n--;) { int v = a.pop_front(); ev("popf", K, "[]", N(v), snap(*l[0], *l[1])); } }
        switch (R(17)) {
            case 0: a.push_back(Tok(++x)); name = "pushb"; arg = {N(x)}; break;
            case 1: { Tok t(++x); a.push_back(t); name = "pushb"; arg = {N(x)}; break; }
            case 2: a.push_front(Tok(++x)); name = "pushf"; arg = {N(x)}; break;
            case 3: { Tok t(++x); auto &r = R(2) ? a.emplace_front(t) : a.emplace_front(x); ret = N(r.v); name = "emplf"; arg = {N(x)}; break; }
            case 4: if (a.empty()) continue; { int v = a.pop_back(); ret = N(v); name = "popb"; break; }
            case 5: if (a.empty()) continue; { int v = a.pop_front(); ret = N(v); name = "popf"; break; }
            case 6: case 7: { unsigned p = R(a.size() + 1); auto it = a.insert(at(a, p), Tok(++x)); ret = deref(a, it); name = "ins"; arg = {N(p), N(x)}; break; }
            case 8: { unsigned p = R(a.size() + 1), n = R(4); Tok t(++x); auto it = a.insert(at(a, p), n, t); ret = deref(a, it); name = "insn"; arg = {N(p), N(n), N(x)}; break; }
            case 9: { unsigned p = R(a.size() + 1); std::vector<Tok> v; for (int n = R(4); n--;) v.emplace_back(++x);
                      auto it = a.insert(at(a, p), v.begin(), v.end()); ret = deref(a, it); name = "insr"; arg = {N(p), J(std::vector<int>(v.begin(), v.end()))}; break; }
            case 10: { unsigned p = R(a.size() + 1); if (b.size() > 6) continue; auto v = fwd(b);
                      auto it = a.insert(at(a, p), b.cbegin(), b.cend()); ret = deref(a, it); name = "insr"; arg = {N(p), J(v)}; break; }
            case 11: case 12: if (a.empty()) continue; { unsigned p = R(a.size()); auto it = R(2) ? a.erase(at(a, p)) : a.erase(L::const_iterator(at(a, p))); ret = deref(a, it); name = "era"; arg = {N(p)}; break; }
            case 13: if (R(5)) continue; a.clear(); name = "clear"; break;
            case 14: a.reverse(); name = "rev"; break;
            case 15: { using std::swap; swap(a, b); name = "swap"; break; }
            case 16: if (R(2)) { L c(b); using std::swap; swap(a, c); name = "copy"; }
                     else if (R(2)) { L c(std::move(b)); a = std::move(c); b.clear(); name = "move"; }
                     else { auto v = fwd(b); L c(v.begin(), v.end()); using std::swap; swap(a, c); name = "copy"; }
                     break;
        }
        ev(name.c_str(), K, J(arg), ret, snap(*l[0], *l[1]));
    }
    delete l[0]; delete l[1];
    ev("gone", N(tokens));
    O.end();
}
}
namespace maps {
static unsigned hmode;
struct Hash { size_t operator()(const Tok &t) const { switch (hmode) { case 0: return t.v; case 1: return t.v % 3; case 2: return 7; case 3: return size_t(t.v) * 8; default: return size_t(t.v) * 0x9E3779B97F4A7C15ul; } } };
struct Eq { bool operator()(const Tok &a, const Tok &b) const { return a.v == b.v; } };
using M = RefCountingHashMap<Tok, Tok, Hash, Eq>;
static std::string snap(M &m, bool all) {
    const M &c = m;
    VS it, cit;
    if (all) {
        for (auto i = m.begin(); i != m.end(); ++i) { it.push_back("[" + N(i->first.v) + "," + N((*i).second.v) + "]"); if (it.size() > 500) break; }
        for (auto i = c.cbegin(); i != c.cend(); i++) { cit.push_back("[" + N(i->first.v) + "," + N((*i).second.v) + "]"); if (cit.size() > 500) break; }
    }
    return N(c.size()) + "," + N(c.capacity()) + "," + N(c.watermark_high()) + "," + N(tokens) + (all ? "," + J(it) + "," + J(cit) : "");
}
static void run(unsigned len) {
    O.begin("\"kind\":\"maps\"");
    tokens = 0; hmode = R(5);
    M *m = new M(1 + R(9));
    const unsigned keys = R(2) ? 4 : 40;
    int x = 0;
    ev("new", snap(*m, true));
    for (unsigned i = 0; i < len; ++i) {
        int k = R(keys);
        switch (R(12)) {
            case 0: case 1: { auto it = m->insert_with_duplicates(k, ++x); ev("insd", N(k), N(x), N(it->first.v), N(it->second.v), snap(*m, false)); break; }
            case 2: case 3: { auto [it, b] = m->insert_without_duplicates(k, ++x); ev("insu", N(k), N(x), N(it->first.v), N(it->second.v), J(b), snap(*m, false)); break; }
            case 4: { auto it = m->find(k); bool f = it != m->end(); ev("find", N(k), J(f), f ? N(it->first.v) : "0", f ? N(it->second.v) : "0"); break; }
            case 5: { const M &c = *m; auto it = c.find(k); bool f = it != c.end(); ev("find", N(k), J(f), f ? N(it->first.v) : "0", f ? N(it->second.v) : "0"); break; }
            case 6: { std::vector<int> v; bool ok = true; m->for_all(k, [&](M::value_type &p) { ok &= p.first.v == k; v.push_back(p.second.v); }); ev("all", N(k), J(v), J(ok)); break; }
            case 7: { std::vector<int> v; bool ok = true; const M &c = *m; c.for_all(k, [&](const M::value_type &p) { ok &= p.first.v == k; v.push_back(p.second.v); }); ev("all", N(k), J(v), J(ok)); break; }
            case 8: ev("count", N(k), N(m->count(k))); break;
            case 9: { VS v; auto it = m->bucket(k); while (it.has_next()) { v.push_back("[" + N(it->first.v) + "," + N((*it).second.v) + "]"); ++it; } ev("bucket", N(k), J(v)); break; }
            case 10: if (R(3)) continue;
                     switch (R(5)) {
                         case 0: m->shrink_to_fit(); break;
                         case 1: m->resize(R(100)); break;
                         case 2: m->resize(R(10)); break;
                         case 3: if (m->size() <= m->watermark_high()) m->rehash(); break;
                         case 4: m->max_load_factor((1 + R(12)) / 10.f); break;
                     }
                     ev("re", snap(*m, true)); break;
            case 11: ev("snap", snap(*m, true)); break;
        }
    }
    ev("snap", snap(*m, true));
    delete m;
    ev("gone", N(tokens));
    O.end();
}
}
namespace sorted {
static void run(unsigned len) {
    O.begin("\"kind\":\"sorted\"");
    sorted_vector<int, std::greater<int>> g; sorted_vector<int> v;
    auto snap = [&] { return J(v) + "," + J(g) + "," + N(v.size()) + "," + J(g.empty()); };
    for (unsigned i = 0; i < len; ++i) {
        int x = R(12);
        switch (R(4)) {
            case 0: case 1: { auto a = v.insert(x); auto b = g.insert(x); ev("ins", J(std::vector<int>{x}), N(*a), N(*b), snap()); break; }
            case 2: { std::vector<int> w; for (int n = R(4); n--;) w.push_back(R(12)); v.insert(w.begin(), w.end()); g.insert(w.begin(), w.end()); ev("ins", J(w), "0", "0", snap()); break; }
            case 3: ev("has", N(x), J(v.contains(x)), J(g.contains(x))); break;
        }
    }
    O.end();
}
}

/*----- shared pointers ----------------------------------------------------------------------------------------------*/
namespace shared {
static std::vector<int> dead;
struct Other { long pad = 0; virtual void f() { } virtual void g() { } virtual ~Other() { } };
struct B { int id; B(int id) : id(id) { } virtual ~B() { dead.push_back(id); } };
struct D : B { D(int id) : B(id) { } ~D() { dead.push_back(id + 100); } };
struct X : Other, B { X(int id) : B(id) { } ~X() { dead.push_back(id + 200); } };
static void run(unsigned len) {
    O.begin("\"kind\":\"shared\"");
    dead.clear();
    using P = unsharable_shared_ptr<B>; using PD = unsharable_shared_ptr<D>; using PC = unsharable_shared_ptr<const B>; using PX = unsharable_shared_ptr<X>;
    P p[3]; PD d[2]; PX x[1]; PC c[2]; std::unique_ptr<B> u[2]; std::unique_ptr<D> ud; std::unique_ptr<const B> uc; std::unique_ptr<X> ux;
    int ids = 0;
    // slots: 1..3 P, 4..5 PD, 6 PX, 7..8 PC, 9..10 unique B, 11 unique D, 12 unique const B, 13 unique X
    auto snap = [&] {
        std::vector<int> s, n;
        auto get = [&](auto &q) { s.push_back(q ? q->id : 0); n.push_back(q.use_count()); };
        for (auto &q : p) get(q); for (auto &q : d) get(q); for (auto &q : x) get(q); for (auto &q : c) get(q);
        for (auto &q : u) s.push_back(q ? q->id : 0); s.push_back(ud ? ud->id : 0); s.push_back(uc ? uc->id : 0); s.push_back(ux ? ux->id : 0);
        std::string r = J(s) + "," + J(n) + "," + J(dead);
        return r;
    };
    for (unsigned i = 0; i < len; ++i) {
        unsigned a = R(3), b = R(3), e = R(2), f = R(2), o = R(30);
        switch (o) {
            case 0: p[a] = P(new B(++ids)); ev("make", N(1 + a), N(ids), "\"B\"", snap()); break;
            case 1: p[a] = P(new D(++ids)); ev("make", N(1 + a), N(ids), "\"D\"", snap()); break;
            case 2: p[a] = P(new X(++ids)); ev("make", N(1 + a), N(ids), "\"X\"", snap()); break;
            case 3: d[e] = make_unsharable_shared<D>(++ids); ev("make", N(4 + e), N(ids), "\"D\"", snap()); break;
            case 4: x[0] = make_unsharable_shared<X>(++ids); ev("make", N(6), N(ids), "\"X\"", snap()); break;
            case 5: c[e] = PC(new B(++ids)); ev("make", N(7 + e), N(ids), "\"B\"", snap()); break;
            case 6: case 7: p[a] = p[b]; ev("copy", N(1 + a), N(1 + b), snap()); break;
            case 8: p[a] = d[e]; ev("copy", N(1 + a), N(4 + e), snap()); break;
            case 9: p[a] = x[0]; ev("copy", N(1 + a), N(6), snap()); break;
            case 10: c[e] = p[a]; ev("copy", N(7 + e), N(1 + a), snap()); break;
            case 11: { P t(p[b]); p[a] = std::move(t); ev("copy", N(1 + a), N(1 + b), snap()); break; }
            case 12: if (a == b) continue; p[a] = std::move(p[b]); ev("move", N(1 + a), N(1 + b), snap()); break;
            case 13: p[a] = std::move(d[e]); ev("move", N(1 + a), N(4 + e), snap()); break;
            case 14: c[e] = PC(std::move(p[a])); ev("move", N(7 + e), N(1 + a), snap()); break;
            case 15: p[a].reset(); ev("reset", N(1 + a), snap()); break;
            case 16: d[e].reset(); ev("reset", N(4 + e), snap()); break;
            case 17: c[e].reset(); ev("reset", N(7 + e), snap()); break;
            case 18: x[0].reset(); ev("reset", N(6), snap()); break;
            case 19: p[a].swap(p[b]); ev("swap", N(1 + a), N(1 + b), snap()); break;
            case 20: d[e] = cast<D>(p[a]); ev("cast", N(4 + e), N(1 + a), "\"D\"", snap()); break;
            case 21: x[0] = cast<X>(p[a]); ev("cast", N(6), N(1 + a), "\"X\"", snap()); break;
            case 22: { bool q = is<D>(p[a]); ev("is", N(1 + a), J(q), snap()); break; }
            case 23: if (p[a] and is<D>(p[a])) { d[e] = as<D>(p[a]); ev("cast", N(4 + e), N(1 + a), "\"D\"", snap()); } break;
            case 24: case 25: { bool ok = true; std::unique_ptr<B> t; try { t = p[a].exclusive_shared_to_unique(); } catch (m::invalid_state &) { ok = false; }
                     if (ok) u[e] = std::move(t); ev("unique", N(9 + e), N(1 + a), J(ok), snap()); break; }
            case 26: { bool ok = true; std::unique_ptr<D> t; try { t = d[e].exclusive_shared_to_unique(); } catch (m::invalid_state &) { ok = false; }
                     if (ok) ud = std::move(t); ev("unique", N(11), N(4 + e), J(ok), snap()); break; }
            case 27: { bool ok = true; std::unique_ptr<const B> t; try { t = c[e].exclusive_shared_to_unique(); } catch (m::invalid_state &) { ok = false; }
                     if (ok) uc = std::move(t); ev("unique", N(12), N(7 + e), J(ok), snap()); break; }
            case 28: { bool ok = true; std::unique_ptr<X> t; try { t = x[0].exclusive_shared_to_unique(); } catch (m::invalid_state &) { ok = false; }
                     if (ok) ux = std::move(t); ev("unique", N(13), N(6), J(ok), snap()); break; }
            case 29: if (R(2)) { u[e].reset(); ev("reset", N(9 + e), snap()); } else if (u[e]) { p[a] = P(u[e].release()); ev("share", N(1 + a), N(9 + e), snap()); } break;
        }
    }
    for (auto &q : p) q.reset(); for (auto &q : d) q.reset(); for (auto &q : x) q.reset(); for (auto &q : c) q.reset();
    for (auto &q : u) q.reset(); ud.reset(); uc.reset(); ux.reset();
    ev("gone", snap());
    O.end();
}
}

/*----- rewired memory -----------------------------------------------------------------------------------------------*/
namespace mem {
using namespace m::memory;
constexpr size_t PG = 4096;
static void run(unsigned len) {
    O.begin("\"kind\":\"memory\"");
    mapped.clear(); bad_unmap = false;
    auto *A = new LinearAllocator[2];
    const unsigned NM = 5, NV = 2;
    std::vector<Memory> M(NM); std::vector<int> id(NM, 0); 
    unsigned vsize[NV]; struct Free { void operator()(AddressSpace *p) { p->~AddressSpace(); free(p); } }; std::vector<std::unique_ptr<AddressSpace, Free>> V;
    struct Vp { int id = 0; size_t page = 0; };             // which page of which memory a virtual page shows
    std::vector<std::vector<Vp>> vm;
    VS vs;
    for (unsigned v = 0; v < NV; ++v) { size_t bytes = R(6) ? 1 + R(6 * PG) : 0; void *raw = malloc(sizeof(AddressSpace)); memset(raw, 0x5A, sizeof(AddressSpace)); V.emplace_back(new (raw) AddressSpace(bytes)); vsize[v] = (bytes + PG - 1) / PG; vm.emplace_back(vsize[v]);
        vs.push_back("[" + N(bytes) + "," + N(V[v]->size()) + "," + J(uintptr_t(V[v]->addr()) % PG == 0) + "]"); }
    ev("spaces", J(vs));
    int ids = 0, val = 0;
    auto wr = [&](uint8_t *p, int v) { for (size_t i : {size_t(0), size_t(2048), PG - 4}) memcpy(p + i, &v, 4); };
    auto rd = [&](uint8_t *p) { int v[3], k = 0; for (size_t i : {size_t(0), size_t(2048), PG - 4}) memcpy(&v[k++], p + i, 4); return v[0] == v[1] and v[1] == v[2] ? v[0] : -1; };
    auto snap = [&] {
        VS ms, vv;
        for (unsigned i = 0; i < NM; ++i) {
            if (not id[i]) continue;
            std::vector<int> c; for (size_t q = 0; q < M[i].size() / PG; ++q) c.push_back(rd(M[i].as<uint8_t*>() + q * PG));
            int al = &M[i].allocator() == &A[0] ? 1 : &M[i].allocator() == &A[1] ? 2 : 0;
            ms.push_back("[" + N(id[i]) + "," + N(al) + "," + N(M[i].size()) + "," + N(M[i].offset()) + "," + J(uintptr_t(M[i].addr()) % PG == 0) + "," + J(c) + "]");
        }
        for (unsigned v = 0; v < NV; ++v) for (unsigned q = 0; q < vsize[v]; ++q) if (vm[v][q].id)
            vv.push_back("[" + N(v + 1) + "," + N(q) + "," + N(rd(V[v]->as<uint8_t*>() + q * PG)) + "]");
        std::vector<long> off, fs;
        for (int k = 0; k < 2; ++k) { off.push_back(A[k].offset()); struct stat st; fstat(A[k].fd(), &st); fs.push_back(st.st_size); }
        return J(ms) + "," + J(vv) + "," + J(off) + "," + J(fs);
    };
    for (unsigned i = 0; i < len; ++i) {
        unsigned s = R(NM), t = R(NM), v = R(NV);
        switch (R(10)) {
            case 0: case 1: case 2: {
                unsigned k = R(2); size_t sz = R(10) ? 1 + R(5 * PG) : PG * R(3);
                if (id[s]) continue;
                M[s] = A[k].allocate(sz);
                id[s] = sz ? ++ids : 0;
                VS c;
                for (size_t q = 0; q < M[s].size() / PG; ++q) { wr(M[s].as<uint8_t*>() + q * PG, ++val); c.push_back(N(val)); }
                ev("alloc", N(id[s]), N(k + 1), N(sz), J(c), J(M[s].size() == 0 and M[s].addr() == nullptr), snap());
                break;
            }
            case 3: case 4: {
                if (not id[s] or not vsize[v]) continue;
                size_t n = M[s].size() / PG, so = R(n), d = R(vsize[v]), cnt = 1 + R(std::min<size_t>(n - so, vsize[v] - d)), bytes = cnt * PG - (R(2) ? 0 : R(PG));
                M[s].map(bytes, so * PG, *V[v], d * PG);
                for (size_t q = 0; q < cnt; ++q) vm[v][d + q] = Vp{id[s], so + q};
                ev("map", N(id[s]), N(so), N(v + 1), N(d), N(cnt), snap());
                break;
            }
            case 5: if (not id[s]) continue; { size_t q = R(M[s].size() / PG); wr(M[s].as<uint8_t*>() + q * PG, ++val); ev("write", N(id[s]), N(q), N(val), snap()); break; }
            case 6: { if (not vsize[v]) continue; unsigned q = R(vsize[v]); if (not vm[v][q].id) continue;
                      wr(V[v]->as<uint8_t*>() + q * PG, ++val); ev("vwrite", N(v + 1), N(q), N(val), snap()); break; }
            case 7: case 8: {
                if (not id[s]) continue;
                const int old = id[s];
                for (auto &w : vm) for (auto &p : w) if (p.id == old) p.id = 0;
                { Memory gone = std::move(M[s]); id[s] = 0; }
                ev("release", N(old), snap());
                break;
            }
            case 9: { using std::swap; if (R(2)) swap(M[s], M[t]); else if (s != t) M[s] = std::move(M[t]); else continue; std::swap(id[s], id[t]); ev("swap", snap()); break; }
        }
    }
    for (unsigned s = 0; s < NM; ++s) if (id[s]) { { Memory gone = std::move(M[s]); } ev("release", N(id[s]), "[]", "[]", J(std::vector<long>{long(A[0].offset()), long(A[1].offset())}), "[]"); id[s] = 0; }
    V.clear(); M.clear();
    delete[] A;
    ev("gone", J(mapped.empty() and not bad_unmap));
    O.end();
}
}

/*----- command lines ------------------------------------------------------------------------------------------------*/
namespace args {
static VS calls;
static const std::vector<const char*> W = {"-b", "--bool", "-i", "--int", "--long", "-u", "--ulong", "--ll", "--ull", "-d", "--double", "-f", "-s", "--string", "-l", "--list", "--only-long", "-g", "--grp", "--long-double",
    "0", "1", "-1", "42", "+7", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "18446744073709551615", "18446744073709551616", "0.5", "-2.25", "1e2", "1e999",
    "x", "", "-", "--", "a,b", "a,,c", ",", "--unknown", "---", "-x", "-bb", "foo bar", "-ii", "--in", "--integer", "--=", "b"};
static void run(unsigned n) {
    const char *av[12]; unsigned k = 0; VS in;
    av[k++] = R(5) ? "prog" : "-b";
    for (unsigned i = 0; i < n; ++i) {
        unsigned w = R(3) ? R(W.size()) : R(20);
        if (R(10) == 0) w = 42;                              // "--"
        if (k > 1 and R(2)) {                                // an argument for the option before
            std::string o = av[k - 1];
            w = o == "-s" or o == "--string" or o == "-l" or o == "--list" ? R(W.size()) : o[0] == '-' and o.size() > 1 and o[1] != 'b' ? 20 + R(18) : w;
        }
        av[k++] = W[w];
    }
    av[k] = nullptr;
    for (unsigned i = 1; i < k; ++i) in.push_back(tl::jstr(av[i]));
    char *shm = (char*) ::mmap(nullptr, 65536, PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS, -1, 0);
    pid_t pid = fork();
    if (pid == 0) {
        signal(SIGALRM, SIG_DFL); for (int s : {SIGABRT, SIGSEGV, SIGFPE}) signal(s, SIG_DFL);
        freopen("/dev/null", "w", stderr);
        auto log = [shm](std::string s) { strcat(shm, (*shm ? "," : "")); strcat(shm, s.c_str()); };
        auto num = [log](const char *o) { return [log, o](auto x) { if constexpr (std::is_integral_v<decltype(x)>) log("[\"" + std::string(o) + "\",\"" + std::to_string(x) + "\"]"); else { char b[64]; snprintf(b, 64, "%.6Lf", (long double) x); log("[\"" + std::string(o) + "\",\"" + b + "\"]"); } }; };
        ArgParser AP;
        AP.add<bool>("-b", "--bool", "b", [log](bool x) { log(x ? "[\"b\",\"1\"]" : "[\"b\",\"0\"]"); });
        AP.add<int>("-i", "--int", "i", num("i"));
        AP.add<long>(nullptr, "--long", "l", num("l"));
        AP.add<unsigned>("-u", nullptr, "u", num("u"));
        AP.add<unsigned long>("grp", nullptr, "--ulong", "ul", num("ul"));
        AP.add<long long>(nullptr, "--ll", "ll", num("l"));
        AP.add<unsigned long long>(nullptr, "--ull", "ull", num("ul"));
        AP.add<double>("-d", "--double", "d", num("d"));
        AP.add<float>("-f", nullptr, "f", num("d"));
        AP.add<long double>(nullptr, "--long-double", "ld", num("ld"));
        AP.add<const char*>("-s", "--string", "s", [log](const char *s) { log("[\"s\"," + tl::jstr(s) + "]"); });
        AP.add<std::vector<std::string_view>>("-l", "--list", "list", [log](std::vector<std::string_view> v) { std::string s = "[\"list\""; for (auto x : v) s += "," + tl::jstr(std::string(x)); log(s + "]"); });
        AP.add<bool>(nullptr, "--only-long", "o", [log](bool) { log("[\"o\",\"1\"]"); });
        AP.add<bool>("group", "-g", "--grp", "g", [log](bool) { log("[\"g\",\"1\"]"); });
        AP(k, av);
        std::string pos;
        for (auto p : AP.args()) pos += (pos.empty() ? "" : ",") + tl::jstr(p);
        strcpy(shm + 32768, pos.c_str());
        _exit(0);
    }
    int st; waitpid(pid, &st, 0);
    bool ok = WIFEXITED(st) and WEXITSTATUS(st) == 0;
    ev("args", J(in), "[" + std::string(shm) + "]", "[" + std::string(shm + 32768) + "]", ok ? "\"ok\"" : WIFEXITED(st) and WEXITSTATUS(st) == EXIT_FAILURE ? "\"error\"" : "\"crash\"");
    ::munmap(shm, 65536);
}
}

int main(int argc, char **argv) {
    O.file(argv[1]);
    tl::catch_crashes();
    tl::hang_after(250);
    rng.seed(std::stoul(argv[2]));
    std::string mode = argv[3];
    int n = std::stoi(argv[4]);
    for (int i = 0; i < n; ++i) {
        if (mode == "alloc") alloc::run(5 + R(40));
        if (mode == "lists") lists::run(5 + R(60));
        if (mode == "maps") maps::run(5 + R(80));
        if (mode == "sorted") sorted::run(5 + R(30));
        if (mode == "shared") shared::run(5 + R(60));
        if (mode == "memory") mem::run(5 + R(50));
        if (mode == "args") { O.begin("\"kind\":\"args\""); for (int k = 0; k < 20; ++k) args::run(R(7)); O.end(); }
    }
    O.close();
    printf("{\"traces\":%ld}\n", O.n);
}
