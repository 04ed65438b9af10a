// Interning under many schedules.   hdr_pool OUT SEED NRANDOM MAXDFS PREEMPT KIND PROGRAM
//   KIND: pod | str | cls (thread safe), spod | sstr | scls (single threaded variants; use one thread)
//   PROGRAM: threads separated by ';', operations by ','.  Slots are thread-local 0..1:
//   I<slot><value>  C<from><to>  M<from><to>  X (swap 0,1)  O<from><to> (via optional)  A<from><to> (up- and down-cast)  D<slot>  N<slot>  V<slot>
#define PCOOP_MEMORY
#include "pcoop.hpp"
#include "tracelog.hpp"
#include <mutable/util/Pool.hpp>
#include <optional>
#include <sstream>

using namespace m;
struct WeakHash { size_t operator()(int x) const { return x % 2; } };
struct Base { int v; Base(int v) : v(v) {} virtual ~Base() {} bool operator==(const Base &o) const { return v == o.v; } };
struct Derived : Base { long pad = 7; Derived(int v) : Base(v) {} };
struct BaseHash { size_t operator()(const Base &b) const { return b.v % 2; } };
// interning by a literal text or by a string view that is not terminated
static const char *TEXT[] = { "", "a", "aa", "b", "x ", "%" };

template<typename P> struct Ops;
template<bool TS> struct Ops<PODPool<int, WeakHash, std::equal_to<int>, std::identity, TS>> {
    using pool = PODPool<int, WeakHash, std::equal_to<int>, std::identity, TS>; using proxy = typename pool::proxy_type;
    static proxy make(pool &p, int v) { return p(v); }
    static const void * obj(const proxy &x) { return &*x; }
    static int val(const proxy &x) { return *x; }
    static proxy cast(const proxy &x) { return x; }
    using opt = typename pool::proxy_optional_type;
};
template<bool TS> struct Ops<m::detail::_StringPool<TS>> {
    using pool = m::detail::_StringPool<TS>; using proxy = typename pool::proxy_type;
    static proxy make(pool &p, int v) {
        if (v % 2) return p(TEXT[v]);
        std::string s = std::string(TEXT[v]) + "tail";    // a view need not be terminated
        auto r = p(std::string_view(s).substr(0, strlen(TEXT[v])));
        s.assign("zzzzzzzzzzzzzzzzzzz");                   // interned text must survive its source
        return r;
    }
    static const void * obj(const proxy &x) { return *x; }
    static int val(const proxy &x) { for (int i = 0; i < 6; ++i) if (strcmp(TEXT[i], *x) == 0) return i; return -1; }
    static proxy cast(const proxy &x) { return x; }
    using opt = typename pool::proxy_optional_type;
};
template<bool TS> struct Ops<m::Pool<Base, BaseHash, std::equal_to<Base>, TS>> {
    using pool = m::Pool<Base, BaseHash, std::equal_to<Base>, TS>; using proxy = typename pool::template proxy_type<Base>;
    static proxy make(pool &p, int v) { if (v % 2) return p(Base(v)); auto d = p(Derived(v)); return proxy(d.template as<Base>()); }
    static const void * obj(const proxy &x) { return &*x; }
    static int val(const proxy &x) { return (*x).v; }
    static proxy cast(const proxy &x) { if (val(x) % 2) return x; auto d = x.template as<Derived>(); if (d->pad != 7) abort(); proxy y = x; y = d; return y; }
    using opt = typename pool::template proxy_optional_type<Base>;
};

template<typename POOL> struct Runner
{
    using O = Ops<POOL>; using proxy = typename O::proxy;
    std::map<const void*, int> ids;
    int id(const void *p) { auto it = ids.find(p); if (it == ids.end()) it = ids.emplace(p, int(ids.size()) + 1).first; return it->second; }
    template<typename... T> NOINSTR void log(const char *e, T... args) {
        coop::Quiet q;
        std::string s = std::string("[\"") + e + "\"";
        ((s += "," + std::to_string(args)), ...);
        tl::Out::get().ev(s + "]");
    }
    void op(POOL &pool, std::optional<proxy> *sl, int t, const std::string &o) {
        auto S = [&](int k) { return t * 2 + k; };
        int a = o.size() > 1 ? o[1] - '0' : 0, b = o.size() > 2 ? o[2] - '0' : 0;
        auto drop = [&](int k) { if (sl[k]) { log("D", t, S(k)); sl[k].reset(); log("d", t); } };
        switch (o[0]) {
            case 'I': { drop(a); log("I", t, S(a), b); { proxy p = O::make(pool, b); sl[a].emplace(std::move(p)); }
                int i; { coop::Quiet q; i = id(O::obj(*sl[a])); }
                log("i", t, i, O::val(*sl[a])); break; }
            case 'C': if (sl[a] and a != b) { log("C", t, S(a), S(b)); if (sl[b]) *sl[b] = *sl[a]; else sl[b].emplace(*sl[a]);
                int i; { coop::Quiet q; i = id(O::obj(*sl[b])); } log("i", t, i, O::val(*sl[b])); } break;
            case 'O': if (sl[a] and a != b) { log("C", t, S(a), S(b)); { typename O::opt x(*sl[a]); typename O::opt y; y = x;
                proxy z(std::move(y)); { typename O::opt none; if (none.has_value() or none.count()) abort(); }
                if (sl[b]) *sl[b] = std::move(z); else sl[b].emplace(x.assert_not_none()); }
                int i; { coop::Quiet q; i = id(O::obj(*sl[b])); } log("i", t, i, O::val(*sl[b])); } break;
            case 'A': if (sl[a] and a != b) { log("C", t, S(a), S(b)); { proxy z = O::cast(*sl[a]); if (sl[b]) *sl[b] = z; else sl[b].emplace(z); }
                int i; { coop::Quiet q; i = id(O::obj(*sl[b])); } log("i", t, i, O::val(*sl[b])); } break;
            case 'M': if (sl[a] and a != b) { log("M", t, S(a), S(b)); if (sl[b]) *sl[b] = std::move(*sl[a]); else sl[b].emplace(std::move(*sl[a])); sl[a].reset();
                int i; { coop::Quiet q; i = id(O::obj(*sl[b])); } log("i", t, i, O::val(*sl[b])); } break;
            case 'X': if (sl[0] and sl[1]) { swap(*sl[0], *sl[1]); log("x", t, S(0), S(1)); } break;
            case 'D': drop(a); break;
            case 'N': if (sl[a]) { log("N", t, S(a)); unsigned n = sl[a]->count(); log("n", t, n); } break;
            case 'V': if (sl[a]) { int i; { coop::Quiet q; i = id(O::obj(*sl[a])); } log("v", t, S(a), i, O::val(*sl[a])); } break;
            case 'E': if (sl[0] and sl[1]) { log("E", t, S(0), S(1)); bool r = *sl[0] == *sl[1]; if (r == (*sl[0] != *sl[1])) abort(); log("e", t, int(r)); } break;
            default: abort();
        }
    }
    bool once(const std::vector<std::vector<std::string>> &prog, coop::Chooser &ch, int preempt, uint64_t mask) {
        bool ok;
        ids.clear();
        auto *pool = new POOL;
        auto *slots = new std::optional<proxy>[prog.size() * 2];
        {
            coop::Scheduler S; S.preempt_budget = preempt; S.mem_mask = mask; if (ch.rng) S.mem_rng.seed((*ch.rng)());
            for (int t = 0; t < (int)prog.size(); ++t)
                S.add([&, t]{ for (auto &o : prog[t]) op(*pool, slots + 2 * t, t, o); });
            ok = S.run(ch);
            if (not ok) { log(S.overrun ? "livelock" : "stuck"); return false; }
        }
        for (int t = 0; t < (int)prog.size(); ++t) for (int k = 0; k < 2; ++k) {
            op(*pool, slots + 2 * t, t, "V" + std::to_string(k));
            op(*pool, slots + 2 * t, t, "N" + std::to_string(k));
        }
        int n = 0; for (auto it = pool->cbegin(); it != pool->cend(); ++it) ++n;
        log("size", 0, int(pool->size()), n);
        for (int t = 0; t < (int)prog.size(); ++t) for (int k = 0; k < 2; ++k) op(*pool, slots + 2 * t, t, "D" + std::to_string(k));
        delete[] slots;
        delete pool;    // a reference count that is not zero is an assertion failure here
        log("end");
        return ok;
    }
};

static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r; std::stringstream ss(s); std::string x;
    while (std::getline(ss, x, c)) r.push_back(x);
    return r;
}
template<typename POOL> int go(char **argv)
{
    auto &o = tl::Out::get();
    std::mt19937_64 rng(strtoull(argv[2], nullptr, 10));
    long nrand = atol(argv[3]), maxdfs = atol(argv[4]); int preempt = atoi(argv[5]);
    std::vector<std::vector<std::string>> prog;
    for (auto &th : split(argv[7], ';')) prog.push_back(split(th, ','));
    Runner<POOL> R;
    long schedules = 0;
    auto begin = [&]{ o.begin(std::string("\"pool\":\"") + argv[6] + "\",\"prog\":\"" + argv[7] + "\""); tl::hang_after(20); };
    std::vector<int> prefix;
    for (long k = 0; k < maxdfs; ++k) {
        coop::Chooser ch; ch.prefix = prefix;
        begin(); R.once(prog, ch, preempt, ~0ull); o.end(); ++schedules;
        auto made = ch.made;
        while (not made.empty() and made.back().first + 1 >= made.back().second) made.pop_back();
        if (made.empty()) break;
        prefix.clear();
        for (auto &m : made) prefix.push_back(m.first);
        ++prefix.back();
    }
    for (long i = 0; i < nrand; ++i) {
        coop::Chooser ch; ch.rng = &rng;
        begin(); R.once(prog, ch, -1, i % 4 == 0 ? 1 : i % 4 == 1 ? 7 : i % 4 == 2 ? 31 : 127); o.end(); ++schedules;
    }
    o.close();
    printf("{\"schedules\":%ld,\"distinct\":%ld}\n", schedules, o.n);
    return 0;
}
int main(int argc, char **argv)
{
    if (argc < 8) return 3;
    tl::Out::get().file(argv[1]);
    tl::catch_crashes();
    std::string k = argv[6];
    if (k == "pod") return go<PODPool<int, WeakHash, std::equal_to<int>, std::identity, true>>(argv);
    if (k == "str") return go<m::detail::_StringPool<true>>(argv);
    if (k == "cls") return go<m::Pool<Base, BaseHash, std::equal_to<Base>, true>>(argv);
    if (k == "spod") return go<PODPool<int, WeakHash, std::equal_to<int>, std::identity, false>>(argv);
    if (k == "sstr") return go<m::detail::_StringPool<false>>(argv);
    if (k == "scls") return go<m::Pool<Base, BaseHash, std::equal_to<Base>, false>>(argv);
    return 3;
}
