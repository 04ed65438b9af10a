// Explores schedules of the real reader_writer_lock / read_lock / write_lock / upgrade_lock and records API-level traces.
//   hdr_rwlock OUT.ndjson SEED NRANDOM MAXDFS PREEMPT "R,W;U" ...
#define PCOOP_MEMORY
#include "pcoop.hpp"
#include "tracelog.hpp"
#include <mutable/util/reader_writer_lock.hpp>
#include <sstream>

using namespace m;
static std::string ev(const char *e, int t) { return std::string("[\"") + e + "\"," + std::to_string(t) + "]"; }
static std::string ev(const char *e, int t, const char *a) { return std::string("[\"") + e + "\"," + std::to_string(t) + ",\"" + a + "\"]"; }
#define LOG(...) do { coop::Quiet q_; tl::Out::get().ev(ev(__VA_ARGS__)); } while (0)

static void run_op(reader_writer_mutex &M, int t, const std::string &op)
{
    auto hold = []{ coop::yield(); };
    if (op == "R") { reader_writer_lock L(M); LOG("call", t, "R"); L.lock_read();
        if (not L.owns_read_lock()) LOG("lie", t);
        LOG("retR", t); hold(); LOG("rel", t); L.unlock(); LOG("relRet", t); }
    else if (op == "W") { reader_writer_lock L(M); LOG("call", t, "W"); L.lock_write();
        if (not L.owns_write_lock()) LOG("lie", t);
        LOG("retW", t); hold(); LOG("rel", t); L.unlock(); LOG("relRet", t); }
    else if (op == "U") { // read, then try to upgrade
        reader_writer_lock L(M); LOG("call", t, "R"); L.lock_read(); LOG("retR", t); hold();
        LOG("upg", t);
        if (L.upgrade()) { LOG("retU", t); hold(); LOG("rel", t); L.unlock(); LOG("relRet", t); }
        else { if (L.owns_read_lock() or L.owns_write_lock()) LOG("lie", t); LOG("failU", t); }
    } else if (op == "u") { // the same through upgrade_lock
        upgrade_lock L(M, std::defer_lock); LOG("call", t, "R"); L.lock(); LOG("retR", t); hold();
        LOG("upg", t);
        auto w = L.upgrade();
        if (w.owns_lock()) { LOG("retU", t); hold(); LOG("rel", t); w.unlock(); LOG("relRet", t); }
        else { if (L.owns_read_lock()) LOG("lie", t); LOG("failU", t); }
    } else if (op == "r") { LOG("call", t, "R"); { read_lock L(M); LOG("retR", t); hold(); LOG("rel", t); } LOG("relRet", t); }
    else if (op == "w") { LOG("call", t, "W"); { write_lock L(M); LOG("retW", t); hold(); LOG("rel", t); } LOG("relRet", t); }
    else if (op == "m") { // ownership moves, is released exactly once
        LOG("call", t, "W"); { write_lock L(M); write_lock K(std::move(L)); LOG("retW", t); hold(); LOG("rel", t); } LOG("relRet", t); }
    else if (op == "a") { // move assignment hands the lock over, it is released exactly once
        LOG("call", t, "W"); { reader_writer_lock L(M), K(M); L.lock_write(); K = std::move(L);
            if (L.owns_write_lock() or not K.owns_write_lock()) LOG("lie", t);
            LOG("retW", t); hold(); LOG("rel", t); } LOG("relRet", t); }
    else if (op == "b") { // move assignment and construction of the single-purpose locks
        LOG("call", t, "R"); { read_lock L(M); read_lock K(M, std::defer_lock); K = std::move(L); read_lock N(std::move(K));
            if (L.owns_lock() or K.owns_lock() or not N.owns_lock()) LOG("lie", t);
            LOG("retR", t); hold(); LOG("rel", t); } LOG("relRet", t); }
    else if (op == "c") {
        LOG("call", t, "W"); { write_lock L(M, std::defer_lock); L.lock(); write_lock K(M, std::defer_lock); K = std::move(L);
            if (L.owns_lock() or not K.owns_lock()) LOG("lie", t);
            LOG("retW", t); hold(); LOG("rel", t); } LOG("relRet", t); }
    else if (op == "TR") { LOG("call", t, "TR");
        if (M.try_lock_read()) { LOG("retR", t); hold(); LOG("rel", t); M.unlock_read(); LOG("relRet", t); } else LOG("fail", t); }
    else if (op == "TW") { LOG("call", t, "TW");
        if (M.try_lock_write()) { LOG("retW", t); hold(); LOG("rel", t); M.unlock_write(); LOG("relRet", t); } else LOG("fail", t); }
    else { fprintf(stderr, "bad op\n"); exit(3); }
}

static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r; std::stringstream ss(s); std::string x;
    while (std::getline(ss, x, c)) r.push_back(x);
    return r;
}

static bool once(const std::vector<std::vector<std::string>> &prog, coop::Chooser &ch, int preempt, uint64_t mem_mask = ~0ull)
{
    auto &o = tl::Out::get();
    bool ok;
    {
        auto *M = new reader_writer_mutex; // leaked when stuck
        coop::Scheduler S;
        S.preempt_budget = preempt;
        S.mem_mask = mem_mask;
        if (ch.rng) S.mem_rng.seed((*ch.rng)());
        S.on_block = [](int t){ LOG("block", t); };
        for (int t = 0; t < (int)prog.size(); ++t)
            S.add([&, t]{ for (auto &op : prog[t]) run_op(*M, t, op); });
        ok = S.run(ch);
        if (S.overrun) o.ev("[\"livelock\",0]");
        else if (not ok) o.ev("[\"stuck\",0]");
        else { o.ev("[\"end\",0]"); delete M; }
    }
    return ok;
}

int main(int argc, char **argv)
{
    if (argc < 7) return 3;
    auto &o = tl::Out::get();
    o.file(argv[1]);
    tl::catch_crashes();
    std::mt19937_64 rng(strtoull(argv[2], nullptr, 10));
    long nrand = atol(argv[3]), maxdfs = atol(argv[4]); int preempt = atoi(argv[5]);
    long schedules = 0; long exhausted = 0, programs = 0;
    for (int a = 6; a < argc; ++a) {
        std::vector<std::vector<std::string>> prog;
        for (auto &th : split(argv[a], ';')) prog.push_back(split(th, ','));
        ++programs;
        auto begin = [&](const coop::Chooser&) { o.begin(std::string("\"prog\":\"") + argv[a] + "\""); tl::hang_after(20); };
        // depth-first over all schedules with at most `preempt` preemptions
        std::vector<int> prefix;
        long k = 0; bool done = false;
        for (; k < maxdfs; ++k) {
            coop::Chooser ch; ch.prefix = prefix;
            begin(ch); once(prog, ch, preempt); o.end(); ++schedules;
            auto made = ch.made;
            while (not made.empty() and made.back().first + 1 >= made.back().second) made.pop_back();
            if (made.empty()) { done = true; break; }
            prefix.clear();
            for (auto &m : made) prefix.push_back(m.first);
            ++prefix.back();
        }
        if (done) ++exhausted;
        for (long i = 0; i < nrand; ++i) {
            coop::Chooser ch; ch.rng = &rng;
            begin(ch); once(prog, ch, -1, i % 3 == 0 ? ~0ull : i % 3 == 1 ? 3 : 31); o.end(); ++schedules;
        }
    }
    o.close();
    printf("{\"programs\":%ld,\"schedules\":%ld,\"distinct\":%ld,\"dfs_exhausted\":%ld}\n", programs, schedules, o.n, exhausted);
}
