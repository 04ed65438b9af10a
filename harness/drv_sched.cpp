// Several clients use one scheduler; every schedule runs in a child process of its own.
//   drv_sched OUT SEED NRANDOM MAXDFS PREEMPT PROGRAM
//   PROGRAM: clients ';', operations ',': B begin, S submit, E submit an erroneous command, W wait for the oldest outstanding
//   future, F wait for all, C commit, A abort, X autocommit, Y autocommit an erroneous command.
//   When all clients are through, the scheduler is shut down and every future must be resolved.
#include "pcoop.hpp"
#include "tracelog.hpp"
#include <catalog/SerialScheduler.hpp>
#include <mutable/catalog/Catalog.hpp>
#include <mutable/catalog/DatabaseCommand.hpp>
#include <mutable/mutable.hpp>
#include <sstream>
#include <sys/wait.h>

using namespace m;
static std::string ev(const char *e, std::initializer_list<long> a) {
    std::string s = std::string("[\"") + e + "\"";
    for (long x : a) s += "," + std::to_string(x);
    return s + "]";
}
static void log(const char *e, std::initializer_list<long> a) { coop::Quiet q; tl::Out::get().ev(ev(e, a)); }

struct vlog : DatabaseInstruction
{
    vlog(std::vector<std::string> args) : DatabaseInstruction(std::move(args)) { }
    void accept(DatabaseCommandVisitor&) override { }
    void accept(ConstDatabaseCommandVisitor&) const override { }
    void execute(Diagnostic&) override {
        long c = atol(args()[0].c_str());
        log("x", {c, long(transaction()->start_time())});
        coop::yield(); coop::yield();
        log("y", {c});
    }
};

static std::ostringstream sink;
static Diagnostic diag(false, sink, sink);
struct Fut { int c; std::future<bool> f; bool seen = false; };

static std::unique_ptr<ast::Command> make(int c, bool good) {
    coop::Quiet q;
    Catalog &C = Catalog::Get();
    return std::make_unique<ast::Instruction>(ast::Token::CreateArtificial(), C.pool(good ? "vlog" : "nosuch"), std::vector<std::string>{std::to_string(c)});
}

static std::vector<std::string> split(const std::string &s, char c) {
    std::vector<std::string> r; std::stringstream ss(s); std::string x;
    while (std::getline(ss, x, c)) r.push_back(x);
    return r;
}

static void client(Scheduler &sched, int t, const std::vector<std::string> &ops, std::vector<Fut> &futs, int &ncmd, int &ntx, std::vector<std::unique_ptr<Diagnostic>> &diags)
{
    std::unique_ptr<Scheduler::Transaction> tx;
    int txid = 0;
    auto D = [&]() -> Diagnostic& { coop::Quiet q; diags.push_back(std::make_unique<Diagnostic>(false, sink, sink)); return *diags.back(); };
    auto wait = [&](Fut &f) {
        coop::wait_until([&]{ return f.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; });
        log("fut", {f.c, long(f.f.get())}); f.seen = true;
    };
    size_t begun = futs.size();
    for (auto &o : ops) switch (o[0]) {
        case 'B': txid = ++ntx; tx = sched.begin_transaction(); log("begin", {t, txid}); break;
        case 'S': case 'E': { int c = ++ncmd; auto cmd = make(c, o[0] == 'S'); log("sub", {t, txid, c, o[0] == 'S'});
            auto f = sched.schedule_command(*tx, std::move(cmd), D()); log("subRet", {t, c});
            futs.push_back(Fut{c, std::move(f)}); break; }
        case 'W': for (size_t i = 0; i < futs.size(); ++i) if (not futs[i].seen) { wait(futs[i]); break; } break;
        case 'F': for (auto &f : futs) if (not f.seen) wait(f); break;
        case 'C': case 'A': { log("stop", {t, txid}); bool r = o[0] == 'C' ? sched.commit(std::move(tx)) : sched.abort(std::move(tx)); log("stopRet", {t, txid, r}); break; }
        case 'X': case 'Y': { txid = ++ntx; int c = ++ncmd; auto cmd = make(c, o[0] == 'X'); log("auto", {t, txid, c, o[0] == 'X'});
            // the calling thread blocks in a future: let others run until it is resolved
            bool r = false;
            auto tr = sched.begin_transaction(); auto f = sched.schedule_command(*tr, std::move(cmd), D());
            coop::wait_until([&]{ return f.wait_for(std::chrono::seconds(0)) == std::future_status::ready; });
            r = f.get(); log("fut", {c, r}); log("stop", {t, txid}); if (r) sched.commit(std::move(tr)); else sched.abort(std::move(tr));
            log("autoRet", {t, txid, r}); break; }
        default: abort();
    }
    if (tx) { coop::Quiet q; new std::unique_ptr<Scheduler::Transaction>(std::move(tx)); } // outlives its queued commands
}

static void child(const std::vector<std::vector<std::string>> &prog, coop::Chooser &ch, int preempt)
{
    auto *sched = new SerialScheduler;
    auto *futs = new std::vector<Fut>[prog.size()];
    auto *diags = new std::vector<std::unique_ptr<Diagnostic>>;
    int ncmd = 0, ntx = 0, done = 0;
    coop::Scheduler S; S.preempt_budget = preempt;
    for (int t = 0; t < (int)prog.size(); ++t)
        S.add([&, t]{ client(*sched, t, prog[t], futs[t], ncmd, ntx, *diags); ++done; });
    S.add([&]{
        coop::wait_until([&]{ return done == (int)prog.size(); });
        log("close", {}); delete sched; log("closed", {});
        for (int t = 0; t < (int)prog.size(); ++t) for (auto &f : futs[t]) if (not f.seen) {
            bool ready = f.f.wait_for(std::chrono::seconds(0)) == std::future_status::ready;
            long r = 2;
            if (ready) try { r = f.f.get(); } catch (...) { r = 3; }
            log("fut", {f.c, r});
        }
    });
    bool ok = S.run(ch);
    log(S.overrun ? "livelock" : ok ? "end" : "stuck", {});
    // leave everything behind: the process ends now
    tl::Out::get().end(); fflush(tl::Out::get().f);
}

int main(int argc, char **argv)
{
    if (argc < 7) return 3;
    auto &o = tl::Out::get();
    Catalog &C = Catalog::Get();
    C.register_instruction<vlog>(C.pool("vlog"), "");
    std::vector<std::vector<std::string>> prog;
    for (auto &th : split(argv[6], ';')) prog.push_back(split(th, ','));
    std::mt19937_64 rng(strtoull(argv[2], nullptr, 10));
    long nrand = atol(argv[3]), maxdfs = atol(argv[4]); int preempt = atoi(argv[5]);
    fclose(fopen(argv[1], "w"));
    o.f = fopen(argv[1], "a");
    long schedules = 0, crashed = 0;
    auto run = [&](coop::Chooser &ch, int pre) {
        int p[2]; if (pipe(p)) exit(3);
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0) {
            close(p[0]); tl::catch_crashes(); tl::hang_after(20);
            o.begin(std::string("\"prog\":\"") + argv[6] + "\"");
            child(prog, ch, pre);
            for (auto &m : ch.made) { int x[2] = {m.first, m.second}; if (write(p[1], x, sizeof x) < 0) _exit(3); }
            _exit(0);
        }
        close(p[1]);
        ch.made.clear();
        int x[2]; while (read(p[0], x, sizeof x) == sizeof x) ch.made.emplace_back(x[0], x[1]);
        close(p[0]);
        int st; waitpid(pid, &st, 0); ++schedules;
        if (not (WIFEXITED(st) and (WEXITSTATUS(st) == 0 or WEXITSTATUS(st) == 42))) exit(4);
        return WEXITSTATUS(st) == 0;
    };
    std::vector<int> prefix;
    for (long k = 0; k < maxdfs; ++k) {
        coop::Chooser ch; ch.prefix = prefix;
        if (not run(ch, preempt)) { ++crashed; break; }
        auto made = ch.made;
        while (not made.empty() and made.back().first + 1 >= made.back().second) made.pop_back();
        if (made.empty()) break;
        prefix.clear();
        for (auto &m : made) prefix.push_back(m.first);
        ++prefix.back();
    }
    for (long i = 0; i < nrand and crashed < 5; ++i) {
        std::mt19937_64 r(rng()); coop::Chooser ch; ch.rng = &r;
        if (not run(ch, -1)) ++crashed;
    }
    printf("{\"schedules\":%ld,\"crashed\":%ld}\n", schedules, crashed);
    fflush(stdout);
    _exit(0);
}
