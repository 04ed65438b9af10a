// One ndjson line per trace: {"id":N,"key":"...","ev":[[...],[...]]}.  Events are written as JSON arrays.
#pragma once
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace tl {

inline std::string jstr(const std::string &s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' or c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 or c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r + "\"";
}

struct Out
{
    FILE *f = nullptr;
    std::string cur;      // events of the current trace
    std::string head;     // fields before "ev"
    bool open = false;
    std::unordered_set<std::string> seen;
    bool dedupe = true;
    long n = 0, total = 0;
    volatile bool locked = false;   // in the middle of writing
    static Out & get() { static Out o; return o; }
    void file(const char *path) { f = fopen(path, "w"); if (not f) { perror(path); exit(3); } }
    void begin(const std::string &h) { cur.clear(); head = h; open = true; }
    void ev(const std::string &json) { if (not cur.empty()) cur += ','; cur += json; }
    void end() {
        if (not open) return;
        open = false; ++total;
        if (dedupe and not seen.insert(cur).second) return;
        ++n;
        locked = true;
        fprintf(f, "{\"id\":%ld%s%s,\"ev\":[%s]}\n", n, head.empty() ? "" : ",", head.c_str(), cur.c_str());
        locked = false;
    }
    void close() { if (f) { fclose(f); f = nullptr; } }
};

// A crash of the code under test becomes an event of the current trace, so that the specification judges it.
inline void on_crash(int sig) {
    signal(sig, SIG_DFL);
    auto &o = Out::get();
    if (o.open) {
        // no allocation here: the signal may have interrupted malloc
        static char buf[256];
        int n = snprintf(buf, sizeof buf, "%s[\"crash\",\"%s\"]]}\n", o.cur.empty() ? "" : ",", sig == SIGABRT ? "abort" : sig == SIGSEGV ? "segv" : sig == SIGALRM ? "hang" : "signal");
        static char head[64];
        int h = snprintf(head, sizeof head, "{\"id\":%ld%s", o.n + 1, o.head.empty() ? "" : ",");
        auto put = [&](const char *p, std::size_t k) { while (k) { ssize_t w = write(fileno(o.f), p, k); if (w <= 0) break; p += w; k -= w; } };
        if (not o.locked) { fflush(o.f); }
        put(head, h); put(o.head.data(), o.head.size()); put(",\"ev\":[", 7); put(o.cur.data(), o.cur.size()); put(buf, n);
        _exit(42);
    }
    raise(sig);
}
inline void catch_crashes() {
    static char alt[1 << 16];
    stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
    for (int s : {SIGABRT, SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
        struct sigaction sa{}; sa.sa_handler = on_crash; sa.sa_flags = SA_ONSTACK; sigaction(s, &sa, nullptr);
    }
}
inline void hang_after(unsigned s) { alarm(s); }
} // namespace tl
