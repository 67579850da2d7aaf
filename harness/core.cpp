#include "core.h"
#include <sys/resource.h>
#include <chrono>
#include <cstring>
#include <dirent.h>
#include <fstream>
#include <thread>
#include <unistd.h>
#include <sys/syscall.h>
#include <exception>
#include <csignal>
#include <typeinfo>

namespace vm {
    Ctx* g_ctx = nullptr;
    std::atomic<const char*> g_phase{"start"};
    std::atomic<bool> VClock::on{false};
    std::atomic<int64_t> VClock::ns{0}, VClock::reads{0}, VClock::jump_at{-1}, VClock::jump_ns{0}, VClock::per_read_ns{0};

    static int64_t real_ns(clockid_t id) { timespec t; clock_gettime(id, &t); return t.tv_sec * 1000000000ll + t.tv_nsec; }
    int64_t clock_read(clockid_t id) {
        if (!VClock::on.load()) return real_ns(id);
        int64_t k = VClock::reads.fetch_add(1) + 1;
        if (VClock::jump_at.load() == k) VClock::ns += VClock::jump_ns.load();
        int64_t v = VClock::ns.load();
        VClock::ns += VClock::per_read_ns.load();
        return v;
    }

    static std::map<std::string, CheckFn>& registry() { static std::map<std::string, CheckFn> r; return r; }
    void register_check(const char* id, CheckFn fn) { registry()[id] = fn; }
    void call_check(const char* id) { registry().at(id)(*g_ctx); }

    static void write_out(bool crashed) {
        Ctx& c = *g_ctx;
        if (c.out.empty()) return;
        std::ofstream f(c.out);
        f << "{\"property\":\"" << c.prop << "\",\"mode\":\"" << c.mode << "\",\"evaluations\":" << c.evaluations
          << ",\"distinct\":" << c.distinct.size() << ",\"rule\":\"" << jesc(c.rule) << "\",\"crashed\":" << (crashed ? "true" : "false")
          << ",\"case\":" << c.cur_case << ",\"counters\":{";
        bool first = true;
        for (auto& p : c.counters) { f << (first ? "" : ",") << "\"" << jesc(p.first) << "\":" << p.second; first = false; }
        f << "},\"samples\":[";
        first = true;
        for (auto& s : c.samples) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
        f << "],\"notes\":[";
        first = true;
        for (auto& s : c.notes) { f << (first ? "" : ",") << "\"" << jesc(s) << "\""; first = false; }
        f << "],\"violations\":[";
        first = true;
        for (auto& v : c.viols) {
            f << (first ? "" : ",") << "{\"property\":\"" << v.prop << "\",\"key\":\"" << jesc(v.key) << "\",\"detail\":\"" << jesc(v.detail) << "\",\"case\":" << v.case_id << "}";
            first = false;
        }
        f << "]}\n";
    }

    void finish_now() { write_out(false); fflush(stdout); fflush(stderr); _exit(10); }

    // A hang is declared only when every other thread is asleep and none of them has been scheduled for 4 seconds:
    // this does not depend on how loaded the machine is.
    // never destroyed: the watchdog still runs while the process exits
    static std::set<std::string>& base_tids = *new std::set<std::string>;   // sanitizer runtime threads that exist before main
    static void watchdog_main() {
        std::string last; int same = 0;
        long me = syscall(SYS_gettid);
        for (;;) {
            usleep(500000);
            std::string cur; bool asleep = true; int nthreads = 0;
            DIR* d = opendir("/proc/self/task");
            if (!d) continue;
            while (dirent* e = readdir(d)) {
                if (e->d_name[0] == '.') continue;
                if (atol(e->d_name) == me || base_tids.count(e->d_name)) continue;
                std::ifstream st(std::string("/proc/self/task/") + e->d_name + "/status");
                std::string l, comm; bool bg = false; std::string acc;
                while (std::getline(st, l)) {
                    if (l.rfind("State:", 0) == 0) { if (l.find('S') == std::string::npos || l.find("(sleeping)") == std::string::npos) asleep = false; }
                    if (l.find("ctxt_switches") != std::string::npos) acc += l;
                }
                (void)bg;
                cur += std::string(e->d_name) + acc; nthreads++;
            }
            closedir(d);
            if (asleep && cur == last) same++; else same = 0;
            last = cur;
            if (same >= 8) {
                fprintf(stderr, "HANG case=%ld phase=%s threads=%d\n", g_ctx->cur_case, g_phase.load(), nthreads);
                fflush(stderr);
                _exit(42);
            }
        }
    }
    void watchdog_start() {
        if (DIR* d = opendir("/proc/self/task")) {
            while (dirent* e = readdir(d)) if (e->d_name[0] != '.' && atol(e->d_name) != (long)getpid()) base_tids.insert(e->d_name);
            closedir(d);
        }
        std::thread(watchdog_main).detach(); }

    static void on_terminate() {
        std::string what = "terminate";
        if (auto e = std::current_exception()) {
            try { std::rethrow_exception(e); }
            catch (const std::exception& x) { what = std::string("uncaught ") + typeid(x).name() + ": " + x.what(); }
            catch (...) { what = "uncaught unknown exception"; }
        }
        fprintf(stderr, "TERMINATE case=%ld %s\n", g_ctx ? g_ctx->cur_case : -1, what.c_str());
        fflush(stderr);
        abort();
    }
    static void on_signal(int s) {
        char b[128]; int n = snprintf(b, sizeof b, "SIGNAL %d case=%ld phase=%s\n", s, g_ctx ? g_ctx->cur_case : -1, g_phase.load());
        if (write(2, b, n) < 0) {}
        signal(s, SIG_DFL); raise(s);
    }
}

// Interposed clocks: the library under test reads time through these.
namespace std { namespace chrono { inline namespace _V2 {
    system_clock::time_point system_clock::now() noexcept { return time_point(duration(vm::clock_read(CLOCK_REALTIME))); }
    steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vm::clock_read(CLOCK_MONOTONIC))); }
}}}

int main(int argc, char** argv) {
    using namespace vm;
    static Ctx& ctx = *new Ctx; g_ctx = &ctx;
    std::string fn;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--prop") ctx.prop = val();
        else if (a == "--mode") ctx.mode = val();
        else if (a == "--seed") ctx.seed = strtoull(val().c_str(), 0, 10);
        else if (a == "--thorough") ctx.thorough = true;
        else if (a == "--scale") ctx.scale = atof(val().c_str());
        else if (a == "--case") ctx.only_case = atol(val().c_str());
        else if (a == "--out") ctx.out = val();
        else { fprintf(stderr, "unknown argument %s\n", a.c_str()); return 3; }
    }
    std::string id = ctx.prop + (ctx.mode.empty() ? "" : ":" + ctx.mode);
    auto it = registry().find(id);
    if (it == registry().end()) { fprintf(stderr, "no such check %s\n", id.c_str()); return 3; }
    if (const char* mb = getenv("VM_MEMORY_MB")) { rlimit64 l{(rlim64_t) atol(mb) << 20, (rlim64_t) atol(mb) << 20}; setrlimit64(RLIMIT_AS, &l); }
    std::set_terminate(on_terminate);
#if !defined(__SANITIZE_ADDRESS__) && !defined(__SANITIZE_THREAD__)
    for (int s : {SIGSEGV, SIGFPE, SIGBUS, SIGILL, SIGABRT}) signal(s, on_signal);
#else
    (void)on_signal;
#endif
    watchdog_start();
    it->second(ctx);
    write_out(false);
    fflush(stdout); fflush(stderr);
    // 10: violations were recorded. Other non-zero codes are crashes, sanitizer reports or hangs.
    int rc = ctx.viols.empty() ? 0 : 10;
#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
    exit(rc);
#else
    _exit(rc);
#endif
}
