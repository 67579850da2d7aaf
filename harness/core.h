// Shared pieces of the monitoring harness: run context, random numbers, watchdog, virtual clock.
#pragma once
#include <atomic>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vm {
    // ---- deterministic generator, independent of the code under test -------------------------------------------
    struct Rng {
        uint64_t s;
        explicit Rng(uint64_t seed = 1) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
        uint64_t next() {
            s += 0x9E3779B97F4A7C15ull;
            uint64_t z = s;
            z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
            z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
            return z ^ (z >> 31);
        }
        double u() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
        int i(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }   // inclusive
        bool b(double p = 0.5) { return u() < p; }
        double r(double lo, double hi) { return lo + (hi - lo) * u(); }
        template <class T> T pick(std::initializer_list<T> l) { return *(l.begin() + i(0, (int)l.size() - 1)); }
    };
    inline uint64_t mix(uint64_t a, uint64_t b) { Rng r(a ^ (b * 0xD6E8FEB86659FD93ull + 0x632BE59BD9B4E019ull)); return r.next(); }
    inline uint64_t hstr(const std::string& s) { uint64_t h = 1469598103934665603ull; for (unsigned char c : s) { h ^= c; h *= 1099511628211ull; } return h; }

    // ---- run context -------------------------------------------------------------------------------------------
    struct Violation { std::string prop, key, detail; long case_id; };

    struct Ctx {
        std::string prop;           // property being decided
        std::string mode;           // sub-workload
        uint64_t seed = 1;
        bool thorough = false;
        double scale = 1.0;         // multiplies case counts
        long only_case = -1;        // replay a single case
        long cur_case = -1;
        std::string out;
        std::mutex mu;
        std::vector<Violation> viols;
        std::map<std::string, long> counters;
        std::unordered_set<uint64_t> distinct;
        std::vector<std::string> samples;
        std::vector<std::string> notes;
        long evaluations = 0;
        std::string rule;

        int n(int quick, int thorough_n) const { double x = (thorough ? thorough_n : quick) * scale; return x < 1 ? 1 : (int)x; }
        bool skip_case(long k) { cur_case = k; return only_case >= 0 && k != only_case; }
        void count(const std::string& k, long v = 1) { std::lock_guard<std::mutex> g(mu); counters[k] += v; }
        void saw(uint64_t h) { std::lock_guard<std::mutex> g(mu); distinct.insert(h); }
        void sample(const std::string& s) { std::lock_guard<std::mutex> g(mu); if (samples.size() < 6) samples.push_back(s); }
        void eval(long k = 1) { std::lock_guard<std::mutex> g(mu); evaluations += k; }
        // Report that property `p` was seen broken. Only the property under decision turns the run into a failure.
        void violate(const std::string& p, const std::string& key, const std::string& detail) {
            std::lock_guard<std::mutex> g(mu);
            if (p != prop) { counters["other_property_alarms:" + p]++; return; }
            counters["alarms"]++;
            if (viols.size() < 40) viols.push_back({p, key, detail, cur_case});
        }
        bool want(const char* p) const { return prop == p; }
    };
    extern Ctx* g_ctx;
    inline Ctx& C() { return *g_ctx; }

    template <class... A> std::string cat(const A&... a) { std::ostringstream os; os.precision(17); (os << ... << a); return os.str(); }
    inline std::string jesc(const std::string& s) {
        std::string o;
        for (unsigned char c : s) {
            if (c == '"' || c == '\\') { o += '\\'; o += c; }
            else if (c == '\n') o += "\\n";
            else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); o += b; }
            else o += c;
        }
        return o;
    }

    // ---- watchdog: recognises "every thread asleep, nothing will ever run again" --------------------------------
    void watchdog_start();
    extern std::atomic<const char*> g_phase;      // what the main thread is doing, for hang reports

    // ---- virtual clock (std::chrono clocks are interposed in the executable) ------------------------------------
    [[noreturn]] void finish_now();      // ends the process with the violations recorded so far
    struct VClock {
        static std::atomic<bool> on;
        static std::atomic<int64_t> ns;           // virtual now
        static std::atomic<int64_t> reads;        // number of reads since reset
        static std::atomic<int64_t> jump_at;      // at this read ...
        static std::atomic<int64_t> jump_ns;      // ... advance by this much first
        static std::atomic<int64_t> per_read_ns;  // advance after each read
        static void reset(bool enable) { on = false; ns = 1700000000000000000ll; reads = 0; jump_at = -1; jump_ns = 0; per_read_ns = 0; on = enable; }
        static void advance(double s) { ns += (int64_t)(s * 1e9); }
        static double now_s() { return ns.load() * 1e-9; }
    };

    // ---- statistics --------------------------------------------------------------------------------------------
    // Probability integral transform accumulator: feed values that are uniform on [0,1) if the code is right.
    // How far a binomial count is from its expectation, as the equivalent number of standard deviations of the exact
    // (Chernoff) tail bound; sound for rare outcomes, too.
    inline double count_sigma(long k, long n, double p) {
        if (n <= 0) return 0; if (p <= 0) return k > 0 ? INFINITY : 0; if (p >= 1) return k < n ? INFINITY : 0;
        double q = (double)k / n, kl = 0;
        if (q > 0) kl += q * std::log(q / p);
        if (q < 1) kl += (1 - q) * std::log((1 - q) / (1 - p));
        return std::sqrt(2 * n * std::max(0.0, kl));
    }
    struct Pit {
        static constexpr int B = 20;
        std::mutex mu;
        long n = 0; long bin[B] = {0};
        void add(double u) { std::lock_guard<std::mutex> g(mu); int k = (int)(u * B); if (k < 0) k = 0; if (k >= B) k = B - 1; bin[k]++; n++; }
        // worst bin deviation in standard deviations
        double worst() const { double w = 0; for (int k = 0; k < B; k++) w = std::max(w, count_sigma(bin[k], n, 1.0 / B)); return w; }
        double chi2() const { if (!n) return 0; double e = n / (double)B, x = 0; for (int k = 0; k < B; k++) x += (bin[k] - e) * (bin[k] - e) / e; return x; }
    };
    // Frequencies of a long sequence of independent draws with known shares: overall, at regular positions of the
    // sequence, and after each outcome. The allowance is far beyond chance.
    struct Deep {
        std::vector<double> p; long n = 0; int prev = -1, prev2 = -1;
        explicit Deep(std::vector<double> probs) : p(std::move(probs)) { double t = 0; for (double x : p) t += x; for (double& x : p) x /= t; prep(); }
        static constexpr int mods[] = {2, 3, 4, 5, 7, 8, 10, 16, 32, 64, 100, 128, 256, 1000};
        std::vector<std::pair<long, std::vector<long>>> pos; std::pair<long, std::vector<long>> all; std::vector<std::pair<long, std::vector<long>>> after, twice;
        void prep() { std::pair<long, std::vector<long>> z{0, std::vector<long>(p.size())}; all = z; pos.assign(4 * std::size(mods), z); after.assign(p.size(), z); twice.assign(p.size(), z); }
        void put(std::pair<long, std::vector<long>>& c, int k) { c.first++; c.second[k]++; }
        void add(int k) {
            put(all, k); int j = 0;
            for (int m : mods) { long r = n % m; if (r == 0) put(pos[j], k); else if (r == m - 1) put(pos[j + 1], k); if (m > 3) { if (r == 1) put(pos[j + 2], k); else if (r == m - 2) put(pos[j + 3], k); } j += 4; }
            if (prev >= 0) { put(after[prev], k); if (prev == prev2) put(twice[prev], k); }
            prev2 = prev; prev = k; n++;
        }
        std::string verdict() const {
            auto test = [&](const std::pair<long, std::vector<long>>& c, const std::string& what) -> std::string {
                for (size_t k = 0; k < p.size(); k++) {
                    if (count_sigma(c.second[k], c.first, p[k]) > 7.0) { std::ostringstream os; os << "outcome " << k << " of share " << p[k] << " came " << c.second[k] << " times of " << c.first << " " << what; return os.str(); }
                }
                return "";
            };
            std::string s = test(all, "overall"); int j = 0;
            for (int m : mods) { const char* nm[] = {" (first of each group)", " (last of each group)", " (second of each group)", " (last but one of each group)"}; for (int q = 0; q < 4; q++, j++) if (s.empty()) s = test(pos[j], "at every position " + std::to_string(m) + nm[q]); }
            for (size_t k = 0; k < p.size(); k++) { if (s.empty()) s = test(after[k], "directly after outcome " + std::to_string(k)); if (s.empty()) s = test(twice[k], "after outcome " + std::to_string(k) + " twice"); }
            return s;
        }
    };
    inline bool close(double a, double b, double tol) { if (a == b) return true; if (!std::isfinite(a) || !std::isfinite(b)) return false; return std::fabs(a - b) <= tol; }

    typedef void (*CheckFn)(Ctx&);
    void register_check(const char* id, CheckFn fn);
    struct Reg { Reg(const char* id, CheckFn fn) { register_check(id, fn); } };
}
