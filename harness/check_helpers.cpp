// P28-P30, P33, P34: sampling helpers, distribution objects, random numbers, value types, contexts.
#include "search.h"
#include "helper_templates.h"
#include "distributions/categorical_distribution.h"
#include "distributions/discrete_uniform_distribution.h"
#include "distributions/mixed_distribution.h"
#include <algorithm>
#include <climits>
#include <thread>

// Declared weakly so that a missing definition is observed by the monitor instead of breaking the link.
namespace std { ostream& operator<<(ostream& os, const StringAction& action) __attribute__((weak)); }

namespace vm {
    // A source of random numbers under the monitor's control.
    struct ScriptRand : RandManager {
        Rng r; std::vector<double> us; size_t k = 0; int edge = 0;
        explicit ScriptRand(uint64_t s) : RandManager(1), r(s) {}
        double get_rand_uniform() override { if (k < us.size()) return us[k++]; return r.u(); }
        int get_rand_int(int lo, int hi) override { if (hi <= lo) return lo; if (edge == 1) return lo; if (edge == 2) return hi - 1; return r.i(lo, hi - 1); }
    };
    static const double ALMOST1 = std::nextafter(1.0, 0.0);

    template <class T> T mk_key(int k);
    template <> int mk_key<int>(int k) { return k * 5 - 7; }
    template <> std::string mk_key<std::string>(int k) { return cat("key", k); }
    template <> std::shared_ptr<const Action> mk_key<std::shared_ptr<const Action>>(int k) { return std::make_shared<const StringAction>(cat("k", k)); }
    template <class T> int key_id(const T& x, int n);
    template <> int key_id<int>(const int& x, int n) { int v = x + 7; return v % 5 == 0 && v / 5 >= 0 && v / 5 < n ? v / 5 : -1; }
    template <> int key_id<std::string>(const std::string& x, int n) { for (int k = 0; k < n; k++) if (x == cat("key", k)) return k; return -1; }
    template <> int key_id<std::shared_ptr<const Action>>(const std::shared_ptr<const Action>& x, int n) {
        if (!x) return -1;
        auto* p = dynamic_cast<const StringAction*>(x.get()); if (!p) return -1;
        for (int k = 0; k < n; k++) if (p->action == cat("k", k)) return k; return -1;
    }

    // Counts of draws against expected shares. The allowance is far beyond chance (about 1e-9 per key).
    static bool off(long cnt, long n, double p, double& z) {
        if (p > 1 && p < 1 + 1e-9) p = 1;
        z = count_sigma(cnt, n, p); return z > 7.0;
    }

    static std::vector<double> gen_weights(Rng& r, int n, bool normalised) {
        std::vector<double> w(n); int kind = r.i(0, 6);
        for (int k = 0; k < n; k++) {
            switch (kind) {
                case 0: w[k] = 1.0; break;
                case 1: w[k] = r.u(); break;
                case 2: w[k] = std::exp(-5.0 * r.u() * r.i(1, 4)); break;
                case 3: w[k] = r.b(0.4) ? 0.0 : r.u(); break;
                case 4: w[k] = k == n / 2 ? 1.0 : (r.b() ? 0.0 : 1e-14 * r.u()); break;
                case 5: w[k] = r.i(0, 3); break;
                default: w[k] = 0.1 * r.i(0, 9); break;
            }
        }
        double s = 0; for (double x : w) s += x;
        if (s <= 0) { w[r.i(0, n - 1)] = 1.0; s = 0; for (double x : w) s += x; }
        if (normalised) { for (double& x : w) x /= s; }
        else { double sc = r.pick({1.0, 1.0, 1e-9, 1e9, 3.0, 0.01, 1e-280, 1e280}); for (double& x : w) x *= sc; }
        return w;
    }

    template <class T> static void p28_sample(Ctx& c, Rng& r, long k, Pit3& pit) {
        int n = r.pick({1, 2, 3, 5, 8, 12}); bool norm = r.b();
        std::vector<double> w = gen_weights(r, n, norm);
        std::unordered_map<T,double> m; std::vector<int> ord(n); for (int q = 0; q < n; q++) ord[q] = q;
        for (int q = n - 1; q > 0; q--) std::swap(ord[q], ord[r.i(0, q)]);
        for (int q : ord) m[mk_key<T>(q)] = w[q];
        double tot = 0; for (double x : w) tot += x;
        std::string d = cat(norm ? "normalised" : "unnormalised", " weights"); for (double x : w) d += cat(" ", x);
        if (k < 4) c.sample(d);
        // any draw, extreme and boundary draws included, yields a key with positive weight
        std::vector<double> us{0.0, std::nextafter(0.0, 1.0), 1e-17, 0.5, ALMOST1, std::nextafter(ALMOST1, 0.0), 1 - 1e-12, 1 - 1e-15};
        double cum = 0; for (auto& pr : m) { cum += pr.second / (norm ? 1.0 : tot); for (double u : {cum, std::nextafter(cum, 0.0), std::nextafter(cum, 2.0)}) if (u >= 0 && u < 1) us.push_back(u); }
        for (int q = 0; q < 10; q++) us.push_back(r.u());
        for (double u : us) {
            ScriptRand sr(k + 1); sr.us = {u}; c.eval();
            try {
                int g = key_id<T>(helper::sample_from_distribution(m, sr, norm), n);
                if (g < 0) c.violate("P28", "foreign key", cat("draw ", u, " returned a key that is not in the distribution: ", d));
                else if (!(w[g] > 0)) c.violate("P28", "key of zero weight", cat("draw ", u, " returned key ", g, " of weight ", w[g], ": ", d));
                c.saw(mix(hstr(d), hstr(cat(u))));
            } catch (const std::exception& e) { c.violate("P28", "valid distribution rejected", cat("draw ", u, " was rejected (", std::string(e.what()).substr(0, 80), "): ", d)); }
        }
        // frequencies
        RandManager rm((int)(r.next() % 2000000000) + 1); int N = 600; std::vector<long> cnt(n);
        for (int q = 0; q < N; q++) {
            int g = -1; try { g = key_id<T>(helper::sample_from_distribution(m, rm, norm), n); } catch (const std::exception&) { c.violate("P28", "valid distribution rejected", d); break; }
            if (g < 0) break;
            cnt[g]++; c.eval();
            double lo = 0; for (int j = 0; j < g; j++) lo += w[j] / tot;
            double u = acc().aux(); pit.id.add(lo + u * w[g] / tot);
            double lo2 = 0; for (int j = 0; j < n; j++) if (w[j] < w[g] || (w[j] == w[g] && j < g)) lo2 += w[j] / tot;
            pit.prob.add(lo2 + u * w[g] / tot);
            double lo3 = 0; for (int j = 0; j < n; j++) if (cnt[j] < cnt[g] - 1 || (cnt[j] == cnt[g] - 1 && j < g)) lo3 += w[j] / tot;
            pit.cnt.add(std::min(1.0, lo3 + u * w[g] / tot));
        }
        for (int g = 0; g < n; g++) { double z; if (off(cnt[g], N, w[g] / tot, z)) c.violate("P28", "frequency", cat("key ", g, " was drawn ", cnt[g], " times of ", N, ", expected share ", w[g] / tot, ": ", d)); }
        // distributions that lack mass, or have too much, are rejected when the draw runs into it
        if (n >= 2) {
            std::unordered_map<T,double> b = m; for (auto& pr : b) pr.second *= (norm ? 1.0 : 1.0 / tot) * 0.6;
            ScriptRand sr(k); sr.us = {r.r(0.6001, 1.0)}; bool threw = false; c.eval();
            try { helper::sample_from_distribution(b, sr, true); } catch (const std::exception&) { threw = true; }
            if (!threw) c.violate("P28", "missing mass accepted", cat("masses sum to 0.6 and the draw fell into the missing part: ", d));
            bool each_below = true; for (auto& pr : b) { pr.second *= 1.4 / 0.6; if (pr.second >= 0.99) each_below = false; }
            if (each_below) {
                ScriptRand s2(k); s2.us = {ALMOST1}; threw = false; c.eval();
                try { helper::sample_from_distribution(b, s2, true); } catch (const std::exception&) { threw = true; }
                if (!threw) c.violate("P28", "excess mass accepted", cat("masses sum to 1.4 and the draw ran past one: ", d));
            }
        }
    }
    template <class T, class V> static void p28_max(Ctx& c, Rng& r, long k, Pit3& pit) {
        int n = r.pick({1, 2, 3, 4, 7, 11, 11, 20, 40, 70}); std::unordered_map<T,V> m; std::vector<V> v(n); int kind = r.i(0, 5);
        for (int q = 0; q < n; q++) {
            if constexpr (std::is_floating_point<V>::value) {
                double inf = std::numeric_limits<double>::infinity();
                switch (kind) {
                    case 0: v[q] = r.r(-1, 1); break;
                    case 1: v[q] = r.i(-2, 0); break;
                    case 2: v[q] = r.pick({inf, 1.0, -inf}); break;
                    case 3: v[q] = -inf; break;
                    case 4: v[q] = r.pick({-1e308, std::numeric_limits<double>::lowest(), -inf}); break;
                    default: v[q] = r.pick({0.0, 1e-300, -1e-300, std::numeric_limits<double>::max()}); break;
                }
            } else v[q] = kind == 0 ? (V)INT_MIN : kind == 1 ? (V)r.i(-3, -1) : kind == 2 ? r.pick({(V)INT_MIN, (V)INT_MAX}) : (V)r.i(0, 2);
        }
        std::vector<int> ord(n); for (int q = 0; q < n; q++) ord[q] = q; for (int q = n - 1; q > 0; q--) std::swap(ord[q], ord[r.i(0, q)]);
        for (int q : ord) m[mk_key<T>(q)] = v[q];
        V best = v[0]; for (V x : v) best = std::max(best, x); std::vector<int> arg; for (int q = 0; q < n; q++) if (v[q] == best) arg.push_back(q);
        std::string d = "values"; for (V x : v) d += cat(" ", x);
        RandManager rm((int)(r.next() % 2000000000) + 1); std::vector<long> cnt(n); int N = arg.size() > 1 ? 200 : 3;
        for (int q = 0; q < N + 2; q++) {
            int g; c.eval();
            if (q < N) g = key_id<T>(helper::get_max_key_break_ties_randomly(m, rm), n);
            else { ScriptRand sr(k); sr.edge = q - N + 1; g = key_id<T>(helper::get_max_key_break_ties_randomly(m, sr), n); }
            auto it = std::find(arg.begin(), arg.end(), g);
            if (g < 0 || it == arg.end()) { c.violate("P28", "not a maximum", cat("key ", g, " was chosen as the best of ", d)); return; }
            if (q < N && arg.size() > 1) { pit.id.add(((it - arg.begin()) + acc().aux()) / arg.size()); cnt[g]++; }
            c.saw(mix(hstr(d), g));
        }
        if (arg.size() > 1) for (int g : arg) { double z; if (off(cnt[g], N, 1.0 / arg.size(), z)) c.violate("P28", "ties not uniform", cat("key ", g, " won ", cnt[g], " of ", N, " ties among ", arg.size(), " keys: ", d)); }
    }
    // long sequences of draws, tiny weights among them
    static std::vector<double> deep_weights(Rng& r, int n) {
        std::vector<double> w(n); for (double& x : w) x = r.r(0.2, 1);
        if (n > 1 && r.b(0.7)) { double t = 0; for (double x : w) t += x; int j = r.i(0, n - 1); t -= w[j]; w[j] = t * r.pick({1e-2, 1e-3, 4e-4}); if (r.b(0.3)) w[(j + 1) % n] = 0; if (n > 3 && r.b(0.3)) w[(j + 2) % n] = t * 300; }
        return w;
    }
    template <class T, class F> static void deep_draws(Ctx& c, const char* prop, const std::vector<double>& w, long N, const std::string& what, F draw) {
        Deep d(w); bool ok = true; int n = (int)w.size(); std::unordered_map<T,int> id; for (int k = 0; k < n; k++) id[mk_key<T>(k)] = k;
        for (long q = 0; q < N && ok; q++) { auto it = id.find(draw()); if (it == id.end()) { c.violate(prop, "foreign key", cat(what, " returned a key it does not have")); ok = false; } else d.add(it->second); }
        c.eval(N); c.count("long_sequence_draws", N); c.saw(hstr(cat(what, N, w[0])));
        std::string v = ok ? d.verdict() : ""; if (!v.empty()) c.violate(prop, cat("frequency in a long sequence|", what), cat(what, ": ", v));
    }
    template <class T> static void p28_deep(Ctx& c, Rng& r) {
        int n = r.pick({2, 2, 3, 5}); auto w = deep_weights(r, n); bool norm = r.b(); double t = 0; for (double x : w) t += x; if (norm) for (double& x : w) x /= t;
        std::unordered_map<T,double> m; for (int k = 0; k < n; k++) m[mk_key<T>(k)] = w[k]; RandManager rm(r.i(1, 1 << 30));
        deep_draws<T>(c, "P28", w, 150000, "sampling from weights", [&] { return helper::sample_from_distribution(m, rm, norm); });
        int ties = r.pick({2, 3, 4, 9, 18, 34, 70}); std::unordered_map<T,double> v; for (int k = 0; k < ties; k++) v[mk_key<T>(k)] = 1.5; v[mk_key<T>(ties)] = 1.0;
        std::vector<double> e(ties + 1, 1.0); e[ties] = 0;
        deep_draws<T>(c, "P28", e, 40000, "breaking ties", [&] { return helper::get_max_key_break_ties_randomly(v, rm); });
    }
    static void p28(Ctx& c) {
        c.rule = "random weights (zero, tiny, huge, equal, lattice) and scripted draws incl. every boundary, plus frequencies of real draws; arg-max over values incl. infinities; distinct by (weights, draw) or (values, choice)";
        static Pit3 s, t; int n = c.n(1500, 20000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k));
            switch (k % 5) {
                case 0: p28_sample<int>(c, r, k, s); break; case 1: p28_sample<std::string>(c, r, k, s); break; case 2: p28_sample<std::shared_ptr<const Action>>(c, r, k, s); break;
                case 3: p28_max<int, double>(c, r, k, t); p28_max<std::string, int>(c, r, k + 1, t); break; default: p28_max<std::shared_ptr<const Action>, double>(c, r, k, t); break;
            }
        }
        for (long k = 0, m = c.n(8, 100); k < m; k++) { if (c.skip_case(500000 + k)) continue; Rng r(mix(c.seed, 900000 + k)); if (k % 3 == 0) p28_deep<int>(c, r); else if (k % 3 == 1) p28_deep<std::string>(c, r); else p28_deep<std::shared_ptr<const Action>>(c, r); }
        stat("P28", "sampled keys", s); stat("P28", "keys chosen among ties", t);
    }
    static Reg r28("P28", p28);

    // ---- P29 ---------------------------------------------------------------------------------------------------
    template <class T> static void check_draws(Ctx& c, Distribution<T>& d, const std::map<int,double>& w, RandManager& rm, int N, int nmax, const std::string& hist, const char* kind, Pit3& pit) {
        double tot = 0; for (auto& x : w) tot += x.second;
        std::map<int,long> cnt;
        for (int q = 0; q < N; q++) {
            T got = d.sample(rm); int g = key_id<T>(got, nmax); c.eval();
            auto it = w.find(g);
            if (g < 0 || it == w.end()) { c.violate("P29", cat("foreign key|", kind), cat(kind, " returned key ", g, ", which it does not have, after ", hist)); return; }
            if (!(it->second > 0)) { c.violate("P29", cat("key of zero weight|", kind), cat(kind, " returned key ", g, " of weight zero after ", hist)); return; }
            cnt[g]++;
            double lo = 0, lo2 = 0; for (auto& x : w) { if (x.first < g) lo += x.second / tot; if (x.second < it->second || (x.second == it->second && x.first < g)) lo2 += x.second / tot; }
            double u = acc().aux(); pit.id.add(lo + u * it->second / tot); pit.prob.add(lo2 + u * it->second / tot);
            double lo3 = 0; for (auto& x : w) { long cj = cnt.count(x.first) ? cnt[x.first] : 0, cg = cnt[g] - 1; if (x.first != g && (cj < cg || (cj == cg && x.first < g))) lo3 += x.second / tot; }
            pit.cnt.add(lo3 + u * it->second / tot);
        }
        for (auto& x : w) { double z; if (off(cnt[x.first], N, x.second / tot, z)) c.violate("P29", cat("frequency|", kind), cat(kind, ": key ", x.first, " was drawn ", cnt[x.first], " times of ", N, ", expected share ", x.second / tot, " after ", hist)); }
    }
    template <class T> static void p29_case(Ctx& c, Rng& r, long k, Pit3& pit) {
        int nmax = 40, n = r.pick({1, 2, 3, 6, 10}); bool alias = r.b(0.7); int freq = alias ? r.pick({1, 1, 2, 3, 7}) : 1;
        bool ext = r.b(0.2);   // weights at extreme scales
        auto weight = [&] { double x = r.b(0.2) ? 0.0 : r.b(0.2) ? 1.0 : r.r(0.01, 3); return ext ? x * 1e-6 : x; };
        std::map<int,double> w; while ((int)w.size() < n) w[r.i(0, nmax - 1)] = weight();
        auto total = [&] { double t = 0; for (auto& x : w) t += x.second; return t; };
        if (total() <= 0) w.begin()->second = 1.0;
        auto m = std::make_shared<std::unordered_map<T,double>>(); for (auto& x : w) (*m)[mk_key<T>(x.first)] = x.second;
        const char* kind = alias ? "categorical distribution with alias table" : "categorical distribution";
        std::string hist = cat("construction with ", n, " keys, refresh every ", freq);
        RandManager rm((int)(r.next() % 2000000000) + 1);
        std::unique_ptr<Distribution<T>> holder(new CategoricalDistribution<T>(m, alias, freq)); auto& d = static_cast<CategoricalDistribution<T>&>(*holder);
        std::map<int,double> snap = w; int pending = 0;
        check_draws<T>(c, d, w, rm, 120, nmax, hist, kind, pit);
        int steps = r.i(1, 8);
        for (int q = 0; q < steps; q++) {
            if (r.b(0.7)) {
                int key = r.b(0.7) ? std::next(w.begin(), r.i(0, (int)w.size() - 1))->first : r.i(0, nmax - 1); double x = weight();
                bool isnew = !w.count(key); w[key] = x; if (total() <= 0) w[key] = x = 1.0;
                d.update(mk_key<T>(key), x); pending++; hist += cat(isnew ? "; add " : "; set ", key, " to ", x); c.count(isnew ? "keys_added" : "weights_changed");
                if (!alias || pending % freq == 0) { snap = w; pending = 0; }
            } else {
                w.clear(); int m2 = r.pick({1, 2, 4, 9, 14}); while ((int)w.size() < m2) w[r.i(0, nmax - 1)] = weight(); if (total() <= 0) w.begin()->second = 1.0;
                auto nm = std::make_shared<std::unordered_map<T,double>>(); for (auto& x : w) (*nm)[mk_key<T>(x.first)] = x.second;
                d.update(nm); snap = w; pending = 0; hist += cat("; replace by ", m2, " keys"); c.count("replacements");
            }
            if (snap == w) { check_draws<T>(c, d, w, rm, 120, nmax, hist, kind, pit); c.count("fresh_states_drawn_from"); }
            else for (int z = 0; z < 20; z++) {   // between refreshes: either the last refreshed weights or newer ones
                int g = key_id<T>(d.sample(rm), nmax); c.eval(); c.count("draws_between_refreshes");
                if (g < 0 || (!snap.count(g) && !w.count(g))) { c.violate("P29", cat("foreign key|", kind), cat("between refreshes ", kind, " returned key ", g, " after ", hist)); break; }
            }
            c.saw(hstr(hist));
        }
        if (k < 3) c.sample(hist);
        // discrete uniform and mixtures
        { auto keys = std::make_shared<std::vector<T>>(); std::map<int,double> u; int mm = r.i(1, 9); while ((int)u.size() < mm) u[r.i(0, nmax - 1)] = 1; for (auto& x : u) keys->push_back(mk_key<T>(x.first));
          DiscreteUniformDistribution<T> du(keys); check_draws<T>(c, du, u, rm, 120, nmax, cat("uniform over ", mm), "discrete uniform", pit); c.saw(hstr(cat("u", mm, k)));
          auto mix_m = std::make_shared<MixedDistributionDistr<T>>(); std::map<int,double> exp; int parts = r.i(1, 4); std::vector<double> pw(parts); double ps = 0; for (double& x : pw) { x = r.b(0.15) ? 0.0 : r.r(0.05, 1); ps += x; } if (ps <= 0) { pw[0] = 1; ps = 1; }
          for (int p = 0; p < parts; p++) {
              std::map<int,double> pd; int cnt = r.i(1, 5); bool un = r.b(); while ((int)pd.size() < cnt) pd[r.i(0, nmax - 1)] = un ? 1.0 : r.r(0.1, 2); double t = 0; for (auto& x : pd) t += x.second;
              for (auto& x : pd) exp[x.first] += pw[p] / ps * x.second / t;
              std::shared_ptr<Distribution<T>> sub;
              if (un) { auto kv = std::make_shared<std::vector<T>>(); for (auto& x : pd) kv->push_back(mk_key<T>(x.first)); sub = std::make_shared<DiscreteUniformDistribution<T>>(kv); }
              else { auto sm = std::make_shared<std::unordered_map<T,double>>(); for (auto& x : pd) (*sm)[mk_key<T>(x.first)] = x.second; sub = std::make_shared<CategoricalDistribution<T>>(sm, r.b()); }
              (*mix_m)[sub] = pw[p] / ps;
          }
          MixedDistribution<T> md(mix_m); check_draws<T>(c, md, exp, rm, 120, nmax, cat("mixture of ", parts), "mixture", pit); }
    }
    template <class T> static void p29_deep(Ctx& c, Rng& r) {
        RandManager rm(r.i(1, 1 << 30)); int n = r.pick({2, 2, 3, 5, 9}); auto w = deep_weights(r, n); long N = 120000;
        auto table = [&](const std::vector<double>& x) { auto m = std::make_shared<std::unordered_map<T,double>>(); for (size_t k = 0; k < x.size(); k++) (*m)[mk_key<T>((int)k)] = x[k]; return m; };
        for (bool alias : {false, true}) { CategoricalDistribution<T> d(table(w), alias, r.pick({1, 3})); deep_draws<T>(c, "P29", w, N, alias ? "categorical distribution with alias table" : "categorical distribution", [&] { return d.sample(rm); }); }
        { auto keys = std::make_shared<std::vector<T>>(); for (int k = 0; k < n; k++) keys->push_back(mk_key<T>(k)); DiscreteUniformDistribution<T> d(keys); deep_draws<T>(c, "P29", std::vector<double>(n, 1.0), N, "discrete uniform", [&] { return d.sample(rm); }); }
        // a mixture whose components have their own key each (every component is then visible) or overlap
        auto mixd = std::make_shared<MixedDistributionDistr<T>>(); double t = 0; for (double x : w) t += x; std::vector<double> exp(n);
        std::vector<std::shared_ptr<CategoricalDistribution<T>>> parts;
        for (int k = 0; k < n; k++) { std::vector<double> x(n); x[k] = 1; if (r.b(0.3)) x[(k + 1) % n] = 0.5; double s = 0; for (double y : x) s += y; for (int j = 0; j < n; j++) exp[j] += w[k] / t * x[j] / s; parts.push_back(std::make_shared<CategoricalDistribution<T>>(table(x), r.b())); (*mixd)[parts.back()] = w[k] / t; }
        MixedDistribution<T> md(mixd); deep_draws<T>(c, "P29", exp, N, "mixture", [&] { return md.sample(rm); });
    }
    static void p29(Ctx& c) {
        c.rule = "random histories of changing, adding and replacing weights; draws compared with the current weights in every refreshed state; distinct by history";
        static Pit3 pit; int n = c.n(500, 8000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k));
            if (k % 3 == 0) p29_case<int>(c, r, k, pit); else if (k % 3 == 1) p29_case<std::string>(c, r, k, pit); else p29_case<std::shared_ptr<const Action>>(c, r, k, pit);
        }
        for (long k = 0, m = c.n(8, 100); k < m; k++) { if (c.skip_case(500000 + k)) continue; Rng r(mix(c.seed, 900000 + k)); if (k % 3 == 0) p29_deep<int>(c, r); else if (k % 3 == 1) p29_deep<std::string>(c, r); else p29_deep<std::shared_ptr<const Action>>(c, r); }
        stat("P29", "keys drawn", pit);
    }
    static Reg r29("P29", p29);

    // ---- P30 ---------------------------------------------------------------------------------------------------
    // Puts a Mersenne twister into a state whose next outputs are the given words.
    static uint32_t untemper(uint32_t y) {
        auto un_r = [](uint32_t v, int s) { uint32_t x = v; for (int k = 0; k < 32; k++) x = v ^ (x >> s); return x; };
        auto un_l = [](uint32_t v, int s, uint32_t m) { uint32_t x = v; for (int k = 0; k < 32; k++) x = v ^ ((x << s) & m); return x; };
        y = un_r(y, 18); y = un_l(y, 15, 0xefc60000u); y = un_l(y, 7, 0x9d2c5680u); return un_r(y, 11);
    }
    static std::mt19937 forced(const std::vector<uint32_t>& words) {
        // only the first outputs: with an engine stuck for ever a correct rejection method would never end
        std::stringstream ss; std::mt19937 rest(77); for (int k = 0; k < 624; k++) ss << untemper(k < 48 ? words[k % words.size()] : (uint32_t)rest()) << ' ';
        ss << 0; std::mt19937 g; ss >> g; return g;
    }
    template <class R> static bool force_engines(R& r, const std::vector<uint32_t>& w) {
        if constexpr (requires { r.int_gen = std::mt19937(); r.real_gen = std::mt19937(); }) { r.int_gen = forced(w); r.real_gen = forced(w); return true; }
        else return false;
    }
    static void p30(Ctx& c) {
        c.rule = "integer draws over random ranges, real draws, equal and different seeds, repeated seeded single-threaded searches of all algorithms; distinct by (range) or (tree)";
        static Pit3 pi, pr, lag; int n = c.n(400, 5000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); int seed = r.b(0.05) ? 0 : r.pick({(int)(r.next() & 0x7fffffff) | 1, r.i(1, 50), -r.i(1, 50)});
            static std::set<int> used; bool fresh = seed == 0 || used.insert(seed).second;      // a stream is pooled once only
            RandManager a(seed), b(seed);
            int len = r.pick({1, 2, 3, 5, 10, 17, 100}), lo = r.pick({0, 0, -3, 7, -1000000, 2000000000}); std::vector<long> hit(len); int N = 60 * len + 400;
            for (int q = 0; q < N; q++) {
                int x = a.get_rand_int(lo, lo + len); c.eval();
                if (x < lo || x >= lo + len) { c.violate("P30", "integer out of range", cat("a draw from [", lo, ",", lo + len, ") gave ", x)); break; }
                hit[x - lo]++; if (fresh) pi.id.add((x - lo + acc().aux()) / len);
                if (seed != 0 && b.get_rand_int(lo, lo + len) != x) { c.violate("P30", "seed", cat("two generators with seed ", seed, " differ at integer draw ", q)); break; }
            }
            for (int q = 0; q < len; q++) { double z; if (hit[q] == 0 || off(hit[q], N, 1.0 / len, z)) c.violate("P30", "integer draws not uniform", cat("value ", lo + q, " of [", lo, ",", lo + len, ") was drawn ", hit[q], " of ", N, " times")); }
            double prev = 0;
            for (int q = 0; q < 400; q++) {
                double u = a.get_rand_uniform(); c.eval();
                if (!(u >= 0.0 && u < 1.0)) { c.violate("P30", "real out of range", cat("a real draw gave ", u)); break; }
                if (fresh) { pr.id.add(u); double s = prev + u; pr.prob.add(s - std::floor(s)); double m = u * 1024; pr.cnt.add(m - std::floor(m)); prev = u; }
                if (seed != 0 && b.get_rand_uniform() != u) { c.violate("P30", "seed", cat("two generators with seed ", seed, " differ at real draw ", q)); break; }
            }
            c.saw(mix(hstr(cat(lo, " ", len)), seed)); c.count("generators");
        }
        stat("P30", "integer draws", pi); stat("P30", "real draws", pr);
        // the rarest outputs of the engine, forced
        { std::mt19937 t = forced({0u, 0xffffffffu, 0x80000000u, 1u}); if (t() != 0u || t() != 0xffffffffu || t() != 0x80000000u || t() != 1u) { std::cerr << "HARNESS engine forcing does not work"; exit(3); } }
        for (auto& w : std::vector<std::vector<uint32_t>>{{0xffffffffu}, {0u}, {0x7fffffffu, 0x80000000u}, {0xffffffffu, 0u}, {0u, 0xffffffffu}, {0xfffffffeu, 0xffffffffu, 1u}, {0xffffffffu, 0xfffff800u}, {0xffffffffu, 0xfffffc00u, 0x800u}})
            for (int len : {1, 2, 3, 7, 16, 1000, 1 << 20, 2000000000, INT_MAX}) for (int lo : {0, -1, -1000000, 1000000}) {
                if ((long)lo + len > INT_MAX) continue;
                RandManager a(5); if (!force_engines(a, w)) { c.notes.push_back("the engines are not reachable: rare outputs not forced"); break; }
                for (int q = 0; q < 12; q++) {
                    int x = a.get_rand_int(lo, lo + len); double u = a.get_rand_uniform(); c.eval(2); c.count("forced_draws", 2);
                    if (x < lo || x >= lo + len) c.violate("P30", "integer out of range", cat("a draw from [", lo, ",", lo + len, ") gave ", x, " at an extreme output of the engine"));
                    if (!(u >= 0.0 && u < 1.0)) c.violate("P30", "real out of range", cat("a real draw gave ", u, " at an extreme output of the engine"));
                }
            }
        // seeds matter
        { std::set<std::string> seen_i, seen_r; std::set<int> seeds; for (int s = -20; s <= 40; s++) seeds.insert(s); for (int b = 0; b < 31; b++) for (int base : {1, 12345, 0x7fffffff}) { seeds.insert(base ^ (1 << b)); seeds.insert(-(base ^ (1 << b))); } seeds.insert(INT_MIN); seeds.insert(INT_MAX);
          for (int s : seeds) { RandManager x(s); std::string t, u; for (int q = 0; q < 12; q++) t += cat(x.get_rand_int(0, 1000000), " "); for (int q = 0; q < 6; q++) u += cat(x.get_rand_uniform(), " "); seen_i.insert(t); seen_r.insert(u); c.eval(2); }
          if (seen_i.size() != seeds.size() || seen_r.size() != seeds.size()) c.violate("P30", "seeds coincide", cat(seeds.size(), " different seeds gave only ", seen_i.size(), " different streams of integers and ", seen_r.size(), " of reals"));
          std::set<std::string> z; for (int q = 0; q < 8; q++) { RandManager x(0); z.insert(cat(x.get_rand_int(0, 1000000000), x.get_rand_uniform())); } if (z.size() < 2) c.violate("P30", "unseeded generators coincide", "eight unseeded generators gave the same draws"); }
        // the two streams of one generator are usable independently of how they are interleaved by a seeded run
        int m = c.n(120, 1500); long same_seed_diff = 0, distinct_trees = 0;
        for (long k = 0; k < m; k++) {
            if (c.skip_case(100000 + k)) continue;
            Rng r(mix(c.seed, 700000 + k)); Alg al = (Alg)(k % NALG); GenOpts g; g.max_states = r.pick({6, 10, 14}); g.max_actions = 4; g.ties = r.b(0.2);
            AlgCfg cfg = gen_cfg(r, al, CfgOpts()); Spec sp = gen_spec(r, g); int calls = r.i(1, 3); std::vector<int> t; for (int q = 0; q < calls; q++) t.push_back(r.i(20, 120));
            auto run = [&](int seed, int split) {
                AlgCfg c2 = cfg; c2.seed = seed; World w(sp, c2, false); std::string s; 
                { ThtsPool pool(w.mgr, w.root, 1); 
                  if (split) { for (int x : t) pool.run_trials(x); } else { int tot = 0; for (int x : t) tot += x; pool.run_trials(tot); } }
                s = tree_dump(*w.mon.op, *w.mon.spec, w.root);
                auto ctx = w.env->ThtsEnv::sample_context_itfc(w.root->state); if (!sp.acts[sp.init].empty()) s += cat("rec ", action_id(sp, *w.root->recommend_action_itfc(*ctx)));
                return s;
            };
            if (k % 5 == 4) cfg.seed = -cfg.seed; else if (k % 5 == 3) cfg.seed = INT_MAX - cfg.seed;
            int other = r.b() ? cfg.seed - 1 : cfg.seed ^ (1 << r.i(16, 29)); if (!other) other = 77;
            std::string a = run(cfg.seed, 1), b = run(cfg.seed, 1), d = run(cfg.seed, 0), e = run(other, 1); c.eval(4);
            if (a != b) c.violate("P30", "search not reproducible", cat("two runs with seed ", cfg.seed, " built different trees: ", alg_name[al], " ", cfg.desc(), " | ", sp.desc()));
            if (a != d) c.violate("P30", "search depends on how calls are split", cat("the same trials in one call or several built different trees with seed ", cfg.seed, ": ", alg_name[al], " ", cfg.desc(), " | ", sp.desc()));
            if (a != e) distinct_trees++; else same_seed_diff++;
            c.saw(hstr(a)); c.count("reproduced_searches");
        }
        c.notes.push_back(cat("different seeds built different trees in ", distinct_trees, " of ", distinct_trees + same_seed_diff, " searches"));
        if (distinct_trees + same_seed_diff >= 40 && distinct_trees * 3 < (distinct_trees + same_seed_diff)) c.violate("P30", "seed has no effect", cat("different seeds built the same tree in ", same_seed_diff, " of ", distinct_trees + same_seed_diff, " searches"));
    }
    static Reg r30("P30", p30);
    // one generator shared by many threads
    static void p30t(Ctx& c) {
        c.rule = "one generator used by 2-8 threads at once, ranges and frequencies checked; distinct by (threads, draws)";
        static Pit3 pi, pr; int n = c.n(12, 100);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); RandManager rm(r.i(1, 1 << 30)); int T = r.i(2, 8), N = 1500, len = r.pick({3, 10, 64}); std::vector<std::thread> ts; std::mutex mu; std::atomic<bool> bad{false}; std::vector<long> hit(len);
            for (int t = 0; t < T; t++) ts.emplace_back([&] { std::vector<int> xs; std::vector<double> us; for (int q = 0; q < N; q++) { xs.push_back(rm.get_rand_int(0, len)); us.push_back(rm.get_rand_uniform()); }
                std::lock_guard<std::mutex> g(mu); for (int x : xs) if (x < 0 || x >= len) bad = true; else hit[x]++; for (double u : us) if (!(u >= 0 && u < 1)) bad = true; else pr.id.add(u); });
            for (auto& t : ts) t.join();
            c.eval(2L * T * N); c.saw(mix(mix(T, len), k));
            if (bad) c.violate("P30", "concurrent draw out of range", cat("a draw by one of ", T, " threads was out of range"));
            // the draws of all threads together are the stream of the generator
            for (int q = 0; q < len; q++) { double z; if (off(hit[q], (long)T * N, 1.0 / len, z)) c.violate("P30", "concurrent draws not uniform", cat("value ", q, " drawn ", hit[q], " of ", T * N)); }
        }
        stat("P30", "concurrent real draws", pr);
    }
    static Reg r30t("P30:threads", p30t);

    // ---- P33 ---------------------------------------------------------------------------------------------------
    struct Val { int kind; int x[3]; std::string s; bool operator==(const Val& o) const { return kind == o.kind && x[0] == o.x[0] && x[1] == o.x[1] && x[2] == o.x[2] && s == o.s; } };
    static int edgy(Rng& r) { return r.pick({0, 1, -1, 2, 3, -2, 7, INT_MAX, INT_MIN, r.i(-5, 5), r.i(-100000, 100000)}); }
    static Val gen_val(Rng& r, bool state) {
        Val v; v.x[0] = v.x[1] = v.x[2] = 0; v.kind = state ? r.i(0, 2) : r.i(3, 4);
        if (v.kind == 4) { int l = r.pick({0, 1, 1, 2, 5, 40}); for (int k = 0; k < l; k++) v.s += (char)r.pick({'a', 'b', '1', ' ', '\0', ',', (char)0xff}); if (r.b(0.2)) v.s = cat(r.i(-3, 3)); return v; }
        int n = v.kind == 0 || v.kind == 3 ? 1 : v.kind == 1 ? 2 : 3; for (int k = 0; k < n; k++) v.x[k] = r.b(0.6) ? r.i(-2, 2) : edgy(r);
        return v;
    }
    static std::shared_ptr<const State> state_of(const Val& v) {
        if (v.kind == 0) return std::make_shared<const IntState>(v.x[0]);
        if (v.kind == 1) return std::make_shared<const IntPairState>(v.x[0], v.x[1]);
        return std::make_shared<const Int3TupleState>(v.x[0], v.x[1], v.x[2]);
    }
    static std::shared_ptr<const Action> action_of(const Val& v) { if (v.kind == 3) return std::make_shared<const IntAction>(v.x[0]); return std::make_shared<const StringAction>(v.s); }
    static std::string print_of(const Val& v) {
        switch (v.kind) { case 0: return cat("(", v.x[0], ")"); case 1: return cat("(", v.x[0], ",", v.x[1], ")"); case 2: return cat("(", v.x[0], ",", v.x[1], ",", v.x[2], ")"); case 3: return cat(v.x[0]); default: return v.s; }
    }
    template <class X> static std::string shown(const X& x) { std::ostringstream o; o << x; return o.str(); }
    template <class B> static void p33_pair(Ctx& c, const Val& a, const Val& b, std::shared_ptr<const B> pa, std::shared_ptr<const B> pb, std::shared_ptr<const B> pa2) {
        bool eq = a == b; std::string d = cat(a.kind, ":", print_of(a), " and ", b.kind, ":", print_of(b)); c.eval();
        auto bad = [&](const char* key, const std::string& t) { c.violate("P33", key, cat(t, ": ", d)); };
        bool forms[] = {pa->equals_itfc(*pb), pb->equals_itfc(*pa), *pa == *pb, *pb == *pa, std::equal_to<B>()(*pa, *pb), std::equal_to<std::shared_ptr<const B>>()(pa, pb), std::operator==(pa, pb), std::operator==(pb, pa)};
        for (bool f : forms) if (f != eq) { bad("equality", eq ? "equal contents compare unequal" : "different contents or types compare equal"); break; }
        if (!pa->equals_itfc(*pa) || !pa->equals_itfc(*pa2) || !pa2->equals_itfc(*pa)) bad("reflexivity", "a value differs from itself or its copy");
        size_t h = pa->hash();
        if (h != pa2->hash() || h != pa->hash() || std::hash<B>()(*pa) != h || std::hash<std::shared_ptr<const B>>()(pa) != h || std::hash<std::shared_ptr<const B>>()(pa2) != h) bad("hash", "equal values hash differently");
        if (eq && pb->hash() != h) bad("hash", "equal values hash differently");
        if (pa->get_pretty_print_string() != print_of(a) || pa2->get_pretty_print_string() != print_of(a) || shown(*pa) != print_of(a) || shown(pa) != print_of(a)) bad("printing", cat("printed as '", pa->get_pretty_print_string(), "'"));
        std::unordered_map<std::shared_ptr<const B>, int> m; m[pa] = 1; m[pb] = 2;
        if (m.size() != (eq ? 1u : 2u) || m[pa2] != (eq ? 2 : 1) || m.count(pb) != 1) bad("use as a key", "keys through shared pointers do not follow equality");
    }
    // a user's own types with a constant hash, and the library's types wherever their hashes coincide: equality decides, not the hash
    template <class B> struct OwnT : public B {
        int id; OwnT(int id) : id(id) {}
        size_t hash() const override { return 11; }
        bool equals_itfc(const std::conditional_t<std::is_base_of_v<Observation, B>, Observation, B>& o) const override { auto* p = dynamic_cast<const OwnT*>(&o); return p && p->id == id; }
        std::string get_pretty_print_string() const override { return cat("o", id); }
    };
    template <class B> static void p33_collide(Ctx& c, std::shared_ptr<const B> a, std::shared_ptr<const B> b, std::shared_ptr<const B> a2, const std::string& d) {
        c.eval(); c.count("colliding_pairs");
        bool forms[] = {a->equals_itfc(*b), *a == *b, *b == *a, std::equal_to<B>()(*a, *b), std::equal_to<std::shared_ptr<const B>>()(a, b), std::operator==(a, b), std::operator==(b, a)};
        for (bool f : forms) if (f) { c.violate("P33", "equality under equal hashes", cat("values of equal hash and different contents compare equal: ", d)); return; }
        if (!std::operator==(a, a2) || !std::equal_to<B>()(*a, *a2) || !std::equal_to<std::shared_ptr<const B>>()(a, a2) || !(*a == *a2)) c.violate("P33", "equality of own types", cat("a value differs from its copy: ", d));
        std::unordered_map<std::shared_ptr<const B>, int> m; m[a] = 1; m[b] = 2; m[a2] += 10;
        if (m.size() != 2 || m[a] != 11 || m[b] != 2) c.violate("P33", "use as a key under equal hashes", cat("keys of equal hash are confused: ", d));
        if constexpr (std::is_same_v<B, Observation>) {
            DNodeIdTuple x(4, a), y(4, b), x2(4, a2), z(5, a); std::unordered_map<DNodeIdTuple, int> t; t[x] = 1; t[y] = 2; t[z] = 3; t[x2] += 10;
            if (std::equal_to<DNodeIdTuple>()(x, y) || !std::equal_to<DNodeIdTuple>()(x, x2) || std::equal_to<DNodeIdTuple>()(x, z) || t.size() != 3 || t[x] != 11) c.violate("P33", "table keys under equal hashes", cat("table keys of equal hash are confused: ", d));
        }
    }
    static void p33_collisions(Ctx& c) {
        for (int a = 0; a < 6; a++) for (int b = 0; b < 6; b++) if (a != b) {
            std::string d = cat("own ", a, " and ", b);
            p33_collide<State>(c, std::make_shared<const OwnT<State>>(a), std::make_shared<const OwnT<State>>(b), std::make_shared<const OwnT<State>>(a), d);
            p33_collide<Observation>(c, std::make_shared<const OwnT<Observation>>(a), std::make_shared<const OwnT<Observation>>(b), std::make_shared<const OwnT<Observation>>(a), d);
            p33_collide<Observation>(c, std::make_shared<const OwnT<State>>(a), std::make_shared<const OwnT<State>>(b), std::make_shared<const OwnT<State>>(a), d);
            p33_collide<Action>(c, std::make_shared<const OwnT<Action>>(a), std::make_shared<const OwnT<Action>>(b), std::make_shared<const OwnT<Action>>(a), d);
        }
        // the library's own types: pairs, triples and numbers that happen to share a hash
        std::unordered_map<size_t, Val> first; long found = 0;
        auto add = [&](const Val& v) {
            auto p = state_of(v); auto it = first.find(p->hash()); if (it == first.end()) { first[p->hash()] = v; return; }
            if (it->second == v || found > 4000) return; found++; std::string d = cat(print_of(it->second), " and ", print_of(v));
            p33_collide<State>(c, state_of(it->second), p, state_of(it->second), d); p33_collide<Observation>(c, state_of(it->second), p, state_of(it->second), d);
        };
        for (int a = -40; a <= 40; a++) for (int b = -40; b <= 40; b++) add(Val{1, {a, b, 0}, ""});
        for (int a = -9; a <= 9; a++) for (int b = -9; b <= 9; b++) for (int e = -9; e <= 9; e++) add(Val{2, {a, b, e}, ""});
        for (int a = -1000; a <= 1000; a++) add(Val{0, {a, 0, 0}, ""});
        c.count("library_values_sharing_a_hash", found);
    }
    static void p33(Ctx& c) {
        p33_collisions(c);
        c.rule = "pairs and triples of values incl. extreme integers and odd strings, all comparison, hash, printing and keying forms; grids of contents for collisions; distinct by (value, value)";
        int n = c.n(6000, 80000);
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); bool st = r.b();
            Val a = gen_val(r, st), b = r.b(0.3) ? a : gen_val(r, st); if (r.b(0.3)) { b = a; if (b.kind == 4) b.s += r.b() ? "x" : std::string(1, '\0'); else b.x[r.i(0, b.kind == 2 ? 2 : b.kind == 1 ? 1 : 0)] ^= 1 << r.i(0, 30); }
            if (r.b(0.15) && (a.kind == 1 || a.kind == 2)) { b = a; std::swap(b.x[0], b.x[1]); }
            if (st) p33_pair<State>(c, a, b, state_of(a), state_of(b), state_of(a));
            else p33_pair<Action>(c, a, b, action_of(a), action_of(b), action_of(a));
            if (st) { std::shared_ptr<const Observation> oa = state_of(a), ob = state_of(b), oa2 = state_of(a); p33_pair<Observation>(c, a, b, oa, ob, oa2);
                if (oa->hash() != state_of(a)->hash()) c.violate("P33", "hash", "a state hashes differently as an observation");
                // table keys: step and observation
                int t1 = r.i(-2, 5), t2 = r.b(0.7) ? t1 : r.i(-2, 5); DNodeIdTuple x(t1, oa), y(t2, ob), x2(t1, oa2); bool eq = t1 == t2 && a == b; c.eval();
                if (std::equal_to<DNodeIdTuple>()(x, y) != eq || !std::equal_to<DNodeIdTuple>()(x, x2) || std::hash<DNodeIdTuple>()(x) != std::hash<DNodeIdTuple>()(x2)) c.violate("P33", "table keys", cat("keys (", t1, ",", print_of(a), ") and (", t2, ",", print_of(b), ") compare or hash wrongly"));
                if (shown(x).find(print_of(a)) == std::string::npos || shown(x).find(cat(t1)) == std::string::npos) c.violate("P33", "printing", cat("a table key prints as ", shown(x)));
            }
            c.saw(mix(hstr(cat(a.kind, print_of(a))), hstr(cat(b.kind, print_of(b)))));
            if (k < 3) c.sample(cat(print_of(a), " vs ", print_of(b)));
        }
        // direct overloads of the concrete types
        { IntState a(3); IntPairState b(3, -4); Int3TupleState d(1, 2, 3); IntAction e(9); StringAction f("go"); 
          auto pa = std::make_shared<const IntState>(3); auto pb = std::make_shared<const IntPairState>(3, -4); auto pd = std::make_shared<const Int3TupleState>(1, 2, 3); auto pe = std::make_shared<const IntAction>(9); auto pf = std::make_shared<const StringAction>("go");
          std::ostringstream o; o << a << b << d << e << pa << pb << pd << pe << pf; c.eval();
          if (o.str() != "(3)(3,-4)(1,2,3)9(3)(3,-4)(1,2,3)9go") c.violate("P33", "printing", cat("concrete types print as ", o.str()));
          std::ostream& (*op)(std::ostream&, const StringAction&) = &std::operator<<;
          if (!op) c.violate("P33", "missing stream operator", "the declared stream operator of StringAction has no definition");
          else { std::ostringstream q; op(q, f); if (q.str() != "go") c.violate("P33", "printing", cat("a string action prints as ", q.str())); } 
          ActionVector av{std::make_shared<const IntAction>(1), std::make_shared<const StringAction>("b")}; if (shown(av) != "[1,b]") c.violate("P33", "printing", cat("a list of actions prints as ", shown(av)));
          StringActionVector sv{pf, pf}; { std::ostringstream q; std::operator<<(q, sv); if (q.str() != "[go,go]") c.violate("P33", "printing", cat("a list of actions prints as ", q.str())); }
          StateDistr sd; sd[std::make_shared<const IntState>(1)] = 0.25; if (shown(sd) != "{(1):0.25}") c.violate("P33", "printing", cat("a distribution prints as ", shown(sd)));
          std::vector<int> none; if (helper::vector_pretty_print_string(none) != "[]" || helper::vector_pretty_print_string(std::vector<int>{1, 2, 3}) != "[1,2,3]") c.violate("P33", "printing", "a list of numbers prints wrongly");
          std::unordered_map<int,double> um; if (helper::unordered_map_pretty_print_string(um) != "{}") c.violate("P33", "printing", "an empty map prints wrongly"); um[4] = 0.5; if (helper::unordered_map_pretty_print_string(um, "->") != "{4->0.5}") c.violate("P33", "printing", "a map prints wrongly"); }
        // collisions over grids: chance collisions of 64-bit hashes are practically absent; a structured hash may have a few
        { std::unordered_map<size_t,int> h2, h3, ht; long n2 = 0, n3 = 0, nt = 0, sym2 = 0, sym_n = 0;
          for (int a = -20; a <= 20; a++) for (int b = -20; b <= 20; b++) { n2++; h2[IntPairState(a, b).hash()]++; if (a < b) { sym_n++; if (IntPairState(a, b).hash() == IntPairState(b, a).hash()) sym2++; } }
          for (int a = -6; a <= 6; a++) for (int b = -6; b <= 6; b++) for (int d = -6; d <= 6; d++) { n3++; h3[Int3TupleState(a, b, d).hash()]++; }
          for (int t = 0; t < 30; t++) for (int a = 0; a < 8; a++) for (int b = 0; b < 8; b++) { nt++; ht[std::hash<DNodeIdTuple>()(DNodeIdTuple(t, std::make_shared<const IntPairState>(a, b)))]++; }
          c.eval(n2 + n3 + nt);
          c.notes.push_back(cat("distinct hashes: pairs ", h2.size(), " of ", n2, ", triples ", h3.size(), " of ", n3, ", table keys ", ht.size(), " of ", nt, ", symmetric pair collisions ", sym2, " of ", sym_n));
          if (h2.size() * 10 < n2 * 6u) c.violate("P33", "collisions", cat("only ", h2.size(), " distinct hashes of ", n2, " integer pairs"));
          if (h3.size() * 10 < n3 * 6u) c.violate("P33", "collisions", cat("only ", h3.size(), " distinct hashes of ", n3, " integer triples"));
          if (ht.size() * 4 < (size_t)nt) c.violate("P33", "collisions", cat("only ", ht.size(), " distinct hashes of ", nt, " table keys"));
          if (sym2 * 10 > sym_n) c.violate("P33", "hash order", cat(sym2, " of ", sym_n, " swapped pairs hash alike"));
          std::unordered_map<size_t,int> hs, hi; for (int k = 0; k < 500; k++) { hs[StringAction(cat("act", k)).hash()]++; hi[IntAction(k - 250).hash()]++; } if (hs.size() < 490 || hi.size() < 490) c.violate("P33", "collisions", "actions collide");
          long oc = 0; for (int a = 0; a < 40; a++) for (int b = 0; b < a; b++) if (helper::hash_combine(helper::hash_combine((size_t)0, a), b) == helper::hash_combine(helper::hash_combine((size_t)0, b), a)) oc++; if (oc > 80) c.violate("P33", "hash order", cat(oc, " of 780 swapped combinations hash alike")); }
        // the base classes refuse
        auto refuses = [&](const std::function<void()>& f, const char* w) { bool t = false; try { f(); } catch (const std::exception&) { t = true; } c.eval(); if (!t) c.violate("P33", "base class", cat("the base class implementation of ", w, " does not refuse")); };
        Observation o, o2; State s, s2; Action a, a2;
        refuses([&] { o.hash(); }, "Observation::hash"); refuses([&] { o.equals_itfc(o2); }, "Observation::equals"); refuses([&] { o.get_pretty_print_string(); }, "Observation printing");
        refuses([&] { s.hash(); }, "State::hash"); refuses([&] { s.equals_itfc(s2); }, "State::equals"); refuses([&] { s.get_pretty_print_string(); }, "State printing");
        refuses([&] { a.hash(); }, "Action::hash"); refuses([&] { a.equals_itfc(a2); }, "Action::equals"); refuses([&] { a.get_pretty_print_string(); }, "Action printing");
    }
    static Reg r33("P33", p33);

    // ---- P34 ---------------------------------------------------------------------------------------------------
    struct PoEnv : MonEnv { PoEnv(const Spec& s, bool fo) : MonEnv(s) { _is_fully_observable = fo; } };
    static void p34(Ctx& c) {
        c.rule = "random histories of storing, reading and erasing against a reference map; default observations of random transitions; distinct by history";
        int n = c.n(2500, 30000);
        static std::atomic<long> alive; struct Obj { int v; explicit Obj(int x) : v(x) { alive++; } ~Obj() { alive--; } };
        for (long k = 0; k < n; k++) {
            if (c.skip_case(k)) continue;
            Rng r(mix(c.seed, k)); long base = alive; std::string hist;
            {
                // two contexts side by side, so that entries cannot wander from one to the other
                struct Model { ThtsEnvContext ctx; std::map<std::string, std::shared_ptr<Obj>> m; std::map<std::string, std::shared_ptr<const Obj>> mc; };
                std::vector<std::unique_ptr<Model>> two; two.push_back(std::make_unique<Model>()); two.push_back(std::make_unique<Model>());
                std::vector<std::string> keys = {"", "a", "b", "A", "ab", "a b", "key", "kez", "reward", "d_0", "d_1", "d_10", "a_rather_long_key_of_a_user", "a_rather_long_key_of_a_user2", std::string("a\0b", 3), std::string(1, '\0'), " a", "a ", "\xc3\xa4", std::string(300, 'x'), std::string(299, 'x') + "y"};
                if (r.b(0.7)) { for (size_t q = keys.size(); q > 1; q--) std::swap(keys[q - 1], keys[r.i(0, (int)q - 1)]); keys.resize(r.i(1, 9)); }
                else if (r.b(0.2)) for (int q = 0; q < 200; q++) keys.push_back(cat("k", q * 7));
                int steps = keys.size() > 50 ? r.i(100, 600) : r.i(3, 40);
                auto verify = [&](const char* after) {
                    for (auto& x : two) for (auto& K : keys) {
                        auto &ctx = x->ctx; auto &m = x->m; auto &mc = x->mc; c.eval();
                        bool ok = true; try { auto p = ctx.get_value_raw(K); ok = m.count(K) && p == std::static_pointer_cast<void>(m[K]); if (ok && m[K] && (ctx.get_value_ptr<Obj>(K) != m[K] || &ctx.get_value<Obj>(K) != m[K].get())) ok = false; } catch (const std::exception&) { ok = !m.count(K); }
                        if (!ok) c.violate("P34", "mutable entry", cat("after ", hist, after, ": key '", K, "' reads wrongly"));
                        ok = true; try { auto p = ctx.get_value_raw_const(K); ok = mc.count(K) && p == std::static_pointer_cast<const void>(mc[K]); if (ok && mc[K] && (ctx.get_value_ptr_const<Obj>(K) != mc[K] || &ctx.get_value_const<Obj>(K) != mc[K].get())) ok = false; } catch (const std::exception&) { ok = !mc.count(K); }
                        if (!ok) c.violate("P34", "constant entry", cat("after ", hist, after, ": constant key '", K, "' reads wrongly"));
                    }
                };
                for (int q = 0; q < steps; q++) {
                    auto& x = *two[r.b(0.3)]; auto &ctx = x.ctx; auto &m = x.m; auto &mc = x.mc;
                    std::string K = keys[r.i(0, (int)keys.size() - 1)], at = &x == two[0].get() ? "" : "other:";
                    switch (r.i(0, 5)) {
                        case 0: { auto o = std::make_shared<Obj>(q); m[K] = o; ctx.put_value(K, o); hist += cat(at, "put ", K, "; "); break; }
                        case 1: { auto o = std::make_shared<Obj>(q); m[K] = o; ctx.put_value_raw(K, o); hist += cat(at, "put ", K, "; "); break; }
                        case 2: { std::shared_ptr<const Obj> o = std::make_shared<const Obj>(q); mc[K] = o; ctx.put_value_const(K, o); hist += cat(at, "putc ", K, "; "); break; }
                        case 3: { std::shared_ptr<const Obj> o = std::make_shared<const Obj>(q); mc[K] = o; ctx.put_value_raw_const(K, o); hist += cat(at, "putc ", K, "; "); break; }
                        case 4: m.erase(K); ctx.erase(K); hist += cat(at, "erase ", K, "; "); break;
                        default: mc.erase(K); ctx.erase_const(K); hist += cat(at, "erasec ", K, "; "); break;
                    }
                    if (r.b(0.3) && keys.size() < 50) verify("");
                    if (r.b(0.02)) { two[1] = std::make_unique<Model>(); hist += "other replaced; "; }
                }
                verify(" (end)");
            }
            c.eval(); if (alive != base) c.violate("P34", "entries outlive the context", cat(alive - base, " objects leaked after ", hist));
            c.saw(hstr(hist)); if (k < 2) c.sample(hist);
            // default observations
            GenOpts g; Spec sp = gen_spec(r, g); PoEnv fo(sp, true), po(sp, false); RandManager rm(r.i(1, 1000));
            int s2 = r.i(0, sp.n - 1); auto act = mk_action(sp, r.i(0, 3)); auto st = mk_state(sp, s2); c.eval(3);
            if (!fo.is_fully_observable() || po.is_fully_observable()) c.violate("P34", "observability", "is_fully_observable is wrong");
            auto d = fo.get_observation_distribution_itfc(act, st);
            if (d->size() != 1 || d->begin()->second != 1.0 || state_id(sp, *d->begin()->first) != s2 || d->begin()->first != std::static_pointer_cast<const Observation>(st)) c.violate("P34", "default observation", "the default observation distribution is not the next state with certainty");
            auto o = fo.sample_observation_distribution_itfc(act, st, rm);
            if (!o || state_id(sp, *o) != s2) c.violate("P34", "default observation", "the default observation is not the next state");
            bool threw = false; try { po.get_observation_distribution_itfc(act, st); } catch (const std::exception&) { threw = true; } if (!threw) c.violate("P34", "missing observation model", "a partially observable problem without a model did not report an error");
            threw = false; try { po.sample_observation_distribution_itfc(act, st, rm); } catch (const std::exception&) { threw = true; } if (!threw) c.violate("P34", "missing observation model", "sampling without a model did not report an error");
            auto cx = fo.ThtsEnv::sample_context_itfc(st), cy = fo.ThtsEnv::sample_context_itfc(st); cx->put_value("k", std::make_shared<int>(1)); threw = false; try { cy->get_value_raw("k"); } catch (const std::exception&) { threw = true; } if (!threw || cx == cy) c.violate("P34", "shared default context", "two trials share a context");
            // nor do trials one after the other: what the last one stored is gone
            cx->put_value_const("k", std::shared_ptr<const int>(std::make_shared<int>(2))); cy->put_value("k", std::make_shared<int>(3)); cx.reset(); cy.reset(); c.eval();
            for (int q = 0; q < 3; q++) {
                auto cz = fo.ThtsEnv::sample_context_itfc(st); bool seen = false;
                try { cz->get_value_raw("k"); seen = true; } catch (const std::exception&) {} try { cz->get_value_raw_const("k"); seen = true; } catch (const std::exception&) {}
                if (seen) { c.violate("P34", "default context not new", "the context of a new trial has entries of an earlier one"); break; }
                cz->put_value("k", std::make_shared<int>(4));
            }
        }
        // a problem with its own observation model: samples follow it
        struct ObsEnv : PoEnv { ObsEnv(const Spec& s) : PoEnv(s, false) {} std::shared_ptr<ObservationDistr> get_observation_distribution_itfc(std::shared_ptr<const Action>, std::shared_ptr<const State> s) const override { auto d = std::make_shared<ObservationDistr>(); (*d)[s] = 0.75; (*d)[std::make_shared<const IntState>(-99)] = 0.25; return d; } };
        { Rng r(mix(c.seed, 99)); GenOpts g; Spec sp = gen_spec(r, g); sp.skind = 0; ObsEnv e(sp); RandManager rm(7); long own = 0, N = 4000; auto st = mk_state(sp, 1);
          for (int q = 0; q < N; q++) { auto o = e.sample_observation_distribution_itfc(mk_action(sp, 0), st, rm); c.eval(); if (std::static_pointer_cast<const State>(o)->equals_itfc(*st)) own++; }
          double z; if (off(own, N, 0.75, z)) c.violate("P34", "observation sampling", cat("observations follow the problem's model ", own, " of ", N, " times, expected 75%")); }
    }
    static Reg r34("P34", p34);
}
