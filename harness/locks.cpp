#include "locks.h"
#include "core.h"
#include <algorithm>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <unistd.h>
#include <unordered_map>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
namespace vm {
    bool LockWatch::available() { return false; }
    void LockWatch::start(int) {} void LockWatch::stop() {}
    long LockWatch::acquisitions() { return 0; } long LockWatch::nested() { return 0; } long LockWatch::edges() { return 0; } long LockWatch::still_held() { return 0; }
    std::vector<std::vector<const void*>> LockWatch::cycles(size_t) { return {}; }
}
#else
typedef int (*mfn)(pthread_mutex_t*);
static mfn real_fn(const char* n, std::atomic<mfn>& slot) { mfn f = slot.load(std::memory_order_acquire); if (!f) { f = (mfn)dlsym(RTLD_NEXT, n); slot.store(f, std::memory_order_release); } return f; }
static std::atomic<mfn> s_lock{nullptr}, s_try{nullptr}, s_unlock{nullptr};
namespace {
    typedef std::vector<const void*> Set;
    std::atomic<bool> on{false}; std::atomic<int> delay{0}; std::atomic<long> n_acq{0}, n_nest{0}, n_held{0}; std::atomic<uint64_t> epoch{0};
    struct Held { uint64_t epoch = 0; Set v; uint64_t noise = 0; bool busy = false; };
    thread_local Held tl;
    struct KeyHash { size_t operator()(const std::pair<const void*, const void*>& k) const { return (size_t)k.first * 31 + (size_t)k.second; } };
    std::unordered_map<std::pair<const void*, const void*>, std::vector<Set>, KeyHash>* graph;   // held sets (sorted, containing the source)
    pthread_mutex_t gmu = PTHREAD_MUTEX_INITIALIZER;
    bool subset(const Set& a, const Set& b) { return std::includes(b.begin(), b.end(), a.begin(), a.end()); }
    void before(const void* m) {
        Held& h = tl; if (h.epoch != epoch.load()) { h.epoch = epoch.load(); h.v.clear(); }
        n_acq++; if (h.v.empty()) return;
        n_nest++; Set s = h.v; std::sort(s.begin(), s.end());
        real_fn("pthread_mutex_lock", s_lock)(&gmu);
        for (const void* f : h.v) {
            auto& e = (*graph)[{f, m}]; bool have = false;
            for (auto& x : e) if (subset(x, s)) { have = true; break; }
            if (!have) { e.erase(std::remove_if(e.begin(), e.end(), [&](const Set& x) { return subset(s, x); }), e.end()); if (e.size() < 8) e.push_back(s); }
        }
        real_fn("pthread_mutex_unlock", s_unlock)(&gmu);
    }
    void after(const void* m) {
        Held& h = tl; if (h.epoch != epoch.load()) { h.epoch = epoch.load(); h.v.clear(); }
        h.v.push_back(m); n_held++;
        int d = delay.load(); if (!d) return;
        if (!h.noise) h.noise = vm::mix((uint64_t)(uintptr_t)&h, 99) | 1;
        h.noise ^= h.noise << 13; h.noise ^= h.noise >> 7; h.noise ^= h.noise << 17;
        if ((int)(h.noise % 100) < d) { if ((h.noise >> 20) % 6 == 0) usleep((h.noise >> 24) % 80); else sched_yield(); }
    }
}
extern "C" int pthread_mutex_lock(pthread_mutex_t* m) {
    if (!on.load(std::memory_order_relaxed) || tl.busy) return real_fn("pthread_mutex_lock", s_lock)(m);
    tl.busy = true; before(m); tl.busy = false;
    int r = real_fn("pthread_mutex_lock", s_lock)(m);
    if (r == 0) { tl.busy = true; after(m); tl.busy = false; }
    return r;
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t* m) {
    int r = real_fn("pthread_mutex_trylock", s_try)(m);
    if (r == 0 && on.load(std::memory_order_relaxed) && !tl.busy) { tl.busy = true; after(m); tl.busy = false; }
    return r;
}
extern "C" int pthread_mutex_unlock(pthread_mutex_t* m) {
    if (on.load(std::memory_order_relaxed) && !tl.busy) {
        Held& h = tl; h.busy = true;
        if (h.epoch == epoch.load()) for (size_t k = h.v.size(); k-- > 0;) if (h.v[k] == m) { h.v.erase(h.v.begin() + k); n_held--; break; }
        h.busy = false;
    }
    return real_fn("pthread_mutex_unlock", s_unlock)(m);
}
namespace vm {
    bool LockWatch::available() { return true; }
    void LockWatch::start(int d) { on = false; epoch++; if (!graph) graph = new std::remove_pointer_t<decltype(graph)>(); graph->clear(); n_acq = n_nest = n_held = 0; delay = d; on = true; }
    void LockWatch::stop() { on = false; }
    long LockWatch::acquisitions() { return n_acq; }
    long LockWatch::nested() { return n_nest; }
    long LockWatch::edges() { return graph ? (long)graph->size() : 0; }
    long LockWatch::still_held() { return n_held; }
    std::vector<std::vector<const void*>> LockWatch::cycles(size_t max) {
        bool was = on; on = false; std::vector<std::vector<const void*>> out;
        real_fn("pthread_mutex_lock", s_lock)(&gmu);
        std::map<const void*, std::vector<std::pair<const void*, const std::vector<Set>*>>> adj; for (auto& e : *graph) adj[e.first.first].push_back({e.first.second, &e.second});
        // strongly connected components (Tarjan), then compatible cycles inside each
        std::map<const void*, int> idx, low, comp; std::vector<const void*> st; std::set<const void*> onst; int t = 0, nc = 0; std::map<int, int> csize;
        std::function<void(const void*)> dfs = [&](const void* v) {
            idx[v] = low[v] = ++t; st.push_back(v); onst.insert(v);
            for (auto& e : adj[v]) { if (!idx.count(e.first)) { dfs(e.first); low[v] = std::min(low[v], low[e.first]); } else if (onst.count(e.first)) low[v] = std::min(low[v], idx[e.first]); }
            if (low[v] == idx[v]) { for (;;) { const void* u = st.back(); st.pop_back(); onst.erase(u); comp[u] = nc; csize[nc]++; if (u == v) break; } nc++; }
        };
        std::vector<const void*> vs; for (auto& a : adj) vs.push_back(a.first); for (auto v : vs) if (!idx.count(v)) dfs(v);
        long budget = 200000;
        for (auto root : vs) {
            if (out.size() >= max) break; if (csize[comp[root]] < 2) continue;
            std::vector<const void*> path{root}; std::vector<const Set*> sets;
            std::function<void()> ext = [&]() {
                if (out.size() >= max || --budget < 0) return;
                for (auto& e : adj[path.back()]) {
                    if (comp[e.first] != comp[root]) continue;
                    bool closes = e.first == root; if (!closes && (e.first < root || path.size() >= 5 || std::find(path.begin(), path.end(), e.first) != path.end())) continue;
                    for (auto& s : *e.second) {
                        bool ok = true; for (auto* o : sets) { Set i; std::set_intersection(s.begin(), s.end(), o->begin(), o->end(), std::back_inserter(i)); if (!i.empty()) { ok = false; break; } }
                        // the lock waited for must be held by the next one in the cycle, which its held set contains by construction
                        if (!ok) continue;
                        if (closes) { if (path.size() >= 2) { out.push_back(path); return; } continue; }
                        sets.push_back(&s); path.push_back(e.first); ext(); path.pop_back(); sets.pop_back();
                        if (out.size() >= max) return;
                    }
                }
            };
            ext();
        }
        real_fn("pthread_mutex_unlock", s_unlock)(&gmu); on = was; return out;
    }
}
#endif
