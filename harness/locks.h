// Watches every mutex acquisition of the process (uninstrumented build only): lock-order graph with the locks held at
// each acquisition, and delays injected while several locks are held.
#pragma once
#include <functional>
#include <string>
#include <vector>
namespace vm {
    struct LockWatch {
        static bool available();
        static void start(int delay_pct);       // forget everything and record from now on
        static void stop();
        static long acquisitions(), nested(), edges();
        static long still_held();               // locks held right now by any thread, acquired since start
        // cycles of acquisitions whose held locks are compatible, i.e. that different threads could enter at once
        static std::vector<std::vector<const void*>> cycles(size_t max);
    };
}
