// Controlled scheduler: an own OpenMP runtime whose threads are coroutines, and
// the receiving end of gcc's -fsanitize=thread instrumentation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <map>
#include <set>
#include <vector>
namespace sched {
struct Point { uint8_t cur, enabled, free_, chosen; uint32_t what; }; // cur: running thread; enabled: mask; free_: the running thread cannot go on; what: digest of (kind, place)
static const uint32_t MAXPOINTS = 1u << 17, MAXPCS = 4096;
struct Shared { // written by the execution, read by the explorer
    uint32_t npoints, npcs, overflow, deadlock, regions, switches; uint64_t accesses;
    uint64_t pcs[MAXPCS]; // places of conflicting accesses
    Point pt[MAXPOINTS];
};
struct Ctl {
    std::map<uint32_t, uint8_t> dev;    // deviations: point -> thread
    std::set<uint64_t> pcs;             // places where accesses are scheduling points
    bool detect = false;                // look for conflicting accesses
    Shared *sh = nullptr;
};
extern Ctl ctl;
}
