// Every load and store of the code under test (compiled with -fsanitize=thread, linked with this
// runtime instead of TSan's) is a scheduling point of a controlled two-thread scheduler.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>
namespace rt {
using Granules = std::vector<uintptr_t>;          // 8-byte units
struct Log { std::vector<uintptr_t> addr; std::vector<unsigned char> r, w; unsigned long long accesses = 0; };   // byte masks per granule
std::pair<Log, Log> record(const std::function<void()>& f, const std::function<void()>& g);   // f, then g, each on a thread of its own
Granules conflicts(const Log& a, const Log& b);
struct Outcome { bool deadlock = false; int hits[2] = {0, 0}; };
// runs f and g on two threads, one at a time: `first` starts; it is suspended before its
// (plan[0]+1)-th access to a conflicting granule, then the other one runs for plan[1] of them, ...
Outcome schedule(const std::function<void()>& f, const std::function<void()>& g, const Granules& c, int first, const std::vector<int>& plan);
}
