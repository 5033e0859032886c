// Stateless model-checking core: every behaviour of a driver is a sequence of
// choices; the explorer enumerates all sequences depth first, runs the real
// code once per sequence and stops at the first violated expectation.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cstdarg>
#include <functional>
#include <map>
#include <set>
#include <string>
#include <unordered_set>
#include <vector>

typedef std::vector<uint8_t> Bytes;

namespace mc {

struct Violation { std::string msg; };
struct Pruned {};

uint64_t hash_bytes(const void* p, size_t n, uint64_t seed = 0xcbf29ce484222325ull);
inline uint64_t hash_bytes(const Bytes& b, uint64_t s = 0xcbf29ce484222325ull) { return hash_bytes(b.data(), b.size(), s); }
inline uint64_t hash_str(const std::string& b, uint64_t s = 0xcbf29ce484222325ull) { return hash_bytes(b.data(), b.size(), s); }
inline uint64_t mix(uint64_t a, uint64_t b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; return a ^ (a >> 33); }
std::string hex(const Bytes& b, size_t max = 96);
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

struct Stats {
    uint64_t executions = 0, transitions = 0, pruned = 0;
    std::unordered_set<uint64_t> states, outcomes;
    std::vector<std::string> samples;
};

class Ctx {
public:
    // pick one of n alternatives (n >= 1)
    int choose(int n, const char* label = "");
    // everything chosen so far decides which shard owns this subtree
    void shard();
    void step(uint64_t n = 1) { st.transitions += n; }
    void state(uint64_t h) { st.states.insert(h); }
    void outcome(uint64_t h) { st.outcomes.insert(h); }
    // line of the human-readable trace of this execution
    void note(const char* f, ...) __attribute__((format(printf, 2, 3)));
    [[noreturn]] void fail(const char* f, ...) __attribute__((format(printf, 2, 3)));
    void check(bool ok, const char* f, ...) __attribute__((format(printf, 3, 4)));
    bool thorough() const;
    bool tracing() const { return want_trace; }

    Stats& st;
    std::vector<int> prefix, choices, widths;
    std::vector<std::string> trace;
    bool want_trace = false;
    bool sharded = false;
    explicit Ctx(Stats& s) : st(s) {}
};

struct Group {
    std::string name;
    std::function<void(Ctx&)> body;
    bool thorough_only = false;
};

// per-execution watchdog (seconds); 0 disables
void set_exec_timeout(int s);
bool is_thorough();
const std::string& prop();
const std::string& repo_dir();   // /repo, for the fixtures under tests/
// value of --prop, before main_impl runs
std::string arg_prop(int argc, char** argv);
int main_impl(int argc, char** argv, const std::vector<Group>& groups);

// live heap accounting (ASan flavour only; returns 0 otherwise)
long live_allocs();
// runs f repeatedly and returns how many allocations each run leaves behind
long leak_per_run(const std::function<void()>& f);

} // namespace mc

#define MC_CHECK(c, cond, ...) do { if (!(cond)) (c).fail(__VA_ARGS__); } while (0)
