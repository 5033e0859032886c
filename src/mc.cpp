#include "mc.h"
#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>
#include <openssl/err.h>

#if defined(__SANITIZE_ADDRESS__)
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
#endif

namespace mc {

// shared with the driver: which case is running right now
struct Crash { char group[64]; volatile int phase; volatile int n; int c[4096]; volatile int hang; };
static Crash* g_crash = nullptr;
static Crash g_dummy;
static int g_shard = 0, g_nshard = 1;
static bool g_thorough = false;
static std::string g_prop = "?", g_repo = "/repo";
static int g_timeout = 60;

uint64_t hash_bytes(const void* p, size_t n, uint64_t h)
{
    const uint8_t* b = (const uint8_t*)p;
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
    h ^= n; h *= 0xff51afd7ed558ccdull; h ^= h >> 32;
    return h;
}
std::string hex(const Bytes& b, size_t max)
{
    std::string s; char t[3];
    for (size_t i = 0; i < b.size() && i < max; i++) { snprintf(t, 3, "%02x", b[i]); s += t; }
    if (b.size() > max) s += fmt("...(%zu bytes)", b.size());
    return s;
}
static std::string vfmt(const char* f, va_list ap)
{
    va_list ap2; va_copy(ap2, ap);
    int n = vsnprintf(nullptr, 0, f, ap);
    std::string s(n + 1, 0);
    vsnprintf(&s[0], n + 1, f, ap2);
    va_end(ap2);
    s.resize(n);
    return s;
}
std::string fmt(const char* f, ...) { va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap); return s; }

int Ctx::choose(int n, const char* label)
{
    if (n < 1) { fprintf(stderr, "HARNESS-ERROR choose(%d) %s\n", n, label); _exit(3); }
    size_t i = choices.size();
    int v = 0;
    if (i < prefix.size()) {
        v = prefix[i];
        if (v < 0 || v >= n) {   // divergence while replaying a prefix
            fprintf(stderr, "HARNESS-ERROR replay divergence at %zu (%s): %d of %d\n", i, label, v, n);
            _exit(3);
        }
    }
    choices.push_back(v);
    widths.push_back(n);
    if (i < 4096) { g_crash->c[i] = v; g_crash->n = (int)i + 1; }
    return v;
}
void Ctx::shard()
{
    if (sharded) return;
    sharded = true;
    if (g_nshard <= 1) return;
    uint64_t h = hash_bytes(choices.data(), choices.size() * sizeof(int));
    if ((int)(h % g_nshard) != g_shard) throw Pruned();
}
void Ctx::note(const char* f, ...)
{
    if (!want_trace) return;
    va_list ap; va_start(ap, f); trace.push_back(vfmt(f, ap)); va_end(ap);
}
void Ctx::fail(const char* f, ...)
{
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    throw Violation{s};
}
void Ctx::check(bool ok, const char* f, ...)
{
    if (ok) return;
    va_list ap; va_start(ap, f); std::string s = vfmt(f, ap); va_end(ap);
    throw Violation{s};
}
bool Ctx::thorough() const { return g_thorough; }
bool is_thorough() { return g_thorough; }
const std::string& prop() { return g_prop; }
const std::string& repo_dir() { return g_repo; }

static void on_alarm(int)
{
    g_crash->hang = 1;
    static const char m[] = "HANG: execution exceeded its time limit\n";
    if (write(2, m, sizeof(m) - 1) < 0) {}
    _exit(70);
}
void set_exec_timeout(int s) { g_timeout = s; }
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }

static std::string jstr(const std::string& s)
{
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 0x20 || c >= 0x7f) o += fmt("\\u%04x", c);
        else o += c;
    }
    return o + "\"";
}
static std::string jints(const std::vector<int>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + std::to_string(v[i]);
    return o + "]";
}
static std::string jstrs(const std::vector<std::string>& v)
{
    std::string o = "[";
    for (size_t i = 0; i < v.size(); i++) o += (i ? "," : "") + jstr(v[i]);
    return o + "]";
}

// one execution; returns false when the shard does not own it
static bool execute(const Group& g, Ctx& c)
{
    g_crash->n = 0; g_crash->phase = 1;
    alarm(g_timeout);
    bool ran = true;
    try { g.body(c); }
    catch (Pruned&) { ran = false; }
    catch (...) { alarm(0); throw; }
    alarm(0);
    ERR_clear_error();
    g_crash->phase = 0;
    return ran;
}

static long g_live = 0;
static bool g_hooks = false;
#if defined(__SANITIZE_ADDRESS__)
static void on_malloc(const volatile void* p, size_t) { if (p) __atomic_add_fetch(&g_live, 1, __ATOMIC_RELAXED); }
static void on_free(const volatile void* p) { if (p) __atomic_sub_fetch(&g_live, 1, __ATOMIC_RELAXED); }
#endif
long live_allocs() { return g_live; }
long leak_per_run(const std::function<void()>& f)
{
    if (!g_hooks) { f(); return 0; }
    f(); ERR_clear_error(); f(); ERR_clear_error();
    const int N = 4;
    long a = g_live;
    for (int i = 0; i < N; i++) { f(); ERR_clear_error(); }
    long d = g_live - a;
    return d >= N ? d / N : 0;
}

std::string arg_prop(int argc, char** argv)
{
    for (int i = 1; i + 1 < argc; i++) if (!strcmp(argv[i], "--prop")) return argv[i + 1];
    return "";
}
int main_impl(int argc, char** argv, const std::vector<Group>& groups)
{
    std::string out, crash, replay_group, only, stop;
    std::vector<int> replay; bool do_replay = false, list = false;
    double cap = 0;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto next = [&]() { return std::string(i + 1 < argc ? argv[++i] : ""); };
        if (a == "--prop") g_prop = next();
        else if (a == "--tier") g_thorough = next() == "thorough";
        else if (a == "--shard") { g_shard = atoi(next().c_str()); g_nshard = atoi(next().c_str()); }
        else if (a == "--out") out = next();
        else if (a == "--crash") crash = next();
        else if (a == "--stop") stop = next();
        else if (a == "--repo") g_repo = next();
        else if (a == "--group") only = next();
        else if (a == "--cap") cap = atof(next().c_str());
        else if (a == "--timeout") g_timeout = atoi(next().c_str());
        else if (a == "--list") list = true;
        else if (a == "--replay") {
            do_replay = true; replay_group = next();
            std::string s = next();
            for (char* t = strtok(&s[0], ","); t; t = strtok(nullptr, ",")) replay.push_back(atoi(t));
        }
    }
    if (list) { for (auto& g : groups) printf("%s\n", g.name.c_str()); return 0; }
    g_crash = &g_dummy;
    if (!crash.empty()) {
        int fd = open(crash.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(Crash)) != 0) { perror("crash file"); return 3; }
        g_crash = (Crash*)mmap(nullptr, sizeof(Crash), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        close(fd);
    }
    signal(SIGALRM, on_alarm);
    signal(SIGPIPE, SIG_IGN);
#if defined(__SANITIZE_ADDRESS__)
    g_hooks = __sanitizer_install_malloc_and_free_hooks(on_malloc, on_free) > 0;
#endif

    if (do_replay) {
        for (auto& g : groups) if (g.name == replay_group) {
            Stats st; Ctx c(st); c.prefix = replay; c.want_trace = true;
            strncpy(g_crash->group, g.name.c_str(), 63);
            int save = g_nshard; g_nshard = 1; (void)save;
            try { execute(g, c); }
            catch (Violation& v) {
                for (auto& l : c.trace) printf("  %s\n", l.c_str());
                printf("FAIL %s\n", v.msg.c_str());
                return 1;
            }
            for (auto& l : c.trace) printf("  %s\n", l.c_str());
            printf("PASS\n");
            return 0;
        }
        fprintf(stderr, "HARNESS-ERROR no group %s\n", replay_group.c_str());
        return 3;
    }

    double t0 = now(), tstop = t0;
    bool capped = false;
    Stats total;
    std::string gj;
    int rc = 0;
    std::string vmsg, vgroup; std::vector<int> vchoices; std::vector<std::string> vtrace;
    for (auto& g : groups) {
        if (!only.empty() && g.name != only) continue;
        if (g.thorough_only && !g_thorough) continue;
        Stats st;
        double g0 = now();
        strncpy(g_crash->group, g.name.c_str(), 63);
        std::vector<int> prefix;
        bool more = true, gcapped = false;
        while (more) {
            Ctx c(st);
            c.prefix = prefix;
            c.want_trace = st.samples.size() < 2;
            bool ran = false;
            try { ran = execute(g, c); }
            catch (Violation& v) {
                rc = 1; vmsg = v.msg; vgroup = g.name; vchoices = c.choices;
                // trace of the failing run
                Stats s2; Ctx c2(s2); c2.prefix = c.choices; c2.want_trace = true; c2.sharded = true;
                try { execute(g, c2); } catch (Violation&) {} catch (...) {}
                vtrace = c2.trace;
                break;
            }
            if (ran) {
                st.executions++;
                if (c.want_trace && (st.executions == 1 || st.executions % 97 == 3)) {
                    std::string s = g.name + " " + jints(c.choices);
                    for (auto& l : c.trace) s += " | " + l;
                    if (s.size() > 900) s.resize(900);
                    st.samples.push_back(s);
                }
            } else st.pruned++;
            // next sequence in depth-first order
            more = false;
            for (size_t k = c.choices.size(); k-- > 0;)
                if (c.choices[k] + 1 < c.widths[k]) {
                    prefix.assign(c.choices.begin(), c.choices.begin() + k);
                    prefix.push_back(c.choices[k] + 1);
                    more = true;
                    break;
                }
            double t = now();
            if (cap > 0 && t - t0 > cap && more) { gcapped = capped = true; break; }
            // another shard has found a violation: nothing more to learn
            if (more && t - tstop > 0.5 && !stop.empty()) { tstop = t; if (access(stop.c_str(), F_OK) == 0) { gcapped = capped = true; break; } }
        }
        total.executions += st.executions; total.transitions += st.transitions;
        for (auto h : st.states) total.states.insert(mix(h, hash_str(g.name)));
        for (auto h : st.outcomes) total.outcomes.insert(mix(h, hash_str(g.name)));
        for (auto& s : st.samples) total.samples.push_back(s);
        gj += (gj.empty() ? "" : ",") + fmt("{\"group\":%s,\"executions\":%llu,\"transitions\":%llu,\"states\":%zu,\"outcomes\":%zu,\"capped\":%s,\"wall\":%.2f}",
            jstr(g.name).c_str(), (unsigned long long)st.executions, (unsigned long long)st.transitions, st.states.size(), st.outcomes.size(), gcapped ? "true" : "false", now() - g0);
        if (rc || capped) break;
    }
    if (!out.empty()) {
        FILE* f = fopen(out.c_str(), "w");
        if (!f) { perror("out"); return 3; }
        fprintf(f, "{\"executions\":%llu,\"transitions\":%llu,\"capped\":%s,\"groups\":[%s],\"samples\":%s",
            (unsigned long long)total.executions, (unsigned long long)total.transitions, capped ? "true" : "false", gj.c_str(), jstrs(total.samples).c_str());
        // hashes, so that the driver can count distinct values over all shards
        auto dump = [&](const char* k, std::unordered_set<uint64_t>& s) {
            fprintf(f, ",\"%s\":[", k); bool first = true; size_t n = 0;
            for (auto h : s) { if (n++ >= 400000) break; fprintf(f, "%s%llu", first ? "" : ",", (unsigned long long)(h >> 11)); first = false; }
            fprintf(f, "]");
        };
        dump("states", total.states); dump("outcomes", total.outcomes);
        if (rc) fprintf(f, ",\"violation\":{\"group\":%s,\"choices\":%s,\"message\":%s,\"trace\":%s}", jstr(vgroup).c_str(), jints(vchoices).c_str(), jstr(vmsg).c_str(), jstrs(vtrace).c_str());
        fprintf(f, "}\n");
        fclose(f);
    }
    if (rc) printf("FAIL %s %s: %s\n", vgroup.c_str(), jints(vchoices).c_str(), vmsg.c_str());
    fflush(stdout);
    _exit(rc);   // skip OpenSSL's atexit work: engine teardown is checked on its own
}

} // namespace mc
