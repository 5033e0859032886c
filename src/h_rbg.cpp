// C11: the random generator against its specification, all operation sequences.
// C12 (SCHED): concurrent use, all schedules up to a preemption bound.
#include "eng.h"
#ifdef SCHED
#include "fiber.h"
#endif
#include <time.h>
using namespace mc;

// ---- environment: system generator and clock --------------------------------
struct Env {
    int seedings = 0, attempts = 0, statuses = 0, adds = 0, seeds = 0;
    bool ok = true, st = true;
    int fail_first = 0;
    int64_t clock = 0x123456789aull;
    std::vector<Bytes> given;       // successful seeds, oldest first
    Bytes last_add;
} env;
static Bytes seed_bytes(int n)
{
    Bytes b(40);
    for (int i = 0; i < 40; i++) b[i] = n == 0 ? (uint8_t)(i * 11 + 3) : n == 1 ? 0 : n == 2 ? 0xff : (uint8_t)((i * i * 7 + n * 31) ^ (i << 2));
    return b;
}
static void pt()
{
#ifdef SCHED
    sched::point();
#endif
}
static int e_bytes(unsigned char* b, int n)
{
    env.attempts++; pt();
    if (!env.ok || env.attempts <= env.fail_first) return 0;
    // the generator asks for one 40-byte seed; whatever the chunks, they come from one stream
    Bytes s = seed_bytes(env.seedings);
    for (int i = 0; i < n; i++) b[i] = i < 40 ? s[i] : 0;
    env.seedings++;
    env.given.push_back(Bytes(b, b + n));
    pt();
    return 1;
}
static int e_status() { env.statuses++; pt(); return env.st; }
static int e_seed(const void* b, int n) { env.seeds++; env.last_add = Bytes((const uint8_t*)b, (const uint8_t*)b + n); return 1; }
static int e_add(const void* b, int n, double) { env.adds++; env.last_add = Bytes((const uint8_t*)b, (const uint8_t*)b + n); return 1; }
static RAND_METHOD inner = {e_seed, e_bytes, nullptr, e_add, e_bytes, e_status};
extern "C" RAND_METHOD* __wrap_RAND_OpenSSL() { return &inner; }
extern "C" time_t __wrap_time(time_t* t) { if (t) *t = env.clock; return env.clock; }

// ---- specification ------------------------------------------------------------
struct Spec {
    ref::Gost g; uint8_t I[8], s[8];
    Spec(const Bytes& seed, int64_t clock) : g(ref::DEFAULT_SBOX, seed.data())
    {
        memcpy(s, &seed[32], 8);
        uint8_t t[8]; for (int i = 0; i < 8; i++) t[i] = (uint8_t)((uint64_t)clock >> (8 * i));
        g.enc(t, I);
    }
    uint8_t next()
    {
        uint8_t r = 0;
        for (int j = 0; j < 8; j++) {
            uint8_t x[8]; for (int i = 0; i < 8; i++) x[i] = I[i] ^ s[i];
            g.enc(x, x);
            for (int i = 0; i < 8; i++) s[i] = x[i] ^ I[i];
            g.enc(s, s);
            r |= (x[0] & 1) << j;
        }
        return r;
    }
};
static Bytes stream(int seeding, int64_t clock, size_t n)
{
    static std::map<std::pair<int, int64_t>, std::pair<Spec*, Bytes>> memo;
    auto& e = memo[{seeding, clock}];
    if (!e.first) e.first = new Spec(seed_bytes(seeding), clock);
    while (e.second.size() < n) e.second.push_back(e.first->next());
    return Bytes(e.second.begin(), e.second.begin() + n);
}
static const RAND_METHOD* M() { static const RAND_METHOD* m = ENGINE_get_RAND(eng::get()); return m; }

#ifndef SCHED
// all sequences of requests, failures and clean-ups
static void ops(Ctx& c)
{
    static const int64_t clocks[] = {0x5fee6600, 0, -1, 0x0102030405060708};
    int ck = 0;
    int depth = c.thorough() ? 7 : 6;
    std::vector<int> op;
    for (int d = 0; d < depth; d++) { op.push_back(c.choose(12, "op")); if (d == 2) c.shard(); }
    M()->cleanup();
    env = Env(); env.clock = clocks[ck];
    bool live = false; int seeding = -1; int64_t born = 0; size_t pos = 0;
    Bytes last;
    for (int o : op) {
        c.step();
        int before = env.seedings, attempts = env.attempts;
        auto sync = [&]() {     // a seeding took place
            c.check(env.seedings - before <= 1, "seeded %d times by one request", env.seedings - before);
            if (env.seedings > before) {
                c.check(!live, "seeded again although already seeded");
                c.check(env.given.back().size() == 40, "seed of %zu bytes requested", env.given.back().size());
                live = true; seeding = env.seedings - 1; born = env.clock; pos = 0;
            }
        };
        switch (o) {
        case 0: case 1: case 2: case 3: case 4: {
            static const int ln[] = {0, 1, 2, 9, 17};
            int n = ln[o];
            Bytes buf(n + 16, 0xA5);
            int r = (o & 1) ? M()->pseudorand(buf.data() + 8, n) : M()->bytes(buf.data() + 8, n);
            for (int i = 0; i < 8; i++) c.check(buf[i] == 0xA5 && buf[n + 8 + i] == 0xA5, "wrote outside the %d requested bytes", n);
            sync();
            bool could = live || (env.ok && env.st);
            c.note("bytes(%d) -> %d%s", n, r, env.seedings > before ? " (seeded)" : "");
            if (r == 1) {
                if (n) {
                    c.check(live, "%d bytes delivered without a seed", n);
                    Bytes all = stream(seeding, born, pos + n), want(all.begin() + pos, all.end()), got(buf.begin() + 8, buf.begin() + 8 + n);
                    c.check(got == want, "bytes %zu..%zu after seeding are %s, expected %s", pos, pos + n, hex(got).c_str(), hex(want).c_str());
                    pos += n; c.outcome(hash_bytes(got));
                }
            } else {
                c.check(n == 0 || !could, "request failed although the generator could be seeded");
                for (int i = 0; i < n; i++) c.check(buf[8 + i] == 0xA5 || buf[8 + i] == 0, "failed request delivered byte %02x", buf[8 + i]);
            }
            break;
        }
        case 5: {
            int r = M()->status();
            sync();
            if (!live) c.check(r == 0, "status says seeded but no seed was taken");
            else if (env.st) c.check(r == 1, "status denies being seeded");
            c.note("status -> %d", r);
            break;
        }
        case 6: M()->cleanup(); live = false; c.check(env.seedings == before, "cleanup seeded"); c.note("cleanup"); break;
        case 7: { Bytes b = {1, 2, 3}; M()->add(b.data(), 3, 1.0); c.check(env.adds + env.seeds > 0 && env.last_add == b, "added entropy not passed on"); sync(); break; }
        case 8: { Bytes b = {9, 8}; M()->seed(b.data(), 2); c.check(env.adds + env.seeds > 0 && env.last_add == b, "seed not passed on"); sync(); break; }
        case 9: env.ok = !env.ok; c.note("system generator %s", env.ok ? "recovers" : "fails"); break;
        case 10: env.st = !env.st; c.note("system generator status %d", env.st); break;
        case 11: env.clock += 3600; break;
        }
        c.state(mix(mix(live, pos), mix(env.ok * 2 + env.st, seeding)));
    }
    env.ok = env.st = true;
}
// every request size, seed and clock value
static void sizes(Ctx& c)
{
    static const int64_t clocks[] = {0x5fee6600, 0, -1, 0x0102030405060708, 1, 0x80000000ll, 0x100000000ll};
    int s = c.choose(8, "seed"), k = c.choose(7, "clock"), a = c.choose(c.thorough() ? 260 : 80, "first request");
    c.shard();
    M()->cleanup();
    env = Env(); env.clock = clocks[k]; env.seedings = s;
    Bytes x(a + 1), y(70);
    c.check(M()->bytes(x.data(), a) == 1 && M()->bytes(y.data(), 70) == 1, "request failed");
    x.resize(a);
    Bytes want = stream(s, clocks[k], a + 70);
    c.step(2); c.state(mix(s, mix(k, a))); c.outcome(hash_bytes(want));
    c.note("seed %d clock %lld request %d", s, (long long)clocks[k], a);
    c.check(x + y == want, "generator output differs from the standard's: seed %d clock %lld requests %d+70", s, (long long)clocks[k], a);
}
// long requests
static void huge(Ctx& c)
{
    static const int lens[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 70001, 131073, 1 << 20};
    int n = lens[c.choose(c.thorough() ? 11 : 10, "request")], before = c.choose(2, "before");
    c.shard();
    M()->cleanup();
    env = Env(); env.clock = 0x5fee6600;
    Bytes x(before * 3), y(n), z(9);
    c.check((!before || M()->bytes(x.data(), 3) == 1) && (before ? M()->pseudorand : M()->bytes)(y.data(), n) == 1 && M()->bytes(z.data(), 9) == 1, "request failed");
    Bytes want = stream(0, env.clock, x.size() + n + 9);
    c.step(3); c.state(mix(n, before)); c.outcome(hash_bytes(want));
    c.note("request %zu+%d", x.size(), n);
    c.check(x + y + z == want, "generator output differs from the standard's: requests %zu+%d+9", x.size(), n);
}
// as the default generator of the library
static void as_default(Ctx& c)
{
    int a = c.choose(40, "first"), b = c.choose(40, "second"), how = c.choose(3, "call");
    c.shard();
    RAND_set_rand_method(M());
    struct R { ~R() { RAND_set_rand_method(nullptr); } } r;
    M()->cleanup();
    env = Env();
    Bytes x(a), y(b);
    auto get = [&](Bytes& v) { return how == 0 ? RAND_bytes(v.data(), (int)v.size()) : how == 1 ? RAND_priv_bytes(v.data(), (int)v.size()) : RAND_pseudo_bytes(v.data(), (int)v.size()); };
    c.check(get(x) == 1 && get(y) == 1, "RAND_bytes failed with the engine's generator");
    c.check(env.seedings == (a + b ? 1 : env.seedings), "seeded %d times", env.seedings);
    c.step(2); c.state(mix(a, mix(b, how)));
    c.check(x + y == stream(0, env.clock, a + b), "RAND_bytes does not deliver the generator's sequence");
    c.note("RAND_bytes %d %d", a, b);
}
int main(int argc, char** argv)
{
    eng::get();
    return main_impl(argc, argv, {{"ops", ops}, {"sizes", sizes}, {"huge", huge}, {"as_default", as_default}});
}
#else
// ---- C12 ----------------------------------------------------------------------
struct Call { int kind, n; };     // 0 bytes, 1 status, 2 add, 3 pseudorand
struct Done { int th, kind, n, rc; Bytes out; long from, to; };
struct Scenario { const char* name; std::vector<std::vector<Call>> th; int fail_first; int preseed; int bound, tbound; };
static const std::vector<Scenario> SC = {
    {"two requests", {{{0, 1}}, {{0, 1}}}, 0, 0, 3, 4},
    {"one long, two short", {{{0, 2}}, {{0, 1}, {3, 1}}}, 0, 0, 2, 3},
    {"status and request", {{{1, 0}}, {{0, 1}, {1, 0}}}, 0, 0, 3, 3},
    {"status then request", {{{1, 0}, {0, 1}}, {{1, 0}, {0, 1}}}, 0, 0, 2, 3},
    {"first seeding fails", {{{0, 1}}, {{0, 1}}}, 1, 0, 3, 4},
    {"first two seedings fail", {{{0, 1}, {0, 1}}, {{1, 0}, {0, 1}}}, 2, 0, 2, 2},
    {"already seeded", {{{0, 2}}, {{0, 2}}}, 0, 1, 2, 3},
    {"entropy added", {{{2, 3}, {0, 1}}, {{0, 1}}}, 0, 0, 2, 3},
    {"three requests", {{{0, 1}}, {{0, 1}}, {{0, 1}}}, 0, 0, 2, 2},
    {"three threads seeded", {{{0, 1}}, {{1, 0}}, {{0, 1}}}, 0, 1, 2, 3},
    {"empty requests", {{{0, 0}, {0, 1}}, {{0, 1}, {0, 0}}}, 0, 0, 2, 3},
};
// is there an order of the calls, compatible with their real-time order, that explains the results?
static bool explain(const std::vector<Done>& d, std::vector<bool>& used, size_t left, bool live, int attempts, size_t pos, const Scenario& s)
{
    if (!left) return true;
    for (size_t i = 0; i < d.size(); i++) {
        if (used[i]) continue;
        bool first = true;
        for (size_t k = 0; k < d.size(); k++) if (!used[k] && k != i && d[k].to < d[i].from) first = false;
        if (!first) continue;
        bool l = live; int at = attempts; size_t p = pos; bool ok = true;
        const Done& x = d[i];
        if (x.kind == 2) ok = true;
        else {
            if (!l && !(x.kind != 1 && x.n == 0)) { at++; if (at > s.fail_first) l = true; }
            bool zero = x.kind != 1 && x.n == 0;
            if (zero) ok = true;
            else if (x.kind == 1) ok = (x.rc == 1) == l;
            else if (!l) ok = x.rc != 1;
            else {
                ok = x.rc == 1;
                if (ok) { Bytes w = stream(0, env.clock, p + x.n); ok = Bytes(w.begin() + p, w.end()) == x.out; p += x.n; }
            }
            if (ok && zero) {   // an empty request may or may not have seeded
                used[i] = true;
                if (explain(d, used, left - 1, l, at, p, s)) return true;
                if (!l) { int a2 = at + 1; if (explain(d, used, left - 1, a2 > s.fail_first, a2, p, s)) return true; }
                used[i] = false;
                continue;
            }
        }
        if (!ok) continue;
        used[i] = true;
        if (explain(d, used, left - 1, l, at, p, s)) return true;
        used[i] = false;
    }
    return false;
}
static void conc(Ctx& c)
{
    int si = c.choose((int)SC.size(), "scenario");
    const Scenario& s = SC[si];
    std::vector<Done> done;
    sched::World w;
    w.fresh = [&] {
        done.clear();
        M()->cleanup(); sched::reset_locks();
        env = Env(); env.fail_first = 0;
        if (s.preseed) M()->status();
        env.fail_first = s.fail_first;
        if (s.preseed == 0) env.attempts = 0;
    };
    w.bodies = [&] {
        std::vector<std::function<void()>> b;
        for (size_t t = 0; t < s.th.size(); t++)
            b.push_back([&, t] {
                for (auto& k : s.th[t]) {
                    Done r{(int)t, k.kind, k.n, 0, Bytes(k.n, 0xA5), sched::now(), 0};
                    sched::point();
                    r.from = sched::now();
                    if (k.kind == 0) r.rc = M()->bytes(r.out.data(), k.n);
                    else if (k.kind == 3) r.rc = M()->pseudorand(r.out.data(), k.n);
                    else if (k.kind == 1) r.rc = M()->status();
                    else { Bytes e(k.n, 1); r.rc = M()->add(e.data(), k.n, 1.0); }
                    r.to = sched::now();
                    done.push_back(r);
                }
            });
        return b;
    };
    w.judge = [&](const sched::Result&) {
        c.check(env.seedings == 1, "generator was seeded %d times", env.seedings);
        std::vector<bool> used(done.size(), false);
        std::string t;
        for (auto& d : done) t += fmt(" [thread %d %s(%d) -> %d %s]", d.th, d.kind == 1 ? "status" : d.kind == 2 ? "add" : "bytes", d.n, d.rc, hex(d.out, 8).c_str());
        c.note("%s:%s", s.name, t.c_str());
        uint64_t h = si; for (auto& d : done) h = mix(h, mix(d.th, hash_bytes(d.out)));
        c.outcome(h);
        c.check(explain(done, used, done.size(), s.preseed, 0, 0, s), "no order of the calls explains the results:%s", t.c_str());
    };
    sched::explore(c, (int)s.th.size(), c.thorough() ? s.tbound : s.bound, si + 1, w);
}
int main(int argc, char** argv)
{
    eng::get(); M();
    return main_impl(argc, argv, {{"conc", conc}});
}
#endif
