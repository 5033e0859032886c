// C25 independent objects in different threads, and one key shared by two: every
// schedule up to a preemption bound gives every thread the result it gets alone.
#include "p12.h"
#include "fiber.h"
using namespace mc;
using namespace st;
using namespace p12;
using namespace kit;

// ---- memory: whose is it? -----------------------------------------------------------
extern "C" char __start_repo_data[], __stop_repo_data[], __start_repo_bss[], __stop_repo_bss[];
struct Block { size_t n; int owner; int id; };
static std::map<uintptr_t, Block> blocks;      // libcrypto's allocations made while watching, and those made before
static bool watching; static int next_id;
static std::set<std::pair<int, long>> written; // (block, granule) written while running; block -1: static data
static bool learning;
static std::set<void*> limbo; static bool twice;
static void* a_m(size_t n, const char*, int)
{
    if (!n) return nullptr;
    void* p = malloc(n);
    if (!watching) return p;
    memset(p, 0xA5, n);
    blocks[(uintptr_t)p] = {n, sched::self(), next_id++};
    return p;
}
static void a_f(void* p, const char*, int)
{
    if (!p) return;
    if (watching) {
        auto it = blocks.find((uintptr_t)p);
        if (it != blocks.end()) { memset(p, 0xDD, it->second.n); blocks.erase(it); }
        // kept until the end of the run: a second release or a use after it must not hit a fresh block
        if (sched::self() >= 0) { if (!limbo.insert(p).second) twice = true; return; }
    }
    free(p);
}
static void* a_r(void* p, size_t n, const char* f, int l)
{
    if (!p) return a_m(n, f, l);
    if (!n) { a_f(p, f, l); return nullptr; }
    if (!watching) return realloc(p, n);
    auto it = blocks.find((uintptr_t)p);
    if (it == blocks.end()) return realloc(p, n);
    void* q = a_m(n, f, l);
    memcpy(q, p, std::min(n, it->second.n));
    a_f(p, f, l);
    return q;
}
static long static_at(uintptr_t a)
{
    if (a >= (uintptr_t)__start_repo_data && a < (uintptr_t)__stop_repo_data) return a - (uintptr_t)__start_repo_data;
    if (a >= (uintptr_t)__start_repo_bss && a < (uintptr_t)__stop_repo_bss) return (1l << 40) + a - (uintptr_t)__start_repo_bss;
    return -1;
}
static Bytes sdata, sbss;
static void statics(bool save)
{
    size_t d = __stop_repo_data - __start_repo_data, b = __stop_repo_bss - __start_repo_bss;
    if (save) { sdata.assign(__start_repo_data, __stop_repo_data); sbss.assign(__start_repo_bss, __stop_repo_bss); return; }
    memcpy(__start_repo_data, sdata.data(), d); memcpy(__start_repo_bss, sbss.data(), b);
}
static void learn_statics()        // what was written other than by an instrumented access
{
    for (size_t i = 0; i < sdata.size(); i++) if ((uint8_t)__start_repo_data[i] != sdata[i]) written.insert({-1, (long)i / 8});
    for (size_t i = 0; i < sbss.size(); i++) if ((uint8_t)__start_repo_bss[i] != sbss[i]) written.insert({-1, ((1l << 40) + (long)i) / 8});
}

// Is this access one whose order against another thread's can matter? Not if it is to memory only one thread
// reaches, or that nobody writes.
static std::map<int, unsigned> touched;        // blocks made beforehand: by which threads
static bool every_call;                        // every call into libcrypto or libc is a scheduling point
static int block_of(uintptr_t a, long* at, int* owner)
{
    auto it = blocks.upper_bound(a);
    if (it == blocks.begin()) return -1;
    --it;
    if (a >= it->first + it->second.n) return -1;      // the application's own memory
    *at = a - it->first; *owner = it->second.owner;
    return it->second.id;
}
static bool shared(const void* p, long n, bool write)
{
    uintptr_t a = (uintptr_t)p;
    int id = -1, owner; long at = static_at(a);
    if (at < 0) {
        id = block_of(a, &at, &owner);
        if (id < 0 || owner == sched::self()) return false;
        if (owner >= 0) return true;               // another thread's
        if (learning) touched[id] |= 1u << sched::self();
        else { auto t = touched.find(id); if (t == touched.end() || !(t->second & (t->second - 1))) return write; }
    }
    if (write) {
        if (learning) for (long g = at / 8; g <= (at + n - 1) / 8; g++) written.insert({id, g});
        return true;
    }
    for (long g = at / 8; g <= (at + n - 1) / 8; g++) if (written.count({id, g})) return true;
    return false;
}
static bool call_shared(const uintptr_t* r, int n)
{
    if (learning) learn_statics();
    bool yes = every_call;
    for (int i = 0; i < n; i++) {
        long at = static_at(r[i]); int owner;
        if (at >= 0) {
            auto it = written.lower_bound({-1, at / 8});     // written anywhere in the 512 bytes from there?
            if (it != written.end() && it->first == -1 && it->second <= (at + 511) / 8) yes = true;
            continue;
        }
        int id = block_of(r[i], &at, &owner);
        if (id < 0 || owner == sched::self()) continue;
        if (owner >= 0) { yes = true; continue; }
        if (learning) touched[id] |= 1u << sched::self();
        else { auto t = touched.find(id); if (t != touched.end() && (t->second & (t->second - 1))) yes = true; }
    }
    return yes;
}

// ---- environment ----------------------------------------------------------------------
static uint8_t stream(int who, size_t i) { return (uint8_t)(i * 37 + i / 5 + who * 91 + 5); }
static size_t rpos[5];
static eng::Rng R;

// ---- what a thread does ------------------------------------------------------------------
struct World;
struct Obj { EVP_PKEY *prv = nullptr, *pub = nullptr, *other = nullptr; EVP_MD_CTX* md = nullptr; EVP_CIPHER_CTX* ci = nullptr; };
static const int CV[3] = {2, 4, 5};
static Any& cv(int v) { return any(CV[v]); }
static bool le(int v) { return v != 1; }
static int sb(int v) { return v == 2 ? 0 : 2 + v; }
static Bytes box(int v) { return ref::custom_sbox(1 + v); }
static uint64_t num(int v) { return 3 + v * 2; }
static Bytes msg(int v, int n) { Bytes b(n); for (int i = 0; i < n; i++) b[i] = (uint8_t)(i * 29 + v * 57 + 1); return b; }
static void put(Bytes& o, const Bytes& b) { for (int i = 0; i < 4; i++) o.push_back((uint8_t)(b.size() >> (8 * i))); o.insert(o.end(), b.begin(), b.end()); }
static void put(Bytes& o, int r) { o.push_back((uint8_t)r); }
static Bytes SIG[3];     // a signature by each variant's key, of msg(v,32)
typedef std::function<Bytes(Obj&, int)> Body;
struct Op { const char* name; Body run; bool key, pairs; };

static Bytes digest(Obj& o, int v, bool box_, int n)
{
    Bytes out, h(32), m = msg(v, n);
    EVP_MD_CTX *c = EVP_MD_CTX_new(), *d = EVP_MD_CTX_new();
    unsigned l = 0;
    put(out, EVP_DigestInit_ex(c, eng::md(), eng::get()));
    if (box_) { Bytes b = box(v); put(out, EVP_MD_CTX_ctrl(c, CTRL_SBOX, 64, b.data())); }
    put(out, EVP_DigestUpdate(c, m.data(), n / 3));
    put(out, EVP_MD_CTX_copy_ex(d, c));
    put(out, EVP_DigestUpdate(c, m.data() + n / 3, n - n / 3));
    put(out, EVP_DigestFinal_ex(c, h.data(), &l)); put(out, h);
    put(out, EVP_DigestFinal_ex(d, h.data(), &l)); put(out, h);
    EVP_MD_CTX_free(c); EVP_MD_CTX_free(d);
    return out;
}
static Bytes cipher(Obj&, int v, bool box_, int enc, int n)
{
    Bytes out, k = msg(v + 1, 32), iv = msg(v + 2, 8), m = msg(v, n), o(n + 32);
    EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new();
    int l = 0, t = 0;
    put(out, EVP_CipherInit_ex(c, eng::cipher(), eng::get(), k.data(), iv.data(), enc));
    if (box_) { Bytes b = box(v); put(out, EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX, 64, b.data())); }
    put(out, EVP_CipherUpdate(c, o.data(), &l, m.data(), n / 2)); t = l;
    put(out, EVP_CipherUpdate(c, o.data() + t, &l, m.data() + n / 2, n - n / 2)); t += l;
    put(out, EVP_CipherFinal_ex(c, o.data() + t, &l)); t += l;
    o.resize(t); put(out, o);
    ASN1_TYPE* a = ASN1_TYPE_new();
    put(out, EVP_CIPHER_param_to_asn1(c, a));
    uint8_t* p = nullptr; int pn = i2d_ASN1_TYPE(a, &p);
    put(out, Bytes(p, p + std::max(0, pn))); OPENSSL_free(p);
    if (box_) {                                  // back into a context of another kind
        EVP_CIPHER_CTX* d = EVP_CIPHER_CTX_new();
        put(out, EVP_CipherInit_ex(d, eng::cipher(), eng::get(), nullptr, nullptr, enc));
        put(out, EVP_CIPHER_asn1_to_param(d, a));
        put(out, EVP_CipherInit_ex(d, nullptr, nullptr, k.data(), nullptr, enc));
        Bytes q(n + 32);
        put(out, EVP_CipherUpdate(d, q.data(), &l, m.data(), n)); q.resize(l); put(out, q);
        EVP_CIPHER_CTX_free(d);
    }
    ASN1_TYPE_free(a); EVP_CIPHER_CTX_free(c);
    return out;
}
static Bytes do_sign(EVP_PKEY* k, int v) { Bytes s, out; put(out, eng::sign(k, msg(v, 32), s)); put(out, s); return out; }
static Bytes do_dsign(EVP_PKEY* k, int v)
{
    Bytes out, s(256), m = msg(v, 40); size_t n = s.size();
    EVP_MD_CTX* c = EVP_MD_CTX_new();
    put(out, EVP_DigestSignInit(c, nullptr, eng::md(), nullptr, k));
    put(out, EVP_DigestSignUpdate(c, m.data(), m.size()));
    put(out, EVP_DigestSignFinal(c, s.data(), &n));
    s.resize(n); put(out, s);
    EVP_MD_CTX_free(c);
    return out;
}
static Bytes do_print(EVP_PKEY* k)
{
    Bytes out;
    for (int w = 0; w < 3; w++) put(out, S(eng::view(k, w).text));
    return out;
}
static Bytes reenc(EVP_PKEY* k, int how)
{
    Bytes out;
    put(out, k != nullptr);
    if (!k) return out;
    put(out, how == 0 ? eng::pub_to_der(k) : how == 1 ? eng::priv_to_der(k) : eng::params_to_der(k));
    EVP_PKEY_free(k);
    return out;
}
static Bytes PUB[3], PRV[3], PAR[3], KPAR[3], STORE[3];
static Bytes gen(int v)
{
    Bytes out;
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(nid(le(v)), eng::get());
    EVP_PKEY* k = nullptr;
    Bytes b = box(v);
    put(out, EVP_PKEY_keygen_init(c));
    put(out, EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, cv(v).g));
    put(out, v == 1 ? EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, b.data()) : EVP_PKEY_CTX_ctrl_str(c, "sbox", hexs(b).c_str()));
    put(out, EVP_PKEY_keygen(c, &k));
    if (k) { put(out, eng::priv_to_der(k)); put(out, eng::pub_to_der(k)); }
    EVP_PKEY_free(k); EVP_PKEY_CTX_free(c);
    return out;
}
static Bytes named(int v)
{
    Bytes out;
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(nid(le(v)), eng::get());
    EVP_PKEY* k = nullptr;
    put(out, EVP_PKEY_paramgen_init(c) > 0 ? 1 : 0);
    put(out, EVP_PKEY_keygen_init(c));
    put(out, EVP_PKEY_CTX_ctrl_str(c, "curve", fmt("uacurve%d", v).c_str()));
    put(out, EVP_PKEY_keygen(c, &k));
    if (k) { put(out, eng::params_to_der(k)); put(out, eng::pub_to_der(k)); }
    EVP_PKEY_free(k); EVP_PKEY_CTX_free(c);
    return out;
}
static Bytes bad(int v)
{
    Bytes out;
    for (int i = 0; i < 3; i++) {
        Bytes d = i == 0 ? PUB[v] : i == 1 ? PRV[v] : KPAR[v];
        if (i == 0) d.back() ^= 0x40, d[d.size() - 2] ^= 0xff; else d[d.size() / 2 + 2] ^= 0x15;
        EVP_PKEY* k = i == 0 ? eng::pub_from_der(d) : i == 1 ? eng::priv_from_der(d) : eng::params_from_der(nid(le(v)), d);
        put(out, reenc(k, i));
    }
    return out;
}
static Bytes cmp(EVP_PKEY* a, EVP_PKEY* b)
{
    Bytes out;
    put(out, EVP_PKEY_eq(a, a)); put(out, EVP_PKEY_eq(a, b)); put(out, EVP_PKEY_parameters_eq(a, b));
    put(out, EVP_PKEY_get_bits(a)); put(out, EVP_PKEY_get_size(a)); put(out, EVP_PKEY_missing_parameters(a));
    return out;
}
static Bytes copyp(EVP_PKEY* a, int v)
{
    Bytes out;
    EVP_PKEY* e = EVP_PKEY_new(); EVP_PKEY_set_type(e, nid(le(v)));
    put(out, EVP_PKEY_copy_parameters(e, a));
    put(out, eng::params_to_der(e));
    EVP_PKEY_free(e);
    return out;
}
static Bytes kdf(int v)
{
    Bytes out, k(20), p = msg(v, 6), s = msg(v + 3, 5);
    put(out, PKCS5_PBKDF2_HMAC((const char*)p.data(), (int)p.size(), s.data(), (int)s.size(), 1, eng::md(), 20, k.data()));
    put(out, k);
    return out;
}
static Bytes readstore(int v)
{
    Bytes out, d = STORE[v], a = S("a"), b = S("b"), w = S("pw");
    KeyStore* ks = nullptr;
    int r = v == 1 ? parsePKCS12(d.data(), d.size(), (char*)w.data(), w.size(), &ks) : parseJKS(d.data(), d.size(), (char*)a.data(), a.size(), (char*)b.data(), b.size(), &ks);
    put(out, r);
    if (r == 1) {
        Contents c = contents(ks);
        for (auto& k : c.keys) put(out, k);
        for (auto& k : c.certs) put(out, k);
        KeyStoreFree(ks);
    }
    return out;
}
static const std::vector<Op> OPS = {
    {"digest", [](Obj& o, int v) { return digest(o, v, true, 41); }, false, true},
    {"digest, default s-box", [](Obj& o, int v) { return digest(o, v, false, 5); }, false, true},
    {"encrypt", [](Obj& o, int v) { return cipher(o, v, true, 1, 21); }, false, true},
    {"decrypt, default s-box", [](Obj& o, int v) { return cipher(o, v, false, 0, 11); }, false, true},
    {"sign", [](Obj& o, int v) { return do_sign(o.prv, v); }, true, true},
    {"verify", [](Obj& o, int v) { Bytes out; put(out, eng::verify(o.pub, msg(v, 32), SIG[v])); return out; }, true, true},
    {"verify another's", [](Obj& o, int v) { Bytes out, s = SIG[v]; s.back() ^= 1; put(out, eng::verify(o.pub, msg(v, 32), s)); put(out, eng::verify(o.pub, msg(v + 1, 32), SIG[v])); return out; }, true, true},
    {"digest-sign", [](Obj& o, int v) { return do_dsign(o.prv, v); }, true, true},
    {"encode public", [](Obj& o, int v) { Bytes out; put(out, eng::pub_to_der(o.pub)); return out; }, true, true},
    {"encode private", [](Obj& o, int v) { Bytes out; put(out, eng::priv_to_der(o.prv)); return out; }, true, true},
    {"encode parameters", [](Obj& o, int v) { Bytes out; put(out, eng::params_to_der(o.prv)); return out; }, true, true},
    {"decode public", [](Obj&, int v) { return reenc(eng::pub_from_der(PUB[v]), 0); }, false, true},
    {"decode private", [](Obj&, int v) { return reenc(eng::priv_from_der(PRV[v]), 1); }, false, true},
    {"decode parameters", [](Obj&, int v) { return reenc(eng::params_from_der(nid(le(v)), KPAR[v]), 2); }, false, true},
    {"decode damaged", [](Obj&, int v) { return bad(v); }, false, true},
    {"generate", [](Obj&, int v) { return gen(v); }, false, true},
    {"generate on a named curve", [](Obj&, int v) { return named(v); }, false, false},
    {"print", [](Obj& o, int v) { return do_print(o.prv); }, true, true},
    {"compare", [](Obj& o, int v) { return cmp(o.prv, o.pub); }, true, true},
    {"copy parameters", [](Obj& o, int v) { return copyp(o.prv, v); }, true, true},
    {"PBKDF2", [](Obj&, int v) { return kdf(v); }, false, false},
    {"read a store", [](Obj&, int v) { return readstore(v); }, false, false},
};
static const int N = (int)OPS.size();

// ---- the worlds -----------------------------------------------------------------------
static Obj make(int v)
{
    Obj o;
    o.prv = eng::priv_from_der(PRV[v]);
    o.pub = eng::pub_from_der(PUB[v]);
    return o;
}
static void drop(Obj& o) { EVP_PKEY_free(o.prv); EVP_PKEY_free(o.pub); o = Obj(); }
struct Task { int op, v, obj; };        // operation, variant of its inputs, object it works on
struct Live {
    std::vector<Task> t; int objs;
    std::vector<Obj> o; std::vector<Bytes> out;
    void end()
    {
        for (auto& x : o) drop(x);
        o.clear();
    }
    void fresh()
    {
        end();
        watching = false;
        for (void* p : limbo) free(p);
        limbo.clear(); twice = false;
        statics(false); sched::reset_locks(); ERR_clear_error();
        memset(rpos, 0, sizeof rpos);
        blocks.clear(); next_id = 0; watching = true;
        for (int i = 0; i < objs; i++) for (auto& x : t) if (x.obj == i) { o.push_back(OPS[x.op].key ? make(x.v) : Obj()); break; }
        out.assign(t.size(), {});
    }
    std::function<void()> body(int i) { return [this, i] { out[i] = OPS[t[i].op].run(o[t[i].obj], t[i].v); }; }
    std::vector<std::function<void()>> bodies()
    {
        std::vector<std::function<void()>> b;
        for (size_t i = 0; i < t.size(); i++) b.push_back(body((int)i));
        return b;
    }
};
// alone: one thread only, with the same environment (the random stream of that thread)
static std::vector<Bytes> alone(const std::vector<Task>& t, int objs)
{
    std::vector<Bytes> r;
    for (size_t i = 0; i < t.size(); i++) {
        Live l; l.t = t; l.objs = objs; l.fresh();
        std::vector<std::function<void()>> b;
        for (size_t k = 0; k < t.size(); k++) b.push_back(k == i ? l.body((int)i) : [] {});
        std::vector<int> ord; for (size_t k = 0; k < t.size(); k++) ord.push_back((int)k);
        sched::run(b, ord, {});
        r.push_back(l.out[i]); l.end();
    }
    return r;
}
struct Known { std::vector<Bytes> want; std::set<std::pair<int, long>> written; std::map<int, unsigned> touched; };
static void scenario(Ctx& c, uint64_t id, const std::vector<Task>& t, int objs, int bound, bool calls = false)
{
    every_call = calls; if (calls) id += 1 << 20;
    static std::map<uint64_t, Known> memo;
    Live l; l.t = t; l.objs = objs;
    auto it = memo.find(id);
    if (it == memo.end()) {
        if (memo.size() > 64) memo.clear();
        written.clear(); touched.clear(); learning = true;
        Known k;
        k.want = alone(t, objs);
        std::vector<int> ord; for (size_t i = 0; i < t.size(); i++) ord.push_back((int)i);
        do {                                     // which shared memory does anybody write?
            l.fresh(); sched::run(l.bodies(), ord, {}); learn_statics();
        } while (std::next_permutation(ord.begin(), ord.end()));
        l.end();
        learning = false;
        if (getenv("CONC_DEBUG")) {
            l.fresh(); auto b = l.bodies(); for (size_t i = 0; i < ord.size(); i++) ord[i] = i;
            struct timespec x, y; clock_gettime(CLOCK_MONOTONIC, &x);
            sched::Result r = sched::run(b, ord, {}); l.end();
            clock_gettime(CLOCK_MONOTONIC, &y);
            fprintf(stderr, "%s + %s: %ld points, %zu written, %zu touched, %.2f ms\n", OPS[t[0].op].name, OPS[t[1].op].name, r.points, written.size(), touched.size(), (y.tv_sec - x.tv_sec) * 1e3 + (y.tv_nsec - x.tv_nsec) / 1e6);
        }
        k.written = written; k.touched = touched;
        it = memo.emplace(id, k).first;
    }
    written = it->second.written; touched = it->second.touched;
    std::string names;
    for (auto& x : t) names += fmt("%s%s (key %d)", names.empty() ? "" : " | ", OPS[x.op].name, x.obj);
    sched::World w;
    w.fresh = [&] { l.fresh(); };
    w.bodies = [&] { return l.bodies(); };
    w.judge = [&](const sched::Result&) {
        c.note("%s", names.c_str());
        uint64_t h = id;
        for (auto& b : l.out) h = mix(h, hash_bytes(b));
        c.outcome(h);
        for (size_t i = 0; i < t.size(); i++)
            c.check(l.out[i] == it->second.want[i], "%s: thread %zu got %s, alone %s", names.c_str(), i, hex(l.out[i], 60).c_str(), hex(it->second.want[i], 60).c_str());
        c.check(!twice, "%s: memory was released twice", names.c_str());
        l.end();
    };
    sched::explore(c, (int)t.size(), bound, mix(id, 77), w);
}
// separate objects: every pair of operations
static void pairs(Ctx& c)
{
    int i = c.choose(N, "first"), j = c.choose(N, "second");
    if (j < i) return;
    c.shard();
    scenario(c, 1000 + i * N + j, {{i, 0, 0}, {j, 1, 1}}, 2, c.thorough() ? 4 : 3);
}
// one kind of operation in both, switching at every call into a library as well; in the thorough tier, every pair
static void calls(Ctx& c)
{
    int i = c.choose(N, "first"), j = c.thorough() ? c.choose(N, "second") : i;
    if (j < i) return;
    bool deep = c.thorough() && i == j && OPS[i].pairs;
    scenario(c, 1000 + i * N + j, {{i, 0, 0}, {j, 1, 1}}, 2, deep ? 2 : 1, true);
}
// separate objects on the same curve with the same s-box and numbers, on one kind of operation
static void twins(Ctx& c)
{
    int i = c.choose(N, "operation"), v = c.choose(3, "variant");
    scenario(c, 3000 + i * 3 + v, {{i, v, 0}, {i, v, 1}}, 2, c.thorough() ? 4 : 3);
}
// one key for both
static void sharedkey(Ctx& c)
{
    int i = c.choose(N, "first"), j = c.choose(N, "second"), v = c.choose(2, "variant");
    if (j < i || !OPS[i].key || !OPS[j].key) return;
    scenario(c, 5000 + (i * N + j) * 2 + v, {{i, v, 0}, {j, v, 0}}, 1, c.thorough() ? 3 : 2);
}
// three threads
static void triples(Ctx& c)
{
    static const int S3[][3] = {{0, 2, 4}, {4, 5, 7}, {7, 7, 7}, {8, 11, 12}, {15, 4, 12}, {13, 9, 18}, {4, 4, 5}, {0, 0, 0}, {11, 11, 11}};
    int i = c.choose(9, "threads"), m = c.choose(2, "every call");
    const int* s = S3[i];
    scenario(c, 7000 + i, {{s[0], 0, 0}, {s[1], 1, 1}, {s[2], 2, 2}}, 3, m ? 1 : c.thorough() ? 4 : 3, m);
}
int main(int argc, char** argv)
{
    CRYPTO_set_mem_functions(a_m, a_r, a_f);
    eng::get(); eng::install_rng();
    R.byte = [](size_t) { int w = sched::self() + 1; return stream(w == 0 ? 3 : w, rpos[w]++); };
    for (int i = 0; i < 18; i++) any(i);
    for (int v = 0; v < 3; v++) {
        Bytes sp = ref::alg_params(cv(v).spec(le(v)), sbox_in(sb(v)));
        EVP_PKEY* k = priv(cv(v), le(v), num(v), sb(v));
        if (!k) { fprintf(stderr, "HARNESS-ERROR key %d\n", v); return 3; }
        eng::rng = &R;
        PUB[v] = eng::pub_to_der(k); PRV[v] = eng::priv_to_der(k);
        PAR[v] = eng::params_to_der(k); KPAR[v] = PAR[v];
        if (eng::sign(k, msg(v, 32), SIG[v]) <= 0) { fprintf(stderr, "HARNESS-ERROR signature %d\n", v); return 3; }
        EVP_PKEY_free(k);
    }
    STORE[0] = jks_sign(jks_body({jks_key_entry(S("k"), Bytes(8, 1), epki(protect(p8(0, true, 3), utf16(S("b")), 1)), {cert(1)})}, 0xfeedfeed), utf16(S("a")));
    STORE[2] = jks_sign(jks_body({jks_cert_entry(S("c"), Bytes(8, 2), cert(3)), jks_key_entry(S("k"), Bytes(8, 1), epki(protect(p8(1, false, 5), utf16(S("b")), 2)), {})}, 0xcececece), utf16(S("a")));
    STORE[1] = p12::store({data_ci(ref::seqv({key_bag(p8(1, true, 5)), cert_bag(cert(2))}))}, S("pw"), 2);
    eng::rng = &R;
    for (auto& o : OPS) for (int v = 0; v < 3; v++) { Obj x = make(v); o.run(x, v); drop(x); }   // libcrypto's own first-use work
    eng::rng = &R;
    statics(true);
    sched::filter = shared; sched::ext_filter = call_shared;
    return main_impl(argc, argv, {{"pairs", pairs}, {"calls", calls}, {"twins", twins}, {"shared", sharedkey}, {"triples", triples}});
}
