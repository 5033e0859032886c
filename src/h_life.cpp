// C15 the life cycle of the engine, on the real shared object: every history in a process of its own.
#include "mc.h"
#include "ref.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/conf.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/obj_mac.h>
#include <openssl/objects.h>
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <limits.h>
#include <signal.h>
#include <sys/wait.h>
#include <unistd.h>
#include <memory>
using namespace mc;
using ref::operator+;

static std::string dir, so, conf;
static long alloc_n, alloc_fail = -1;   // allocations since the count began; the one to fail
static bool alloc_on, alloc_once;
static bool hit() { if (!alloc_on) return false; long i = alloc_n++; return alloc_fail >= 0 && (alloc_once ? i == alloc_fail : i >= alloc_fail); }
static void* m_m(size_t n, const char*, int) { return !n || hit() ? nullptr : malloc(n); }
static void* m_r(void* p, size_t n, const char*, int) { if (!n) { free(p); return nullptr; } return hit() ? nullptr : realloc(p, n); }
static void m_f(void* p, const char*, int) { free(p); }

// ---- in the child ---------------------------------------------------------------------
static int out = 2;
static std::string hist;
[[noreturn]] static void bad(const char* f, ...)
{
    char b[700]; va_list ap; va_start(ap, f); vsnprintf(b, sizeof b, f, ap); va_end(ap);
    std::string s = "after " + (hist.empty() ? "nothing" : hist) + ": " + b + "\n";
    if (write(out, s.data(), s.size()) < 0) {}
    _exit(40);
}
#define WANT(c, ...) do { if (!(c)) bad(__VA_ARGS__); } while (0)
static void say(const char* s) { hist += (hist.empty() ? "" : ", "); hist += s; }

static const char *PUB = "303a301e060b2a86240201010101030101300f060d2a86240201010101030101020003180004155825b2c0d326682a4cf7ebd5d265827acda12f0501",
    *PRIV = "303a020100301e060b2a86240201010101030101300f060d2a862402010101010301010200041555e82b0d01ea4c9445257858330ee9c49f7a553003",
    *SIG = "042ada445f87ab541765c5dcf7234b45bf5f01a53178010de1412251f89d49ba77848e5ff884cfbb71afd803";
static EVP_PKEY* pub() { Bytes b = ref::unhex(PUB); const uint8_t* p = b.data(); return d2i_PUBKEY(nullptr, &p, (long)b.size()); }
static EVP_PKEY* prv()
{
    Bytes b = ref::unhex(PRIV); const uint8_t* p = b.data();
    PKCS8_PRIV_KEY_INFO* i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long)b.size());
    EVP_PKEY* k = i ? EVP_PKCS82PKEY(i) : nullptr;
    PKCS8_PRIV_KEY_INFO_free(i);
    return k;
}
static const Bytes KEY(32, 0x31), IV(8, 0x42), HASH(32, 7);
static const Bytes& digest_want() { static const Bytes w = ref::hash(ref::str("abc")); return w; }
static const Bytes& kdf_want() { static const Bytes w = ref::pbkdf2(ref::str("pw"), ref::str("salt"), 2, 20); return w; }
static Bytes cipher_want(const Bytes& m) { static const ref::Gost g(ref::DEFAULT_SBOX, KEY.data()); return ref::cfb(m, g, IV, true); }

// what the engine offers, reached by name; false with 'why' if some part does not work (never a wrong result)
static bool works(bool may_fail, const char* when)
{
    auto no = [&](const char* what) { if (!may_fail) { ERR_print_errors_fp(stderr); bad("%s: %s does not work", when, what); } return false; };
    for (const char* n : {SN_dstu34311, LN_dstu34311}) {
        const EVP_MD* md = EVP_get_digestbyname(n);
        if (!md) return no("digest lookup by name");
        uint8_t o[64]; unsigned l = 0;
        if (EVP_Digest("abc", 3, o, &l, md, nullptr) != 1) return no("digest");
        const Bytes& w = digest_want();
        WANT(l == 32 && !memcmp(o, w.data(), 32), "%s: wrong digest", when);
        Bytes k(20);
        if (PKCS5_PBKDF2_HMAC("pw", 2, (const uint8_t*)"salt", 4, 2, md, 20, k.data()) != 1) return no("PBKDF2");
        const Bytes& wk = kdf_want();
        WANT(k == wk, "%s: wrong PBKDF2", when);
    }
    int cn = 0, mn = 0;
    if (!EVP_PBE_find(EVP_PBE_TYPE_PRF, NID_hmacWithDstu34311, &cn, &mn, nullptr) || mn != NID_dstu34311) return no("PRF lookup");
    for (const char* n : {SN_dstu28147_cfb, LN_dstu28147_cfb}) {
        const EVP_CIPHER* c = EVP_get_cipherbyname(n);
        if (!c) return no("cipher lookup by name");
        EVP_CIPHER_CTX* x = EVP_CIPHER_CTX_new();
        uint8_t o[64]; int l = 0, l2 = 0;
        bool r = x && EVP_EncryptInit_ex(x, c, nullptr, KEY.data(), IV.data()) == 1 && EVP_EncryptUpdate(x, o, &l, HASH.data(), 32) == 1 && EVP_EncryptFinal_ex(x, o + l, &l2) == 1;
        EVP_CIPHER_CTX_free(x);
        if (!r) return no("cipher");
        WANT(l + l2 == 32 && !memcmp(o, cipher_want(HASH).data(), 32), "%s: wrong ciphertext", when);
    }
    EVP_PKEY *p = pub(), *d = prv();
    if (!p || !d) { EVP_PKEY_free(p); EVP_PKEY_free(d); return no("key decoding"); }
    Bytes sig = ref::unhex(SIG), s2(200); size_t n = s2.size();
    EVP_PKEY_CTX *v = EVP_PKEY_CTX_new(p, nullptr), *s = EVP_PKEY_CTX_new(d, nullptr), *v2 = EVP_PKEY_CTX_new(d, nullptr);
    int r1 = v && EVP_PKEY_verify_init(v) > 0 ? EVP_PKEY_verify(v, sig.data(), sig.size(), HASH.data(), 32) : -1;
    int r2 = s && EVP_PKEY_sign_init(s) > 0 ? EVP_PKEY_sign(s, s2.data(), &n, HASH.data(), 32) : -1;
    int r3 = r2 == 1 && v2 && EVP_PKEY_verify_init(v2) > 0 ? EVP_PKEY_verify(v2, s2.data(), n, HASH.data(), 32) : -1;
    EVP_PKEY_CTX_free(v); EVP_PKEY_CTX_free(s); EVP_PKEY_CTX_free(v2);
    int eq = EVP_PKEY_eq(p, d);
    if (!may_fail) {                    // an error of the engine's own, with its text
        EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(d, nullptr);
        ERR_clear_error();
        WANT(c && EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_TYPE_SIG, EVP_PKEY_CTRL_MD, 0, (void*)EVP_sha256()) <= 0, "%s: signing another digest", when);
        EVP_PKEY_CTX_free(c);
        unsigned long er = 0, ours = 0;
        while ((er = ERR_get_error())) if (ERR_GET_LIB(er) >= ERR_LIB_USER) ours = er;
        WANT(!ours || (ERR_reason_error_string(ours) && ERR_lib_error_string(ours)), "%s: error %lx has no text", when, ours);
    }
    EVP_PKEY_free(p); EVP_PKEY_free(d);
    if (!may_fail) {
        WANT(r1 == 1, "%s: a known signature does not verify (%d)", when, r1);
        WANT(r2 == 1 && r3 == 1, "%s: signing %d, verifying that %d", when, r2, r3);
        WANT(eq == 1, "%s: public and private key do not match", when);
    }
    return r1 == 1 && r2 == 1 && r3 == 1 && eq == 1;
}
static void absent(const char* when)
{
    for (const char* n : {SN_dstu34311, LN_dstu34311}) WANT(!EVP_get_digestbyname(n), "%s: digest %s still has a name", when, n);
    for (const char* n : {SN_dstu28147_cfb, LN_dstu28147_cfb}) WANT(!EVP_get_cipherbyname(n), "%s: cipher %s still has a name", when, n);
    WANT(!EVP_get_digestbynid(NID_dstu34311), "%s: digest still there", when);
    EVP_PKEY* k = pub();
    WANT(!k, "%s: public key decoded", when);
    k = prv();
    WANT(!k, "%s: private key decoded", when);
    WANT(!EVP_PKEY_CTX_new_id(NID_dstu4145le, nullptr), "%s: key method found", when);
    ENGINE* e = ENGINE_get_digest_engine(NID_dstu34311);
    WANT(!e, "%s: an engine is registered for the digest", when);
    ERR_clear_error();
}
enum Kind { LISTED, UNLISTED, BY_ID, CONFIG, NKIND };
static const char* KIND[] = {"load into the list", "load", "load by id", "load by configuration"};
static ENGINE* load(Kind k, const char* id = nullptr)
{
    if (k == BY_ID) return ENGINE_by_id("dstu");
    if (k == CONFIG) {
        if (CONF_modules_load_file(conf.c_str(), nullptr, 0) != 1) return nullptr;
        ENGINE* e = ENGINE_by_id("dstu");
        ENGINE_free(e);     // the configuration module keeps it
        return e;
    }
    ENGINE* e = ENGINE_by_id("dynamic");
    if (!e) return nullptr;
    if (ENGINE_ctrl_cmd_string(e, "SO_PATH", so.c_str(), 0) != 1 || (id && ENGINE_ctrl_cmd_string(e, "ID", id, 0) != 1) || ENGINE_ctrl_cmd_string(e, "LIST_ADD", k == LISTED ? "1" : "0", 0) != 1 || ENGINE_ctrl_cmd_string(e, "LOAD", nullptr, 0) != 1) { ENGINE_free(e); return nullptr; }
    return e;
}
static bool listed(ENGINE* e)
{
    ENGINE* x = ENGINE_get_first(); bool r = false;
    while (x) { r |= x == e; x = ENGINE_get_next(x); }
    return r;
}
struct Inst { ENGINE* e = nullptr; bool loaded = false; int inits = 0; Kind kind = LISTED; bool rand = false; };
struct World {
    Inst in;
    EVP_MD_CTX* md = nullptr; EVP_CIPHER_CTX* ci = nullptr; EVP_PKEY* key = nullptr; EVP_MD_CTX* ds = nullptr;
    bool objs() const { return md || key || ds; }
    bool idle() const { return !in.loaded && !objs() && !in.inits; }
};
static void unload(World& w)
{
    Inst& x = w.in;
    ENGINE* e = x.e;
    if (x.rand) { WANT(RAND_set_rand_method(nullptr), "resetting the random generator failed"); x.rand = false; }
    ENGINE_unregister_digests(e); ENGINE_unregister_ciphers(e); ENGINE_unregister_pkey_meths(e); ENGINE_unregister_pkey_asn1_meths(e); ENGINE_unregister_RAND(e);
    if (listed(e)) WANT(ENGINE_remove(e), "removing from the list failed");
    if (x.kind == CONFIG) { CONF_modules_finish(); }
    else ENGINE_free(e);
    x.loaded = false;
}
static void check_idle(World& w, const char* when) { if (w.idle()) absent(when); }
static void open_md(World& w)
{
    w.md = EVP_MD_CTX_new(); w.ci = EVP_CIPHER_CTX_new();
    WANT(EVP_DigestInit_ex(w.md, EVP_get_digestbyname(SN_dstu34311), nullptr) == 1 && EVP_DigestUpdate(w.md, "a", 1) == 1, "digest context");
    WANT(EVP_EncryptInit_ex(w.ci, EVP_get_cipherbyname(SN_dstu28147_cfb), nullptr, KEY.data(), IV.data()) == 1, "cipher context");
}
static void close_md(World& w)
{
    const Bytes& want = digest_want();
    uint8_t o[64]; unsigned l = 0; int n = 0;
    EVP_MD_CTX* c2 = EVP_MD_CTX_new();
    WANT(EVP_MD_CTX_copy_ex(c2, w.md) == 1, "copying a digest context opened before");
    WANT(EVP_DigestUpdate(w.md, "bc", 2) == 1 && EVP_DigestFinal_ex(w.md, o, &l) == 1 && l == 32 && !memcmp(o, want.data(), 32), "a digest context opened before gives a wrong result");
    WANT(EVP_DigestUpdate(c2, "bc", 2) == 1 && EVP_DigestFinal_ex(c2, o, &l) == 1 && l == 32 && !memcmp(o, want.data(), 32), "a copied digest context gives a wrong result");
    WANT(EVP_EncryptUpdate(w.ci, o, &n, HASH.data(), 32) == 1 && n == 32 && !memcmp(o, cipher_want(HASH).data(), 32), "a cipher context opened before gives a wrong result");
    EVP_MD_CTX_free(w.md); EVP_MD_CTX_free(c2); EVP_CIPHER_CTX_free(w.ci); w.md = nullptr; w.ci = nullptr;
}
static void close_key(World& w)
{
    BIO* b = BIO_new(BIO_s_mem());
    WANT(EVP_PKEY_print_private(b, w.key, 0, nullptr) == 1, "printing a key opened before");
    BIO_free(b);
    uint8_t* o = nullptr; int n = i2d_PUBKEY(w.key, &o);
    WANT(n > 0 && Bytes(o, o + n) == ref::unhex(PUB), "a key opened before encodes differently");
    OPENSSL_free(o); EVP_PKEY_free(w.key); w.key = nullptr;
}
static void open_ds(World& w)
{
    EVP_PKEY* k = prv();
    WANT(k, "private key");
    w.ds = EVP_MD_CTX_new();
    WANT(EVP_DigestSignInit(w.ds, nullptr, EVP_get_digestbyname(SN_dstu34311), nullptr, k) == 1 && EVP_DigestSignUpdate(w.ds, "ab", 2) == 1, "signing context");
    EVP_PKEY_free(k);
}
static void close_ds(World& w)
{
    size_t n = 0; Bytes s(200);
    n = s.size();
    WANT(EVP_DigestSignUpdate(w.ds, "c", 1) == 1 && EVP_DigestSignFinal(w.ds, s.data(), &n) == 1, "signing with a context opened before");
    EVP_MD_CTX* v = EVP_MD_CTX_new(); EVP_PKEY_CTX* pc = EVP_MD_CTX_pkey_ctx(w.ds); EVP_PKEY* k = EVP_PKEY_CTX_get0_pkey(pc);
    WANT(EVP_DigestVerifyInit(v, nullptr, EVP_MD_CTX_md(w.ds), nullptr, k) == 1 && EVP_DigestVerify(v, s.data(), n, (const uint8_t*)"abc", 3) == 1, "a signature by a context opened before does not verify");
    EVP_MD_CTX_free(v); EVP_MD_CTX_free(w.ds); w.ds = nullptr;
}
// runs f in a child; returns what it said, with its fate
static std::string child(const std::function<void()>& f, int& fate)
{
    int p[2];
    if (pipe(p)) { perror("HARNESS-ERROR pipe"); _exit(3); }
    fflush(nullptr);
    pid_t pid = fork();
    if (pid < 0) { perror("HARNESS-ERROR fork"); _exit(3); }
    if (!pid) {
        close(p[0]); dup2(p[1], 2); out = p[1];
        for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL, SIGALRM}) signal(s, SIG_DFL);
        alarm(60);
        f();
        exit(0);
    }
    close(p[1]);
    std::string s; char b[4096]; ssize_t n;
    while ((n = read(p[0], b, sizeof b)) > 0) s.append(b, n);
    close(p[0]);
    waitpid(pid, &fate, 0);
    return s;
}
static void judge(Ctx& c, const std::string& s, int fate, const std::string& what)
{
    if (WIFEXITED(fate) && WEXITSTATUS(fate) == 0) return;
    size_t q = s.find("ERROR: AddressSanitizer");
    std::string t = q != std::string::npos ? s.substr(q, 1200) : s.size() > 3000 ? s.substr(0,3000) : s;
    if (WIFSIGNALED(fate)) c.fail("%s: ended by signal %d\n%s", what.c_str(), WTERMSIG(fate), t.c_str());
    c.fail("%s: %s", what.c_str(), t.empty() ? fmt("exit status %d", WEXITSTATUS(fate)).c_str() : t.c_str());
}
// ---- every history --------------------------------------------------------------------
// The choices are made here, on a model of what is possible; the child plays them.
struct M { bool loaded = false, rand = false; int inits = 0; bool obj[3] = {}; bool alive() const { return loaded || inits || obj[0] || obj[1] || obj[2]; } };
static void play(Ctx& c, int depth)
{
    struct Op { int code, arg; };
    enum { LOAD, INIT, FINISH, DEFAULT, RNG, OPEN, CLOSE, ERRS, UNLOAD, WRONG, AGAIN };
    M m;
    std::vector<Op> ops;
    int each = c.choose(2, "use after every step"), ending = c.choose(3, "ending");
    auto apply = [&](Op o) {
        switch (o.code) {
        case LOAD: m.loaded = true; break;
        case INIT: m.inits++; break;
        case FINISH: m.inits--; break;
        case RNG: m.rand = true; break;
        case OPEN: m.obj[o.arg] = true; break;
        case CLOSE: m.obj[o.arg] = false; break;
        case UNLOAD: m.loaded = m.rand = false; break;
        }
        ops.push_back(o);
    };
    for (int q = 0; q < depth; q++) {
        std::vector<Op> en;
        if (!m.alive()) for (int k = 0; k < NKIND; k++) en.push_back({LOAD, k});
        else en.push_back({AGAIN, 0});
        en.push_back({WRONG, 0});
        if (m.loaded) {
            if (m.inits < 2) en.push_back({INIT, 0});
            en.push_back({DEFAULT, 0});
            if (!m.rand) en.push_back({RNG, 0});
            en.push_back({UNLOAD, 0});
        }
        if (m.inits) en.push_back({FINISH, 0});
        for (int k = 0; k < 3; k++) if (m.obj[k]) en.push_back({CLOSE, k}); else if (m.loaded) en.push_back({OPEN, k});
        if (m.loaded) en.push_back({ERRS, 0});
        apply(en[c.choose((int)en.size(), "operation")]);
        if (q == 1) c.shard();
    }
    c.step(ops.size());
    int fate = 0;
    std::string s = child([&] {
        World w;
        ENGINE_load_dynamic();
        if (ending == 2) { say("object mapped by the application"); WANT(dlopen(so.c_str(), RTLD_NOW), "dlopen"); }
        for (auto& o : ops) {
            Inst& x = w.in;
            switch (o.code) {
            case LOAD: { x.kind = (Kind)o.arg;
                say(KIND[x.kind]);
                x.e = load(x.kind); if (!x.e) ERR_print_errors_fp(stderr); WANT(x.e, "loading failed"); x.loaded = true; x.rand = false;
                WANT(!strcmp(ENGINE_get_id(x.e), "dstu"), "identifier %s", ENGINE_get_id(x.e)); break; }
            case WRONG: say("load under another identifier"); WANT(!load(UNLISTED, "dstu2"), "loaded under another identifier"); ERR_clear_error(); break;
            // libcrypto refuses to load the same object twice; whatever it answers, the first is not to suffer
            case AGAIN: { say("load again"); ENGINE* e = load(UNLISTED); ERR_clear_error(); if (e) { Inst i = x; x.e = e; x.kind = UNLISTED; x.loaded = true; x.rand = false; works(true, "both loaded"); unload(w); x = i; } break; }
            case INIT: say("init"); WANT(ENGINE_init(x.e) == 1, "initialisation failed"); x.inits++; break;
            case FINISH: say("finish"); WANT(ENGINE_finish(x.e) == 1, "finish failed"); x.inits--; break;
            case DEFAULT: say("set default"); WANT(ENGINE_set_default(x.e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND) == 1, "set default failed"); break;
            case RNG: { say("random generator"); WANT(RAND_set_rand_engine(x.e) == 1, "setting the random generator failed"); x.rand = true;
                uint8_t b[64] = {}, z[64] = {}; WANT(RAND_bytes(b, 64) == 1 && memcmp(b, z, 64), "random generator does not work"); break; }
            case OPEN: say(o.arg == 0 ? "open digest and cipher" : o.arg == 1 ? "open key" : "open signing"); if (o.arg == 0) open_md(w); else if (o.arg == 1) { w.key = prv(); WANT(w.key, "private key"); } else open_ds(w); break;
            case CLOSE: say(o.arg == 0 ? "close digest and cipher" : o.arg == 1 ? "close key" : "close signing"); if (o.arg == 0) close_md(w); else if (o.arg == 1) close_key(w); else close_ds(w); break;
            case ERRS: { say("error"); // an error the engine reports
                EVP_PKEY_CTX* kc = EVP_PKEY_CTX_new_id(NID_dstu4145le, nullptr); WANT(kc, "key context");
                WANT(EVP_PKEY_keygen_init(kc) > 0, "key generation context");
                ERR_clear_error();
                WANT(EVP_PKEY_CTX_ctrl_str(kc, "sbox", "zz") <= 0, "a wrong s-box accepted");
                EVP_PKEY_CTX_free(kc);
                Bytes b = ref::unhex(PUB); b[31] = 9; const uint8_t* p = b.data(); EVP_PKEY* k = d2i_PUBKEY(nullptr, &p, (long)b.size()); EVP_PKEY_free(k);
                char t[300]; unsigned long er; while ((er = ERR_get_error())) ERR_error_string_n(er, t, sizeof t);
                break; }
            case UNLOAD: say("unload"); unload(w); break;
            }
            check_idle(w, "nothing loaded");
            if (each && w.in.loaded) works(false, "in use");
        }
        if (w.in.loaded) works(false, "in use");
        if (ending == 1) {
            say("exit");
            return;
        }
        say("close everything");
        if (w.md) close_md(w);
        if (w.in.loaded) unload(w);
        if (w.ds) close_ds(w);
        while (w.in.inits) { WANT(ENGINE_finish(w.in.e) == 1, "finish failed"); w.in.inits--; }
        if (w.key) close_key(w);
        WANT(w.idle(), "not idle");
        absent("everything closed");
        say("load once more");
        World w2;
        w2.in.e = load(LISTED); WANT(w2.in.e, "loading again failed"); w2.in.loaded = true;
        works(false, "loaded again");
        unload(w2);
        absent("at the end");
        say("exit");
    }, fate);
    uint64_t h = 0;
    std::string names;
    static const char* N[] = {"load", "init", "finish", "default", "rand", "open", "close", "errors", "unload", "wrong-id", "again"};
    for (auto& o : ops) { h = mix(h, o.code * 16 + o.arg + 1); names += fmt("%s%s%d", names.empty() ? "" : " ", N[o.code], o.arg); c.state(h); }
    c.note("%s%s, %s", names.c_str(), each ? ", used after every step" : "", ending == 1 ? "left open at exit" : ending ? "closed, the object mapped throughout" : "closed");
    judge(c, s, fate, names);
    c.outcome(mix(m.loaded + 4 * m.inits, m.obj[0] + 2 * m.obj[1] + 4 * m.obj[2]));
}
static void histories(Ctx& c) { play(c, c.thorough() ? 5 : 4); }
// ---- repeated cycles leave nothing behind that grows -----------------------------------
static void cycles(Ctx& c)
{
    int kind = c.choose(NKIND, "how"), use = c.choose(8, "use"), n = 8;
    c.shard();
    int fate = 0;
    std::string s = child([&] {
        ENGINE_load_dynamic();
        long live[16], grow[2] = {0, 0};
        for (int part = 0; part < 2; part++) { // part 0: nothing but loading and unloading
            for (int i = 0; i < n; i++) {
                hist = fmt("%d cycles (%s, use %d)", i, KIND[kind], part ? use : 0);
                World w; Inst& x = w.in;
                x.kind = (Kind)kind; x.e = load(x.kind); WANT(x.e, "loading failed"); x.loaded = true;
                if (part && use & 1) { WANT(ENGINE_init(x.e) == 1, "init"); works(false, "in use"); WANT(ENGINE_finish(x.e) == 1, "finish"); }
                if (part && use & 2) { WANT(RAND_set_rand_engine(x.e) == 1, "random generator"); x.rand = true; uint8_t b[8]; WANT(RAND_bytes(b, 8) == 1, "random"); }
                if (part && use & 4) { open_md(w); open_ds(w); w.key = prv(); }
                unload(w);
                if (part && use & 4) { close_ds(w); close_key(w); close_md(w); }
                absent("after a cycle");
                live[i] = live_allocs();
            }
            grow[part] = live[n - 1] - live[n - 5];
            // libcrypto 3.0 itself keeps something per load (a PRF table entry, an index), but nothing that depends on use
            WANT(grow[part] <= 4 * 4 + 1 && (!part || grow[1] <= grow[0] + 1), "memory in use grows by %ld in 4 cycles, %ld without use", grow[part], grow[0]);
        }
    }, fate);
    c.step(2 * n);
    c.state(kind * 8 + use); c.outcome(use); c.note("%s, use %d: %d cycles", KIND[kind], use, 2 * n);
    judge(c, s, fate, fmt("%d cycles", 2 * n));
}
// ---- an allocation fails while loading ---------------------------------------------------
static void scarce(Ctx& c)
{
    static long total[NKIND];
    int kind = c.choose(NKIND, "how"), once = c.choose(2, "once");
    auto run = [&](long at, bool report) {
        ENGINE_load_dynamic();
        World w;
        ENGINE_free(ENGINE_by_id("dynamic"));
        hist = at < 0 ? "" : fmt("%s with allocation %ld failing%s", KIND[kind], at, once ? "" : " and all later ones");
        alloc_n = 0; alloc_fail = at; alloc_once = once; alloc_on = true;
        ENGINE* e = load((Kind)kind);
        bool ini = e && ENGINE_init(e);
        bool def = ini && ENGINE_set_default(e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND);
        alloc_on = false;
        if (report) { std::string s = std::to_string(alloc_n); if (write(out, s.data(), s.size()) < 0) {} }
        (void)def;
        ERR_clear_error();
        if (e) {
            w.in.e = e; w.in.loaded = true; w.in.kind = (Kind)kind;
            WANT(!strcmp(ENGINE_get_id(e), "dstu"), "identifier");
            // registration may have been lost; the rest is there or not, never wrong
            works(true, "loaded without memory");
            if (ini) ENGINE_finish(e);
            unload(w);
        } else if (kind == CONFIG) { CONF_modules_finish();
            // libcrypto's configuration module gives up half way without taking the engine back: do that here
            for (ENGINE* x = ENGINE_get_first(); x;) {
                ENGINE* nx = nullptr; bool ours = !strcmp(ENGINE_get_id(x) ? ENGINE_get_id(x) : "", "dstu");
                if (ours) { ENGINE_unregister_digests(x); ENGINE_unregister_ciphers(x); ENGINE_unregister_pkey_meths(x); ENGINE_unregister_pkey_asn1_meths(x); ENGINE_unregister_RAND(x); ENGINE_remove(x); ENGINE_free(x); break; }
                nx = ENGINE_get_next(x); x = nx;
            }
        }
        ERR_clear_error();
        absent("after loading without memory");
        hist += ", load again";
        World w2;
        w2.in.e = load(LISTED); if (!w2.in.e) ERR_print_errors_fp(stderr); WANT(w2.in.e, "loading with enough memory failed"); w2.in.loaded = true;
        works(false, "with enough memory");
        unload(w2);
        absent("at the end");
    };
    if (!total[kind]) {
        int fate = 0; std::string s = child([&] { run(-1, true); }, fate);
        total[kind] = atol(s.c_str());
        judge(c, s, fate, "loading");
        if (total[kind] < 20) { fprintf(stderr, "HARNESS-ERROR %ld allocations counted\n", total[kind]); _exit(3); }
    }
    int k = c.choose((int)total[kind], "which allocation");
    c.shard();
    int fate = 0;
    std::string s = child([&] { run(k, false); }, fate);
    c.step();
    c.state(mix(kind * 4 + once, k)); c.outcome(mix(s.size(), WEXITSTATUS(fate)));
    c.note("%s, allocation %d of %ld fails%s", KIND[kind], k, total[kind], once ? "" : " and all later ones");
    judge(c, s, fate, "loading without memory");
}
int main(int argc, char** argv)
{
    if (!CRYPTO_set_mem_functions(m_m, m_r, m_f)) { fprintf(stderr, "HARNESS-ERROR memory functions\n"); return 3; }
    char b[PATH_MAX]; ssize_t n = readlink("/proc/self/exe", b, sizeof b - 1);
    b[n > 0 ? n : 0] = 0;
    dir = b; dir.resize(dir.rfind('/'));
    so = dir + "/dstu.so"; conf = dir + "/life.cnf";
    std::string tmp = conf + fmt(".%d", (int)getpid());
    FILE* f = fopen(tmp.c_str(), "w");
    if (!f) { perror("HARNESS-ERROR configuration"); return 3; }
    fprintf(f, "openssl_conf = a\n[a]\nengines = b\n[b]\ndstu = c\n[c]\nengine_id = dstu\ndynamic_path = %s\ninit = 1\ndefault_algorithms = PKEY,PKEY_ASN1,DIGESTS,CIPHERS\n", so.c_str());
    fclose(f);
    if (rename(tmp.c_str(), conf.c_str())) { perror("HARNESS-ERROR configuration"); return 3; }
    setenv("OPENSSL_ENGINES", dir.c_str(), 1); setenv("OPENSSL_CONF", "/dev/null", 1);
    // reference values and libcrypto's own tables, once for all children
    digest_want(); kdf_want(); cipher_want(HASH);
    { EVP_MD_CTX* x = EVP_MD_CTX_new(); uint8_t o[64]; EVP_DigestInit_ex(x, EVP_sha256(), nullptr); EVP_DigestFinal_ex(x, o, nullptr); EVP_MD_CTX_free(x); RAND_bytes(o, 8); ERR_clear_error(); }
    return main_impl(argc, argv, {{"histories", histories}, {"cycles", cycles}, {"scarce", scarce}});
}
