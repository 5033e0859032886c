// C02 (streaming) and C03 (configuration) of the GOST 28147 CFB cipher.
#include "eng.h"
using namespace mc;

static Bytes key(int i) { Bytes k(32); for (int j = 0; j < 32; j++) k[j] = i == 0 ? (uint8_t)(j * 11 + 3) : i == 1 ? (uint8_t)(0xff - j * 5) : 0; return k; }
static Bytes ivec(int i) { Bytes v(8); for (int j = 0; j < 8; j++) v[j] = i == 0 ? (uint8_t)(0x10 + j) : i == 1 ? (uint8_t)(0xf7 - 29 * j) : 0; return v; }
static Bytes data(size_t n, int seed = 0) { Bytes d(n); for (size_t i = 0; i < n; i++) d[i] = (uint8_t)(i * 13 + (i >> 4) * 7 + seed * 91 + 5); return d; }
struct C { EVP_CIPHER_CTX* x; C() : x(EVP_CIPHER_CTX_new()) {} ~C() { EVP_CIPHER_CTX_free(x); } };

// one update on exactly sized heap buffers
static Bytes upd(Ctx& c, EVP_CIPHER_CTX* x, const Bytes& in, bool inplace, const char* what)
{
    int n = -7;
    Bytes out;
    c.step();
    if (inplace) {
        uint8_t* b = (uint8_t*)malloc(in.size() ? in.size() : 1);
        if (in.size()) memcpy(b, in.data(), in.size());
        int r = EVP_CipherUpdate(x, b, &n, b, (int)in.size());
        if (r == 1 && n == (int)in.size()) out.assign(b, b + n);
        free(b);
        c.check(r == 1 && n == (int)in.size(), "%s: in-place update of %zu bytes returned %d with length %d", what, in.size(), r, n);
    } else {
        uint8_t* a = (uint8_t*)malloc(in.size() ? in.size() : 1);
        uint8_t* b = (uint8_t*)malloc(in.size() ? in.size() : 1);
        if (in.size()) memcpy(a, in.data(), in.size());
        int r = EVP_CipherUpdate(x, b, &n, a, (int)in.size());
        bool same = in.empty() || !memcmp(a, in.data(), in.size());
        if (r == 1 && n == (int)in.size()) out.assign(b, b + n);
        free(a); free(b);
        c.check(r == 1 && n == (int)in.size(), "%s: update of %zu bytes returned %d with length %d", what, in.size(), r, n);
        c.check(same, "%s: update modified its input", what);
    }
    return out;
}
static void fin(Ctx& c, EVP_CIPHER_CTX* x)
{
    Bytes t(16, 0x5a); int n = -1;
    c.check(EVP_CipherFinal_ex(x, t.data(), &n) == 1 && n == 0, "final failed or produced %d bytes", n);
    for (auto b : t) c.check(b == 0x5a, "final wrote output");
}

// every split into up to four updates
static void g_split(Ctx& c)
{
    int maxlen = c.thorough() ? 33 : 25;
    int enc = c.choose(2, "enc"), inplace = c.choose(2, "inplace"), sb = c.choose(2, "sbox");
    int L = c.choose(maxlen + 1, "length");
    int a = c.choose(L + 1, "cut");
    c.shard();
    int b = c.choose(L - a + 1, "cut"), d = c.choose(L - a - b + 1, "cut");
    ref::Gost g(ref::custom_sbox(sb * 2).data(), key(0).data());
    Bytes in = data(L), want = ref::cfb(in, g, ivec(0), enc);
    C x;
    Bytes k = key(0), v = ivec(0);
    c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), k.data(), v.data(), enc) == 1, "init");
    if (sb) { Bytes s = ref::custom_sbox(2); c.check(EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, 64, s.data()) > 0, "s-box"); }
    int cut[5] = {0, a, a + b, a + b + d, L};
    Bytes got;
    for (int i = 0; i < 4; i++) got = got + upd(c, x.x, Bytes(in.begin() + cut[i], in.begin() + cut[i + 1]), inplace, "split");
    fin(c, x.x);
    c.note("%s %d bytes as %d+%d+%d+%d%s", enc ? "encrypt" : "decrypt", L, a, b, d, L - a - b - d, inplace ? " in place" : "");
    c.state(mix(mix(L, a), mix(b, d)) ^ (enc * 2 + inplace)); c.outcome(hash_bytes(got));
    c.check(got == want, "%s of %d bytes split %d+%d+%d+%d%s, s-box %d: %s, expected %s", enc ? "encryption" : "decryption", L, a, b, d, L - a - b - d, inplace ? " in place" : "", sb, hex(got).c_str(), hex(want).c_str());
}
// two interleaved contexts and copies at any point
static void g_ops(Ctx& c)
{
    static const int lens[] = {0, 1, 3, 8, 11};
    int enc = c.choose(2, "enc");
    C x[2];
    struct M { bool live = false; Bytes in, out; int k = 0; } m[2];
    int depth = c.thorough() ? 6 : 5;
    Bytes v = ivec(0);
    for (int i = 0; i < 2; i++) {
        Bytes k = key(i);
        c.check(EVP_CipherInit_ex(x[i].x, eng::cipher(), eng::get(), k.data(), v.data(), enc) == 1, "init");
        m[i].live = true; m[i].k = i;
    }
    int seed = 1;
    for (int d = 0; d < depth; d++) {
        int op = c.choose(2 * 5 + 2, "op");
        if (d == 2) c.shard();
        if (op < 10) {
            int i = op / 5, l = lens[op % 5];
            Bytes in = data(l, seed++);
            Bytes o = upd(c, x[i].x, in, false, "interleaved");
            m[i].in = m[i].in + in; m[i].out = m[i].out + o;
            c.note("ctx%d update %d", i, l);
        } else {
            int i = op - 10;   // copy i over the other
            c.step();
            c.check(EVP_CIPHER_CTX_copy(x[1 - i].x, x[i].x) == 1, "copy failed");
            m[1 - i] = m[i];
            c.note("ctx%d copied", i);
        }
        c.state(mix(mix(m[0].k, hash_bytes(m[0].in)), mix(m[1].k, hash_bytes(m[1].in))));
    }
    for (int i = 0; i < 2; i++) {
        // five more bytes prove the state, not only the past output
        Bytes in = data(5, 77);
        m[i].out = m[i].out + upd(c, x[i].x, in, false, "tail"); m[i].in = m[i].in + in;
        ref::Gost g(ref::DEFAULT_SBOX, key(m[i].k).data());
        Bytes want = ref::cfb(m[i].in, g, v, enc);
        c.outcome(hash_bytes(m[i].out));
        c.check(m[i].out == want, "context %d (%zu bytes, key %d, %s): %s, expected %s", i, m[i].in.size(), m[i].k, enc ? "encrypt" : "decrypt", hex(m[i].out).c_str(), hex(want).c_str());
    }
}
// longer data: every chunk size, both directions, and back
static void g_long(Ctx& c)
{
    static const int lens[] = {64, 100, 511, 512, 1000, 1023, 1024, 1025, 1032, 2048, 4096, 4103, 8192, 8200, 65536, 70003};
    int li = c.choose(c.thorough() ? 16 : 14, "len"), ch = c.choose(40, "chunk"), inplace = c.choose(2, "inplace"), kv = c.choose(2, "key");
    c.shard();
    size_t L = lens[li], step = ch < 33 ? ch + 1 : ch == 33 ? 63 : ch == 34 ? 64 : ch == 35 ? 255 : ch == 36 ? 1023 : ch == 37 ? 1024 : ch == 38 ? 4096 : L;
    if (L > 10000 && step < 16) return;
    ref::Gost g(ref::DEFAULT_SBOX, key(kv).data());
    static std::map<std::pair<int,int>, Bytes> memo;
    Bytes in = data(L, kv);
    Bytes& want = memo[{li, kv}];
    if (want.empty()) want = ref::cfb(in, g, ivec(kv), true);
    Bytes k = key(kv), v = ivec(kv);
    for (int enc = 1; enc >= 0; enc--) {
        C x;
        c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), k.data(), v.data(), enc) == 1, "init");
        const Bytes& src = enc ? in : want;
        Bytes got;
        for (size_t p = 0; p < L; p += step) { Bytes o = upd(c, x.x, Bytes(src.begin() + p, src.begin() + std::min(L, p + step)), inplace, "long"); got.insert(got.end(), o.begin(), o.end()); }
        fin(c, x.x);
        c.outcome(hash_bytes(got));
        c.check(got == (enc ? want : in), "%s %zu bytes in chunks of %zu%s (key %d) differs from the standard", enc ? "encrypting" : "decrypting", L, step, inplace ? " in place" : "", kv);
    }
    c.note("%zu bytes in chunks of %zu", L, step);
    c.state(mix(mix(li, ch), mix(inplace, kv)));
}
// single updates around powers of two far above the block size
static void g_huge(Ctx& c)
{
    static const int lens[] = {65535 * 8, 65536 * 8, 65536 * 8 + 5, 65537 * 8, 800011, (1 << 20) + 1, (1 << 24) + 9};
    int li = c.choose(c.thorough() ? 7 : 6, "len"), first = c.choose(3, "first update"), inplace = c.choose(2, "inplace");
    c.shard();
    size_t L = lens[li], cut = first * 3;
    ref::Gost g(ref::DEFAULT_SBOX, key(0).data());
    static std::map<int, Bytes> memo;
    Bytes in = data(L, 1), k = key(0), v = ivec(0);
    Bytes& want = memo[li];
    if (want.empty()) want = ref::cfb(in, g, v, true);
    for (int enc = 1; enc >= 0; enc--) {
        C x;
        c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), k.data(), v.data(), enc) == 1, "init");
        const Bytes& src = enc ? in : want;
        Bytes got;
        if (cut) got = upd(c, x.x, Bytes(src.begin(), src.begin() + cut), inplace, "huge");
        Bytes o = upd(c, x.x, Bytes(src.begin() + cut, src.end()), inplace, "huge"); got.insert(got.end(), o.begin(), o.end());
        fin(c, x.x);
        c.outcome(hash_bytes(got));
        c.check(got == (enc ? want : in), "%s %zu+%zu bytes%s differs from the standard", enc ? "encrypting" : "decrypting", cut, L - cut, inplace ? " in place" : "");
    }
    c.note("%zu+%zu bytes", cut, L - cut);
    c.state(mix(li, mix(first, inplace)));
}
// every key bit and IV bit matters as the standard says; all key words in each position
static void g_keys(Ctx& c)
{
    int i = c.choose(256 + 64 + 2, "bit"), enc = c.choose(2, "enc"), sb = c.choose(14, "sbox");
    c.shard();
    Bytes k(32, 0), v(8, 0);
    if (i < 256) k[i / 8] = 1 << (i % 8);
    else if (i < 320) v[(i - 256) / 8] = 1 << ((i - 256) % 8);
    else { k.assign(32, i == 320 ? 0xff : 0x80); v.assign(8, i == 320 ? 0xff : 0x80); }
    Bytes s = ref::custom_sbox(sb), in = data(21);
    C x;
    c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), k.data(), v.data(), enc) == 1, "init");
    c.check(EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, 64, s.data()) > 0, "s-box");
    Bytes got = upd(c, x.x, in, false, "keys");
    ref::Gost g(s.data(), k.data());
    Bytes want = ref::cfb(in, g, v, enc);
    c.note("key/iv bit %d s-box %d", i, sb); c.state(mix(i, mix(enc, sb))); c.outcome(hash_bytes(got));
    c.check(got == want, "key %s iv %s s-box %d: %s, expected %s", hex(k).c_str(), hex(v).c_str(), sb, hex(got).c_str(), hex(want).c_str());
}

// ---- C03 -------------------------------------------------------------------
// Model: the stream restarts at every configuration call; s-box set since the
// last complete initialisation; last key and last IV.
static void g_config(Ctx& c)
{
    int depth = c.thorough() ? 6 : 5;
    C x;
    int k = -1, v = -1, sb = 0, enc = 1;
    Bytes in, out;      // since the last configuration call
    Bytes saved;        // last exported parameters
    int saved_v = -1, saved_sb = 0;
    auto restart = [&]() { in.clear(); out.clear(); };
    auto settle = [&](const char* when) {
        if (in.empty()) return;
        ref::Gost g(ref::custom_sbox(sb).data(), key(k).data());
        Bytes want = ref::cfb(in, g, ivec(v), enc);
        c.outcome(hash_bytes(out));
        c.check(out == want, "%s: %zu bytes %s under key %d, IV %d, s-box %d: %s, expected %s", when, in.size(), enc ? "encrypted" : "decrypted", k, v, sb, hex(out).c_str(), hex(want).c_str());
    };
    int seed = 0;
    c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), nullptr, nullptr, 1) == 1, "init");
    for (int d = 0; d < depth; d++) {
        struct Op { int kind, a, b; };
        std::vector<Op> ops;
        for (int a = -1; a < 2; a++) for (int b = -1; b < 2; b++) if (a >= 0 || b >= 0) ops.push_back({0, a, b});   // init key a, iv b
        ops.push_back({0, -1, -1});                               // direction only
        for (int s = 0; s < 3; s += 1) ops.push_back({1, s, 0});  // s-box control (0 = default table)
        ops.push_back({2, 0, 0}); ops.push_back({2, 1, 0});       // select the cipher again with key and IV
        if (v >= 0) ops.push_back({3, 0, 0});                     // export parameters
        if (saved.size()) ops.push_back({4, 0, 0});               // import
        if (k >= 0 && v >= 0) { ops.push_back({5, 3, 0}); ops.push_back({5, 8, 0}); ops.push_back({5, 13, 0}); }
        int o = c.choose((int)ops.size(), "op");
        if (d == 2) c.shard();
        Op p = ops[o];
        c.step();
        switch (p.kind) {
        case 0: {
            Bytes kk = p.a >= 0 ? key(p.a) : Bytes(), vv = p.b >= 0 ? ivec(p.b) : Bytes();
            settle("before re-initialisation");
            if (p.a < 0 && p.b < 0) enc = !enc;
            c.check(EVP_CipherInit_ex(x.x, nullptr, nullptr, p.a >= 0 ? kk.data() : nullptr, p.b >= 0 ? vv.data() : nullptr, enc) == 1, "init failed");
            // the caller's buffers may change right after the call
            for (auto& b : kk) b = 0xCC; for (auto& b : vv) b = 0xCC;
            if (p.a >= 0) k = p.a; if (p.b >= 0) v = p.b;
            if (p.a >= 0 && p.b >= 0) sb = 0;   // a complete initialisation starts from the default s-box
            c.note("init key %d iv %d %s", p.a, p.b, enc ? "enc" : "dec");
            restart();
            break;
        }
        case 1: {
            Bytes s = ref::custom_sbox(p.a);
            settle("before s-box change");
            c.check(EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, 64, s.data()) > 0, "s-box control failed");
            for (auto& b : s) b = 0;
            sb = p.a; restart();
            c.note("s-box %d", p.a);
            break;
        }
        case 2: {
            Bytes kk = key(p.a), vv = ivec(p.a);
            settle("before cipher re-selection");
            c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), kk.data(), vv.data(), enc) == 1, "init failed");
            k = v = p.a; sb = 0; restart();
            c.note("select cipher, key/iv %d", p.a);
            break;
        }
        case 3: {
            ASN1_TYPE* t = ASN1_TYPE_new();
            int r = EVP_CIPHER_param_to_asn1(x.x, t);
            unsigned char* o = nullptr; int n = r > 0 ? i2d_ASN1_TYPE(t, &o) : 0;
            if (n > 0) saved.assign(o, o + n);
            OPENSSL_free(o); ASN1_TYPE_free(t);
            c.check(r > 0 && n > 0, "parameter export failed (%d)", r);
            Bytes want = ref::seq({ref::octet(ivec(v)), ref::octet(ref::custom_sbox(sb))});
            c.check(saved == want, "exported parameters %s, expected %s", hex(saved).c_str(), hex(want).c_str());
            saved_v = v; saved_sb = sb;
            c.note("export");
            break;
        }
        case 4: {
            settle("before import");
            const unsigned char* q = saved.data();
            ASN1_TYPE* t = d2i_ASN1_TYPE(nullptr, &q, (long)saved.size());
            int r = EVP_CIPHER_asn1_to_param(x.x, t);
            ASN1_TYPE_free(t);
            c.check(r > 0, "parameter import failed (%d)", r);
            v = saved_v; sb = saved_sb; restart();
            c.note("import");
            break;
        }
        case 5: {
            Bytes i = data(p.a, ++seed);
            out = out + upd(c, x.x, i, false, "data"); in = in + i;
            c.note("data %d", p.a);
            break;
        }
        }
        c.state(mix(mix(k + 1, v + 1), mix(sb * 2 + enc, hash_bytes(in))));
    }
    if (k < 0 || v < 0) { settle("end"); return; }
    // probe the state with every tail length class
    int tail = c.choose(3, "tail");
    static const int tl[] = {5, 8, 19};
    Bytes i = data(tl[tail], 99);
    out = out + upd(c, x.x, i, false, "tail"); in = in + i;
    settle("at the end");
}
// every s-box and IV exported and taken over by another context
static void g_boxes(Ctx& c)
{
    int sb = c.choose(14, "sbox"), v = c.choose(3, "iv"), enc = c.choose(2, "enc");
    c.shard();
    Bytes k = key(0), iv = ivec(v), s = ref::custom_sbox(sb), in = data(37, sb), want = ref::cfb(in, ref::Gost(s.data(), k.data()), iv, enc);
    C x, y;
    c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), k.data(), iv.data(), enc) == 1 && EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, 64, s.data()) > 0, "init");
    c.check(upd(c, x.x, in, false, "s-box") == want, "s-box %d: output differs from the standard", sb);
    ASN1_TYPE* t = ASN1_TYPE_new();
    int r = EVP_CIPHER_param_to_asn1(x.x, t);
    uint8_t* p = nullptr; int n = i2d_ASN1_TYPE(t, &p);
    Bytes got(p, p + (n > 0 ? n : 0)); OPENSSL_free(p);
    c.check(r > 0 && got == ref::seq({ref::octet(iv), ref::octet(s)}), "s-box %d: parameters exported as %s", sb, hex(got, 200).c_str());
    c.check(EVP_CipherInit_ex(y.x, eng::cipher(), eng::get(), k.data(), ivec((v + 1) % 3).data(), enc) == 1, "init");
    r = EVP_CIPHER_asn1_to_param(y.x, t);
    ASN1_TYPE_free(t);
    c.check(r > 0 && upd(c, y.x, in, true, "import") == want, "s-box %d: after the import the output differs", sb);
    c.step(2); c.state(mix(sb, v * 2 + enc)); c.outcome(hash_bytes(want)); c.note("s-box %d iv %d", sb, v);
}
// parameters: exact structure is accepted, every structural corruption is rejected and harmless
static void g_params(Ctx& c)
{
    Bytes good = ref::seq({ref::octet(ivec(0)), ref::octet(ref::custom_sbox(1))});
    int mode = c.choose(5, "mode");
    Bytes der = good;
    bool valid = false;
    if (mode == 0) {            // truncations of the content
        int n = c.choose((int)good.size() - 2, "len");
        der = ref::der(0x30, Bytes(good.begin() + 2, good.begin() + 2 + n));
        valid = false;
    } else if (mode == 1) {     // trailing bytes
        int n = 1 + c.choose(20, "extra");
        Bytes e(n, (uint8_t)(n * 3));
        der = ref::der(0x30, Bytes(good.begin() + 2, good.end()) + e);
    } else if (mode == 2) {     // one structural byte changed
        static const int pos[] = {2, 3, 12, 13};
        int p = pos[c.choose(4, "pos")], v = c.choose(256, "value");
        der[p] = (uint8_t)v;
        valid = der == good;
    } else if (mode == 3) {     // different lengths for the two strings
        int a = c.choose(20, "ivlen"), b = c.choose(4, "sboxlen");
        static const int bl[] = {0, 63, 64, 65};
        der = ref::seq({ref::octet(data(a)), ref::octet(data(bl[b]))});
        valid = a == 8 && b == 2;
    } else {                    // not a sequence
        int t = c.choose(5, "type");
        if (t == 0) der = ref::null();
        if (t == 1) der = ref::octet(Bytes(good.begin() + 2, good.end()));
        if (t == 2) der = ref::integer(5);
        if (t == 3) der = ref::oid("1.2.3");
        if (t == 4) der = ref::der(0x31, Bytes(good.begin() + 2, good.end()));
    }
    c.shard();
    Bytes k = key(0), v = ivec(1), in = data(21);
    C x;
    c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), k.data(), v.data(), 1) == 1, "init");
    const unsigned char* q = der.data();
    ASN1_TYPE* t = d2i_ASN1_TYPE(nullptr, &q, (long)der.size());
    if (!t) { c.step(); c.state(hash_bytes(der)); return; }
    // exact-size copy of the sequence body so that over-reads are visible
    int r = EVP_CIPHER_asn1_to_param(x.x, t);
    c.step();
    ASN1_TYPE_free(t);
    c.note("parameters %s -> %d", hex(der, 20).c_str(), r);
    c.state(hash_bytes(der)); c.outcome(r > 0);
    c.check((r > 0) == valid, "parameters %s were %s", hex(der).c_str(), r > 0 ? "accepted" : "rejected");
    if (!valid) {
        // a rejected set leaves the context as it was
        Bytes got = upd(c, x.x, in, false, "after rejection");
        ref::Gost g(ref::DEFAULT_SBOX, k.data());
        c.check(got == ref::cfb(in, g, v, true), "rejected parameters %s changed the context", hex(der).c_str());
    } else {
        // what the parameters carry is what the context then uses
        size_t o = 4;
        Bytes piv(der.begin() + o, der.begin() + o + 8), psb(der.begin() + o + 10, der.begin() + o + 74);
        Bytes got = upd(c, x.x, in, false, "after import");
        ref::Gost g(psb.data(), k.data());
        c.check(got == ref::cfb(in, g, piv, true), "imported parameters %s not in force", hex(der).c_str());
    }
}
static void g_ctrl(Ctx& c)
{
    int which = c.choose(7, "call"), L = c.choose(24, "len"), before = c.choose(2, "after data");
    c.shard();
    Bytes k = key(0), v = ivec(0), in = data(L), other = ref::custom_sbox(2);
    other.resize(128, 9);
    C x;
    c.check(EVP_CipherInit_ex(x.x, eng::cipher(), eng::get(), k.data(), v.data(), 1) == 1, "init");
    Bytes got;
    Bytes pre = data(before ? 5 : 0, 3);
    if (before) got = upd(c, x.x, pre, false, "pre");
    int r = 0, nid = 0;
    switch (which) {
    case 0: r = EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, 63, other.data()); break;
    case 1: r = EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, 65, other.data()); break;
    case 2: r = EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, 64, nullptr); break;
    case 3: r = EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, 0, other.data()); break;
    case 4: r = EVP_CIPHER_CTX_ctrl(x.x, CTRL_SBOX, -64, other.data()); break;
    case 5: r = EVP_CIPHER_CTX_ctrl(x.x, 0x7777, 64, other.data()); break;
    case 6:
        c.check(EVP_CIPHER_CTX_ctrl(x.x, EVP_CTRL_PBE_PRF_NID, 0, &nid) > 0 && nid == NID_hmacWithDstu34311, "PRF for password-based encryption is %d", nid);
        break;
    }
    c.check(r <= 0, "invalid control %d accepted", which);
    got = got + upd(c, x.x, in, false, "after control");
    ref::Gost g(ref::DEFAULT_SBOX, k.data());
    c.state(mix(which, mix(L, before))); c.outcome(hash_bytes(got)); c.note("control %d len %d", which, L);
    c.check(got == ref::cfb(pre + in, g, v, true), "control %d changed the stream", which);
}
static void g_meta(Ctx& c)
{
    c.shard();
    c.check(EVP_CIPHER_key_length(eng::cipher()) == 32 && EVP_CIPHER_iv_length(eng::cipher()) == 8 && EVP_CIPHER_block_size(eng::cipher()) == 1, "cipher sizes");
    c.check(EVP_CIPHER_nid(eng::cipher()) == NID_dstu28147_cfb && EVP_CIPHER_mode(eng::cipher()) == EVP_CIPH_CFB_MODE, "cipher identity");
    c.step(5); c.state(1);
}
int main(int argc, char** argv)
{
    eng::get();
    std::vector<Group> g;
    if (arg_prop(argc, argv) == "C03") g = {{"config", g_config}, {"params", g_params}, {"boxes", g_boxes}, {"ctrl", g_ctrl}};
    else g = {{"meta", g_meta}, {"split", g_split}, {"ops", g_ops}, {"keys", g_keys}, {"long", g_long}, {"huge", g_huge}};
    return main_impl(argc, argv, g);
}
