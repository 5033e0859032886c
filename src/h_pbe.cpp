// C22 what libcrypto builds on the engine: HMAC, PBKDF2, PBES2, digest-sign, CMS.
#include "stores.h"
#include <openssl/cms.h>
#include <openssl/pem.h>
#include <openssl/hmac.h>
#include <openssl/pkcs7.h>
#include <openssl/pkcs12.h>
using namespace mc;
using namespace kit;
static Bytes S(const std::string& s) { return Bytes(s.begin(), s.end()); }
static Bytes pattern(size_t n, int s) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * (2 * s + 31) + s * 77 + 1); return b; }
static const char* PRF = "1.2.804.2.1.1.1.1.1.2";      // HMAC with GOST 34.311
static const char* CFB = "1.2.804.2.1.1.1.1.1.1.3";    // GOST 28147 CFB

// ---- HMAC ---------------------------------------------------------------------------
static void hmac_all(Ctx& c)
{
    int kl = c.choose(c.thorough() ? 140 : 72, "key length"), dl = c.choose(c.thorough() ? 140 : 70, "data length");
    c.shard();
    Bytes k = pattern(kl, 1), d = pattern(dl, 2), want = ref::hmac(k, d), out(32); unsigned n = 0;
    c.state(mix(kl, dl)); c.note("key of %d, data of %d bytes", kl, dl);
    HMAC_CTX* h = HMAC_CTX_new();
    struct F { HMAC_CTX* h; ~F() { HMAC_CTX_free(h); } } f{h};
    int cuts[] = {0, 1, dl / 2, dl};
    for (int cut : cuts) {
        if (cut > dl) continue;
        c.check(HMAC_Init_ex(h, kl ? k.data() : (const uint8_t*)"", kl, eng::md(), nullptr) == 1 && HMAC_Update(h, d.data(), cut) == 1 && HMAC_Update(h, d.data() + cut, dl - cut) == 1 && HMAC_Final(h, out.data(), &n) == 1 && n == 32, "HMAC failed");
        c.check(out == want, "HMAC(key %d, data %d, cut %d) = %s, expected %s", kl, dl, cut, hex(out).c_str(), hex(want).c_str());
        c.step();
    }
    out.assign(32, 0); n = 0;
    EVP_PKEY* pk = EVP_PKEY_new_mac_key(EVP_PKEY_HMAC, nullptr, k.data(), kl);
    EVP_MD_CTX* m = EVP_MD_CTX_new(); size_t sl = 32;
    int r = pk && EVP_DigestSignInit(m, nullptr, eng::md(), nullptr, pk) == 1 && EVP_DigestSignUpdate(m, d.data(), dl) == 1 && EVP_DigestSignFinal(m, out.data(), &sl) == 1;
    EVP_MD_CTX_free(m); EVP_PKEY_free(pk);
    if (r) { c.check(out == want, "HMAC key object (key %d, data %d) = %s, expected %s", kl, dl, hex(out).c_str(), hex(want).c_str()); c.step(); }
    c.outcome(r);
    ERR_clear_error();
}
struct HM { bool on = false; Bytes key, data; bool haskey = false; };
static void hmac_seq(Ctx& c)
{
    int depth = c.thorough() ? 6 : 5;
    HMAC_CTX* h[2] = {HMAC_CTX_new(), HMAC_CTX_new()}; HM m[2];
    struct F { HMAC_CTX** h; ~F() { HMAC_CTX_free(h[0]); HMAC_CTX_free(h[1]); } } f{h};
    static const Bytes K[2] = {pattern(20, 5), pattern(45, 6)};
    uint64_t st = 0;
    for (int i = 0; i < depth; i++) {
        int op = c.choose(10, "op");
        if (i == 1) c.shard();
        int w = op >= 8 ? op - 8 : op / 4, k = op % 4;
        if (op >= 8) {   // copy to the other one
            if (!m[w].haskey) continue;
            c.check(HMAC_CTX_copy(h[1 - w], h[w]) == 1, "copy failed"); m[1 - w] = m[w]; c.note("copy %d to %d", w, 1 - w);
        } else if (k < 2) {
            c.check(HMAC_Init_ex(h[w], K[k].data(), (int)K[k].size(), eng::md(), nullptr) == 1, "init failed"); m[w].on = m[w].haskey = true; m[w].key = K[k]; m[w].data.clear(); c.note("%d: init key %d", w, k);
        } else if (k == 2) {
            if (!m[w].on) continue;
            Bytes d = pattern(17 + 16 * (m[w].data.size() % 2), (int)m[w].data.size()); c.check(HMAC_Update(h[w], d.data(), d.size()) == 1, "update failed"); m[w].data = m[w].data + d; c.note("%d: update %zu", w, d.size());
        } else {
            if (!m[w].haskey) continue;
            if (m[w].on) { Bytes o(32); unsigned n = 0; c.check(HMAC_Final(h[w], o.data(), &n) == 1 && o == ref::hmac(m[w].key, m[w].data), "context %d: HMAC of %zu bytes differs", w, m[w].data.size()); m[w].on = false; c.note("%d: final", w); }
            else { c.check(HMAC_Init_ex(h[w], nullptr, 0, nullptr, nullptr) == 1, "re-init failed"); m[w].on = true; m[w].data.clear(); c.note("%d: init with the same key", w); }
        }
        c.step();
        st = mix(st, op + 1);
        c.state(mix(mix(m[0].on + 2 * m[1].on, mix(m[0].key.size(), m[0].data.size())), mix(m[1].key.size(), m[1].data.size())));
    }
    for (int w = 0; w < 2; w++) if (m[w].on) { Bytes o(32); unsigned n = 0; c.check(HMAC_Final(h[w], o.data(), &n) == 1 && o == ref::hmac(m[w].key, m[w].data), "context %d at the end: HMAC of %zu bytes differs", w, m[w].data.size()); }
    c.outcome(st);
}
// ---- PBKDF2 -------------------------------------------------------------------------
static void kdf(Ctx& c)
{
    int pl = c.choose(c.thorough() ? 80 : 40, "password length"), sl = c.choose(c.thorough() ? 70 : 12, "salt"), it = 1 + c.choose(c.thorough() ? 4 : 3, "iterations");
    c.shard();
    if (!c.thorough()) sl = sl * 6;
    Bytes p = pattern(pl, 3), s = pattern(sl, 4);
    if (!sl) s = {0};
    c.state(mix(pl, mix(sl, it))); c.note("password %d, salt %d, %d iterations", pl, sl, it);
    for (int ol : {1, 31, 32, 33, 64, 70}) {
        Bytes out(ol + 1, 0xee);
        c.check(PKCS5_PBKDF2_HMAC(pl ? (char*)p.data() : "", pl, s.data(), sl, it, eng::md(), ol, out.data()) == 1, "PBKDF2 failed");
        c.check(out[ol] == 0xee, "PBKDF2 wrote beyond %d bytes", ol);
        out.resize(ol);
        Bytes want = ref::pbkdf2(p, Bytes(s.begin(), s.begin() + sl), it, ol);
        c.check(out == want, "PBKDF2(password %d, salt %d, %d iterations, %d bytes) = %s, expected %s", pl, sl, it, ol, hex(out).c_str(), hex(want).c_str());
        c.step();
    }
    c.outcome(pl * 31 + sl);
}
// ---- PBES2 --------------------------------------------------------------------------
static Bytes pbes2(const Bytes& plain, const Bytes& pw, const Bytes& salt, int iter, const Bytes& iv, int sb, bool keylen)
{
    Bytes box = sbox_in(sb ? sb : 1);
    Bytes k = ref::pbkdf2(pw, salt, iter, 32);
    Bytes kp = ref::octet(salt) + ref::integer(iter) + (keylen ? ref::integer(32) : Bytes()) + ref::seq({ref::oid(PRF), ref::null()});
    Bytes alg = ref::seq({ref::oid("1.2.840.113549.1.5.13"), ref::seq({ref::seq({ref::oid("1.2.840.113549.1.5.12"), ref::der(0x30, kp)}), ref::seq({ref::oid(CFB), ref::seq({ref::octet(iv), ref::octet(box)})})})});
    return ref::seq({alg, ref::octet(ref::cfb(plain, ref::Gost(box.data(), k.data()), iv, true))});
}
static EVP_PKEY* open8(const Bytes& d, const Bytes& pw, Bytes* raw = nullptr)
{
    const unsigned char* q = d.data();
    X509_SIG* s = d2i_X509_SIG(nullptr, &q, (long)d.size());
    if (!s) return nullptr;
    st::Heap h(pw);
    PKCS8_PRIV_KEY_INFO* i = PKCS8_decrypt(s, (char*)h.p, (int)pw.size());
    X509_SIG_free(s);
    if (!i) return nullptr;
    if (raw) { unsigned char* o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(i, &o); raw->assign(o, o + n); OPENSSL_free(o); }
    EVP_PKEY* k = EVP_PKCS82PKEY(i);
    PKCS8_PRIV_KEY_INFO_free(i);
    return k;
}
static Bytes key_der(int i, bool le, uint64_t d, int sb) { return ref::pkcs8(le, ref::alg_params(any(i).spec(le), sbox_in(sb)), ref::priv_le(d)); }
// reading what the standard says
static void pbes2_read(Ctx& c)
{
    int pl = 1 + c.choose(c.thorough() ? 70 : 36, "password length"), sb = c.choose(4, "s-box"), ki = c.choose(6, "key"), v = c.choose(4, "variation");
    c.shard();
    int curve[] = {0, 1, 3, 8, 14, 17};
    Bytes pw = pattern(pl, 8), p8 = key_der(curve[ki], ki & 1, 5 + ki, sb == 3 ? 2 : 0);
    Bytes d = pbes2(p8, pw, pattern(v == 0 ? 8 : v == 1 ? 1 : v == 2 ? 32 : 33, 9), 1 + v, pattern(8, pl), sb, v & 1);
    c.state(mix(mix(pl, sb), mix(ki, v))); c.note("password %d, s-box %d, key %d, variation %d", pl, sb, ki, v);
    Bytes raw;
    K k(open8(d, pw, &raw));
    c.step();
    c.check((bool)k, "password of %d bytes, s-box %d, key %d, variation %d: not readable", pl, sb, ki, v);
    c.check(raw == p8, "decrypted to other bytes %s", hex(raw, 200).c_str());
    Bytes w = pw; w[pl / 2] ^= 1;
    K o(open8(d, w));
    c.check(!o || eng::priv_to_der(o.k) != eng::priv_to_der(k.k), "opened with another password");
    if (v == 0) { long l = leak_per_run([&] { K a(open8(d, pw)); K b(open8(d, w)); ERR_clear_error(); }); c.check(l <= 0, "leaks %ld allocations", l); }
    ERR_clear_error(); c.outcome(mix(ki, sb));
}
static void tlv(const Bytes& d, size_t& at, size_t& len, size_t& hdr) { size_t n = d.at(at + 1); hdr = 2; if (n & 0x80) { int k = n & 0x7f; n = 0; for (int i = 0; i < k; i++) n = n << 8 | d.at(at + 2 + i); hdr += k; } len = n; }
// writing: exactly what the standard says for the salt and IV it chose
static void pbes2_write(Ctx& c)
{
    int pl = 1 + c.choose(c.thorough() ? 70 : 10, "password length") * (c.thorough() ? 1 : 7), sl = c.choose(6, "salt"), it = 1 + c.choose(3, "iterations"), ki = c.choose(6, "key"), how = c.choose(3, "how");
    c.shard();
    static const int SL[] = {1, 8, 16, 31, 33, 64}; int curve[] = {0, 1, 3, 8, 14, 17};
    Bytes pw = pattern(pl, 8), salt = pattern(SL[sl], 3), iv = pattern(16, pl + it), p8 = key_der(curve[ki], ki & 1, 5 + ki, ki % 3 == 2 ? 2 : 0);
    K k(eng::priv_from_der(p8));
    c.check((bool)k, "key refused");
    p8 = eng::priv_to_der(k.k);
    // the IV is given or drawn
    eng::RngScope rs; rs.r.byte = [&](size_t i) { return (uint8_t)(i * 5 + 9); };
    PKCS8_PRIV_KEY_INFO* info = EVP_PKEY2PKCS8(k.k);
    X509_SIG* s = nullptr;
    if (how == 2) s = PKCS8_encrypt(-1, eng::cipher(), (char*)pw.data(), pl, salt.data(), SL[sl], it, info);
    else { X509_ALGOR* a = PKCS5_pbe2_set_iv(eng::cipher(), it, salt.data(), SL[sl], how ? nullptr : iv.data(), how ? -1 : NID_hmacWithDstu34311); s = a ? PKCS8_set0_pbe((char*)pw.data(), pl, info, a) : nullptr; if (!s && a) X509_ALGOR_free(a); }
    PKCS8_PRIV_KEY_INFO_free(info);
    c.step();
    std::string what = fmt("password %d, salt %d, %d iterations, key %d, way %d", pl, SL[sl], it, ki, how);
    c.state(mix(mix(pl, sl), mix(it, mix(ki, how)))); c.note("%s", what.c_str());
    c.check(s != nullptr, "%s: cannot encrypt", what.c_str());
    unsigned char* o = nullptr; int n = i2d_X509_SIG(s, &o); Bytes got(o, o + n); OPENSSL_free(o); X509_SIG_free(s);
    iv.resize(8);
    if (how) {   // drawn: some eight consecutive bytes of the random source
        Bytes o = ref::oid(CFB); auto it = std::search(got.begin(), got.end(), o.begin(), o.end());
        c.check(got.end() - it > (long)o.size() + 12, "%s: no IV in %s", what.c_str(), hex(got, 300).c_str());
        iv.assign(it + o.size() + 4, it + o.size() + 12);
        for (int i = 1; i < 8; i++) c.check(iv[i] == (uint8_t)(iv[0] + i * 5), "%s: IV %s was not drawn from the random source", what.c_str(), hex(iv).c_str());
    }
    Bytes w1 = pbes2(p8, pw, salt, it, iv, 0, false), w2 = pbes2(p8, pw, salt, it, iv, 0, true);
    c.check(got == w1 || got == w2, "%s: encrypted to %s, expected %s", what.c_str(), hex(got, 400).c_str(), hex(w1, 400).c_str());
    K r(open8(got, pw));
    c.check(r && eng::priv_to_der(r.k) == p8, "%s: does not decrypt to the key", what.c_str());
    ERR_clear_error(); c.outcome(mix(sl, ki));
}
// every single-character edit of the password
static void pbes2_wrong(Ctx& c)
{
    static const Bytes pw = S("pass");
    int ki = c.choose(4, "key"), how = c.choose(4, "edit"), pos = c.choose(5, "position");
    c.shard();
    int curve[] = {0, 3, 8, 17};
    Bytes p8 = key_der(curve[ki], ki & 1, 7, 0), d = pbes2(p8, pw, pattern(8, 1), 1, pattern(8, 2), 0, false);
    K k(open8(d, pw)); c.check((bool)k, "not readable");
    Bytes good = eng::priv_to_der(k.k);
    for (int x = 0; x < 256; x++) {
        Bytes w = pw;
        if (how == 0 && pos < 4) w[pos] = (uint8_t)x; else if (how == 1) w.insert(w.begin() + pos, (uint8_t)x); else if (how == 2) { if (x) break; w.resize(pos); } else { if (x || pos > 3) break; w.erase(w.begin() + pos); }
        if (w == pw) continue;
        // zero bytes at the end do not change an HMAC key
        Bytes t = w; while (t.size() > pw.size() && !t.back()) t.pop_back();
        if (t == pw) continue;
        K r(open8(d, w));
        c.check(!r || eng::priv_to_der(r.k) != good, "password %s opened a key protected with %s", hex(w).c_str(), hex(pw).c_str());
        c.step(); ERR_clear_error();
    }
    c.state(mix(ki, mix(how, pos))); c.note("key %d edit %d at %d", ki, how, pos);
}
// ---- digest-sign --------------------------------------------------------------------
struct MdCtx { EVP_MD_CTX* m; MdCtx() : m(EVP_MD_CTX_new()) {} ~MdCtx() { EVP_MD_CTX_free(m); } operator EVP_MD_CTX*() { return m; } };
static EVP_PKEY* key(int i, bool le, uint64_t d, int sb) { return priv(any(i), le, d, sb); }
// how: 0 with the digest given, 1 the key's default digest, 2 one-shot
static int dsign(EVP_PKEY* k, const Bytes& msg, const std::vector<int>& cuts, int how, Bytes& sig)
{
    MdCtx m; size_t n = 0;
    sig.assign(1024, 0xcc); n = sig.size();
    if (EVP_DigestSignInit(m, nullptr, how == 1 ? nullptr : eng::md(), nullptr, k) != 1) return -1;
    if (how == 2) { if (EVP_DigestSign(m, sig.data(), &n, msg.data(), msg.size()) != 1) return 0; }
    else {
        int at = 0;
        for (int x : cuts) { if (EVP_DigestSignUpdate(m, msg.data() + at, x) != 1) return -2; at += x; }
        size_t q = 0; if (EVP_DigestSignFinal(m, nullptr, &q) != 1) return -3;
        if (EVP_DigestSignFinal(m, sig.data(), &n) != 1) return 0;
        if (n > q) return -4;
    }
    sig.resize(n);
    return 1;
}
static int dverify(EVP_PKEY* k, const Bytes& msg, const std::vector<int>& cuts, int how, const Bytes& sig)
{
    MdCtx m;
    if (EVP_DigestVerifyInit(m, nullptr, how == 1 ? nullptr : eng::md(), nullptr, k) != 1) return -9;
    if (how == 2) return EVP_DigestVerify(m, sig.data(), sig.size(), msg.data(), msg.size());
    int at = 0;
    for (int x : cuts) { if (EVP_DigestVerifyUpdate(m, msg.data() + at, x) != 1) return -8; at += x; }
    return EVP_DigestVerifyFinal(m, sig.data(), sig.size());
}
static EVP_PKEY* public_of(EVP_PKEY* k) { return eng::pub_from_der(eng::pub_to_der(k)); }
static void ds_split(Ctx& c)
{
    int ki = c.choose(6, "key"), sb = c.choose(4, "s-box"), len = c.choose(c.thorough() ? 101 : 70, "length"), how = c.choose(3, "how");
    c.shard();
    int curve[] = {3, 6, 8, 9, 14, 17}; bool le = ki & 1;
    if (!c.thorough() && ki >= 4 && len % 8 > 1) return;
    K k(key(curve[ki], le, 11, sb)), p(public_of(k.k));
    c.check(k && p, "key refused");
    Bytes msg = pattern(len, 7), h = ref::hash(msg, sbox_in(sb ? sb : 1).data());
    std::vector<std::vector<int>> splits;
    if (how == 2) splits = {{len}};
    else { for (int a = 0; a <= len; a += std::max(1, len / 3)) splits.push_back({a, len - a}); splits.push_back({len / 3, 0, len / 3, len - 2 * (len / 3)}); }
    c.state(mix(mix(ki, sb), mix(len, how))); c.note("key %d, s-box %d, %d bytes, way %d", ki, sb, len, how);
    // the very signature EVP_PKEY_sign gives for the hash of the message under the key's s-box
    auto rnd = [](size_t i) { return (uint8_t)(i * 29 + 3); };
    Bytes want;
    { eng::RngScope rs; rs.r.byte = rnd; c.check(eng::sign(k.k, h, want) > 0, "signing the hash failed"); }
    for (auto& sp : splits) {
        Bytes sig;
        { eng::RngScope rs; rs.r.byte = rnd; int r = dsign(k.k, msg, sp, how, sig); c.check(r == 1, "signing a message of %d bytes: %d", len, r); }
        c.check(sig == want, "key %d s-box %d: signature of %d bytes (way %d) is not the one of its hash", ki, sb, len, how);
        int r = dverify(p.k, msg, sp, how, sig);
        c.check(r == 1, "key %d s-box %d: own signature of %d bytes refused (%d)", ki, sb, len, r);
        c.step(2);
    }
    ERR_clear_error(); c.outcome(hash_bytes(want));
}
// any other message or signature is refused
static void ds_alter(Ctx& c)
{
    int ki = c.choose(4, "key"), sb = c.choose(3, "s-box"), len = c.choose(6, "length"), byte = c.choose(80, "byte");
    c.shard();
    int curve[] = {8, 10, 14, 17}; static const int L[] = {0, 1, 31, 32, 33, 64};
    len = L[len];
    if (byte > len + 8) return;
    K k(key(curve[ki], ki & 1, 11, sb)), p(public_of(k.k));
    Bytes msg = pattern(len, 7), sig;
    { eng::RngScope rs; rs.r.byte = [](size_t i) { return (uint8_t)(i * 29 + 3); }; c.check(dsign(k.k, msg, {len}, 0, sig) == 1, "cannot sign"); }
    auto no = [&](const Bytes& m, const Bytes& s, const std::string& w) { int r = dverify(p.k, m, {(int)m.size()}, byte % 3, s); c.check(r <= 0, "%s: accepted", w.c_str()); c.step(); ERR_clear_error(); };
    for (int bit = 0; bit < 8; bit++) {
        if (!c.thorough() && bit % 3) continue;
        if (byte < len) { Bytes m = msg; m[byte] ^= 1 << bit; no(m, sig, fmt("message of %d bytes, byte %d bit %d changed", len, byte, bit)); }
    }
    if (byte < len) { Bytes m = msg; m.erase(m.begin() + byte); no(m, sig, "byte removed"); }
    else { Bytes m = msg; m.resize(len + 1 + byte - len, 0); no(m, sig, "zeros appended"); }
    { Bytes s = sig; s[2 + byte % (s.size() - 2)] ^= 0x10; no(msg, s, "signature changed"); }
    { K o(public_of(K(key(curve[ki], ki & 1, 12, sb)).k)); int r = dverify(o.k, msg, {len}, 0, sig); c.check(r <= 0, "accepted by another key"); }
    { K o(key(curve[ki], ki & 1, 11, (sb ? sb : 1) + 1)); int r = dverify(o.k, msg, {len}, 0, sig); c.check(r <= 0, "accepted under another s-box"); ERR_clear_error(); }
    c.state(mix(mix(ki, sb), mix(len, byte))); c.note("key %d s-box %d %d bytes byte %d", ki, sb, len, byte);
}
// sequences over two contexts: initialise for signing or verifying with either key, data, finish, copy
static void ds_seq(Ctx& c)
{
    int depth = c.thorough() ? 5 : 4;
    K k[2]; k[0].reset(key(6, true, 21, 2)); k[1].reset(key(3, false, 9, 0));
    Bytes box[2] = {sbox_in(2), sbox_in(1)};
    MdCtx x[2]; struct M { int mode = 0, k = 0, bound = -1; Bytes d; } m[2];   // libcrypto binds a context to its first key
    uint64_t lf = 7;
    eng::RngScope rs; rs.r.byte = [&](size_t) { lf = lf * 6364136223846793005ull + 1442695040888963407ull; return (uint8_t)(lf >> 40); };
    auto finish = [&](int w) {
        Bytes h = ref::hash(m[w].d, box[m[w].k].data());
        if (m[w].mode == 1) {
            Bytes s(300); size_t n = s.size();
            c.check(EVP_DigestSignFinal(x[w], s.data(), &n) == 1, "context %d: cannot sign %zu bytes", w, m[w].d.size());
            s.resize(n);
            c.check(eng::verify(k[m[w].k].k, h, s) == 1, "context %d: signature of %zu bytes does not verify", w, m[w].d.size());
        } else {
            Bytes s; c.check(eng::sign(k[m[w].k].k, h, s) > 0, "cannot sign");
            c.check(EVP_DigestVerifyFinal(x[w], s.data(), s.size()) == 1, "context %d: good signature of %zu bytes refused", w, m[w].d.size());
        }
        m[w].mode = 0;
        ERR_clear_error();
    };
    uint64_t hs = 0;
    for (int i = 0; i < depth; i++) {
        int op = c.choose(14, "op");
        if (i == 1) c.shard();
        int w = op / 7, q = op % 7;
        if (q < 4) { int kk = q & 1; if (m[w].bound != q) { EVP_MD_CTX_reset(x[w]); m[w].bound = q; } int r = q < 2 ? EVP_DigestSignInit(x[w], nullptr, eng::md(), nullptr, k[kk].k) : EVP_DigestVerifyInit(x[w], nullptr, eng::md(), nullptr, k[kk].k);
            c.check(r == 1, "init failed"); m[w].mode = q < 2 ? 1 : 2; m[w].k = kk; m[w].d.clear(); c.note("%d: init %s key %d", w, q < 2 ? "sign" : "verify", kk); }
        else if (q == 4) { if (!m[w].mode) continue; Bytes d = pattern(33 + m[w].d.size() % 3, (int)m[w].d.size() + w); c.check((m[w].mode == 1 ? EVP_DigestSignUpdate(x[w], d.data(), d.size()) : EVP_DigestVerifyUpdate(x[w], d.data(), d.size())) == 1, "update failed"); m[w].d = m[w].d + d; c.note("%d: %zu bytes", w, d.size()); }
        else if (q == 5) { if (!m[w].mode) continue; c.note("%d: finish", w); finish(w); }
        else { if (!m[w].mode) continue; c.check(EVP_MD_CTX_copy_ex(x[1 - w], x[w]) == 1, "copy failed"); m[1 - w] = m[w]; c.note("%d copied to %d", w, 1 - w); }
        c.step(); hs = mix(hs, op);
        c.state(mix(mix(m[0].mode * 4 + m[0].k, m[0].d.size()), mix(m[1].mode * 4 + m[1].k, m[1].d.size())));
    }
    for (int w = 0; w < 2; w++) if (m[w].mode) finish(w);
    c.outcome(hs);
}
// digests that are not the key's are refused, and change nothing
static void ds_refuse(Ctx& c)
{
    int le = c.choose(2, "order"), sb = c.choose(3, "s-box"), md = c.choose(4, "digest"), how = c.choose(2, "how");
    c.shard();
    static const EVP_MD* (*M[])() = {EVP_sha256, EVP_sha1, EVP_md5, EVP_sha512};
    K k(key(8, le, 5, sb));
    MdCtx m;
    int r = how ? EVP_DigestVerifyInit(m, nullptr, M[md](), nullptr, k.k) : EVP_DigestSignInit(m, nullptr, M[md](), nullptr, k.k);
    c.check(r <= 0, "a foreign digest was accepted");
    EVP_PKEY_CTX* p = EVP_PKEY_CTX_new(k.k, eng::get());
    c.check((how ? EVP_PKEY_verify_init(p) : EVP_PKEY_sign_init(p)) > 0 && EVP_PKEY_CTX_set_signature_md(p, M[md]()) <= 0 && EVP_PKEY_CTX_set_signature_md(p, eng::md()) > 0, "setting the signature digest");
    EVP_PKEY_CTX_free(p);
    int nid = 0; r = EVP_PKEY_get_default_digest_nid(k.k, &nid);
    c.check(r > 0 && nid == NID_dstu34311, "default digest %d (%d)", nid, r);
    c.step(4); c.state(mix(mix(le, sb), mix(md, how))); ERR_clear_error(); c.note("digest %d", md);
}
// the digest under a key of another kind uses the default s-box
struct Foreign { void* a; void* b; };
static Foreign foreign_key;
static int f_sign(EVP_PKEY_CTX*, unsigned char* sig, size_t* n, const unsigned char* t, size_t tl) { if (!sig) { *n = 32; return 1; } memcpy(sig, t, tl); *n = tl; return 1; }
static int f_ctrl(EVP_PKEY_CTX*, int, int, void*) { return 1; }
static int f_initf(EVP_PKEY_CTX*) { return 1; }
static int f_copy(EVP_PKEY_CTX*, const EVP_PKEY_CTX*) { return 1; }
static void f_free(EVP_PKEY*) {}
static void ds_foreign(Ctx& c)
{
    int len = c.choose(70, "length"), fillv = c.choose(3, "content");
    c.shard();
    static int id = 0;
    if (!id) {
        id = OBJ_create("1.2.3.4.5.6.7", "foreign", "foreign key");
        EVP_PKEY_ASN1_METHOD* am = EVP_PKEY_asn1_new(id, 0, "FOREIGN", "foreign"); EVP_PKEY_asn1_set_free(am, f_free); EVP_PKEY_asn1_add0(am);
        EVP_PKEY_METHOD* pm = EVP_PKEY_meth_new(id, 0); EVP_PKEY_meth_set_init(pm, f_initf); EVP_PKEY_meth_set_copy(pm, f_copy); EVP_PKEY_meth_set_sign(pm, nullptr, f_sign); EVP_PKEY_meth_set_ctrl(pm, f_ctrl, nullptr); EVP_PKEY_meth_add0(pm);
    }
    static uint8_t box[64]; memset(box, fillv == 1 ? 0x11 : 0x5a, 64);
    foreign_key.a = nullptr; foreign_key.b = fillv ? box : (void*)8;   // not a DSTU key at all
    EVP_PKEY* k = EVP_PKEY_new(); EVP_PKEY_assign(k, id, &foreign_key);
    Bytes msg = pattern(len, 3), out(64); size_t n = 64;
    MdCtx m;
    int r = EVP_DigestSignInit(m, nullptr, eng::md(), nullptr, k) == 1 && EVP_DigestSignUpdate(m, msg.data(), len) == 1 && EVP_DigestSignFinal(m, out.data(), &n) == 1;
    c.check(r, "digest-sign with another kind of key failed");
    out.resize(n);
    c.check(out == ref::hash(msg), "under another kind of key the digest is not the default one");
    EVP_PKEY_free(k); ERR_clear_error();
    c.step(); c.state(mix(len, fillv)); c.note("foreign key, %d bytes", len);
}
// ---- CMS, PKCS#7 --------------------------------------------------------------------
static X509* dummy_cert(EVP_PKEY* k, int serial)
{
    auto name = ref::seq({ref::der(0x31, ref::seq({ref::oid("2.5.4.3"), ref::der(0x0c, S("signer"))}))});
    Bytes alg = ref::seq({ref::oid("1.2.840.10045.4.3.2")}), val = ref::seq({ref::der(0x17, S("200101000000Z")), ref::der(0x17, S("400101000000Z"))});
    Bytes tbs = ref::seq({ref::der(0xa0, ref::integer(2)), ref::integer(serial), alg, name, val, name, eng::pub_to_der(k)});
    Bytes x = ref::seq({tbs, alg, ref::bitstr({1, 2, 3})});
    const unsigned char* p = x.data();
    return d2i_X509(nullptr, &p, (long)x.size());
}
static Bytes bio_bytes(BIO* b) { char* p; long n = BIO_get_mem_data(b, &p); return Bytes(p, p + n); }
static Bytes cms_make(EVP_PKEY* k, X509* x, const Bytes& msg, unsigned flags)
{
    BIO* b = BIO_new_mem_buf(msg.size() ? (const void*)msg.data() : "", (int)msg.size());
    CMS_ContentInfo* ci = CMS_sign(nullptr, nullptr, nullptr, b, flags | CMS_BINARY | CMS_PARTIAL);
    Bytes o;
    if (ci && CMS_add1_signer(ci, x, k, eng::md(), flags | CMS_BINARY | CMS_PARTIAL) && CMS_final(ci, b, nullptr, flags | CMS_BINARY)) { unsigned char* p = nullptr; int n = i2d_CMS_ContentInfo(ci, &p); if (n > 0) { o.assign(p, p + n); OPENSSL_free(p); } }
    CMS_ContentInfo_free(ci); BIO_free(b);
    return o;
}
// 1: verifies and yields 'msg'; 0 refused
static int cms_check(const Bytes& d, const Bytes* detached, Bytes& content, X509* with)
{
    const unsigned char* p = d.data();
    CMS_ContentInfo* ci = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size());
    if (!ci) { ERR_clear_error(); return 0; }
    BIO *in = detached ? BIO_new_mem_buf(detached->size() ? (const void*)detached->data() : "", (int)detached->size()) : nullptr, *out = BIO_new(BIO_s_mem());
    STACK_OF(X509)* st = sk_X509_new_null(); if (with) sk_X509_push(st, with);
    int r = CMS_verify(ci, st, nullptr, in, out, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY);
    content = bio_bytes(out);
    sk_X509_free(st); BIO_free(in); BIO_free(out); CMS_ContentInfo_free(ci); ERR_clear_error();
    return r == 1;
}
static unsigned FL[] = {0, CMS_NOATTR, CMS_DETACHED, CMS_DETACHED | CMS_NOATTR, CMS_NOCERTS, CMS_USE_KEYID | CMS_NOATTR};
static void cms_ok(Ctx& c)
{
    int ki = c.choose(5, "key"), sb = c.choose(3, "s-box"), f = c.choose(5, "flags"), len = c.choose(c.thorough() ? 100 : 20, "length");
    c.shard();
    if (!c.thorough()) len = len * 5;
    int curve[] = {4, 8, 9, 14, 17};
    K k(key(curve[ki], ki & 1, 19, sb)); X509* x = dummy_cert(k.k, 7);
    c.check(x != nullptr, "certificate");
    Bytes msg = pattern(len, 5), got;
    eng::RngScope rs; rs.r.byte = [](size_t i) { return (uint8_t)(i * 37 + 11); };
    Bytes d = cms_make(k.k, x, msg, FL[f]);
    std::string what = fmt("key %d s-box %d flags %d, %d bytes", ki, sb, f, len);
    c.state(mix(mix(ki, sb), mix(f, len))); c.note("%s", what.c_str());
    c.check(!d.empty(), "%s: cannot sign", what.c_str());
    int r = cms_check(d, FL[f] & CMS_DETACHED ? &msg : nullptr, got, x);
    c.check(r == 1 && got == msg, "%s: does not verify (%d)", what.c_str(), r);
    c.step(2);
    if (curve[ki] >= 8) {
        if (FL[f] & CMS_DETACHED) { Bytes m = msg; if (len) m[len / 2] ^= 1; else m = {0}; c.check(cms_check(d, &m, got, x) == 0, "%s: verifies other data", what.c_str()); c.step(); }
        K o(key(curve[ki], ki & 1, 20, sb)); X509* y = dummy_cert(o.k, 7);
        if (FL[f] & CMS_NOCERTS) { c.check(cms_check(d, nullptr, got, y) == 0, "%s: verifies under another key", what.c_str()); c.step(); }
        X509_free(y);
    }
    X509_free(x); ERR_clear_error(); c.outcome(hash_bytes(d));
}
// every byte of content, attributes and signature
static void cms_alter(Ctx& c)
{
    static std::vector<Bytes> v; static std::vector<std::vector<int>> where; static const Bytes msg = S("The message that was signed.");
    static K k[2]; static X509* x[2];
    if (v.empty()) {
        eng::RngScope rs; rs.r.byte = [](size_t i) { return (uint8_t)(i * 37 + 11); };
        for (int i = 0; i < 2; i++) {
            k[i].reset(key(8 + i, i & 1, 19, i ? 2 : 0)); x[i] = dummy_cert(k[i].k, 7);
            Bytes d = cms_make(k[i].k, x[i], msg, i ? CMS_NOATTR | CMS_NOCERTS : CMS_NOCERTS);
            const unsigned char* p = d.data(); CMS_ContentInfo* ci = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size());
            CMS_SignerInfo* si = sk_CMS_SignerInfo_value(CMS_get0_SignerInfos(ci), 0);
            ASN1_OCTET_STRING* sg = CMS_SignerInfo_get0_signature(si);
            std::vector<int> w;
            auto mark = [&](const Bytes& part) { auto it = std::search(d.begin(), d.end(), part.begin(), part.end()); for (size_t q = 0; it != d.end() && q < part.size(); q++) w.push_back((int)(it - d.begin() + q)); };
            mark(msg); mark(Bytes(sg->data, sg->data + sg->length));
            if (!i) mark(ref::hash(msg, sbox_in(1).data()));
            if (w.size() < msg.size() + 40) { fprintf(stderr, "HARNESS-ERROR cms parts\n"); exit(3); }
            CMS_ContentInfo_free(ci); v.push_back(d); where.push_back(w);
        }
        ERR_clear_error();
    }
    int s = c.choose(2, "message"), b = c.choose((int)where[s].size(), "byte"), bit = c.choose(8, "bit");
    c.shard();
    Bytes d = v[s], got; d[where[s][b]] ^= 1 << bit;
    int r = cms_check(d, nullptr, got, x[s]);
    c.check(r == 0, "message %d still verifies with byte %d bit %d changed", s, where[s][b], bit);
    if (!b && !bit) c.check(cms_check(v[s], nullptr, got, x[s]) == 1, "message %d does not verify", s);
    c.step(); c.state(mix(s, mix(b, bit))); c.note("message %d byte %d bit %d", s, where[s][b], bit);
}
// the message of the test fixture, every byte of its content changed
static void cms_fixture(Ctx& c)
{
    static Bytes d; static std::vector<int> w;
    if (d.empty()) {
        BIO* b = BIO_new_file((repo_dir() + "/tests/cms.pem").c_str(), "r");
        CMS_ContentInfo* ci = b ? PEM_read_bio_CMS(b, nullptr, nullptr, nullptr) : nullptr;
        if (!ci) { fprintf(stderr, "HARNESS-ERROR cms.pem\n"); exit(3); }
        unsigned char* p = nullptr; int n = i2d_CMS_ContentInfo(ci, &p); d.assign(p, p + n); OPENSSL_free(p);
        ASN1_OCTET_STRING** oc = CMS_get0_content(ci); Bytes part((*oc)->data, (*oc)->data + (*oc)->length);
        auto it = std::search(d.begin(), d.end(), part.begin(), part.end()); for (size_t q = 0; q < part.size(); q++) w.push_back((int)(it - d.begin() + q));
        CMS_ContentInfo_free(ci); BIO_free(b);
    }
    int b = c.choose((int)w.size() + 1, "byte");
    c.shard();
    Bytes e = d, got; if (b) e[w[b - 1]] ^= 0x01;
    int r = cms_check(e, nullptr, got, nullptr);
    c.check(r == (b == 0), "fixture with byte %d changed: %d", b ? w[b - 1] : -1, r);
    c.step(); c.state(b); c.note("fixture byte %d", b);
}
static void p7(Ctx& c)
{
    int ki = c.choose(4, "key"), f = c.choose(3, "flags"), len = c.choose(c.thorough() ? 70 : 12, "length");
    c.shard();
    int curve[] = {4, 8, 13, 17}; static const int F[] = {PKCS7_BINARY | PKCS7_NOATTR, PKCS7_BINARY, PKCS7_BINARY | PKCS7_DETACHED};
    if (!c.thorough()) len = len * 6;
    K k(key(curve[ki], ki & 1, 19, 0)); X509* x = dummy_cert(k.k, 7);
    Bytes msg = pattern(len, 5);
    eng::RngScope rs; rs.r.byte = [](size_t i) { return (uint8_t)(i * 37 + 11); };
    BIO* b = BIO_new_mem_buf(msg.size() ? (const void*)msg.data() : "", len);
    PKCS7* p = PKCS7_sign(nullptr, nullptr, nullptr, b, F[f] | PKCS7_PARTIAL);
    std::string what = fmt("PKCS#7 key %d flags %d, %d bytes", ki, f, len);
    bool ok = p && PKCS7_sign_add_signer(p, x, k.k, eng::md(), F[f] | PKCS7_PARTIAL) && PKCS7_final(p, b, F[f]);
    c.check(ok, "%s: cannot sign", what.c_str());
    for (int bad = 0; bad < 2; bad++) {
        if (bad && curve[ki] < 8) break;
        Bytes m = msg; if (bad) { if (len) m[len - 1] ^= 4; else m = {1}; }
        if (bad && !(F[f] & PKCS7_DETACHED)) break;
        BIO *in = F[f] & PKCS7_DETACHED ? BIO_new_mem_buf(m.size() ? (const void*)m.data() : "", (int)m.size()) : nullptr, *out = BIO_new(BIO_s_mem());
        STACK_OF(X509)* st = sk_X509_new_null(); sk_X509_push(st, x);
        int r = PKCS7_verify(p, st, nullptr, in, out, PKCS7_NOVERIFY | PKCS7_BINARY);
        c.check(r == !bad && (bad || bio_bytes(out) == msg), "%s: verification %d of %s data", what.c_str(), r, bad ? "other" : "the signed");
        sk_X509_free(st); BIO_free(in); BIO_free(out);
    }
    PKCS7_free(p); BIO_free(b); X509_free(x); ERR_clear_error();
    c.step(3); c.state(mix(ki, mix(f, len))); c.note("%s", what.c_str());
}
int main(int argc, char** argv)
{
    eng::get(); eng::install_rng();
    return main_impl(argc, argv, {{"hmac_all", hmac_all}, {"hmac_seq", hmac_seq}, {"kdf", kdf}, {"pbes2_read", pbes2_read}, {"pbes2_write", pbes2_write}, {"pbes2_wrong", pbes2_wrong}, {"ds_split", ds_split}, {"ds_alter", ds_alter}, {"ds_seq", ds_seq}, {"ds_refuse", ds_refuse}, {"ds_foreign", ds_foreign}, {"cms_ok", cms_ok}, {"cms_alter", cms_alter}, {"cms_fixture", cms_fixture}, {"p7", p7}});
}
