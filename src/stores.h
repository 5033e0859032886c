// Writers of the three container formats, independent of /repo's readers, and
// the observable contents of a KeyStore.
#pragma once
#include "kit.h"
#include <openssl/sha.h>
extern "C" {
#include "jks.h"
#include "key6.h"
#include "pkcs12.h"
#include "keystore.h"
}
namespace st {
using namespace kit;
inline Bytes S(const std::string& s) { return Bytes(s.begin(), s.end()); }
inline Bytes b16(unsigned v) { return ref::be_bytes(v, 2); }
inline Bytes b32(uint32_t v) { return ref::be_bytes(v, 4); }
inline Bytes sha1(const Bytes& b) { Bytes o(20); SHA1(b.data(), b.size(), o.data()); return o; }
// UTF-8 to UTF-16BE
inline Bytes utf16(const Bytes& u)
{
    Bytes o;
    for (size_t i = 0; i < u.size();) {
        uint32_t c = u[i]; int n = c < 0x80 ? 1 : c < 0xe0 ? 2 : c < 0xf0 ? 3 : 4;
        if (n > 1) { c &= n == 2 ? 0x1f : n == 3 ? 0x0f : 0x07; for (int k = 1; k < n; k++) c = c << 6 | (u[i + k] & 0x3f); }
        i += n;
        auto put = [&](uint32_t v) { o.push_back((uint8_t)(v >> 8)); o.push_back((uint8_t)v); };
        if (c < 0x10000) put(c); else { c -= 0x10000; put(0xd800 + (c >> 10)); put(0xdc00 + (c & 0x3ff)); }
    }
    return o;
}
// a syntactically valid certificate; 'extra' pads its subject
inline Bytes cert(int serial, int extra = 0)
{
    auto name = [&](const std::string& s) { return ref::seq({ref::der(0x31, ref::seq({ref::oid("2.5.4.3"), ref::der(0x0c, S(s))}))}); };
    Bytes alg = ref::seq({ref::oid("1.2.840.10045.4.3.2")});
    Bytes spki = ref::seq({ref::seq({ref::oid("1.2.3.4.5")}), ref::bitstr({1, 2, 3, (uint8_t)serial})});
    Bytes val = ref::seq({ref::der(0x17, S("200101000000Z")), ref::der(0x17, S("300101000000Z"))});
    Bytes tbs = ref::seq({ref::der(0xa0, ref::integer(2)), ref::integer(serial + 1), alg, name("CA"), val, name("S" + std::string(extra, 'x')), spki});
    return ref::seq({tbs, alg, ref::bitstr({9, 9, (uint8_t)serial})});
}
// attribute { oid, SET { value } }
inline Bytes attr(const std::string& o, const Bytes& value) { return ref::seq({ref::oid(o), ref::der(0x31, value)}); }
inline uint8_t revbits(uint8_t b) { uint8_t r = 0; for (int i = 0; i < 8; i++) if (b >> i & 1) r |= 0x80 >> i; return r; }
static const char* CURVE_ATTR = "1.3.6.1.4.1.19398.1.1.2.2";
static const char* KEY_ATTR = "1.3.6.1.4.1.19398.1.1.2.3";
inline Bytes curve_attr(const Bytes& spec) { return attr(CURVE_ATTR, ref::seq({spec, ref::octet({1, 2}), ref::octet({3})})); }
inline Bytes key_bits(uint64_t d, int len) { Bytes b = ref::rev(ref::be_bytes(d, len)); for (auto& x : b) x = revbits(x); return b; }
inline Bytes key_attr(uint64_t d, int len, bool bits = false) { Bytes v = key_bits(d, len); return attr(KEY_ATTR, bits ? ref::bitstr(v) : ref::octet(v)); }
// PKCS#8 of a private number on small curve i, optionally with the second key (curve j, number e)
inline Bytes p8(int i, bool le, uint64_t d, int sb = 0, const Bytes& attrs = {}) { return ref::pkcs8(le, ref::alg_params(any(i).spec(le), sbox_in(sb)), ref::priv_le(d), attrs); }
inline Bytes second(int j, uint64_t e) { return curve_attr(ref::custom_spec(ref::tiny(j), false)) + key_attr(e, ref::tiny(j).bytes_n()); }
// what a key store entry is expected to encode to
inline Bytes p8_out(int i, bool le, uint64_t d, int sb = 0) { return ref::pkcs8(le, ref::alg_params(any(i).spec(le), sbox_out(sb)), ref::priv_le(d)); }

struct Contents { std::vector<Bytes> keys, certs; bool operator==(const Contents& o) const { return keys == o.keys && certs == o.certs; } };
inline Contents contents(KeyStore* ks)
{
    Contents c;
    for (size_t i = 0; i < KeyStoreKeyNum(ks); i++) { EVP_PKEY* k = (EVP_PKEY*)KeyStoreGetKey(ks, i); c.keys.push_back(k ? eng::priv_to_der(k) : Bytes()); }
    for (size_t i = 0; i < KeyStoreCertNum(ks); i++) {
        X509* x = (X509*)KeyStoreGetCert(ks, i);
        unsigned char* o = nullptr; int n = x ? i2d_X509(x, &o) : 0;
        c.certs.push_back(n > 0 ? Bytes(o, o + n) : Bytes());
        if (n > 0) OPENSSL_free(o);
    }
    return c;
}
inline std::string show(const Contents& c)
{
    std::string s = mc::fmt("%zu keys %zu certs", c.keys.size(), c.certs.size());
    if (c.keys.size() + c.certs.size() > 24) {
        uint64_t h = 0; for (auto& k : c.keys) h = mc::mix(h, mc::hash_bytes(k)); for (auto& k : c.certs) h = mc::mix(h, mc::hash_bytes(k));
        return s + mc::fmt(" #%016llx", (unsigned long long)h);
    }
    for (auto& k : c.keys) s += " k:" + mc::hex(k.size() > 8 ? Bytes(k.end() - 8, k.end()) : k);
    for (auto& k : c.certs) s += " c:" + mc::hex(k.size() > 4 ? Bytes(k.end() - 4, k.end()) : k);
    return s;
}

// ---- JKS ------------------------------------------------------------------------
static const char* PROTECTOR = "1.3.6.1.4.1.42.2.17.1.1";
inline Bytes protect(const Bytes& plain, const Bytes& pw16, int salt_no = 0)
{
    Bytes salt(20); for (int i = 0; i < 20; i++) salt[i] = (uint8_t)(i * 13 + salt_no * 29 + 5);
    Bytes d = salt, out = salt;
    for (size_t p = 0; p < plain.size(); p += 20) {
        d = sha1(pw16 + d);
        for (size_t j = 0; j < 20 && p + j < plain.size(); j++) out.push_back(plain[p + j] ^ d[j]);
    }
    return out + sha1(pw16 + plain);
}
inline Bytes epki(const Bytes& prot, const char* o = PROTECTOR) { return ref::seq({ref::seq({ref::oid(o), ref::null()}), ref::octet(prot)}); }
inline Bytes utf(const Bytes& s) { return b16((unsigned)s.size()) + s; }
inline Bytes jks_cert(const Bytes& der, const Bytes& type = {'X', '.', '5', '0', '9'}) { return utf(type) + b32((uint32_t)der.size()) + der; }
inline Bytes jks_key_entry(const Bytes& alias, const Bytes& ts, const Bytes& enc, const std::vector<Bytes>& chain)
{
    Bytes o = b32(1) + utf(alias) + ts + b32((uint32_t)enc.size()) + enc + b32((uint32_t)chain.size());
    for (auto& c : chain) o = o + jks_cert(c);
    return o;
}
inline Bytes jks_cert_entry(const Bytes& alias, const Bytes& ts, const Bytes& der) { return b32(2) + utf(alias) + ts + jks_cert(der); }
inline Bytes jks_sign(const Bytes& body, const Bytes& pw16) { return body + sha1(pw16 + S("Mighty Aphrodite") + body); }
inline Bytes jks_body(const std::vector<Bytes>& entries, uint32_t magic = 0xfeedfeed, uint32_t version = 2, long count = -1)
{
    Bytes o = b32(magic) + b32(version) + b32(count < 0 ? (uint32_t)entries.size() : (uint32_t)count);
    for (auto& e : entries) o = o + e;
    return o;
}
// ---- Key-6 ----------------------------------------------------------------------
inline Bytes key6_key(const Bytes& pw)
{
    static std::map<Bytes, Bytes> memo;
    Bytes& k = memo[pw];
    if (k.empty()) { k = ref::hash(pw); for (int i = 0; i < 9999; i++) k = ref::hash(k); }
    return k;
}
static const char* KEY6_OID = "1.3.6.1.4.1.19398.1.1.1.2";
inline Bytes key6_cipher(Bytes plain, const Bytes& pw, int filler = 0)
{
    while (plain.size() % 8) plain.push_back((uint8_t)filler);
    Bytes k = key6_key(pw);
    return ref::ecb(plain, ref::Gost(ref::DEFAULT_SBOX, k.data()), true);
}
// the last 'pad' bytes of the ciphertext go into the padding field; pad < 0: field absent
inline Bytes key6_wrap(const Bytes& ct, int pad, const char* o = KEY6_OID)
{
    Bytes body(ct.begin(), ct.end() - std::max(0, pad)), rest(ct.end() - std::max(0, pad), ct.end());
    Bytes params = pad < 0 ? ref::seq({ref::octet({1, 2, 3, 4})}) : ref::seq({ref::octet({1, 2, 3, 4}), ref::octet(rest)});
    return ref::seq({ref::seq({ref::oid(o), params}), ref::octet(body)});
}
// a key in use: everything a caller may do with it; returns a digest of what came out
inline uint64_t use_key(EVP_PKEY* k)
{
    uint64_t h = 1;
    eng::Rng* outer = eng::rng;
    struct Back { eng::Rng* o; ~Back() { eng::rng = o; } } back{outer};
    eng::Rng mine; eng::rng = &mine; uint64_t x = 88172645463325252ull;
    mine.byte = [&](size_t) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint8_t)(x >> 24); };
    h = mc::mix(h, mc::hash_bytes(eng::priv_to_der(k)));
    h = mc::mix(h, mc::hash_bytes(eng::pub_to_der(k)));
    h = mc::mix(h, mc::hash_bytes(eng::params_to_der(k)));
    for (int w = 0; w < 3; w++) h = mc::mix(h, mc::hash_str(eng::view(k, w).text));
    h = mc::mix(h, EVP_PKEY_bits(k)); h = mc::mix(h, EVP_PKEY_size(k)); h = mc::mix(h, EVP_PKEY_eq(k, k) + 5);
    Bytes sig, hv(32, 0x37);
    int s = eng::sign(k, hv, sig);
    if (s > 0) { h = mc::mix(h, mc::hash_bytes(sig)); h = mc::mix(h, eng::verify(k, hv, sig)); }
    h = mc::mix(h, eng::verify(k, hv, Bytes(EVP_PKEY_size(k), 0x11)));
    ERR_clear_error();
    return h;
}
// exactly sized heap copy of some bytes
struct Heap { uint8_t* p; size_t n; Heap(const Bytes& b) : p((uint8_t*)malloc(b.size() ? b.size() : 1)), n(b.size()) { if (n) memcpy(p, b.data(), n); } ~Heap() { free(p); } Heap(const Heap&) = delete; };
struct Out { int rc = 0; bool left = false; Contents c; uint64_t used = 0; };
inline bool exercise = false;   // also use every key and certificate that comes out
// runs a parser; a store left behind on failure is reported in 'left'
inline Out guard(const std::function<int(KeyStore**)>& f)
{
    static int marker;
    // libcrypto draws random numbers while solving quadratics over fields of even degree
    eng::RngScope rs; uint64_t lf = 0x9e3779b97f4a7c15ull;
    if (exercise) rs.r.byte = [&](size_t) { lf ^= lf << 13; lf ^= lf >> 7; lf ^= lf << 17; return (uint8_t)(lf >> 24); }; else eng::rng = nullptr;
    KeyStore* untouched = (KeyStore*)&marker; KeyStore* ks = untouched;
    Out o;
    o.rc = f(&ks);
    if (o.rc == 1) {
        if (ks == untouched || !ks) { o.rc = -77; return o; }
        o.c = contents(ks);
        if (exercise) {
            for (size_t i = 0; i < KeyStoreKeyNum(ks); i++) if (KeyStoreGetKey(ks, i)) o.used = mc::mix(o.used, use_key((EVP_PKEY*)KeyStoreGetKey(ks, i)));
            if (KeyStoreGetKey(ks, KeyStoreKeyNum(ks)) || KeyStoreGetCert(ks, KeyStoreCertNum(ks))) o.rc = -78;
        }
        KeyStoreFree(ks);
    } else o.left = ks != untouched && ks != nullptr;
    ERR_clear_error();
    return o;
}
inline Out jks(const Bytes& d, const Bytes& spw, const Bytes& kpw)
{
    Heap h(d), a(spw), b(kpw);
    return guard([&](KeyStore** ks) { return parseJKS(h.p, h.n, (char*)a.p, a.n, (char*)b.p, b.n, ks); });
}
// fresh memory filled with a chosen byte, so that reading it uninitialised shows
inline int fill_byte = 0;
inline void* fill_malloc(size_t n, const char*, int) { void* p = malloc(n); if (p) memset(p, fill_byte, n); return p; }
inline void* fill_realloc(void* p, size_t n, const char*, int) { return realloc(p, n); }
inline void fill_free(void* p, const char*, int) { free(p); }
// a parser on arbitrary bytes: clean result, nothing left behind, the same whatever fresh memory holds
inline void robust(mc::Ctx& c, const std::function<Out()>& f, const std::string& what, bool twice, bool leak)
{
    fill_byte = 0x05;
    Out a = f();
    c.step(); c.outcome(mc::mix(a.rc, a.used));
    c.check(a.rc == 0 || a.rc == 1, "%s: returned %d", what.c_str(), a.rc);
    c.check(!a.left, "%s: refused, but a store was left behind", what.c_str());
    if (twice) {
        fill_byte = 0x30;
        Out b = f();
        c.check(a.rc == b.rc && a.c == b.c && a.used == b.used, "%s: result depends on uninitialised memory (%d %s / %d %s)", what.c_str(), a.rc, show(a.c).c_str(), b.rc, show(b.c).c_str());
    }
    if (leak) { long l = mc::leak_per_run([&] { f(); }); c.check(l <= 0, "%s: leaks %ld allocations", what.c_str(), l); }
}
inline Out key6(const Bytes& d, const Bytes& pw)
{
    Heap h(d), a(pw);
    return guard([&](KeyStore** ks) { return parseKey6(h.p, h.n, (char*)a.p, a.n, ks); });
}
inline Out pfx(const Bytes& d, const Bytes& pw)
{
    // what follows the password in memory must not matter
    Heap h(d); Bytes z = pw; z.push_back('Z'); z.push_back(0); Heap a(z);
    return guard([&](KeyStore** ks) { return parsePKCS12(h.p, h.n, (char*)a.p, pw.size(), ks); });
}
}
