// Writer of PKCS#12 containers: bags and safes as DER by hand, password-based
// encryption and MAC through libcrypto.
#pragma once
#include "stores.h"
#include <unistd.h>
#include <openssl/pkcs12.h>
#include <openssl/x509.h>
namespace p12 {
using namespace st;
// encryption: 0 PKCS#12 PBE with 3DES, 1 PBES2 AES, 2 PBES2 with the DSTU cipher and HMAC
enum { P3DES, PAES, PDSTU };
static const Bytes SALT = {1, 2, 3, 4, 5, 6, 7, 8};
inline void bad(const char* m) { fprintf(stderr, "HARNESS-ERROR p12 %s\n", m); ERR_print_errors_fp(stderr); _exit(3); }
inline X509_ALGOR* pbe(int kind)
{
    unsigned char iv[16] = {9, 8, 7, 6, 5, 4, 3, 2, 1};
    Bytes s = SALT;
    if (kind == P3DES) return PKCS5_pbe_set(NID_pbe_WithSHA1And3_Key_TripleDES_CBC, 1, s.data(), (int)s.size());
    if (kind == PAES) return PKCS5_pbe2_set_iv(EVP_aes_128_cbc(), 1, s.data(), (int)s.size(), iv, NID_hmacWithSHA256);
    return PKCS5_pbe2_set_iv(eng::cipher(), 1, s.data(), (int)s.size(), iv, NID_hmacWithDstu34311);
}
inline Bytes i2d(int (*f)(const void*, unsigned char**), const void* o) { unsigned char* p = nullptr; int n = f(o, &p); Bytes b(p, p + std::max(0, n)); OPENSSL_free(p); return b; }
// EncryptedPrivateKeyInfo
inline Bytes shroud(const Bytes& p8, int kind, const Bytes& pw)
{
    const unsigned char* q = p8.data();
    PKCS8_PRIV_KEY_INFO* i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &q, (long)p8.size());
    X509_ALGOR* a = pbe(kind);
    X509_SIG* s = i && a ? PKCS8_set0_pbe((const char*)pw.data(), (int)pw.size(), i, a) : nullptr;
    if (!s) bad("shroud");
    Bytes o = i2d((int (*)(const void*, unsigned char**))i2d_X509_SIG, s);
    X509_SIG_free(s); PKCS8_PRIV_KEY_INFO_free(i);
    return o;
}
inline Bytes ctx0(const Bytes& b) { return ref::der(0xa0, b); }
inline Bytes bag(const char* id, const Bytes& value, bool attrs = false)
{
    Bytes at = attrs ? ref::der(0x31, attr("1.2.840.113549.1.9.20", ref::der(0x1e, {0, 'k'})) + attr("1.2.840.113549.1.9.21", ref::octet({1}))) : Bytes();
    return ref::seq({ref::oid(id), ctx0(value), at});
}
#define BAG(n) "1.2.840.113549.1.12.10.1." #n
inline Bytes key_bag(const Bytes& p8, bool at = false) { return bag(BAG(1), p8, at); }
inline Bytes shrouded_bag(const Bytes& p8, int kind, const Bytes& pw, bool at = false) { return bag(BAG(2), shroud(p8, kind, pw), at); }
inline Bytes cert_bag(const Bytes& x, bool at = false, const char* type = "1.2.840.113549.1.9.22.1") { return bag(BAG(3), ref::seq({ref::oid(type), ctx0(ref::octet(x))}), at); }
inline Bytes secret_bag() { return bag(BAG(5), ref::seq({ref::oid("1.2.3.4"), ctx0(ref::octet({1, 2, 3}))})); }
inline Bytes crl_bag() { return bag(BAG(4), ref::seq({ref::oid("1.2.840.113549.1.9.23.1"), ctx0(ref::octet({0x30, 0}))})); }
inline Bytes safes_bag(const std::vector<Bytes>& b) { return bag(BAG(6), ref::seqv(b)); }
inline Bytes data_ci(const Bytes& content) { return ref::seq({ref::oid("1.2.840.113549.1.7.1"), ctx0(ref::octet(content))}); }
// an encrypted safe
inline Bytes enc_ci(const Bytes& content, int kind, const Bytes& pw)
{
    X509_ALGOR* a = pbe(kind);
    unsigned char* out = nullptr; int n = 0;
    if (!a || !PKCS12_pbe_crypt(a, (const char*)pw.data(), (int)pw.size(), content.data(), (int)content.size(), &out, &n, 1)) bad("pbe_crypt");
    Bytes ct(out, out + n), alg = i2d((int (*)(const void*, unsigned char**))i2d_X509_ALGOR, a);
    OPENSSL_free(out); X509_ALGOR_free(a);
    return ref::seq({ref::oid("1.2.840.113549.1.7.6"), ctx0(ref::seq({ref::integer(0), ref::seq({ref::oid("1.2.840.113549.1.7.1"), alg, ref::der(0x80, ct)})}))});
}
inline Bytes other_ci() { return ref::seq({ref::oid("1.2.840.113549.1.7.5"), ctx0(ref::seq({ref::integer(0), ref::seq({ref::oid("1.3.14.3.2.26"), ref::null()}), ref::seq({ref::oid("1.2.840.113549.1.7.1")}), ref::octet({1})}))}); }
inline Bytes store_nomac(const std::vector<Bytes>& cis) { return ref::seq({ref::integer(3), data_ci(ref::seqv(cis))}); }
// mac: 0 SHA-1, 1 SHA-256, 2 DSTU; otherwise none
inline Bytes store_raw(const Bytes& authsafe, const Bytes& pw, int mac = 0, int iter = 1)
{
    Bytes d = ref::seq({ref::integer(3), data_ci(authsafe)});
    if (mac > 2) return d;
    const unsigned char* q = d.data();
    PKCS12* p = d2i_PKCS12(nullptr, &q, (long)d.size());
    Bytes s = SALT;
    if (!p || !PKCS12_set_mac(p, (const char*)pw.data(), (int)pw.size(), s.data(), (int)s.size(), iter, mac == 0 ? EVP_sha1() : mac == 1 ? EVP_sha256() : eng::md())) bad("mac");
    Bytes o = i2d((int (*)(const void*, unsigned char**))i2d_PKCS12, p);
    PKCS12_free(p);
    return o;
}
inline Bytes store(const std::vector<Bytes>& cis, const Bytes& pw, int mac = 0, int iter = 1) { return store_raw(ref::seqv(cis), pw, mac, iter); }
}
