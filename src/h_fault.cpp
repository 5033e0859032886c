// C13, C14: every random draw, every allocation of an operation fails in turn.
#include "p12.h"
#include <openssl/cms.h>
#include <openssl/hmac.h>
#include <openssl/pkcs7.h>
#include <openssl/pem.h>
#include <sys/wait.h>
using namespace mc;
using namespace kit;
using namespace st;

// ---- faults -------------------------------------------------------------------------
static bool armed = false, by_memory = false;
static long cnt = 0, at = -1, live = 0;
static int until = 0;                  // 0 only the chosen one fails, 1 all from there on
static int draw_rc = 0, draw_fill = 0; // a failing draw's result and what it leaves in the buffer
static const char* hit_file = ""; static int hit_line = 0;
static bool hit() { long i = cnt++; return at >= 0 && (until ? i >= at : i == at); }
struct Arm { Arm() { armed = true; } ~Arm() { armed = false; } };
static void* m_malloc(size_t n, const char* f, int l)
{
    if (!n) return nullptr;
    if (armed && by_memory && hit()) { if (cnt - 1 == at) { hit_file = f; hit_line = l; } return nullptr; }
    void* p = malloc(n);
    if (p) live++;
    return p;
}
static void m_free(void* p, const char*, int) { if (p) { live--; free(p); } }
static void* m_realloc(void* p, size_t n, const char* f, int l)
{
    if (!p) return m_malloc(n, f, l);
    if (!n) { m_free(p, f, l); return nullptr; }
    if (armed && by_memory && hit()) { if (cnt - 1 == at) { hit_file = f; hit_line = l; } return nullptr; }
    return realloc(p, n);
}
static uint64_t lfsr; static int zeros;   // the random stream: 'zeros' draws of zero bytes, then this
static int r_bytes(unsigned char* b, int n)
{
    if (armed && !by_memory && hit()) {
        if (draw_fill) memset(b, draw_fill == 1 ? 0x01 : 0x5c, n);
        ERR_raise(ERR_LIB_RAND, RAND_R_ERROR_RETRIEVING_ENTROPY);
        return draw_rc;
    }
    if (zeros > 0) { zeros--; memset(b, 0, n); return 1; }
    for (int i = 0; i < n; i++) { lfsr ^= lfsr << 13; lfsr ^= lfsr >> 7; lfsr ^= lfsr << 17; b[i] = (uint8_t)(lfsr >> 24); }
    return 1;
}
static int r_seed(const void*, int) { return 1; }
static int r_add(const void*, int, double) { return 1; }
static int r_status(void) { return 1; }
static RAND_METHOD rand_meth = {r_seed, r_bytes, nullptr, r_add, r_bytes, r_status};

// ---- operations ---------------------------------------------------------------------
struct Res { int ok = 0; Bytes out; std::string bad; };
struct Op { std::string name; std::function<Res()> f; bool needs_draw; std::function<Res()> lossy; int ends; };
// the finding listed in known_findings.txt: an allocation failing while the second key of a container is made loses that key
static bool known(const char* key) { const char* k = getenv("VERIF_KNOWN"); return k && strstr(k, key); }
static Bytes pat(size_t n, int s) { Bytes b(n); for (size_t i = 0; i < n; i++) b[i] = (uint8_t)(i * (2 * s + 31) + s * 77 + 1); return b; }
static Bytes take(unsigned char* p, int n) { Bytes b; if (n > 0) b.assign(p, p + n); if (n > 0) OPENSSL_free(p); return b; }
static const Bytes PW = S("secret");
struct Keys { K priv, pub; Bytes pder, uder, par; };
// curve, byte order, s-box
static Keys& keys(int ci, bool le, int sb)
{
    static std::map<int, Keys*> v;
    Keys*& k = v[ci * 100 + sb * 2 + le];
    if (!k) {
        k = new Keys;
        k->priv.reset(kit::priv(any(ci), le, 0x0b, sb));
        k->uder = eng::pub_to_der(k->priv.k); k->pub.reset(eng::pub_from_der(k->uder));
        k->pder = eng::priv_to_der(k->priv.k); k->par = eng::params_to_der(k->priv.k);
        if (!k->priv || !k->pub || k->pder.empty() || k->par.empty()) { fprintf(stderr, "HARNESS-ERROR key\n"); exit(3); }
    }
    return *k;
}
static Bytes text(EVP_PKEY* k) { Bytes o; for (int w = 0; w < 3; w++) o = o + S(eng::view(k, w).text); return o; }
static EVP_PKEY_CTX* px(EVP_PKEY* k) { return EVP_PKEY_CTX_new(k, eng::get()); }

static Res op_sign(int ci, bool le, int sb, int hashlen)
{
    Keys& k = keys(ci, le, sb);
    Res r; Bytes h = pat(hashlen, 3), sig(EVP_PKEY_size(k.priv.k) + 8, 0xaa); size_t n = sig.size();
    {
        Arm a;
        EVP_PKEY_CTX* c = px(k.priv.k);
        r.ok = c && EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_sign(c, sig.data(), &n, h.data(), h.size()) > 0;
        EVP_PKEY_CTX_free(c);
    }
    ERR_clear_error();
    if (r.ok) { sig.resize(n); if (eng::verify(k.pub.k, h, sig) != 1) r.bad = "signature does not verify"; }
    else { sig.resize(EVP_PKEY_size(k.priv.k)); if (eng::verify(k.pub.k, h, sig) == 1) r.bad = "failed, but a valid signature was written"; }
    return r;
}
static Res op_dsign(int ci, bool le, int sb)
{
    Keys& k = keys(ci, le, sb);
    Res r; Bytes m = pat(70, 3), sig(EVP_PKEY_size(k.priv.k) + 8, 0xaa); size_t n = sig.size();
    {
        Arm a;
        EVP_MD_CTX* c = EVP_MD_CTX_new();
        r.ok = c && EVP_DigestSignInit(c, nullptr, eng::md(), nullptr, k.priv.k) > 0 && EVP_DigestSignUpdate(c, m.data(), m.size()) > 0 && EVP_DigestSignFinal(c, sig.data(), &n) > 0;
        EVP_MD_CTX_free(c);
    }
    ERR_clear_error();
    Bytes h = ref::hash(m, sbox_in(sb ? sb : 1).data());
    if (r.ok) { sig.resize(n); if (eng::verify(k.pub.k, h, sig) != 1) r.bad = "signature does not verify"; }
    return r;
}
static Res op_dverify(int ci, bool le, int sb, bool good)
{
    Keys& k = keys(ci, le, sb);
    static std::map<int, Bytes> sigs;
    Bytes m = pat(70, 3); Bytes& sig = sigs[ci * 100 + sb * 2 + le];
    if (sig.empty()) eng::sign(k.priv.k, ref::hash(m, sbox_in(sb ? sb : 1).data()), sig);
    Res r; if (!good) m[0] ^= 1;
    int v = 0;
    {
        Arm a;
        EVP_MD_CTX* c = EVP_MD_CTX_new();
        v = c && EVP_DigestVerifyInit(c, nullptr, eng::md(), nullptr, k.pub.k) > 0 && EVP_DigestVerifyUpdate(c, m.data(), m.size()) > 0 && EVP_DigestVerifyFinal(c, sig.data(), sig.size()) == 1;
        EVP_MD_CTX_free(c);
    }
    if (good) r.ok = v; else { r.ok = !v; if (v) r.bad = "a wrong signature was accepted"; }
    return r;
}
static Res op_verify(int ci, bool le, int sb, int kind)   // 0 good, 1 wrong hash, 2 raw form
{
    Keys& k = keys(ci, le, sb);
    static std::map<int, Bytes> sigs;
    Bytes h = pat(32, 3); Bytes& sig = sigs[ci * 100 + sb * 2 + le];
    if (sig.empty()) eng::sign(k.priv.k, h, sig);
    Res r; Bytes s = sig;
    if (kind == 1) h[0] ^= 1;
    if (kind == 2) s.erase(s.begin(), s.begin() + (s[1] < 0x80 ? 2 : 3));
    int v;
    {
        Arm a;
        EVP_PKEY_CTX* c = px(k.pub.k);
        v = c && EVP_PKEY_verify_init(c) > 0 && EVP_PKEY_verify(c, s.data(), s.size(), h.data(), h.size()) == 1;
        EVP_PKEY_CTX_free(c);
    }
    if (kind != 1) r.ok = v; else { r.ok = !v; if (v) r.bad = "a wrong signature was accepted"; }
    return r;
}
// how: 0 default curve, 1 named curve, 2 small curve; pre: into a given object; dup: through a duplicated context is not possible here
static Res op_keygen(bool le, int how, int sb, bool pre)
{
    const Any& a = any(how == 0 ? 14 : how == 1 ? 8 : 3);
    Res r; EVP_PKEY* k = nullptr; EVP_PKEY* mine = pre ? EVP_PKEY_new() : nullptr;
    if (mine) { k = mine; EVP_PKEY_up_ref(mine); }
    std::string box; for (uint8_t b : sbox_in(sb)) box += fmt("%02X", b);
    {
        Arm arm;
        EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(kit::nid(le), eng::get());
        r.ok = c && EVP_PKEY_keygen_init(c) > 0 && (how == 0 || (how == 1 ? EVP_PKEY_CTX_ctrl_str(c, "curve", "uacurve0") > 0 : EVP_PKEY_CTX_ctrl(c, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, a.g) > 0))
            && (sb < 2 || EVP_PKEY_CTX_ctrl_str(c, "sbox", box.c_str()) > 0) && EVP_PKEY_keygen(c, &k) > 0;
        EVP_PKEY_CTX_free(c);
    }
    ERR_clear_error();
    if (r.ok) {
        r.out = eng::params_to_der(k);
        EVP_PKEY* p = eng::pub_from_der(eng::pub_to_der(k));
        Bytes h = pat(32, 1), sig;
        if (!p || eng::sign(k, h, sig) <= 0 || eng::verify(p, h, sig) != 1) r.bad = "the generated key does not work";
        EVP_PKEY_free(p);
    } else if (k && k != mine) r.bad = "failed, but a key was handed out";
    else if (mine && EVP_PKEY_size(mine) > 0) r.bad = "failed, but the given object became a key";
    if (k) EVP_PKEY_free(k);
    else if (mine) {}
    if (mine) EVP_PKEY_free(mine);
    ERR_clear_error();
    return r;
}
static Res op_ctxcopy(bool le)
{
    Keys& k = keys(8, le, 2);
    Res r; EVP_PKEY_CTX *c = px(k.priv.k), *d = nullptr; Bytes sb = sbox_in(3), h = pat(32, 4), sig;
    {
        Arm a;
        r.ok = EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_CTX_ctrl(c, -1, -1, CTRL_SBOX, 64, sb.data()) > 0 && EVP_PKEY_CTX_ctrl(c, -1, -1, CTRL_CURVE, 0, any(9).g) > 0 && (d = EVP_PKEY_CTX_dup(c)) != nullptr;
    }
    ERR_clear_error();
    // both still sign
    for (EVP_PKEY_CTX* x : {c, d}) if (x && EVP_PKEY_sign_init(x) > 0) { sig.assign(EVP_PKEY_size(k.priv.k), 0); size_t n = sig.size(); if (EVP_PKEY_sign(x, sig.data(), &n, h.data(), h.size()) <= 0) r.bad = "context unusable afterwards"; }
    EVP_PKEY_CTX_free(c); EVP_PKEY_CTX_free(d);
    ERR_clear_error();
    return r;
}
static Res op_decode(int ci, bool le, int sb, int what)   // 0 private, 1 public, 2 parameters
{
    Keys& k = keys(ci, le, sb);
    Res r; EVP_PKEY* n = nullptr;
    {
        Arm a;
        n = what == 0 ? eng::priv_from_der(k.pder) : what == 1 ? eng::pub_from_der(k.uder) : eng::params_from_der(kit::nid(le), k.par);
    }
    ERR_clear_error();
    r.ok = n != nullptr;
    if (n) { r.out = eng::params_to_der(n) + (what < 2 ? eng::pub_to_der(n) : Bytes()) + (what < 1 ? eng::priv_to_der(n) : Bytes()); EVP_PKEY_free(n); }
    ERR_clear_error();
    return r;
}
// a public key as it stands in a certificate request or another X509_PUBKEY
static Res op_encode(int ci, bool le, int sb, int what)
{
    Keys& k = keys(ci, le, sb);
    Res r; unsigned char* o = nullptr; int n = 0;
    PKCS8_PRIV_KEY_INFO* p = nullptr;
    {
        Arm a;
        if (what == 0) { p = EVP_PKEY2PKCS8(k.priv.k); n = p ? i2d_PKCS8_PRIV_KEY_INFO(p, &o) : 0; PKCS8_PRIV_KEY_INFO_free(p); }
        else if (what == 1) { X509_PUBKEY* x = nullptr; if (X509_PUBKEY_set(&x, k.pub.k)) n = i2d_X509_PUBKEY(x, &o); X509_PUBKEY_free(x); }
        else n = i2d_KeyParams(k.priv.k, &o);
    }
    r.ok = n > 0; r.out = take(o, n);
    ERR_clear_error();
    if (r.ok) {   // another encoding will do if it stands for the same key
        EVP_PKEY* b = what == 0 ? eng::priv_from_der(r.out) : what == 1 ? eng::pub_from_der(r.out) : eng::params_from_der(le ? NID_dstu4145le : NID_dstu4145be, r.out);
        if (!b) r.bad = "the encoding cannot be decoded: " + hex(r.out);
        else r.out = what == 0 ? eng::priv_to_der(b) : what == 1 ? eng::pub_to_der(b) : eng::params_to_der(b);
        EVP_PKEY_free(b);
        ERR_clear_error();
    }
    return r;
}
static Res op_compare(bool le, int kind)   // 0 equal, 1 other curve, 2 other number, 3 other s-box; small and named
{
    Res r; EVP_PKEY* x = keys(8, le, 2).pub.k;
    static std::map<int, K*> other; K*& o = other[le];
    if (!o) o = new K(kit::priv(any(8), le, 0x0c, 2));
    EVP_PKEY* y = kind == 0 ? keys(8, le, 2).priv.k : kind == 1 ? keys(9, le, 2).pub.k : kind == 2 ? o->k : keys(8, le, 3).pub.k;
    int v, w;
    { Arm a; v = EVP_PKEY_eq(x, y); w = EVP_PKEY_parameters_eq(x, y); }
    if (kind == 0) r.ok = v == 1 && w == 1;
    else { r.ok = 1; if (v == 1 || (kind != 2 && w == 1)) r.bad = "different keys compared equal"; }
    ERR_clear_error();
    return r;
}
static Res op_copy(bool le, bool into_key)
{
    Res r; EVP_PKEY* from = keys(8, le, 2).priv.k;
    EVP_PKEY* to = EVP_PKEY_new(); EVP_PKEY_set_type(to, kit::nid(le));
    { Arm a; r.ok = EVP_PKEY_missing_parameters(to) && EVP_PKEY_copy_parameters(to, from) == 1; }
    ERR_clear_error();
    if (r.ok) { r.out = eng::params_to_der(to); if (into_key && (EVP_PKEY_copy_parameters(to, from) != 1)) r.bad = "a second copy failed"; }
    else { use_key(to); if (EVP_PKEY_copy_parameters(to, from) != 1 || eng::params_to_der(to) != eng::params_to_der(from)) r.bad = "copying again failed"; }
    EVP_PKEY_free(to); ERR_clear_error();
    return r;
}
static Res op_print(int ci, bool le, int what)
{
    Keys& k = keys(ci, le, 2);
    Res r; char buf[8192]; BIO* b = BIO_new(BIO_s_mem());
    BIO_write(b, std::string(8000, 'x').data(), 8000); BIO_read(b, buf, 8000);   // grown already
    {
        Arm a;
        r.ok = (what == 0 ? EVP_PKEY_print_params(b, k.priv.k, 2, nullptr) : what == 1 ? EVP_PKEY_print_public(b, k.pub.k, 2, nullptr) : EVP_PKEY_print_private(b, k.priv.k, 2, nullptr)) > 0;
    }
    char* d; long n = BIO_get_mem_data(b, &d); if (r.ok) r.out.assign(d, d + n);
    BIO_free(b); ERR_clear_error();
    return r;
}
static Res op_digest(bool copy)
{
    Res r; Bytes m = pat(100, 1), sb = sbox_in(2), o(64); unsigned n = 0;
    {
        Arm a;
        EVP_MD_CTX *c = EVP_MD_CTX_new(), *d = EVP_MD_CTX_new();
        r.ok = c && d && EVP_DigestInit_ex(c, eng::md(), eng::get()) && EVP_MD_CTX_ctrl(c, CTRL_SBOX, 64, sb.data()) > 0 && EVP_DigestUpdate(c, m.data(), m.size()) && (!copy || (EVP_MD_CTX_copy_ex(d, c) && EVP_DigestFinal_ex(d, o.data() + 32, &n))) && EVP_DigestFinal_ex(c, o.data(), &n);
        EVP_MD_CTX_free(c); EVP_MD_CTX_free(d);
    }
    r.out = o; ERR_clear_error();
    return r;
}
static Res op_hmac()
{
    Res r; Bytes k = pat(50, 1), m = pat(100, 2), o(64); unsigned n = 0;
    { Arm a; r.ok = HMAC(eng::md(), k.data(), (int)k.size(), m.data(), m.size(), o.data(), &n) != nullptr && PKCS5_PBKDF2_HMAC("pass", 4, k.data(), 8, 3, eng::md(), 32, o.data() + 32); }
    r.out = o; ERR_clear_error();
    return r;
}
static Res op_cipher(bool copy)
{
    Res r; Bytes k = pat(32, 1), iv = pat(8, 2), m = pat(45, 3), sb = sbox_in(2), o(200); int n = 0, l = 0;
    {
        Arm a;
        EVP_CIPHER_CTX *c = EVP_CIPHER_CTX_new(), *d = EVP_CIPHER_CTX_new(); ASN1_TYPE* t = ASN1_TYPE_new();
        r.ok = c && d && t && EVP_EncryptInit_ex(c, eng::cipher(), eng::get(), k.data(), iv.data()) && EVP_CIPHER_CTX_ctrl(c, CTRL_SBOX, 64, sb.data()) > 0 && EVP_EncryptUpdate(c, o.data(), &n, m.data(), 19) && EVP_CIPHER_param_to_asn1(c, t) > 0
            && (copy ? EVP_CIPHER_CTX_copy(d, c) : EVP_EncryptInit_ex(d, eng::cipher(), eng::get(), k.data(), iv.data()) && EVP_CIPHER_asn1_to_param(d, t) > 0)
            && EVP_EncryptUpdate(d, o.data() + 100, &n, m.data() + 19, 26) && EVP_EncryptUpdate(c, o.data() + 19, &n, m.data() + 19, 26) && EVP_EncryptFinal_ex(c, o.data() + 45, &l);
        EVP_CIPHER_CTX_free(c); EVP_CIPHER_CTX_free(d); ASN1_TYPE_free(t);
    }
    r.out = o; ERR_clear_error();
    return r;
}
static Res op_pbes2(bool read)
{
    Keys& k = keys(8, true, 2);
    static Bytes enc = p12::shroud(k.pder, p12::PDSTU, PW);
    Res r;
    if (read) {
        const unsigned char* q = enc.data(); X509_SIG* s = d2i_X509_SIG(nullptr, &q, (long)enc.size()); PKCS8_PRIV_KEY_INFO* i;
        { Arm a; i = PKCS8_decrypt(s, (const char*)PW.data(), (int)PW.size()); }
        ERR_clear_error();
        r.ok = i != nullptr;
        if (i) { unsigned char* o = nullptr; int n = i2d_PKCS8_PRIV_KEY_INFO(i, &o); r.out = take(o, n); }
        X509_SIG_free(s); PKCS8_PRIV_KEY_INFO_free(i);
    } else {
        const unsigned char* q = k.pder.data(); PKCS8_PRIV_KEY_INFO* i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &q, (long)k.pder.size()); X509_SIG* s = nullptr;
        Bytes salt = p12::SALT;
        {
            Arm a;
            X509_ALGOR* al = PKCS5_pbe2_set_iv(eng::cipher(), 1, salt.data(), (int)salt.size(), nullptr, NID_hmacWithDstu34311);   // the IV is drawn
            if (al && !(s = PKCS8_set0_pbe((const char*)PW.data(), (int)PW.size(), i, al))) X509_ALGOR_free(al);
        }
        ERR_clear_error();
        r.ok = s != nullptr;
        if (s) {
            PKCS8_PRIV_KEY_INFO* j = PKCS8_decrypt(s, (const char*)PW.data(), (int)PW.size());
            unsigned char* o = nullptr; int n = j ? i2d_PKCS8_PRIV_KEY_INFO(j, &o) : 0; r.out = take(o, n);
            PKCS8_PRIV_KEY_INFO_free(j);
        }
        X509_SIG_free(s); PKCS8_PRIV_KEY_INFO_free(i);
    }
    ERR_clear_error();
    return r;
}
static const Bytes& store_bytes(int f, bool one = false)
{
    static Bytes v[6];
    Bytes& b = v[f + 3 * one];
    if (!b.empty()) return b;
    Bytes p = one ? p8(3, false, 5, 2) : p8(3, false, 5, 2, second(3, 5));
    if (f == 0) b = jks_sign(jks_body({jks_key_entry(S("k"), Bytes(8, 1), epki(protect(p, utf16(PW))), {cert(1), cert(2)}), jks_cert_entry(S("c"), Bytes(8, 2), cert(3)), jks_key_entry(S("l"), Bytes(8, 1), epki(protect(p8(4, true, 6), utf16(PW))), {})}), utf16(PW));
    if (f == 1) b = key6_wrap(key6_cipher(p, PW), 8);
    if (f == 2) b = p12::store({p12::data_ci(ref::seqv({p12::key_bag(p8(3, true, 4, 2)), p12::cert_bag(cert(1)), p12::safes_bag({p12::cert_bag(cert(2))})})), p12::enc_ci(ref::seqv({p12::shrouded_bag(p8(4, false, 7), p12::PDSTU, PW)}), p12::PAES, PW)}, PW, 2);
    return b;
}
static Res op_store(int f, int way, bool one = false)   // way: 0 parse, 1 read from a BIO, 2 read from a file
{
    const Bytes& d = store_bytes(f, one);
    Bytes z = PW; z.push_back(0); const char* pw = (const char*)z.data(); size_t pn = PW.size();
    static int marker; KeyStore *mark = (KeyStore*)&marker, *ks = mark;
    BIO* b = way == 1 ? BIO_new_mem_buf(d.data(), (int)d.size()) : nullptr;
    FILE* fp = way == 2 ? fmemopen((void*)d.data(), d.size(), "r") : nullptr;
    Res r; int rc = 0;
    {
        Arm a;
        if (f == 0) rc = way == 0 ? parseJKS(d.data(), d.size(), pw, pn, pw, pn, &ks) : way == 1 ? readJKS_bio(b, pw, pn, pw, pn, &ks) : readJKS(fp, pw, pn, pw, pn, &ks);
        if (f == 1) rc = way == 0 ? parseKey6(d.data(), d.size(), pw, pn, &ks) : way == 1 ? readKey6_bio(b, pw, pn, &ks) : readKey6(fp, pw, pn, &ks);
        if (f == 2) rc = way == 0 ? parsePKCS12(d.data(), d.size(), pw, pn, &ks) : way == 1 ? readPKCS12_bio(b, pw, pn, &ks) : readPKCS12(fp, pw, pn, &ks);
    }
    ERR_clear_error();
    BIO_free(b); if (fp) fclose(fp);
    r.ok = rc == 1;
    if (rc != 0 && rc != 1) r.bad = fmt("returned %d", rc);
    else if (r.ok && (ks == mark || !ks)) r.bad = "succeeded without a store";
    else if (r.ok) { std::string s; Contents c = contents(ks); for (auto& k : c.keys) r.out = r.out + b32((uint32_t)k.size()) + k; r.out.push_back('|'); for (auto& k : c.certs) r.out = r.out + b32((uint32_t)k.size()) + k; KeyStoreFree(ks); }
    else if (ks != mark && ks) r.bad = "failed, but a store was left behind";
    ERR_clear_error();
    return r;
}
static X509* signer_cert(EVP_PKEY* k)
{
    auto name = ref::seq({ref::der(0x31, ref::seq({ref::oid("2.5.4.3"), ref::der(0x0c, S("signer"))}))});
    Bytes alg = ref::seq({ref::oid("1.2.840.10045.4.3.2")}), val = ref::seq({ref::der(0x17, S("200101000000Z")), ref::der(0x17, S("400101000000Z"))});
    Bytes tbs = ref::seq({ref::der(0xa0, ref::integer(2)), ref::integer(7), alg, name, val, name, eng::pub_to_der(k)});
    Bytes x = ref::seq({tbs, alg, ref::bitstr({1, 2, 3})});
    const unsigned char* p = x.data();
    return d2i_X509(nullptr, &p, (long)x.size());
}
static Res op_cms(bool check)
{
    Keys& k = keys(8, true, 2);
    static X509* x = signer_cert(k.priv.k);
    static Bytes msg = pat(40, 6), made;
    Res r;
    auto make = [&](Bytes& o) {
        BIO* b = BIO_new_mem_buf(msg.data(), (int)msg.size()); CMS_ContentInfo* ci = nullptr; int ok;
        {
            ci = CMS_sign(nullptr, nullptr, nullptr, b, CMS_BINARY | CMS_PARTIAL);
            Arm a;
            ok = ci && CMS_add1_signer(ci, x, k.priv.k, eng::md(), CMS_BINARY | CMS_PARTIAL);   // CMS_sign and CMS_final of libcrypto succeed after some failed allocations
        }
        if (!by_memory) { armed = true; ok = ok && CMS_final(ci, b, nullptr, CMS_BINARY); armed = false; }
        else ok = ok && CMS_final(ci, b, nullptr, CMS_BINARY);
        ERR_clear_error();
        if (ok) { unsigned char* p = nullptr; int n = i2d_CMS_ContentInfo(ci, &p); o = take(p, n); }
        CMS_ContentInfo_free(ci); BIO_free(b);
        return ok;
    };
    auto verify = [&](const Bytes& d) {
        const unsigned char* p = d.data(); CMS_ContentInfo* ci = d2i_CMS_ContentInfo(nullptr, &p, (long)d.size()); int ok;
        BIO* out = BIO_new(BIO_s_mem());
        { Arm a; ok = ci && CMS_verify(ci, nullptr, nullptr, nullptr, out, CMS_NO_SIGNER_CERT_VERIFY | CMS_BINARY) == 1; }
        BIO_free(out); CMS_ContentInfo_free(ci);
        return ok;
    };
    if (!check) { Bytes o; long c0; r.ok = make(o); c0 = cnt; long a0 = at; at = -1; if (r.ok && !verify(o)) r.bad = "the message does not verify"; cnt = c0; at = a0; }
    else { if (made.empty()) { long c0 = cnt, a0 = at; at = -1; make(made); cnt = c0; at = a0; } r.ok = verify(made); }
    ERR_clear_error();
    return r;
}
static Res op_rbg(int what)
{
    Res r; const RAND_METHOD* m = ENGINE_get_RAND(eng::get());
    Bytes o(20, 0);
    if (what == 1) m->cleanup();
    { Arm a; r.ok = m->status() == 1 && m->bytes(o.data(), (int)o.size()) == 1; }
    if (r.ok && o == Bytes(20, 0)) r.bad = "no random bytes";
    ERR_clear_error();
    return r;
}
static std::vector<Op> ops()
{
    std::vector<Op> v;
    auto add = [&](const std::string& n, bool draw, std::function<Res()> f) { v.push_back({n, f, draw, nullptr, 0}); };
    bool mem = by_memory, deep = is_thorough();
    static const int CV[] = {3, 4, 8, 9, 14, 0, 1, 2, 5, 6, 7, 10, 11, 12, 13, 15, 16, 17};
    int ncv = deep ? 18 : mem ? 3 : 5;
    for (int q = 0; q < ncv; q++) for (int le = 0; le < 2; le++) {
        int ci = CV[q], sb = q % 2 ? 2 : 0;
        if (mem && !deep && q == 1 && le) continue;
        std::string s = fmt("curve %d %s: ", ci, le ? "LE" : "BE");
        add(s + "sign", true, [=] { return op_sign(ci, le, sb, 32); });
        add(s + "digest-sign", true, [=] { return op_dsign(ci, le, sb); });
        add(s + "verify", false, [=] { return op_verify(ci, le, sb, 0); });
        add(s + "verify a wrong signature", false, [=] { return op_verify(ci, le, sb, 1); });
        add(s + "verify a raw signature", false, [=] { return op_verify(ci, le, sb, 2); });
        add(s + "digest-verify", false, [=] { return op_dverify(ci, le, sb, true); });
        add(s + "digest-verify another message", false, [=] { return op_dverify(ci, le, sb, false); });
        for (int w = 0; w < 3; w++) {
            static const char* N[] = {"private key", "public key", "parameters"};
            add(s + "decode " + N[w], false, [=] { return op_decode(ci, le, 2, w); });
            add(s + "encode " + N[w], false, [=] { return op_encode(ci, le, 2, w); });
            if (mem) add(s + "print " + N[w], false, [=] { return op_print(ci, le, w); });
        }
    }
    for (int le = 0; le < 2; le++) {
        for (int how = 0; how < 3; how++) for (int pre = 0; pre < 2; pre++) add(fmt("%s: generate way %d%s", le ? "LE" : "BE", how, pre ? " into an object" : ""), true, [=] { return op_keygen(le, how, how == 1 ? 2 : 0, pre); });
        if (mem) add(fmt("%s: duplicate context", le ? "LE" : "BE"), false, [=] { return op_ctxcopy(le); });
        if (mem) for (int kd = 0; kd < 4; kd++) add(fmt("%s: compare %d", le ? "LE" : "BE", kd), false, [=] { return op_compare(le, kd); });
        if (mem) for (int kd = 0; kd < 2; kd++) add(fmt("%s: copy parameters %d", le ? "LE" : "BE", kd), false, [=] { return op_copy(le, kd); });
    }
    add("digest", false, [] { return op_digest(false); });
    add("digest and copy", false, [] { return op_digest(true); });
    add("hmac", false, op_hmac);
    add("cipher, parameters", false, [] { return op_cipher(false); });
    add("cipher and copy", false, [] { return op_cipher(true); });
    add("PBES2 read", false, [] { return op_pbes2(true); });
    add("PBES2 write", false, [] { return op_pbes2(false); });
    static const char* F[] = {"JKS", "Key-6", "PKCS#12"};
    for (int f = 0; f < 3; f++) for (int w = 0; w < 3; w++) {
        if (w && !mem) continue;
        add(fmt("%s way %d", F[f], w), false, [=] { return op_store(f, w); });
        if (f < 2) v.back().lossy = [=] { return op_store(f, 0, true); };
        v.back().ends = deep ? 0 : f == 1 ? 20 : w ? 40 : 0;   // making the second key is the same code for Key-6 and JKS, but the former takes long
    }
    if (mem) { add("Key-6 with one key", false, [] { return op_store(1, 0, true); }), v.back().ends = deep ? 0 : 200; }   // in between lies the decoding of the private key, an operation of its own
    add("CMS sign", true, [] { return op_cms(false); });
    add("CMS verify", false, [] { return op_cms(true); });
    if (mem) for (int w = 0; w < 2; w++) add(fmt("random generator %d", w), false, [=] { return op_rbg(w); });
    return v;
}
struct Base { long n; Bytes out, lossy; };
static const Base& base(const Op& o)
{
    static std::map<std::string, Base> v;
    auto it = v.find(o.name);
    if (it != v.end()) return it->second;
    Base b{0, {}};
    at = -1;
    for (int i = 0; i < 3; i++) {
        lfsr = 88172645463325252ull; cnt = 0;
        Res r = o.f();
        if (!r.ok || !r.bad.empty()) { fprintf(stderr, "HARNESS-ERROR %s does not work: %s\n", o.name.c_str(), r.bad.c_str()); ERR_print_errors_fp(stderr); _exit(3); }
        b.out = r.out; b.n = cnt;
    }
    if (o.lossy) b.lossy = o.lossy().out;
    return v[o.name] = b;
}
static std::string site() { const char* f = strrchr(hit_file, '/'); return by_memory ? fmt(" [%s:%d]", f ? f + 1 : hit_file, hit_line) : ""; }
// one fault, then the same without
static void one(Ctx& c, const Op& o, const Base& b, long k, int z)
{
    auto go = [&](long f) { lfsr = 88172645463325252ull; zeros = z; cnt = 0; at = f; Res r = o.f(); at = -1; zeros = 0; return r; };
    std::string what = o.name + fmt(": %s %ld %s", by_memory ? "allocation" : "draw", k, until ? "and all later ones" : "alone");
    long l0 = live;
    Res r = go(k);
    c.step();
    what += site();
    c.outcome(mix(r.ok, hash_str(o.name)));
    c.note("%s: %s", what.c_str(), r.ok ? "succeeded" : "failed");
    c.check(r.bad.empty(), "%s fails: %s", what.c_str(), r.bad.c_str());
    bool lost = r.ok && o.lossy && r.out == b.lossy && known(by_memory ? "second-key-lost-without-memory" : "second-key-lost-without-draw");
    if (r.ok && !lost) c.check(r.out == b.out, "%s fails: success, but a wrong result (%s, expected %s)", what.c_str(), hex(r.out).c_str(), hex(b.out).c_str());
    if (r.ok && o.needs_draw && !by_memory) c.fail("%s fails: the operation succeeded all the same", what.c_str());
    long l1 = live;
    if (l1 > l0) {   // a leak grows with every run
        go(k); ERR_clear_error(); long l2 = live;
        go(k); ERR_clear_error(); long l3 = live;
        go(k); ERR_clear_error();
        c.check(!(l2 > l1 && l3 > l2 && live > l3), "%s fails: leaks %ld allocations", what.c_str(), live - l3);
    }
    Res s = go(-1);
    c.check(s.ok && s.bad.empty() && (s.out == b.out), "%s: afterwards the operation does not work (%d %s)", what.c_str(), s.ok, s.bad.c_str());
    ERR_clear_error();
}
static std::vector<Op>& all() { static std::vector<Op> v = ops(); return v; }
static void allocations(Ctx& c)
{
    int o = c.choose((int)all().size(), "operation");
    const Op& op = all()[o];
    until = c.choose(2, "how long");
    int part = c.choose(64, "part");
    c.shard();
    const Base& b = base(op);
    for (long k = part; k < b.n; k += 64) if (!op.ends || k < op.ends || k >= b.n - op.ends) { c.state(mix(o, mix(until, k))); one(c, op, b, k, 0); }
}
static void draws(Ctx& c)
{
    int o = c.choose((int)all().size(), "operation");
    const Op& op = all()[o];
    until = c.choose(2, "how long");
    int z = op.needs_draw ? c.choose(3, "zero draws first") : 0;
    draw_rc = -c.choose(2, "result"); draw_fill = c.choose(3, "left in the buffer");
    c.shard();
    Base b = base(op);
    if (z) { lfsr = 88172645463325252ull; zeros = z; cnt = 0; Res r = op.f(); zeros = 0; b.n = cnt; b.out = r.out; c.check(r.ok && r.bad.empty(), "%s: failed when the first draws are zero", op.name.c_str()); }
    if (!b.n) return;
    for (long k = 0; k < b.n; k++) { c.state(mix(mix(o, z), mix(until, k))); one(c, op, b, k, z); }
}
int main(int argc, char** argv)
{
    by_memory = arg_prop(argc, argv) == "C14";
    if (!CRYPTO_set_mem_functions(m_malloc, m_realloc, m_free)) { fprintf(stderr, "HARNESS-ERROR set_mem\n"); return 3; }
    eng::get(); RAND_set_rand_method(&rand_meth);
    if (getenv("FAULT_SURVEY")) {   // development aid: every fault in a process of its own
        int only = argc > 3 ? atoi(argv[3]) : -1;
        for (size_t o = 0; o < all().size(); o++) {
            if (only >= 0 && (int)o != only) continue;
            const Base& b = base(all()[o]);
            if (getenv("FAULT_COUNT")) { clock_t t0 = clock(); at = -1; for (int i = 0; i < 10; i++) all()[o].f(); printf("%zu %s: %ld x %.2f ms\n", o, all()[o].name.c_str(), b.n, (clock() - t0) / 10000.0); continue; }
            printf("== %zu %s: %ld\n", o, all()[o].name.c_str(), b.n); fflush(stdout);
            for (until = 0; until < 2; until++) for (long k = getenv("FAULT_K") ? atol(getenv("FAULT_K")) : 0; k < (getenv("FAULT_K") ? atol(getenv("FAULT_K")) + 1 : b.n); k++) {
                pid_t p = fork();
                if (!p) { alarm(30); Stats st; Ctx c(st); try { one(c, all()[o], b, k, 0); } catch (Violation& v) { printf("%s\n", v.msg.c_str()); fflush(stdout); _exit(1); } _exit(0); }
                int s; waitpid(p, &s, 0);
                if (!WIFEXITED(s) || WEXITSTATUS(s) > 1) { printf("CRASH %s %ld %d\n", all()[o].name.c_str(), k, until); fflush(stdout); }
            }
        }
        return 0;
    }
    if (by_memory) return main_impl(argc, argv, {{"allocations", allocations}});
    return main_impl(argc, argv, {{"draws", draws}});
}
