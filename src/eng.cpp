#include "eng.h"
#include <unistd.h>
extern "C" int bind_engine(ENGINE* e, const char* id, const dynamic_fns* fns);
namespace eng {
static ENGINE* E = nullptr;
static const EVP_MD* MD; static const EVP_CIPHER* CI;
static void die(const char* m) { fprintf(stderr, "HARNESS-ERROR %s\n", m); ERR_print_errors_fp(stderr); _exit(3); }
ENGINE* get()
{
    if (E) return E;
    ref::self_check();
    ENGINE* e = ENGINE_new();
    dynamic_fns f; memset(&f, 0, sizeof f);
    f.static_state = ENGINE_get_static_state();
    if (!e || !bind_engine(e, "dstu", &f)) die("bind_engine");
    if (!ENGINE_add(e) || !ENGINE_init(e)) die("engine init");
    if (!ENGINE_set_default_pkey_meths(e) || !ENGINE_set_default_pkey_asn1_meths(e) || !ENGINE_set_default_digests(e) || !ENGINE_set_default_ciphers(e)) die("engine default");
    E = e;
    MD = ENGINE_get_digest(e, NID_dstu34311);
    CI = ENGINE_get_cipher(e, NID_dstu28147_cfb);
    if (!MD || !CI) die("digest/cipher");
    return E;
}
const EVP_MD* md() { get(); return MD; }
const EVP_CIPHER* cipher() { get(); return CI; }

Rng* rng = nullptr;
static int r_bytes(unsigned char* buf, int n)
{
    if (!rng) return RAND_OpenSSL()->bytes(buf, n);
    long call = rng->calls++;
    if (rng->fail_at >= 0 && (rng->fail_once ? call == rng->fail_at : call >= rng->fail_at)) { ERR_raise(ERR_LIB_RAND, RAND_R_ERROR_RETRIEVING_ENTROPY); return 0; }
    for (int i = 0; i < n; i++) buf[i] = rng->byte ? rng->byte(rng->pos) : 0, rng->pos++;
    return 1;
}
static int r_seed(const void*, int) { return 1; }
static int r_add(const void*, int, double) { return 1; }
static int r_status(void) { return 1; }
void install_rng()
{
    static RAND_METHOD m = {r_seed, r_bytes, nullptr, r_add, r_bytes, r_status};
    RAND_set_rand_method(&m);
}
EVP_PKEY* priv_from_der(const Bytes& d)
{
    const unsigned char* p = d.data();
    PKCS8_PRIV_KEY_INFO* i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long)d.size());
    if (!i) return nullptr;
    EVP_PKEY* k = EVP_PKCS82PKEY(i);
    PKCS8_PRIV_KEY_INFO_free(i);
    return k;
}
EVP_PKEY* pub_from_der(const Bytes& d)
{
    const unsigned char* p = d.data();
    return d2i_PUBKEY(nullptr, &p, (long)d.size());
}
Bytes pub_to_der(EVP_PKEY* k)
{
    unsigned char* o = nullptr;
    int n = i2d_PUBKEY(k, &o);
    if (n <= 0) return {};
    Bytes b(o, o + n); OPENSSL_free(o);
    return b;
}
Bytes priv_to_der(EVP_PKEY* k)
{
    PKCS8_PRIV_KEY_INFO* i = EVP_PKEY2PKCS8(k);
    if (!i) return {};
    unsigned char* o = nullptr;
    int n = i2d_PKCS8_PRIV_KEY_INFO(i, &o);
    PKCS8_PRIV_KEY_INFO_free(i);
    if (n <= 0) return {};
    Bytes b(o, o + n); OPENSSL_free(o);
    return b;
}
int sign(EVP_PKEY* k, const Bytes& h, Bytes& sig)
{
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, get());
    int r = 0;
    size_t n = 0;
    if (c && EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_sign(c, nullptr, &n, h.data(), h.size()) > 0) {
        sig.assign(n, 0xAA);
        r = EVP_PKEY_sign(c, sig.data(), &n, h.data(), h.size());
        if (r > 0) sig.resize(n);
    }
    EVP_PKEY_CTX_free(c);
    return r;
}
int verify(EVP_PKEY* k, const Bytes& h, const Bytes& sig)
{
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, get());
    int r = -9;
    if (c && EVP_PKEY_verify_init(c) > 0) r = EVP_PKEY_verify(c, sig.data(), sig.size(), h.data(), h.size());
    EVP_PKEY_CTX_free(c);
    return r;
}
Bytes sig_bytes(bool le, const Bytes& r, const Bytes& s) { Bytes v = s + r; return le ? ref::rev(v) : v; }
Bytes bn_be(const BIGNUM* b, int len)
{
    if (len < 0) len = BN_num_bytes(b);
    Bytes o(len);
    if (len && BN_bn2binpad(b, o.data(), len) < 0) return {};
    return o;
}

std::string hx(const Bytes& be)
{
    std::string o;
    char t[3];
    for (uint8_t b : be) { snprintf(t, 3, "%02x", b); o += t; }
    size_t p = o.find_first_not_of('0');
    return p == std::string::npos ? "0" : o.substr(p);
}
std::string hx(uint64_t v) { char t[20]; snprintf(t, 20, "%llx", (unsigned long long)v); return t; }
// "12 (0xc)", "0" or an indented colon-separated dump on the following lines
static std::string field(const std::string& t, const char* label, bool strip = true)
{
    size_t p = t.find(label);
    while (p != std::string::npos && p && t[p - 1] != '\n') p = t.find(label, p + 1);
    if (p == std::string::npos) return "";
    p += strlen(label);
    size_t e = t.find('\n', p);
    std::string line = t.substr(p, e - p), hexs;
    size_t q = line.find("(0x");
    if (q != std::string::npos) hexs = line.substr(q + 3, line.find(')', q) - q - 3);
    else {
        for (char c : line) if (isdigit(c)) hexs += c;
        if (hexs.empty()) {
            while (e != std::string::npos && e + 1 < t.size() && t[e + 1] == ' ') {
                size_t n = t.find('\n', e + 1);
                for (char c : t.substr(e + 1, n - e - 1)) if (isxdigit(c)) hexs += c;
                e = n;
            }
        }
    }
    for (char& c : hexs) c = (char)tolower(c);
    if (!strip) return hexs;
    p = hexs.find_first_not_of('0');
    return hexs.empty() ? "" : p == std::string::npos ? "0" : hexs.substr(p);
}
View view(EVP_PKEY* k, int what)
{
    View v;
    BIO* b = BIO_new(BIO_s_mem());
    int r = what == 0 ? EVP_PKEY_print_params(b, k, 0, nullptr) : what == 1 ? EVP_PKEY_print_public(b, k, 0, nullptr) : EVP_PKEY_print_private(b, k, 0, nullptr);
    char* d; long n = BIO_get_mem_data(b, &d);
    v.text.assign(d, n);
    BIO_free(b);
    v.ok = r > 0;
    v.priv = field(v.text, "priv:"); v.pub = field(v.text, "pub:", false);
    v.poly = field(v.text, "Polynomial:"); v.a = field(v.text, "A:"); v.b = field(v.text, "B:");
    v.gen = field(v.text, "Generator (uncompressed):", false); v.order = field(v.text, "Order:");
    return v;
}
EVP_PKEY* params_from_der(int nid, const Bytes& der)
{
    const unsigned char* p = der.data();
    return d2i_KeyParams(nid, nullptr, &p, (long)der.size());
}
Bytes params_to_der(EVP_PKEY* k)
{
    unsigned char* o = nullptr;
    int n = i2d_KeyParams(k, &o);
    if (n <= 0) return {};
    Bytes b(o, o + n); OPENSSL_free(o);
    return b;
}
}
