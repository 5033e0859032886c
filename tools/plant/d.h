// common parts of the demonstrations: loads the built engine
#pragma once
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/hmac.h>
#include <openssl/obj_mac.h>
#include <openssl/pem.h>
#include <openssl/pkcs12.h>
#include <openssl/rand.h>
#include <openssl/x509.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <functional>
typedef std::vector<unsigned char> B;
#define CTRL_SBOX (EVP_MD_CTRL_ALG_CTRL + 1)
#define CTRL_CURVE (EVP_PKEY_ALG_CTRL + 2)
#define NEED(c) do { if (!(c)) { printf("demo set-up failed, line %d: %s\n", __LINE__, #c); ERR_print_errors_fp(stdout); exit(3); } } while (0)
#define EXPECT(c) do { if (!(c)) { printf("BROKEN, line %d: %s\n", __LINE__, #c); exit(1); } } while (0)
static ENGINE* load()
{
    char cwd[4000]; NEED(getcwd(cwd, sizeof cwd));
    std::string so = std::string(cwd) + "/_build/engine/dstu.so";
    ENGINE_load_dynamic();
    ENGINE* e = ENGINE_by_id("dynamic");
    NEED(e && ENGINE_ctrl_cmd_string(e, "SO_PATH", so.c_str(), 0) && ENGINE_ctrl_cmd_string(e, "LIST_ADD", "1", 0) && ENGINE_ctrl_cmd_string(e, "LOAD", NULL, 0));
    NEED(ENGINE_init(e));
    NEED(ENGINE_set_default(e, ENGINE_METHOD_ALL & ~ENGINE_METHOD_RAND));
    return e;
}
static B hexb(const char* s) { B r; for (; s[0] && s[1]; s += 2) { char b[3] = {s[0], s[1], 0}; r.push_back((unsigned char)strtol(b, 0, 16)); } return r; }
static std::string hexs(const B& b) { std::string r; char t[3]; for (unsigned char c : b) { snprintf(t, 3, "%02x", c); r += t; } return r; }
static B pattern(size_t n, unsigned seed = 1) { B r(n); for (size_t i = 0; i < n; i++) { seed = seed * 1103515245 + 12345; r[i] = seed >> 16; } return r; }
// random source under the demonstration's control
static std::function<unsigned char(size_t)> rnd_byte; static size_t rnd_pos; static int rnd_fail = -1, rnd_calls;
static int r_bytes(unsigned char* b, int n) { if (rnd_fail >= 0 && rnd_calls++ >= rnd_fail) return 0; for (int i = 0; i < n; i++) b[i] = rnd_byte ? rnd_byte(rnd_pos++) : (unsigned char)(rnd_pos++ * 37 + 11); return 1; }
static int r_status(void) { return 1; }
static RAND_METHOD r_meth = {NULL, r_bytes, NULL, NULL, r_bytes, r_status};
static void script_rand() { RAND_set_rand_method(&r_meth); }
static EVP_PKEY* genkey(const char* curve, int nid = NID_dstu4145le, const char* sbox = NULL)
{
    EVP_PKEY_CTX* c = EVP_PKEY_CTX_new_id(nid, NULL); NEED(c && EVP_PKEY_keygen_init(c) > 0);
    NEED(EVP_PKEY_CTX_ctrl_str(c, "curve", curve) > 0);
    if (sbox) NEED(EVP_PKEY_CTX_ctrl_str(c, "sbox", sbox) > 0);
    EVP_PKEY* k = NULL; NEED(EVP_PKEY_keygen(c, &k) > 0); EVP_PKEY_CTX_free(c); return k;
}
static B rawsign(EVP_PKEY* k, const B& h) { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, NULL); size_t n = 0; NEED(c && EVP_PKEY_sign_init(c) > 0 && EVP_PKEY_sign(c, NULL, &n, h.data(), h.size()) > 0); B s(n); NEED(EVP_PKEY_sign(c, s.data(), &n, h.data(), h.size()) > 0); s.resize(n); EVP_PKEY_CTX_free(c); return s; }
static int rawverify(EVP_PKEY* k, const B& h, const B& s) { EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(k, NULL); NEED(c && EVP_PKEY_verify_init(c) > 0); int r = EVP_PKEY_verify(c, s.data(), s.size(), h.data(), h.size()); EVP_PKEY_CTX_free(c); return r; }
static B digest(const B& m, const B& cuts = {})
{
    EVP_MD_CTX* c = EVP_MD_CTX_new(); NEED(EVP_DigestInit_ex(c, EVP_get_digestbynid(NID_dstu34311), NULL) > 0);
    size_t p = 0; for (unsigned char n : cuts) { NEED(EVP_DigestUpdate(c, m.data() + p, n) > 0); p += n; }
    NEED(EVP_DigestUpdate(c, m.data() + p, m.size() - p) > 0); B r(32); unsigned n = 0; NEED(EVP_DigestFinal_ex(c, r.data(), &n) > 0); EVP_MD_CTX_free(c); return r;
}
