// Access to the engine under test (linked statically, reached through OpenSSL's
// public EVP / ENGINE interfaces) and control of its environment.
#pragma once
#include "mc.h"
#include "ref.h"
#define OPENSSL_SUPPRESS_DEPRECATED
#include <openssl/bn.h>
#include <openssl/ec.h>
#include <openssl/engine.h>
#include <openssl/err.h>
#include <openssl/evp.h>
#include <openssl/objects.h>
#include <openssl/obj_mac.h>
#include <openssl/pkcs12.h>
#include <openssl/rand.h>
#include <openssl/x509.h>

// control numbers of the engine's public header (engine/control.h)
#define CTRL_SBOX (EVP_MD_CTRL_ALG_CTRL + 1)
#define CTRL_CURVE (EVP_PKEY_ALG_CTRL + 2)

namespace eng {
ENGINE* get();                     // bound, added, initialised, default for pkey methods
const EVP_MD* md();
const EVP_CIPHER* cipher();

// Random source of libcrypto as seen by BN_rand* / RAND_*: a byte stream chosen
// by the harness. 'fail_at' < 0: never fails; otherwise the fail_at-th call
// (0-based) and all later ones fail.
struct Rng {
    std::function<uint8_t(size_t)> byte;   // i-th byte of the stream
    size_t pos = 0; long calls = 0, fail_at = -1;
    bool fail_once = false;
};
extern Rng* rng;      // nullptr: real random generator
void install_rng();   // routes RAND_bytes & co. through 'rng' when set

struct RngScope { Rng r; RngScope() { rng = &r; } ~RngScope() { rng = nullptr; } };

EVP_PKEY* priv_from_der(const Bytes& pkcs8);   // nullptr on failure
EVP_PKEY* pub_from_der(const Bytes& spki);
Bytes pub_to_der(EVP_PKEY*);
Bytes priv_to_der(EVP_PKEY*);                  // PKCS#8
// returns <=0 on failure; on success signature in 'sig'
int sign(EVP_PKEY*, const Bytes& hash, Bytes& sig);
int verify(EVP_PKEY*, const Bytes& hash, const Bytes& sig);
// DER OCTET STRING wrapping s||r in the key's byte order
Bytes sig_bytes(bool le, const Bytes& r_be, const Bytes& s_be);

// what a key prints about itself (public API only); hex fields are big-endian, leading zeros stripped
struct View { bool ok = false; std::string text, priv, pub, poly, a, b, gen, order; };
View view(EVP_PKEY*, int what);                // 0 parameters, 1 public, 2 private
std::string hx(uint64_t v);                    // hex without leading zeros
std::string hx(const Bytes& be);
// key parameters (AlgorithmIdentifier parameters field)
EVP_PKEY* params_from_der(int nid, const Bytes& der);
Bytes params_to_der(EVP_PKEY*);

Bytes bn_be(const BIGNUM*, int len = -1);
struct BN { BIGNUM* b; BN() : b(BN_new()) {} ~BN() { BN_free(b); } operator BIGNUM*() { return b; } };
}
