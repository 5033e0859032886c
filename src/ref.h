// Reference models, written from the standards and kept independent of /repo:
// GOST 28147-89 (block, CFB, ECB, MAC), GOST 34.311-95 hash, GF(2^m) and
// elliptic curves small enough to enumerate, and a DER writer.
#pragma once
#include "mc.h"
#include <array>

namespace ref {

extern const uint8_t DEFAULT_SBOX[64];   // DSTU "dke No 1", packed
Bytes custom_sbox(int which);            // 0: default, 1..: other valid packed s-boxes

struct Gost {
    uint8_t K[8][16];      // K[i] substitutes nibble i (least significant first)
    uint32_t k[8];
    explicit Gost(const uint8_t* packed_sbox, const uint8_t* key32 = nullptr);
    void key(const uint8_t* key32);
    void key_be(const uint8_t* key32);   // Magma byte order
    uint32_t f(uint32_t x) const;
    void enc(const uint8_t* in, uint8_t* out) const;
    void dec(const uint8_t* in, uint8_t* out) const;
    void mac16(uint8_t* state, const uint8_t* block) const;
};
Bytes ecb(const Bytes& in, const Gost& g, bool enc);
// CFB from a fresh IV
Bytes cfb(const Bytes& in, const Gost& g, const Bytes& iv, bool enc);
Bytes mac(const Bytes& in, const Gost& g, const Bytes& iv, int nbits);
Bytes hash(const Bytes& msg, const uint8_t* packed_sbox = DEFAULT_SBOX);
Bytes hmac(const Bytes& key, const Bytes& msg);
Bytes pbkdf2(const Bytes& pw, const Bytes& salt, int iter, int len);

// ---- tiny binary curves -------------------------------------------------
struct GF {
    int m; uint32_t poly;
    uint32_t mul(uint32_t a, uint32_t b) const;
    uint32_t sqr(uint32_t a) const { return mul(a, a); }
    uint32_t inv(uint32_t a) const;
    int trace(uint32_t a) const;
};
struct Pt { bool inf; uint32_t x, y; bool operator==(const Pt& o) const { return inf == o.inf && (inf || (x == o.x && y == o.y)); } };
struct Curve {
    std::string name;
    GF f; std::vector<int> exps; // middle exponents: 1 (trinomial) or 3 (pentanomial), ascending
    uint32_t a, b, n, cof;
    Pt G;
    std::vector<Pt> mult;  // mult[i] = iG, i in [0,n)
    Pt add(const Pt& p, const Pt& q) const;
    Pt neg(const Pt& p) const { return p.inf ? p : Pt{false, p.x, p.x ^ p.y}; }
    Pt mul(uint32_t k, const Pt& p) const;
    bool on(const Pt& p) const;
    int bytes_m() const { return (f.m + 7) / 8; }
    int bytes_n() const { int b = 0; uint32_t v = n; while (v) { b++; v >>= 8; } return b; }
    int bits_n() const { int b = 0; uint32_t v = n; while (v) { b++; v >>= 1; } return b; }
    // compressed value of a point (big-endian integer)
    uint32_t compress(const Pt& p) const;
};
// the nb-th suitable curve (prime order subgroup, cofactor 2 for a=1 / 4 for a=0)
Curve make_curve(int m, std::vector<int> exps, int a, int nb = 0, bool must = true);
const Curve& tiny(int i);   // a fixed list, NTINY entries
enum { NTINY = 8 };

// DSTU 4145 on a tiny curve
uint32_t hash_to_field(const Curve& c, const Bytes& h);
// r for nonce e, or 0
uint32_t sign_r(const Curve& c, uint32_t e, uint32_t h);
bool verify(const Curve& c, const Pt& Q, uint32_t h, uint64_t r, uint64_t s);

// ---- DER ------------------------------------------------------------------
Bytes operator+(const Bytes& a, const Bytes& b);
Bytes der(uint8_t tag, const Bytes& content);
Bytes der_long(uint8_t tag, const Bytes& content, int lenbytes); // non-minimal length
Bytes seq(std::initializer_list<Bytes> parts);
Bytes seqv(const std::vector<Bytes>& parts);
Bytes setof(std::initializer_list<Bytes> parts);
Bytes integer(long v);
Bytes integer_be(const Bytes& be);     // non-negative
Bytes octet(const Bytes& b);
Bytes bitstr(const Bytes& b, int unused = 0);
Bytes oid(const std::string& dotted);
Bytes null();
Bytes be_bytes(uint64_t v, int len);
Bytes rev(const Bytes& b);
Bytes str(const char* s);
Bytes unhex(const char* s);

extern const char *OID_LE, *OID_BE, *OID_HASH, *OID_CFB, *OID_HMAC;
std::string oid_curve(int i);

// custom curve specification / algorithm parameters / SPKI / PKCS8 of tiny curves
Bytes custom_spec(const Curve& c, bool le);
Bytes alg_params(const Bytes& curve, const Bytes& sbox = {});
Bytes spki(bool le, const Bytes& params, const Bytes& point_octets);
Bytes pkcs8(bool le, const Bytes& params, const Bytes& priv_le, const Bytes& attrs = {});
Bytes priv_le(uint64_t d);   // minimal little-endian bytes

void self_check();   // published vectors; aborts on mismatch
}
using ref::operator+;
