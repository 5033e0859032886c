#include "ref.h"
#include <unistd.h>
namespace ref {

const uint8_t DEFAULT_SBOX[64] = {
    0xa9,0xd6,0xeb,0x45,0xf1,0x3c,0x70,0x82, 0x80,0xc4,0x96,0x7b,0x23,0x1f,0x5e,0xad,
    0xf6,0x58,0xeb,0xa4,0xc0,0x37,0x29,0x1d, 0x38,0xd9,0x6b,0xf0,0x25,0xca,0x4e,0x17,
    0xf8,0xe9,0x72,0x0d,0xc6,0x15,0xb4,0x3a, 0x28,0x97,0x5f,0x0b,0xc1,0xde,0xa3,0x64,
    0x38,0xb5,0x64,0xea,0x2c,0x17,0x9f,0xd0, 0x12,0x3e,0x6d,0xb8,0xfa,0xc5,0x79,0x04 };

Bytes custom_sbox(int which)
{
    Bytes b(DEFAULT_SBOX, DEFAULT_SBOX + 64);
    if (which == 1) for (int r = 0; r < 8; r++) for (int i = 0; i < 8; i++) b[8 * r + i] = DEFAULT_SBOX[8 * (7 - r) + i];
    if (which == 2) for (int r = 0; r < 8; r++) for (int i = 0; i < 8; i++) b[8 * r + i] = DEFAULT_SBOX[8 * ((r + 3) % 8) + 7 - i];
    if (which == 3) b[63] ^= 0x44;  // differs from the default in the very last byte only (swap of two nibble values is not kept: any nibble table is legal)
    if (which == 4) b[0] ^= 0x33;   // ... in the very first byte only
    // mixtures with the default one: the second half, the first half, the last row, the first row; and all low or all high values in front
    if (which == 5) for (int i = 32; i < 64; i++) b[i] = DEFAULT_SBOX[95 - i];
    if (which == 6) for (int i = 0; i < 32; i++) b[i] = DEFAULT_SBOX[31 - i];
    if (which == 7) for (int i = 56; i < 64; i++) b[i] = DEFAULT_SBOX[i - 56];
    if (which == 8) for (int i = 0; i < 8; i++) b[i] = DEFAULT_SBOX[i + 56];
    if (which == 9) b[0] = 0;
    if (which == 10) for (int i = 0; i < 8; i++) b[i] = 0;
    if (which == 11) for (int i = 0; i < 8; i++) b[i] = b[63 - i] = 0xff;
    if (which == 12) memset(b.data(), 0, 64);
    if (which == 13) b[63] = 0;
    return b;
}

Gost::Gost(const uint8_t* p, const uint8_t* key32)
{
    for (int r = 0; r < 8; r++) for (int i = 0; i < 16; i++)
        K[r][i] = (i & 1) ? (p[8 * r + i / 2] & 15) : (p[8 * r + i / 2] >> 4);
    memset(k, 0, sizeof k);
    if (key32) key(key32);
}
void Gost::key(const uint8_t* b) { for (int i = 0; i < 8; i++) k[i] = b[4*i] | (uint32_t)b[4*i+1] << 8 | (uint32_t)b[4*i+2] << 16 | (uint32_t)b[4*i+3] << 24; }
void Gost::key_be(const uint8_t* b) { for (int i = 0; i < 8; i++) k[i] = b[4*i+3] | (uint32_t)b[4*i+2] << 8 | (uint32_t)b[4*i+1] << 16 | (uint32_t)b[4*i] << 24; }
uint32_t Gost::f(uint32_t x) const
{
    uint32_t y = 0;
    for (int i = 0; i < 8; i++) y |= (uint32_t)K[i][(x >> (4 * i)) & 15] << (4 * i);
    return (y << 11) | (y >> 21);
}
static uint32_t ld(const uint8_t* p) { return p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24; }
static void sto(uint8_t* p, uint32_t v) { for (int i = 0; i < 4; i++) p[i] = (uint8_t)(v >> (8 * i)); }
static void rounds(const Gost& g, const uint8_t* in, uint8_t* out, int n, bool dec, bool swap)
{
    uint32_t a = ld(in), b = ld(in + 4);
    for (int r = 0; r < n; r++) {
        int i;
        if (dec) i = r < 8 ? r : 7 - (r % 8);
        else i = r < 24 ? r % 8 : 7 - (r % 8);
        uint32_t t = b ^ g.f(a + g.k[i]);
        b = a; a = t;
    }
    // the last round does not swap
    if (swap) { sto(out, b); sto(out + 4, a); }
    else { sto(out, a); sto(out + 4, b); }
}
void Gost::enc(const uint8_t* in, uint8_t* out) const { rounds(*this, in, out, 32, false, true); }
void Gost::dec(const uint8_t* in, uint8_t* out) const { rounds(*this, in, out, 32, true, true); }
void Gost::mac16(uint8_t* s, const uint8_t* b) const
{
    for (int i = 0; i < 8; i++) s[i] ^= b[i];
    rounds(*this, s, s, 16, false, false);
}
Bytes ecb(const Bytes& in, const Gost& g, bool enc)
{
    Bytes o(in.size());
    for (size_t i = 0; i + 8 <= in.size(); i += 8) enc ? g.enc(&in[i], &o[i]) : g.dec(&in[i], &o[i]);
    return o;
}
Bytes cfb(const Bytes& in, const Gost& g, const Bytes& iv, bool enc)
{
    Bytes o(in.size());
    uint8_t fb[8], gm[8];
    memcpy(fb, iv.data(), 8);
    for (size_t i = 0; i < in.size(); i++) {
        if (i % 8 == 0) g.enc(fb, gm);
        o[i] = in[i] ^ gm[i % 8];
        fb[i % 8] = enc ? o[i] : in[i];
    }
    return o;
}
Bytes mac(const Bytes& in, const Gost& g, const Bytes& iv, int nbits)
{
    uint8_t s[8]; memcpy(s, iv.data(), 8);
    Bytes d = in;
    while (d.size() % 8) d.push_back(0);
    if (d.size() == 8) d.resize(16, 0);       // at least two blocks once there is data
    for (size_t i = 0; i < d.size(); i += 8) g.mac16(s, &d[i]);
    Bytes o((nbits + 7) / 8);
    for (size_t i = 0; i < o.size(); i++) o[i] = s[i];
    if (nbits % 8) o.back() &= (uint8_t)((1 << (nbits % 8)) - 1);
    return o;
}

typedef std::array<uint8_t, 32> B32;
static B32 A(const B32& y)   // y1 is the least significant 8 bytes
{
    B32 o;
    for (int i = 0; i < 24; i++) o[i] = y[i + 8];
    for (int i = 0; i < 8; i++) o[24 + i] = y[i] ^ y[8 + i];
    return o;
}
static B32 P(const B32& y) { B32 o; for (int i = 0; i < 4; i++) for (int k = 0; k < 8; k++) o[i + 4 * k] = y[8 * i + k]; return o; }
static B32 X(const B32& a, const B32& b) { B32 o; for (int i = 0; i < 32; i++) o[i] = a[i] ^ b[i]; return o; }
static B32 psi(const B32& y, int n)
{
    uint16_t w[16];
    for (int i = 0; i < 16; i++) w[i] = y[2 * i] | y[2 * i + 1] << 8;
    for (int r = 0; r < n; r++) {
        uint16_t t = w[0] ^ w[1] ^ w[2] ^ w[3] ^ w[12] ^ w[15];
        for (int i = 0; i < 15; i++) w[i] = w[i + 1];
        w[15] = t;
    }
    B32 o;
    for (int i = 0; i < 16; i++) { o[2 * i] = w[i] & 255; o[2 * i + 1] = w[i] >> 8; }
    return o;
}
static B32 step(Gost& g, const B32& H, const B32& M)
{
    static const char* C3 = "ff00ffff000000ffff0000ff00ffff0000ff00ff00ff00ffff00ff00ff00ff00";
    B32 c3; for (int i = 0; i < 32; i++) c3[31 - i] = C3[2 * i] == 'f' ? 0xff : 0;
    B32 U = H, V = M, S;
    for (int j = 1; j <= 4; j++) {
        if (j > 1) { U = A(U); if (j == 3) U = X(U, c3); V = A(A(V)); }
        B32 K = P(X(U, V));
        g.key(K.data());
        g.enc(&H[8 * (j - 1)], &S[8 * (j - 1)]);
    }
    return psi(X(H, psi(X(M, psi(S, 12)), 1)), 61);
}
Bytes hash(const Bytes& msg, const uint8_t* sbox)
{
    Gost g(sbox);
    B32 H{}, Sum{}, L{};
    size_t n = msg.size(), pos = 0;
    do {
        B32 b{};
        size_t k = n - pos < 32 ? n - pos : 32;
        if (k) memcpy(b.data(), &msg[pos], k);
        H = step(g, H, b);
        int c = 0;
        for (int i = 0; i < 32; i++) { c += Sum[i] + b[i]; Sum[i] = c & 255; c >>= 8; }
        pos += k;
    } while (pos < n);
    unsigned __int128 bits = (unsigned __int128)n * 8;
    for (int i = 0; i < 16; i++) L[i] = (uint8_t)(bits >> (8 * i));
    H = step(g, H, L);
    H = step(g, H, Sum);
    return Bytes(H.begin(), H.end());
}
Bytes hmac(const Bytes& key, const Bytes& msg)
{
    Bytes k = key.size() > 32 ? hash(key) : key;
    k.resize(32, 0);
    Bytes i = k, o = k;
    for (int j = 0; j < 32; j++) { i[j] ^= 0x36; o[j] ^= 0x5c; }
    return hash(o + hash(i + msg));
}
Bytes pbkdf2(const Bytes& pw, const Bytes& salt, int iter, int len)
{
    Bytes out;
    for (uint32_t blk = 1; (int)out.size() < len; blk++) {
        Bytes u = hmac(pw, salt + be_bytes(blk, 4)), t = u;
        for (int i = 1; i < iter; i++) { u = hmac(pw, u); for (size_t j = 0; j < t.size(); j++) t[j] ^= u[j]; }
        out = out + t;
    }
    out.resize(len);
    return out;
}

uint32_t GF::mul(uint32_t a, uint32_t b) const
{
    uint64_t r = 0, x = a;
    for (int i = 0; i < m; i++) if (b >> i & 1) r ^= x << i;
    for (int i = 2 * m; i >= m; i--) if (r >> i & 1) r ^= (uint64_t)poly << (i - m);
    return (uint32_t)r;
}
uint32_t GF::inv(uint32_t a) const
{
    uint32_t r = 1;   // a^(2^m - 2)
    for (int i = 0; i < m - 1; i++) { a = sqr(a); r = mul(r, a); }
    return r;
}
int GF::trace(uint32_t a) const
{
    uint32_t t = a, s = a;
    for (int i = 1; i < m; i++) { s = sqr(s); t ^= s; }
    return (int)t;   // 0 or 1
}
bool Curve::on(const Pt& p) const
{
    if (p.inf) return true;
    uint32_t x2 = f.sqr(p.x);
    return (f.sqr(p.y) ^ f.mul(p.x, p.y)) == (f.mul(x2, p.x) ^ f.mul(a, x2) ^ b);
}
Pt Curve::add(const Pt& p, const Pt& q) const
{
    if (p.inf) return q;
    if (q.inf) return p;
    uint32_t l, x, y;
    if (p.x == q.x) {
        if (p.y != q.y || p.x == 0) return Pt{true, 0, 0};
        l = p.x ^ f.mul(p.y, f.inv(p.x));
        x = f.sqr(l) ^ l ^ a;
        y = f.sqr(p.x) ^ f.mul(l ^ 1, x);
        return Pt{false, x, y};
    }
    l = f.mul(p.y ^ q.y, f.inv(p.x ^ q.x));
    x = f.sqr(l) ^ l ^ p.x ^ q.x ^ a;
    y = f.mul(l, p.x ^ x) ^ x ^ p.y;
    return Pt{false, x, y};
}
Pt Curve::mul(uint32_t k, const Pt& p) const
{
    Pt r{true, 0, 0}, t = p;
    while (k) { if (k & 1) r = add(r, t); t = add(t, t); k >>= 1; }
    return r;
}
uint32_t Curve::compress(const Pt& p) const
{
    if (p.x == 0) return 0;
    int t = f.trace(f.mul(p.y, f.inv(p.x)));
    return (p.x & ~1u) | (uint32_t)t;
}
static bool prime(uint32_t n) { if (n < 2) return false; for (uint32_t d = 2; d * d <= n; d++) if (n % d == 0) return false; return true; }
Curve make_curve(int m, std::vector<int> exps, int a, int nb, bool must)
{
    Curve c;
    c.f.m = m; c.f.poly = (1u << m) | 1; for (int e : exps) c.f.poly |= 1u << e;
    c.exps = exps; c.a = a;
    uint32_t q = 1u << m, cof = a ? 2 : 4;
    for (uint32_t b = 1; b < q; b++) {
        c.b = b;
        // DSTU 4145 compresses a point (1, y) with Tr(y) = 0 to zero, which denotes (0, sqrt b):
        // the standard's encoding is only injective without such points
        if (a && c.f.trace(b) == 0) continue;
        // count points
        uint32_t cnt = 2; // infinity and (0, sqrt b)
        for (uint32_t x = 1; x < q; x++) {
            uint32_t xi = c.f.inv(x), v = x ^ (uint32_t)a ^ c.f.mul(b, c.f.sqr(xi));
            if (c.f.trace(v) == 0) cnt += 2;
        }
        if (cnt % cof || !prime(cnt / cof) || cnt / cof == 2) continue;
        c.n = cnt / cof; c.cof = cof;
        // libcrypto 3.0 believes that a point (x, 0) is its own inverse; avoid such keys
        bool y0 = false;
        for (uint32_t x = 1; x < q && !y0; x++) { Pt p{false, x, 0}; y0 = c.on(p) && c.mul(c.n, p).inf; }
        if (y0) continue;
        if (nb-- > 0) continue;
        for (uint32_t x = 1; x < q; x++) {
            bool found = false;
            for (uint32_t y = 0; y < q && !found; y++) {
                Pt p{false, x, y};
                if (!c.on(p)) continue;
                if (c.mul(c.n, p).inf) { c.G = p; found = true; }
            }
            if (found) break;
            if (x + 1 == q) { fprintf(stderr, "HARNESS-ERROR no generator\n"); _exit(3); }
        }
        Pt r{true, 0, 0};
        for (uint32_t i = 0; i < c.n; i++) { c.mult.push_back(r); r = c.add(r, c.G); }
        if (!r.inf) { fprintf(stderr, "HARNESS-ERROR curve order\n"); _exit(3); }
        std::string es; for (int e : exps) es += "," + std::to_string(e);
        c.name = mc::fmt("GF(2^%d)[%s] a=%d b=%u n=%u", m, es.c_str() + 1, a, b, c.n);
        return c;
    }
    if (!must) { c.n = 0; return c; }
    fprintf(stderr, "HARNESS-ERROR no curve m=%d a=%d\n", m, a);
    _exit(3);
}
const Curve& tiny(int i)
{
    static std::map<int, Curve> v;
    auto it = v.find(i);
    if (it != v.end()) return it->second;
    Curve c;
    switch (i) {
    case 0: c = make_curve(5, {2}, 1); break;
    case 1: c = make_curve(7, {1}, 1, 1); break;
    case 2: c = make_curve(7, {3}, 0); break;             // cofactor 4
    case 3: c = make_curve(9, {4}, 1, 5); break;          // two-byte field, one-byte order
    case 4: c = make_curve(11, {2}, 1, 1); break;
    case 5: c = make_curve(13, {1, 3, 4}, 0, 1); break;   // pentanomial, cofactor 4
    case 6: c = make_curve(9, {4}, 1, 0); break;          // order just above one byte
    case 7: c = make_curve(7, {1, 2, 3}, 1); break;       // pentanomial, one byte
    default: fprintf(stderr, "HARNESS-ERROR tiny(%d)\n", i); _exit(3);
    }
    return v[i] = c;
}

uint32_t hash_to_field(const Curve& c, const Bytes& h)
{
    // hash is little-endian; keep the m low bits; a zero element counts as one
    uint64_t v = 0;
    for (size_t i = 0; i < h.size() && i < 8; i++) v |= (uint64_t)h[i] << (8 * i);
    v &= ((1ull << c.f.m) - 1);
    return v ? (uint32_t)v : 1;
}
static uint32_t trunc_r(const Curve& c, uint32_t v) { return v & ((1u << (c.bits_n() - 1)) - 1); }
uint32_t sign_r(const Curve& c, uint32_t e, uint32_t h)
{
    if (e % c.n == 0) return 0;
    return trunc_r(c, c.f.mul(h, c.mult[e % c.n].x));
}
bool verify(const Curve& c, const Pt& Q, uint32_t h, uint64_t r, uint64_t s)
{
    if (r == 0 || s == 0 || r >= c.n || s >= c.n) return false;
    Pt R = c.add(c.mul((uint32_t)s, c.G), c.mul((uint32_t)r, Q));
    if (R.inf) return false;
    return trunc_r(c, c.f.mul(h, R.x)) == r;
}

Bytes operator+(const Bytes& a, const Bytes& b) { Bytes o = a; o.insert(o.end(), b.begin(), b.end()); return o; }
static Bytes len_enc(size_t n)
{
    if (n < 128) return Bytes{(uint8_t)n};
    Bytes v; while (n) { v.insert(v.begin(), (uint8_t)n); n >>= 8; }
    v.insert(v.begin(), (uint8_t)(0x80 | v.size()));
    return v;
}
Bytes der(uint8_t tag, const Bytes& c) { return Bytes{tag} + len_enc(c.size()) + c; }
Bytes der_long(uint8_t tag, const Bytes& c, int lb)
{
    Bytes v{tag, (uint8_t)(0x80 | lb)};
    for (int i = lb - 1; i >= 0; i--) v.push_back((uint8_t)(c.size() >> (8 * i)));
    return v + c;
}
Bytes seqv(const std::vector<Bytes>& p) { Bytes c; for (auto& x : p) c = c + x; return der(0x30, c); }
Bytes seq(std::initializer_list<Bytes> p) { return seqv(std::vector<Bytes>(p)); }
Bytes setof(std::initializer_list<Bytes> p) { Bytes c; for (auto& x : p) c = c + x; return der(0x31, c); }
Bytes integer(long v)
{
    Bytes b;
    for (int i = 7; i >= 0; i--) b.push_back((uint8_t)((uint64_t)v >> (8 * i)));
    while (b.size() > 1 && ((b[0] == 0 && !(b[1] & 0x80)) || (b[0] == 0xff && (b[1] & 0x80)))) b.erase(b.begin());
    return der(2, b);
}
Bytes integer_be(const Bytes& be)
{
    Bytes b = be;
    while (b.size() > 1 && b[0] == 0) b.erase(b.begin());
    if (b.empty()) b.push_back(0);
    if (b[0] & 0x80) b.insert(b.begin(), 0);
    return der(2, b);
}
Bytes octet(const Bytes& b) { return der(4, b); }
Bytes bitstr(const Bytes& b, int unused) { return der(3, Bytes{(uint8_t)unused} + b); }
Bytes null() { return Bytes{5, 0}; }
Bytes oid(const std::string& d)
{
    std::vector<uint64_t> a;
    for (size_t p = 0; p < d.size();) { size_t q = d.find('.', p); if (q == std::string::npos) q = d.size(); a.push_back(std::stoull(d.substr(p, q - p))); p = q + 1; }
    Bytes c{(uint8_t)(a[0] * 40 + a[1])};
    for (size_t i = 2; i < a.size(); i++) {
        Bytes t{(uint8_t)(a[i] & 127)};
        for (uint64_t v = a[i] >> 7; v; v >>= 7) t.insert(t.begin(), (uint8_t)(0x80 | (v & 127)));
        c = c + t;
    }
    return der(6, c);
}
Bytes be_bytes(uint64_t v, int len) { Bytes b(len); for (int i = 0; i < len; i++) b[len - 1 - i] = (i < 8) ? (uint8_t)(v >> (8 * i)) : 0; return b; }
Bytes rev(const Bytes& b) { return Bytes(b.rbegin(), b.rend()); }
Bytes str(const char* s) { return Bytes(s, s + strlen(s)); }
Bytes unhex(const char* s)
{
    Bytes o; int n = 0, v = 0;
    for (; *s; s++) {
        int d = *s >= '0' && *s <= '9' ? *s - '0' : *s >= 'a' && *s <= 'f' ? *s - 'a' + 10 : *s >= 'A' && *s <= 'F' ? *s - 'A' + 10 : -1;
        if (d < 0) continue;
        v = v * 16 + d;
        if (++n == 2) { o.push_back((uint8_t)v); n = v = 0; }
    }
    return o;
}

const char *OID_LE = "1.2.804.2.1.1.1.1.3.1.1", *OID_BE = "1.2.804.2.1.1.1.1.3.1.1.1.1",
    *OID_HASH = "1.2.804.2.1.1.1.1.2.1", *OID_CFB = "1.2.804.2.1.1.1.1.1.1.3", *OID_HMAC = "1.2.804.2.1.1.1.1.1.2";
std::string oid_curve(int i) { return "1.2.804.2.1.1.1.1.3.1.1.2." + std::to_string(i); }

Bytes custom_spec(const Curve& c, bool le)
{
    int w = c.bytes_m();
    Bytes b = be_bytes(c.b, w), bp = be_bytes(c.compress(c.G), w);
    if (le) { b = rev(b); bp = rev(bp); }
    Bytes poly = c.exps.size() == 1 ? integer(c.exps[0]) : seq({integer(c.exps[0]), integer(c.exps[1]), integer(c.exps[2])});
    return seq({seq({integer(c.f.m), poly}), integer(c.a), octet(b), integer(c.n), octet(bp)});
}
Bytes alg_params(const Bytes& curve, const Bytes& sbox)
{
    if (sbox.empty()) return seq({curve});
    return seq({curve, octet(sbox)});
}
Bytes spki(bool le, const Bytes& params, const Bytes& pt)
{
    return seq({seq({oid(le ? OID_LE : OID_BE), params}), bitstr(octet(pt))});
}
Bytes pkcs8(bool le, const Bytes& params, const Bytes& priv, const Bytes& attrs)
{
    Bytes body = integer(0) + seq({oid(le ? OID_LE : OID_BE), params}) + octet(priv);
    if (!attrs.empty()) body = body + der(0xa0, attrs);
    return der(0x30, body);
}
Bytes priv_le(uint64_t d) { Bytes b; while (d) { b.push_back((uint8_t)d); d >>= 8; } return b; }

static void expect(const Bytes& got, const char* want, const char* what)
{
    if (got != unhex(want)) { fprintf(stderr, "HARNESS-ERROR reference self-check %s: %s\n", what, mc::hex(got).c_str()); _exit(3); }
}
void self_check()
{
    // vectors published in the repository's own test program and RFC 5831 / GOST test parameters
    expect(hash(str("123456")), "9648e3650b970d6239bc76cd4ca5944c2c9c27692402f4d4870588992be37d5d", "hash6");
    expect(hash(str("abcdefghijklmnopqrstuvwxyz012345")), "39e1eae583ce45bbfd328d9220e78185aaf9db324bdfbcaa83b6bf99657b9375", "hash32");
    expect(hash(str("abcdefghijklmnopqrstuvwxyz0123456789")), "0bcec7202d925bc957935a09f3cfa1354fb8713cfc3634557c1de50c5e8c1251", "hash36");
    // RFC 5831 appendix: GOST R 34.11-94 test parameter set
    static const uint8_t T[8][16] = {
        {4,10,9,2,13,8,0,14,6,11,1,12,7,15,5,3}, {14,11,4,12,6,13,15,10,2,3,8,1,0,7,5,9},
        {5,8,1,13,10,3,4,2,14,15,12,7,6,0,9,11}, {7,13,10,1,0,8,9,15,14,4,6,12,11,2,5,3},
        {6,12,7,1,5,15,13,8,4,10,9,14,0,3,11,2}, {4,11,10,0,7,2,1,13,3,6,8,5,9,12,15,14},
        {13,11,4,1,3,15,5,9,0,10,14,7,6,8,2,12}, {1,15,13,0,5,7,10,4,9,2,3,14,6,11,8,12} };
    uint8_t packed[64];
    for (int r = 0; r < 8; r++) for (int i = 0; i < 8; i++) packed[8 * r + i] = T[r][2 * i] << 4 | T[r][2 * i + 1];
    expect(hash(str("This is message, length=32 bytes"), packed), "b1c466d37519b82e8319819ff32595e047a28cb6f83eff1c6916a815a637fffa", "rfc5831-32");
    expect(hash(str("Suppose the original message has length = 50 bytes"), packed), "471aba57a60a770d3a76130635c1fbea4ef14de51f78b4ae57dd893b62f55208", "rfc5831-50");
    Bytes key(32); for (int i = 0; i < 32; i++) key[i] = i;
    Bytes iv{7, 6, 5, 4, 3, 2, 1, 0};
    Gost g(DEFAULT_SBOX, key.data());
    expect(cfb(str("123456"), g, iv, true), "23a8382932ae", "cfb6");
    expect(cfb(str("ZXCVBNM<>?ASDFGHJKL:\"|"), g, iv, true), "48c2484b45d6799d0da011cdd22b1b2881aea4f4124f", "cfb22");
    Bytes b{1,2,3,4,5,6,7,8}, t(8), u(8); g.enc(b.data(), t.data()); g.dec(t.data(), u.data());
    if (u != b) { fprintf(stderr, "HARNESS-ERROR enc/dec\n"); _exit(3); }
}
}
