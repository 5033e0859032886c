// C05 (signing) and C06 (verification) on curves small enough to enumerate,
// plus the named curves with OpenSSL's own arithmetic as reference.
#include "kit.h"
#include "curves.h"
using namespace mc;
using ref::Curve;
using kit::K;

static EVP_PKEY* priv(const Curve& cv, bool le, uint32_t d, const Bytes& sbox = {})
{
    return eng::priv_from_der(ref::pkcs8(le, ref::alg_params(ref::custom_spec(cv, le), sbox), ref::priv_le(d)));
}
static EVP_PKEY* pub(const Curve& cv, bool le, const ref::Pt& q)
{
    Bytes o = ref::be_bytes(cv.compress(q), cv.bytes_m());
    if (le) o = ref::rev(o);
    return eng::pub_from_der(ref::spki(le, ref::alg_params(ref::custom_spec(cv, le)), o));
}
// hash value with the given low bits; 'shape' selects length and high bytes
static Bytes hash_of(const Curve& cv, uint32_t low, int shape)
{
    Bytes h(shape == 0 ? cv.bytes_m() : 32, 0);
    for (int i = 0; i < cv.bytes_m() && i < (int)h.size(); i++) h[i] = (uint8_t)(low >> (8 * i));
    if (shape >= 1) {   // bits above the field degree must not matter
        uint32_t top = cv.f.m % 8;
        if (top) h[cv.bytes_m() - 1] |= (uint8_t)(0xff << top);
        for (size_t i = cv.bytes_m(); i < 32; i++) h[i] = shape == 1 ? 0xff : (uint8_t)(i * 7);
    }
    return h;
}
// splits a DER signature into r and s; fails the check if the form is wrong
static void parse(Ctx& c, const Curve& cv, bool le, const Bytes& sig, uint32_t& r, uint32_t& s)
{
    int w = cv.bytes_n();
    c.check(sig.size() == (size_t)2 + 2 * w && sig[0] == 4 && sig[1] == 2 * w, "signature %s is not a DER octet string of 2x%d bytes", hex(sig).c_str(), w);
    Bytes v(sig.begin() + 2, sig.end());
    if (le) v = ref::rev(v);
    s = r = 0;
    for (int i = 0; i < w; i++) { s = s << 8 | v[i]; r = r << 8 | v[w + i]; }
}

static void check_sig(Ctx& c, const Curve& cv, bool le, uint32_t d, const Bytes& hash, uint32_t h, const Bytes& sig, uint32_t& e)
{
    uint32_t r, s;
    parse(c, cv, le, sig, r, s);
    c.check(r > 0 && r < cv.n && s > 0 && s < cv.n, "signature components r=%u s=%u outside 1..%u", r, s, cv.n - 1);
    e = (uint32_t)((s + cv.n - (uint64_t)d * r % cv.n) % cv.n);
    c.check(e != 0, "nonce zero (r=%u s=%u d=%u)", r, s, d);
    c.check(ref::sign_r(cv, e, h) == r, "r=%u is not what DSTU 4145 gives for nonce %u, hash element %u (expected %u); s=%u d=%u", r, e, h, ref::sign_r(cv, e, h), s, d);
    c.check(ref::verify(cv, cv.neg(cv.mul(d, cv.G)), h, r, s), "signature does not verify under the reference");
}
// For one key and hash element: every first draw; nonce distribution must be uniform
static void sign_all(Ctx& c)
{
    static const int q[] = {0, 1, 2, 7, 3};
    int ci = q[c.choose(c.thorough() ? 5 : 4, "curve")];
    const Curve& cv = ref::tiny(ci);
    int le = c.choose(2, "byte order");
    // all keys; on the larger curves a spread of them
    int nd = cv.n - 1, kd = c.thorough() ? nd : std::min(nd, 18);
    uint32_t d = 1 + (uint32_t)((uint64_t)c.choose(kd, "private key") * (nd - 1) / std::max(1, kd - 1));
    int nh = 1 << cv.f.m, kh = ci == 0 ? nh : std::min(nh, c.thorough() ? 24 : 10);
    uint32_t low = (uint32_t)((uint64_t)c.choose(kh, "hash element") * (nh - 1) / (kh - 1));
    int shape = c.choose(2, "hash shape");
    c.shard();
    Bytes hash = hash_of(cv, low, shape);
    uint32_t h = ref::hash_to_field(cv, hash);
    K k(priv(cv, le, d));
    c.check(k.k != nullptr, "cannot decode private key %u on %s", d, cv.name.c_str());
    auto usable = [&](uint32_t e) { uint32_t r = ref::sign_r(cv, e, h); return r != 0 && (e + (uint64_t)d * r) % cv.n != 0; };
    // three different continuations of the random stream: a nonce that is the same
    // under all of them was decided by the first byte alone
    std::vector<uint32_t> tails;
    for (uint32_t e = cv.n - 1; e > 0 && tails.size() < 3; e--) if (usable(e)) tails.push_back(e);
    std::vector<int> hist(cv.n, 0);
    for (int b0 = 0; b0 < 256; b0++) {
        uint32_t es[3] = {0, 0, 0};
        for (size_t t = 0; t < tails.size(); t++) {
            eng::RngScope rs;
            rs.r.byte = [&](size_t i) -> uint8_t { return i == 0 ? (uint8_t)b0 : (uint8_t)tails[t]; };
            Bytes sig;
            int rc = eng::sign(k.k, hash, sig);
            c.step();
            c.check(rc == 1, "signing failed (%d) on %s: d=%u hash=%s first random byte %d", rc, cv.name.c_str(), d, hex(hash).c_str(), b0);
            check_sig(c, cv, le, d, hash, h, sig, es[t]);
            c.check(rs.r.pos >= 1, "no randomness used");
            if ((b0 & 63) == 5 && t == 0) { c.check(eng::verify(k.k, hash, sig) == 1, "own signature rejected: d=%u hash=%s sig=%s", d, hex(hash).c_str(), hex(sig).c_str()); c.step(); }
            c.outcome(hash_bytes(sig));
        }
        if (es[0] == es[1] && es[1] == es[2]) hist[es[0]]++;
    }
    int want = -1;
    for (uint32_t e = 1; e < cv.n; e++) {
        if (!usable(e)) continue;
        if (want < 0) want = hist[e];
        c.check(hist[e] > 0 && hist[e] == want, "nonce %u drawn %d times out of 256, another one %d times: not uniform over 1..n-1 (%s)", e, hist[e], want, cv.name.c_str());
    }
    c.state(mix(mix(ci, le), mix(d, low * 2 + shape)));
    c.note("%s %s d=%u h=%u: 256 draws, every nonce %d times", cv.name.c_str(), le ? "LE" : "BE", d, h, want);
}
// orders of more than one byte: all 16-bit draws for a few keys
static void sign_wide(Ctx& c)
{
    static const int q[] = {6, 4, 5};
    int ci = q[c.choose(3, "curve")];
    const Curve& cv = ref::tiny(ci);
    int le = c.choose(2, "byte order");
    static const int ds[] = {1, 2, 77, 255, 256};
    int di = c.choose(c.thorough() ? 7 : 3, "key");
    uint32_t d = di == 0 ? 1 : di == 1 ? cv.n - 1 : di == 2 ? cv.n / 2 : (uint32_t)ds[di - 2];
    uint32_t low = c.choose(2, "hash") ? 0x155 : 1;
    int hi = c.choose(8, "draw range");
    c.shard();
    Bytes hash = hash_of(cv, low, 1);
    uint32_t h = ref::hash_to_field(cv, hash);
    K k(priv(cv, le, d));
    c.check(k.k != nullptr, "cannot decode private key");
    for (int b = 0; b < 65536; b++) {
        // every value of the low order bits; the rest of the first byte is masked off by the draw
        int b0 = b >> 8, b1 = b & 255;
        if (b0 >= 32 || b0 % 8 != hi) continue;
        if (!c.thorough() && (b1 & 3) != (b0 & 3)) continue;
        eng::RngScope rs;
        rs.r.byte = [&](size_t i) -> uint8_t { return i == 0 ? (uint8_t)b0 : i == 1 ? (uint8_t)b1 : (uint8_t)(i & 1 ? 5 + i : 0); };
        Bytes sig;
        int rc = eng::sign(k.k, hash, sig);
        c.step();
        c.check(rc == 1, "signing failed on %s with random bytes %02x%02x", cv.name.c_str(), b0, b1);
        uint32_t e;
        check_sig(c, cv, le, d, hash, h, sig, e);
        c.outcome(hash_bytes(sig));
    }
    c.note("%s %s d=%u", cv.name.c_str(), le ? "LE" : "BE", d);
    c.state(mix(mix(ci, le), mix(d, low * 8 + hi)));
}
// every hash length and content class
static void sign_hash(Ctx& c)
{
    int ci = c.choose(4, "curve"), le = c.choose(2, "order");
    int L = 1 + c.choose(70, "hash length");
    int fill = c.choose(4, "content");
    c.shard();
    const Curve& cv = ref::tiny(ci == 3 ? 5 : ci);
    Bytes hash(L);
    for (int i = 0; i < L; i++) hash[i] = fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? (uint8_t)(i * 41 + 3) : (i < cv.bytes_m() ? 0 : 0x80);
    uint32_t h = ref::hash_to_field(cv, hash);
    K k(priv(cv, le, 5));
    c.check(k.k != nullptr, "key");
    for (int b0 = 1; b0 < 5; b0++) {
        eng::RngScope rs;
        rs.r.byte = [&](size_t i) -> uint8_t { return (uint8_t)(b0 + i); };
        Bytes sig, copy = hash;
        int rc = eng::sign(k.k, hash, sig);
        c.step(2);
        c.check(rc == 1, "signing a %d-byte hash failed", L);
        c.check(hash == copy, "hash modified");
        uint32_t e;
        check_sig(c, cv, le, 5, hash, h, sig, e);
        c.check(eng::verify(k.k, hash, sig) == 1, "own signature of a %d-byte hash (content %d) rejected", L, fill);
        c.outcome(hash_bytes(sig));
    }
    c.state(mix(mix(ci, le), mix(L, fill)));
    c.note("%s hash of %d bytes content %d", cv.name.c_str(), L, fill);
}
// size query and buffer handling
static void sign_buf(Ctx& c)
{
    int ci = c.choose(ref::NTINY, "curve"), le = c.choose(2, "order"), bl = c.choose(24, "buffer");
    c.shard();
    const Curve& cv = ref::tiny(ci);
    K k(priv(cv, le, 3));
    c.check(k.k != nullptr, "key");
    size_t need = 2 + 2 * cv.bytes_n();
    c.check((size_t)EVP_PKEY_size(k.k) == need, "key reports signature size %d, expected %zu", EVP_PKEY_size(k.k), need);
    c.check(EVP_PKEY_bits(k.k) == cv.f.m, "key reports %d bits, expected %d", EVP_PKEY_bits(k.k), cv.f.m);
    eng::RngScope rs;
    rs.r.byte = [](size_t i) -> uint8_t { return (uint8_t)(i + 1); };
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(k.k, eng::get());
    struct F { EVP_PKEY_CTX* x; ~F() { EVP_PKEY_CTX_free(x); } } f{x};
    Bytes h = ref::str("01234567890123456789012345678901");
    size_t n = 0;
    c.check(EVP_PKEY_sign_init(x) == 1, "sign init");
    c.check(EVP_PKEY_sign(x, nullptr, &n, h.data(), h.size()) == 1 && n == need, "size query gives %zu, expected %zu", n, need);
    uint8_t* b = (uint8_t*)malloc(bl ? bl : 1);
    memset(b, 0xA7, bl ? bl : 1);
    n = bl;
    int rc = EVP_PKEY_sign(x, b, &n, h.data(), h.size());
    c.step(4);
    Bytes got(b, b + bl);
    free(b);
    if ((size_t)bl < need) {
        c.check(rc <= 0, "signing into %d bytes succeeded, %zu needed", bl, need);
        for (auto v : got) c.check(v == 0xA7, "refused signing wrote into the buffer");
    } else {
        c.check(rc == 1 && n == need, "signing into %d bytes gave %d, length %zu", bl, rc, n);
        for (size_t i = need; i < got.size(); i++) c.check(got[i] == 0xA7, "signing wrote past its %zu bytes", need);
        got.resize(need);
        uint32_t e; check_sig(c, cv, le, 3, h, ref::hash_to_field(cv, h), got, e);
    }
    c.state(mix(ci, mix(le, bl))); c.outcome(rc);
    c.note("%s buffer %d -> %d", cv.name.c_str(), bl, rc);
}
// ---- named curves -----------------------------------------------------------
// the named curves and those with full parameters and larger orders
typedef const kit::Any Named;
static Named& named(int i) { return kit::any(8 + i); }
static void low_bits(BIGNUM* b, int bits) { if (BN_num_bits(b) > bits) BN_mask_bits(b, bits); }
// r expected for point x-coordinate Fx and hash
static void calc_r(Named& N, const Bytes& hash, const BIGNUM* Fx, BIGNUM* r)
{
    Bytes be = ref::rev(hash);
    BN_bin2bn(be.data(), (int)be.size(), r);
    low_bits(r, N.m);
    if (BN_is_zero(r)) BN_one(r);
    BN_GF2m_mod_mul(r, r, Fx, N.p, N.bx);
    low_bits(r, BN_num_bits(N.n) - 1);
}
static Bytes named_priv(int i, int j)
{
    Named& N = named(i);
    int w = (BN_num_bits(N.n) + 7) / 8;
    Bytes d;   // little-endian
    if (j == 0) d = {1};
    else if (j == 1) { eng::BN t; BN_copy(t, N.n); BN_sub_word(t, 1); d = ref::rev(eng::bn_be(t)); }
    else { d.assign(w, 0); for (int q = 0; q < w; q++) d[q] = (uint8_t)(q * 37 + j * 11 + 1); d[w - 1] = 0; if (!d[w - 2]) d[w - 2] = 1; }
    return d;
}
static void named_sign(Ctx& c)
{
    int i = c.choose(kit::NBIG, "curve"), le = c.choose(2, "order"), j = c.choose(3, "key"), hk = c.choose(4, "hash"), rk = c.choose(c.thorough() ? 12 : 3, "random stream");
    c.shard();
    Named& N = named(i);
    Bytes d = named_priv(i, j);
    K k(eng::priv_from_der(ref::pkcs8(le, ref::alg_params(N.spec(le)), d)));
    c.check(k.k != nullptr, "cannot decode a private key on named curve %d", i);
    Bytes h(32);
    for (int q = 0; q < 32; q++) h[q] = hk == 0 ? (uint8_t)(q * 9 + 1) : hk == 1 ? 0xff : hk == 2 ? 0 : (q < (N.m + 7) / 8 ? 0 : 0xff);
    eng::RngScope rs;
    rs.r.byte = [&](size_t q) -> uint8_t { return rk == 1 && q < 60 ? 0 : (uint8_t)((q + 1) * (q + 3) * (2 * rk + 7) + (q >> 3)); };
    Bytes sig;
    int rc = eng::sign(k.k, h, sig);
    c.step();
    c.check(rc == 1, "signing on named curve %d failed", i);
    int w = BN_num_bytes(N.n);
    size_t hl = 2 * w < 128 ? 2 : 3;
    c.check(sig.size() == hl + 2 * w && sig[0] == 4 && sig[hl - 1] == 2 * w, "signature form on curve %d: %s", i, hex(sig).c_str());
    Bytes v(sig.begin() + hl, sig.end());
    if (le) v = ref::rev(v);
    eng::BN s, r, e, D, x, want;
    BN_bin2bn(v.data(), w, s); BN_bin2bn(v.data() + w, w, r);
    Bytes dbe = ref::rev(d); BN_bin2bn(dbe.data(), (int)dbe.size(), D);
    BN_mod_mul(e, D, r, N.n, N.bx); BN_mod_sub(e, s, e, N.n, N.bx);
    c.check(!BN_is_zero(r) && !BN_is_zero(s) && BN_cmp(r, N.n) < 0 && BN_cmp(s, N.n) < 0 && !BN_is_zero(e), "signature components out of range on curve %d", i);
    EC_POINT* P = EC_POINT_new(N.g);
    EC_POINT_mul(N.g, P, e, nullptr, nullptr, N.bx);
    EC_POINT_get_affine_coordinates(N.g, P, x, nullptr, N.bx);
    EC_POINT_free(P);
    calc_r(N, h, x, want);
    c.check(BN_cmp(want, r) == 0, "r on named curve %d is not h*x(eG) truncated", i);
    c.check(eng::verify(k.k, h, sig) == 1, "own signature rejected on curve %d", i);
    // nonce uses the whole range: the top bits of the nonce come from the stream
    c.outcome(hash_bytes(sig)); c.state(mix(mix(i, le), mix(j, hk * 16 + rk)));
    c.note("curve %d %s key %d hash %d: e has %d bits", i, le ? "LE" : "BE", j, hk, BN_num_bits(e));
    c.check(rk == 0 || rk == 1 || BN_num_bits(e) > BN_num_bits(N.n) - 24, "nonce suspiciously short: %d of %d bits", BN_num_bits(e), BN_num_bits(N.n));
}

// ---- C06 --------------------------------------------------------------------
static Bytes raw_sig(const Curve& cv, bool le, uint64_t r, uint64_t s, int pad)
{
    int w = cv.bytes_n() + pad;
    return eng::sig_bytes(le, ref::be_bytes(r, w), ref::be_bytes(s, w));
}
// what the verifier should take as s||r (in key byte order); empty: malformed
static Bytes read_sig(const Curve& cv, const Bytes& in)
{
    Bytes body = in;
    size_t need = 2 * cv.bytes_n();
    if (in.size() >= 2 && in[0] == 4 && in[1] < 128 && (size_t)in[1] + 2 == in.size() && in[1] >= need) body.assign(in.begin() + 2, in.end());
    if (body.size() % 2 || body.size() < need) return {};
    return body;
}
static bool expect(const Curve& cv, bool le, const ref::Pt& Q, uint32_t h, const Bytes& in)
{
    Bytes b = read_sig(cv, in);
    if (b.empty()) return false;
    if (le) b = ref::rev(b);
    size_t w = b.size() / 2;
    uint64_t s = 0, r = 0;
    for (size_t i = 0; i < w; i++) {
        if (s >> 48 || r >> 48) return false;   // far beyond n
        s = s << 8 | b[i]; r = r << 8 | b[w + i];
    }
    return ref::verify(cv, Q, h, r, s);
}
static void one_verify(Ctx& c, EVP_PKEY* k, const Curve& cv, bool le, const ref::Pt& Q, const Bytes& hash, uint32_t h, const Bytes& sig, const char* what)
{
    // exactly sized copies: over-reads and writes are caught
    uint8_t* sb = (uint8_t*)malloc(sig.size() ? sig.size() : 1);
    if (sig.size()) memcpy(sb, sig.data(), sig.size());
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new(k, eng::get());
    EVP_PKEY_verify_init(x);
    int rc = EVP_PKEY_verify(x, sb, sig.size(), hash.data(), hash.size());
    EVP_PKEY_CTX_free(x);
    bool same = sig.empty() || !memcmp(sb, sig.data(), sig.size());
    free(sb);
    c.step();
    bool want = expect(cv, le, Q, h, sig);
    c.outcome(want);
    c.check(same, "verification modified the signature");
    c.check((rc == 1) == want, "%s: %s key, Q=(%u,%u), hash %s, signature %s: verify returned %d, reference says %s", what, cv.name.c_str(), Q.x, Q.y, hex(hash).c_str(), hex(sig).c_str(), rc, want ? "valid" : "invalid");
}
static void ver_all(Ctx& c)
{
    static const int q[] = {0, 7, 2, 1, 3, 6};
    int ci = q[c.choose(6, "curve")];
    const Curve& cv = ref::tiny(ci);
    int le = c.choose(2, "order");
    int nq = cv.n - 1, kq = ci == 0 ? nq : c.thorough() ? 20 : 5;
    uint32_t d = 1 + (uint32_t)((uint64_t)c.choose(kq, "public key") * (nq - 1) / (kq - 1));
    int nh = 1 << cv.f.m, kh = ci == 0 ? nh : c.thorough() ? 10 : 4;
    uint32_t low = (uint32_t)((uint64_t)c.choose(kh, "hash") * (nh - 1) / (kh - 1));
    int form = c.choose(2, "DER/raw");
    c.shard();
    ref::Pt Q = cv.neg(cv.mul(d, cv.G));
    K k(pub(cv, le, Q));
    c.check(k.k != nullptr, "cannot decode public key");
    Bytes hash = hash_of(cv, low, low & 1 ? 1 : 0);
    uint32_t h = ref::hash_to_field(cv, hash);
    std::vector<uint32_t> vals;
    uint32_t lim = ci == 0 ? (c.thorough() ? 256 : 40) : cv.n + 3;
    for (uint32_t v = 0; v < lim; v++) vals.push_back(v);
    if (lim != 256) { vals.push_back(cv.bytes_n() == 1 ? 255 : 65535); vals.push_back(2 * cv.n < 256 || cv.bytes_n() > 1 ? 2 * cv.n - 1 : 254); }
    for (uint32_t r : vals) for (uint32_t s : vals) {
        if (ci == 0 && r > 23 && s > 23 && (r & s & 0x1f)) continue;
        if (lim > 200 && ci && !c.thorough() && r > 3 && r < cv.n - 2 && s > 3 && s < cv.n - 2 && (r + 3 * s) % 8) continue;
        Bytes b = raw_sig(cv, le, r, s, 0);
        one_verify(c, k.k, cv, le, Q, hash, h, form ? b : ref::octet(b), "all pairs");
    }
    c.state(mix(mix(ci, le), mix(d, low * 2 + form)));
    c.note("%s %s Q=-%uG h=%u: all (r,s) as %s", cv.name.c_str(), le ? "LE" : "BE", d, h, form ? "raw" : "DER");
}
// exactly the valid signatures of large orders, and their neighbours
static void ver_wide(Ctx& c)
{
    int ci = c.choose(2, "curve") ? 4 : 5;
    const Curve& cv = ref::tiny(ci);
    int le = c.choose(2, "order"), dk = c.choose(c.thorough() ? 8 : 3, "key"), part = c.choose(8, "part");
    c.shard();
    uint32_t d = dk == 0 ? 1 : dk == 1 ? cv.n - 1 : 17 * dk + 5;
    ref::Pt Q = cv.neg(cv.mul(d, cv.G));
    K k(pub(cv, le, Q));
    c.check(k.k != nullptr, "key");
    Bytes hash = ref::str("a hash of thirty-two bytes......");
    uint32_t h = ref::hash_to_field(cv, hash);
    for (uint32_t e = 1 + part; e < cv.n; e += 8) {
        uint32_t r = ref::sign_r(cv, e, h), s = (uint32_t)((e + (uint64_t)d * r) % cv.n);
        for (int t = 0; t < 6; t++) {
            uint64_t rr = r, ss = s;
            if (t == 1) rr = r + cv.n; if (t == 2) ss = s + cv.n; if (t == 3) rr = r ^ 1; if (t == 4) ss = cv.n - s; if (t == 5) std::swap(rr, ss);
            if (rr > 0xffff || ss > 0xffff) continue;
            one_verify(c, k.k, cv, le, Q, hash, h, ref::octet(raw_sig(cv, le, rr, ss, 0)), "wide");
        }
    }
    c.state(mix(mix(ci, le), mix(d, part)));
    c.note("%s d=%u part %d", cv.name.c_str(), d, part);
}
// lengths, paddings, DER forms, trailing bytes
static void ver_form(Ctx& c)
{
    static const int q[] = {0, 2, 6, 5};
    const Curve& cv = ref::tiny(q[c.choose(4, "curve")]);
    int le = c.choose(2, "order"), mode = c.choose(7, "mode");
    int a = c.choose(mode == 5 ? 256 : 24, "arg");
    c.shard();
    uint32_t d = 5;
    ref::Pt Q = cv.neg(cv.mul(d, cv.G));
    K k(pub(cv, le, Q));
    c.check(k.k != nullptr, "key");
    Bytes hash = ref::str("0123");
    uint32_t h = ref::hash_to_field(cv, hash);
    uint32_t r = 0, s = 0;
    for (uint32_t e = 1; e < cv.n && (!r || !s); e++) { r = ref::sign_r(cv, e, h); s = r ? (uint32_t)((e + (uint64_t)d * r) % cv.n) : 0; }
    Bytes good = raw_sig(cv, le, r, s, 0), in;
    switch (mode) {
    case 0: in = good; in.resize(a, 0); break;                                   // truncated/extended raw
    case 1: { Bytes t = good; t.resize(a, 0); in = ref::octet(t); break; }        // wrong content length
    case 2: in = raw_sig(cv, le, r, s, a); break;                                // zero-padded halves, raw
    case 3: in = ref::octet(raw_sig(cv, le, r, s, a)); break;                    // zero-padded halves, DER
    case 4: in = ref::octet(good) + Bytes(a, 0x00); break;                       // trailing bytes after DER
    case 5: in = ref::octet(good); in[0] = (uint8_t)a; break;                    // wrong tag
    case 6: in = ref::octet(good); in[1] = (uint8_t)(in[1] + a - 12); break;     // wrong length byte
    }
    if (mode == 5 && (a == 0x24 || (a & 0xdf) == 4)) { c.step(); return; }      // constructed strings: not specified
    if (mode == 4 && a == 0) { one_verify(c, k.k, cv, le, Q, hash, h, in, "forms"); }
    else if (mode == 6 && (in[1] & 0x80)) { c.step(); return; }                  // indefinite/long lengths: C24
    else one_verify(c, k.k, cv, le, Q, hash, h, in, "forms");
    c.state(mix(cv.n, mix(le, mode * 256 + a)));
    c.note("mode %d arg %d: %s", mode, a, hex(in).c_str());
}
// raw signatures whose bytes look like the start of a DER octet string
static void ver_ambiguous(Ctx& c)
{
    const Curve& cv = ref::tiny(c.choose(2, "curve") ? 4 : 5);   // two-byte halves
    int le = c.choose(2, "order"), b1 = c.choose(6, "second byte");
    c.shard();
    uint32_t d = 9;
    ref::Pt Q = cv.neg(cv.mul(d, cv.G));
    K k(pub(cv, le, Q));
    c.check(k.k != nullptr, "key");
    int tried = 0;
    for (uint32_t low = 0; low < 64; low++) {
        Bytes hash = hash_of(cv, low, 0);
        uint32_t h = ref::hash_to_field(cv, hash);
        for (uint32_t e = 1; e < cv.n; e++) {
            uint32_t r = ref::sign_r(cv, e, h);
            uint32_t s = r ? (uint32_t)((e + (uint64_t)d * r) % cv.n) : 0;
            if (!r || !s) continue;
            Bytes raw = raw_sig(cv, le, r, s, 0);
            if (raw[0] != 4 || raw[1] != b1) continue;
            one_verify(c, k.k, cv, le, Q, hash, h, raw, "raw signature starting like DER");
            if (++tried > 40) break;
        }
        if (tried > 40) break;
    }
    c.state(mix(cv.n, mix(le, b1))); c.step();
    c.note("%s: %d raw signatures starting 04 %02x", cv.name.c_str(), tried, b1);
}
// named curves: every single-bit change of signature, hash and key must be rejected
static void ver_named(Ctx& c)
{
    int i = c.choose(kit::NBIG, "curve"), le = c.choose(2, "order");
    Named& N = named(i);
    int w = BN_num_bytes(N.n);
    int part = c.choose(c.thorough() ? 16 : 4, "part"), parts = c.thorough() ? 16 : 4;
    c.shard();
    Bytes d = named_priv(i, 2);
    K k(eng::priv_from_der(ref::pkcs8(le, ref::alg_params(N.spec(le)), d)));
    c.check(k.k != nullptr, "key");
    Bytes h(32); for (int q = 0; q < 32; q++) h[q] = (uint8_t)(q * 5 + 2);
    // reference signature
    eng::BN e, x, r, s, D;
    BN_set_word(e, 0x1234567); for (int q = 0; q < 3; q++) BN_sqr(e, e, N.bx); BN_mod(e, e, N.n, N.bx);
    EC_POINT* P = EC_POINT_new(N.g);
    EC_POINT_mul(N.g, P, e, nullptr, nullptr, N.bx);
    EC_POINT_get_affine_coordinates(N.g, P, x, nullptr, N.bx);
    EC_POINT_free(P);
    calc_r(N, h, x, r);
    Bytes dbe = ref::rev(d); BN_bin2bn(dbe.data(), (int)dbe.size(), D);
    BN_mod_mul(s, D, r, N.n, N.bx); BN_mod_add(s, s, e, N.n, N.bx);
    Bytes raw = eng::sig_bytes(le, eng::bn_be(r, w), eng::bn_be(s, w));
    c.check(eng::verify(k.k, h, ref::octet(raw)) == 1, "valid DER signature rejected on curve %d", i);
    c.check(eng::verify(k.k, h, raw) == 1, "valid raw signature rejected on curve %d", i);
    c.step(2);
    int bits = (int)raw.size() * 8;
    int stride = c.thorough() ? 1 : 5;
    for (int b = part * stride; b < bits; b += parts * stride) {
        Bytes t = raw; t[b / 8] ^= 1 << (b % 8);
        c.step();
        c.check(eng::verify(k.k, h, ref::octet(t)) != 1, "signature with bit %d flipped accepted on curve %d", b, i);
    }
    int hb = std::min(256, N.m);
    for (int b = part * 17; b < hb; b += parts * 17) {
        Bytes t = h; t[b / 8] ^= 1 << (b % 8);
        c.step();
        c.check(eng::verify(k.k, t, ref::octet(raw)) != 1, "signature accepted for a hash with bit %d flipped on curve %d", b, i);
    }
    // r+n, s+n, zero, n
    if (part == 0) {
        eng::BN t;
        BN_add(t, s, N.n); if (BN_num_bytes(t) <= w) c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(le, eng::bn_be(r, w), eng::bn_be(t, w)))) != 1, "s+n accepted");
        Bytes big = eng::bn_be(t, w + 1);
        c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(le, eng::bn_be(r, w + 1), big))) != 1, "s+n accepted in wider halves");
        BN_add(t, r, N.n);
        c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(le, eng::bn_be(t, w + 1), eng::bn_be(s, w + 1)))) != 1, "r+n accepted in wider halves");
        c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(le, Bytes(w, 0), eng::bn_be(s, w)))) != 1, "r=0 accepted");
        c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(le, eng::bn_be(r, w), Bytes(w, 0)))) != 1, "s=0 accepted");
        c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(le, eng::bn_be(N.n, w), eng::bn_be(s, w)))) != 1, "r=n accepted");
        c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(le, eng::bn_be(r, w), eng::bn_be(N.n, w)))) != 1, "s=n accepted");
        c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(!le, eng::bn_be(r, w), eng::bn_be(s, w)))) != 1, "wrong byte order accepted");
        c.check(eng::verify(k.k, h, ref::octet(eng::sig_bytes(le, eng::bn_be(s, w), eng::bn_be(r, w)))) != 1, "swapped r and s accepted");
        c.step(9);
    }
    c.state(mix(i, mix(le, part))); c.outcome(hash_bytes(raw));
    c.note("named curve %d %s part %d", i, le ? "LE" : "BE", part);
}
int main(int argc, char** argv)
{
    eng::get(); eng::install_rng();
    std::vector<Group> g;
    if (arg_prop(argc, argv) == "C06") g = {{"ver_all", ver_all}, {"ver_wide", ver_wide}, {"ver_form", ver_form}, {"ver_ambiguous", ver_ambiguous}, {"ver_named", ver_named}};
    else g = {{"sign_all", sign_all}, {"sign_wide", sign_wide}, {"sign_hash", sign_hash}, {"sign_buf", sign_buf}, {"named_sign", named_sign}};
    return main_impl(argc, argv, g);
}
