// Shared helpers of the key-related harnesses: small-curve keys, named-curve
// references built on libcrypto's own arithmetic, owning handles.
#pragma once
#include "eng.h"
#include "curves.h"

namespace kit {
using ref::Curve;
struct K {
    EVP_PKEY* k = nullptr;
    K(EVP_PKEY* p = nullptr) : k(p) {}
    K(const K&) = delete;
    K& operator=(const K&) = delete;
    K(K&& o) : k(o.k) { o.k = nullptr; }
    void reset(EVP_PKEY* p) { EVP_PKEY_free(k); k = p; }
    ~K() { EVP_PKEY_free(k); }
    explicit operator bool() const { return k != nullptr; }
};
inline int nid(bool le) { return le ? NID_dstu4145le : NID_dstu4145be; }
inline Bytes ord(const Bytes& be, bool le) { return le ? ref::rev(be) : be; }
// sbox choice: 0 absent, 1 explicitly the default one, 2.. custom
inline Bytes sbox_in(int i)
{
    if (i == 0) return {};
    if (i == 1) return Bytes(ref::DEFAULT_SBOX, ref::DEFAULT_SBOX + 64);
    return ref::custom_sbox(i - 1);
}
enum { NSBOX = 15 };
inline Bytes sbox_out(int i) { return i < 2 ? Bytes() : sbox_in(i); }

// further curves, given as parameters of their own: libcrypto's standard binary curves, with orders up to 570 bits (signatures
// from 512 bits on need the long form of the length)
struct Extra { int nid; const char* name; std::vector<int> e; };
inline const std::vector<Extra>& extra()
{
    static const std::vector<Extra> v = {{NID_sect571r1, "sect571r1", {2, 5, 10}}, {NID_sect571k1, "sect571k1", {2, 5, 10}}, {NID_sect409r1, "sect409r1", {87}},
                                         {NID_sect239k1, "sect239k1", {158}}, {NID_sect283r1, "sect283r1", {5, 7, 12}}, {NID_sect113r2, "sect113r2", {9}}};
    return v;
}
enum { NEXTRA = 6, NBIG = 10 + NEXTRA, NALL = ref::NTINY + NBIG };

// one curve: index 0..7 small, 8..17 named, 18.. further ones
struct Any {
    int i; bool small;
    const Curve* cv = nullptr;
    EC_GROUP* g = nullptr; BIGNUM *p = nullptr, *n = nullptr; BN_CTX* bx = nullptr;
    int m;
    std::string name;
    int w() const { return (m + 7) / 8; }
    Bytes full[2];      // parameters in full, by byte order (further curves)
    Bytes spec(bool le) const { return small ? ref::custom_spec(*cv, le) : i < 18 ? ref::oid(ref::oid_curve(i - 8)) : full[le]; }
    // expected printed parameters
    std::string poly, a, b, order, gen;
    int nbytes() const { return BN_num_bytes(n); }
    // affine coordinates (big-endian, w bytes each) of kG
    void mul(const BIGNUM* k, bool neg, Bytes& x, Bytes& y) const
    {
        EC_POINT* P = EC_POINT_new(g);
        eng::BN X, Y;
        EC_POINT_mul(g, P, k, nullptr, nullptr, bx);
        if (neg) EC_POINT_invert(g, P, bx);
        EC_POINT_get_affine_coordinates(g, P, X, Y, bx);
        EC_POINT_free(P);
        x = eng::bn_be(X, w()); y = eng::bn_be(Y, w());
    }
    Bytes compress(const Bytes& x, const Bytes& y) const
    {
        eng::BN X, Y, t, r;
        BN_bin2bn(x.data(), (int)x.size(), X); BN_bin2bn(y.data(), (int)y.size(), Y);
        BN_GF2m_mod_inv(t, X, p, bx);
        BN_GF2m_mod_mul(t, t, Y, p, bx);
        BN_zero(r);
        for (int q = 0; q < m; q++) { BN_GF2m_add(r, r, t); BN_GF2m_mod_sqr(t, t, p, bx); }
        Bytes o = x;
        o.back() = (uint8_t)((o.back() & 0xfe) | (BN_is_one(r) ? 1 : 0));
        return o;
    }
};
inline std::string hexs(const Bytes& b) { std::string o; char t[3]; for (uint8_t v : b) { snprintf(t, 3, "%02x", v); o += t; } return o; }
inline Any& any(int i)
{
    static std::map<int, Any> v;
    auto it = v.find(i);
    if (it != v.end()) return it->second;
    Any a;
    a.i = i; a.small = i < ref::NTINY;
    a.bx = BN_CTX_new(); a.p = BN_new(); a.n = BN_new();
    BIGNUM *aa = BN_new(), *bb = BN_new(), *X = BN_new(), *Y = BN_new();
    if (a.small) {
        const Curve& c = ref::tiny(i);
        a.cv = &c; a.m = c.f.m; a.name = c.name;
        BN_set_word(a.p, c.f.poly); BN_set_word(a.n, c.n); BN_set_word(aa, c.a); BN_set_word(bb, c.b); BN_set_word(X, c.G.x); BN_set_word(Y, c.G.y);
        a.g = curves::make(a.p, aa, bb, a.n, X, Y);
    } else if (i >= 18) {
        const Extra& x = extra()[i - 18];
        EC_GROUP* s = EC_GROUP_new_by_curve_name(x.nid);
        if (!s) { fprintf(stderr, "HARNESS-ERROR curve %s\n", x.name); exit(3); }
        EC_GROUP_get_curve(s, a.p, aa, bb, a.bx); EC_GROUP_get_order(s, a.n, a.bx);
        EC_POINT_get_affine_coordinates(s, EC_GROUP_get0_generator(s), X, Y, a.bx);
        a.m = EC_GROUP_get_degree(s); a.name = x.name;
        EC_GROUP_free(s);
        if (BN_get_word(aa) > 1) { // the standard's curves have a = 0 or 1: x -> x, y -> y + sx takes a to a + s + s^2
            eng::BN rhs, t, one; BN_set_word(one, 0);
            for (int w = 0; w < 2; w++) { BN_set_word(one, w); BN_GF2m_add(rhs, aa, one); if (BN_GF2m_mod_solve_quad(t, rhs, a.p, a.bx)) { eng::BN z; BN_GF2m_mod_mul(z, t, X, a.p, a.bx); BN_GF2m_add(Y, Y, z); BN_copy(aa, one); break; } }
            ERR_clear_error();
        }
        a.g = curves::make(a.p, aa, bb, a.n, X, Y);
        if (a.g) {
            Bytes comp = a.compress(eng::bn_be(X, a.w()), eng::bn_be(Y, a.w())), b = eng::bn_be(bb, a.w());
            Bytes poly = x.e.size() == 1 ? ref::integer(x.e[0]) : ref::seq({ref::integer(x.e[0]), ref::integer(x.e[1]), ref::integer(x.e[2])});
            for (int le = 0; le < 2; le++) a.full[le] = ref::seq({ref::seq({ref::integer(a.m), poly}), ref::integer(BN_get_word(aa)), ref::octet(ord(b, le)), ref::integer_be(eng::bn_be(a.n)), ref::octet(ord(comp, le))});
        }
    } else {
        const curves::Row& r = curves::T[i - 8];
        a.m = r.m; a.name = mc::fmt("named curve %d", i - 8);
        BIGNUM* pp = curves::poly(i - 8); BN_copy(a.p, pp); BN_free(pp);
        BN_hex2bn(&a.n, r.n); BN_hex2bn(&bb, r.b); BN_hex2bn(&X, r.px); BN_hex2bn(&Y, r.py); BN_set_word(aa, r.a);
        a.g = curves::make(a.p, aa, bb, a.n, X, Y);
    }
    if (!a.g) { fprintf(stderr, "HARNESS-ERROR curve %d\n", i); exit(3); }
    a.poly = eng::hx(eng::bn_be(a.p)); a.a = eng::hx(eng::bn_be(aa)); a.b = eng::hx(eng::bn_be(bb)); a.order = eng::hx(eng::bn_be(a.n));
    a.gen = "04" + hexs(eng::bn_be(X, a.w())) + hexs(eng::bn_be(Y, a.w()));
    for (BIGNUM* t : {aa, bb, X, Y}) BN_free(t);
    return v[i] = a;
}
// is the key on that curve, according to what it prints?
inline bool on_curve(const eng::View& v, const Any& a) { return v.ok && v.poly == a.poly && v.a == a.a && v.b == a.b && v.order == a.order && v.gen == a.gen; }
inline EVP_PKEY* priv(const Any& a, bool le, const Bytes& d_be, int sb = 0)
{
    Bytes d = ref::rev(d_be);
    while (d.size() > 1 && d.back() == 0) d.pop_back();
    return eng::priv_from_der(ref::pkcs8(le, ref::alg_params(a.spec(le), sbox_in(sb)), d));
}
inline EVP_PKEY* priv(const Any& a, bool le, uint64_t d, int sb = 0) { return priv(a, le, ref::be_bytes(d, 8), sb); }
}
