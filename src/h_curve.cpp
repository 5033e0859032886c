// C23 the ten named curves: their numbers, and what is recognised as one of them.
#include "kit.h"
using namespace mc;
using namespace kit;

static Bytes polyv(const std::vector<int>& e) { return e.size() == 1 ? ref::integer(e[0]) : ref::seq({ref::integer(e[0]), ref::integer(e[1]), ref::integer(e[2])}); }
// parameters written out explicitly
static Bytes explicit_spec(bool le, int m, const std::vector<int>& e, int a, const Bytes& b, const Bytes& n, const Bytes& bp)
{
    return ref::seq({ref::seq({ref::integer(m), polyv(e)}), ref::integer(a), ref::octet(ord(b, le)), ref::integer_be(n), ref::octet(ord(bp, le))});
}
static std::vector<int> exps(int q) { std::vector<int> e; for (int t : curves::T[q].e) if (t) e.insert(e.begin(), t); return e; }
static BIGNUM* polybn(int m, const std::vector<int>& e) { BIGNUM* p = BN_new(); BN_set_bit(p, m); BN_set_bit(p, 0); for (int k : e) BN_set_bit(p, k); return p; }
// for prime m: x^(2^m) = x and no root in GF(2)
static bool irreducible(int m, const BIGNUM* p)
{
    eng::BN x; BN_set_bit(x, 1);
    BN_CTX* c = BN_CTX_new();
    for (int i = 0; i < m; i++) BN_GF2m_mod_sqr(x, x, p, c);
    BN_CTX_free(c);
    return BN_num_bits(x) == 2 && BN_is_bit_set(x, 1) && !BN_is_bit_set(x, 0);
}
// a group over that field with some point of the trace the compressed form needs; its compressed form
static bool some_point(const BIGNUM* p, int m, int a, const BIGNUM* b, Bytes& bp)
{
    eng::BN A; BN_set_word(A, a);
    BN_CTX* c = BN_CTX_new();
    EC_GROUP* g = EC_GROUP_new_curve_GF2m(p, A, b, c);
    EC_POINT* P = g ? EC_POINT_new(g) : nullptr;
    bool ok = false;
    for (int i = 2; P && i < 60 && !ok; i++) {
        eng::BN X, Y; BN_set_word(X, i * 37 + 5);
        if (EC_POINT_set_compressed_coordinates(g, P, X, 0, c) != 1) { ERR_clear_error(); continue; }
        EC_POINT_dbl(g, P, P, c);
        if (EC_POINT_is_at_infinity(g, P) || EC_POINT_get_affine_coordinates(g, P, X, Y, c) != 1) continue;
        Any t; t.p = (BIGNUM*)p; t.m = m; t.bx = c;
        bp = t.compress(eng::bn_be(X, (m + 7) / 8), eng::bn_be(Y, (m + 7) / 8));
        ok = true;
    }
    EC_POINT_free(P); EC_GROUP_free(g); BN_CTX_free(c);
    return ok;
}
// the numbers of this table are those of real curves with prime order (so it cannot be a typo)
static void table(Ctx& c)
{
    int q = c.choose(10, "curve");
    c.shard();
    const Any& a = any(8 + q);
    const curves::Row& r = curves::T[q];
    auto need = [&](bool ok, const char* w) { if (!ok) { fprintf(stderr, "HARNESS-ERROR reference curve %d: %s\n", q, w); exit(3); } };
    need(irreducible(r.m, a.p), "field");
    need(BN_check_prime(a.n, a.bx, nullptr) == 1, "order not prime");
    need(EC_POINT_is_on_curve(a.g, EC_GROUP_get0_generator(a.g), a.bx) == 1, "base point");
    EC_POINT* t = EC_POINT_new(a.g);
    EC_POINT_mul(a.g, t, nullptr, EC_GROUP_get0_generator(a.g), a.n, a.bx);
    need(EC_POINT_is_at_infinity(a.g, t) == 1, "order");
    EC_POINT_free(t);
    // the order is within Hasse's bound for cofactor 2 (a=1) or 4 (a=0)
    need(BN_num_bits(a.n) == r.m - (r.a ? 1 : 2) || BN_num_bits(a.n) == r.m - (r.a ? 0 : 1), "cofactor");
    c.step(); c.state(q); c.note("reference curve %d", q);
}
static void named(Ctx& c)
{
    int q = c.choose(10, "curve"), le = c.choose(2, "order"), how = c.choose(6, "how"), sb = c.choose(3, "s-box");
    c.shard();
    const Any& a = any(8 + q);
    K k;
    if (how == 0) k.reset(eng::params_from_der(nid(le), ref::alg_params(a.spec(le), sbox_in(sb))));
    else if (how == 1) { const curves::Row& r = curves::T[q]; Bytes x, y; eng::BN one; BN_one(one); a.mul(one, false, x, y);
        k.reset(eng::params_from_der(nid(le), ref::alg_params(explicit_spec(le, r.m, exps(q), r.a, ref::unhex(r.b), ref::unhex(r.n), a.compress(x, y)), sbox_in(sb)))); }
    else if (how == 4) k.reset(priv(a, le, 12345, sb));
    else if (how == 5) { Bytes x, y; eng::BN two; BN_set_word(two, 2); a.mul(two, true, x, y); k.reset(eng::pub_from_der(ref::spki(le, ref::alg_params(a.spec(le), sbox_in(sb)), ord(a.compress(x, y), le)))); }
    else {
        eng::RngScope rs; rs.r.byte = [](size_t i) { return (uint8_t)(i * 7 + 1); };
        EVP_PKEY_CTX* x = EVP_PKEY_CTX_new_id(nid(le), eng::get());
        EVP_PKEY* o = nullptr;
        bool ok = EVP_PKEY_keygen_init(x) > 0 && (how == 2 ? EVP_PKEY_CTX_ctrl_str(x, "curve", fmt("uacurve%d", q).c_str()) : EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, a.g)) > 0;
        Bytes b = sbox_in(sb);
        if (sb) ok = ok && EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, b.data()) > 0;
        ok = ok && EVP_PKEY_keygen(x, &o) > 0;
        EVP_PKEY_CTX_free(x);
        c.check(ok, "cannot generate a key on curve %d (%d)", q, how);
        k.reset(o);
    }
    c.check((bool)k, "curve %d, way %d: refused", q, how);
    std::string what = fmt("curve %d, way %d, %s", q, how, le ? "le" : "be");
    eng::View v = eng::view(k.k, 0);
    c.check(on_curve(v, a), "%s: not the standard's curve: %s", what.c_str(), v.text.c_str());
    Bytes d = eng::params_to_der(k.k);
    c.check(d == ref::alg_params(ref::oid(ref::oid_curve(q)), sbox_out(sb)), "%s: written as %s", what.c_str(), hex(d, 200).c_str());
    c.check(EVP_PKEY_bits(k.k) == a.m || EVP_PKEY_bits(k.k) == BN_num_bits(a.n), "%s: %d bits", what.c_str(), EVP_PKEY_bits(k.k));
    for (int o = 0; o < 10; o++) {   // equal to the same curve only
        K t(eng::params_from_der(nid(le), ref::alg_params(any(8 + o).spec(le), sbox_in(sb))));
        c.check(EVP_PKEY_parameters_eq(k.k, t.k) == (o == q), "%s: compared with curve %d: %d", what.c_str(), o, EVP_PKEY_parameters_eq(k.k, t.k));
    }
    ERR_clear_error();
    c.step(12); c.state(mix(mix(q, le), mix(how, sb))); c.outcome(mix(q, how)); c.note("%s", what.c_str());
}
// one parameter differs: written out explicitly, unequal to the named curve
static void variation(Ctx& c)
{
    int q = c.choose(10, "curve"), le = c.choose(2, "order"), kind = c.choose(6, "kind");
    const Any& a = any(8 + q);
    const curves::Row& r = curves::T[q];
    int m = r.m, th = c.thorough() ? 1 : 9;
    int n = kind == 0 ? (c.thorough() ? 200 : 16) : kind == 1 ? (m + th - 1) / th : kind == 2 ? 1 : kind == 3 ? (m - 1 + th - 1) / th : kind == 4 ? (c.thorough() ? 60 : 8) : 6;
    int v = c.choose(n, "variation");
    c.shard();
    std::vector<int> e = exps(q); int aa = r.a; Bytes b = ref::unhex(r.b), nn = ref::unhex(r.n), x, y, bp;
    eng::BN one; BN_one(one); a.mul(one, false, x, y); bp = a.compress(x, y);
    b.insert(b.begin(), a.w() - b.size(), 0);
    eng::BN B; BN_bin2bn(b.data(), (int)b.size(), B);
    bool must = true, is_named = false; std::string what;
    auto flip = [](BIGNUM* z, int bit) { if (BN_is_bit_set(z, bit)) BN_clear_bit(z, bit); else BN_set_bit(z, bit); };
    if (kind == 0) {          // another base point
        int k = v == 0 ? 1 : v + 1; eng::BN kk; BN_set_word(kk, k);
        a.mul(kk, v % 2 == 0, x, y); bp = a.compress(x, y); what = fmt("base point %d", k);
    } else if (kind == 1) {   // one bit of b
        int bit = (v * th + q) % m; flip(B, bit); b = eng::bn_be(B, a.w());
        if (!some_point(a.p, m, aa, B, bp)) { c.step(); return; }
        what = fmt("bit %d of b", bit);
    } else if (kind == 2) {   // a
        aa = 1 - aa;
        if (!some_point(a.p, m, aa, B, bp)) { c.step(); return; }
        what = "other a";
    } else if (kind == 3) {   // one bit of the order
        int bit = v * th % (BN_num_bits(a.n) - 1); eng::BN N; BN_copy(N, a.n); flip(N, bit); nn = eng::bn_be(N); what = fmt("bit %d of the order", bit);
    } else if (kind == 4) {   // another irreducible polynomial of the same degree
        int seen = -1; bool found = false;
        for (int l = 3; l < m && !found; l++) for (int j = 2; j < l && !found; j++) for (int k = 1; k < j && !found; k++) {
            if ((l * 7 + j * 3 + k) % 5) continue;
            std::vector<int> t = {k, j, l};
            if (t == exps(q)) continue;
            BIGNUM* p = polybn(m, t);
            if (irreducible(m, p) && ++seen == v) { found = true; e = t; Bytes z; must = some_point(p, m, aa, B, bp); }
            BN_free(p);
            if (l > 40) break;
        }
        if (!found || !must) { c.step(); return; }
        what = fmt("polynomial %d %d %d", e[0], e[1], e[2]);
    } else {                  // the same numbers written differently: still the named curve
        is_named = true;
        if (e.size() == 3) { std::sort(e.begin(), e.end()); for (int i = 0; i < v; i++) std::next_permutation(e.begin(), e.end()); }
        if (v == 1 || e.size() == 1) b.insert(b.begin(), v, 0);
        what = fmt("spelling %d", v);
    }
    if (kind != 5) std::sort(e.begin(), e.end());
    Bytes spec = explicit_spec(le, m, e, aa, b, nn, bp);
    K k(eng::params_from_der(nid(le), ref::alg_params(spec)));
    c.step(3); c.state(mix(mix(q, le), mix(kind, v))); c.note("curve %d with %s", q, what.c_str());
    if (kind == 5 && e.size() == 3 && !std::is_sorted(e.begin(), e.end())) must = false;   // exponents out of order may be refused
    if (!k) { c.check(!must || kind == 3, "curve %d with %s: parameters refused", q, what.c_str()); ERR_clear_error(); c.outcome(0); return; }
    Bytes d = eng::params_to_der(k.k), want = ref::alg_params(is_named ? a.spec(le) : spec);
    c.outcome(mix(kind, k ? 1 : 0));
    c.check(d == want, "curve %d with %s: written as %s, expected %s", q, what.c_str(), hex(d, 300).c_str(), hex(want, 300).c_str());
    K t(eng::params_from_der(nid(le), ref::alg_params(a.spec(le))));
    c.check(EVP_PKEY_parameters_eq(k.k, t.k) == (is_named ? 1 : 0), "curve %d with %s: compared with the named curve: %d", q, what.c_str(), EVP_PKEY_parameters_eq(k.k, t.k));
    ERR_clear_error();
}
// small curves are never taken for a named one
static void small(Ctx& c)
{
    int i = c.choose(ref::NTINY + kit::NEXTRA, "curve"), le = c.choose(2, "order");
    if (i >= ref::NTINY) i += 10;
    c.shard();
    K k(eng::params_from_der(nid(le), ref::alg_params(any(i).spec(le))));
    c.check((bool)k && eng::params_to_der(k.k) == ref::alg_params(any(i).spec(le)), "small curve %d is written differently", i);
    for (int q = 0; q < 10; q++) { K t(eng::params_from_der(nid(le), ref::alg_params(any(8 + q).spec(le)))); c.check(EVP_PKEY_parameters_eq(k.k, t.k) == 0, "small curve %d equals named curve %d", i, q); }
    ERR_clear_error();
    c.step(11); c.state(mix(i, le)); c.note("small curve %d", i);
}
int main(int argc, char** argv)
{
    eng::get(); eng::install_rng();
    return main_impl(argc, argv, {{"table", table}, {"named", named}, {"variation", variation}, {"small", small}});
}
