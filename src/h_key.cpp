// C07 public key codec, C08 private key and parameter codec, C09 comparison and
// copying, C10 key generation settings.
#include "kit.h"
#include <list>
using namespace mc;
using namespace kit;
using ref::Curve;

static std::string pubhex(const Any& a, const Bytes& x, const Bytes& y) { return "04" + hexs(x) + hexs(y); }
static void pt(const Curve& cv, const ref::Pt& p, Bytes& x, Bytes& y) { x = ref::be_bytes(p.x, cv.bytes_m()); y = ref::be_bytes(p.y, cv.bytes_m()); }

// ---------------------------------------------------------------- C07
static void check_pub(Ctx& c, const Any& a, bool le, int sb, const Bytes& x, const Bytes& y, const Bytes& comp)
{
    Bytes in = ref::spki(le, ref::alg_params(a.spec(le), sbox_in(sb)), ord(comp, le));
    Bytes canon = ref::spki(le, ref::alg_params(a.spec(le), sbox_out(sb)), ord(comp, le));
    K k(eng::pub_from_der(in));
    c.step(3);
    c.check((bool)k, "%s %s: public key %s (point %s) rejected", a.name.c_str(), le ? "LE" : "BE", hex(comp).c_str(), pubhex(a, x, y).c_str());
    c.check(EVP_PKEY_id(k.k) == nid(le), "wrong key type");
    eng::View v = eng::view(k.k, 1);
    c.check(on_curve(v, a), "%s: decoded key is on another curve:\n%s", a.name.c_str(), v.text.c_str());
    c.check(v.pub == pubhex(a, x, y), "%s %s: %s decoded to point %s, expected %s", a.name.c_str(), le ? "LE" : "BE", hex(comp).c_str(), v.pub.c_str(), pubhex(a, x, y).c_str());
    Bytes out = eng::pub_to_der(k.k);
    c.check(out == canon, "%s %s sbox %d: encodes to %s, expected %s", a.name.c_str(), le ? "LE" : "BE", sb, hex(out, 400).c_str(), hex(canon, 400).c_str());
    c.check(EVP_PKEY_bits(k.k) == a.m, "bits %d", EVP_PKEY_bits(k.k));
    c.outcome(hash_bytes(out));
}
static void pub_all(Ctx& c)
{
    int i = c.choose(ref::NTINY, "curve"), le = c.choose(2, "order"), sb = c.choose(4, "sbox");
    const Any& a = any(i);
    const Curve& cv = *a.cv;
    int chunk = c.choose(16, "part");
    c.shard();
    int stride = c.thorough() || cv.n < 300 || sb == 0 ? 16 : 16 * 5;
    for (uint32_t d = 1 + chunk; d < cv.n; d += stride) {
        Bytes x, y;
        pt(cv, cv.mult[d], x, y);
        check_pub(c, a, le, sb, x, y, ref::be_bytes(cv.compress(cv.mult[d]), cv.bytes_m()));
        c.state(mix(i * 2 + le, mix(d, sb)));
    }
    c.note("%s %s sbox %d part %d", a.name.c_str(), le ? "LE" : "BE", sb, chunk);
}
// every octet string of the field's length and its neighbours
static void pub_strings(Ctx& c)
{
    int i = c.choose(ref::NTINY, "curve"), le = c.choose(2, "order"), dl = c.choose(4, "length"), part = c.choose(8, "part");
    c.shard();
    const Any& a = any(i);
    const Curve& cv = *a.cv;
    int len = cv.bytes_m() + dl - 1;
    if (len == 0) { // empty string
        if (part) { c.step(); return; }
        K k(eng::pub_from_der(ref::spki(le, ref::alg_params(a.spec(le)), {})));
        c.step(); c.check(!k, "empty public key accepted"); return;
    }
    uint64_t total = 1ull << (8 * std::min(len, 2));
    // thinning: all strings of the field length; a covering set otherwise
    uint64_t stride = dl == 1 ? (cv.bytes_m() == 2 && !c.thorough() ? 3 : 1) : (len >= 2 ? (c.thorough() ? 5 : 37) : 1);
    if (dl == 1 && cv.bytes_m() == 2 && !c.thorough() && (1u << cv.f.m) > 4096) stride = 7;
    std::map<uint32_t, ref::Pt> pts;   // compressed value -> point
    static std::map<int, std::map<uint32_t, ref::Pt>> cache;
    auto& cm = cache[i];
    if (cm.empty()) {
        for (uint32_t x = 1; x < (1u << cv.f.m); x++) {
            if (cv.f.trace(x) != (int)cv.a) continue;      // only such points have a compressed form
            uint32_t xi = cv.f.inv(x), rhs = x ^ cv.a ^ cv.f.mul(cv.b, cv.f.sqr(xi));
            if (cv.f.trace(rhs)) continue;
            // half trace solves z^2+z=rhs for odd m
            uint32_t z = rhs, t = rhs;
            for (int q = 1; q <= (cv.f.m - 1) / 2; q++) { t = cv.f.sqr(cv.f.sqr(t)); z ^= t; }
            for (int s = 0; s < 2; s++) { ref::Pt p{false, x, cv.f.mul(x, z ^ s)}; cm[cv.compress(p)] = p; }
        }
        uint32_t sq = cv.b; for (int q = 1; q < cv.f.m; q++) sq = cv.f.sqr(sq);
        cm[0] = ref::Pt{false, 0, sq};
    }
    for (uint64_t v = part; v < total; v += 8 * stride) {
        for (int hi = 0; hi < (len > 2 ? 2 : 1); hi++) {
            Bytes be = ref::be_bytes(v, len);
            if (hi) be[0] ^= 0x40;
            uint64_t val = 0; for (uint8_t b : be) val = val << 8 | b;
            K k(eng::pub_from_der(ref::spki(le, ref::alg_params(a.spec(le)), ord(be, le))));
            c.step();
            auto it = val < (1u << cv.f.m) ? cm.find((uint32_t)val) : cm.end();
            bool want = len >= cv.bytes_m() && it != cm.end();
            c.check((bool)k == want, "%s %s: octet string %s %s, it %s a point", a.name.c_str(), le ? "LE" : "BE", hex(be).c_str(), k ? "accepted" : "rejected", want ? "denotes" : "does not denote");
            c.outcome(want);
            if (k) {
                Bytes x, y; pt(cv, it->second, x, y);
                Bytes out = eng::pub_to_der(k.k), canon = ref::spki(le, ref::alg_params(a.spec(le)), ord(ref::be_bytes(val, cv.bytes_m()), le));
                c.check(out == canon, "%s: %s re-encoded as %s", a.name.c_str(), hex(be).c_str(), hex(out, 200).c_str());
                if (v % 3 == 0) { eng::View w = eng::view(k.k, 1); c.step(); c.check(w.pub == pubhex(a, x, y), "%s: %s decoded to %s, expected %s", a.name.c_str(), hex(be).c_str(), w.pub.c_str(), pubhex(a, x, y).c_str()); }
            }
        }
    }
    c.state(mix(i * 2 + le, dl * 8 + part));
    c.note("%s %s octet strings of %d bytes, part %d", a.name.c_str(), le ? "LE" : "BE", len, part);
}
static void pub_named(Ctx& c)
{
    int i = 8 + c.choose(kit::NBIG, "curve"), le = c.choose(2, "order"), sb = c.choose(3, "sbox");
    int j = c.choose(c.thorough() ? 96 : 24, "multiple");
    c.shard();
    const Any& a = any(i);
    eng::BN k;
    // 1, 2, ..., n-1, n-2, ... and spread multiples
    if (j < 8) BN_set_word(k, j + 1);
    else if (j < 16) { BN_copy(k, a.n); BN_sub_word(k, j - 7); }
    else { BN_copy(k, a.n); BN_rshift(k, k, j % 64 + 1); BN_add_word(k, j * 7919u); }
    Bytes x, y;
    a.mul(k, false, x, y);
    check_pub(c, a, le, sb, x, y, a.compress(x, y));
    if (j == 20) {
        Bytes in = ref::spki(le, ref::alg_params(a.spec(le), sbox_in(sb)), ord(a.compress(x, y), le));
        long l = leak_per_run([&] { K q(eng::pub_from_der(in)); eng::pub_to_der(q.k); eng::view(q.k, 1); });
        c.check(l <= 0, "decoding, encoding and printing a public key leaks %ld allocations", l);
        Bytes bad = ref::spki(le, ref::alg_params(a.spec(le), sbox_in(sb)), Bytes(a.w() - 1, 1));
        l = leak_per_run([&] { K q(eng::pub_from_der(bad)); });
        c.check(l <= 0, "refusing a public key leaks %ld allocations", l);
    }
    c.state(mix(i * 2 + le, j * 4 + sb));
    c.note("%s %s sbox %d multiple #%d", a.name.c_str(), le ? "LE" : "BE", sb, j);
}

// ---------------------------------------------------------------- C08
static void check_priv(Ctx& c, const Any& a, bool le, int sb, const Bytes& dle, const Bytes& x, const Bytes& y)
{
    Bytes in = ref::pkcs8(le, ref::alg_params(a.spec(le), sbox_in(sb)), dle);
    Bytes mn = dle; while (mn.size() && mn.back() == 0) mn.pop_back();
    Bytes canon = ref::pkcs8(le, ref::alg_params(a.spec(le), sbox_out(sb)), mn);
    K k(eng::priv_from_der(in));
    c.step(4);
    c.check((bool)k, "%s %s sbox %d: private key %s rejected", a.name.c_str(), le ? "LE" : "BE", sb, hex(dle).c_str());
    c.check(EVP_PKEY_id(k.k) == nid(le), "wrong key type");
    eng::View v = eng::view(k.k, 2);
    c.check(on_curve(v, a), "%s: decoded key is on another curve:\n%s", a.name.c_str(), v.text.c_str());
    c.check(v.priv == eng::hx(ref::rev(dle)), "%s: private number %s decoded as %s", a.name.c_str(), hex(dle).c_str(), v.priv.c_str());
    c.check(v.pub == pubhex(a, x, y), "%s: private key %s has public point %s, expected -dG = %s", a.name.c_str(), hex(dle).c_str(), v.pub.c_str(), pubhex(a, x, y).c_str());
    Bytes out = eng::priv_to_der(k.k);
    c.check(out == canon, "%s %s sbox %d d=%s: encodes to %s, expected %s", a.name.c_str(), le ? "LE" : "BE", sb, hex(dle).c_str(), hex(out, 400).c_str(), hex(canon, 400).c_str());
    Bytes po = eng::pub_to_der(k.k);
    c.check(po == ref::spki(le, ref::alg_params(a.spec(le), sbox_out(sb)), ord(a.small ? ref::be_bytes(a.cv->compress(ref::Pt{false, (uint32_t)strtoul(hexs(x).c_str(), 0, 16), (uint32_t)strtoul(hexs(y).c_str(), 0, 16)}), a.w()) : a.compress(x, y), le)), "public part of a private key encodes to %s", hex(po, 300).c_str());
    Bytes pp = eng::params_to_der(k.k);
    c.check(pp == ref::alg_params(a.spec(le), sbox_out(sb)), "parameters encode to %s", hex(pp, 300).c_str());
    c.outcome(hash_bytes(out));
}
static void priv_all(Ctx& c)
{
    int i = c.choose(ref::NTINY, "curve"), le = c.choose(2, "order"), sb = c.choose(4, "sbox"), chunk = c.choose(16, "part");
    c.shard();
    const Any& a = any(i);
    const Curve& cv = *a.cv;
    int stride = c.thorough() || cv.n < 300 || sb == 0 ? 16 : 80;
    for (uint32_t d = 1 + chunk; d < cv.n; d += stride) {
        Bytes x, y;
        pt(cv, cv.neg(cv.mult[d]), x, y);
        check_priv(c, a, le, sb, ref::priv_le(d), x, y);
        c.state(mix(i * 2 + le, mix(d, sb)));
    }
    c.note("%s %s sbox %d part %d", a.name.c_str(), le ? "LE" : "BE", sb, chunk);
}
// every s-box of the list, public, private and parameters alone
static const int SBC[] = {0, 3, 8, 14, 18};
static void sboxes(Ctx& c, bool pr)
{
    const Any& a = any(SBC[c.choose(5, "curve")]);
    int le = c.choose(2, "order"), sb = c.choose(NSBOX, "sbox");
    c.shard();
    for (uint32_t d : {1u, 4u, 9u}) {
        Bytes x, y; eng::BN k; BN_set_word(k, d);
        a.mul(k, pr, x, y);
        if (pr) check_priv(c, a, le, sb, ref::priv_le(d), x, y); else check_pub(c, a, le, sb, x, y, a.compress(x, y));
    }
    Bytes in = ref::alg_params(a.spec(le), sbox_in(sb)), want = ref::alg_params(a.spec(le), sbox_out(sb));
    K k(eng::params_from_der(nid(le), in));
    c.check(k && eng::params_to_der(k.k) == want, "%s: parameters with s-box %d are written as %s", a.name.c_str(), sb, hex(k ? eng::params_to_der(k.k) : Bytes(), 300).c_str());
    c.step(2); c.state(mix(a.i * 2 + le, sb)); c.note("%s %s sbox %d", a.name.c_str(), le ? "LE" : "BE", sb);
}
static void pub_sbox(Ctx& c) { sboxes(c, false); }
static void priv_sbox(Ctx& c) { sboxes(c, true); }
// keys which differ in their s-box only, all pairs
static void compare_sbox(Ctx& c)
{
    const Any& a = any(SBC[c.choose(5, "curve")]);
    int le = c.choose(2, "order"), x = c.choose(NSBOX, "sbox"), kind = c.choose(3, "kind");
    c.shard();
    auto mk = [&](int sb) { return kind == 2 ? eng::params_from_der(nid(le), ref::alg_params(a.spec(le), sbox_in(sb))) : priv(a, le, (uint64_t)5, sb); };
    K k(mk(x));
    for (int y = 0; y < NSBOX; y++) {
        K q(mk(y));
        bool wp = sbox_out(x) == sbox_out(y);
        int pe = EVP_PKEY_parameters_eq(k.k, q.k), e = EVP_PKEY_eq(k.k, q.k);
        c.step(3);
        c.check((pe == 1) == wp, "s-boxes %d and %d on %s: parameters_eq %d", x, y, a.name.c_str(), pe);
        if (kind < 2) c.check((e == 1) == wp, "s-boxes %d and %d on %s: eq %d", x, y, a.name.c_str(), e);
        if (kind == 1) { // taking over the parameters
            K t(EVP_PKEY_new()); EVP_PKEY_set_type(t.k, nid(le));
            c.check(EVP_PKEY_copy_parameters(t.k, q.k) == 1 && eng::params_to_der(t.k) == ref::alg_params(a.spec(le), sbox_out(y)), "copied parameters with s-box %d are written as %s", y, hex(eng::params_to_der(t.k), 300).c_str());
            c.check((EVP_PKEY_copy_parameters(t.k, k.k) == 1) == wp, "copying s-box %d onto %d", x, y);
        }
        ERR_clear_error();
    }
    c.state(mix(a.i * 2 + le, x * 3 + kind)); c.note("%s %s sbox %d kind %d", a.name.c_str(), le ? "LE" : "BE", x, kind);
}
// zero padding of the private octet string
static void priv_pad(Ctx& c)
{
    int i = c.choose(kit::NALL, "curve"), le = c.choose(2, "order"), pad = c.choose(12, "padding");
    c.shard();
    const Any& a = any(i);
    for (uint32_t d : {1u, 2u, 3u, 5u, 10u}) {
        Bytes x, y, dl = ref::priv_le(d);
        eng::BN k; BN_set_word(k, d);
        a.mul(k, true, x, y);
        dl.resize(dl.size() + pad, 0);
        check_priv(c, a, le, 0, dl, x, y);
    }
    c.state(mix(i * 2 + le, pad)); c.note("%s padding %d", a.name.c_str(), pad);
}
static void priv_named(Ctx& c)
{
    int i = 8 + c.choose(kit::NBIG, "curve"), le = c.choose(2, "order"), sb = c.choose(3, "sbox"), j = c.choose(c.thorough() ? 60 : 14, "key");
    c.shard();
    const Any& a = any(i);
    eng::BN k;
    if (j < 4) BN_set_word(k, j ? 1ul << (16 * j - 1) : 1);
    else if (j < 8) { BN_copy(k, a.n); BN_sub_word(k, j - 3); }
    else { BN_copy(k, a.n); BN_rshift(k, k, (j - 8) % 60 + 1); BN_add_word(k, j * 104729u); }
    Bytes x, y;
    a.mul(k, true, x, y);
    Bytes d = ref::rev(eng::bn_be(k));
    check_priv(c, a, le, sb, d, x, y);
    if (j == 9) {
        Bytes in = ref::pkcs8(le, ref::alg_params(a.spec(le), sbox_in(sb)), d);
        long l = leak_per_run([&] { K q(eng::priv_from_der(in)); eng::priv_to_der(q.k); eng::view(q.k, 2); eng::view(q.k, 0); });
        c.check(l <= 0, "decoding, encoding and printing a private key leaks %ld allocations", l);
    }
    c.state(mix(i * 2 + le, j * 4 + sb));
    c.note("%s %s sbox %d key #%d", a.name.c_str(), le ? "LE" : "BE", sb, j);
}
// keys without private or public part
static void priv_absent(Ctx& c)
{
    int i = c.choose(kit::NALL, "curve"), le = c.choose(2, "order"), kind = c.choose(3, "kind"), sb = c.choose(3, "sbox");
    c.shard();
    const Any& a = any(i);
    Bytes x, y; eng::BN k; BN_set_word(k, 3); a.mul(k, false, x, y);
    Bytes sp = ref::spki(le, ref::alg_params(a.spec(le), sbox_in(sb)), ord(a.compress(x, y), le)), pd = ref::alg_params(a.spec(le), sbox_in(sb));
    auto make = [&]() -> EVP_PKEY* {
        if (kind == 0) return eng::pub_from_der(sp);
        if (kind == 1) return eng::params_from_der(nid(le), pd);
        EVP_PKEY* e = EVP_PKEY_new(); EVP_PKEY_set_type(e, nid(le)); return e;
    };
    auto ops = [&](Ctx* c) {
        K q(make());
        Bytes p8 = eng::priv_to_der(q.k), pub, pr;
        if (kind != 0) pub = eng::pub_to_der(q.k);
        if (kind != 2) pr = eng::params_to_der(q.k);
        if (c) {
            c->check((bool)q, "cannot make key");
            c->check(p8.empty(), "a key without private part was encoded as private key %s", hex(p8, 200).c_str());
            if (kind != 0) c->check(pub.empty(), "a key without public part was encoded as public key");
            if (kind != 2) c->check(pr == ref::alg_params(a.spec(le), sbox_out(sb)), "parameters encode to %s", hex(pr, 300).c_str());
            Bytes sig;
            c->check(eng::sign(q.k, Bytes(32, 1), sig) <= 0, "signing without private key succeeded");
            if (kind) c->check(eng::verify(q.k, Bytes(32, 1), ref::octet(Bytes(2 * a.nbytes(), 1))) <= 0, "verifying without public key succeeded");
        }
        ERR_clear_error();
    };
    ops(&c);
    c.step(5);
    long l = leak_per_run([&] { ops(nullptr); });
    c.check(l <= 0, "failing to encode a key without private part leaks %ld allocations", l);
    c.state(mix(i * 2 + le, kind * 4 + sb)); c.outcome(kind);
    c.note("%s %s kind %d", a.name.c_str(), le ? "LE" : "BE", kind);
}
// parameters on their own, valid and invalid
static Bytes spec_raw(bool le, const Bytes& m, const Bytes& poly, const Bytes& a, const Bytes& b, const Bytes& n, const Bytes& bp)
{
    return ref::seq({ref::seq({m, poly}), a, ref::octet(ord(b, le)), n, ref::octet(ord(bp, le))});
}
static void params(Ctx& c)
{
    int i = c.choose(ref::NTINY, "curve"), le = c.choose(2, "order"), mode = c.choose(12, "variation");
    const Any& a = any(i);
    const Curve& cv = *a.cv;
    int arg = c.choose(mode == 1 ? 70 : mode == 2 ? 8 : mode == 3 ? 6 : mode == 5 ? 12 : mode == 6 ? (1 << cv.f.m) > 256 ? 64 : 64 : mode == 7 ? 8 : mode == 9 ? 10 : mode == 10 ? 24 : mode == 11 ? 20 : 1, "arg");
    c.shard();
    Bytes M = ref::integer(cv.f.m), A = ref::integer(cv.a), N = ref::integer(cv.n), B = ref::be_bytes(cv.b, a.w()), G = ref::be_bytes(cv.compress(cv.G), a.w());
    auto polyv = [&](std::vector<int> e) { return e.size() == 1 ? ref::integer(e[0]) : ref::seq({ref::integer(e[0]), ref::integer(e[1]), ref::integer(e[2])}); };
    Bytes P = polyv(cv.exps), der, canon;
    int want = 1;    // 1 accept with 'canon', 0 reject
    canon = ref::alg_params(a.spec(le));
    switch (mode) {
    case 0: der = canon; break;
    case 1: { Bytes sb = ref::custom_sbox(1); sb.resize(arg, 0x5a); der = ref::seq({a.spec(le), ref::octet(sb)}); want = arg == 64; canon = der; break; }  // s-box length
    case 2: { // unknown / foreign curve identifiers
        static const char* o[] = {"1.2.804.2.1.1.1.1.3.1.1.2.10", "1.2.804.2.1.1.1.1.3.1.1", "1.2.840.10045.3.1.7", "1.3.132.0.1", "2.5.4.3", "1.2.804.2.1.1.1.1.3.1.1.2", "1.2.804.2.1.1.1.1.2.1", "1.2.804.2.1.1.1.1.3.1.2.2.1"};
        der = ref::seq({ref::oid(o[arg])}); want = 0; break; }
    case 3: { static const int av[] = {0, 1, 2, 3, -1, 255}; der = ref::alg_params(spec_raw(le, M, P, ref::integer(av[arg]), B, N, G)); want = av[arg] == (int)cv.a ? 1 : (av[arg] == 0 || av[arg] == 1) ? 2 : 0; break; }
    case 4: { Bytes lb = B; lb.insert(lb.begin(), 3, 0); der = ref::alg_params(spec_raw(le, M, P, A, lb, N, G)); break; }  // longer b, same value
    case 5: { // exponents out of order, equal, zero, above the degree
        std::vector<int> e = cv.exps;
        int m = cv.f.m;
        want = 0;
        if (e.size() == 1) {
            static const int k[] = {0, -1, 100000, 1 << 30};
            if (arg < 4) e[0] = k[arg]; else if (arg == 4) e[0] = m; else if (arg == 5) e[0] = m + 1; else if (arg == 6) e[0] = m + 2; else if (arg == 7) e[0] = 2 * m; else { e[0] = -(arg); }
        } else {
            if (arg == 0) e[0] = 0; else if (arg == 1) e[1] = 0; else if (arg == 2) e[2] = 0; else if (arg == 3) e[0] = e[1]; else if (arg == 4) e[2] = e[1];
            else if (arg == 5) e[2] = m; else if (arg == 6) e[2] = m + 1; else if (arg == 7) e[0] = m + 1; else if (arg == 8) e[1] = -1; else if (arg == 9) e[2] = 1 << 29; else if (arg == 10) e = {m, m, m}; else e = {-1, -2, -3};
        }
        der = ref::alg_params(spec_raw(le, M, polyv(e), A, B, N, G)); break; }
    case 6: { // base points: the spec is accepted iff the string denotes a point
        uint32_t v = (uint32_t)((uint64_t)arg * ((1u << cv.f.m) - 1) / 63);
        der = ref::alg_params(spec_raw(le, M, P, A, B, N, ref::be_bytes(v, a.w())));
        canon = der; want = -1;
        if (v == 0) { want = 2; break; }
        uint32_t x = v & ~1u; if (cv.f.trace(x) != (int)cv.a) x |= 1;
        want = x != 0 && cv.f.trace(x ^ cv.a ^ cv.f.mul(cv.b, cv.f.sqr(cv.f.inv(x)))) == 0;
        break; }
    case 7: { Bytes g = G; if (arg < (int)g.size()) g.resize(arg); else g = Bytes(arg, 0xff); der = ref::alg_params(spec_raw(le, M, P, A, B, N, g)); want = 0; break; }   // short or oversized base point
    case 8: der = ref::alg_params(spec_raw(le, M, P, A, Bytes(a.w(), 0), N, G)); want = 3; break;   // b = 0 is singular: unspecified
    case 9: { // degree out of range or not the polynomial's
        static const long mv[] = {0, -1, 1, 2, 100000, 1000000, 1 << 30, 662, 4096, 1 << 20};
        der = ref::alg_params(spec_raw(le, ref::integer(mv[arg]), P, A, B, N, G)); want = 0; break; }
    case 10: { // numbers that only look right when cut to 32 bits
        uint64_t hi = 1ull << (32 + arg);
        Bytes big = ref::integer_be(ref::be_bytes(hi + cv.f.m, 8)), bigk = ref::integer_be(ref::be_bytes(hi + cv.exps[0], 8));
        Bytes p2 = cv.exps.size() == 1 ? bigk : ref::seq({bigk, ref::integer(cv.exps[1]), ref::integer(cv.exps[2])});
        der = ref::alg_params(arg % 2 ? spec_raw(le, big, P, A, B, N, G) : spec_raw(le, M, p2, A, B, N, G)); want = 0; break; }
    case 11: { // named curves
        int q = arg % 10; const Any& nm = any(8 + q);
        if (arg < 10) der = canon = ref::alg_params(nm.spec(le), sbox_out(i % 3));
        else { // written out explicitly: recognised
            const curves::Row& r = curves::T[q];
            std::vector<int> e; for (int t : r.e) if (t) e.insert(e.begin(), t);
            Bytes x, y; eng::BN one; BN_one(one); nm.mul(one, false, x, y);
            Bytes b = ref::unhex(r.b), n = ref::unhex(r.n);
            der = ref::alg_params(spec_raw(le, ref::integer(r.m), polyv(e), ref::integer(r.a), b, ref::integer_be(n), nm.compress(x, y)), sbox_in(i % 3));
            canon = ref::alg_params(nm.spec(le), sbox_out(i % 3));
        }
        K k(eng::params_from_der(nid(le), der));
        c.check((bool)k, "parameters of named curve %d (%s) rejected", q, arg < 10 ? "by name" : "explicit");
        eng::View v = eng::view(k.k, 0);
        c.check(on_curve(v, nm), "parameters of named curve %d decoded to another curve", q);
        break; }
    }
    K k(eng::params_from_der(nid(le), der));
    c.step(2);
    if (want < 2) c.check((bool)k == (want == 1), "%s %s variation %d/%d: parameters %s %s", a.name.c_str(), le ? "LE" : "BE", mode, arg, hex(der, 300).c_str(), k ? "accepted" : "rejected");
    if (k) {
        Bytes out = eng::params_to_der(k.k);
        if (want == 1) c.check(out == canon, "parameters %s re-encoded as %s, expected %s", hex(der, 300).c_str(), hex(out, 300).c_str(), hex(canon, 300).c_str());
        else if (want == 2) { // accepted and unusual: at least stable
            K k2(eng::params_from_der(nid(le), out));
            c.check((bool)k2 && eng::params_to_der(k2.k) == out, "re-encoding is not stable");
        }
    }
    if (arg % 4 == 0) {
        long l = leak_per_run([&] { K q(eng::params_from_der(nid(le), der)); if (q) eng::params_to_der(q.k); ERR_clear_error(); });
        c.check(l <= 0, "parameters %d/%d leak %ld allocations", mode, arg, l);
    }
    c.state(mix(i * 2 + le, mode * 100 + arg)); c.outcome(mix(mode, (bool)k));
    c.note("%s %s variation %d/%d %s", a.name.c_str(), le ? "LE" : "BE", mode, arg, k ? "accepted" : "rejected");
}

// ---------------------------------------------------------------- C09
struct Desc { int curve, le, sb, kind, d; };   // kind 0 private, 1 public, 2 parameters, 3 typed but empty, 4 generated
static const int CURVES[] = {0, 2, 8};
static EVP_PKEY* build(const Desc& k)
{
    const Any& a = any(CURVES[k.curve]);
    Bytes pd = ref::alg_params(a.spec(k.le), sbox_in(k.sb));
    if (k.kind == 0) return eng::priv_from_der(ref::pkcs8(k.le, pd, ref::priv_le(k.d)));
    if (k.kind == 1) {
        Bytes x, y; eng::BN d; BN_set_word(d, k.d);
        a.mul(d, true, x, y);
        return eng::pub_from_der(ref::spki(k.le, pd, ord(a.compress(x, y), k.le)));
    }
    if (k.kind == 2) return eng::params_from_der(nid(k.le), pd);
    if (k.kind == 3) { EVP_PKEY* e = EVP_PKEY_new(); EVP_PKEY_set_type(e, nid(k.le)); return e; }
    // generated: the private number is forced to k.d through the random source
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new_id(nid(k.le), eng::get());
    EVP_PKEY* r = nullptr;
    Bytes sb = sbox_in(k.sb);
    eng::RngScope rs;
    int w = a.nbytes();
    rs.r.byte = [&](size_t i) -> uint8_t { return i < (size_t)w ? (i == (size_t)w - 1 ? k.d : 0) : (uint8_t)(i | 1); };
    if (EVP_PKEY_keygen_init(x) > 0 && EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, a.g) > 0 && (sb.empty() || EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, sb.data()) > 0))
        EVP_PKEY_keygen(x, &r);
    EVP_PKEY_CTX_free(x);
    return r;
}
static std::vector<Desc> descs()
{
    std::vector<Desc> v;
    for (int le = 0; le < 2; le++) for (int cu = 0; cu < 3; cu++) for (int sb = 0; sb < 4; sb++) for (int kind = 0; kind < 5; kind++) for (int d = 3; d <= 4; d++) {
        if (kind == 2 && d == 4) continue;
        if (kind == 3 && (d == 4 || sb || cu)) continue;
        v.push_back({cu, le, sb, kind, d});
    }
    return v;
}
static bool has_params(const Desc& d) { return d.kind != 3; }
static bool has_pub(const Desc& d) { return d.kind != 3 && d.kind != 2; }
static bool same_params(const Desc& x, const Desc& y) { return has_params(x) && has_params(y) && x.le == y.le && x.curve == y.curve && (x.sb == y.sb || (x.sb < 2 && y.sb < 2)); }
static void compare(Ctx& c)
{
    static std::vector<Desc> ds = descs();
    int i = c.choose((int)ds.size(), "first");
    c.shard();
    K a(build(ds[i]));
    c.check((bool)a, "cannot build key %d", i);
    static std::vector<EVP_PKEY*> pool;
    if (pool.empty()) for (auto& d : ds) pool.push_back(build(d));
    for (size_t j = 0; j < ds.size(); j++) {
        int pe = EVP_PKEY_parameters_eq(a.k, pool[j]), pe2 = EVP_PKEY_parameters_eq(pool[j], a.k);
        int e = EVP_PKEY_eq(a.k, pool[j]), e2 = EVP_PKEY_eq(pool[j], a.k);
        c.step(4);
        const Desc &x = ds[i], &y = ds[j];
        std::string w = fmt("keys {curve %d order %d sbox %d kind %d d %d} and {curve %d order %d sbox %d kind %d d %d}", x.curve, x.le, x.sb, x.kind, x.d, y.curve, y.le, y.sb, y.kind, y.d);
        bool wp = same_params(x, y), we = wp && has_pub(x) && has_pub(y) && x.d == y.d;
        c.check((pe == 1) == wp && (pe2 == 1) == wp, "%s: parameters_eq %d/%d, expected %sequal", w.c_str(), pe, pe2, wp ? "" : "not ");
        c.check((e == 1) == we && (e2 == 1) == we, "%s: eq %d/%d, expected %sequal", w.c_str(), e, e2, we ? "" : "not ");
        c.outcome(mix(pe + 10, e + 10));
    }
    c.state(i);
    c.note("key %d against %zu keys", i, ds.size());
}
// parameters which differ in one component only: base point, b, a, reduction polynomial, order, byte order, s-box;
// and the same public point on different parameters
static void compare_near(Ctx& c)
{
    int i = c.choose(ref::NTINY + 10, "curve"), le = c.choose(2, "order"), d0 = c.choose(3, "private number");
    c.shard();
    struct V { Bytes spec; std::string id; uint32_t k; int le, sb; };
    std::vector<V> v;
    std::vector<std::pair<const V*, K>> keys;
    if (i >= ref::NTINY) { // a named curve, written as its name and in full
        const Any& a = any(i);
        const curves::Row& r = curves::T[i - 8];
        eng::BN X, Y, b;
        Bytes gen; { BIGNUM *gx = X, *gy = Y, *bb = b; BN_hex2bn(&gx, r.px); BN_hex2bn(&gy, r.py); BN_hex2bn(&bb, r.b); gen = a.compress(eng::bn_be(X, a.w()), eng::bn_be(Y, a.w())); }
        std::vector<int> e; for (int q : r.e) if (q) e.insert(e.begin(), q);
        for (int full = 0; full < 2; full++) for (int sb = 0; sb < 3; sb++)
            v.push_back({full ? spec_raw(le, ref::integer(r.m), e.size() == 1 ? ref::integer(e[0]) : ref::seq({ref::integer(e[0]), ref::integer(e[1]), ref::integer(e[2])}), ref::integer(r.a), eng::bn_be(b, a.w()), ref::integer_be(eng::bn_be(a.n)), gen) : a.spec(le), a.name, 1, le, sb});
    } else {
        const Curve& o = ref::tiny(i);
        for (int ol = 0; ol < 2; ol++) for (int sb = 0; sb < 3; sb++) {
            if ((ol != le) + (sb != 0) == 2 && sb == 2) continue;
            for (uint32_t k = 1; k < o.n && k <= (ol == le && sb == 0 ? 12u : 2u); k++) {
                Curve g = o; g.G = o.mult[k];
                v.push_back({ref::custom_spec(g, ol), fmt("%s %ug", o.name.c_str(), k), k, ol, sb});
            }
        }
        // the same base point with another order
        for (int dn : {-2, 2}) { Curve g = o; g.n = o.n + dn; v.push_back({ref::custom_spec(g, le), fmt("%s order %u", o.name.c_str(), g.n), 0, le, 0}); }
        // the same field and the other A, or another b
        for (int da = 0; da < 2; da++) for (int nb = 0; nb < 2; nb++) {
            Curve g = ref::make_curve(o.f.m, o.exps, o.a ^ da, nb, false);
            if (!g.n || g.a == o.a && g.b == o.b) continue;
            v.push_back({ref::custom_spec(g, le), g.name, 0, le, 0});
        }
        // other fields
        for (int j = 0; j < ref::NTINY; j++) if (j != i) v.push_back({ref::custom_spec(ref::tiny(j), le), ref::tiny(j).name, 0, le, 0});
    }
    int rejected = 0;
    for (auto& x : v) {
        Bytes pd = ref::alg_params(x.spec, sbox_in(x.sb));
        int d = d0 + 1;
        EVP_PKEY* k = d0 == 2 ? eng::params_from_der(nid(x.le), pd) : eng::priv_from_der(ref::pkcs8(x.le, pd, ref::priv_le(d)));
        if (!k) { ERR_clear_error(); rejected++; c.check(x.id.find("order") != std::string::npos, "key on %s (%s) rejected", x.id.c_str(), hex(x.spec, 600).c_str()); continue; }
        keys.emplace_back(&x, K(k));
        // the same point through another base point: (k, d) and (1, kd)
        if (x.k > 1 && d0 < 2 && x.le == le && !x.sb) {
            static std::list<V> extra;
            extra.push_back({v[0].spec, v[0].id + fmt(" d=%u", x.k * d), 1, le, 0});
            const Curve& o = ref::tiny(i);
            uint32_t e = (uint32_t)((uint64_t)x.k * d % o.n);
            for (auto& y : v) if (y.k == 1 && y.le == le && y.sb == 0) { extra.back().spec = y.spec; extra.back().id = y.id; }
            if (!e || (int)e == d) continue;
            extra.back().id += fmt(" d=%u", e);
            EVP_PKEY* q = eng::priv_from_der(ref::pkcs8(le, ref::alg_params(extra.back().spec), ref::priv_le(e)));
            c.check(q, "private number %u rejected", e);
            if (q) keys.emplace_back(&extra.back(), K(q));
        }
    }
    auto base = [](const V* x) { return x->id.substr(0, x->id.find(" d=")); };
    for (auto& x : keys) for (auto& y : keys) {
        bool wp = base(x.first) == base(y.first) && x.first->le == y.first->le && ((x.first->sb < 2 && y.first->sb < 2) || x.first->sb == y.first->sb);
        bool we = x.second.k == y.second.k || (wp && d0 < 2 && x.first->id == y.first->id);
        int pe = EVP_PKEY_parameters_eq(x.second.k, y.second.k), e = EVP_PKEY_eq(x.second.k, y.second.k);
        c.step(2);
        std::string w = fmt("{%s order %d sbox %d} and {%s order %d sbox %d}", x.first->id.c_str(), x.first->le, x.first->sb, y.first->id.c_str(), y.first->le, y.first->sb);
        c.check((pe == 1) == wp, "%s: parameters_eq %d, expected %sequal", w.c_str(), pe, wp ? "" : "not ");
        c.check((e == 1) == we, "%s: eq %d, expected %sequal", w.c_str(), e, we ? "" : "not ");
        // copying onto a key which has them succeeds only if they are equal
        if (&x - &keys[0] < 16 && &y - &keys[0] < 32) {
            c.check((EVP_PKEY_copy_parameters(x.second.k, y.second.k) == 1) == wp, "%s: copy_parameters, expected %s", w.c_str(), wp ? "success" : "failure");
            ERR_clear_error();
        }
    }
    c.state(mix(i * 2 + le, d0)); c.outcome(mix(keys.size(), rejected));
    c.note("%s: %zu keys, all pairs (%d parameter sets rejected)", any(i).name.c_str(), keys.size(), rejected);
}
// all sequences of parameter copies between four keys
static void copy_seq(Ctx& c)
{
    static const Desc init[][4] = {
        {{0, 1, 0, 3, 0}, {0, 1, 2, 0, 3}, {1, 1, 0, 1, 3}, {0, 1, 0, 3, 0}},
        {{0, 0, 0, 3, 0}, {0, 0, 3, 2, 3}, {2, 0, 2, 0, 3}, {0, 1, 2, 0, 3}},
        {{0, 1, 0, 3, 0}, {0, 1, 1, 4, 3}, {0, 1, 0, 0, 3}, {0, 1, 2, 4, 3}},
    };
    int s = c.choose(3, "initial keys");
    int depth = c.thorough() ? 4 : 3;
    std::vector<int> op;
    for (int q = 0; q < depth; q++) { op.push_back(c.choose(12, "copy")); if (q == 0) c.shard(); }
    std::vector<Desc> m(init[s], init[s] + 4);
    auto play = [&](Ctx* c) {
        EVP_PKEY* k[4];
        std::vector<Desc> md = m;
        for (int q = 0; q < 4; q++) k[q] = build(m[q]);
        struct F { EVP_PKEY** k; ~F() { for (int q = 0; q < 4; q++) EVP_PKEY_free(k[q]); } } f{k};
        for (int o : op) {
            int to = o / 3, from = o % 3; if (from >= to) from++;
            int rc = EVP_PKEY_copy_parameters(k[to], k[from]);
            bool want;
            if (md[to].le != md[from].le || !has_params(md[from])) want = false;
            else if (has_params(md[to])) want = same_params(md[to], md[from]);
            else { want = true; md[to] = md[from]; md[to].kind = 2; }
            if (!c) continue;
            c->step();
            c->check((rc == 1) == want, "copying parameters of key %d to key %d returned %d, expected %s", from, to, rc, want ? "success" : "failure");
            for (int q = 0; q < 4; q++) {
                if (!has_params(md[q])) { c->check(EVP_PKEY_missing_parameters(k[q]) != 0, "an empty key is reported to have parameters"); continue; }
                c->check(EVP_PKEY_missing_parameters(k[q]) == 0, "key %d is reported to lack parameters", q);
                Bytes der = eng::params_to_der(k[q]), exp = ref::alg_params(any(CURVES[md[q].curve]).spec(md[q].le), sbox_out(md[q].sb));
                c->check(der == exp, "after the copy key %d has parameters %s, expected %s", q, hex(der, 200).c_str(), hex(exp, 200).c_str());
                if (md[q].kind == 0) { eng::View v = eng::view(k[q], 2); c->check(v.ok && v.priv == eng::hx((uint64_t)md[q].d), "private number of key %d changed", q); }
            }
            for (int q = 0; q < 4; q++) for (int r = 0; r < 4; r++) {
                if (!has_params(md[q]) || !has_params(md[r])) continue;
                c->check((EVP_PKEY_parameters_eq(k[q], k[r]) == 1) == same_params(md[q], md[r]), "after the copy parameters_eq(%d,%d) is wrong", q, r);
            }
            // independence: freeing and rebuilding the source must not disturb the target
            EVP_PKEY_free(k[from]); k[from] = md[from].kind == 2 && m[from].kind == 3 ? eng::params_from_der(nid(md[from].le), ref::alg_params(any(CURVES[md[from].curve]).spec(md[from].le), sbox_in(md[from].sb))) : build(md[from]);
        }
        ERR_clear_error();
    };
    play(&c);
    uint64_t h = s; for (int o : op) h = mix(h, o);
    c.state(h); c.outcome(h % 7);
    if (h % 16 == 0) { long l = leak_per_run([&] { play(nullptr); }); c.check(l <= 0, "copying parameters leaks %ld allocations", l); }
    c.note("set %d copies %d %d %d", s, op[0], op[1], op[2]);
}

// ---------------------------------------------------------------- C10
struct Model { int curve = -1, sb = 0; };     // curve index for any(); -1: default
static void check_gen(Ctx& c, EVP_PKEY_CTX* x, bool le, const Model& m)
{
    EVP_PKEY* r = nullptr;
    int rc = EVP_PKEY_keygen(x, &r);
    K k(r);
    c.check(rc > 0 && k, "key generation failed (curve %d sbox %d)", m.curve, m.sb);
    const Any& a = any(m.curve < 0 ? 14 : m.curve);
    c.check(EVP_PKEY_id(k.k) == nid(le), "generated key has type %d", EVP_PKEY_id(k.k));
    eng::View v = eng::view(k.k, 2);
    c.check(on_curve(v, a), "generated key is not on the expected curve %s:\n%s", a.name.c_str(), v.text.c_str());
    Bytes pd = eng::params_to_der(k.k);
    c.check(pd == ref::alg_params(a.spec(le), sbox_out(m.sb)), "generated key has parameters %s, expected s-box %d", hex(pd, 200).c_str(), m.sb);
    eng::BN d; BIGNUM* dp = d.b; BN_hex2bn(&dp, v.priv.c_str());
    c.check(!BN_is_zero(d) && BN_cmp(d, a.n) < 0, "private number %s outside 1..n-1", v.priv.c_str());
    Bytes X, Y; a.mul(d, true, X, Y);
    c.check(v.pub == pubhex(a, X, Y), "generated public point is not -dG");
    c.outcome(mix(m.curve + 2, m.sb));
}
static const char* hex128(int which)
{
    static std::string s[3];
    if (s[which].empty()) s[which] = hexs(ref::custom_sbox(which));
    return s[which].c_str();
}
static void gen_seq(Ctx& c)
{
    int le = c.choose(2, "type");
    int depth = c.thorough() ? 5 : 4;
    enum { NOPS = 19 };
    std::vector<int> op;
    for (int q = 0; q < depth; q++) {
        int o = c.choose(NOPS, "op");
        op.push_back(o);
        if (q == 1) c.shard();
    }
    auto play = [&](Ctx* cc) {
        // libcrypto 3.0 cannot duplicate a context in its key generation state, so
        // the context also gets a key and is switched to signing around each copy
        static EVP_PKEY* any_key[2] = {priv(any(1), false, 5), priv(any(1), true, 5)};
        EVP_PKEY_CTX* x[2] = {EVP_PKEY_CTX_new(any_key[le], eng::get()), nullptr};
        struct F { EVP_PKEY_CTX** x; ~F() { EVP_PKEY_CTX_free(x[0]); EVP_PKEY_CTX_free(x[1]); ERR_clear_error(); } } f{x};
        Model m[2];
        EVP_PKEY_keygen_init(x[0]);
        int cur = 0;
        std::string badbox(hex128(1)); badbox.pop_back();
        for (int o : op) {
            int rc = 1, want = 1;
            auto ctrl = [&](int cmd, int p1, void* p2) { return EVP_PKEY_CTX_ctrl(x[cur], -1, EVP_PKEY_OP_KEYGEN, cmd, p1, p2); };
            auto str = [&](const char* a, const char* b) { return EVP_PKEY_CTX_ctrl_str(x[cur], a, b); };
            static Bytes box1 = ref::custom_sbox(1), box2 = ref::custom_sbox(2), dflt(ref::DEFAULT_SBOX, ref::DEFAULT_SBOX + 64);
            switch (o) {
            case 0: rc = ctrl(CTRL_CURVE, 0, any(0).g); m[cur].curve = 0; break;
            case 1: rc = ctrl(CTRL_CURVE, 0, any(5).g); m[cur].curve = 5; break;
            case 2: rc = str("curve", "uacurve0"); m[cur].curve = 8; break;
            case 3: rc = str("curve", "uacurve1"); m[cur].curve = 9; break;
            case 4: rc = str("curve", "nosuchcurve"); want = 0; break;
            case 5: rc = str("curve", "sect163k1"); want = 0; break;
            case 6: rc = ctrl(CTRL_CURVE, 0, nullptr); want = 0; break;
            case 7: rc = ctrl(CTRL_SBOX, 64, box1.data()); m[cur].sb = 2; break;
            case 8: rc = ctrl(CTRL_SBOX, 63, box2.data()); want = 0; break;
            case 9: rc = ctrl(CTRL_SBOX, 64, nullptr); want = 0; break;
            case 10: rc = str("sbox", hex128(2)); m[cur].sb = 3; break;
            case 11: rc = str("sbox", badbox.c_str()); want = 0; break;
            case 12: rc = str("sbox", (std::string(hex128(1)) + "0").c_str()); want = 0; break;
            case 13: rc = str("sbox", (std::string(hex128(1)) + "zz").c_str()); want = 0; break;
            case 14: rc = str("sbox", ("-" + badbox).c_str()); want = 0; break;
            case 15: rc = ctrl(CTRL_SBOX, 64, dflt.data()); m[cur].sb = 1; break;
            case 16: // continue on a duplicate
                EVP_PKEY_CTX_free(x[1 - cur]);
                EVP_PKEY_sign_init(x[cur]);
                x[1 - cur] = EVP_PKEY_CTX_dup(x[cur]);
                if (cc) cc->check(x[1 - cur] != nullptr, "cannot duplicate the context");
                EVP_PKEY_keygen_init(x[cur]); EVP_PKEY_keygen_init(x[1 - cur]);
                m[1 - cur] = m[cur]; cur = 1 - cur; break;
            case 17: if (x[1 - cur]) cur = 1 - cur; break;     // go back to the other context
            case 18: if (cc) check_gen(*cc, x[cur], le, m[cur]); else { EVP_PKEY* r = nullptr; EVP_PKEY_keygen(x[cur], &r); EVP_PKEY_free(r); } break;
            }
            if (!cc) continue;
            cc->step();
            cc->check((rc > 0) == want, "operation %d returned %d, expected %s", o, rc, want ? "success" : "failure");
        }
        if (cc) { for (int q = 0; q < 2; q++) if (x[q]) { check_gen(*cc, x[q], le, m[q]); cc->step(); } cc->state(mix(mix(m[0].curve + 1, m[0].sb), x[1] ? mix(m[1].curve + 1, m[1].sb + 8) : 0)); }
    };
    play(&c);
    uint64_t h = le; for (int o : op) h = mix(h, o);
    c.state(h);
    if (h % 128 == 0) { long l = leak_per_run([&] { play(nullptr); }); c.check(l <= 0, "the sequence leaks %ld allocations", l); }
    std::string t; for (int o : op) t += fmt(" %d", o);
    c.note("type %d ops%s", le, t.c_str());
}
// every named curve by name, with and without s-box
static void gen_named(Ctx& c)
{
    int le = c.choose(2, "type"), i = c.choose(kit::NBIG, "curve"), sb = c.choose(NSBOX, "sbox"), how = c.choose(2, "how");
    c.shard();
    if (i > 9 && how == 0) { c.step(); c.note("no name"); return; }
    if (sb == 13 && how == 0) { c.step(); c.note("an s-box of zeros is no permutation: as text it may be refused"); return; }
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new_id(nid(le), eng::get());
    struct F { EVP_PKEY_CTX* x; ~F() { EVP_PKEY_CTX_free(x); } } f{x};
    c.check(EVP_PKEY_keygen_init(x) > 0, "keygen init");
    Model m; m.curve = 8 + i; m.sb = sb;
    Bytes box = sbox_in(sb);
    if (how == 0) c.check(EVP_PKEY_CTX_ctrl_str(x, "curve", fmt("uacurve%d", i).c_str()) > 0, "curve name uacurve%d refused", i);
    else c.check(EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, any(8 + i).g) > 0, "curve refused");
    if (sb) c.check((how == 0 ? EVP_PKEY_CTX_ctrl_str(x, "sbox", hexs(box).c_str()) : EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, CTRL_SBOX, 64, box.data())) > 0, "s-box refused");
    for (int q = 0; q < 3; q++) check_gen(c, x, le, m);
    c.step(5); c.state(mix(le * 10 + i, sb * 2 + how));
    c.note("uacurve%d sbox %d how %d", i, sb, how);
}
// all random draws on small curves: the private number is uniform over 1..n-1
static void gen_all(Ctx& c)
{
    static const int cs[] = {0, 1, 2, 3, 7};
    int i = cs[c.choose(5, "curve")], le = c.choose(2, "type"), part = c.choose(2, "part");
    c.shard();
    (void)part;
    const Any& a = any(i);
    const Curve& cv = *a.cv;
    std::vector<int> hist(cv.n, 0);
    EVP_PKEY_CTX* x = EVP_PKEY_CTX_new_id(nid(le), eng::get());
    struct F { EVP_PKEY_CTX* x; ~F() { EVP_PKEY_CTX_free(x); } } f{x};
    EVP_PKEY_keygen_init(x);
    EVP_PKEY_CTX_ctrl(x, -1, EVP_PKEY_OP_KEYGEN, CTRL_CURVE, 0, a.g);
    for (int b0 = 0; b0 < 256; b0++) {
        std::string got[3];
        for (int t = 0; t < 3; t++) {
            eng::RngScope rs;
            rs.r.byte = [&](size_t q) -> uint8_t { return q == 0 ? (uint8_t)b0 : (uint8_t)(t * 2 + 1); };
            EVP_PKEY* r = nullptr;
            int rc = EVP_PKEY_keygen(x, &r);
            K k(r);
            c.step();
            c.check(rc > 0 && k, "key generation failed on %s, first random byte %d", a.name.c_str(), b0);
            eng::View v = eng::view(k.k, 2);
            got[t] = v.priv;
            uint32_t d = (uint32_t)strtoul(v.priv.c_str(), nullptr, 16);
            c.check(d > 0 && d < cv.n, "private number %u", d);
            Bytes X, Y; pt(cv, cv.neg(cv.mult[d]), X, Y);
            c.check(v.pub == pubhex(a, X, Y), "public point of %u is %s", d, v.pub.c_str());
            c.outcome(d);
        }
        if (got[0] == got[1] && got[1] == got[2]) hist[strtoul(got[0].c_str(), nullptr, 16)]++;
    }
    int want = hist[1];
    for (uint32_t d = 1; d < cv.n; d++) c.check(hist[d] == want && want > 0, "private number %u drawn %d times out of 256, 1 drawn %d times: not uniform (%s)", d, hist[d], want, a.name.c_str());
    c.state(i * 2 + le); c.note("%s: every private number %d times", a.name.c_str(), want);
}
int main(int argc, char** argv)
{
    eng::get(); eng::install_rng();
    std::string p = arg_prop(argc, argv);
    std::vector<Group> g;
    if (p == "C07") g = {{"pub_all", pub_all}, {"pub_strings", pub_strings}, {"pub_named", pub_named}, {"pub_sbox", pub_sbox}};
    else if (p == "C08") g = {{"priv_all", priv_all}, {"priv_pad", priv_pad}, {"priv_named", priv_named}, {"priv_sbox", priv_sbox}, {"priv_absent", priv_absent}, {"params", params}};
    else if (p == "C09") g = {{"compare", compare}, {"compare_near", compare_near}, {"compare_sbox", compare_sbox}, {"copy_seq", copy_seq}};
    else g = {{"gen_named", gen_named}, {"gen_all", gen_all}, {"gen_seq", gen_seq}};
    return main_impl(argc, argv, g);
}
