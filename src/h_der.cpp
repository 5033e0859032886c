// C24 malformed keys, parameters, cipher parameters, certificates and signatures.
#include "stores.h"
#include <openssl/pem.h>
#include <unistd.h>
using namespace mc;
using namespace kit;
using namespace st;
using ref::Curve;

enum What { SPKI, PKCS8, PARAMS, SIGNATURE, CERT, CPARAMS };
struct Obj { std::string name; What what; bool le; Bytes der; int curve; };

// self-signed certificate on a small curve
static Bytes signed_cert(int i, bool le)
{
    const Any& a = any(i);
    auto name = [&](const char* s) { return ref::seq({ref::der(0x31, ref::seq({ref::oid("2.5.4.3"), ref::der(0x0c, S(s))}))}); };
    Bytes x, y; eng::BN d; BN_set_word(d, 7); a.mul(d, true, x, y);
    Bytes alg = ref::seq({ref::oid(le ? ref::OID_LE : ref::OID_BE)});
    Bytes spki = ref::spki(le, ref::alg_params(a.spec(le), sbox_in(0)), ord(a.compress(x, y), le));
    Bytes val = ref::seq({ref::der(0x17, S("200101000000Z")), ref::der(0x17, S("300101000000Z"))});
    Bytes tbs = ref::seq({ref::der(0xa0, ref::integer(2)), ref::integer(3), alg, name("A"), val, name("A"), spki});
    K k(priv(a, le, (uint64_t)7));
    Bytes sig; eng::RngScope rs; rs.r.byte = [](size_t q) { return (uint8_t)(q * 5 + 3); };
    eng::sign(k.k, ref::hash(tbs), sig);
    return ref::seq({tbs, alg, ref::bitstr(sig)});
}
static const std::vector<Obj>& objs()
{
    static std::vector<Obj> v;
    if (!v.empty()) return v;
    struct Q { int curve; bool le; int sb; };
    for (Q q : {Q{0, true, 0}, Q{0, false, 2}, Q{5, true, 2}, Q{5, false, 0}, Q{3, true, 0}, Q{8, true, 0}, Q{8, false, 2}}) {
        const Any& a = any(q.curve);
        Bytes x, y; eng::BN d; BN_set_word(d, 5); a.mul(d, true, x, y);
        Bytes p = ref::alg_params(a.spec(q.le), sbox_in(q.sb));
        std::string n = fmt("%s %s%s", a.name.c_str(), q.le ? "LE" : "BE", q.sb ? " own s-box" : "");
        v.push_back({"public key " + n, SPKI, q.le, ref::spki(q.le, p, ord(a.compress(x, y), q.le)), q.curve});
        v.push_back({"private key " + n, PKCS8, q.le, ref::pkcs8(q.le, p, ref::priv_le(5)), q.curve});
        v.push_back({"parameters " + n, PARAMS, q.le, p, q.curve});
    }
    for (int i : {0, 5, 8}) for (int le = 0; le < 2; le++) {
        K k(priv(any(i), le, (uint64_t)5));
        Bytes sig; eng::RngScope rs; rs.r.byte = [](size_t q) { return (uint8_t)(q * 3 + 1); };
        eng::sign(k.k, Bytes(32, 0x37), sig);
        v.push_back({fmt("signature on %s %s", any(i).name.c_str(), le ? "LE" : "BE"), SIGNATURE, (bool)le, sig, i});
    }
    v.push_back({"certificate LE", CERT, true, signed_cert(0, true), 0});
    v.push_back({"certificate BE", CERT, false, signed_cert(5, false), 5});
    v.push_back({"cipher parameters", CPARAMS, true, ref::seq({ref::octet({1, 2, 3, 4, 5, 6, 7, 8}), ref::octet(sbox_in(2))}), 0});
    return v;
}
static uint64_t use_more(EVP_PKEY* k)
{
    uint64_t h = use_key(k);
    static EVP_PKEY* other[2] = {priv(any(2), false, (uint64_t)9), priv(any(0), true, (uint64_t)5)};
    for (EVP_PKEY* o : other) { h = mix(h, EVP_PKEY_eq(k, o) + 9); h = mix(h, EVP_PKEY_parameters_eq(o, k) + 9); }
    // its parameters in a fresh key, and a key generated on them
    K f(EVP_PKEY_new());
    EVP_PKEY_set_type(f.k, EVP_PKEY_id(k));
    int cp = EVP_PKEY_copy_parameters(f.k, k);
    h = mix(h, cp + 3);
    if (cp == 1) { h = mix(h, hash_bytes(eng::params_to_der(f.k))); h = mix(h, hash_str(eng::view(f.k, 0).text)); }
    h = mix(h, EVP_PKEY_missing_parameters(k));
    // digest, sign and verify through the digest interface
    Bytes sig(EVP_PKEY_size(k) + 8); size_t n = EVP_PKEY_size(k);
    EVP_MD_CTX* m = EVP_MD_CTX_new();
    eng::Rng* outer = eng::rng; eng::Rng mine; uint64_t x = 999331; eng::rng = &mine;
    mine.byte = [&](size_t) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return (uint8_t)(x >> 24); };
    if (EVP_DigestSignInit(m, nullptr, eng::md(), nullptr, k) == 1 && EVP_DigestSign(m, sig.data(), &n, (const uint8_t*)"ab", 2) == 1) {
        h = mix(h, hash_bytes(Bytes(sig.begin(), sig.begin() + n)));
        EVP_MD_CTX* v = EVP_MD_CTX_new();
        if (EVP_DigestVerifyInit(v, nullptr, eng::md(), nullptr, k) == 1) h = mix(h, EVP_DigestVerify(v, sig.data(), n, (const uint8_t*)"ab", 2) + 5);
        EVP_MD_CTX_free(v);
    }
    eng::rng = outer;
    EVP_MD_CTX_free(m);
    ERR_clear_error();
    return h;
}
struct Res { int got = 0; uint64_t h = 0; };
static Res offer(const Obj& o, const Bytes& der)
{
    Res r;
    eng::RngScope rs; uint64_t lf = 0x9e3779b97f4a7c15ull;
    rs.r.byte = [&](size_t) { lf ^= lf << 13; lf ^= lf >> 7; lf ^= lf << 17; return (uint8_t)(lf >> 24); };
    Heap in(der);
    const unsigned char* p = in.p;
    EVP_PKEY* k = nullptr;
    switch (o.what) {
    case SPKI: k = d2i_PUBKEY(nullptr, &p, (long)in.n); break;
    case PKCS8: { PKCS8_PRIV_KEY_INFO* i = d2i_PKCS8_PRIV_KEY_INFO(nullptr, &p, (long)in.n); if (i) { k = EVP_PKCS82PKEY(i); PKCS8_PRIV_KEY_INFO_free(i); } break; }
    case PARAMS: k = d2i_KeyParams(nid(o.le), nullptr, &p, (long)in.n); break;
    case SIGNATURE: {
        static std::map<int, EVP_PKEY*> keys;
        EVP_PKEY*& key = keys[o.curve * 2 + o.le];
        if (!key) key = priv(any(o.curve), o.le, (uint64_t)5);
        EVP_PKEY_CTX* c = EVP_PKEY_CTX_new(key, nullptr); uint8_t h[32]; memset(h, 0x37, 32);
        if (c && EVP_PKEY_verify_init(c) > 0) { r.got = EVP_PKEY_verify(c, in.p, in.n, h, 32); r.h = r.got + 2; r.got = r.got == 1; }
        EVP_PKEY_CTX_free(c); break; }
    case CERT: {
        X509* x = d2i_X509(nullptr, &p, (long)in.n);
        if (!x) break;
        r.got = 1;
        EVP_PKEY* q = X509_get_pubkey(x);
        BIO* b = BIO_new(BIO_s_mem());
        r.h = mix(r.h, X509_print(b, x) + 1);
        if (q) { r.h = mix(r.h, X509_verify(x, q) + 3); r.h = mix(r.h, use_key(q)); }
        unsigned char* e = nullptr; int n = i2d_X509(x, &e);
        if (n > 0) { r.h = mix(r.h, hash_bytes(e, n)); OPENSSL_free(e); }
        BIO_free(b); EVP_PKEY_free(q); X509_free(x); break; }
    case CPARAMS: {
        ASN1_TYPE* t = d2i_ASN1_TYPE(nullptr, &p, (long)in.n);
        if (!t) break;
        EVP_CIPHER_CTX* c = EVP_CIPHER_CTX_new(); uint8_t key[32] = {1, 2, 3}, iv[8] = {9}, out[64]; int n = 0;
        if (EVP_EncryptInit_ex(c, eng::cipher(), eng::get(), nullptr, nullptr) == 1) {
            r.got = EVP_CIPHER_asn1_to_param(c, t) > 0;
            r.h = r.got;
            if (EVP_EncryptInit_ex(c, nullptr, nullptr, key, r.got ? nullptr : iv) == 1 && EVP_EncryptUpdate(c, out, &n, in.p, in.n > 40 ? 40 : (int)in.n) == 1) r.h = mix(r.h, hash_bytes(out, n));
            ASN1_TYPE* u = ASN1_TYPE_new();
            if (EVP_CIPHER_param_to_asn1(c, u) > 0) { unsigned char* e = nullptr; int m = i2d_ASN1_TYPE(u, &e); if (m > 0) { r.h = mix(r.h, hash_bytes(e, m)); OPENSSL_free(e); } }
            ASN1_TYPE_free(u);
        }
        EVP_CIPHER_CTX_free(c); ASN1_TYPE_free(t); break; }
    }
    if (k) { r.got = 1; r.h = mix(r.h, use_more(k)); EVP_PKEY_free(k); }
    ERR_clear_error();
    return r;
}
static long tried;
static void try_one(Ctx& c, const Obj& o, const Bytes& der, const std::string& how)
{
    fill_byte = 0x05;
    Res a = offer(o, der);
    c.step(); tried++;
    c.outcome(mix(o.what, a.got));
    fill_byte = 0x30;
    long before = live_allocs();
    Res b = offer(o, der);
    long after = live_allocs();
    c.check(a.got == b.got && a.h == b.h, "%s, %s (%s): the result depends on uninitialised memory (%d %llx, %d %llx)", o.name.c_str(), how.c_str(), hex(der, 600).c_str(), a.got, (unsigned long long)a.h, b.got, (unsigned long long)b.h);
    if (after > before) { long l = leak_per_run([&] { offer(o, der); }); c.check(l <= 0, "%s, %s (%s): leaks %ld allocations", o.name.c_str(), how.c_str(), hex(der, 600).c_str(), l); }
    c.state(hash_bytes(der, o.what * 2 + o.le));
}
// ---- trees --------------------------------------------------------------------------
struct Node { uint8_t tag = 0; Bytes body; std::vector<Node> kids; bool tree = false; int pre = -1; };   // pre: BIT STRING's unused-bits byte
static bool parse(const Bytes& b, std::vector<Node>& out)
{
    size_t p = 0;
    while (p < b.size()) {
        if (p + 2 > b.size()) return false;
        Node n; n.tag = b[p]; size_t len = b[p + 1]; p += 2;
        if (len >= 0x80) { int k = len & 0x7f; len = 0; if (k < 1 || k > 2 || p + k > b.size()) return false; while (k--) len = len << 8 | b[p++]; }
        if (p + len > b.size()) return false;
        n.body.assign(b.begin() + p, b.begin() + p + len); p += len;
        if (n.tag & 0x20) { if (!parse(n.body, n.kids)) return false; n.tree = true; }
        else if (n.tag == 3 && n.body.size() > 3) { std::vector<Node> k; Bytes rest(n.body.begin() + 1, n.body.end()); if ((rest[0] == 4 || rest[0] == 0x30) && parse(rest, k)) { n.kids = k; n.tree = true; n.pre = n.body[0]; } }
        out.push_back(n);
    }
    return true;
}
static Bytes enc(const Node& n)
{
    if (n.tag == 0xff) return n.body;      // raw bytes
    Bytes b;
    if (n.tree) { if (n.pre >= 0) b.push_back((uint8_t)n.pre); for (auto& k : n.kids) b = b + enc(k); }
    else b = n.body;
    return ref::der(n.tag, b);
}
static void walk(Node& n, const std::function<void(Node* parent, size_t idx)>& f, Node* parent = nullptr, size_t idx = 0)
{
    f(parent, idx);
    if (n.tree) for (size_t i = 0; i < n.kids.size(); i++) walk(n.kids[i], f, &n, i);
}
static Bytes rep(uint8_t v, int n) { return Bytes(n, v); }
// what a value may be replaced with
static std::vector<Node> palette(const Node& n, bool small)
{
    std::vector<Bytes> raw = {
        ref::null(), ref::seq({}), ref::octet({}), ref::der(2, {}), ref::integer(0), ref::integer(-1), ref::der(3, {}), ref::oid("1.2.3"), ref::octet({0}), ref::der(2, rep(0x7f, 20)),
    };
    if (!small) for (Bytes b : std::vector<Bytes>{ref::der(0x31, {}), ref::der(1, {0xff}), ref::der(6, {}), ref::der(3, {0}), ref::der(3, {8, 1}), ref::der(3, {7, 0xff}), ref::octet({0, 0, 0, 0}), ref::octet({0xff}), ref::octet({0xff, 0xff}), ref::octet(rep(0xff, 64)), ref::octet(rep(0xff, 65)), ref::octet(rep(1, 300)),
             ref::integer(1), ref::integer(2), ref::integer(3), ref::integer(127), ref::integer(128), ref::integer(661), ref::integer(662), ref::integer(0x7fffffff), ref::integer(0x80000000l), ref::integer(0x7fffffffffffffffl), ref::der(2, {0x80, 0, 0, 0, 0, 0, 0, 0}), ref::der(2, {0x80, 0, 0, 0, 0, 0, 0, 0, 0}), ref::der(2, rep(0xff, 3)), ref::der(2, {0, 0, 5}), ref::der(2, rep(1, 200)),
             ref::seq({ref::integer(1), ref::integer(1), ref::integer(1)}), ref::seq({ref::integer(3), ref::integer(2), ref::integer(1)}), ref::seq({ref::integer(1), ref::integer(2), ref::integer(3)}), ref::seq({ref::integer(0), ref::integer(0), ref::integer(0)}), ref::oid(ref::oid_curve(3)), ref::oid(ref::oid_curve(11)), ref::oid(ref::OID_LE), ref::oid(ref::OID_BE), ref::oid("1.2.840.10045.2.1"), ref::der(0x24, ref::octet({1})), ref::der(0xa0, {}), ref::der(0xa0, ref::integer(1)), ref::der(0x80, {1}), Bytes{0x30, 0x80, 0, 0}, Bytes{0x24, 0x80, 4, 1, 1, 0, 0}, ref::der_long(4, {1, 2}, 1), ref::der_long(4, {1, 2}, 4)}) raw.push_back(b);
    std::vector<Node> v;
    for (auto& b : raw) { Node x; x.tag = 0xff; x.body = b; v.push_back(x); }
    // its own contents under another tag, shortened, lengthened, doubled, with its ends changed
    Bytes own; { Node t = n; Bytes e = enc(t); size_t h = e.size() > 1 && e[1] < 0x80 ? 2 : e.size() > 1 && e[1] == 0x81 ? 3 : 4; if (e.size() >= h) own.assign(e.begin() + h, e.end()); }
    auto add = [&](uint8_t tag, const Bytes& b) { Node x; x.tag = 0xff; x.body = ref::der(tag, b); v.push_back(x); };
    if (!own.empty()) {
        add(n.tag, Bytes(own.begin(), own.end() - 1)); add(n.tag, Bytes(own.begin() + 1, own.end())); add(n.tag, own + Bytes{0}); add(n.tag, Bytes{0} + own); add(n.tag, own + Bytes{0xff});
        if (!small) { for (uint8_t t : {2, 3, 4, 5, 6, 0x0c, 0x30, 0x31, 0x24, 0xa0, 0x80}) if (t != n.tag) add(t, own); add(n.tag, own + own); add(n.tag, rep(0, (int)own.size())); add(n.tag, rep(0xff, (int)own.size()));
            Bytes t = own; t[0] ^= 0x80; add(n.tag, t); t = own; t.back() ^= 1; add(n.tag, t); t = own; t.back() ^= 0x80; add(n.tag, t); t = ref::rev(own); add(n.tag, t); }
    }
    return v;
}
// the k-th edit of a tree; false past the last
struct Edit { Bytes der; std::string how; };
static std::vector<Edit> edits(const Bytes& der, bool small)
{
    std::vector<Edit> v;
    std::vector<Node> top;
    if (!parse(der, top) || top.size() != 1) return v;
    Node root = top[0];
    struct At { std::vector<size_t> path; };
    std::vector<std::vector<size_t>> paths;
    std::function<void(const Node&, std::vector<size_t>)> collect = [&](const Node& n, std::vector<size_t> p) { paths.push_back(p); if (n.tree) for (size_t i = 0; i < n.kids.size(); i++) { auto q = p; q.push_back(i); collect(n.kids[i], q); } };
    collect(root, {});
    auto at = [](Node& r, const std::vector<size_t>& p) -> Node& { Node* n = &r; for (size_t i : p) n = &n->kids[i]; return *n; };
    auto pname = [](const std::vector<size_t>& p) { std::string s = "/"; for (size_t i : p) s += std::to_string(i) + "/"; return s; };
    for (auto& p : paths) {
        Node r0 = root;
        std::vector<Node> pal = palette(at(r0, p), small);
        for (size_t i = 0; i < pal.size(); i++) { Node r = root; at(r, p) = pal[i]; v.push_back({enc(r), fmt("%s replaced (%zu)", pname(p).c_str(), i)}); }
        if (p.empty()) continue;
        auto up = p; size_t last = up.back(); up.pop_back();
        { Node r = root; auto& ks = at(r, up).kids; ks.erase(ks.begin() + last); v.push_back({enc(r), pname(p) + " removed"}); }
        { Node r = root; auto& ks = at(r, up).kids; Node n = ks[last]; ks.insert(ks.begin() + last, n); v.push_back({enc(r), pname(p) + " doubled"}); }
        { Node r = root; auto& ks = at(r, up).kids; if (last + 1 < ks.size()) { std::swap(ks[last], ks[last + 1]); v.push_back({enc(r), pname(p) + " swapped with the next"}); } }
        if (!small) for (size_t i = 0; i < 6; i++) { Node r = root; auto& ks = at(r, up).kids; ks.insert(ks.begin() + last, pal[i]); v.push_back({enc(r), fmt("%zu inserted before %s", i, pname(p).c_str())}); }
        { Node r = root; Node& n = at(r, p); if (n.tree) { n.kids.push_back(pal[0]); v.push_back({enc(r), pname(p) + " with a value appended"}); } }
    }
    return v;
}
// ---- groups -------------------------------------------------------------------------
static const uint8_t BOUND[] = {0, 1, 2, 3, 4, 5, 6, 7, 8, 0x0c, 0x10, 0x20, 0x24, 0x30, 0x31, 0x3f, 0x40, 0x41, 0x7f, 0x80, 0x81, 0x82, 0x83, 0x84, 0x88, 0xa0, 0xc0, 0xfe, 0xff};
static int pick(Ctx& c) { int i = c.choose((int)objs().size(), "object"); return i; }
static void single(Ctx& c)
{
    const Obj& o = objs()[pick(c)];
    int p = c.choose((int)o.der.size(), "byte");
    c.shard();
    bool big = o.curve >= 8;    // a named curve: its arithmetic is slow
    if (!c.thorough() ? o.curve != 0 || o.what == CERT : o.what == CERT || big) {
        for (uint8_t v : BOUND) { Bytes d = o.der; if (d[p] == v) continue; d[p] = v; try_one(c, o, d, fmt("byte %d = %02x", p, v)); }
        for (int b = 0; b < 8; b++) { Bytes d = o.der; d[p] ^= 1 << b; try_one(c, o, d, fmt("bit %d of byte %d", b, p)); }
    } else for (int v = 0; v < 256; v++) { Bytes d = o.der; if (d[p] == v) continue; d[p] = (uint8_t)v; try_one(c, o, d, fmt("byte %d = %02x", p, v)); }
    c.note("%s, byte %d", o.name.c_str(), p);
}
static void cuts(Ctx& c)
{
    const Obj& o = objs()[pick(c)];
    int part = c.choose(8, "part");
    c.shard();
    for (size_t n = part; n <= o.der.size(); n += 8) {
        if (n < o.der.size()) { try_one(c, o, Bytes(o.der.begin(), o.der.begin() + n), fmt("cut to %zu", n)); try_one(c, o, Bytes(o.der.begin() + n, o.der.end()), fmt("first %zu left out", n)); Bytes d = o.der; d.erase(d.begin() + n); try_one(c, o, d, fmt("byte %zu left out", n)); }
        for (uint8_t v : {0, 4, 0x30, 0x80, 0xff}) { Bytes d = o.der; d.insert(d.begin() + n, v); try_one(c, o, d, fmt("%02x inserted at %zu", v, n)); }
    }
    c.note("%s, part %d", o.name.c_str(), part);
}
// pairs of header and short-value bytes
static void pairs(Ctx& c)
{
    const Obj& o = objs()[pick(c)];
    if (o.curve >= 8 || o.what == CERT || (!c.thorough() && o.curve == 3)) { c.shard(); c.step(); c.note("left out"); return; }
    size_t n = std::min<size_t>(o.der.size(), 90);
    int p = c.choose((int)n, "first byte"); c.shard();
    static const uint8_t S1[] = {0, 1, 2, 4, 5, 0x30, 0x7f, 0x80, 0x81, 0xff};
    int step = c.thorough() ? 1 : 2;
    for (size_t q = p + 1; q < n; q += step) for (uint8_t v : S1) for (uint8_t w : S1) {
        if (!c.thorough() && (v + w + q) % 7) continue;
        Bytes d = o.der; d[p] = v; d[q] = w; if (d == o.der) continue;
        try_one(c, o, d, fmt("bytes %d, %zu = %02x, %02x", p, q, v, w));
    }
    c.note("%s, byte %d and another", o.name.c_str(), p);
}
static void tree(Ctx& c)
{
    const Obj& o = objs()[pick(c)];
    static std::map<const Obj*, std::vector<Edit>> memo;
    auto& e = memo[&o];
    if (e.empty()) e = edits(o.der, false);
    if (e.empty()) { fprintf(stderr, "HARNESS-ERROR no edits of %s\n", o.name.c_str()); _exit(3); }
    int part = c.choose(16, "part"); c.shard();
    for (size_t i = part; i < e.size(); i += 16) try_one(c, o, e[i].der, e[i].how);
    c.note("%s: %zu edits, part %d", o.name.c_str(), e.size(), part);
}
static void tree2(Ctx& c)
{
    const Obj& o = objs()[pick(c)];
    if (o.curve >= 8 || o.what == CERT) { c.shard(); c.step(); c.note("left out"); return; }
    static std::map<const Obj*, std::vector<Edit>> memo;
    auto& e = memo[&o];
    if (e.empty()) e = edits(o.der, true);
    int part = c.choose(32, "part"); c.shard();
    size_t n = 0;
    for (size_t i = part; i < e.size(); i += 32) {
        std::vector<Edit> f = edits(e[i].der, true);
        for (size_t j = 0; j < f.size(); j++) { if (!c.thorough() && (i + j) % 5) continue; n++; try_one(c, o, f[j].der, e[i].how + ", then " + f[j].how); }
    }
    c.note("%s: part %d, %zu pairs of edits", o.name.c_str(), part, n);
}
// the numbers of a curve: all pairs of unusual values
static void numbers(Ctx& c)
{
    int ci = c.choose(3, "curve"), le = c.choose(2, "order"), as = c.choose(3, "offered as");
    static const int CI[] = {0, 5, 3};
    const Curve& cv = ref::tiny(CI[ci]);
    auto I = [](long v) { return ref::integer(v); };
    auto big = [](int bits) { Bytes b(bits / 8 + 1); b[0] = 1 << (bits % 8); return ref::integer_be(b); };
    int w = cv.bytes_m();
    std::vector<std::vector<Bytes>> F(5);
    F[0] = {I(cv.f.m), I(-1), I(0), I(1), I(2), I(3), I(4), I(6), I(8), I(cv.f.m + 1), I(cv.f.m - 1), I(127), I(163), I(660), I(661), I(662), I(0x7fffffff), I(0x80000000l), I(0xffffffffl), I(0x100000000l + cv.f.m), I(0x7fffffffffffffffl), big(64), big(70), ref::der(2, {}), ref::der(2, {0, (uint8_t)cv.f.m})};
    Bytes poly = cv.exps.size() == 1 ? I(cv.exps[0]) : ref::seq({I(cv.exps[0]), I(cv.exps[1]), I(cv.exps[2])});
    F[1] = {poly, I(-1), I(0), I(1), I(2), I(3), I(cv.f.m - 1), I(cv.f.m), I(cv.f.m + 1), I(0x100000002l), I(0x7fffffff), big(70),
            ref::seq({I(1), I(2), I(3)}), ref::seq({I(3), I(2), I(1)}), ref::seq({I(1), I(1), I(1)}), ref::seq({I(1), I(1), I(2)}), ref::seq({I(1), I(2), I(2)}), ref::seq({I(0), I(1), I(2)}), ref::seq({I(2), I(0), I(3)}), ref::seq({I(1), I(2), I(0)}), ref::seq({I(1), I(2), I(cv.f.m)}), ref::seq({I(-1), I(2), I(3)}), ref::seq({I(1), I(2)}), ref::seq({I(1), I(2), I(3), I(4)}), ref::seq({}), ref::seq({I(1), I(2), big(66)})};
    F[2] = {I(cv.a), I(cv.a ^ 1), I(-1), I(2), I(255), big(40), big(700), ref::der(2, {})};
    Bytes b = ref::be_bytes(cv.b, w);
    F[3] = {b, {}, {0}, {1}, {0xff}, Bytes(w, 0), Bytes(w, 0xff), Bytes{0} + b, b + Bytes{0}, Bytes(w + 1, 0xff), Bytes(40, 0x5a), Bytes(90, 0xff), {(uint8_t)(1u << (cv.f.m % 8))}};
    F[4] = {I(cv.n), I(-1), I(0), I(1), I(2), I(3), I(4), I(cv.n - 1), I(cv.n + 1), I(cv.n * 2), I(1l << cv.f.m), I((1l << cv.f.m) - 1), I((1l << (cv.f.m + 1)) + 1), I(1l << (cv.f.m + 3)), I(255), I(256), I(257), I(65537), big(80), big(700), I(-(long)cv.n), ref::der(2, {})};
    Bytes bp = ref::be_bytes(cv.compress(cv.G), w);
    std::vector<Bytes> P = {bp, {}, {0}, {1}, Bytes(w, 0), Bytes(w, 0xff), Bytes{0} + bp, bp + Bytes{0}, Bytes(w + 1, 0xff), Bytes(90, 0xff)};
    for (uint32_t x : {2u, 3u, 4u, 5u, 6u, 7u, 8u, 9u}) P.push_back(ref::be_bytes(x, w));
    F.push_back(P);
    int f1 = c.choose(6, "field"), v1 = c.choose((int)F[f1].size(), "value");
    c.shard();
    Obj o{fmt("%s on %s %s", as == 0 ? "public key" : as == 1 ? "private key" : "parameters", cv.name.c_str(), le ? "LE" : "BE"), as == 0 ? SPKI : as == 1 ? PKCS8 : PARAMS, (bool)le, {}, CI[ci]};
    // the other fields: usual, or one more unusual
    auto make = [&](const std::vector<int>& ix) {
        Bytes spec = ref::seq({ref::seq({F[0][ix[0]], F[1][ix[1]]}), F[2][ix[2]], ref::octet(ord(F[3][ix[3]], le)), F[4][ix[4]], ref::octet(ord(F[5][ix[5]], le))});
        Bytes p = ref::alg_params(spec);
        return as == 0 ? ref::spki(le, p, ord(ref::be_bytes(cv.compress(cv.mult[3]), w), le)) : as == 1 ? ref::pkcs8(le, p, ref::priv_le(5)) : p;
    };
    for (int f2 = f1 + 1; f2 < 6; f2++) for (size_t v2 = f2 == f1 + 1 ? 0 : 1; v2 < F[f2].size(); v2++) {
        std::vector<int> ix(6, 0); ix[f1] = v1; ix[f2] = (int)v2;
        try_one(c, o, make(ix), fmt("fields %d, %d with values %d, %zu", f1, f2, v1, v2));
    }
    if (f1 == 5) { std::vector<int> ix(6, 0); ix[5] = v1; try_one(c, o, make(ix), fmt("base point %d", v1)); }
    c.note("%s: field %d value %d with every other deviation", o.name.c_str(), f1, v1);
}
// private numbers and points of every length and pattern
static void values(Ctx& c)
{
    int ci = c.choose(4, "curve"), le = c.choose(2, "order"), len = c.choose(40, "length");
    c.shard();
    static const int CI[] = {0, 3, 5, 8};
    if (ci == 3 && !c.thorough() && len > 2 && (len < 19 || len > 24)) { c.step(); c.note("left out"); return; }
    const Any& a = any(CI[ci]);
    Bytes p = ref::alg_params(a.spec(le));
    Obj pub{"public key " + a.name, SPKI, (bool)le, {}, CI[ci]}, pr{"private key " + a.name, PKCS8, (bool)le, {}, CI[ci]}, sg{"signature " + a.name, SIGNATURE, (bool)le, {}, CI[ci]};
    for (uint8_t first : {0, 1, 0x7f, 0x80, 0xff}) for (uint8_t mid : {0, 0xff}) for (uint8_t last : {0, 1, 2, 0xff}) {
        Bytes b(len, mid); if (len) { b[0] = first; b.back() = last; } else if (first || mid || last) continue;
        std::string h = fmt("%d bytes %02x..%02x..%02x", len, first, mid, last);
        try_one(c, pub, ref::spki(le, p, b), h);
        try_one(c, pr, ref::pkcs8(le, p, b), h);
        try_one(c, sg, b, h); try_one(c, sg, ref::octet(b), h + " as octet string");
        if (len < 3) { Bytes raw = ref::seq({ref::seq({ref::oid(le ? ref::OID_LE : ref::OID_BE), p}), ref::bitstr(b)}); try_one(c, pub, raw, h + " as bare bit string"); }
    }
    c.note("%s %s, length %d", a.name.c_str(), le ? "LE" : "BE", len);
}
int main(int argc, char** argv)
{
    if (!CRYPTO_set_mem_functions(fill_malloc, fill_realloc, fill_free)) { fprintf(stderr, "HARNESS-ERROR set_mem\n"); return 3; }
    eng::get(); eng::install_rng();
    set_exec_timeout(120);
    std::vector<Group> g = {{"single", single}, {"cuts", cuts}, {"tree", tree}, {"values", values}, {"numbers", numbers}, {"pairs", pairs}, {"tree2", tree2}};
    return main_impl(argc, argv, g);
}
