// C01: DSTU 34.311 digest against the reference hash, for every message length,
// chunking, context history and s-box within the bounds.
#include "eng.h"
#include <sys/mman.h>
using namespace mc;
 

static Bytes pattern(int kind, size_t n)
{
    Bytes b(n);
    for (size_t i = 0; i < n; i++)
        b[i] = kind == 0 ? (uint8_t)(i * 7 + 1) : kind == 1 ? 0xff : kind == 2 ? 0x00 : (uint8_t)((i * i) ^ (i >> 3) ^ 0x5a);
    return b;
}
static Bytes finish(Ctx& c, EVP_MD_CTX* x)
{
    Bytes out(64, 0xEE); unsigned int n = 0;
    c.check(EVP_DigestFinal_ex(x, out.data(), &n) == 1, "DigestFinal failed");
    c.check(n == 32, "digest length %u", n);
    for (size_t i = 32; i < 64; i++) c.check(out[i] == 0xEE, "final wrote past 32 bytes");
    out.resize(32);
    return out;
}

// every split of every length into up to three updates
static void g_chunks(Ctx& c)
{
    int maxlen = c.thorough() ? 200 : 100;
    int L = c.choose(maxlen + 1, "length");
    int kind = c.choose(c.thorough() ? 4 : 2, "pattern");
    c.shard();
    int a = c.choose(L + 1, "first chunk");
    int b = c.choose(L - a + 1, "second chunk");
    static std::map<std::pair<int,int>, Bytes> memo;
    Bytes msg = pattern(kind, L);
    Bytes& want = memo[{L, kind}];
    if (want.empty()) want = ref::hash(msg);
    EVP_MD_CTX* x = EVP_MD_CTX_new();
    c.check(EVP_DigestInit_ex(x, eng::md(), eng::get()) == 1, "init");
    int cut[4] = {0, a, a + b, L};
    bool ok = true;
    for (int i = 0; i < 3; i++) {
        // exactly sized heap copy: over-reads are caught
        Bytes part(msg.begin() + cut[i], msg.begin() + cut[i + 1]);
        ok = ok && EVP_DigestUpdate(x, part.data(), part.size()) == 1;
        c.step();
    }
    c.check(ok, "update failed");
    Bytes got = finish(c, x);
    EVP_MD_CTX_free(x);
    c.note("len=%d pattern=%d split=%d+%d+%d digest=%s", L, kind, a, b, L - a - b, hex(got, 8).c_str());
    c.state(mix(mix(L, kind), mix(a, b))); c.outcome(hash_bytes(got));
    c.check(got == want, "digest of %d bytes (pattern %d) split %d+%d+%d is %s, expected %s", L, kind, a, b, L - a - b, hex(got).c_str(), hex(want).c_str());
}

// the same chunk size repeated, and larger buffers than any internal block
static void g_big(Ctx& c)
{
    static const int lens[] = {255, 256, 257, 1000, 1024, 4095, 4096, 4097, 65535, 65536, 65537, 70001, 262144, 1048577};
    static const int chunks[] = {1, 3, 7, 31, 32, 33, 63, 64, 65, 255, 256, 257, 4096, 65536, 1 << 22};
    int li = c.choose(c.thorough() ? 14 : 12, "length"), ci = c.choose(15, "chunk");
    int sb = c.choose(2, "sbox");
    c.shard();
    size_t L = lens[li], ch = chunks[ci];
    if (ch < 7 && L > 70000) return;
    Bytes msg = pattern(3, L), sbox = ref::custom_sbox(sb * 2);
    static std::map<std::pair<int,int>, Bytes> memo;
    Bytes& want = memo[{li, sb}];
    if (want.empty()) want = ref::hash(msg, sbox.data());
    EVP_MD_CTX* x = EVP_MD_CTX_new();
    c.check(EVP_DigestInit_ex(x, eng::md(), eng::get()) == 1, "init");
    if (sb) c.check(EVP_MD_CTX_ctrl(x, CTRL_SBOX, 64, sbox.data()) > 0, "s-box ctrl");
    for (size_t p = 0; p < L; p += ch) { EVP_DigestUpdate(x, &msg[p], std::min(ch, L - p)); c.step(); }
    Bytes got = finish(c, x);
    EVP_MD_CTX_free(x);
    c.note("len=%zu chunk=%zu sbox=%d", L, ch, sb);
    c.state(mix(li, mix(ci, sb))); c.outcome(hash_bytes(got));
    c.check(got == want, "digest of %zu bytes in chunks of %zu (sbox %d) is %s, expected %s", L, ch, sb, hex(got).c_str(), hex(want).c_str());
}

// two contexts, all operation sequences
struct Model { int st = 0; Bytes msg; int sbox = 0; };   // 0 none, 1 active, 2 finished
static void g_ops(Ctx& c)
{
    int depth = c.thorough() ? 7 : 6;
    static const int ulen[] = {1, 32, 45};
    EVP_MD_CTX* x[2] = {EVP_MD_CTX_new(), EVP_MD_CTX_new()};
    struct Fr { EVP_MD_CTX** x; ~Fr() { EVP_MD_CTX_free(x[0]); EVP_MD_CTX_free(x[1]); } } fr{x};
    Model m[2];
    int fill = 1;
    auto check_final = [&](int i) {
        Bytes got = finish(c, x[i]);
        Bytes want = ref::hash(m[i].msg, ref::custom_sbox(m[i].sbox).data());
        c.note("ctx%d final -> %s", i, hex(got, 8).c_str());
        c.outcome(hash_bytes(got));
        c.check(got == want, "context %d: digest %s, expected %s (message of %zu bytes, s-box %d)", i, hex(got).c_str(), hex(want).c_str(), m[i].msg.size(), m[i].sbox);
    };
    for (int d = 0; d < depth; d++) {
        // enabled operations
        struct Op { int kind, i, arg; };
        std::vector<Op> ops;
        for (int i = 0; i < 2; i++) {
            ops.push_back({0, i, 0});                                  // (re)init
            if (m[i].st == 1) {
                for (int k = 0; k < 3; k++) ops.push_back({1, i, k});  // update
                ops.push_back({2, i, 0});                              // final
                if (m[i].msg.empty()) ops.push_back({3, i, 1});        // custom s-box
                if (i == 0 || m[1 - i].st) ops.push_back({4, i, 0});   // copy to the other
            }
        }
        // context 1 only takes part once it has been used (symmetry)
        if (m[0].st == 0) ops.resize(1);
        int k = c.choose((int)ops.size(), "op");
        if (d == 2) c.shard();
        Op o = ops[k];
        int i = o.i;
        c.step();
        switch (o.kind) {
        case 0:
            c.check(EVP_DigestInit_ex(x[i], eng::md(), eng::get()) == 1, "init failed");
            m[i] = Model{1, {}, 0};
            c.note("ctx%d init", i);
            break;
        case 1: {
            Bytes part(ulen[o.arg]);
            for (auto& b : part) b = (uint8_t)(fill++ * 37);
            c.check(EVP_DigestUpdate(x[i], part.data(), part.size()) == 1, "update failed");
            m[i].msg = m[i].msg + part;
            c.note("ctx%d update %d", i, ulen[o.arg]);
            break;
        }
        case 2: check_final(i); m[i].st = 2; break;
        case 3: {
            Bytes sb = ref::custom_sbox(o.arg);
            c.check(EVP_MD_CTX_ctrl(x[i], CTRL_SBOX, 64, sb.data()) > 0, "s-box ctrl failed");
            m[i].sbox = o.arg;
            c.note("ctx%d s-box %d", i, o.arg);
            break;
        }
        case 4:
            c.check(EVP_MD_CTX_copy_ex(x[1 - i], x[i]) == 1, "copy failed");
            m[1 - i] = m[i];
            c.note("ctx%d copied to ctx%d", i, 1 - i);
            break;
        }
        c.state(mix(mix(m[0].st * 9 + m[0].sbox, hash_bytes(m[0].msg)), mix(m[1].st * 9 + m[1].sbox, hash_bytes(m[1].msg))));
    }
    // the source of a copy may disappear first
    int first = 0;
    if (m[0].st == 1) { check_final(0); EVP_MD_CTX_free(x[0]); x[0] = nullptr; }
    (void)first;
    if (m[1].st == 1) check_final(1);
}

// s-box control accepts exactly a 64-byte table; rejected calls change nothing
static void g_sbox(Ctx& c)
{
    int which = c.choose(14, "sbox"), L = c.choose(70, "len");
    int bad = c.choose(6, "bad call");
    c.shard();
    Bytes sb = ref::custom_sbox(which), msg = pattern(0, L);
    EVP_MD_CTX* x = EVP_MD_CTX_new();
    struct Fr { EVP_MD_CTX* x; ~Fr() { EVP_MD_CTX_free(x); } } fr{x};
    c.check(EVP_DigestInit_ex(x, eng::md(), eng::get()) == 1, "init");
    c.check(EVP_MD_CTX_ctrl(x, CTRL_SBOX, 64, sb.data()) > 0, "s-box ctrl");
    Bytes other = ref::custom_sbox((which + 1) % 14); other.resize(128, 7);
    int r = 0;
    if (bad == 1) r = EVP_MD_CTX_ctrl(x, CTRL_SBOX, 63, other.data());
    if (bad == 2) r = EVP_MD_CTX_ctrl(x, CTRL_SBOX, 128, other.data());
    if (bad == 3) r = EVP_MD_CTX_ctrl(x, CTRL_SBOX, 64, nullptr);
    if (bad == 4) r = EVP_MD_CTX_ctrl(x, CTRL_SBOX, 0, other.data());
    if (bad == 5) r = EVP_MD_CTX_ctrl(x, CTRL_SBOX + 77, 64, other.data());
    c.check(r <= 0, "invalid s-box control %d accepted", bad);
    EVP_DigestUpdate(x, msg.data(), msg.size());
    Bytes got = finish(c, x), want = ref::hash(msg, sb.data());
    c.step(3); c.state(mix(which, mix(L, bad))); c.outcome(hash_bytes(got));
    c.note("sbox=%d len=%d bad=%d", which, L, bad);
    c.check(got == want, "s-box %d, %d bytes, after rejected control %d: digest %s, expected %s", which, L, bad, hex(got).c_str(), hex(want).c_str());
}

static void g_meta(Ctx& c)
{
    c.shard();
    c.check(EVP_MD_size(eng::md()) == 32, "digest size");
    c.check(EVP_MD_block_size(eng::md()) == 32, "block size %d", EVP_MD_block_size(eng::md()));
    c.check(EVP_MD_type(eng::md()) == NID_dstu34311, "type");
    c.step(3); c.state(1);
}

// longer than 2^32 bits; expected value from the reference hash (thorough recomputes it)
static void g_long(Ctx& c)
{
    c.shard();
    size_t L = (1ull << 29) + 37;
    uint8_t* p = (uint8_t*)mmap(nullptr, L, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    c.check(p != MAP_FAILED, "mmap");
    for (size_t i = 0; i < L; i += 4096) p[i] = (uint8_t)(i >> 12);
    Bytes out(32); unsigned n = 0;
    c.check(EVP_Digest(p, L, out.data(), &n, eng::md(), eng::get()) == 1, "EVP_Digest");
    Bytes want = ref::unhex("db5a552157d4f5513b4f17b94e35d32733b9f60db9cb62d0d224f783029a692b");
    if (c.thorough() || want.size() != 32) { Bytes b(p, p + L); want = ref::hash(b); c.note("reference %s", hex(want).c_str()); printf("long reference %s\n", hex(want).c_str()); }
    munmap(p, L);
    c.step(); c.state(1); c.outcome(hash_bytes(out));
    c.note("2^29+37 bytes -> %s", hex(out, 8).c_str());
    c.check(out == want, "digest of 2^29+37 bytes is %s, expected %s", hex(out).c_str(), hex(want).c_str());
}

int main(int argc, char** argv)
{
    set_exec_timeout(300);
    eng::get();
    std::vector<Group> g = {{"meta", g_meta}, {"chunks", g_chunks}, {"ops", g_ops}, {"sbox", g_sbox}, {"big", g_big}};
#ifndef __SANITIZE_ADDRESS__
    g = {{"long", g_long}};
#endif
    return main_impl(argc, argv, g);
}
