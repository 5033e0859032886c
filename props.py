"""How each property is decided: harness units, level and stated bounds."""
ENG = ["eng.cpp"]
PROPS = {}
ALL_SEQ = "exhaustive stateless exploration of operation sequences on the real code against an executable model"
ALL_IN = "exhaustive enumeration of a bounded input space on the real code against an executable reference model"
TRUST = "Exhaustive only inside the stated bounds; trusts the reference model in src/ref.cpp, libcrypto and gcc's AddressSanitizer."
SMALL = "Small curves are genuine DSTU 4145 curves over GF(2^5..2^13) reached through custom parameters; the code has no size-specific branches beyond byte widths, which the chosen orders straddle."


def P(id, units, quick, thorough, technique=ALL_IN, level="model_checking", note=TRUST, assumptions=(), rule=None):
    PROPS[id] = dict(units=units, bounds=dict(quick=quick, thorough=thorough), technique=technique, level=level, note=note,
                     assumptions=list(assumptions) or [note], rule=rule)


P("C01", [dict(harness="h_digest", flavor="plain", cxx=ENG, shards=1, order=0, timeout=300, xdefs=["-DLONG"]),
          dict(harness="h_digest", flavor="asan", cxx=ENG, order=1)],
  "every length 0..100 with every split into 3 updates (2 patterns); all enabled operation sequences of depth 6 over two contexts (init, update 1/32/45 bytes, final, s-box, copy); 12 lengths 255..70001 x 15 chunk sizes x 2 s-boxes; 14 s-boxes x 70 lengths x 6 rejected controls; one message of 2^29+37 bytes",
  "lengths 0..200 (4 patterns), sequences of depth 7, 14 lengths up to 1048577, the long message's reference value recomputed",
  technique=ALL_SEQ)
P("C02", [dict(harness="h_cipher", flavor="asan", cxx=ENG)],
  "every length 0..25 with every split into 4 updates, both directions, in place or not, 2 s-boxes; all sequences of depth 5 over two contexts (5 update lengths incl. 0, copies either way); 14 lengths x 40 chunk sizes; updates of 65535..2^20+1 bytes in one piece, cut and in place; every key bit and IV bit x 14 s-boxes",
  "lengths 0..33, sequences of depth 6, 16 lengths", technique=ALL_SEQ)
P("C03", [dict(harness="h_cipher", flavor="asan", cxx=ENG)],
  "all sequences of depth 5 over init(key?,IV?) with 2 keys and 2 IVs, direction-only init, cipher reselection, 3 s-boxes, parameter export/import and data; every truncation, extension, structural byte value and string length of the parameters; 7 rejected controls; 14 s-boxes through setting, export and import",
  "sequences of depth 6", technique=ALL_SEQ)
P("C04", [dict(harness="h_gost", flavor="asan", parts=["dstulib"])],
  "260 keys (every single bit, dense patterns) x every single data bit x plain/masked set-up x 2 s-boxes; every value of every s-box nibble; 0..19 blocks ECB/CFB in place or not x 3 s-boxes x 3 IVs; MAC of every length 0..41 x every bit size 0..64 x 3 IVs; all re-keying sequences of depth 5",
  "5 s-boxes, 0..64 blocks, MAC lengths 0..89, sequences of depth 6")
P("C05", [dict(harness="h_sign", flavor="asan", cxx=ENG, timeout=20)],
  "4 small curves: all (or a spread of 18) private keys x hash elements x both byte orders x every first random byte x 3 continuations of the stream; 3 curves with two-byte orders with draws of 2^16/4 values; every hash length 1..70; every buffer size 0..23 on 8 curves; ten named and six further curves (degrees 113 to 571) x 3 keys x 4 hashes x 3 streams",
  "5 curves, all private keys, all two-byte draws, 12 streams", assumptions=[TRUST, SMALL])
P("C06", [dict(harness="h_sign", flavor="asan", cxx=ENG)],
  "6 small curves: public keys x hash elements x all (r, s) in 0..n+2 (0..39 on the smallest; thinned by 8 in the interior of the largest) x DER/raw x both byte orders; all valid signatures and neighbours of two-byte orders; all lengths, paddings, tags and DER forms; raw signatures that look like DER; single-bit changes (every 5th bit) and r,s in {0,n,+n} on ten named and six further curves (degrees 113 to 571)",
  "more keys and hashes, (r, s) in 0..255, every bit", assumptions=[TRUST, SMALL])
KEY = [dict(harness="h_key", flavor="asan", cxx=ENG)]
P("C07", KEY, "all subgroup points of 8 small curves x both byte orders x 4 s-box variants (1 in 5 for the largest with custom s-boxes); octet strings of field length (all, or 1 in 3/7 of the largest) and neighbouring lengths; 24 multiples on each of ten named and six further curves (degrees 113 to 571); 14 s-boxes",
  "all points, all strings of field length, 96 multiples", assumptions=[TRUST, SMALL])
P("C08", KEY, "all private numbers of 8 small curves x byte orders x 4 s-box variants; padding 0..11; 14 keys x 10 named and 6 further curves; 14 s-boxes; keys without private/public part; 12 kinds of parameter variations (s-box lengths 0..69, exponents, degrees, base points, orders, unknown and explicit named curves)",
  "60 keys per named curve, no thinning", assumptions=[TRUST, SMALL])
P("C09", KEY, "all ordered pairs of a set of keys spanning byte order, curve, s-box, private/public/parameters/empty/generated; all sequences of 3 copies among 4 keys from 3 initial sets; all pairs of 15 s-boxes", "sequences of 4 copies", technique=ALL_SEQ, assumptions=[TRUST, SMALL])
P("C10", KEY, "all sequences of 4 operations out of 19 (accepted and rejected curve and s-box settings, numeric and textual, duplicate, switch, generate) in both key types, then generation on every live context; every first random byte on 5 small curves; ten named and six further curves x 4 s-box variants x 2 ways; 15 s-boxes",
  "sequences of 5 operations", technique=ALL_SEQ, assumptions=[TRUST, SMALL, "libcrypto 3.0 cannot duplicate a context in key generation state: the context is duplicated in signing state."])
RBGW = ["RAND_OpenSSL", "time"]
LOCKW = ["CRYPTO_THREAD_lock_new", "CRYPTO_THREAD_lock_free", "CRYPTO_THREAD_write_lock", "CRYPTO_THREAD_read_lock", "CRYPTO_THREAD_unlock", "CRYPTO_THREAD_run_once",
         "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_rwlock_wrlock", "pthread_rwlock_rdlock", "pthread_rwlock_unlock", "pthread_once"]
P("C11", [dict(harness="h_rbg", flavor="asan", cxx=ENG, wrap=RBGW)],
  "all sequences of 6 operations out of 12 (requests of 0/1/2/9/17 bytes, status, cleanup, add, seed, system generator or its status failing/recovering, clock advancing); 8 seeds x 7 clock values x first requests of 0..79 bytes; as libcrypto's default generator with every pair of request sizes 0..39 through three calls; requests around every power of two to 2^17",
  "sequences of 7 operations, first requests of 0..259 bytes", technique=ALL_SEQ,
  assumptions=[TRUST, "The system generator and the clock are stand-ins bound at link time (RAND_OpenSSL, time)."])
P("C12", [dict(harness="h_rbg", flavor="access", cxx=ENG + ["fiber.cpp"], wrap=RBGW + LOCKW, xdefs=["-DSCHED"], cov=["engine/"])],
  "11 scenarios of 2-3 threads: every schedule with at most 3 (small scenarios) or 2 preemptions, a scheduling point at every shared memory access and lock operation of the engine's files; results checked for linearisability",
  "at most 4 (small scenarios) or 3 preemptions",
  technique="stateless model checking of thread schedules under a controlled scheduler (preemption bounded)",
  note="Exhaustive up to the preemption bound under sequential consistency; block cipher calls are atomic (they work on the locked state only).",
  assumptions=["Sequentially consistent memory", "Lock primitives are modelled by the scheduler", "The block cipher routines in dstulib run without preemption inside them"])
P("C16", [dict(harness="h_jks", flavor="asan", cxx=ENG)],
  "both magics x all sequences of 0..3 entries out of 6 kinds (keys with 0..2 certificates, one or two keys each, trusted certificates); 79 alias lengths x 4 timestamps; 90 key, certificate and chain sizes; 8 classes of UTF-8 passwords x 45 lengths; 13 unreadable entries at every position; every header byte value; 29 counts of entries and chain certificates to 300, certificates and keys to 10^6 bytes, passwords to 5000 characters",
  "sequences of 4 entries, 300 sizes, 130 password lengths", assumptions=[TRUST, "Passwords are non-empty UTF-8 strings without NUL."])
P("C20", [dict(harness="h_pfx", flavor="asan", cxx=ENG), dict(harness="h_jks", flavor="asan", cxx=ENG)],
  "JKS: every byte of 2 stores x 11 changes, every truncation, duplication, swap and insertion, every single-character edit of both passwords; PKCS#12: every byte of content, MAC and salt of 3 containers (SHA-1, SHA-256 and DSTU MACs) x 10 changes, 4 MAC variations, all single-character password edits",
  "every value of every byte, 3 JKS stores", assumptions=[TRUST, "Bytes after a JKS store's digest and bytes of a PKCS#12 container outside the authenticated content, the MAC and its salt are not protected by the formats."])
FAST = ["gost/gost89.c", "gost/gosthash.c"]
P("C18", [dict(harness="h_pfx", flavor="asan", cxx=ENG)],
  "5 kinds of safes (plain, three encryptions, foreign) x all arrangements of 0..3 bags out of 12 kinds; all pairs of safes with 0..1 bags; all triples of safes with 0..1 of 3 kinds; MAC SHA-1/SHA-256/DSTU; password lengths 1..60 x 3 encryptions x 3 MACs; 11 unreadable bags in every position and safe; 30 counts of bags to 300 in five arrangements (nesting to 20 levels, which libcrypto limits to 30), contents to 10^6 bytes, passwords to 1000 characters",
  "pairs of safes with 0..2 bags, triples over 6 kinds, password lengths to 100")
P("C17", [dict(harness="h_pfx", flavor="asan", cxx=ENG), dict(harness="h_jks", flavor="asan", cxx=ENG), dict(harness="h_key6", flavor="asan", cxx=ENG, fast=FAST)],
  "every truncation and extension of containers of the three formats; every byte of a Key-6 container, of the decrypted key, of the PKCS#12 content (re-authenticated) and of its outer structure at 16-32 boundary values, deletions and duplications; JKS length and count fields at boundary values at every offset (re-signed); every key that comes out is used for every operation; stores of up to 300 entries, bags or safes, whole and spoilt; each case twice with different fill of fresh memory",
  "every value of every byte", assumptions=[TRUST, "Iteration counts of the password-based functions are kept small: large ones are legal and merely slow."])
P("C19", [dict(harness="h_key6", flavor="asan", cxx=ENG, fast=FAST)],
  "private numbers of 8 small and 10 named curves (all on the smallest) x byte orders x s-boxes; 53 private key lengths; every split of the ciphertext between body and padding field; second keys on 8 small curves (all on the smallest) in 4 encodings; all sequences of 0..3 attributes out of 5 kinds; 70 password lengths and 14 to 65540; contents to 2^20 bytes; 7 container types x 3 paddings",
  "400 numbers per curve, sequences of 4 attributes, 130 password lengths")
P("C21", [dict(harness="h_read", flavor="asan", cxx=ENG, fast=FAST)],
  "three formats x 4-7 sizes (smallest, and around every power of two to 3072) x every chunk size 1..114 (Key-6: 1..24) and 16 larger ones, each source read twice; all sequences of 4 chunk sizes out of 6 x 3 continuations x 2 sizes (JKS, PKCS#12); a failing read at each of 24 positions x 4 chunk sizes x 3 sizes; 8 kinds of BIO x 10 sizes; stdio files with 24 chunk sizes x 3 bufferings x failing read; start offsets; every truncation; 10 sizes to 10^6 bytes x 10 chunk sizes x 5 ways",
  "chunk sizes 1..1040, sequences of 5, 10 sizes", technique="exhaustive enumeration of delivery schedules (chunk sizes and failures of every read) on the real code",
  assumptions=[TRUST, "A failing read after the last byte was delivered counts as the end of the data."])
P("C23", [dict(harness="h_curve", flavor="asan", cxx=ENG)],
  "ten named curves x 6 ways of reaching them x 3 s-boxes x both byte orders against an independently transcribed table whose mathematics is checked (irreducible polynomial, prime order, base point of that order); variations of each: 16 base points, every 9th bit of b and of the order, other a, 8 other irreducible polynomials, spellings; 8 small and 6 further curves",
  "every bit of b and of the order, 200 base points, 60 polynomials")
P("C22", [dict(harness="h_pbe", flavor="asan", cxx=ENG)],
  "HMAC: key lengths 0..71 x data 0..69 x 4 cuts, all sequences of depth 5; PBKDF2 40 passwords x 12 salts x 3 iteration counts x 6 lengths; PBES2 written, read and with wrong passwords; digest-sign: lengths 0..69 x splits x 4 s-boxes x 6 keys, alterations, sequences of depth 4 over two contexts, keys of other algorithms; CMS: 5 keys x 3 s-boxes x 5 flag sets x 20 lengths, every bit of content, digest attribute and signature, the repository's fixture; PKCS#7",
  "longer keys and data, sequences of depth 6 and 5", technique=ALL_SEQ,
  assumptions=[TRUST, "libcrypto binds a digest-sign context to its first key.", "PKCS#7 hashes with the default s-box.", "Signatures of X.509 certificates are not covered: the engine registers no signature algorithm identifier for them."])
FAULTS = "exhaustive fault injection on the real code: every point of every operation fails in turn, followed by recovery"
P("C13", [dict(harness="h_fault", flavor="asan", cxx=ENG, fast=FAST)],
  "every operation that draws (sign, digest-sign, generate, CMS, PBES2, masking while decoding, encoding and verifying) on 5 curves x both byte orders: every draw fails, alone or with all later ones, with result 0 or -1, leaving the buffer as it was or filled (2 patterns), after 0..2 draws of zero; then the same without failure",
  "18 curves", technique=FAULTS, assumptions=[TRUST, "The random source is a stand-in RAND_METHOD."])
P("C14", [dict(harness="h_fault", flavor="asan", cxx=ENG, fast=FAST)],
  "126 operations (sign, verify, encode, decode, print, compare, copy, generate, digest, cipher, PBES2, three containers in three ways, CMS, random generator) on 3 curves: every allocation fails, alone or with all later ones (of Key-6 and of two of the three ways of reading a container: the first and last 20-200), then the same without failure",
  "18 curves, every allocation of every way of reading", technique=FAULTS,
  assumptions=[TRUST, "Allocations are those made through libcrypto's allocator (all of the engine's and key library's).", "libcrypto itself succeeds wrongly after some failed allocations in CMS_sign and CMS_final; only CMS_add1_signer, which calls the engine, is made to fail."])
P("C15", [dict(harness="h_life", flavor="asan", so=True, fast=FAST)],
  "every history of 4 operations out of load (into the list, unlisted, by identifier, by configuration, under a wrong identifier, again while it is there), initialise, finish, set default, random generator, open/close digest and cipher, key and signing contexts, report errors, unload; in use after every step or not; everything closed and loaded once more (the shared object unmapped in between or not), or left open at exit; 16 cycles in each way and use; every allocation of loading failing, once or from then on",
  "histories of 5 operations", technique="exhaustive stateless exploration of life-cycle histories of the real shared object, each in a process of its own",
  assumptions=[TRUST, "The application unregisters the engine before it drops the last reference (libcrypto's tables hold none, and the engine cannot do it itself: it is destroyed under libcrypto's lock)."])
P("C24", [dict(harness="h_der", flavor="asan", cxx=ENG, fast=FAST)],
  "30 well-formed objects (public and private keys and parameters on 3 small curves and a named one, both byte orders, with and without an s-box; signatures; certificates; cipher parameters): every value of every byte (on one curve; 37 values on the others and in certificates), every truncation, deletion and insertion, every single edit of the DER tree out of about 80 per node, a fifth of all pairs of edits and a seventh of the pairs of 10 values of bytes at an even distance, all pairs of unusual curve numbers, values of every length 0..39; each offered twice with fresh memory filled differently, and used in every way if accepted",
  "every value of every byte, all pairs of edits and of bytes",
  assumptions=[TRUST, SMALL])
P("C25", [dict(harness="h_conc", flavor="access", cxx=ENG + ["fiber.cpp"], wrap=LOCKW, ext=True, cdefs=["-fno-builtin"])],
  "every pair of 22 operations (digests, ciphers, sign, verify, digest-sign, encode, decode good and damaged, generate, print, compare, copy, PBKDF2, reading a store) on separate objects, the same operation on separate objects with the same curve and s-box, every pair of 13 operations on one key, 9 triples: every schedule with at most 3 preemptions (2 with a shared key) at conflicting accesses; each kind of operation twice, and the triples, with at most 1 preemption at every call into a library as well; results equal to the same thread running alone",
  "4 preemptions (3 with a shared key); every pair of operations with 1-2 preemptions at every call",
  technique="stateless model checking of thread schedules under a controlled scheduler (preemption bounded, reduced to conflicting accesses)",
  note="Scheduling points are the accesses and calls that touch memory another thread reaches and somebody writes (learnt in sequential runs of the same scenario, static data byte-compared at every call), and in some groups every call into a library. Calls into libcrypto and libc are atomic.",
  assumptions=[TRUST, "Sequentially consistent memory", "libcrypto is safe for separate objects and for reading shared ones; its own thread-local state is shared by the explored threads."])
