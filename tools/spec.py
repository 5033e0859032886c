"""Property texts. tools/gen.py turns them into properties.jsonl and MANIFEST.json."""
S = {}

def P(id, title, statement, over, text, why, files, mech, observe, state=()):
    S[id] = dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                 anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                              mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=observe, hook_needed=None))

P("C01", "Message digest is a function of the bytes and the s-box only",
  "A DSTU GOST 34.311 digest computed through the EVP interface equals the standard's value for the whole message and the s-box in force, however the message is cut into updates and whatever happened to the context before (re-initialisation, reuse after finalising, copying, custom s-box before the data). A copied context continues independently of its source, and a rejected s-box control changes nothing.",
  ["inputs", "histories"],
  "all message lengths and splits into updates, all init/update/final/copy/s-box sequences over two contexts, several s-boxes, messages beyond 2^32 bits",
  "Tests hash a few fixed strings in one or two updates; partial-block carries, long messages, copies and custom s-boxes are never combined.",
  ["engine/md.c", "dstulib/gost/gosthash.c", "dstulib/params.c"],
  [("block buffering, checksum and length counters", "dstulib/gost/gosthash.c hash_block/finish_hash"), ("context copy re-points the cipher context", "engine/md.c dstu_md_copy")],
  ["EVP_DigestInit_ex/Update/Final_ex", "EVP_MD_CTX_copy_ex", "EVP_MD_CTX_ctrl"],
  [("dstu_digest_ctx", "hash state, remainder, length, s-box tables", "engine/md.c")])

P("C02", "CFB encryption is a byte stream: chunking and buffers do not matter",
  "For every key, IV and s-box, encrypting (or decrypting) data with the DSTU GOST 28147 CFB cipher produces exactly the standard's output regardless of how the data is split into update calls (including empty updates), whether input and output buffers coincide, and whether the context was copied midway. Decryption is the exact inverse of encryption and output length always equals input length.",
  ["inputs", "histories"],
  "all lengths and splits up to the bound, in-place and out-of-place, both directions, context copies at every point",
  "Tests encrypt and decrypt two fixed short strings in one call, never cutting inside a block, in place or after a copy.",
  ["engine/cipher.c", "dstulib/gost/gost89.c"],
  [("gamma buffer, position counter and feedback register kept in the EVP context", "engine/cipher.c dstu_cipher_do_cipher"), ("block CFB loops", "dstulib/gost/gost89.c gost_enc_cfb/gost_dec_cfb")],
  ["EVP_CipherUpdate", "EVP_CipherFinal_ex", "EVP_CIPHER_CTX_copy"],
  [("num/buf/iv", "position in the gamma block, gamma, feedback register", "EVP_CIPHER_CTX")])

P("C03", "Cipher configuration: every order of key, IV, s-box and parameters counts",
  "After any sequence of initialisation calls that supply key, IV or direction together or separately, re-initialisations, s-box controls and stored algorithm parameters, the next data is processed from the start of the stream (every such call restarts it) with the most recently supplied key and IV, and with the s-box set since the last initialisation call that supplied both key and IV (otherwise the default one). Algorithm parameters written from a context carry its IV and s-box, restoring them into a context with the same key reproduces its ciphertext, and malformed parameters are rejected.",
  ["histories", "inputs"],
  "all sequences of configuration and data operations up to the depth bound over two keys, two IVs and three s-boxes; all single-byte corruptions of the parameters' structure",
  "Tests only ever initialise with key and IV together and never set an s-box, re-key or round-trip parameters.",
  ["engine/cipher.c", "dstulib/params.c", "dstulib/gost/gost89.c"],
  [("init, s-box control and ASN.1 parameter callbacks", "engine/cipher.c"), ("s-box pack/unpack", "dstulib/params.c")],
  ["EVP_CipherInit_ex", "EVP_CIPHER_CTX_ctrl", "EVP_CIPHER_param_to_asn1", "EVP_CIPHER_asn1_to_param"])

P("C04", "GOST 28147-89 library primitives compute the standard for every input",
  "The library's block encryption and decryption (plain and key-masked set-up alike), ECB, CFB, MAC of every supported bit length and iterated MAC blocks equal GOST 28147-89 for every key, s-box and data length in range, decryption inverts encryption, and packing and unpacking s-boxes are inverse. Functions write only within their output size and in-place operation gives the same result.",
  ["inputs"],
  "every s-box nibble, every key/data basis vector and low-weight pattern, all lengths and MAC bit sizes up to the bound",
  "Tests compare one CFB vector; MAC, ECB, custom s-boxes and most round-key paths are never compared with anything.",
  ["dstulib/gost/gost89.c", "dstulib/gost/gost89.h", "dstulib/params.c"],
  [("round function with precomputed tables and key mask", "dstulib/gost/gost89.c"), ("pack_sbox/unpack_sbox", "dstulib/params.c")],
  ["gost_enc, gost_dec, gost_enc_cfb, gost_dec_cfb, gost_mac, gost_mac_iv, get_mac, mac_block, gostcrypt, gostdecrypt"])

P("C05", "Signing: every produced signature is the DSTU 4145 one and verifies",
  "For every private key, hash and sequence of random bytes, signing produces a DER octet string holding s and r in fixed-width halves in the key's byte order, with r and s exactly as DSTU 4145 defines them for a nonce in 1..n-1 that was drawn uniformly from the random source; degenerate draws (zero nonce, zero r, zero s) are redrawn, never emitted or fatal. The reported size never falls short of what is written, and a too small buffer is refused without being written.",
  ["inputs", "configurations"],
  "all private keys x all nonces x all hash residues on small curves in both byte orders, plus named curves",
  "Tests sign a handful of messages with one curve and only check that verification succeeds, which would hide nonce bias or rare-retry bugs.",
  ["engine/sign.c", "engine/pmeth.c", "dstulib/params.c", "engine/ameth.c"],
  [("retry loops and truncation", "engine/sign.c dstu_do_sign"), ("encoding and size query", "engine/pmeth.c dstu_pkey_sign")],
  ["EVP_PKEY_sign", "EVP_PKEY_size"])

P("C06", "Verification accepts exactly the signatures the standard accepts",
  "For every public key in the curve's prime-order subgroup, hash and candidate signature, verification succeeds if and only if both numbers lie in 1..n-1 and satisfy the DSTU 4145 equation, whether the signature comes as raw halves or as a DER octet string that spans the input and holds at least two halves, and in either byte order. Odd, short or otherwise malformed input is rejected, and verification never modifies the key, the hash or the signature.",
  ["inputs"],
  "all (public key, hash residue, r, s) on small curves including out-of-range r and s, all lengths and paddings, all single-bit corruptions on named curves",
  "Tests verify valid signatures and perhaps one corrupted one; boundary values of r and s, equation edge cases and encodings are unreachable by sampling.",
  ["engine/sign.c", "engine/pmeth.c"],
  [("range checks, R = sG + rQ, truncation", "engine/sign.c dstu_do_verify"), ("DER/raw parsing and byte order", "engine/pmeth.c dstu_pkey_verify")],
  ["EVP_PKEY_verify", "EVP_DigestVerify*"])

P("C07", "Public keys survive encoding: one point, one encoding",
  "Encoding a public key and decoding it gives back the same curve point, s-box, curve and byte order, in both byte orders, for every point of the curve's prime-order subgroup whose compressed form is not zero; the encoding is the standard's compressed form in an octet string with the shortest faithful parameters. Decoding a string of at least the field's length succeeds exactly when its value denotes a point of the curve and otherwise fails cleanly.",
  ["inputs", "configurations"],
  "all points and all octet strings of field length (and shorter and longer ones) of small curves; points of all named curves; default and custom s-boxes",
  "Tests decode two fixed public keys; point compression depends on traces and quadratic solving that only few inputs exercise.",
  ["dstulib/compress.c", "engine/ameth.c", "dstulib/key.c", "dstulib/asn1.c"],
  [("compression and expansion", "dstulib/compress.c"), ("SubjectPublicKeyInfo callbacks", "engine/ameth.c")],
  ["i2d_PUBKEY", "d2i_PUBKEY"])

P("C08", "Private keys and parameters survive encoding and imply the public key",
  "Decoding a PKCS#8 private key restores the exact private number, curve (named or custom), s-box and byte order and derives the matching public key Q = -dG; encoding writes them back byte for byte in canonical form, so decode-encode-decode is stable. A key without private part is never encoded as a private key, parameters round-trip on their own, and invalid parameters (unknown curve, wrong s-box length, polynomial exponents not below the degree or degree above 661, base point off the curve) are rejected without leaks.",
  ["inputs", "configurations"],
  "all private numbers of small curves, all named curves, every custom-curve description variant, default and custom s-boxes, both byte orders",
  "Tests load two fixed PEM keys.",
  ["engine/ameth.c", "dstulib/key.c", "dstulib/asn1.c", "dstulib/params.c", "dstulib/compress.c"],
  [("PKCS#8 callbacks", "engine/ameth.c"), ("parameter conversion", "dstulib/key.c asn1_from_key/group_from_asn1/key_from_asn1")],
  ["EVP_PKCS82PKEY", "EVP_PKEY2PKCS8", "i2d/d2i_KeyParams"])

P("C09", "Key and parameter comparison and copying are faithful",
  "Comparing two DSTU keys reports equal exactly when their curve, effective s-box and public point coincide, is reflexive and symmetric, and a key with missing parts never compares equal to a complete one nor crashes. Copying parameters into a key that lacks them makes its curve and s-box equal to the source's, copying between keys that have them succeeds only if they are equal, and the two stay independent without leaks.",
  ["inputs", "histories"],
  "all ordered pairs from a set of keys spanning byte order, curves, custom and default s-boxes, private/public/parameter-only/blank keys; all copy sequences up to the bound",
  "Tests never compare or copy keys.",
  ["engine/ameth.c", "dstulib/key.c"],
  [("param_cmp, pub_cmp, param_copy", "engine/ameth.c")],
  ["EVP_PKEY_eq", "EVP_PKEY_parameters_eq", "EVP_PKEY_copy_parameters", "EVP_PKEY_missing_parameters"])

P("C10", "Key generation obeys the context's settings in any order",
  "Whatever sequence of curve and s-box settings (numeric or textual, valid or invalid) and context copies precedes it, key generation yields a key on the most recently accepted curve (the default one if none) with the most recently accepted s-box, a private number uniformly drawn from 1..n-1 and the public point -dG. Rejected settings change nothing, a duplicated context is independent of its source, and nothing leaks.",
  ["histories", "inputs"],
  "all setting/duplicate/generate sequences up to the bound; every random draw on small curves",
  "Tests generate a key with default settings only.",
  ["engine/pmeth.c", "dstulib/key.c", "dstulib/params.c"],
  [("ctrl/ctrl_str/copy/keygen callbacks", "engine/pmeth.c"), ("dstu_generate_key", "dstulib/params.c")],
  ["EVP_PKEY_CTX_ctrl", "EVP_PKEY_CTX_ctrl_str", "EVP_PKEY_CTX_dup", "EVP_PKEY_keygen"])

P("C11", "Random generator: output is the standard's sequence, never repeated or invented",
  "The engine's random generator, once seeded, delivers exactly the DSTU 4145 generator's bit sequence for that seed and start time, independent of how requests are divided; it seeds itself exactly once per life from the system generator, and after cleanup it starts again from a fresh seed and stays usable. If seeding fails the request fails and nothing that looks like random output is delivered.",
  ["histories", "fault_sequences", "inputs"],
  "all sequences of request/status/seed/cleanup operations up to the bound, with seeding succeeding or failing at every attempt",
  "Tests draw bytes once and only look at the return code.",
  ["engine/rbg.c", "dstulib/gost/gost89.c"],
  [("seeding and bit generator", "engine/rbg.c")],
  ["ENGINE_get_RAND: bytes, status, add, seed, cleanup"],
  [("I, s, cryptor, initialized", "generator state", "engine/rbg.c")])

P("C12", "Random generator is safe under concurrent use",
  "When several threads request random bytes, ask for status or seed concurrently, the generator is seeded once and the returned blocks are disjoint consecutive pieces of one generator sequence in some order of the calls: no output is shared between callers, lost, or computed from a half-updated state.",
  ["schedules"],
  "all interleavings of 2-3 threads at basic-block granularity up to the preemption bound",
  "The tests are single threaded; a missing lock shows only under particular preemptions.",
  ["engine/rbg.c"],
  [("one lock around every state access, created once", "engine/rbg.c dstu_lock/dstu_unlock")],
  ["ENGINE_get_RAND: bytes, status"])

P("C13", "A failing random source never yields a key or signature",
  "If the random source fails at any of the draws made by signing or key generation, that operation reports failure and produces no signature or key; an operation that draws only to protect against side channels (decoding, encoding, verifying) either fails or gives the right result. Inputs are left untouched, nothing leaks, and the same objects work again once the source recovers.",
  ["fault_sequences"],
  "failure at every draw (once or permanently) of every operation on all small and some named curves",
  "Tests never make the random source fail.",
  ["engine/sign.c", "engine/pmeth.c", "dstulib/params.c"],
  [("return checks of the drawing calls", "engine/sign.c, dstulib/params.c")],
  ["EVP_PKEY_sign", "EVP_PKEY_keygen"])

P("C14", "Memory exhaustion is an error, never a crash or leak",
  "If any memory allocation made during an engine or key-store operation fails, the operation reports failure (or completes correctly where the memory was optional) without touching invalid memory, leaves no dangling result, leaks nothing, and the next attempt succeeds.",
  ["fault_sequences"],
  "failure of every single allocation of every listed operation, once and permanently from there on",
  "Tests never fail an allocation.",
  ["engine/ameth.c", "engine/pmeth.c", "engine/sign.c", "dstulib/key.c", "dstulib/params.c", "dstulib/compress.c", "keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c", "keylib/keystore.c", "keylib/utils.c"],
  [("allocation checks and error paths", "all files")],
  ["all public operations under CRYPTO_set_mem_functions"])

P("C15", "Engine life cycle: load, initialise, finish, reload in any order",
  "The engine can be loaded, initialised, used, finished, removed and loaded again any number of times in any legal order, with objects obtained earlier released before or after; each stage either works fully (digest, cipher, keys, random generator, password-based encryption all available and correct while initialised, errors with their texts) or fails cleanly, and no order of release touches freed memory or frees twice.",
  ["histories"],
  "all sequences of life-cycle and use operations up to the depth bound, each in a fresh process with the real shared object",
  "Each test loads the engine once and exits.",
  ["engine/dstu.c", "engine/err.c", "engine/rbg.c"],
  [("bind, init, finish callbacks and cached methods", "engine/dstu.c")],
  ["ENGINE_by_id", "ENGINE_init", "ENGINE_finish", "ENGINE_free", "EVP lookups"])

P("C16", "JKS stores yield exactly their contents",
  "Reading a well-formed Java key store (JKS or JCEKS header, version 2) with the right passwords yields exactly the keys and certificates it contains, in order, for every combination of private-key entries (with zero or more certificates and one or two keys each) and trusted-certificate entries, with any aliases, timestamps and non-empty passwords. A store containing an entry that cannot be read is refused as a whole.",
  ["inputs", "configurations"],
  "all entry-type sequences, chain lengths, alias lengths, key sizes and password classes up to the bounds",
  "Tests read one fixed store.",
  ["keylib/jks.c", "keylib/utils.c", "keylib/keystore.c"],
  [("entry parsers and key protector", "keylib/jks.c")],
  ["parseJKS, readJKS, readJKS_bio", "KeyStore accessors"])

P("C17", "Malformed key containers are refused without memory errors",
  "For every byte sequence offered as a JKS, Key-6 or PKCS#12 container (truncated, extended, or with corrupted lengths, tags, counts and nested structures), parsing terminates, touches no memory outside its input, returns failure or a valid store, leaks nothing and leaves no store behind on failure.",
  ["inputs"],
  "every truncation, every length/count field at boundary values, every single-byte corruption at structural positions of small containers, re-signed where a digest protects them",
  "Tests read only intact files.",
  ["keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c", "keylib/utils.c", "keylib/keystore.c"],
  [("bounds checks while walking the container", "keylib/jks.c"), ("ASN.1 decoding", "keylib/key6.c, keylib/utils.c")],
  ["parseJKS, parseKey6, parsePKCS12"])

P("C18", "PKCS#12 containers yield exactly their contents",
  "Reading a PKCS#12 container with the right password yields exactly the private keys and certificates it holds, in order, for every arrangement of plain and encrypted safes, nested safe bags, plain and shrouded key bags, certificate bags and other bags; containers holding neither keys nor certificates are refused.",
  ["inputs", "configurations"],
  "all arrangements of safes and bags up to the bound, with standard and DSTU password-based encryption",
  "Tests read one fixed file.",
  ["keylib/pkcs12.c", "keylib/keystore.c"],
  [("two-pass bag walk", "keylib/pkcs12.c")],
  ["parsePKCS12, readPKCS12, readPKCS12_bio", "KeyStore accessors"])

P("C19", "Key-6 containers yield exactly their keys",
  "Reading an IIT Key-6 container with the right password yields the private key it holds and, when the attributes describe a second (key-agreement) key, that key as well with its own curve, for every split of the ciphertext between body and padding field, every key, curve and password; a container of another type is refused.",
  ["inputs", "configurations"],
  "all private numbers of small curves, padding splits, attribute orders and presence, password lengths up to the bounds",
  "Tests read one fixed file.",
  ["keylib/key6.c", "keylib/utils.c", "keylib/iit_asn1.c", "keylib/attrcurvespec_asn1.c"],
  [("password key derivation and ECB decryption", "keylib/key6.c"), ("second key from attributes", "keylib/utils.c")],
  ["parseKey6, readKey6, readKey6_bio", "KeyStore accessors"])

P("C20", "Wrong password or any tampering never opens a JKS or PKCS#12 container",
  "A JKS or PKCS#12 container opened with any wrong store password or (JKS) wrong key password, or after any change to its protected bytes (a JKS store up to and including its digest; a PKCS#12 container's authenticated content, MAC and MAC salt) is refused and yields no store; the given length, not a terminating zero, delimits a password. A PKCS#12 container without MAC is refused.",
  ["inputs"],
  "every single-byte change of every protected byte of small containers; all single-character edits, prefixes and extensions of the passwords",
  "Tests use the right password (and at most one wrong one).",
  ["keylib/jks.c", "keylib/pkcs12.c"],
  [("store digest and key protector check", "keylib/jks.c"), ("MAC verification", "keylib/pkcs12.c")],
  ["parseJKS, parsePKCS12"])

P("C21", "Container readers give the same result however the bytes arrive",
  "Reading a container from a BIO or FILE gives the same result as parsing the same bytes from memory, for every way the source delivers the bytes (any sizes of short reads, data ending exactly on or just beside buffer boundaries); an empty or failing source is refused, and the source stays owned by and usable to the caller.",
  ["inputs", "fault_sequences"],
  "all delivery patterns up to the bound for the three readers, container sizes around the buffer size",
  "Tests read whole files in full blocks.",
  ["keylib/jks.c", "keylib/key6.c", "keylib/pkcs12.c"],
  [("read loops", "readJKS_bio, readKey6_bio, readPKCS12_bio")],
  ["readJKS_bio, readKey6_bio, readPKCS12_bio, readJKS, readKey6, readPKCS12"])

P("C22", "Password-based protection, HMAC and CMS compose correctly with the engine",
  "HMAC, PBKDF2 and PBES2 built on the engine's digest and cipher equal the standards' values for every key, password, salt and data length; DSTU private keys encrypted that way decrypt to the same key only with the right password. Signing and verifying whole messages through the digest-sign interface uses the key's own s-box, accepts exactly the signed message, and CMS messages signed with a DSTU key verify and stop verifying when altered.",
  ["inputs", "histories"],
  "all key/salt/data lengths around block boundaries, all chunkings of signed messages, all s-boxes; every single-byte change of small signed messages",
  "Tests check one CMS file and fixed PEM keys.",
  ["engine/md.c", "engine/cipher.c", "engine/dstu.c", "engine/pmeth.c", "engine/ameth.c"],
  [("PRF control and registration", "engine/cipher.c, engine/dstu.c"), ("digest init picks the key's s-box", "engine/md.c")],
  ["HMAC", "PKCS5_PBKDF2_HMAC", "PKCS8_encrypt/decrypt", "EVP_DigestSign/Verify", "CMS_sign/CMS_verify"])

P("C23", "Named curves are the standard's ten curves",
  "Each of the ten named curves has the field, coefficients, base point and order of DSTU 4145, the base point lies on the curve and has that prime order, and a group is recognised as a named curve exactly when it is that curve (any other group is written with explicit parameters).",
  ["configurations", "inputs"],
  "all ten curves and all single-parameter variations of them",
  "Tests use one or two of the ten curves, and wrong constants would still be self-consistent.",
  ["dstulib/params.c", "dstulib/key.c"],
  [("curve table and recognition", "dstulib/params.c")],
  ["EVP_PKEY_CTX_ctrl_str(curve)", "parameter encoding"])

P("C24", "Malformed keys, parameters and signatures are refused without memory errors",
  "For every byte sequence offered as a DSTU public key, private key, parameter set, cipher parameter or signature, decoding and verification terminate promptly, touch no memory outside their input, leak nothing, and either fail or produce an object that all other operations (encode, compare, print, sign, verify, free) handle safely.",
  ["inputs"],
  "every truncation, every single-byte corruption with boundary values and every structural edit of small DER objects; degree, order and coefficient boundary values",
  "Tests decode only well-formed keys.",
  ["engine/ameth.c", "engine/pmeth.c", "dstulib/key.c", "dstulib/compress.c", "dstulib/asn1.c"],
  [("decoding callbacks and their error paths", "engine/ameth.c"), ("curve construction from untrusted numbers", "dstulib/key.c")],
  ["d2i_PUBKEY", "EVP_PKCS82PKEY", "d2i_KeyParams", "EVP_PKEY_verify"])

P("C25", "Independent objects used by different threads do not affect each other",
  "Digest, cipher, signing, verification, encoding and decoding on separate objects running concurrently in different threads give the same results as when run alone; sharing one key between threads for signing and verifying is safe.",
  ["schedules"],
  "all interleavings of two and three threads, switching at every access to memory another thread reaches and at every call into a library, up to the preemption bound",
  "The tests are single threaded; hidden shared state (static buffers, lazily built tables) shows only under particular preemptions.",
  ["engine/md.c", "engine/cipher.c", "engine/sign.c", "engine/ameth.c", "dstulib/gost/gost89.c", "dstulib/gost/gosthash.c", "dstulib/key.c"],
  [("all working state lives in the caller's context or on the stack", "engine, dstulib")],
  ["EVP interfaces"])
