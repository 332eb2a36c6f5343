#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the long texts stay readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None, hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files, state=state or [],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=observe, hook_needed=hook)))

prop("C01", "Parameter-set names, OIDs and all derived sizes match the standard",
 "For every name and every 32-bit OID, the lookup functions accept exactly the 21 XMSS and 56 XMSS^MT parameter sets of RFC 8391 / NIST SP 800-208, map each name to its registered OID, and fill in exactly the standard's hash function, n, padding length, w, WOTS lengths, heights, layer count, index length, signature length and public-key length; any other name or OID is refused with a negative return. Custom parameters (n, w in {4,16,256}, heights, layers) are expanded by the same formulas, any other w is refused, and the reported secret-key size is exactly the number of bytes key generation lays out.",
 ["inputs", "configurations"], "all 2^32 OIDs for both families; all strings up to 24 bytes; all custom (n, w, height, d, bds_k) in the documented ranges",
 "test/oid only checks that the 77 good names are recognised and their OIDs parse; it never looks at a parameter value, a wrong name, or an unassigned OID, and signing is only tested for two sets.",
 ["params.c", "params.h", "xmss_core.c", "xmss_core_fast.c"],
 [("xmss_str_to_oid / xmssmt_str_to_oid", "params.c"), ("xmss_parse_oid / xmssmt_parse_oid", "params.c"), ("xmss_xmssmt_initialize_params", "params.c"), ("xmss_xmssmt_core_sk_bytes", "xmss_core.c, xmss_core_fast.c")],
 ["return value and the xmss_params structure"])

prop("C02", "Keyed hash functions hash exactly the domain-separated input of the standard",
 "For every supported hash/n/padding combination and all keys, inputs, addresses and messages, F, H, PRF, PRF_keygen and H_msg apply the parameter set's hash function, truncated to n bytes, to exactly toByte(domain, padding length) || key || message with domain values 0, 1, 4(keygen), 3(PRF), 2(H_msg), masks and keys taken from PRF over the address with keyAndMask 0, 1, 2; they report success, write exactly n bytes, and the message hash covers R, root, index and every byte of the message. A hash/n combination that is not supported is refused.",
 ["inputs", "configurations"], "all byte values of keys, seeds, inputs, addresses and messages (message length up to a stated bound), all seven supported (function, n) pairs and all unsupported ones",
 "Sign/verify tests use the same hash code on both sides, so a wrong domain byte, address word or truncated input cancels out; SHAKE, n=24 and n=64 are never signed with.",
 ["hash.c", "hash_address.c", "utils.c"],
 [("prf / prf_keygen / thash_f / thash_h / hash_message", "hash.c"), ("core_hash", "hash.c"), ("addr_to_bytes, set_key_and_mask", "hash.c, hash_address.c")],
 ["n-byte outputs as a function of the digest primitive"])

prop("C03", "SHAKE128 and SHAKE256 compute the FIPS 202 functions",
 "For every input and every output length, shake128 and shake256 write exactly the requested number of bytes, and those are the bytes FIPS 202 defines for that input.",
 ["inputs"], "all input contents, for every input length and output length within the stated bound (all lengths the scheme uses and every block boundary)",
 "No test compares a SHAKE output with anything: test/vectors prints digests nobody checks and no SHAKE parameter set is exercised by the suite.",
 ["fips202.c", "fips202.h"],
 [("KeccakF1600_StatePermute", "fips202.c"), ("keccak_absorb / keccak_squeezeblocks", "fips202.c"), ("shake128 / shake256", "fips202.c")],
 ["output buffer"])

prop("C04", "WOTS+ key generation, signing and public-key recovery agree with RFC 8391",
 "For every seed, public seed, address and n-byte message, WOTS+ key generation, signing and public-key-from-signature compute exactly the RFC 8391 / SP 800-208 values, using each chain's own address for every hash call; in particular recovering the public key from any signature made by the signer yields the generated public key. This holds for every n in {24,32,64} and w in {4,16,256}.",
 ["inputs", "configurations"], "all seeds, addresses, messages and (for recovery) all signature bytes; n in {24,32,64}, w in {4,16,256}",
 "test/wots checks one random message with one parameter set and only that the two sides agree with each other.",
 ["wots.c", "wots.h", "hash_address.c"],
 [("wots_pkgen / wots_sign / wots_pk_from_sig", "wots.c"), ("gen_chain, expand_seed", "wots.c"), ("base_w, wots_checksum", "wots.c")],
 ["pk and sig buffers"])

prop("C05", "A WOTS+ signature cannot be advanced into one for a different message",
 "For any two different n-byte messages, some hash chain is revealed strictly further for the first than for the second and some other strictly less far, so no WOTS+ signature on one message can be turned into a signature on another just by hashing forward. This holds for every supported n and every accepted Winternitz parameter (4, 16, 256).",
 ["inputs", "configurations"], "all pairs of distinct messages, n in {24,32,64}, w in {4,16,256}",
 "It is a property of pairs of messages over a 2^192..2^512 space; the tests sign random messages with w=16 and never compare two encodings.",
 ["wots.c"],
 [("wots_checksum", "wots.c"), ("base_w / chain_lengths", "wots.c")],
 ["which chain positions wots_sign reveals"])

prop("C06", "A leaf is the RFC L-tree compression of its WOTS+ public key",
 "For every seed, public seed and pair of addresses, leaf generation returns exactly the RFC 8391 L-tree root of the WOTS+ public key for that address, hashing every public-key element exactly once with the tree height and index the standard prescribes, for each number of chains that a supported n and w give (including odd-row promotion).",
 ["inputs", "configurations"], "all seeds and addresses; all WOTS lengths arising from n in {24,32,64} and w in {4,16,256}",
 "The same L-tree code serves signer and verifier, so any error cancels in sign/verify tests; only len=67 is ever run.",
 ["xmss_commons.c", "xmss_commons.h"],
 [("gen_leaf_wots", "xmss_commons.c"), ("l_tree", "xmss_commons.c")],
 ["leaf buffer"])

prop("C07", "Verification accepts exactly when RFC 8391 verification does",
 "For every public key, and every byte string at least as long as a signature, verification returns 0 if and only if the root recomputed by the RFC 8391 (multi-tree) verification algorithm from index, R, every WOTS+ signature, every authentication path and every message byte equals the public root; on success it returns exactly the trailing message and its length, and the inputs are left unmodified.",
 ["inputs", "configurations"], "all signed-message bytes and public keys, every parameter set (message length bounded)",
 "Tests flip one bit of the last message byte of honest signatures for two SHA2-256 parameter sets; they say nothing about other fields, other sets, or adversarial input.",
 ["xmss_commons.c", "xmss.c"],
 [("xmss(mt)_core_sign_open", "xmss_commons.c"), ("compute_root", "xmss_commons.c"), ("xmss(mt)_sign_open", "xmss.c")],
 ["return value, m, mlen"])

prop("C08", "Verification of any byte string of any length is memory-safe and fails closed",
 "For every length of the signed message, including zero and any length shorter than a signature, verification reads only the given bytes and the public key and writes only within the first smlen bytes of the output buffer plus the length; anything shorter than a signature is rejected with a non-zero return and length 0.",
 ["inputs", "configurations"], "every smlen from 0 up to signature length plus a bounded message, all contents, every parameter set",
 "The tests only ever pass well-formed signatures of the right length.",
 ["xmss_commons.c", "xmss.c"],
 [("length handling in xmssmt_core_sign_open", "xmss_commons.c")],
 ["memory accesses, return value, mlen"])

prop("C09", "A rejected message is not released to the caller",
 "Whenever verification rejects, the reported message length is 0 and no byte of the unauthenticated message is left anywhere in the caller's output buffer.",
 ["inputs"], "all rejected inputs, message lengths up to a bound covering shorter and longer than a signature",
 "Tests look only at the return value after tampering, never at the output buffer or length.",
 ["xmss_commons.c"],
 [("zeroing on root mismatch", "xmss_commons.c")],
 ["m, mlen after a non-zero return"])

prop("C10", "Signing produces exactly the RFC 8391 signature for the key's current index",
 "For every secret key, every index from 0 to 2^h-1 (or the last usable one) and every message, signing returns 0 and outputs index || R || per-layer WOTS+ signature and authentication path || message, each with the value, layer/tree/leaf address and length RFC 8391 prescribes for that index, and smlen is the signature length plus the message length.",
 ["inputs", "configurations"], "all seeds, message contents and indices symbolic, for tree heights and layer counts within the stated bound",
 "At most the first 1024 indices of two parameter sets are ever signed with; the top layers of a hypertree never move in the tests.",
 ["xmss_core.c", "xmss_commons.c"],
 [("xmssmt_core_sign", "xmss_core.c"), ("treehash", "xmss_core.c")],
 ["sm, smlen"])

prop("C11", "Every signature made by a generated key verifies and returns the message",
 "For a key pair produced by key generation from any randomness and any message, each signature the key makes verifies under the public key and the verifier returns exactly the signed message, in both the reference and the fast implementation.",
 ["inputs", "histories", "configurations"], "all randomness and messages; complete key lifetimes for tree sizes within the stated bound, both implementations",
 "Tests run this for random data on two parameter sets, and in fact the last signature of a fast key does not verify on the original tree.",
 ["xmss.c", "xmss_core.c", "xmss_core_fast.c", "xmss_commons.c", "wots.c", "hash.c"],
 [("keypair / sign / sign_open", "xmss_core.c, xmss_core_fast.c, xmss_commons.c")],
 ["return values, recovered message"])

prop("C12", "Each signing call uses the stored index once and advances it by exactly one",
 "Every successful signing call puts the index currently stored in the secret key into the signature, uses only that index's one-time key, and leaves the stored index increased by exactly one, with the secret seeds, public seed and root unchanged until the key is exhausted; so no history of signing calls ever uses a one-time key twice. A failing call never emits a signature and never lowers the index.",
 ["histories", "inputs", "configurations"], "every stored index value (all index widths), every parameter set, both implementations",
 "The quantifier is over 2^h .. 2^60 index values and byte carries; tests see indices 0..1023 only.",
 ["xmss_core.c", "xmss_core_fast.c", "utils.c"],
 [("index read/increment in xmss(mt)_core_sign", "xmss_core.c, xmss_core_fast.c")],
 ["index bytes of sk and sm"],
 state=[dict(name="index", meaning="next unused one-time key", where="first index_bytes of sk")])

prop("C13", "The last signature is valid and an exhausted key refuses forever and is erased",
 "The last one-time key still yields a correct signature (except where the index field has no value left to mark exhaustion, in which case it is withheld); after it, and for any stored index outside the usable range, every signing call returns a non-zero code, produces no signature, and leaves a key whose secret seeds are erased and which never signs again.",
 ["histories", "inputs", "configurations"], "every index at and beyond the end of the range, every parameter set, both implementations",
 "test/maxsigs only looks at return codes (and the 2^20 variant takes hours); the last signature is never verified by a stable test and the 40-level sets, where the index wraps, cannot be exhausted in a test.",
 ["xmss_core.c", "xmss_core_fast.c"],
 [("exhaustion check in xmss(mt)_core_sign", "xmss_core.c, xmss_core_fast.c")],
 ["return value, sk contents, sm"])

prop("C14", "The fast (BDS) signer outputs exactly what the reference signer outputs",
 "From the same randomness, the fast implementation generates the same public key as the reference implementation and, over the whole life of the key, every signature is byte-identical to the reference signature for that index and message.",
 ["histories", "inputs", "configurations"], "all seeds and messages; every index: complete lifetimes for small trees, and arbitrary positions in large hypertrees by an inductive step",
 "The traversal state depends on the whole signing history; tests cover one height-10 tree and 1024 signatures of a two-layer tree, and never compare with the reference.",
 ["xmss_core_fast.c", "xmss_core.c"],
 [("treehash_init, bds_round, bds_treehash_update, bds_state_update", "xmss_core_fast.c"), ("deep_state_swap and NEXT trees", "xmss_core_fast.c")],
 ["pk, sm"],
 state=[dict(name="BDS state", meaning="auth path, keep, stack, treehash instances, retain, NEXT trees", where="sk after the first index_bytes + 4n bytes")])

prop("C15", "The secret key buffer is the complete signing state",
 "All signing state lives in the secret key bytes: signing is a deterministic function of the secret key bytes and the message, so a key that is stored, copied or moved between any two signatures continues exactly as the original would, and no key's signatures depend on other keys or earlier calls. Every field written into the key is read back with its full value.",
 ["histories", "inputs"], "every reachable key state, every message; state fields over their full range",
 "test/xmss_determinism signs once with two copies of a fresh reference key; it does not touch the fast state or later indices.",
 ["xmss_core_fast.c", "xmss_core.c"],
 [("xmssmt_serialize_state / xmssmt_deserialize_state", "xmss_core_fast.c")],
 ["sk bytes, sm"])

prop("C16", "Key generation and signing stay inside the documented buffers",
 "For every parameter set, key generation and signing write only the 4+pk_bytes public key, the 4+sk_bytes secret key and the sig_bytes+mlen signed message, never read outside the buffers the caller passed, never read memory they did not initialise into an output, and write every byte of the outputs they report.",
 ["inputs", "configurations"], "every parameter set shape (n, heights, layers), every index and message within the stated bounds",
 "The tests allocate exact-size buffers but no sanitizer runs, and only two shapes are exercised.",
 ["xmss_core.c", "xmss_core_fast.c", "xmss.c", "wots.c"],
 [("size computation in xmss_xmssmt_initialize_params and sk layout", "params.c, xmss_core_fast.c")],
 ["memory accesses"])

prop("C17", "Key pairs use fresh randomness, are internally consistent, start at index 0",
 "Key generation takes exactly 3n bytes from the system random generator, uses them unchanged and without overlap as secret seed, PRF key and public seed, sets the index to 0, stores the Merkle root of the top tree in both keys, the public seed in the public key and the OID in both keys; the seed-based derivation gives the same key pair for the same 3n bytes. For an unknown OID it returns a non-zero code and leaves both buffers untouched.",
 ["inputs", "configurations"], "all randomness, every OID, both implementations",
 "Tests only observe that signatures verify; a reused, truncated or constant seed would pass them all.",
 ["xmss.c", "xmss_core.c", "xmss_core_fast.c"],
 [("xmss(mt)_keypair, xmss(mt)_core_keypair, xmssmt_core_seed_keypair", "xmss.c, xmss_core.c, xmss_core_fast.c")],
 ["pk, sk, calls to randombytes"])

prop("C18", "randombytes fills the whole buffer whatever the system calls return",
 "For every requested length and every schedule of failing opens and failing, interrupted or short reads, randombytes returns only when every byte of the buffer has been filled, each exactly once, with bytes read from the random device, writing nothing outside it.",
 ["fault_sequences", "inputs"], "all lengths and all schedules of open/read outcomes within the stated number of calls; lengths beyond the chunk size",
 "On the test machine open and read never fail or return short.",
 ["randombytes.c"],
 [("read loop", "randombytes.c")],
 ["buffer contents; open/read/sleep calls"])

prop("C19", "The API selects the parameter set from the key's own OID and refuses bad ones",
 "Key generation, signing and verification of both families operate with exactly the parameter set named by the big-endian OID in the key, hand everything after the OID to that set's algorithm, and return its result; a key whose OID is unknown is refused with a non-zero code without touching the key, signature or message buffers.",
 ["inputs", "configurations"], "all 2^32 OID prefixes in both key types",
 "Only OID 1 is used by sign/verify tests.",
 ["xmss.c"],
 [("xmss_* and xmssmt_* wrappers", "xmss.c")],
 ["return values, buffers, params used"])

prop("C20", "The signing tool persists the advanced key before releasing a signature",
 "At every point where any byte of a signature can have reached standard output, the key file already holds the updated secret key, whatever stdio buffering, crashes or write errors occur; only the secret-key region of that file is changed. If reading the inputs, signing, or storing the key fails, the tool outputs no signature and exits non-zero.",
 ["crash_points", "fault_sequences", "inputs"], "every crash point, every buffering decision and I/O fault in one run of the tool, every parameter set shape",
 "The ui programs are only built, never run by any test.",
 ["ui/sign.c"],
 [("order of fwrite/fclose on key file and stdout", "ui/sign.c")],
 ["sequence of file operations, exit status"])

prop("C21", "The verification tool exits 0 only for a valid signature",
 "For all key and signature files, including missing, truncated, empty and unknown-parameter ones, the verification tool exits 0 if and only if both files were read completely and verification of exactly those bytes succeeded, and it never reads or writes outside its buffers.",
 ["inputs", "fault_sequences"], "all file lengths and read outcomes within bounds, all verification results, every OID",
 "The ui programs are never run by any test.",
 ["ui/open.c"],
 [("main", "ui/open.c")],
 ["exit status, file operations"])

prop("C22", "The key generation tool writes exactly public key then secret key",
 "For every parameter-set name the key generation tool writes the OID-prefixed public key followed by the OID-prefixed secret key, and nothing else, and exits 0 only if all of it was written; an unknown name, a wrong argument count or a failed write exits non-zero, with no key output for the first two.",
 ["inputs", "fault_sequences"], "all names of the registry and arbitrary unknown strings up to a bound, all write outcomes",
 "The ui programs are never run by any test.",
 ["ui/keypair.c"],
 [("main", "ui/keypair.c")],
 ["bytes written, exit status"])

prop("C23", "The index in the key is advanced before the one-time key is used",
 "During a signing call, the secret key in the caller's memory already carries the next index before any value derived from the current one-time key or message randomizer is computed or written to the output, so that an interruption at any point can waste an index but never leave one in the key that has already been used.",
 ["crash_points", "inputs"], "every interruption point of a signing call, every index, both implementations",
 "Tests never interrupt a signing call.",
 ["xmss_core.c", "xmss_core_fast.c"],
 [("'update the secret key' step", "xmss_core.c, xmss_core_fast.c")],
 ["sk index at the time of each one-time-key use"])

prop("C24", "The fast signer does a bounded amount of work per signature",
 "Each signature of the fast implementation computes at most (tree height - k)/2 leaves by scheduled updates plus one leaf for the next tree plus one leaf per layer for the path itself, at every index including those where several layers roll over at once; no signing call recomputes a whole tree.",
 ["histories", "configurations"], "every index of complete lifetimes within the stated bound, and roll-over of any number of layers",
 "Tests do not count work, and never reach a simultaneous roll-over of more than one layer.",
 ["xmss_core_fast.c"],
 [("updates budget in xmss(mt)_core_sign", "xmss_core_fast.c")],
 ["number of leaf computations per call"])

prop("C25", "Integer/byte-string conversion is exact big-endian",
 "For every value and length, conversion to bytes produces exactly the big-endian representation modulo 256^length (zero-extended for long outputs) within exactly that many bytes, and conversion of up to 8 bytes to an integer is its inverse.",
 ["inputs"], "all 64-bit values, output lengths 0..64, input lengths 0..8",
 "Only indices up to 1023 pass through the conversions in tests, on both sides alike.",
 ["utils.c"],
 [("ull_to_bytes / bytes_to_ull", "utils.c")],
 ["output bytes / returned value"])

prop("C26", "Signatures are existentially unforgeable",
 "No efficient adversary who sees signatures on messages of its choice can produce a signature that verifies for a new message.",
 ["inputs"], "all probabilistic polynomial-time adversaries",
 "It is a computational claim about all adversaries.",
 ["wots.c", "xmss_commons.c", "hash.c"],
 [("security reduction of XMSS", "RFC 8391, Section 7 and 9")],
 ["accepted forgeries"])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        if p["anchors"]["hook_needed"] is None: pass
        f.write(json.dumps(p) + "\n")
print(len(P))
