#!/usr/bin/env python3
"""Single source of /verif/properties.jsonl (run: python3 tools/gen_properties.py)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mech],
                               observe_at=list(observe), hook_needed=hook)))

prop("C01", "Every signature the library produces verifies under the matching key",
     "For every parameter set, every valid key pair, every message of any length (including empty) and every additional randomness (none, empty, short or long), signing succeeds, reports exactly the published signature size, and verification with the matching public key accepts the result. This holds for the randomised and the caller-randomised signing call, wherever the buffers lie in memory (any alignment).",
     ["inputs"], "all 12 parameter sets x key pairs (incl. structured keys and OWF inputs) x message lengths and contents x rho presence/length/content x buffer alignment",
     "The tests sign one 1024-byte (or one 32-byte zero) message with a fresh random key per set; lengths around SHAKE block boundaries, empty messages, absent/long rho, structured keys, challenge-dependent branches of the opening and unaligned buffers are never sampled.",
     ["faest.c", "faest_param.c.in", "faest_aes.c", "vole.c", "vc.c"],
     [("signing: Fiat-Shamir chain and openings", "faest.c faest_sign"), ("verification: reconstruction and challenge comparison", "faest.c faest_verify")],
     observe=["faest_<set>_sign", "faest_<set>_sign_with_randomness", "faest_<set>_verify"])

prop("C02", "Signature bytes are exactly the specified function of key, message and rho",
     "For every parameter set, key, message and caller-supplied randomness, the bytes written by signing equal those of the FAEST v1 specification (hash chain, vector commitments, VOLE, proof, openings, layout), so that independently written implementations interoperate. Omitted and zero-length randomness give the same deterministic signature, and every byte of a longer randomness influences it.",
     ["inputs"], "all parameter sets x valid keys x messages x rho (NULL, empty, 1..several SHAKE blocks)",
     "Known-answer tests pin one key/message/rho per set; nothing relates the output for any other input to the specification, so an input-dependent deviation that sign and verify share goes unnoticed.",
     ["faest.c", "faest_aes.c", "vole.c", "vc.c", "universal_hashing.c", "random_oracle.c", "owf.c"],
     [("challenge derivation and signature layout", "faest.c hash_challenge_*, signature_*"), ("proof", "faest_aes.c aes_prove")],
     observe=["faest_<set>_sign_with_randomness"])

prop("C03", "Verification accepts exactly the signatures the specification accepts",
     "Verification returns 0 if and only if the FAEST v1 verification algorithm accepts the given public key, message and signature. In particular a signature of the wrong length, with any byte changed, for another message, key or parameter set, with components exchanged, or from a dishonest signer (wrong witness, opening at a challenge other than the derived one) is rejected with a nonzero result.",
     ["inputs"], "all parameter sets x (pk, message, signature) triples: honest, bit-flipped in every component, re-lengthened, spliced, random, and adversarially constructed transcripts",
     "No existing test ever feeds an invalid signature to verification, so any acceptance of a forgery passes the whole suite.",
     ["faest.c", "faest_param.c.in", "faest_aes.c", "vole.c", "vc.c"],
     [("final challenge comparison", "faest.c faest_verify step 21"), ("length check", "faest_param.c.in faest_@PARAM_L@_verify"), ("verifier side of the proof", "faest_aes.c aes_verify")],
     observe=["faest_<set>_verify"])

prop("C04", "Key generation returns only valid, matching, freshly drawn key pairs",
     "Whatever bytes the random source delivers, a key pair returned with success is usable (no zero S-box input in the one-way function), its public key is the specified image of its private key, it passes key-pair validation, and its private key consists of bytes the random source delivered during this call. Unusable draws are discarded and redrawn, and sizes match the published key sizes.",
     ["inputs", "fault_sequences"], "all parameter sets x random streams, including streams that start with any number of unusable keys (zero S-box input at any S-box of the key schedule or of any block)",
     "The tests take whatever the OS generator gives; whether a draw is rejected, for which S-box, and what happens then is never controlled or checked.",
     ["faest_param.c.in", "owf.c", "aes.c"],
     [("retry loop", "faest_param.c.in faest_@PARAM_L@_keygen"), ("zero S-box detection", "aes.c contains_zero/sub_bytes/expand_key")],
     observe=["faest_<set>_keygen", "faest_<set>_validate_keypair"])

prop("C05", "Unusable and mismatched keys are recognised, usable ones never refused",
     "Key-pair validation returns 0 exactly when the private key is usable (no zero S-box input anywhere in the specified one-way function) and the public key is its image, and nonzero otherwise. Signing refuses exactly the unusable private keys, with an error and without reporting a signature.",
     ["inputs"], "all parameter sets x private keys with a zero S-box input placed at each possible position (key schedule, each block, each round) or nowhere x public keys equal to the image or differing in any bit",
     "Tests only use valid keys; a zero byte at a particular S-box has probability 1/256 per byte and the refusal branches are never executed deliberately.",
     ["faest_param.c.in", "owf.c", "aes.c", "compat.c"],
     [("validate_keypair", "faest_param.c.in"), ("OWF return values", "owf.c"), ("contains_zero", "aes.c")],
     observe=["faest_<set>_validate_keypair", "faest_<set>_sign_with_randomness", "faest_<set>_sign"])

prop("C06", "API calls check their arguments and write only their documented outputs",
     "Every public call with a missing mandatory pointer, an undersized signature buffer, or a wrong signature length returns a nonzero code and neither writes any output buffer nor changes the reported length. On success exactly the documented number of bytes is written and the length is updated to it; inputs (keys, message, rho, signature) are never modified and nothing outside the output buffers changes.",
     ["inputs"], "all parameter sets x all combinations of NULL/valid pointers, signature buffer lengths below, at and above the size, verification lengths 0..2*size, canary-surrounded exactly-sized buffers",
     "Tests call the API only with valid arguments and exactly-sized buffers and never look at bytes outside the outputs.",
     ["faest_param.c.in", "faest_param.h.in", "faest.c"],
     [("argument checks", "faest_param.c.in"), ("signature component offsets", "faest.c signature_*")],
     observe=["all faest_<set>_* functions"])

prop("C07", "No input makes the library commit a memory error or undefined behaviour",
     "For arbitrary byte strings as keys, messages, randomness and signatures (valid, mutated or random; any length; any alignment), every public call returns normally: no out-of-bounds or use-after-free access, no read of uninitialised memory that affects the result, no undefined arithmetic, no abort. This holds with and without the OpenSSL cipher and for each hash back end.",
     ["inputs", "configurations"], "all parameter sets x arbitrary arguments x build back ends under address, undefined-behaviour and uninitialised-memory instrumentation",
     "The suite runs uninstrumented on a handful of honest inputs; silent out-of-bounds reads, uninitialised reads and UB leave no trace there.",
     ["faest.c", "faest_aes.c", "aes.c", "vole.c", "vc.c", "fields.c", "universal_hashing.c", "sha3/"],
     [("buffer sizing from parameters", "faest.c, vole.c, vc.c, faest_aes.c"), ("fixed-size stack arrays MAX_*", "instances.h")],
     observe=["all faest_<set>_* functions"])

prop("C08", "Results do not depend on call history, buffer placement or concurrency",
     "Each call's result is a function of its arguments (and of the random bytes it draws) only: repeating a call, interleaving it with any other calls for any parameter set, reusing or moving buffers, failing calls in between, or running calls concurrently in several threads never changes any result. There is no data race between concurrent calls on distinct outputs.",
     ["histories", "schedules"], "generated sequences of keygen/sign/verify/validate/clear calls over several keys and sets with buffer reuse, compared call by call with a fresh process / reference; generated concurrent mixes under a race detector",
     "Tests make each call once or twice in one fixed order in one thread, so state carried from one call to the next (caches, static buffers, key schedules) cannot show.",
     ["faest.c", "aes.c", "vole.c", "vc.c", "faest_aes.c", "fields.c", "random_oracle.c", "instances.c"],
     [("absence of mutable static state", "all library sources")],
     observe=["all faest_<set>_* functions"])

prop("C09", "Every supported build configuration computes identical results",
     "For the same inputs, keys, signatures, verdicts and intermediate primitives are byte-identical whatever the supported build choices: OpenSSL or built-in AES, each hash back end, with or without compiler vector types, builtins and generated configuration header, assertions on or off, and any compiler or optimisation level. Signatures made by one configuration verify under every other.",
     ["configurations", "inputs"], "build configurations (AES back end x SHA3 back end x vector/non-vector fields x compiler x optimisation x feature macros) x generated inputs",
     "The tests build two configurations, skip most suites in the portable one, and never compare outputs between configurations; fallback code (generic vectors, rotations, parity, alignment) is not compiled at all.",
     ["aes.c", "fields.c", "fields.h", "compat.h", "compat.c", "hash_shake.h", "random_oracle.c", "sha3/", "meson.build"],
     [("conditional compilation", "aes.c prg, fields.h, compat.h, hash_shake.h")],
     observe=["faest_<set>_* functions of differently built libraries"])

prop("C10", "Block ciphers, one-way functions and the seed expander match their standards",
     "AES-128/192/256 and Rijndael-192/256 key expansion and encryption equal their standard definitions for every key and block, and report a zero S-box input exactly when one occurs. The one-way functions built from them and the AES-CTR seed expander (any output length, 128-bit big-endian counter with wrap-around) equal their definitions for every input.",
     ["inputs"], "keys, blocks, OWF inputs (incl. ones that put zero at a chosen S-box), IVs near counter carry boundaries, output lengths 0..large and not multiple of 16",
     "A few published vectors per cipher; counters never carry past the low byte, odd output lengths and zero-S-box reporting are untested.",
     ["aes.c", "owf.c"],
     [("ciphers", "aes.c"), ("CTR expander", "aes.c prg, aes_increment_iv"), ("one-way functions", "owf.c")],
     observe=["aes*_encrypt_block", "rijndael*_encrypt_block", "owf_*", "prg", "aes_increment_iv"])

prop("C11", "Incremental and four-way hashing equals the SHAKE standard",
     "For any way of splitting the input into updates and the output into squeezes, at any lengths, the hash gives SHAKE128 (128-bit security) or SHAKE256 (otherwise) of the concatenated input, and the four-way variant gives the same as four independent single hashes. The random oracles built on it append their own domain separator and are therefore pairwise different functions.",
     ["inputs", "histories"], "messages of length 0..several blocks with biased lengths near the rate (168/136), all split patterns into updates and squeezes, four different lanes, each hash back end",
     "The hash tests check a couple of one-shot digests; block-boundary splits, repeated squeezes and distinct lanes in the four-way code are not exercised.",
     ["hash_shake.h", "random_oracle.c", "sha3/KeccakHash.c", "sha3/KeccakHashtimes4.c", "sha3/KeccakSponge.inc", "sha3/KeccakSpongetimes4.inc", "sha3/opt64", "sha3/plain32", "sha3/avx2"],
     [("sponge", "sha3/"), ("domain separation", "random_oracle.c")],
     observe=["hash_*", "hash_*_x4", "H0..H3"])

prop("C12", "Binary-field arithmetic is exact for all operands",
     "In GF(2^8), GF(2^64), GF(2^128), GF(2^192) and GF(2^256) every exported operation (multiplication, by a 64-bit element, by a bit, inversion in GF(2^8), embedding of bytes, polynomial summation, load/store) agrees with polynomial arithmetic modulo the specified polynomial for all operands. Hence the field laws hold and the byte embedding is a field homomorphism.",
     ["inputs"], "operands: random, sparse, single bits, all-ones words, boundary words, equal and special elements; GF(2^8) exhaustively; vector and non-vector builds",
     "Tests compare with a library on random operands (where a slip confined to sparse or carry-boundary operands is improbable) and only for the vector build.",
     ["fields.c", "fields.h"],
     [("shift-and-add multiplication", "fields.c bf*_mul"), ("embedding constants", "fields.c bf*_alpha")],
     observe=["bf8_*, bf64_*, bf128_*, bf192_*, bf256_*"])

prop("C13", "Universal hashes are linear and equal their definition on every input",
     "The commitment hash and the constraint hash equal their polynomial definition for every seed and input, for every input length (including lengths that are and are not a multiple of the field size). They are linear in the input, read exactly the specified input bytes, and the streaming form equals the one-shot form.",
     ["inputs"], "seeds and inputs: random, sparse, zero; lengths 0..several blocks in all residues; element sequences of length 0..n",
     "A few fixed vectors at the lengths the parameter sets use; linearity and other residues are not tested.",
     ["universal_hashing.c", "universal_hashing.h", "fields.c"],
     [("vole_hash", "universal_hashing.c"), ("zk_hash init/update/finalize", "universal_hashing.c")],
     observe=["vole_hash_*", "zk_hash_*"])

prop("C14", "Vector commitments open all leaves but the chosen one, and bind",
     "For every root seed, IV, depth and hidden index, the opening reconstructs exactly the committed seeds and commitment hash for every other leaf, and contains nothing that determines the hidden leaf. Changing any byte of the opening, of the hidden leaf's commitment, of the IV or of the index changes the reconstructed hash, so verification of the opening fails.",
     ["inputs"], "security levels x depths (incl. 1..12, not only those of the parameter sets) x every hidden index class (mod 4, first, last) x seeds x tampering positions",
     "Tests use one index or two per depth; the reconstruction code treats indices differently by residue mod 4 and by position, and tampering is never tested.",
     ["vc.c", "vc.h", "aes.c", "random_oracle.c"],
     [("tree expansion and four-way leaf commitment", "vc.c vector_commitment"), ("reconstruction around the hidden leaf", "vc.c vector_reconstruction")],
     observe=["vector_commitment", "vector_open", "vector_reconstruction", "vector_verify"])

prop("C15", "VOLE commitments give correct correlations for every challenge",
     "For every seed, IV and challenge, the verifier's reconstruction from the openings has the committed hash and satisfies q = v + Δ·u column by column, with the published corrections, where Δ is the challenge decoded into the per-repetition digits. Challenge decoding and index encoding are inverse to each other and use every challenge bit exactly once.",
     ["inputs"], "all parameter sets x seeds x IVs (incl. counter wrap) x challenges (random, all-zero, all-one, single-bit, boundary digits)",
     "Tests replay fixed vectors with one challenge per set and skip the suite in the portable build; digits 0 and 2^k-1 and other challenges are not covered.",
     ["vole.c", "vole.h", "vc.c"],
     [("ConvertToVole", "vole.c"), ("ChalDec/NumRec/BitDec", "vole.c, vc.c"), ("corrections", "vole.c vole_commit")],
     observe=["vole_commit", "vole_reconstruct", "ChalDec", "ConvertToVole"])

prop("C16", "The zero-knowledge proof accepts exactly witnesses of the one-way function",
     "For every usable key the extended witness satisfies all circuit constraints and the prover's and verifier's values agree for every challenge and correlation. For any witness that differs from it in even one bit, or for a public key that is not its image, the verifier's value differs from the prover's (up to the stated negligible error), whichever single constraint is violated.",
     ["inputs"], "all parameter sets x keys x correlation matrices x challenges (random, sparse, extreme) x single-bit and single-constraint violations of witness, input or output",
     "Tests prove one fixed witness per set with one challenge and never a false statement, so a constraint that is silently dropped or mis-indexed for particular values cannot be noticed.",
     ["faest_aes.c", "aes.c"],
     [("witness extension", "aes.c aes_extend_witness"), ("constraint evaluation, prover/verifier", "faest_aes.c aes_prove/aes_verify")],
     observe=["aes_extend_witness", "aes_prove", "aes_verify"])

prop("C17", "The NIST signed-message API round-trips every message and rejects tampering",
     "For every parameter set and message, opening a signed message with the matching public key returns the exact message and length, also when message and signed-message buffers coincide or overlap; the signed message is the message followed by the signature. A signed message that is shorter than a signature, altered anywhere, or opened with another key is rejected with a nonzero code and without delivering a message.",
     ["inputs"], "all parameter sets x message lengths 0..large x separate or coinciding buffers x truncations, extensions, byte flips, key substitutions",
     "The API test uses one 32-byte zero message and no invalid signed message.",
     ["crypto_sign.c.in", "crypto_sign.h.in", "faest_param.c.in"],
     [("crypto_sign / crypto_sign_open", "crypto_sign.c.in")],
     observe=["crypto_sign_keypair", "crypto_sign", "crypto_sign_open"])

prop("C18", "No key or randomised signature is produced when randomness is unavailable",
     "If the operating system's random source fails or delivers fewer bytes than asked, at any of the draws a call makes, key generation and randomised signing return a nonzero code instead of a key pair or signature made from bytes that were not delivered, and they terminate. The random-bytes function itself reports success only after filling the whole request with delivered bytes, on every back end (including interrupted and short reads).",
     ["fault_sequences"], "parameter sets x fault schedules over the random source (fail or short at the n-th draw, after discarded keys; EINTR/EAGAIN/short read sequences on the device back end)",
     "The random source never fails while the tests run.",
     ["faest_param.c.in", "randomness.c", "crypto_sign.c.in"],
     [("rand_bytes result handling", "faest_param.c.in keygen/sign"), ("getrandom and /dev/urandom back ends", "randomness.c")],
     observe=["faest_<set>_keygen", "faest_<set>_sign", "rand_bytes", "crypto_sign_keypair", "crypto_sign"])

prop("C19", "Key clearing and portability helpers do exactly what they promise",
     "Clearing a private key sets exactly the published number of key bytes to zero and nothing else. The portability substitutes (aligned allocation, secure zeroing, timing-safe comparison, rotations, parity, ceiling logarithm, byte-order conversion) give the results of the functions they stand for, for every argument and in every fallback variant.",
     ["inputs", "configurations"], "all parameter sets x buffer contents/offsets; helper arguments (all 8-bit values, 32-bit values, sizes and alignments) x each conditional-compilation variant",
     "Clearing is not tested at all; helpers are compiled in one variant only and mostly tested on a few values.",
     ["faest_param.c.in", "compat.c", "compat.h", "endian_compat.h", "utils.h"],
     [("clear_private_key", "faest_param.c.in"), ("fallbacks", "compat.c, compat.h, endian_compat.h")],
     observe=["faest_<set>_clear_private_key", "faest_aligned_alloc/free", "faest_timingsafe_bcmp", "faest_explicit_bzero", "rotl8/rotr8/parity8/ceil_log2", "htole*/htobe*"])

prop("C20", "Secret values do not influence control flow or memory addresses",
     "For usable keys, the sequence of executed code blocks and of accessed memory addresses in key validation, key generation after the draw, witness extension, commitment, universal hashing and proof generation depends only on public values (parameter set, lengths, OWF input and output), not on the private key, the seeds or the witness. Comparing keys takes the same path wherever they differ.",
     ["inputs"], "pairs of secrets with equal public values (random, sparse, extreme bytes) per operation and parameter set, in the OpenSSL and the built-in cipher builds",
     "Functional tests observe results only; the existing timing tests need a tool option that is disabled here and sample one secret.",
     ["aes.c", "fields.c", "faest_aes.c", "vole.c", "vc.c", "universal_hashing.c", "compat.c", "owf.c"],
     [("masked arithmetic", "fields.c, utils.h"), ("table-free S-box", "aes.c compute_sbox, fields.c bf8_inv"), ("timing-safe comparison", "compat.c")],
     observe=["executed basic blocks and load/store addresses of the instrumented build"])

prop("C21", "Known-answer tooling is reproducible from its seed",
     "The deterministic generator of the test-vector tool yields the NIST AES-256-CTR DRBG stream for every seed, personalisation and sequence of request lengths. Given a seed, key generation and signing through the NIST API consume it in the documented way, so that public key, secret key and signed message are the specified function of the seed.",
     ["inputs", "histories"], "seeds, personalisation strings, sequences of request lengths (0..large, not multiples of 16); all parameter sets for the key/signature derivation",
     "No test links the generator; published response files are not in the repository.",
     ["tools/rng.c", "tools/PQCgenKAT_sign.cpp", "crypto_sign.c.in", "randomness.c", "faest_param.c.in"],
     [("DRBG", "tools/rng.c"), ("draw order", "faest_param.c.in")],
     observe=["randombytes_init", "randombytes", "crypto_sign_keypair", "crypto_sign"])

prop("C22", "Parameter tables, published sizes and names are mutually consistent",
     "For every identifier, the parameter record, the name and the published key and signature sizes agree with the FAEST parameter definitions and with each other (signature size from its components, lengths from rounds and block size, repetition split covering exactly the security level); identifiers that denote no parameter set yield the empty record and never another set's. Limits used for fixed-size storage bound every set.",
     ["inputs", "configurations"], "every identifier value (0..13, out of range, negative) x every field; every set's public header constants",
     "Tests check a few fields and only valid identifiers.",
     ["instances.c", "instances.h", "meson.build", "faest_param.h.in", "crypto_sign.h.in"],
     [("tables", "instances.c, meson.build")],
     observe=["faest_get_paramset", "faest_get_param_name", "FAEST_*_SIZE", "CRYPTO_*BYTES"])

prop("C23", "No call leaks memory or other resources, whatever its outcome",
     "After any sequence of public calls, successful or refused, the process holds exactly the heap blocks, file descriptors and mappings it held before, and no block is freed twice. Memory use of a call is bounded by its parameter set and does not grow with the number of earlier calls.",
     ["histories", "inputs"], "histories of API calls with valid, invalid and refused arguments for all parameter sets, allocator and descriptor accounting around each call; OpenSSL and built-in cipher builds; fallback allocator and device back end",
     "Tests run each operation a few times and exit; nothing accounts for memory or descriptors.",
     ["faest.c", "faest_aes.c", "vole.c", "vc.c", "aes.c", "randomness.c", "compat.c"],
     [("paired allocation and release", "faest.c, faest_aes.c, vole.c, vc.c, aes.c prg"), ("descriptor handling", "randomness.c")],
     observe=["malloc/free/open/close balance around faest_<set>_* calls"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
