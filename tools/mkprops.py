#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one JSON object per line) and validates it."""
import json, os, sys
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("P01", "Hash functions compute the GOST digests for every message and every feeding",
 "For every message, the GOST R 34.11-94 and GOST R 34.11-2012 (256 and 512 bit) digests returned by the engine are the ones the standards define. The result depends only on the message bytes: not on how the message is split into updates, on buffer alignment, on earlier use of the context, or on clones of the context made at any point of the message.",
 ["inputs", "histories"],
 "all messages (any length, including block boundaries and carry-heavy contents), all splits into updates, all points at which a context is cloned or reused",
 "The tests fix a few dozen messages and a handful of chunk sizes; carries in the 512-bit checksum and length counters, odd splits around the 32/64 byte blocks and clones in the middle of a block are combinations they do not reach.",
 ["gosthash.c", "gosthash2012.c", "gosthash2012_ref.h", "gosthash2012_sse2.h", "gosthash2012_precalc.h", "gosthash2012_const.h", "gost_md.c", "gost_md2012.c", "gost89.c"],
 [("buffering of partial blocks", "gosthash.c hash_block / gosthash2012.c gost2012_hash_block"),
  ("512-bit counters and checksum", "gosthash2012.c add512"),
  ("padding and finalisation", "gosthash2012.c stage3, gosthash.c finish_hash"),
  ("context copy", "gost_md.c gost_digest_copy, gost_md2012.c gost_digest_copy*")],
 [("partial block buffer, N, Sigma, h", "chaining state of the running hash", "gosthash2012.h gost2012_hash_ctx; gosthash.h gost_hash_ctx")],
 ["EVP_DigestUpdate / EVP_DigestFinal results"])

prop("P02", "Every cipher mode computes the standard transformation, both directions",
 "For every key, IV, S-box parameter set and message, each offered block, stream and feedback mode of GOST 28147-89, Magma and Kuznyechik outputs exactly what GOST 28147-89 / GOST R 34.12-2015 / 34.13-2015 (RFC 4357, 5830, 7801, 8891) define, and decryption returns the original message. The output depends only on key, IV, parameters and message: not on how the data is split into calls, nor on whether it is processed in place; the padded modes reject a ciphertext whose length is not a whole number of blocks, and an attempt to change the S-box set or key meshing of GOST 28147-89 in mid-message is refused without effect.",
 ["inputs", "histories"],
 "all keys, IVs (including counters about to wrap), parameter sets, message lengths, splits into update calls, in-place and out-of-place, both directions",
 "Tests use fixed keys and IVs with one or two lengths; counter wrap-around, odd splits in the middle of a gamma block and rarely used parameter sets are not sampled.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_grasshopper_core.c", "gost_grasshopper_precompiled.c", "gost_grasshopper_galois_precompiled.c", "gost89.c", "gost_eng.c"],
 [("block ciphers", "gost89.c gostcrypt/magmacrypt; gost_grasshopper_core.c grasshopper_encrypt_block"),
  ("partial-block buffering", "gost_crypt.c gost_cipher_do_cfb/cnt, magma_cipher_do_ctr; gost_grasshopper_cipher.c gost_grasshopper_cipher_do_ctr/cfb/ofb"),
  ("counter increment", "gost_crypt.c gost_cnt_next / inc_counter; gost_grasshopper_cipher.c ctr128_inc")],
 [("EVP num/buf/iv", "position inside the current gamma block", "gost_crypt.c, gost_grasshopper_cipher.c")],
 ["EVP_CipherUpdate / EVP_CipherFinal_ex results"])

prop("P03", "Cipher contexts are independent: clones and re-initialised ones behave as new",
 "A cipher context that is cloned at any point continues exactly like the original would have, and neither the original's later use nor its destruction influences the clone (nor the other way round). A context that is initialised again (with a new key and IV, or with a new IV under the key already set) behaves exactly like a freshly created context initialised with the same key and IV.",
 ["histories"],
 "all sequences of initialise, update, finalise, clone, reset, destroy over several contexts of every offered cipher, with messages long enough to pass re-keying boundaries before the reuse",
 "The context test runs one fixed sequence per cipher with short data; state that survives re-initialisation (key-meshing counters, meshed keys, buffered gamma, AEAD counters) or is shared between clones shows only for particular histories.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c", "gost_lcl.h"],
 [("re-initialisation", "gost_crypt.c gost_cipher_init_param, magma_cipher_init*; gost_grasshopper_cipher.c gost_grasshopper_cipher_init*"),
  ("clone", "gost_crypt.c magma_cipher_ctl(EVP_CTRL_COPY); gost_grasshopper_cipher.c gost_grasshopper_cipher_ctl(EVP_CTRL_COPY)")],
 [("cipher_data", "per-context key schedule, meshing counter, nested MAC context, AEAD state", "gost_lcl.h, gost_grasshopper_cipher.h")],
 ["EVP_CIPHER_CTX_copy, EVP_CipherInit_ex, EVP_CipherUpdate"])

prop("P04", "Long messages are re-keyed on the standard schedule (meshing, ACPKM, TLSTREE)",
 "Encryption of long messages changes the working key exactly where the standards say: CryptoPro key meshing after every 1024 bytes of GOST 28147-89 (when enabled by the parameter set), ACPKM after every section of the configured size for Magma and Kuznyechik CTR-ACPKM and the ACPKM-based MAC, and TLSTREE per TLS record sequence number. This holds for every message length, section size, sequence number and split of the data, in both directions.",
 ["inputs", "histories"],
 "all message lengths across many section boundaries, all legal section sizes, all splits relative to the boundaries, all 64-bit record sequence numbers",
 "Tests cover a single message length with one section size; a re-key that is skipped, duplicated or misplaced when a call ends exactly on or straddles a boundary is only seen with other splits and lengths.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac_acpkm.c", "gost_omac.c", "gost_keyexpimp.c", "gost89.c"],
 [("CryptoPro meshing", "gost_crypt.c gost_crypt_mesh, gost_cnt_next"),
  ("ACPKM", "gost89.c acpkm_magma_key_meshing, gost_crypt.c apply_acpkm_magma, gost_grasshopper_cipher.c apply_acpkm_grasshopper, gost_omac_acpkm.c CMAC_ACPKM_Mesh"),
  ("TLSTREE", "gost_keyexpimp.c gost_tlstree")],
 [("count / num / section_size", "bytes processed under the current key", "gost_lcl.h ossl_gost_cipher_ctx, gost_grasshopper_cipher.h")],
 ["EVP_CipherUpdate, EVP_CIPHER_CTX_ctrl(KEY_MESH/TLSTREE), EVP_DigestFinal"])

prop("P05", "MGM authenticated encryption is exact and never accepts altered data",
 "For every key, nonce, associated data and plaintext, Magma-MGM and Kuznyechik-MGM produce the ciphertext and tag that RFC 9058 defines however the inputs are split into calls (the top bit of the nonce is not part of it: the engine clears it), and decryption with that tag succeeds and returns the plaintext. If any bit of nonce, associated data, ciphertext or tag differs, finalising the decryption reports failure; a tag that is not a whole block long is not accepted for verification, and once a message has been finished the context takes no further data until it is given a nonce again. Additional data after data, and more of either than the lengths in the tag can express, are refused without effect on the message.",
 ["inputs", "histories"],
 "all keys, nonces, lengths of associated data and plaintext (including zero), splits of both, tag lengths, context reuse, and all alterations",
 "The tests run two vectors per cipher and flip no bits; empty associated data or plaintext, partial blocks and split updates follow different paths.",
 ["gost_gost2015.c", "gost_crypt.c", "gost_grasshopper_cipher.c"],
 [("MGM core", "gost_gost2015.c gost_mgm128_*"),
  ("cipher glue and tag check", "gost_crypt.c magma_cipher_do_mgm, gost_grasshopper_cipher.c gost_grasshopper_cipher_do_mgm, *_mgm_ctrl")],
 [("mgm128 context", "Zi/Yi counters, multiplication state, lengths, partial-block positions", "gost_gost2015.h / modes")],
 ["EVP_CipherUpdate with and without output, EVP_CipherFinal_ex, EVP_CTRL_AEAD_GET_TAG/SET_TAG"])

prop("P06", "MACs compute the standard value for every message, split, clone and tag length",
 "For every key and message, the GOST 28147-89 MAC (both parameter variants), the Magma and Kuznyechik OMAC and the ACPKM-based OMACs return the value the standards define, truncated to the requested length. A section length that is not a whole number of blocks is refused. The result depends only on the key, parameters and message bytes, not on how the message is fed in, on clones of the context, on earlier use of the context, or on which of the offered interfaces (keyed digest or MAC key) is used.",
 ["inputs", "histories"],
 "all keys, messages of any length (including zero, one block, exact multiples and several kilobytes), all splits, clones, tag lengths and key-setting interfaces",
 "Tests use a few messages fed in one or two fixed chunkings; block-boundary splits and messages of special lengths select different code paths.",
 ["gost_crypt.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_pmeth.c", "gost89.c"],
 [("GOST 28147-89 MAC buffering and meshing", "gost_crypt.c gost_imit_update / gost_imit_final"),
  ("OMAC", "gost_omac.c omac_imit_*"),
  ("OMAC-ACPKM", "gost_omac_acpkm.c CMAC_ACPKM_*"),
  ("MAC keys", "gost_pmeth.c pkey_gost_mac_*")],
 [("partial block, count, nlast_block", "buffered tail of the message", "gost_lcl.h ossl_gost_imit_ctx, gost_omac_acpkm.c")],
 ["EVP_DigestSign*/EVP_DigestUpdate/EVP_DigestFinal results"])

prop("P07", "CTR-ACPKM-OMAC content encryption round-trips and rejects altered content",
 "The Magma and Kuznyechik CTR-ACPKM-OMAC content encryption, used as in CMS, outputs the ciphertext and appended MAC that RFC 9337 defines for every key, UKM and content, however the content is split into calls, and decryption returns the content. If any bit of the encrypted content, of the appended MAC or of the UKM differs, decryption reports failure.",
 ["inputs", "histories"],
 "all keys, UKMs, content lengths (across section boundaries), splits, and all single alterations of content, MAC and parameters",
 "The CMS tests exchange whole files through the command line and alter nothing.",
 ["gost_gost2015.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_keyexpimp.c", "gost_omac.c"],
 [("key derivation from UKM", "gost_gost2015.c init_zero_kdf_seed, gost_kdftree2012_256; *_init ctracpkm_omac"),
  ("MAC over plaintext and final comparison", "gost_crypt.c / gost_grasshopper_cipher.c do_ctracpkm_omac, gost_gost2015.c gost2015_final_call"),
  ("MAC transport", "gost_gost2015.c gost2015_process_unprotected_attributes")],
 None, ["EVP_Cipher*, EVP_CTRL_PROCESS_UNPROTECTED, CMS_decrypt"])

prop("P08", "Signatures made by the engine satisfy the standard equation; valid ones verify",
 "For every key on every supported parameter set and every message digest, a signature produced by the engine has the exact documented length and layout, both components in range, and satisfies the GOST R 34.10 verification equation as computed by an independent implementation. Every signature that satisfies that equation with in-range components is accepted by the engine.",
 ["inputs", "configurations"],
 "all keys, parameter sets, digests (including those congruent to zero modulo the order), nonces and key/signature values with leading zero bytes",
 "Tests sign and verify with the same code and a few vectors; a pair of compensating mistakes, or one that depends on leading zeros or special digests, passes them.",
 ["gost_ec_sign.c", "gost_pmeth.c", "gost_ameth.c", "ecp_id_*.c", "gost_params.c"],
 [("sign", "gost_ec_sign.c gost_ec_sign"), ("verify", "gost_ec_sign.c gost_ec_verify"), ("packing", "gost_pmeth.c pack_sign_cp / unpack_cp_signature")],
 None, ["EVP_PKEY_sign, EVP_DigestSignFinal, EVP_PKEY_verify"])

prop("P09", "Verification accepts nothing that violates the signature equation",
 "Verification succeeds only if the signature, the digest and the public key satisfy the GOST R 34.10 verification equation with both components in the open interval from zero to the group order. Altered signatures, digests or keys, zero or out-of-range components, swapped halves, wrong lengths and signatures made under another key or parameter set are never accepted.",
 ["inputs"],
 "all (key, digest, signature) triples on all parameter sets, with mutations concentrated on boundary values of r, s and the digest",
 "Tests contain hardly any negative case; a missing range or result check is invisible to positive tests.",
 ["gost_ec_sign.c", "gost_pmeth.c", "gost_ameth.c", "ecp_id_*.c"],
 [("range checks and final comparison", "gost_ec_sign.c gost_ec_verify"), ("unpacking", "gost_pmeth.c unpack_cp_signature")],
 None, ["EVP_PKEY_verify, EVP_DigestVerifyFinal return values"])

prop("P10", "Private keys and nonces are fresh, in range, and drawn only from a live RNG",
 "Every generated private key and every per-signature or per-message ephemeral secret lies strictly between zero and the group order, depends on the full entropy of newly drawn random bytes, and is never reused. When the random generator fails at any point, key generation, signing and encryption report failure and yield no key, signature or ciphertext.",
 ["inputs", "fault_sequences"],
 "all random generator outputs (including values needing rejection, zeros and values above the order) and all positions at which the generator fails",
 "Tests use the system generator only: they see neither failures nor special outputs, and a biased or repeated nonce still verifies.",
 ["gost_ec_sign.c", "gost_pmeth.c", "gost_ec_keyx.c"],
 [("key generation", "gost_ec_sign.c gost_ec_keygen"), ("nonce loop", "gost_ec_sign.c gost_ec_sign"), ("ephemeral keys and UKM", "gost_ec_keyx.c")],
 None, ["RAND method calls recorded against recovered private keys and nonces"])

prop("P11", "Optimised curve arithmetic equals the group law for every scalar and point",
 "On every named parameter set the engine uses the published domain parameters, and every public key and every scalar multiple it computes (base point, arbitrary point, and sums of both) equals the true multiple in the curve group, for every scalar including zero, one, values near the order and values with long runs of equal bits. The portable field implementations give the same results as the 64-bit ones.",
 ["inputs", "configurations"],
 "all parameter sets x all scalars below the order (boundary scalars in particular) x all curve points, in both field implementations",
 "A few fixed keys per curve are tested, so a carry that is lost for one scalar in 2^30, or an exceptional case of the addition formulas, is never sampled; the portable code is not even compiled.",
 ["ecp_id_GostR3410_2001_CryptoPro_A_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_B_ParamSet.c", "ecp_id_GostR3410_2001_CryptoPro_C_ParamSet.c", "ecp_id_GostR3410_2001_TestParamSet.c", "ecp_id_tc26_gost_3410_2012_256_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetA.c", "ecp_id_tc26_gost_3410_2012_512_paramSetB.c", "ecp_id_tc26_gost_3410_2012_512_paramSetC.c", "gost_ec_sign.c", "gost_params.c"],
 [("scalar multiplication", "ecp_id_*.c point_mul, point_mul_g, point_mul_two"), ("dispatch by parameter set", "gost_ec_sign.c gost_ec_point_mul"), ("domain parameters", "gost_params.c, gost_ec_sign.c fill_GOST_EC_params")],
 None, ["gost_ec_point_mul result; public key after key set-up"])

prop("P12", "Key agreement (VKO, KEG) gives both sides the standard shared key",
 "For every pair of keys on the same parameter set and every UKM, both parties derive the same shared key, equal to what RFC 7836 (VKO 2012 with 256 and 512 bit), RFC 4357 (VKO 2001) and R 1323565.1.020 (KEG) define, including multiplication by the cofactor. Agreement fails instead of producing a key when the parameters of the two keys differ, the required UKM is missing, or the shared point would be the point at infinity.",
 ["inputs", "configurations"],
 "all key pairs, parameter sets (with and without cofactor), UKM values and lengths, hash choices, and peer points of small order",
 "Symmetry tests compare the code with itself on a few keys with a fixed UKM; small-order points and parameter mismatches are not tried.",
 ["gost_ec_keyx.c", "gost_ec_sign.c", "gost_keyexpimp.c", "gost_pmeth.c"],
 [("VKO", "gost_ec_keyx.c VKO_compute_key"), ("KEG", "gost_ec_keyx.c gost_keg"), ("derive", "gost_ec_keyx.c pkey_gost_ec_derive")],
 None, ["EVP_PKEY_derive results"])

prop("P13", "Key transport delivers the session key to the recipient, in the standard format",
 "For every recipient key, session key and transport algorithm (CryptoPro key transport, and the Magma and Kuznyechik export of R 1323565.1.025), encrypting a session key yields a message from which the holder of the private key, whether the engine or an independent implementation of the standard, recovers exactly that session key. Messages produced by an independent implementation are decrypted by the engine to the right key.",
 ["inputs", "configurations"],
 "all recipient keys, parameter sets, session keys, UKMs and transport algorithms, with ephemeral and with static sender keys",
 "The tests only decrypt what the same code has just encrypted, on a few keys.",
 ["gost_ec_keyx.c", "gost_keywrap.c", "gost_keyexpimp.c", "gost_asn1.c", "gost_pmeth.c"],
 [("CryptoPro transport", "gost_ec_keyx.c pkey_GOST_ECcp_encrypt/decrypt"), ("2018 transport", "gost_ec_keyx.c pkey_gost2018_encrypt/decrypt"), ("wrap and diversification", "gost_keywrap.c")],
 None, ["EVP_PKEY_encrypt / EVP_PKEY_decrypt results"])

prop("P14", "Altered or foreign key-transport messages never yield a session key",
 "If any bit that carries the wrapped key, its checksum, the UKM, the ephemeral public key or their parameters in a key-transport message is changed, or the message is opened with a different private key, decryption reports failure rather than returning a key other than the one sent. The same holds for the KExp15 key-wrap ciphers: an altered wrapped key, IV or key-encryption key is rejected.",
 ["inputs"],
 "all single- and multi-bit alterations and truncations of transport messages and wrapped keys, all recipient keys",
 "There is no negative test of key transport at all.",
 ["gost_ec_keyx.c", "gost_keywrap.c", "gost_keyexpimp.c"],
 [("checksum comparison", "gost_keywrap.c keyUnwrapCryptoPro"), ("MAC comparison", "gost_keyexpimp.c gost_kimp15")],
 None, ["EVP_PKEY_decrypt, EVP_DecryptUpdate on the wrap ciphers"])

prop("P15", "Key export and derivation functions match their specifications",
 "KExp15/KImp15 (with Magma and Kuznyechik), KDF_GOSTR3411_2012_256, KDF_TREE_GOSTR3411_2012_256 and TLSTREE return the octets that the TC26 recommendations define for every key, label, seed, counter width, output length and IV, and import is the exact inverse of export. Inputs that the functions cannot honour (such as an exported key of the wrong length or an output length that is not supported) are rejected.",
 ["inputs"],
 "all keys, labels and seeds of any length, representation sizes, output lengths, IVs, shared-key contents",
 "One vector per function is tested.",
 ["gost_keyexpimp.c", "gost_crypt.c", "gost_grasshopper_cipher.c"],
 [("KExp15 / KImp15", "gost_keyexpimp.c gost_kexp15 / gost_kimp15"), ("KDF_TREE", "gost_keyexpimp.c gost_kdftree2012_256"), ("TLSTREE", "gost_keyexpimp.c gost_tlstree")],
 None, ["function results; wrap ciphers through EVP"])

prop("P16", "Keys survive serialisation unchanged, in every supported encoding",
 "Writing a private key (in each configurable format), public key or parameters and reading it back, through DER or PEM, gives a key of the same algorithm and parameter set with the same private value and public point, and printing a key shows these values. Every documented private-key encoding (little-endian octets, OCTET STRING, INTEGER, masked, and masked with public key) is decoded to the value it denotes with the matching public key, and the octets written are exactly those RFC 4491/5208/9215 prescribe.",
 ["inputs", "configurations"],
 "all keys (including values with leading or trailing zero octets), algorithms, parameter sets, encodings, numbers of masks",
 "Tests read a few fixed keys in each encoding; values with zero octets at either end and multiple masks are not sampled.",
 ["gost_ameth.c", "gost_asn1.c", "gost_ctl.c"],
 [("private key decode/encode", "gost_ameth.c priv_decode_gost / priv_encode_gost / unmask_priv_key"), ("public key decode/encode", "gost_ameth.c pub_decode_gost_ec / pub_encode_gost_ec"), ("parameters", "gost_ameth.c encode_gost_algor_params / decode_gost_algor_params")],
 None, ["d2i/i2d and PEM results; PKCS8 octets"])

prop("P17", "Hostile encoded input is rejected or decoded safely, never crashes or leaks",
 "Arbitrary octets presented as a private key, public key, key parameters, cipher parameters, key-transport message, wrapped key, signature or CMS message make the operation return, either with a usable object or with an error: the process is never aborted, memory outside live objects is never read or written, uninitialised memory never influences the result, and nothing is leaked. A public key that is accepted is a point of the named curve.",
 ["inputs"],
 "all octet strings for every decoder, in particular mutations of valid encodings and syntactically valid encodings with wrong lengths, missing optional parts or mismatched algorithms",
 "The tests decode well-formed input only.",
 ["gost_ameth.c", "gost_asn1.c", "gost_ec_keyx.c", "gost_crypt.c", "gost_gost2015.c", "gost_keyexpimp.c", "gost_pmeth.c"],
 [("length and structure checks", "gost_ameth.c priv_decode_gost, pub_decode_gost_ec; gost_ec_keyx.c pkey_*_decrypt; gost_crypt.c gost89_get_asn1_parameters; gost_gost2015.c gost2015_get_asn1_params")],
 None, ["AddressSanitizer/UBSan/LeakSanitizer/memcheck reports, abort, return values"])

prop("P18", "Any sequence of API calls, including failing ones, is memory-safe and leak-free",
 "Whatever sequence of engine operations a program performs through the public interface, including calls that are refused, wrong-size or out-of-order control calls, reuse after an error and early destruction, no invalid memory access, undefined arithmetic or double free takes place. When all objects have been released no memory obtained by the engine remains allocated.",
 ["histories"],
 "all sequences of context creation, control, initialise, update, finalise, clone, reset and destroy calls on every algorithm with arbitrary arguments",
 "Tests call in the intended order with the intended sizes and do not run under sanitizers.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_gost2015.c", "gost_pmeth.c", "gost_keyexpimp.c", "gost_md.c", "gost_md2012.c", "gost_eng.c"],
 [("control functions", "gost_crypt.c gost_cipher_ctl, magma_cipher_ctl*, gost_imit_ctrl; gost_grasshopper_cipher.c gost_grasshopper_cipher_ctl; gost_omac.c omac_imit_ctrl; gost_omac_acpkm.c"), ("cleanup functions", "*_cleanup in the same files")],
 None, ["sanitizer reports"])

prop("P19", "Running out of memory makes operations fail cleanly, never wrongly succeed",
 "If a memory allocation (or several) fails during an engine operation, the operation either reports failure or produces exactly the result it produces without the failure. No allocation failure leads to a crash, to a leak, to a signature that does not verify, to a wrong digest, key or ciphertext reported as success, or to the acceptance of an invalid signature or tag.",
 ["fault_sequences"],
 "every allocation point of every operation of the engine",
 "No test makes an allocation fail.",
 ["gost_ec_sign.c", "gost_ec_keyx.c", "gost_ameth.c", "gost_pmeth.c", "gost_keyexpimp.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c", "gost_eng.c", "gost_asn1.c"],
 [("error paths", "all functions that allocate")],
 None, ["CRYPTO_set_mem_functions hook with a failure index, results compared with the fault-free run"])

prop("P20", "Secret key material does not survive in freed memory",
 "When a context or key is released, reset or re-keyed, the heap memory the engine used for it holds no symmetric key, key schedule, private scalar, nonce or derived key at the moment it is returned to the allocator, on success and on error paths. Key agreement, key transport, wrapping, export and derivation also leave none of these in the stack frames they return from.",
 ["inputs", "histories"],
 "all contexts and keys of every algorithm, released at any point of their life, on success and error paths",
 "Wiping has no functional effect, so no test can notice its absence.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_omac.c", "gost_omac_acpkm.c", "gost_ec_sign.c", "gost_ec_keyx.c", "gost_keyexpimp.c", "gost_ameth.c", "gost_pmeth.c", "gost89.c"],
 [("cleanup and cleanse calls", "gost_crypt.c gost_cipher_cleanup, magma_cipher_cleanup; gost_grasshopper_cipher.c gost_grasshopper_cipher_cleanup; gost89.c gost_destroy; gost_omac.c omac_imit_cleanup; BN_clear_free in gost_ec_sign.c")],
 None, ["every block passed to the free hook, searched for the secrets of the run"])

prop("P21", "Concurrent use of separate contexts is race-free and gives the serial results",
 "Threads that use the engine at the same time with their own contexts and keys (hashing, ciphering, MACs, key generation, signing, verifying, agreement, key transport, encoding), including the very first uses after the engine is loaded, cause no data race and get the same results as when run one after another.",
 ["schedules"],
 "all interleavings of operations of several threads, including first use of each algorithm and parameter set",
 "The tests are single-threaded.",
 ["gost_eng.c", "gost_ec_sign.c", "gost_params.c", "gost_ctl.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_grasshopper_core.c", "gost_md.c", "gost_omac.c"],
 [("lazily created global objects", "gost_eng.c GOST_init_cipher/GOST_init_digest users, gost_ec_sign.c fill_GOST_EC_params group cache, gost_ctl.c get_gost_engine_param")],
 [("params->group", "cached curve group shared by all keys", "gost_params.c / gost_lcl.h R3410_ec_params"), ("gost_params[]", "engine control parameters", "gost_ctl.c")],
 ["ThreadSanitizer reports; per-thread results"])

prop("P22", "Branches and memory addresses of scalar multiplication ignore the secret scalar",
 "Where the engine multiplies a curve point by a secret (public key computation, signing, key agreement) on the parameter sets with dedicated arithmetic, neither the branches taken nor the memory addresses accessed inside that arithmetic depend on the secret scalar.",
 ["inputs"],
 "all secret scalars, base-point and arbitrary-point multiplication on every parameter set with dedicated arithmetic, in both field implementations",
 "Functional tests cannot observe timing behaviour.",
 ["ecp_id_*.c", "gost_ec_sign.c"],
 [("regular recoding and constant-time table lookup", "ecp_id_*.c scalar_rwnaf, var_smul_rwnaf, fixed_smul_cmb, fiat_*_selectznz")],
 None, ["memcheck definedness tracking of a scalar marked undefined; instruction/address traces"])

prop("P23", "gostsum and gost12sum print true digests and check mode passes only intact files",
 "For every file and standard input the command-line tools print the digest of the content in the documented form, for each digest size and parameter set. In check mode the exit status is zero only if every listed file could be read and matches its listed digest; altered, missing or unreadable files, unreadable lists and lists without any entry give a non-zero status, as does a malformed line in a list given to gostsum (gost12sum skips such lines), and no list content crashes the tool. A read error gives a non-zero status and no digest.",
 ["inputs"],
 "all file contents and sizes (including empty and larger than the read buffer), all lists, including malformed ones",
 "The command-line tests cover a few files and well-formed lists.",
 ["gostsum.c", "gost12sum.c", "gosthash.c", "gosthash2012.c"],
 [("hash_stream and check loop", "gostsum.c / gost12sum.c main, hash_stream, get_line")],
 None, ["standard output and exit status of the tools under sanitizers"])

prop("P24", "Loading, configuring and unloading the engine works repeatedly and consistently",
 "Every digest, cipher and public-key algorithm the engine announces is available by name and identifier with the documented block, key and IV sizes, however often the engine has been loaded and unloaded before in the process. After it has been unloaded and the last object using it has been released, no algorithm of it can be found any more by name, nothing of it can be reached, and all memory it allocated has been released. A control parameter set by a command or in the configuration file takes effect (default parameter set for GOST 28147-89, PBE hash, private key format); where the environment also gives one before loading, the environment wins; unloading forgets the commands. A second load while it is loaded changes nothing.",
 ["histories", "configurations"],
 "all orders of load, use, control, unload and reload, all settings of control parameters and environment variables",
 "Tests load the engine once per process and set hardly any parameter.",
 ["gost_eng.c", "gost_ctl.c", "gost_lcl.h", "gost_crypt.c", "gost_ameth.c"],
 [("registration tables", "gost_eng.c"), ("parameters", "gost_ctl.c"), ("use of parameters", "gost_crypt.c get_encryption_params, gost_ameth.c priv_encode_gost")],
 None, ["ENGINE_*, EVP_get_*byname, LeakSanitizer"])

prop("P25", "CMS, PKCS#12, X.509 and TLS built on the engine interoperate end to end",
 "Certificates, signed and encrypted CMS messages, PKCS#12 files and TLS connections made with any supported combination of key algorithm, parameter set, digest and cipher are accepted, and give back the original content, on the receiving side. A change to signed content, encrypted content, certificate or record makes the receiving side fail instead of delivering different content as authentic.",
 ["inputs", "configurations"],
 "all combinations of key algorithm, parameter set, recipient type and content cipher, all contents, all alterations of authenticated parts",
 "The tests cover a subset of combinations with one content each and no alteration.",
 ["gost_ameth.c", "gost_pmeth.c", "gost_ec_keyx.c", "gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c", "gost_keyexpimp.c", "gost_md2012.c"],
 [("CMS glue", "gost_ameth.c pkey_ctrl_gost, gost_cms_set_*_shared_info"), ("wrap ciphers", "gost_keyexpimp.c")],
 None, ["CMS_*, PKCS12_*, X509_*, SSL_* results"])

prop("P26", "Cipher parameters carried in algorithm identifiers reproduce the cipher state",
 "For every cipher with an ASN.1 parameter encoding that can be named in an algorithm identifier (GOST 28147-89 CFB and CBC, the ACPKM counter modes with and without OMAC), the parameters written by the encrypting side (IV or UKM, and the S-box set for GOST 28147-89) and read by the decrypting side configure it so that decryption returns the plaintext, for every IV, UKM and parameter set. Parameters that are malformed, of the wrong length or name an unknown set are refused, and never leave the context silently using other parameters.",
 ["inputs", "configurations"],
 "all IVs/UKMs, all S-box parameter sets, all malformed parameter encodings",
 "Covered by the CMS tests only for the default parameters, never for malformed ones.",
 ["gost_crypt.c", "gost_grasshopper_cipher.c", "gost_gost2015.c", "gost_asn1.c"],
 [("GOST 28147-89 parameters", "gost_crypt.c gost89_set_asn1_parameters / gost89_get_asn1_parameters"), ("2015 parameters", "gost_gost2015.c gost2015_set_asn1_params / gost2015_get_asn1_params; magma_/grasshopper set/get_asn1_parameters")],
 None, ["EVP_CIPHER_param_to_asn1 / EVP_CIPHER_asn1_to_param"])

prop("P27", "The OpenSSL 3 provider gives the same results and keeps its own promises",
 "Every cipher, AEAD, digest and MAC offered by the GOST provider computes the standard transformation for every key, IV, message and split into calls, in both directions, and behaves so through everything OpenSSL 3 can do with it: settings made with parameters before, with or after initialisation (key meshing interval, padding, MAC key and size, AEAD tag and IV length, ASN.1 parameters) take effect or are refused; contexts that are re-initialised with or without a key start a new message; copies are independent and complete, and a copy that cannot be made is reported; sizes, IVs and parameters read back are the true ones; dispatch tables and parameter lists are terminated; input of any length is taken. Keys and sizes of impossible lengths are refused.",
 ["inputs", "histories"],
 "all algorithms of the provider, keys, IVs, messages, parameters, and all histories of initialisation, use, copying and re-initialisation",
 "Without libprov the tests do not build the provider at all; with it they run fixed vectors through one init, update, final each.",
 ["gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c", "gost_prov.h"],
 [("cipher wrappers", "gost_prov_cipher.c cipher_newctx / cipher_dupctx / cipher_set_ctx_params / cipher_get_ctx_params / cipher_update"), ("digest wrappers", "gost_prov_digest.c digest_newctx / digest_init / digest_update"), ("MAC wrappers", "gost_prov_mac.c mac_init / mac_set_ctx_params / mac_final / mac_dupctx")],
 [("wrapped legacy context", "the EVP_CIPHER_CTX or EVP_MD_CTX that does the work", "gost_prov_cipher.c, gost_prov_digest.c, gost_prov_mac.c struct gost_prov_*_ctx_st")],
 ["EVP_CIPHER_fetch / EVP_MD_fetch / EVP_MAC_fetch and the calls on them"])

prop("P28", "The provider can be loaded, shared, starved of memory and unloaded safely",
 "The provider can be loaded into several library contexts of a process, in any order and repeatedly; unloading it in one leaves it working in the others, and objects made from it stay usable as long as they live. After the last one everything it allocated has been released. Threads may use it at once from its first use on, while others load and unload it, without data races and with the results each thread gets alone. When memory cannot be allocated below any of its functions, the call reports failure or gives the right result, nothing is left behind or freed twice, and the provider works afterwards. A refused request leaves an error that names its reason.",
 ["schedules", "faults", "histories"],
 "all histories of loading, use and unloading over several library contexts, all interleavings of threads, all points at which an allocation can fail",
 "The tests load the provider once, in one library context, in one thread, and never run out of memory.",
 ["gost_prov.c", "gost_prov.h", "gost_prov_cipher.c", "gost_prov_digest.c", "gost_prov_mac.c", "gost_eng.c", "gost_md.c", "gost_crypt.c"],
 [("shared engine and descriptors", "gost_prov.c provider_ctx_link / provider_ctx_unlink"), ("descriptors", "gost_crypt.c GOST_init_cipher, gost_md.c GOST_init_digest, GOST_prov_init_* / GOST_prov_deinit_*"), ("errors", "gost_prov.c ERR_GOST_error, gost_get_reason_strings")],
 [("provider contexts", "list of the contexts of a process, with the engine they share", "gost_prov.c prov_contexts, prov_engine")],
 ["OSSL_PROVIDER_load / OSSL_PROVIDER_unload, fetched algorithms, ThreadSanitizer, LeakSanitizer"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
ids = set()
with open(out, "w") as f:
    for p in P:
        assert p["id"] not in ids and len(p["title"]) <= 80, (p["id"], len(p["title"]))
        ids.add(p["id"])
        f.write(json.dumps(p) + "\n")
try:
    import jsonschema
    sch = json.load(open("/root/.vp/PROPERTIES.schema.json"))
    for p in P: jsonschema.validate(p, sch)
    print("valid", len(P))
except ImportError:
    print("written", len(P))
