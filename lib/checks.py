"""One function per property: which workloads run on which build flavours."""
from vdrv import *

CHECKS = {}
def check(pid, **kw):
    def deco(f):
        CHECKS[pid] = (f, kw)
        return f
    return deco

def eng_prog(name, fl, run, **kw):
    run.flav[fl] = 1
    return program(name, fl, [name + '.c', 'vh.c', 'vheng.c'] + list(kw.pop('more', ())), **kw)

@check('P01')
def p01(r):
    k = 8 if r.thorough() else 1
    for fl, n in (('asan', 6000), ('plain', 12000), ('port', 6000)):
        p = eng_prog('chk_hash', fl, r)
        r.add(p, fl, 'ops', n * k)
        r.add(p, fl, 'dense', 900)
        r.add(p, fl, 'hmac', n // 3 * k)
    p = eng_prog('chk_hash', 'plain', r)
    r.add(p, 'plain', 'big', 3 if r.thorough() else 2, per=1, timeout=800)
    r.run()
    return r.finish('random histories of init/update/copy/final/abandon over 4 contexts of the three digests with structured content, all lengths 0..299 with every two-way split, HMAC, and messages over 2^32 bits; every digest compared with the reference. '
                    'distinct: (algorithm, length class, number of updates) or (algorithm, length, split) tuples actually finalised and compared', 1000, 1000,
                    need=('digests_checked', 'copies', 'hmacs_checked', 'digests_over_512MiB'))

@check('P02')
def p02(r):
    k = 10 if r.thorough() else 1
    for fl, n in (('asan', 12000), ('plain', 30000), ('casan', 4000)):
        p = eng_prog('chk_cipher', fl, r)
        r.add(p, fl, 'conf', n * k)
    r.add(eng_prog('chk_cipher', 'plain', r), 'plain', 'long', 4 * k, per=1)
    r.run()
    return r.finish('single contexts of all 14 stream/block modes with random key/IV/S-box/section/chunking/alignment/in-place use, every output byte of every call compared with the reference transformation of the input so far; padded and unpadded finals; round trips. '
                    'distinct: (cipher, direction, S-box, meshing, section, length class) of finished messages, and (cipher, length) of round trips', 1000, 800,
                    need=('outputs_compared', 'finals', 'roundtrips', 'partial_rejected', 'padded_decrypt_rejected', 'sbox_sets', 'counter_edges', 'long_messages', 'long_blocks_checked'))

@check('P03')
def p03(r):
    k = 15 if r.thorough() else 3
    for fl, n in (('asan', 12000), ('plain', 30000)):
        p = eng_prog('chk_cipher', fl, r)
        r.add(p, fl, 'indep', n * k)
    r.run()
    return r.finish('random histories over four contexts: init (one or two steps, same or new cipher, key+IV or IV only, before or in mid-message), update, copy, destroy, reset; every output compared with the reference for that context alone. '
                    'distinct: (cipher, direction, S-box, meshing, section, length class, re-inits, copies) of finished messages', 1000, 1000,
                    need=('outputs_compared', 'copies', 'reinits', 'reinits_iv_only'))

@check('P04')
def p04(r):
    k = 10 if r.thorough() else 1
    for fl, n in (('asan', 5000), ('plain', 16000)):
        p = eng_prog('chk_cipher', fl, r)
        r.add(p, fl, 'rekey', n * k)
        r.add(p, fl, 'tlstree', n // 2 * k)
        p = eng_prog('chk_mac', fl, r)
        r.add(p, fl, 'acpkm', n // 4 * k)
    r.run()
    return r.finish('messages crossing CryptoPro meshing and ACPKM section boundaries with updates ending before, at and after each boundary, random section sizes; TLSTREE record sequences with arbitrary record numbers; ACPKM-based and meshed MACs and TLSTREE MACs of long messages. '
                    'distinct: (cipher, direction, S-box, meshing, section, length class) of messages; (cipher, record number class, length class) of records', 1000, 800,
                    need=('outputs_compared', 'rekeyings_crossed', 'tls_records', 'tlstree_macs', 'macs_checked'))

@check('P05')
def p05(r):
    k = 10 if r.thorough() else 2
    for fl, n in (('asan', 10000), ('plain', 25000)):
        p = eng_prog('chk_aead', fl, r)
        r.add(p, fl, 'mgm', n * k)
    r.run()
    return r.finish('random histories of three MGM contexts (all init orders, re-init with new IV or key, copies, destruction, in-place use, any split of AAD and data); every output byte, tag and accept/reject verdict compared with the reference; '
                    'decryptions with the right tag, altered tags and tags of messages that differ in one bit of nonce, AAD or ciphertext, or in length. '
                    'distinct: (cipher, direction, AAD length, data length, copied, re-initialised) and (alteration, partial block lengths)', 1000, 500,
                    need=('mgm_tags_checked', 'mgm_valid_accepted', 'mgm_forged_rejected', 'mgm_copies', 'mgm_reinits_iv_only', 'mgm_edge_auth_counters', 'mgm_edge_data_counters', 'mgm_over_limit_refused', 'mgm_late_aad_refused'))

@check('P07')
def p07(r):
    k = 10 if r.thorough() else 2
    for fl, n in (('asan', 5000), ('plain', 12000)):
        p = eng_prog('chk_aead', fl, r)
        r.add(p, fl, 'omac', n * k, leaks=(fl == 'asan'))
    r.run()
    return r.finish('CMS-style content encryption and decryption (parameters and MAC through ASN.1 and attribute interfaces), random content lengths and chunkings, default and small sections, clones, used contexts; ciphertext, MAC and plaintext compared with the reference; '
                    'alterations of content, MAC, UKM and lengths must be rejected. distinct: (cipher, alteration, length, section, order)', 1000, 500,
                    need=('omac_encryptions', 'omac_valid_decrypted', 'omac_altered_rejected', 'omac_copies', 'omac_reinits'))

@check('P06')
def p06(r):
    k = 10 if r.thorough() else 2
    for fl, n in (('asan', 6000), ('plain', 20000)):
        p = eng_prog('chk_mac', fl, r)
        r.add(p, fl, 'ops', n * k)
        r.add(p, fl, 'dense', 405 * (4 if r.thorough() else 1))
    r.run()
    return r.finish('random histories of four MAC contexts of the five MAC algorithms, through the keyed-digest interface (with XOF lengths) and MAC keys (all ways of giving key, size and S-box), copies, re-use, final-and-continue, ACPKM section settings, TLSTREE keys; all lengths 0..80 with every two-way split. '
                    'distinct: (algorithm, interface, MAC size, length class, updates, copies, TLSTREE, finals) and (algorithm, length, split)', 1000, 1000,
                    need=('macs_checked', 'bad_lengths', 'copies', 'pkey_macs_started', 'tlstree_macs', 'bad_sections_refused'))

def pk_prog(fl, r):
    return eng_prog('chk_pk', fl, r, more=('pk.c',), ref_ec=True, extra='-I' + REPO)

@check('P08')
def p08(r):
    k = 20 if r.thorough() else 4
    for fl, n in (('asan', 400), ('plain', 1600), ('port', 300)):
        r.add(pk_prog(fl, r), fl, 'sign', n * k)
    r.run()
    return r.finish('keys of all 16 (algorithm, parameter set) pairs, generated and loaded, edge private keys and digests (0, multiples of q, all ones); raw and message signatures with reused/copied contexts judged by an independent verifier, and independent signatures (edge nonces) given to the engine. '
                    'distinct: (interface, algorithm, parameter set, key origin, digest class, key size class)', 500, 300,
                    need=('signatures_checked', 'messages_signed', 'reference_signatures_accepted', 'public_keys_checked', 'foreign_digests_refused'))

@check('P09')
def p09(r):
    k = 10 if r.thorough() else 2
    for fl, n in (('asan', 300), ('plain', 1000)):
        r.add(pk_prog(fl, r), fl, 'verify', n * k)
        r.add(pk_prog(fl, r), fl, 'vmsg', n // 2 * k)
    r.run()
    return r.finish('valid signatures altered in 20 ways (bits, components 0/q/+q/-, swapped, padded, truncated, extended, point at infinity, random in range, other digest/key/signature) and altered signed messages; verdict compared with an independent verifier. '
                    'distinct: (algorithm, parameter set, alteration, expected verdict, size class)', 500, 500,
                    need=('valid_accepted', 'invalid_rejected', 'altered_messages', 'valid_messages'))

@check('P10')
def p10(r):
    k = 10 if r.thorough() else 2
    for fl, n in (('asan', 400), ('plain', 2400)):
        r.add(pk_prog(fl, r), fl, 'fresh', n * k, per=400)
    r.run()
    return r.finish('signature nonces recovered from signatures with the known key, private keys, UKMs and ephemeral keys under a recording RNG: range, uniqueness over everything seen by a process, distance of successive values, per-bit balance, influence of single random bits, amount of entropy drawn; RNG failures injected at each draw. '
                    'distinct: (operation, parameter set, bit/draw)', 500, 100,
                    need=('nonces_judged', 'private_keys_judged', 'transports_judged', 'rng_failures', 'influence_checks', 'special_draws', 'bit_positions_tested', 'cipher_seeds'))

@check('P11')
def p11(r):
    k = 30 if r.thorough() else 6
    for fl, n in (('asan', 400), ('plain', 3500), ('port', 2500), ('portasan', 150)):
        if fl == 'portasan' and not r.thorough():
            continue    # instrumenting the portable field arithmetic takes minutes to compile
        r.add(pk_prog(fl, r), fl, 'curve', n * k)
    r.run()
    return r.finish('base point, variable point and double scalar multiplication of every curve (64-bit and portable implementations) with edge scalars and points in special relations (results at infinity, equal and opposite summands), compared with double-and-add over generic arithmetic; curve parameters compared with the standards. '
                    'distinct: (parameter set, operation, relation, scalar size classes, infinity)', 1000, 1000,
                    need=('mul_base', 'mul_point', 'mul_two', 'results_at_infinity'))

def kx_prog(fl, r):
    return eng_prog('chk_kx', fl, r, more=('pk.c',), ref_ec=True, extra='-I' + REPO)

@check('P12')
def p12(r):
    k = 15 if r.thorough() else 3
    for fl, n in (('asan', 300), ('plain', 1500)):
        r.add(kx_prog(fl, r), fl, 'vko', n * k)
    r.run()
    return r.finish('agreements between three keys of every parameter set: VKO-256/512 with UKMs of 1..32 octets, 8-octet default mode, KEG; settings in any order, contexts reused and copied, both sides computed; UKM zero modulo q, missing UKM or peer, foreign parameters. Compared with the reference. '
                    'distinct: (key type, mode, UKM length, own/other, copied, key origins)', 500, 500,
                    need=('vko_checked', 'keg_checked', 'agreements', 'derive_refused', 'derive_refused_infinity'))

@check('P13')
def p13(r):
    k = 15 if r.thorough() else 3
    for fl, n in (('asan', 300), ('plain', 2000)):
        r.add(kx_prog(fl, r), fl, 'wrap', n * k)
    r.run()
    return r.finish('engine-made tokens (ephemeral or static sender key, given or random UKM, three transports, all parameter sets) parsed and opened by the reference and by the engine; reference-made tokens (five S-boxes) opened by the engine; contexts reused for several tokens. '
                    'distinct: (key type, transport, maker, sender key, UKM, reuse, S-box)', 500, 500,
                    need=('tokens_checked', 'reference_tokens', 'keys_transported', 'context_reuses', 'encrypt_context_reuses', 'encrypts_refused'))

@check('P14')
def p14(r):
    k = 10 if r.thorough() else 1
    for fl, n in (('asan', 600), ('plain', 2500)):
        r.add(kx_prog(fl, r), fl, 'tamper', n * k)
        r.add(kx_prog(fl, r), fl, 'kwrap', n * 2 * k)
    r.run()
    return r.finish('tokens with an altered field (wrapped key, MAC, UKM, S-box, ephemeral key, curve, lengths, missing parts, other recipient or transport) or altered octets of the encoding, and altered KExp15 wrappings: never another key, failure for altered fields. '
                    'distinct: (key type, transport, alteration, length) and (octet change, position)', 500, 1000,
                    need=('altered_tokens', 'valid_tokens', 'octet_changes_refused', 'altered_wraps', 'wraps_checked', 'wrap_reinits'))

@check('P15')
def p15(r):
    k = 15 if r.thorough() else 3
    for fl, n in (('asan', 4000), ('plain', 12000)):
        r.add(kx_prog(fl, r), fl, 'kdf', n * k)
    r.run()
    return r.finish('KDF_TREE with all counter widths, key/label/seed/output lengths, TLSTREE with structured record numbers, KExp15/KImp15 with structured keys and IVs, and requests that have to be refused; compared with the reference. '
                    'distinct: (function, length classes, counter width, blocks) / (record number shape) / (alteration, length)', 1000, 1000,
                    need=('kdf_checked', 'kdf_refused', 'tlstree_checked', 'kexp15_checked', 'kimp15_refused'))

@check('P16')
def p16(r):
    k = 15 if r.thorough() else 3
    for fl, n in (('asan', 500), ('plain', 2500)):
        r.add(kx_prog(fl, r), fl, 'ser', n * k)
    r.run()
    return r.finish('keys of all parameter sets, generated and loaded, decoded from the harness\'s own DER in every documented format (1..5 masks), written and compared octet by octet with that DER, PEM round trips, comparison functions, public points that are not on the curve or badly encoded. '
                    'distinct: (key type, origin, format, key size class), (masks), (refused point)', 500, 500,
                    need=('keys_compared', 'private_written', 'public_written', 'pem_roundtrips', 'bad_publics_refused', 'prints_checked'))

def asn_prog(fl, r):
    return eng_prog('chk_asn', fl, r, more=('pk.c',), ref_ec=True, extra='-I' + REPO)

@check('P26')
def p26(r):
    k = 10 if r.thorough() else 2
    for fl, n in (('asan', 1500), ('plain', 5000)):
        r.add(asn_prog(fl, r), fl, 'params', n * k)
    r.run()
    return r.finish('parameters written by encrypting contexts (compared with own DER) and applied to decrypting ones, own DER applied, malformed parameters refused, for all ciphers with CMS parameters; plaintext compared with the reference. '
                    'distinct: (cipher, S-box, length class, kind)', 500, 100,
                    need=('params_written', 'params_applied', 'bad_params_refused'))

@check('P17')
def p17(r):
    k = 20 if r.thorough() else 1
    for fl, n in (('asan', 6000), ('plain', 6000)):
        r.add(asn_prog(fl, r), fl, 'fuzz', n * k, env={'VDATA': os.path.join(VERIF, 'data')})
    r.run()
    return r.finish('structure-aware mutations of keys, certificates, transport tokens, cipher parameters and CMS messages', 1000, 500,
                    need=('mutants', 'hostile_keys_used', 'decoded', 'undecodable', 'cms_processed', 'cms_refused'))

def seq_prog(fl, r):
    return eng_prog('chk_seq', fl, r, more=('pk.c',), ref_ec=True, extra='-I' + REPO)

@check('P18')
def p18(r):
    k = 15 if r.thorough() else 1
    for fl, n in (('asan', 2400), ('casan', 800), ('plain', 1500)):
        r.add(seq_prog(fl, r), fl, 'seq', n * k, leaks=(fl != 'plain'))
        if fl != 'casan':
            r.add(seq_prog(fl, r), fl, 'sec', n // 4 * k, leaks=(fl == 'asan'))
    r.add(seq_prog('vg', r), 'vg', 'seq', 160 * k, start=100000, per=20, timeout=900,
          wrap=['valgrind', '-q', '--error-exitcode=96', '--leak-check=full', '--show-leak-kinds=definite', '--errors-for-leak-kinds=none', '--exit-on-first-error=no'])
    r.run()
    return r.finish('random sequences of 40..200 cipher, digest, key and key-context calls on 18 objects, with buffers of exactly the announced size (sometimes a smaller one), under ASan/UBSan/LSan, with and without the secure heap, and under valgrind (undefined values). '
                    'distinct: (operation, state, outcome)', 3000, 150, need=('calls_ok', 'calls_failed'))

def mem_prog(fl, r):
    return eng_prog('chk_mem', fl, r, more=('pk.c',), ref_ec=True, extra='-I' + REPO)

@check('P19')
def p19(r):
    r.add(mem_prog('asan', r), 'asan', 'oom', 800, per=12, timeout=900)
    r.add(mem_prog('asan', r), 'asan', 'oom2', 400 * (30 if r.thorough() else 1), per=20, timeout=900)
    if r.thorough():
        r.add(mem_prog('casan', r), 'casan', 'oom', 800, per=12, timeout=1800)
        r.add(mem_prog('plain', r), 'plain', 'oom', 800, per=12, timeout=1800)
    r.run()
    return r.finish('every operation (hash, cipher, MAC, key generation, signature, agreement, key transport, encoding and decoding, CMS, PKCS#12, engine commands, KDF) repeated with each of its allocations below the engine failing: once alone, once together with all later ones, and random pairs; '
                    'results compared with the run without failures, blocks left behind counted, ASan/UBSan watching. distinct: (operation, mode, place of the failing allocation)', 1000, 300,
                    need=('failures_injected', 'operations_failed', 'operations_succeeded_anyway', 'operations', 'refusals'))

@check('P20')
def p20(r):
    r.add(mem_prog('plain', r), 'plain', 'wipe', 400, per=20)
    r.add(mem_prog('plain', r), 'plain', 'wipefail', 400, per=8, timeout=900)
    if r.thorough():
        r.add(mem_prog('asan', r), 'asan', 'wipe', 400, per=20, timeout=900)
        r.add(mem_prog('casan', r), 'casan', 'wipe', 400, per=20, timeout=900)
        r.add(mem_prog('asan', r), 'asan', 'wipefail', 400, per=8, timeout=1800)
    r.run()
    return r.finish('every block released below the engine searched for the secrets of the operation (keys, scalars, nonces, masks, shared secrets, derived and sectional keys, key schedules by their input words), on success and with each allocation failing; '
                    'for operations that run on a stack of their own, that stack is searched afterwards. distinct: (operation, place of the failing allocation)', 600, 200,
                    need=('blocks_searched', 'error_blocks_searched', 'secrets', 'operations', 'stacks_searched', 'failures_injected'))

def thr_prog(fl, r):
    return eng_prog('chk_thr', fl, r, more=('pk.c',), ref_ec=True, extra='-I' + REPO)

@check('P21')
def p21(r):
    ts = thr_prog('tsan', r)
    pl = thr_prog('plain', r)
    n = 1 if r.tier == 'quick' else 8
    r.add(ts, 'tsan', 'thr', 1200 * n, per=3, timeout=300)          # few cases per process: the first use of everything is part of the races
    r.add(ts, 'tsan', 'thr', 400 * n, start=10 ** 6, per=4, timeout=300, env={'CRYPT_PARAMS': 'id-tc26-gost-28147-param-Z', 'GOST_PK_FORMAT': 'BE', 'GOST_PBE_HMAC': 'md_gost12_256'})
    r.add(ts, 'tsan', 'thr', 800 * n, start=2 * 10 ** 6, per=50, timeout=600)
    r.add(pl, 'plain', 'thr', 4000 * n, start=3 * 10 ** 6, per=10, timeout=600)
    r.run()
    return r.finish('2 to 8 threads run random operations of the engine at once; ThreadSanitizer watches the engine, with accesses to the objects of libcrypto which it shares between threads (groups, keys) reported to it; '
                    'every operation has to give the result it gives when the threads run one after another. distinct: pairs of operations which overlapped in time, orders in which the operations started',
                    4000, 2000, need=('overlapping_pairs', 'operations', 'threads', 'cases_with_shared_objects'))

@check('P23')
def p23(r):
    import tools_check
    return tools_check.check(r)

def life_prog(fl, r, dyn):
    r.flav[fl] = 1
    x = '-DVREPO="%s" -D_GNU_SOURCE' % REPO
    if dyn:
        return program('chk_engd', fl, ['chk_eng.c', 'vh.c'], extra=x + ' -DDYN -DVH_SO="@BUILD@/bin/gost.so"', link_engine=False, targets=('lib_gost_engine', 'gost_engine'))
    return program('chk_eng', fl, ['chk_eng.c', 'vh.c'], extra=x)
def life_lib(fl, r): return life_prog(fl, r, 0)
def life_dyn(fl, r): return life_prog(fl, r, 1)

@check('P24')
def p24(r):
    n = 8 if r.thorough() else 1
    for i, (f, fl, c) in enumerate(((life_lib, 'asan', 2000), (life_lib, 'plain', 5000), (life_dyn, 'asan', 2000), (life_dyn, 'plain', 5000))):
        r.add(f(fl, r), fl, 'life', c * n, start=i * 10 ** 6, per=120, timeout=600, leaks=fl == 'asan')
    r.run()
    return r.finish('random histories of loading (built in, as a module through the dynamic engine, through a configuration file), commands, environment settings, use and unloading, with and without objects which outlive the unloading; '
                    'after every unloading all names have to be gone, the module unmapped and no memory allocated by a source file of the engine left; while loaded, all algorithms by all names and with the right sizes, results as the independent '
                    'implementation says for the parameter set in force. distinct: kinds of use with parameter settings, numbers of cycles before a check of all algorithms',
                    9000, 60, need=('loads', 'unloads', 'second_loads', 'algorithms_checked', 'unloaded_states_checked', 'loads_by_config', 'released_after_unload', 'cipher_results', 'keys', 'pbe', 'commands'))

def ct_prog(fl, r):
    return eng_prog('chk_ct', fl, r, more=('pk.c',), ref_ec=True, extra='-I' + REPO)

@check('P22')
def p22(r):
    n = 10 if r.thorough() else 1
    for i, fl in enumerate(('vg', 'plain', 'clang', 'port')):
        p = ct_prog(fl, r)
        w = ['valgrind', '-q', '--error-limit=no', '--log-file=%q{VH_TMP}/vg.%p.log']
        r.add(p, fl, 'mul', 150 * n, start=i * 10 ** 6, per=10, timeout=800, wrap=w)
        r.add(p, fl, 'ops', 90 * n, start=i * 10 ** 6, per=10, timeout=800, wrap=w)
    r.run()
    return r.finish("valgrind's memcheck runs scalar multiplications, key generation, signing and key agreement with the secret scalar (private key, octets from the random generator) marked undefined and reports each branch and address which depends on it; "
                    'reports inside the arithmetic (ecp_*.c) of gcc -O1, gcc -O2, clang -O2 and portable builds are violations. evaluations: cases of three multiplications or one operation; distinct: parameter set, kind, size of the scalar',
                    800, 120, need=('octets_marked_secret', 'results_secret_reached', 'multiplications', 'operations', 'monitor_self_tests'))

def e2e_prog(fl, r):
    return eng_prog('chk_e2e', fl, r, more=('pk.c',), ref_ec=True, libs=('-lssl', '-lcrypto'))

@check('P25')
def p25(r):
    k = 10 if r.thorough() else 1
    v = {'VDATA': os.path.join(VERIF, 'data')}
    for i, (fl, n) in enumerate((('asan', 1), ('plain', 3))):
        p = e2e_prog(fl, r)
        for mode, c in (('x509', 160), ('sign', 160), ('env', 240), ('misc', 300), ('kat', 200), ('p12', 240), ('tls', 160)):
            r.add(p, fl, mode, c * n * k, start=i * 10 ** 6, env=v, leaks=fl == 'asan')
    r.run()
    return r.finish('certificate chains, requests and revocation lists; signed, enveloped, digested and encrypted CMS messages; the published TC 26 example messages; PKCS#12 files; TLS sessions (full, resumed, with client authentication, all GOST suites) '
                    'made with random keys of all parameter sets and read back through libcrypto/libssl, then with altered octets (record contents on the wire for TLS): what is accepted has to be what was sent. distinct: (protocol, parameter sets, algorithms)',
                    3000, 500, need=('chains', 'kexp15_recipients', 'forgeries', 'signed', 'enveloped_read', 'altered_authenticated', 'digested', 'encrypted', 'published', 'p12', 'tls_handshakes', 'tls_resumed', 'altered_handshakes', 'altered_data', 'altered_refused'))

def prov_prog(name, fl, run, more=(), ref_ec=False):
    """the provider, built from gost_prov*.c with libprov's error interface of harness/libprov"""
    run.flav[fl] = 1
    return program(name, fl, [name + '.c', 'vh.c', 'prov.c', 'libprov.c'] + list(more), link_engine=False, ref_ec=ref_ec,
                   repo_srcs=sorted(x for x in os.listdir(REPO) if x.startswith('gost_prov') and x.endswith('.c')) + ['gost_eng.c'],
                   repo_defs='-DBUILDING_GOST_PROVIDER -DBUILDING_PROVIDER_AS_LIBRARY -DOPENSSL_NO_DYNAMIC_ENGINE')
def prov_cipher(fl, r): return prov_prog('prov_cipher', fl, r)
def prov_aead(fl, r): return prov_prog('prov_aead', fl, r)
def prov_hash(fl, r): return prov_prog('prov_hash', fl, r)
def prov_own(fl, r): return prov_prog('chk_prov', fl, r)
def prov_par(fl, r): return prov_prog('prov_par', fl, r, more=('pk.c',), ref_ec=True)
def prov_oom(fl, r): return prov_prog('prov_oom', fl, r, more=('txlo.c',))
def prov_thr(fl, r): return prov_prog('prov_thr', fl, r)

@check('P27')
def p27(r):
    n = 12 if r.thorough() else 1
    for i, fl in enumerate(('asan', 'plain') + (('casan', 'port') if r.thorough() else ())):
        s = i * 10 ** 6
        q = 1 if fl == 'asan' else 2
        for f, mode, c, per in ((prov_cipher, 'conf', 400, 25), (prov_cipher, 'indep', 4000, 250), (prov_cipher, 'rekey', 400, 20), (prov_aead, 'mgm', 2500, 100),
                                (prov_hash, 'ops', 3000, 100), (prov_hash, 'dense', 2000, 250), (prov_hash, 'hmac', 3000, 250), (prov_own, 'mac', 3000, 100),
                                (prov_own, 'tables', 200, 50), (prov_par, 'params', 1200, 50)):
            r.add(f(fl, r), fl, mode, c * q * n, start=s, per=per, timeout=600, leaks=fl == 'asan')
    if r.thorough():
        r.add(prov_own('plain', r), 'plain', 'big', 7, start=0, per=1, timeout=900)
        r.add(prov_cipher('plain', r), 'plain', 'long', 300, start=0, per=5, timeout=900)
    else:
        r.add(prov_own('plain', r), 'plain', 'big', 1, start=0, per=1, timeout=600)
    r.run()
    return r.finish("the provider's ciphers, AEADs, digests and MACs fetched through OpenSSL 3 and driven by random histories of init, parameters, updates, copies and re-initialisation, every output compared with the independent implementation; "
                    'dispatch tables walked from outside, sizes and parameters compared with the standards, single updates of more than 2^31 octets against the same message in parts. distinct: (algorithm, history shape)', 20000, 1500,
                    need=('outputs_compared', 'copies', 'reinits', 'rekeyings_crossed', 'mgm_tags_checked', 'mgm_forged_rejected', 'digests_checked', 'hmacs_checked', 'macs_checked', 'mac_dups', 'mac_reinits_same_key', 'bad_keys', 'bad_sizes', 'short_buffers',
                          'tables_walked', 'ciphers_described', 'params_applied', 'bad_params_refused', 'big_messages'))

@check('P28')
def p28(r):
    n = 12 if r.thorough() else 1
    r.add(prov_own('asan', r), 'asan', 'load', 1500 * n, per=50, timeout=300, leaks=True)
    r.add(prov_own('plain', r), 'plain', 'load', 3000 * n, start=10 ** 6, per=50, timeout=300)
    r.add(prov_oom('asan', r), 'asan', 'oom', 600 * n, per=20, timeout=300)
    r.add(prov_oom('plain', r), 'plain', 'oom', 800 * n, start=10 ** 6, per=20, timeout=300)
    r.add(prov_gone('asan', r), 'asan', 'gone', 1000 * n, per=50, timeout=300)
    r.add(prov_gone('plain', r), 'plain', 'gone', 1500 * n, start=10 ** 6, per=50, timeout=300)
    r.add(prov_thr('tsan', r), 'tsan', 'thr', 500 * n, per=5, timeout=300)
    r.add(prov_thr('asan', r), 'asan', 'thr', 600 * n, start=10 ** 6, per=10, timeout=300)
    r.add(prov_thr('plain', r), 'plain', 'thr', 3000 * n, start=2 * 10 ** 6, per=50, timeout=300)
    r.run()
    return r.finish('random histories of loading the provider into up to three library contexts, use, unloading and freeing them, with objects which outlive the unloading; every allocation below a function of the provider failing in turn; '
                    '2 to 6 threads using it from the first use on, some loading and unloading it meanwhile, under ThreadSanitizer. Results compared with the independent implementation or with the same script run alone, blocks left behind counted. '
                    'distinct: histories of loading, places of the failing allocation, orders of scripts over the threads', 4000, 1000,
                    need=('provider_loads', 'provider_unloads', 'library_contexts_freed', 'used_after_unload', 'errors_reported', 'objects_judged', 'failures_injected', 'scripts_failed', 'empty_states_checked', 'thread_scripts', 'threads'))
def prov_gone(fl, r): return prov_prog('prov_gone', fl, r, more=('txlo.c',))
