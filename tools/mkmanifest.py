#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks (lib/checks.py) and properties.jsonl."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + '/lib')
sys.dont_write_bytecode = True
import checks
T = {   # technique, level, note
 'P01': ('reference-model monitor over random call histories, ASan/UBSan and portable builds', 'digests compared with an independent implementation; random sampling, no exhaustiveness'),
 'P02': ('shadow-model monitor of every EVP cipher call against an independent implementation, ASan/UBSan builds', 'random sampling of keys, IVs, lengths, chunkings'),
 'P03': ('shadow-model monitor over random histories of init/copy/re-init/reset/destroy on four contexts, ASan/UBSan build', 'random histories up to about 36 steps'),
 'P04': ('shadow-model monitor with boundary-directed feeding; TLSTREE record sequences', 'messages up to 60 KB, random section sizes and record numbers'),
 'P05': ('reference-model monitor (encrypt/decrypt/forgery attempts) under ASan/UBSan', 'random sampling; forgeries are single and multiple bit changes'),
 'P06': ('reference-model monitor over random MAC histories through both interfaces, ASan/UBSan build', 'random sampling'),
 'P07': ('reference-model monitor of CMS-style content encryption with tampering, ASan/UBSan build', 'random sampling'),
 'P08': ('independent verification-equation oracle on engine signatures, and engine acceptance of reference signatures', 'all parameter sets, random keys, digests and nonces'),
 'P09': ('independent verification-equation oracle against the engine verdict on altered signatures', 'random and directed alterations on all parameter sets'),
 'P10': ('monitor of RNG consumption and of drawn values through a recording RAND method with fault injection at every draw', 'RNG failure injected at each draw position of each operation'),
 'P11': ('differential monitor against OpenSSL generic curve arithmetic, 64-bit and portable builds', 'directed and random scalars on all parameter sets'),
 'P12': ('reference-model monitor of VKO/KEG, both parties', 'random keys and UKM on all parameter sets'),
 'P13': ('two-way interoperability monitor with an independent key-transport implementation', 'random keys on all parameter sets and algorithms'),
 'P14': ('tampering monitor with an independent decision of which changes matter', 'every octet of sampled messages is altered, plus foreign keys'),
 'P15': ('reference-model monitor of KExp15/KDF/TLSTREE', 'random inputs, all supported lengths'),
 'P16': ('round-trip monitor with independent DER encoder/decoder', 'random keys, all encodings and parameter sets'),
 'P17': ('structure-aware mutation under ASan/UBSan/LSan with crash and acceptance monitors', 'mutation sampling; no exhaustiveness'),
 'P18': ('random API call sequences under ASan/UBSan/LSan', 'random sequences'),
 'P19': ('malloc-failure injection at every allocation of each operation under ASan/UBSan, outcome compared with the clean run', 'every single allocation of the enumerated operations'),
 'P20': ('freed-heap scanner for known secrets through allocator hooks', 'secrets searched in every block returned to the allocator'),
 'P21': ('ThreadSanitizer plus serial-result comparison under concurrent load with first-use barriers', 'sampled interleavings'),
 'P22': ('valgrind memcheck with the secret scalar marked undefined (taint), cross-checked by branch traces', 'sampled scalars; every executed instruction of the arithmetic is checked'),
 'P23': ('command-line monitor with independent digests and list files, sanitizer-built tools', 'random files and lists, directed malformed lists'),
 'P24': ('lifecycle monitor: repeated load/unload in one process with availability, parameter and leak oracles', 'random lifecycle histories'),
 'P25': ('end-to-end monitor through libcrypto/libssl: CMS, PKCS#12, X.509, TLS, with tampering', 'sampled combinations'),
 'P27': ('differential monitor of the fetched provider algorithms over random context histories against the independent implementation, under ASan/UBSan/LSan', 'random histories; the provider is compiled with a shim of libprov'),
 'P28': ('lifecycle monitor over several library contexts, ThreadSanitizer with serial-result comparison, allocation-failure injection, under ASan/LSan', 'random histories, sampled interleavings; every single allocation of the scripted operations'),
 'P26': ('round-trip monitor of ASN.1 cipher parameters with independent encoder and malformed inputs', 'random sampling and directed malformed parameters'),
}
LEVEL = {'P19': 'fault_enumeration', 'P10': 'fault_enumeration'}
m = {'version': 1, 'setup_cmd': 'bin/setup', 'checks': [], 'not_applicable': []}
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)['id']
    if p in checks.CHECKS:
        m['checks'].append(dict(property=p, quick_cmd='bin/check %s quick' % p, thorough_cmd='bin/check %s thorough' % p,
                                technique=T[p][0], level=LEVEL.get(p, 'exploration'), level_note=T[p][1]))
    else:
        m['not_applicable'].append(dict(property=p, reason='check not built yet'))
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
