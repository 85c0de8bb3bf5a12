#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the table of checks."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE + '/tools')
from check import RULES
NOTE = {
    'B01': 'Oracle: independent CMS/JSON/X.509 verification (OpenSSL, own parsers) of the voucher tapped on the pledge\'s TLS connection.',
    'B02': 'Oracle: reference decision on every request the MASA saw; requests whose reading is unclear may go either way but never with wrong contents.',
    'B03': 'Oracle: reference decision on every pledge request and comparison with what reached the MASA on the wire.',
    'B04': 'Oracle: each reply, forwarded request and output is attributed to its own connection; identities, nonces and keys differ between clients.',
    'B05': 'Oracle: recorded MASA replies, registrar replies and exit codes.',
    'B06': 'AddressSanitizer on all repository code, process exits, replies to complete requests, and a fresh pledge afterwards.',
    'B07': 'After the last fault and 12 s of simulated time a fresh pledge must complete request and enrolment.',
    'B08': 'Oracle: outputs and issued certificates are parsed and compared with the request, the CA and the key.',
    'B09': 'Oracle: bytes sent by the pledge on every connection, and the certificate of the server at its end.',
    'B10': 'Oracle: bipartite matching between enrolments answered and audit lines, with file and crash faults.',
    'B11': 'Live allocations of repository code, descriptors and threads between six identical rounds. OpenSSL-internal and libstdc++ allocations of the servers are counted through malloc.',
    'B12': 'Well-formed but wrong replacement contents (undetectable damage) are excluded.',
    'B13': 'Oracle: the files on the simulated disk at exit.',
    'B14': 'Allocations of the repository\'s C code; OpenSSL\'s internal allocations are not failed.',
    'B15': 'Oracle: line grammar of the recorded stderr and matching of lines.',
    'B16': 'Serial numbers of all certificates issued in a run, with pledges starting in the same second.',
    'B17': 'Oracle: clock of the acting host (offset history) during the operation.',
    'B18': 'Oracle: client credentials offered versus bytes answered by the server.',
    'B19': 'Oracle: validity of each certificate at the time the acting host\'s clock shows; decisions across a clock step may go either way.',
    'B20': 'Oracle: exit status and listening socket.',
    'B21': 'Each plan is run twice, the second time with default network parameters; outcomes of all operations are compared.',
}
NA = {
    'B22': 'Pure function of its input: no schedule, clock, fault or interleaving takes part, so simulation would be plain input fuzzing.',
    'B23': 'Pure function of the configuration file contents: no schedule, clock, fault or interleaving takes part (unreadable files are B12).',
}
claimed = sys.argv[1].split(',') if len(sys.argv) > 1 else sorted(RULES)
m = {
    'version': 1, 'setup_cmd': 'python3 tools/build.py',
    'checks': [{
        'property': p, 'quick_cmd': 'python3 tools/check.py %s quick' % p, 'thorough_cmd': 'python3 tools/check.py %s thorough' % p,
        'technique': 'deterministic simulation with fault injection: seeded search over schedules, deliveries and fault sequences of the real program',
        'level': 'exploration',
        'level_note': NOTE[p] + ' Sampled, not exhaustive; every violation is reproduced from its plan in a fresh process before it is reported.',
    } for p in claimed],
    'not_applicable': [{'property': p, 'reason': 'Check not built yet.'} for p in sorted(RULES) if p not in claimed] + [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
    'notes': 'No hooks in /repo: all seams are at link time (libc, pthread and OpenSSL entry points are replaced when the sources are built into the simulator).',
}
open(HERE + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
