#!/usr/bin/env python3
"""Regenerates MANIFEST.json from the table below (run by hand; not part of any check)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': ('handler-run trace checked against a reference dispatcher', 'Held on the random apps and requests explored; trusts the SUT event log and the reference dispatcher (mon/model.py).'),
 'C02': ('handler-run trace checked against inline registration', 'Held on the random mount histories explored; trusts the reference flattening in mon/model.py.'),
 'C03': ('variables recorded inside handlers checked against a reference matcher', 'Held on the pattern/request pairs explored.'),
 'C04': ('metamorphic trace comparison over equivalent paths plus climb oracle', 'Held on the path spellings explored.'),
 'C05': ('hostile-input monitoring with a reference head classifier', 'Held on the malformed heads explored; inputs the classifier leaves unspecified are only checked for one complete answer.'),
 'C06': ('body digests recorded in handlers checked against the bytes sent', 'Held on the sizes, contents and truncations explored.'),
 'C07': ('differential monitoring across segmentations', 'Every two-part split of small requests and random multi-part splits of larger ones; a few connections pause up to 32 s.'),
 'C08': ('recorded header map and list checked against the lines sent', 'Held on the header sets explored.'),
 'C09': ('recorded query map checked against a reference decoder', 'Held on the queries explored.'),
 'C10': ('recorded extended query checked against a reference builder', 'Held on the queries explored.'),
 'C11': ('recorded cookies checked against the header sent', 'Held on the Cookie headers explored.'),
 'C12': ('wire monitor: strict response parser against a model of the response operations', 'Held on the operation sequences explored.'),
 'C13': ('wire monitor of Set-Cookie lines against the cookies set', 'Held on the cookie sets explored.'),
 'C14': ('wire monitor of file bytes, length and type under slow readers and faults', 'Held on the files, extensions and read speeds explored.'),
 'C15': ('Date header monitored under a substituted system clock', 'Every calendar day 1970-9999 in the thorough tier; quick samples days and all boundaries.'),
 'C16': ('per-connection history checking under stress plus ThreadSanitizer', 'Held on the interleavings observed; TSan reports races only on executed code.'),
 'C17': ('availability probes during injected client, descriptor and panic faults', 'Held on the fault mixes explored; liveness is judged by bounded waiting on an idle server.'),
 'C18': ('descriptor and allocation counting at quiescence (counting allocator, /proc)', 'Held on the connection endings explored.'),
 'C19': ('exactly-one-response monitor on the wire', 'Held on the requests and handler outcomes explored.'),
 'C20': ('differential monitoring of TLS against plain HTTP, both backends', 'Held on the requests and handshake failures explored; client is OpenSSL through Python.'),
 'C21': ('lifecycle trace monitor over start/serve/stop/restart histories', 'Held on the histories explored.'),
 'C22': ('exhaustive observation of all status codes through API and wire', 'All named codes; custom codes sampled.'),
 'C23': ('round-trip and rejection monitors on derived conversions', 'Held on the struct shapes compiled and values generated.'),
 'C24': ('execution monitors inside functions expanded by the attributes', 'Held on the function shapes compiled.'),
 'C25': ('configuration snapshots checked against a last-writer model', 'Held on the call sequences explored.'),
 'C26': ('differential monitoring across feature sets', 'Held on the feature sets and requests explored.'),
 'C27': ('execution logs of compiled handlers checked against a simulation of their bodies', 'Held on the handler bodies and environments compiled.'),
 'C28': ('the macro run by the compiler on random trees, accepted set and values checked against the file system', 'Held on the trees, literals and layouts compiled; literals with escapes are left out.'),
 'C29': ('request lines recorded inside handlers checked against the lines sent', 'Held on the request lines explored.'),
 'C30': ('response snapshots taken inside handlers checked against a model of the response operations', 'Held on the operation sequences and histories explored.'),
 'C31': ('results of path operations recorded inside handlers checked against operations on lists of segments', 'Held on the paths and pairs of paths explored.'),
}
NA = {}
checks = []
for k, (t, n) in T.items():
    if k in NA or not os.path.exists(os.path.join(V, 'mon', k.lower() + '.py')):
        continue
    checks.append({'property': k, 'quick_cmd': f'python3 mon/run.py {k} --tier quick', 'thorough_cmd': f'python3 mon/run.py {k} --tier thorough',
                   'evidence_file': f'evidence/{k}.json', 'technique': 'runtime monitoring: ' + t, 'level': 'exploration', 'level_note': n})
na = [{'property': k, 'reason': r} for k, r in NA.items()]
for k in T:
    if k not in NA and not any(c['property'] == k for c in checks):
        na.append({'property': k, 'reason': 'check not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 mon/setup.py', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every monitor observes the public API, the wire or the process (allocator, clock, descriptors). '
              'Known findings and fixes: KNOWN_FINDINGS.txt.'}
json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
print(len(checks), 'checks')
