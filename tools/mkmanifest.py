#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the monitor modules present."""
import json, os
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = {
 'C01': 'ASan/UBSan execution + online oracle: genus certificate and obstruction certificate of every result',
 'C02': 'ASan/UBSan execution + online oracle: subdivision certificate of every isolated subgraph',
 'C03': 'ASan/UBSan execution + online oracle: outer-face and K4/K2,3 certificates',
 'C04': 'ASan/UBSan execution + independent K2,3 decider and witness certificate as run-time monitor',
 'C05': 'ASan/UBSan execution + independent K3,3 decider and witness certificate as run-time monitor',
 'C06': 'ASan/UBSan execution + independent K4 decider and witness certificate as run-time monitor',
 'C07': 'ASan/UBSan execution + geometric monitor of positions and rendered picture',
 'C08': 'run-time mutation of results, library checker observed against independent certificates',
 'C09': 'run-time metamorphic monitor: state dumps across sort/unsort and renumbering',
 'C10': 'control-flow edge counting instrumentation (trace-pc-guard), work ratio monitor over sizes',
 'C11': 'state-dump equality monitor over fresh, poisoned-memory and reused objects',
 'G01': 'model-based run-time monitor: every operation compared with a reference multigraph',
 'G02': 'model-based run-time monitor: every hide/contract/identify/restore step compared with a reference',
 'G03': 'online oracle: DFS tree, edge classes, lowpoints recomputed by definition',
 'G04': 'state-dump equality/independence monitor of both copies under ASan',
 'G05': 'differential run-time monitor: attach/detach histories against feature-free runs, under ASan',
 'G06': 'invalid requests injected, return value and full state dump monitored, under ASan',
 'G07': 'online oracle over generated graphs and random seeds',
 'I01': 'run-time monitor with own text codecs, file and string channels, under ASan/UBSan',
 'I02': 'run-time monitor with own graph6 codec, file and string channels, under ASan/UBSan',
 'I03': 'mutation/grammar fuzzing under ASan/UBSan with leak ledger, CPU limit and structure monitor',
 'I04': 'run-time monitor: inputs made malformed by construction, return value observed',
 'I05': 'run-time monitor: drawings written and read back, own parser, under ASan/UBSan',
 'I06': 'fault injection: files that refuse bytes from chosen offsets or fail on closing; bytes, graphs and return values monitored, ledger, ASan/UBSan',
 'M01': 'fault injection: every allocation of a session refused in turn; ASan + allocation ledger',
 'M02': 'ASan/UBSan + allocation/file ledger over generated life-cycle sessions, poisoned fresh memory',
 'L01': 'model-based run-time monitor of the containers under ASan/UBSan',
 'U01': 'sanitized program executed; exit status and output files judged by the oracles',
 'U02': 'sanitized program executed over graph6 streams; reported counts judged by the oracles',
 'U03': 'sanitized program executed; output text decoded by own codecs',
 'U05': 'sanitized program driven through menu sessions; files and verdicts compared with command-line runs',
 'U06': 'fault injection (names, files, memory) into the sanitized program; ledger at exit and outcome monitored',
 'U07': 'sanitized self test executed over intact and altered sample directories; exit status monitored',
 'U08': 'sanitized program executed twice per command line; output and files compared',
 'U04': 'sanitized program executed; reported statistics and output files judged',
}
N = {
 'C10': 'Exploration of input families at growing sizes: shows growth on the explored families only. Trusts that executed control-flow edges measure work (library calls such as memset/memcpy are not counted).',
 'M01': 'Every allocation point reached by each session fails once (alone, and from there on). Sessions are generated; trusts the wrapper around malloc/calloc/realloc/strdup and ASan.',
}
D = 'Dynamic exploration: held on every generated execution of the run (counts in the evidence file); seeded and repeatable, not exhaustive. Trusts the oracles in /verif/harness and the clang 18 sanitizers.'
ids = [json.loads(l)['id'] for l in open(R + '/properties.jsonl')]
ch, na = [], []
for i in ids:
    if os.path.exists('%s/harness/%s.cpp' % (R, i.lower())):
        ch.append({'property': i, 'quick_cmd': 'python3 check.py %s quick' % i, 'thorough_cmd': 'python3 check.py %s thorough' % i, 'technique': T[i], 'level': 'fault_enumeration' if i in ('M01','U06','I06') else 'exploration', 'level_note': N.get(i, D)})
    else: na.append({'property': i, 'reason': 'the monitor for this property is not built yet'})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': ch, 'not_applicable': na,
     'notes': 'No hooks in /repo: the checks build its sources with a force-included header (harness/vfhook.h) that redirects allocation and file opening to a ledger.'}
json.dump(m, open(R + '/MANIFEST.json', 'w'), indent=1); print(len(ch), 'claimed,', len(na), 'not')
