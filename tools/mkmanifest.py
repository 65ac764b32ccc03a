#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property sources that exist."""
import json, os, importlib.machinery, importlib.util
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ld = importlib.machinery.SourceFileLoader('check', V + '/bin/check')
sp = importlib.util.spec_from_loader('check', ld)
C = importlib.util.module_from_spec(sp)
ld.exec_module(C)
TECH = {
    'asan': 'property-based testing with structured generators and a reference model (shrinking, sanitizers); libFuzzer over the same generators in the thorough tier',
    'tsan': 'stateful property-based testing with generated concurrent histories under ThreadSanitizer',
    'fault': 'property-based testing with fault injection: generated calls repeated with each request for memory refused, or reading failing at generated positions',
    'msan': 'property-based testing under MemorySanitizer with generated inputs and call histories',
}
NOTE = {
    'asan': 'Explores generated inputs only; absence of failures is not proof. Trusts the reference model in harness/ and AddressSanitizer/UBSan for memory accesses.',
    'tsan': 'Explores generated operation lists and the schedules the machine happens to produce; the sanitizer generalises over schedules with the same synchronisation. Trusts ThreadSanitizer.',
    'fault': 'Explores generated inputs and injected faults only. Trusts that every allocation of the library goes through the replaced functions, and AddressSanitizer/UBSan for memory accesses.',
    'msan': 'Explores generated inputs and histories; trusts MemorySanitizer and its libc interceptors.',
}
checks, na = [], []
for l in open(V + '/properties.jsonl'):
    p = json.loads(l)
    i = p['id']
    g = C.GROUP.get(i)
    if g is None or not os.path.exists(V + '/harness/props/%s.cc' % g) or ('"%s"' % i) not in open(V + '/harness/props/%s.cc' % g).read():
        na.append({'property': i, 'reason': 'its check is not built yet'})
        continue
    v = C.GROUPS[g][1]
    checks.append({'property': i, 'quick_cmd': 'python3 bin/check %s --tier quick' % i, 'thorough_cmd': 'python3 bin/check %s --tier thorough' % i,
                   'technique': TECH[v], 'level': 'exploration', 'level_note': NOTE[v]})
m = {'version': 1, 'setup_cmd': 'python3 bin/check --setup', 'checks': checks, 'not_applicable': na,
     'notes': 'Every check copies the sources from /repo, builds them with sanitizers under /verif/build (cached by content) and searches generated inputs.'}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'claimed;', len(na), 'not')
