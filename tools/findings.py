#!/usr/bin/env python3
"""Rewrites the fixed: lines of known_findings.txt from /repo's fix commits (tool for the author, not used by checks)."""
import subprocess, re, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def prop(m):
    t = m.lower()
    if 'out of memory' in t or 'allocation fail' in t: return 'C25'
    if re.search(r'binding|python', t): return 'C22'
    if 'residue' in t: return 'C26'
    if 'codegen' in t: return 'C23'
    if re.search(r'ring|localbuffer|ti_buffer', t) and 'arsi' not in t and 'mesastoch' not in t: return 'C24'
    if re.search(r'reads? before|read past|reads an unset|int overflow|overflow|table access|strict weak|asserts|freed as', t): return 'C01'
    if re.search(r'valid|reject|below 1|inputs shorter|not an invalid', t): return 'C03'
    if re.search(r'stream', t) and 'reference' not in t: return 'C04'
    if re.search(r'reference', t): return 'C05'
    if re.search(r'period', t): return 'C01'
    return None
VAL = {'vidya does not': 'C26', 'trunc, round': 'C09', 'clamp rounding': 'C16', 'dpo': 'C12', 'gf3': 'C11', 'pvt': 'C13', 'ultosc': 'C12', 'gf4': 'C03', 'vidya': 'C10', 'dwma: whole': 'C05', 'edcf takes': 'C20'}
lines = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', '5988fa4..HEAD'], capture_output=True, text=True).stdout.splitlines()
out = ['# Genuine defects of tindicators found by these checks.',
       '# fixed: repaired in /repo by the named commit; suppresses nothing.',
       '# known: property=CNN where=<indicator or site> match=/<regex on the message>/ -- <what fails>   (not repaired; the check prints KNOWN-FINDING)']
old = [l.rstrip('\n') for l in open(V + '/known_findings.txt')] if os.path.exists(V + '/known_findings.txt') else []
out += [l for l in old if l.startswith('known:')]
for l in lines:
    c, s = l.split(' ', 1)
    if not s.startswith('fix:'): continue
    w = s[5:]
    p = next((v for k, v in VAL.items() if w.startswith(k)), None) or prop(w) or 'C02'
    out.append('fixed: property=%s %s %s' % (p, c, w))
open(V + '/known_findings.txt', 'w').write('\n'.join(out) + '\n')
