"""Regenerates known_findings.json: known entries below, fixed entries from the fix: commits in /repo."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KNOWN = [{
    'status': 'known', 'property': 'C17', 'kind': 'best-first-common-magnitude', 'match': ['(the runner-up leaf)'],
    'what': 'best_first_detector returns the same LLR magnitude for every bit of a vector: each leaf updates the counter-hypothesis of '
            'all bits, including those it agrees on with the best leaf (commpy/modulation.py, "LLR update if there is a new leaf")'}]
FIX = {
    '875da7a': 'C03', 'fcbb5c6': 'C19', 'aee4575': 'C18', 'b944773': 'C18', '3760719': 'C05', '0be7327': 'C16', '335a196': 'C20',
    '929f270': 'C08', '17cb3e5': 'C11', 'c12bcfd': 'C12', 'cf3134f': 'C08', '12352ff': 'C11', 'ec19954': 'C13'}
BY_TEXT = [('methods or callable objects', 'C01'), ('single parity check', 'C15'), ('LDPC generator matrices are exact', 'C15'), ('low-precision and integer LLRs', 'C11'),
           ('terminates recursive codes', 'C11'), ('correlated channels still refuse', 'C18'), ('normalised SISO fadings', 'C18'),
           ('every precision', 'C18'), ('MAP and turbo decoding', 'C14'), ('sum-product decoding of erased bits', 'C15'),
           ('min-sum decoding of codes', 'C15'), ('K-best detection keeps', 'C17'), ('correlated fadings accept', 'C18'), ('fully correlated channels', 'C18'),
           ("caller's received LLRs", 'C08'), ('uninitialised memory for polynomials', 'C05'), ('singular points', 'C36')]
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], text=True).splitlines()
fixed = []
for l in log:
    hh, s = l.split(' ', 1)
    if not s.startswith('fix:'):
        continue
    prop = FIX.get(hh) or next((p for t, p in BY_TEXT if t in s), None)
    assert prop, l
    fixed.append({'status': 'fixed', 'property': prop, 'commit': hh, 'what': s[5:],
                  'line': 'fixed: property=%s %s %s' % (prop, hh, s[5:])})
json.dump({'findings': KNOWN + fixed}, open(os.path.join(HERE, 'known_findings.json'), 'w'), indent=1)
print(len(KNOWN), 'known', len(fixed), 'fixed')
