#!/usr/bin/env python3
"""Fills the "fixed" list of known_findings.json from /repo's fix: commits."""
import json, subprocess, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = {}
def m(prop, hs):
    for h in hs.split(): P[h] = prop
m('C01', '090b0f6 d84db5e f4eb8de c90df31 525d2a5 e4c5e57 248f1e5 dcfc954 8a63740 f509925 f1937e7 956387f 48226c7 ccfcca2 3377759 d9a4c74 6e63f72 2327b97 f019baf 373e189 7424d42 278c882 c8b09d3')
m('C07', 'deb515c 7f7f178 13f274a')
m('C03', 'f2aa034 b41b4de 65d98ea')
m('C10', 'b7f7d17')
m('C02', '2212a3e caeaba2 d9054bd 6fbfd6c 8cc9c08 3ce8e95 1ebff3c b772688 9520253 5c1cb23 74280cc 748eb76 037d344 5f0d1b6')
m('C09', '1344465 a3a6dc5 dce00a8 3016e10 16bb0bd')
m('C05', '0366b75 9f79850')
m('C13', '61fe9e4')
m('C04', 'be0f332 a23c962 21056ee')
m('C08', 'd5fac8d')
m('C12', 'fedb9e3')
m('C17', '6f76d0b 7020892 5c8cdb4 41033b7')
m('C16', '7e84271 a3b261c')
m('C15', '9fedfa4 a5b1cbe efbfd66 896bef6')
m('C19', 'df82c20')
m('C14', 'e47fe04')
m('C18', 'f52f191 b07847e')
m('C20', '956609e')
m('C16', '06ba80e')
m('C01', '8b5c2d6')
out = []
log = subprocess.run(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s'], capture_output=True, text=True).stdout
for l in log.splitlines():
    h, s = l.split(' ', 1)
    if s.startswith('fix: '):
        out.append(f'fixed: property={P[h]} {h} {s[5:]}')
f = os.path.join(here, 'known_findings.json')
d = json.load(open(f))
d['fixed'] = out
json.dump(d, open(f, 'w'), indent=1)
print(len(out))
