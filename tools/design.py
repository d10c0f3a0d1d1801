"""Generate DESIGN.md from DESIGN.in.md, props.py, known_findings.json, seeded/"""
import glob, json, os, sys
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(R, 'tools'))
sys.path.insert(0, R)
import props
from props import P, NA
t = open(R + '/tools/DESIGN.in.md').read()
s = ''
for d, l, n in P:
    s += '### %s %s\n%s\n\nAnchors: %s.  ' % (d['id'], d['title'], d['statement'], ', '.join(m['where'] for m in d['anchors']['mechanism']))
    s += '%s. %s\n\n' % ('Decided by proof' if l == 'proof' else 'Bounded native checks only', props.DESIGN.get(d['id'], n) or n)
for x in NA:
    s += '### not applicable: %s\n%s\n\n' % (x['property'], x['reason'])
kf = json.load(open(R + '/known_findings.json'))
t = t.replace('@@PROPS@@', s.strip())
t = t.replace('@@FIXED@@', '\n'.join('* ' + k['record'] for k in kf if k['status'] == 'fixed'))
t = t.replace('@@KNOWN@@', '\n'.join('* %s: %s' % (k['property'], k['what']) for k in kf if k['status'] == 'known') or 'none')
c = json.load(open(R + '/tools/caught.json')) if os.path.exists(R + '/tools/caught.json') else {}
rows = '| change | property | what it breaks | needs | detected |\n|---|---|---|---|---|\n'
for m in sorted(glob.glob(R + '/seeded/*/meta.json')):
    i = m.split('/')[-2]
    j = json.load(open(m))
    rows += '| %s | %s | %s | %s | %s |\n' % (i, j['property'], j['what_it_breaks'], j['needs'], c.get(i, 'not run'))
t = t.replace('@@SEEDS@@', rows)
open(R + '/DESIGN.md', 'w').write(t)
