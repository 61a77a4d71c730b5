"""fills the generated parts of DESIGN.md: seeded bugs and not-applicable properties"""
import json, os, re
R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p = R + '/DESIGN.md'
s = open(p).read()
rows = ''
for d in sorted(os.listdir(R + '/seeded')):
    m = json.load(open('%s/seeded/%s/meta.json' % (R, d)))
    rows += '| %s | %s | %s |\n' % (d, m['property'], m['what_it_breaks'])
H = '| seeded bug | property | what it breaks |\n|---|---|---|\n'
i = s.index(H) + len(H)
j = s.index('\n', s.rindex('|\n', i - 1, s.index('\nFalse alarms', i)) if '| c0' in s[i:] else i)
t = s[i:s.index('\nFalse alarms', i)]
s = s.replace(H + t, H + rows)
m = json.load(open(R + '/MANIFEST.json'))
na = ''.join('* %s: %s\n' % (x['property'], x['reason']) for x in m.get('not_applicable', [])) or 'Every property listed is claimed.\n'
a, b = '## 5. Not decided (not applicable)\n\n', '\n## 6.'
i = s.index(a) + len(a)
s = s[:i] + na + '''
Aspects left out of the statements rather than listed as properties: byte-exact layout of the XML (whitespace, attribute order: up to the
XML library and a hash map), recursion depth and memory use on huge documents, and speed.  They quantify over run-time quantities no static argument in reach bounds.
''' + s[s.index(b):]
open(p, 'w').write(s)
