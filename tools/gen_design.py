"""fills the generated lists of DESIGN.md"""
import glob, json, os, re, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
s = open(V + '/DESIGN.md').read()
fixes = json.load(open(V + '/known_findings.json'))['fixed']
by = {}
for f in fixes:
    m = re.match(r'fixed: property=(\S+) (\S+) (.*)', f)
    by.setdefault(m.group(1), []).append('%s (%s)' % (m.group(3), m.group(2)))
fx = '\n'.join('* **%s**: %s' % (p, '; '.join(by[p])) for p in sorted(by))
by = {}
log = V + '/tools/catch.txt'
res = dict(l.split(None, 1) for l in open(log)) if os.path.exists(log) else {}
for d in sorted(glob.glob(V + '/seeded/*')):
    m = json.load(open(d + '/meta.json'))
    by.setdefault(m['property'], []).append('%s (%s)' % (os.path.basename(d), res.get(os.path.basename(d), '?').strip()))
ct = '| check | planted bugs |\n|---|---|\n' + '\n'.join('| %s | %s |' % (p, ', '.join(by[p])) for p in sorted(by))


def put(s, tag, text):
    if '@@%s@@' % tag in s:
        return s.replace('@@%s@@' % tag, '<!-- %s -->\n%s\n<!-- end %s -->' % (tag, text, tag))
    return re.sub(r'(?s)<!-- %s -->.*<!-- end %s -->' % (tag, tag), lambda _: '<!-- %s -->\n%s\n<!-- end %s -->' % (tag, text, tag), s)


open(V + '/DESIGN.md', 'w').write(put(put(s, 'FIXES', fx), 'CATCH', ct))
