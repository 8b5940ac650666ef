"""DESIGN.md from tools/design.md: fills in the tables that follow from other files."""
import glob, json, os, re
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
s = open(V + '/tools/design.md').read()
rows = ['| planted bug | property | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(f)), m['property'], m['needs'], m['property']))
n = sum(len([r for r in open(f).read().split('\n====\n') if r.strip()]) for f in glob.glob(V + '/tools/mutants/*.txt'))
k = len(re.findall('^fixed:', open(V + '/known_findings.txt').read(), re.M))
s = s.replace('{SEEDS}', '\n'.join(rows)).replace('{NMUT}', str(n)).replace('{NFIX}', str(k))
open(V + '/DESIGN.md', 'w').write(s)
