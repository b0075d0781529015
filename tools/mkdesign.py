"""Fills the generated parts of DESIGN.md (sections 2.1, 3 and 5) from the contracts, known_findings.json and seeded/."""
import glob, json, os, re, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.chdir(HERE)
src = open('tools/design_sections.md').read()
fix = '\n'.join('* ' + x.replace('fixed: property=', '') for x in json.load(open('known_findings.json'))['fixed'])
rows = []
for f in sorted(glob.glob('seeded/*/meta.json')):
    d = json.load(open(f))
    how = json.load(open('tools/caught.json')).get(f.split('/')[1], '')
    rows.append(f"| {f.split('/')[1]} | {d['property']} | {d['needs']} | {how} |")
bugs = '| bug | property | needs | caught by |\n|---|---|---|---|\n' + '\n'.join(rows)
out = subprocess.run(['python3-vt', '-c', 'from pyvc import spec; spec.load_all()\n'
                      'for p in sorted(spec.REGISTRY):\n for c in spec.REGISTRY[p]: print(f"* **{p}** `{c.name}` ({\', \'.join(c.targets[:3])}{\' …\' if len(c.targets) > 3 else \'\'}): {c.title}")'],
                     capture_output=True, text=True)
assert out.returncode == 0, out.stderr
cont = '### 2.1 Contracts\n\n' + out.stdout
new = src.replace('@@FIX@@', fix).replace('@@BUGS@@', bugs).replace('@@21@@', cont)
s = open('DESIGN.md').read()
s = s.split('\n## 2. Per property')[0].rstrip() + '\n\n'
open('DESIGN.md', 'w').write(s + new)
