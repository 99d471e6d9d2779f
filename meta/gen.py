import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from props import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(V + '/properties.jsonl', 'w') as f:
    for d, *_ in PROPS:
        f.write(json.dumps(d) + '\n')
checks, na = [], []
for d, tech, note, why, design in PROPS:
    if why:
        na.append(dict(property=d['id'], reason=why))
    else:
        checks.append(dict(property=d['id'], quick_cmd='python3 run.py ' + d['id'], thorough_cmd='python3 run.py ' + d['id'],
                           evidence_file='evidence/%s.json' % d['id'], technique='static analysis: ' + tech, level='other', level_note=note))
m = dict(version=1, setup_cmd='bash tool/build.sh && python3 -c "from rl import ir; ir.export()"',
         checks=checks, not_applicable=na,
         notes='Every check re-exports the typed AST of /repo\'s current tree (cached by content hash under build/) and decides from it; nothing of /repo is run. known_findings.txt lists findings and fixes.')
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')

t = open(V + '/meta/DESIGN.tmpl').read()
parts, nas = [], []
for d, tech, note, why, design in PROPS:
    if why:
        nas.append('- **%s %s** - %s' % (d['id'], d['title'], why))
        continue
    parts.append('### %s %s\n\nMethod: %s.\n\n%s\n%s' % (d['id'], d['title'], tech, note, ('\n' + design.strip() + '\n') if design else ''))
seeds = []
import glob
for m in sorted(glob.glob(V + '/seeded/*/meta.json')):
    j = json.load(open(m))
    seeds.append('| %s | %s | %s |' % (m.split('/')[-2], j.get('caught', j['property']), j['what_it_breaks']))
t = t.replace('@@PROPS@@', '\n'.join(parts)).replace('@@NA@@', '\n'.join(nas) or 'none').replace('@@SEEDS@@', '| planted bug | caught by | breaks |\n|---|---|---|\n' + '\n'.join(seeds))
open(V + '/DESIGN.md', 'w').write(t)
