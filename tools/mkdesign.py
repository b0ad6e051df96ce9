"""Write DESIGN.md: tools/design_head.md, a section per property from properties.jsonl, the check modules and (for the cost) the evidence of the last quick run,
and the table of planted changes from seeded/*/meta.json and tools/detected.json."""
import glob, importlib, json, os, sys, textwrap
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
DEF = 'online reference-model monitor over generated workloads'
COST = json.load(open(V + '/tools/cost.json')) if os.path.exists(V + '/tools/cost.json') else {}
for f in glob.glob(V + '/evidence/*.json'):
    e = json.load(open(f))
    if e['tier'] == 'quick' and e['seed'] == 1:
        COST[e['property']] = round(e['wall_s'])
json.dump(COST, open(V + '/tools/cost.json', 'w'), sort_keys=True)
out = [open(V + '/tools/design_head.md').read().rstrip(), '', '## 5. Properties', '']


def para(s):
    return textwrap.fill(' '.join(s.split()), 150)


for line in open(V + '/properties.jsonl'):
    p = json.loads(line)
    pid = p['id']
    m = importlib.import_module('vmon.props.' + pid.lower())
    out += ['### %s %s' % (pid, p['title']), '']
    out += [para('**Decided by** ' + getattr(m, 'TECHNIQUE', DEF) + '.'), '']
    if (m.__doc__ or '').strip().count('\n') > 0:
        out += [para(m.__doc__), '']
    out += [para('**Workload and oracle.** ' + m.RULE), '']
    ph = getattr(m, 'PHASES', None)
    b = 'quick: %s random episodes%s and %d directed ones%s; thorough: random episodes for %s s, larger directed ones.' % (
        m.QUICK if not ph else '+'.join(str(x[2]) for x in ph), ' (native library built with %s)' % ', '.join(x[0] for x in ph) if ph else '',
        len(getattr(m, 'DIRECTED', [])), '' if pid not in COST else ' (about %d s on 8 cores)' % COST[pid], getattr(m, 'THOROUGH_S', 540))
    out += [para('**Bounds and cost.** ' + b + ' The run is inconclusive (exit 2) unless at least: ' + ', '.join('%s %s' % (k, v) for k, v in m.REQUIRED.items()) + '.'), '']
    out += [para('**Beyond the tests.** ' + p['why_tests_cant'] + ' The quantifier is over ' + p['quantifier']['text'] + '.'), '']
    for a in getattr(m, 'ASSUMPTIONS', []):
        out += [para('**Assumes** ' + a + '.'), '']
det = json.load(open(V + '/tools/detected.json')) if os.path.exists(V + '/tools/detected.json') else {}
out += ['## 6. Planted changes and what catches them', '', 'Each is in `seeded/<id>/`; the checks were run with the quick command against a copy of the tree with the change (`tools/plant.py test`).', '',
        '| change | breaks | needs | caught by |', '|---|---|---|---|']
for f in sorted(glob.glob(V + '/seeded/*/meta.json')):
    m = json.load(open(f))
    i = os.path.basename(os.path.dirname(f))
    by = '; '.join('%s (%s)' % (k, ', '.join(v[:2])) if v != 'missed' else '%s: **missed**' % k for k, v in sorted(det.get(i, {}).items())) or 'not run yet'
    out.append('| %s | %s: %s | %s | %s |' % tuple(' '.join(str(x).split()).replace('|', '/') for x in (i, m['property'], m['what_it_breaks'], m['needs'], by)))
if os.path.exists(V + '/tools/design_tail.md'):
    out += ['', open(V + '/tools/design_tail.md').read().rstrip()]
open(V + '/DESIGN.md', 'w').write('\n'.join(out) + '\n')
print(len(out))
