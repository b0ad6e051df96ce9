"""Write MANIFEST.json from properties.jsonl and the check modules that exist."""
import importlib, json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
DEF = 'online reference-model monitor over generated workloads'
checks, na = [], []
for line in open(V + '/properties.jsonl'):
    pid = json.loads(line)['id']
    if not os.path.exists('%s/vmon/props/%s.py' % (V, pid.lower())):
        na.append({'property': pid, 'reason': 'its monitor is not built yet'})
        continue
    m = importlib.import_module('vmon.props.' + pid.lower())
    checks.append({
        'property': pid, 'quick_cmd': './check %s quick' % pid, 'thorough_cmd': './check %s thorough' % pid,
        'technique': getattr(m, 'TECHNIQUE', DEF), 'level': getattr(m, 'LEVEL', 'exploration'),
        'level_note': getattr(m, 'NOTE', 'Held on the executions observed (counts and coverage in the evidence file); trusts the independent model in vmon/ref '
                              'and python-bitcointx.')})
json.dump({'version': 1, 'setup_cmd': '/opt/venv/bin/python -B vmon/main.py build', 'checks': checks, 'not_applicable': na,
           'notes': 'One runner (vmon/main.py), one module per property (vmon/props). See DESIGN.md.'}, open(V + '/MANIFEST.json', 'w'), indent=1)
print(len(checks), 'checks', len(na), 'open')
