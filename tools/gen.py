"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = 'symbolic execution of the real Python code, claims decided by an SMT solver (z3/cvc5), counterexamples replayed'
P = []
NA = []


def prop(id, title, statement, quant, why, files, mech, note, over=('inputs',)):
    P.append(dict(id=id, title=title, statement=' '.join(statement.split()),
                  quantifier={'over': list(over), 'text': ' '.join(quant.split())},
                  why_tests_cant=' '.join(why.split()),
                  anchors={'files': ['pytracer/' + f for f in files.split()],
                           'mechanism': [{'name': a.split('@')[0].strip(), 'where': 'pytracer/' + a.split('@')[1].strip()} for a in mech]},
                  note=' '.join(note.split())))


def na(id, reason):
    NA.append({'property': id, 'reason': ' '.join(reason.split())})


exec(open(os.path.join(HERE, 'tools', 'table.py')).read())

with open(os.path.join(HERE, 'properties.jsonl'), 'w') as f:
    for p in P:
        q = dict(p)
        del q['note']
        assert len(q['title']) <= 80, q['title']
        f.write(json.dumps(q) + '\n')
naids = [n['property'] for n in NA]
m = {'version': 1, 'setup_cmd': 'python3-vt -c "import z3, numpy" && test -x /opt/venv/bin/python',
     'checks': [{'property': p['id'], 'quick_cmd': 'python3-vt run.py %s --tier quick' % p['id'],
                 'thorough_cmd': 'python3-vt run.py %s --tier thorough' % p['id'],
                 'technique': TECH, 'level': 'model_checking', 'level_note': p['note']} for p in P if p['id'] not in naids],
     'not_applicable': NA}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
import jsonschema
s = json.load(open('/root/.vp/MANIFEST.schema.json'))
jsonschema.validate(m, s)
s = json.load(open('/root/.vp/PROPERTIES.schema.json'))
for l in open(os.path.join(HERE, 'properties.jsonl')):
    jsonschema.validate(json.loads(l), s)
print(len(P), 'properties', len(NA), 'not applicable')
