"""where a check spends its time: python3 tools/cost.py C13"""
import json, sys
e = json.load(open('/verif/evidence/%s.json' % sys.argv[1]))
for h in sorted(e['coverage']['harnesses'], key=lambda h: -h['seconds'])[:40]:
    print('%8.1fs %6d paths (%d finished) %d/%d claims %d wit  %s %s' % (h['seconds'], h['paths'], h['paths_finished'], h['discharged'], h['claims'], h['reachability_witnesses'], h['harness'], h['param']))
print(e['wall_s'], 's;', [n[:200] for n in e['coverage']['no_answer'][:5]])
