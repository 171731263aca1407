# Writes /verif/MANIFEST.json for the properties that have a simulation in sim/src/props
import json, os
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
have={f[:-3].upper() for f in os.listdir('/verif/sim/src/props') if f.startswith('c') and f.endswith('.rs')}
note={
 'default': 'Seeded random search over executions of the real library code inside one process, with faults injected at every seam; a pass means no violation in the runs explored (counts in the evidence file), not a proof. Trusts the reference models in /verif/sim/src and the seam replacements listed in DESIGN.md.'
}
checks=[]
for p in props:
    if p['id'] not in have: continue
    checks.append({
      'property': p['id'],
      'quick_cmd': f"./check.sh {p['id']} quick",
      'thorough_cmd': f"./check.sh {p['id']} thorough",
      'evidence_file': f"evidence/{p['id']}.json",
      'technique': 'deterministic simulation with fault injection (seeded search over schedules, messages and faults; replayable minimised choice tapes)',
      'level': 'exploration',
      'level_note': note.get(p['id'], note['default']),
    })
m={'version':1,'setup_cmd':'./check.sh build','checks':checks,
   'not_applicable':[{'property':p['id'],'reason':'check not built yet'} for p in props if p['id'] not in have],
   'notes':'No hooks in /repo: all seams the simulation needs exist already (see DESIGN.md); the only commits in /repo are fix: commits.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
