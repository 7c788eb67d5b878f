#!/usr/bin/env python3
"""Write MANIFEST.json from the list of claimed checks (claims.json) and properties.jsonl."""
import json,subprocess
V='/verif/'
props=[json.loads(l) for l in open(V+'properties.jsonl') if l.strip()]
claims=json.load(open(V+'tools/claims.json'))
log=subprocess.run(['git','-C','/repo','log','--format=%h %s'],capture_output=True,text=True).stdout.splitlines()
hooks=[l.split()[0] for l in log if 'guarded hook' in l]
m={"version":1,"setup_cmd":"bash setup.sh",
 "hooks":{"guard":"cfg(orv_hooks)","enable":"RUSTFLAGS=\"--cfg orv_hooks\"","source_commits":hooks},
 "checks":[{"property":p['id'],"quick_cmd":f"bash check.sh {p['id']} quick","thorough_cmd":f"bash check.sh {p['id']} thorough","evidence_file":f"evidence/{p['id']}.json","technique":claims[p['id']]['technique'],"level":"exploration" if 'level' not in claims[p['id']] else claims[p['id']]['level'],"level_note":claims[p['id']]['note']} for p in props if p['id'] in claims],
 "not_applicable":[{"property":p['id'],"reason":"No check is registered for it yet."} for p in props if p['id'] not in claims]}
json.dump(m,open(V+'MANIFEST.json','w'),indent=1)
open(V+'MANIFEST.json','a').write('\n')
