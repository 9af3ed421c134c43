import json, os, sys
HERE=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0,HERE)
from meta.checks_meta import CHECKS, NOT_APPLICABLE, NOTES
m=dict(version=1, setup_cmd="bash setup.sh",
  hooks=dict(guard="none", enable="no hooks were added to /repo; checks use public API, sockets, files and signals only", source_commits=[]),
  checks=[dict(property=p, quick_cmd=f"python3 check.py {p}", thorough_cmd=f"VERIF_TIER=thorough python3 check.py {p} thorough",
     evidence_file=f"evidence/{p}.json", technique=t, level="model_checking", level_note=n) for p,t,n in CHECKS],
  not_applicable=[dict(property=p,reason=r) for p,r in NOT_APPLICABLE], notes=NOTES)
json.dump(m,open(os.path.join(HERE,"MANIFEST.json"),"w"),indent=1)
print(len(CHECKS),"checks")
