"""regenerate pv/roles.json (positions -> roles) from the current tree; run by hand only"""
import json, sys
sys.path.insert(0, '/verif')
from pv import core, model
import os
if os.path.exists(model.ROLES):
    os.unlink(model.ROLES)
c = core.Ctx('quick')
M = model.Model(c)
R = {b['path']: [p.get('n', '_') for p in b['ps']] for m in sorted(M.mods) for n, b in sorted(M.mods[m].items())}
for b in c.prog.allbodies:
    if b['path'].startswith('crate::') and '::py::' not in b['path'] and '::test::' not in b['path'] and '::{' not in b['path'] and not b.get('no_mangle') and b['path'] not in R:
        R[b['path']] = [p.get('n', '_') for p in b['ps']]
json.dump(R, open(model.ROLES, 'w'), indent=0, sort_keys=True)
