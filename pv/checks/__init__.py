from . import bind_c, bind_jl, bind_py, thermo, bind_obj, api, thermo2, effects, mathx, constit, sampling, closed

CHECKS = {}
for m in (bind_c, bind_jl, bind_py, thermo, bind_obj, api, thermo2, effects, mathx, constit, sampling, closed):
    CHECKS.update(m.CHECKS)
