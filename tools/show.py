import json,sys
for p in sys.argv[1:]:
    d=json.load(open(f'/verif/evidence/{p}.json'))
    for h in d['coverage']['harnesses']:
        print(p,h['harness'],'wall %.1f solver %.1f'%(h['wall_s'],h['solver_s']),'obl',h['obligations'],'simp',h['discharged_by_simplifier'],'solv',h['discharged_by_solver'],'q',h['solver_queries'],'und',h['undecided'],'asserts',h['assertions_evaluated'],'vars',h['symbolic_variables'],h['portfolio'],h['error'][:300])
