import json,sys
for p in sys.argv[1:]:
    e=json.load(open('/verif/evidence/%s.json'%p)); c=e['coverage']
    print(p,{k:c[k] for k in ('evaluations','distinct_nontrivial','distinct_schedules','faults_fired','faults_planned','reached','counters','determinism_mismatches','runs_per_hour')}, e['wall_s'])
