import json,sys
for i in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{i}.json'))
    c=e['coverage']
    print(i,'evals',c['evaluations'],'nontriv',c['distinct_nontrivial'],'wall',e['wall_s'])
    for k,v in c['tests'].items():
        print('   ',k,v['evaluations'],'not judged',v['not_judged'],'nontrivial',v['distinct_nontrivial'])
