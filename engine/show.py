import json,sys
d=json.load(open(sys.argv[1]))
full=len(sys.argv)>2
for h in d['harnesses']:
    ob=h['obligations']
    print(h['harness'],'BAIL:'+str(h['bail']) if h['bail'] else 'ok',h.get('where',''),'reach',h.get('reach'),'obl',len(ob),'proved',sum(o['status']=='unsat' for o in ob),h['stats'].get('wall_s'),'q',h['stats'].get('queries'),'paths',h['stats'].get('paths'))
    for l in h['stats'].get('loops_cut',[]): print('    loop',l)
    for c in h['covers']: print('    cover',c)
    for o in ob:
        if full or o['status']!='unsat' or o['time']>2: print('   ',o['kind'],o['name'],o['status'],o['backend'],o['time'],o.get('goal','') ,o.get('inputs',''), o.get('exact',''))
    if full:
        print(h['stats'].get('functions'),h['stats'].get('models'),h['stats'].get('contracts_used'))
print(d['build_s'],d['wall_s'],d['unmatched_contracts'])
