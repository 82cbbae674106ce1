import sys,time; sys.path.insert(0,'/verif/lib'); import build,subprocess
src,ents,defs=sys.argv[1],sys.argv[2].split(','),dict(x.split('=') for x in sys.argv[4:] if '=' in x and not x.startswith('--'))
lib,bad=build.repo_library(); mod=build.harness_module('/verif/harness/'+src,defs,ents,lib)
for e in ents:
    t=time.time(); r=subprocess.run([build.engine(),mod,"--entry","h_"+e,"--out","/tmp/o.json","--time",sys.argv[3],"--jobs","8","--repo",build.REPO+"/","--samples","1"],stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True); 
    import json
    try: parts=json.load(open('/tmp/o.json'))
    except Exception as x: print(e,'FAIL',r.stdout[-2000:]); continue
    tot={}
    for p in parts:
        for k in ('completed','steps','forks','z3calls','assertQueries'): tot[k]=tot.get(k,0)+p.get(k,0)
        for k in ('incomplete','ends','reach'):
            for a,b in p.get(k,{}).items(): tot[k+':'+a]=tot.get(k+':'+a,0)+b
    print(e,round(time.time()-t,1),tot)
    seen=set()
    for p in parts:
        for v in p['violations']:
            key=(v['kind'],v['msg'],v['loc'][:80])
            if key in seen: continue
            seen.add(key); print('  V',v['kind'],v['msg'],v['loc'][:300],[ (i['name'],i['v']) for i in v['inputs']][:30])
    if r.stdout.strip(): print(r.stdout[-600:])
