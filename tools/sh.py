"""Developer helper: run a harness on 8 shards and print what it found."""
import sys,os,json,subprocess,time,collections
sys.path.insert(0,'/verif'); import build as B
h=sys.argv[1]; args=sys.argv[2:]; var="plain"
if args and args[0] in B.VARIANTS: var=args.pop(0)

try: exe=B.build(h,var,extra_src=os.environ.get("SRC","").split(),extra_libs=os.environ.get("LIBS","").split())
except B.BuildError as e: print(e); sys.exit(2)
t=time.time(); ps=[]
os.makedirs('/tmp/shx',exist_ok=True)
for i in range(8):
    o='/tmp/shx/%d.json'%i
    if os.path.exists(o): os.unlink(o)
    os.makedirs('/tmp/shx/s%d'%i,exist_ok=True)
    ps.append(subprocess.Popen([exe]+args+['--out',o,'--shard','%d/8'%i,'--scratch','/tmp/shx/s%d'%i,'--crash','/tmp/shx/c%d'%i],env=B.ENV,cwd='/tmp/shx/s%d'%i,stderr=open('/tmp/shx/e%d'%i,'w'),stdout=subprocess.DEVNULL))
tot=collections.Counter(); vs={}
for i,p in enumerate(ps):
    rc=p.wait(); o='/tmp/shx/%d.json'%i
    if rc or not os.path.exists(o): print('shard',i,'rc',rc,open('/tmp/shx/c%d'%i,'rb').read().split(b'\0')[0].decode()); print(open('/tmp/shx/e%d'%i).read()[-800:]); continue
    d=json.load(open(o))
    for k in('cases','states','transitions','distinct','traces'): tot[k]+=d[k]
    for k,v in d['extra'].items(): tot[k]+=v
    for v in d['violations']: vs.setdefault(v['key'],v['what'])
    if i==0: print('samples',d['samples'][:3])
print(dict(tot),'%.1fs'%(time.time()-t),len(vs),'keys')
for k,w in list(vs.items())[:int(os.environ.get('NV','25'))]: print(' *',k,'::',w[:220])
