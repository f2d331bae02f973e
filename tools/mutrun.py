#!/usr/bin/env python3
"""mutrun.py [-n SAMPLE] [-s SEED] [-j SLOTS] [-w WORKERS] [-d SECONDS] [-k KINDS] [-f FUNCREGEX] FILE... : mutation campaign in scratch copies.
Builds mutants of FILEs (relative to /repo) in /tmp/mu and runs the simulated properties of the file
against each, without shrinking. Prints survivors; full log in /tmp/mu/log.jsonl."""
import sys,os,json,random,subprocess,shutil,threading,time,argparse,re,queue
ap=argparse.ArgumentParser()
ap.add_argument('-n',type=int,default=40);ap.add_argument('-s',type=int,default=1);ap.add_argument('-j',type=int,default=2)
ap.add_argument('-w',type=int,default=3);ap.add_argument('-d',type=float,default=6);ap.add_argument('-k',default='');ap.add_argument('-f',default='')
ap.add_argument('-p',default='');ap.add_argument('-ids',default='');ap.add_argument('files',nargs='+')
A=ap.parse_args()
T='P01 P05 P03 P06 P02 P04'.split()
MAP={
'trie/trie.go':'P01 P06 P05 P03 P02 P04 P07 P08 P10 P09 P39 P42 P25 P16'.split(),
'trie/node.go':'P01 P06 P05 P03 P02 P04 P07 P08 P10 P39 P42'.split(),
'trie/historytree.go':'P11 P12 P14 P13 P15 P39'.split(),
'trie/iterator.go':'P06 P05 P39 P42 P08 P16'.split(),
'trie/proof.go':'P07 P43 P14 P11 P39 P16'.split(),
'trie/revertable.go':'P08 P10 P09 P15 P42'.split(),
'trie/combinedtrie.go':['P16'],
'trie/utils.go':'P39 P42 P16 P06 P01 P07'.split(),
'trie/synctrie.go':['P05'],
'trie/binarytree.go':'P16 P11'.split(),
'db/ldb.go':'P20 P21 P22 P23 P24'.split(),'db/memdb.go':'P20 P21 P22'.split(),'db/readonly.go':'P25 P20 P21 P22'.split(),
'db/cacheddb.go':'P24 P20 P21 P22'.split(),'db/adapters.go':'P20 P22 P21 P25'.split(),'db/types.go':'P22 P20 P21'.split(),
'routinepool.go':['P30'],'shared.go':['P33','P31'],'log/log.go':['P40'],'log/hooks.go':['P40'],'log/cashcheck.go':['P40'],
'rlp/encbuffer.go':['P37','P38'],'rlp/encode.go':['P37','P38'],'rlp/decode.go':['P38','P37'],'rlp/typecache.go':['P37','P38'],'rlp/raw.go':['P38','P37'],'rlp/iterator.go':['P38'],
'hash.go':'P45 P43 P16 P07 P11 P14 P39 P33'.split(),'basic.go':'P32 P33 P35 P41 P31 P44 P45'.split(),'utils.go':'P45 P41 P33 P31'.split(),'types.go':'P31 P33 P35 P32 P45'.split(),
 'hexutil/hexutil.go':['P51'], 'hexutil/json.go':['P51','P44'], 'math/big.go':['P52','P51'], 'math/integer.go':['P52','P51'],
 **{'abi/%s.go'%f:['P50'] for f in 'abi argument error error_handling event method pack reflect selector_parser thinkium topics type unpack utils'.split()},
 'chaininfo.go':['P44'],'shardinfo.go':['P44'],'gaspool.go':['P44'],'endpoint.go':['P44'],'version.go':['P45'],'hasher.go':['P45'],'forrlp.go':['P44','P32'],'bytes.go':['P45','P44','P07'],
}
ENV=dict(os.environ)
for l in subprocess.run(['bash','-c','. /opt/vp/env.sh; env'],capture_output=True,text=True).stdout.splitlines():
    k,_,v=l.partition('=');ENV[k]=v
MU=os.environ.get('MU','/tmp/mu')
V=os.environ.get('V','/verif')
os.makedirs(MU,exist_ok=True)
MG=MU+'/mutgen'
subprocess.check_call(['go','build','-o',MG,'.'],cwd=os.path.dirname(os.path.abspath(__file__))+'/mutgen',env=ENV)
subprocess.check_call(['go','build','-o',MU+'/simgen','.'],cwd=''+V+'/simgen',env=ENV)
Q=queue.Queue()
for f in A.files:
    ms=[json.loads(l) for l in subprocess.check_output([MG,'/repo/'+f],text=True).splitlines()]
    if A.ids: ms=[m for m in ms if str(m['id']) in A.ids.split(',')]
    if A.k: ms=[m for m in ms if m['kind'] in A.k.split(',')]
    if A.f: ms=[m for m in ms if re.search(A.f,m['func'])]
    r=random.Random('%d/%s'%(A.s,f)); r.shuffle(ms)
    for m in ms[:A.n]: Q.put((f,m))
lock=threading.Lock(); stat={'killed':0,'nobuild':0,'survived':0}
done={(m['file'],json.dumps(m['edits'])) for m in map(json.loads,open(MU+'/log.jsonl'))} if os.path.exists(MU+'/log.jsonl') and not A.ids else set()
log=open(MU+'/log.jsonl','a')
def slot(i):
    d=f'{MU}/s{i}'; g=f'{MU}/g{i}'; exe=f'{MU}/sim{i}'
    shutil.rmtree(d,ignore_errors=True); subprocess.check_call(['cp','-a','/repo',d])
    while True:
        try: f,m=Q.get_nowait()
        except queue.Empty: break
        if (f,json.dumps(m['edits'])) in done: continue
        src=open('/repo/'+f,'rb').read(); s=src
        for a,b,t in sorted(m['edits'],key=lambda e:-e[0]): s=s[:a]+t.encode()+s[b:]
        open(f'{d}/{f}','wb').write(s)
        t0=time.time(); by=''
        p=subprocess.run(f'{MU}/simgen -repo {d} -out {g} -sim {V}/sim -harness {V}/harness && go build -overlay {g}/overlay.json -modfile {g}/go.mod -o {exe} ./zzverif/main',shell=True,cwd=d,env=ENV,capture_output=True,text=True)
        if p.returncode: res='nobuild'
        else:
            res='survived'
            for pr in (A.p.split() if A.p else MAP[f]):
                ps=[]
                for k in range(A.w):
                    ps.append(subprocess.Popen([exe,'worker','-prop',pr,'-start',str(k),'-stride',str(A.w),'-count','1000000','-seed','1','-deadline',str(A.d),'-known','/verif/known-findings.txt'],stdin=subprocess.DEVNULL,stdout=subprocess.PIPE,stderr=subprocess.DEVNULL,text=True))
                hit=[]
                def rd(q):
                    last=''
                    for l in q.stdout:
                        last=l
                        if l.startswith('F '):
                            hit.append(re.findall(r'"Class":"([^"]*)"',l[:300])[0]); break
                    q.kill() if hit else None
                    if q.wait()!=0 and not hit: hit.append('exit %d after %s'%(q.returncode,last[:20].strip()))
                    if hit:
                        for z in ps: z.kill()
                ts=[threading.Thread(target=rd,args=(q,)) for q in ps]
                tm=threading.Timer(A.d+25,lambda:(hit.append('timeout'),[z.kill() for z in ps])); tm.start()
                [t.start() for t in ts];[t.join() for t in ts]; tm.cancel()
                if hit: res='killed'; by=pr+': '+hit[0]; break
        open(f'{d}/{f}','wb').write(src)
        with lock:
            stat[res]+=1
            m2=dict(m,file=f,res=res,by=by,secs=round(time.time()-t0,1)); log.write(json.dumps(m2)+'\n'); log.flush()
            if res=='survived': print('SURVIVED %s:%d #%d %s [%s] %s  ->  %s'%(f,m['line'],m['id'],m['kind'],m['func'],m['from'],' ; '.join(str(e[2])[:80] for e in m['edits'])),flush=True)
    shutil.rmtree(d,ignore_errors=True)
ts=[threading.Thread(target=slot,args=(i,)) for i in range(A.j)]
[t.start() for t in ts];[t.join() for t in ts]
print(stat)
