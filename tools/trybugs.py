#!/usr/bin/env python3
# usage: trybugs.py BUGS.py [name...]; each bug: (name, props, [(file, old, new)...])
import sys,os,subprocess,shutil,queue,threading,re
exec(open(sys.argv[1]).read())
want=sys.argv[2:]
env=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=readonly',GOCACHE='/tmp/tb/cache',PATH='/opt/veriftools/go1.27.3/bin:'+os.environ['PATH'])
W=int(os.environ.get('W','3'))
env['GOMAXPROCS']='3'
q=queue.Queue()
for b in bugs:
    if not want or b[0] in want: q.put(b)
L=threading.Lock()
def work(k):
    w='/tmp/tb/'+os.environ.get('TB','w')+'%d'%k
    shutil.rmtree(w,ignore_errors=True); os.makedirs(w); os.makedirs('/tmp/bugs',exist_ok=True)
    subprocess.run(['cp','-a','/repo',w+'/repo'],check=True)
    subprocess.run(['git','-C',w+'/repo','checkout','-q','--','.'])
    os.makedirs(w+'/repo/zz_verif'); os.makedirs(w+'/v/evidence'); os.makedirs(w+'/tmp')
    for f in os.listdir(os.environ.get('VH','/verif/harness')):
        if f.endswith('.go'): shutil.copy(os.environ.get('VH','/verif/harness')+'/'+f,w+'/repo/zz_verif/')
    shutil.copy('/verif/known-findings.txt',w+'/v/')
    e=dict(env,TMPDIR=w+'/tmp',VERIF_REPO=w+'/repo')
    while True:
        try: name,props,edits=q.get_nowait()
        except queue.Empty: return
        out=[]
        bad=False
        for f,o,n in edits:
            p=w+'/repo/'+f; s=open(p).read()
            if s.count(o)<1: out.append('NOMATCH %s %r'%(f,o[:40])); bad=True; continue
            s=s.replace(o,n,1); open(p,'w').write(s)
        r=subprocess.run(['go','build','-o',w+'/mon','./zz_verif'],cwd=w+'/repo',env=e,capture_output=True,text=True)
        if r.returncode or bad: out.append('NOBUILD '+r.stderr[-600:])
        else:
            r=subprocess.run(['go','build','-race','-o',w+'/monr','./zz_verif'],cwd=w+'/repo',env=e,capture_output=True,text=True) if {'C14','C23'}&set(props.split()) else None
            for p in props.split():
                r=subprocess.run([w+('/monr' if p in('C14','C23') else '/mon'),'-prop',p,'-tier','quick','-seed','1','-dir',w+'/v'],cwd=w+'/repo',env=e,capture_output=True,text=True)
                ks=re.findall(r'(?m)^case .*?\[([\w -]+)\]$',r.stdout+r.stderr)
                out.append('%s:%s %s'%(p,{0:'--',1:'CAUGHT'}.get(r.returncode,'rc%d'%r.returncode),','.join(sorted(set(ks)))[:70] if r.returncode else ''))
                if r.returncode not in(0,1): out.append((r.stdout+r.stderr)[-500:])
                if r.returncode==1 and not ks: out.append((r.stdout)[:300])
            t=subprocess.run(['go','test','-count=1','./...'],cwd=w+'/repo',env=dict(e,GOFLAGS='-mod=readonly -vet=off'),capture_output=True,text=True)
            fails=re.findall(r'--- FAIL: (\S+)',t.stdout)
            out.append('tests: '+(' '.join(fails) if fails else 'pass'))
        d=subprocess.run(['git','diff'],cwd=w+'/repo',capture_output=True,text=True).stdout
        open('/tmp/bugs/%s.diff'%name,'w').write(d)
        subprocess.run(['git','-C',w+'/repo','checkout','-q','--','.'])
        with L: print(name,'|',' | '.join(out),flush=True)
ts=[threading.Thread(target=work,args=(k,)) for k in range(W)]
[t.start() for t in ts];[t.join() for t in ts]
