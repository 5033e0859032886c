import subprocess,os,json,sys,shutil
R='/repo'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def plant(id,prop,edits,needs,breaks,demo,lib='-lcrypto',files=(),extra='',pre=''):
    if len(sys.argv)>1 and id not in sys.argv[1:]: return
    d='/verif/seeded/'+id; os.makedirs(d,exist_ok=True)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'dirty'
    for f,a,b in edits:
        s=open(R+'/'+f).read(); assert s.count(a)>=1,(id,f,a); 
        assert s.count(a)==1,(id,f,a,'multiple'); open(R+'/'+f,'w').write(s.replace(a,b))
    open(d+'/patch.diff','w').write(sh('git -C /repo diff').stdout)
    sh('git -C /repo checkout -- .')
    shutil.copy('/tmp/pl/d.h',d+'/d.h'); open(d+'/demo.cpp','w').write('#include "d.h"\n'+demo)
    for f in files: shutil.copy(f,d)
    json.dump(dict(property=prop,needs=needs,what_it_breaks=breaks),open(d+'/meta.json','w'),indent=1)
    open(d+'/demo.sh','w').write(f'''#!/bin/bash
# cwd: /repo, built. Exit 0 when the behaviour is right.
here=$(cd "$(dirname "$0")" && pwd)
work=$(mktemp -d /tmp/demo-{id}-XXXXXX)
{pre}g++ -O1 -w -rdynamic -I engine -I dstulib -I keylib "$here/demo.cpp" {extra} -o "$work/demo" {lib} -ldl -lpthread || exit 3
timeout 200 "$work/demo" "$here"
rc=$?
rm -f "$work/demo" "$work"/*.o; rmdir "$work"
exit $rc
''')
    os.chmod(d+'/demo.sh',0o755)
    # verify
    def run():
        b=sh('bash /opt/vp/build.sh')
        if b.returncode: return 'BUILD FAIL '+b.stdout[-400:]+b.stderr[-400:],None
        sh('bash /opt/vp/test.sh /tmp/o.json'); o=json.load(open('/tmp/o.json'))
        r=sh(f'bash {d}/demo.sh',cwd=R); return o,(r.returncode,(r.stdout+r.stderr)[-300:])
    o0,r0=run()
    a=sh(f'git -C /repo apply {d}/patch.diff'); assert a.returncode==0,a.stderr
    o1,r1=run(); sh('git -C /repo checkout -- .')
    ok = r0 and r1 and r0[0]==0 and r1[0] not in(0,3) and o0==o1
    print('OK ' if ok else 'BAD',id,prop,r0,r1,'' if o0==o1 else (o0,o1))
exec(open('/tmp/pl/defs.py').read())
sh('bash /opt/vp/build.sh')
