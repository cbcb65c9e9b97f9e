#!/usr/bin/env python3
"""mkseed.py ID PROP PKG FILE OLD NEW DEMO_GO NEEDS BREAKS -- helper used to write seeded bugs"""
import subprocess,os,json,sys
PRELUDE='''import json, os, subprocess, sys
W = os.environ['W']
n = 0
def run(src, files=None):
    global n
    n += 1
    d = os.path.join(W, 'p%d' % n)
    os.makedirs(d)
    for f, t in dict(files or {}, **{'x.fbd': src}).items():
        os.makedirs(os.path.dirname(os.path.join(d, f)), exist_ok=True)
        open(os.path.join(d, f), 'w').write(t)
    r = subprocess.run([os.path.join(W, 'fbdl'), '-main', 'Main', '-c', 'c.json', 'x.fbd'], cwd=d, capture_output=True, text=True, timeout=60)
    bus = json.loads(r.stdout) if r.returncode == 0 and r.stdout.strip() else None
    c = os.path.join(d, 'c.json')
    consts = json.load(open(c)) if r.returncode == 0 and os.path.exists(c) else None
    return r.returncode, bus, consts, r.stderr + r.stdout
def expect(what, got, want):
    if got != want:
        print('%s: got %r, want %r' % (what, got, want))
        sys.exit(1)
'''
def seed(id,prop,pkg,edits,demo,needs,breaks,kind='gotest'):
    d='/verif/seeded/'+id
    os.makedirs(d,exist_ok=True)
    for f,old,new in edits:
        p='/repo/'+f
        s=open(p).read()
        assert s.count(old)==1,(id,f,s.count(old))
        open(p,'w').write(s.replace(old,new))
    diff=subprocess.run(['git','-C','/repo','diff'],capture_output=True,text=True).stdout
    subprocess.run(['git','-C','/repo','checkout','-q','--','.'])
    open(d+'/patch.diff','w').write(diff)
    if kind=='gotest':
        open(d+'/demo_go.txt','w').write(demo)
        open(d+'/demo.sh','w').write('''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
echo "{\\"Replace\\":{\\"$PWD/%s/zz_demo_test.go\\":\\"$here/demo_go.txt\\"}}" > "$ov"
go test -overlay "$ov" -vet=off -count=1 -run TestDemo ./%s
rc=$?
rm -f "$ov"
exit $rc
'''%(pkg,pkg))
    elif kind=='cli':
        open(d+'/demo.py','w').write(PRELUDE+demo)
        open(d+'/demo.sh','w').write('''#!/bin/bash
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d)
go build -o "$w/fbdl" ./cmd/fbdl || exit 9
W=$w python3 "$here/demo.py"
rc=$?
rm -rf "$w"
exit $rc
''')
    else:
        open(d+'/demo.sh','w').write(demo)
    json.dump({'property':prop,'needs':needs,'what_it_breaks':breaks},open(d+'/meta.json','w'),indent=1)
