#!/usr/bin/env python3
"""mkseed.py spec.py : spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file,old,new)], DEMO (C text), SRCS, FLAGS"""
import sys, os, subprocess, shutil, json
ns={}; exec(open(sys.argv[1]).read(), ns)
ID=ns['ID']; d='/verif/seeded/'+ID
os.makedirs(d,exist_ok=True)
W='/tmp/seedw/'+ID
subprocess.run(['rm','-rf',W]); subprocess.check_call(['cp','-a','/repo',W])
for f,o,n in ns['EDITS']:
    p=W+'/'+f; s=open(p).read(); assert s.count(o)==1,(f,o,s.count(o)); open(p,'w').write(s.replace(o,n))
mine=[]
for f,o,n in ns['EDITS']:
    src=open('/repo/'+f).read(); l0=src[:src.index(o)].count('\n'); bl=subprocess.check_output(['git','-C','/repo','blame','-s',f],text=True).split('\n')
    import difflib
    a=o.split('\n'); b=n.split('\n')
    for tag,i1,i2,j1,j2 in difflib.SequenceMatcher(None,a,b).get_opcodes():
        if tag in('replace','delete'): mine+=[bl[l0+i] for i in range(i1,i2) if not bl[l0+i].startswith('^')]
if mine: print(ID,'CHANGES MY LINES',mine)
diff=subprocess.check_output(['git','-C',W,'diff'],text=True); open(d+'/patch.diff','w').write(diff)
LIB=['src/evfs.c','src/evfs_path.c','src/util/range_strings.c','src/util/glob.c','src/util/intmath.c','src/util/bsd_string.c']
srcs=ns.get('SRCS',LIB)
san=ns.get('FLAGS','-fsanitize=address,undefined')
open(d+'/demo.c','w').write(ns['DEMO'])
open(d+'/demo.sh','w').write('''#!/bin/bash
# Run with cwd /repo after the build: exit 0 when the property holds here, nonzero when it is broken.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'cd /; rm -rf "$T"' EXIT
gcc -std=gnu11 -w -g -D_GNU_SOURCE %s -Iinclude -Iinclude/evfs -Isrc "$D/demo.c" %s -o "$T/demo" -lpthread || exit 2
cd "$T" && ASAN_OPTIONS=detect_leaks=0 timeout 60 ./demo
''' % (san,' '.join(srcs)))
os.chmod(d+'/demo.sh',0o755)
json.dump({"property":ns['PROP'],"needs":ns['NEEDS'],"what_it_breaks":ns['BREAKS']},open(d+'/meta.json','w'),indent=1)
r0=subprocess.run([d+'/demo.sh'],cwd='/repo',capture_output=True,text=True)
r1=subprocess.run([d+'/demo.sh'],cwd=W,capture_output=True,text=True)
print(ID,'demo clean',r0.returncode,r0.stdout[-300:],r0.stderr[-300:] if r0.returncode else '')
print(ID,'demo bug',r1.returncode,r1.stdout[-300:],r1.stderr[-500:])
if '-t' in sys.argv:   # tests with the patch, in /repo itself
    subprocess.check_call(['git','-C','/repo','apply',d+'/patch.diff'])
    try:
        b=subprocess.run('bash /opt/vp/build.sh >/dev/null 2>/tmp/seedw/b.err; bash /opt/vp/test.sh /tmp/o.json|tail -1',shell=True,capture_output=True,text=True)
        print(ID,'tests',b.stdout.strip())
    finally:
        subprocess.check_call(['git','-C','/repo','checkout','-q','--','.'])
        subprocess.run('bash /opt/vp/build.sh >/dev/null 2>&1',shell=True)
if '-c' in sys.argv:
    c=subprocess.run(['python3','vk/run.py','check',ns['PROP']],cwd='/verif',env=dict(os.environ,VK_REPO=W),capture_output=True,text=True)
    print(ID,'check rc',c.returncode,c.stdout[-700:])
subprocess.run(['rm','-rf',W])
