#!/usr/bin/env python3
# mkseed.py SPEC.py: makes /verif/seeded/<id>/ from a description and confirms it in a scratch copy of /repo.
# SPEC.py defines id, property, needs, breaks, edits=[(file, old, new)], pkg, test (Go source of the demonstration), common=True|False
import sys,os,subprocess,json,shutil,tempfile
ns={}
exec(open(sys.argv[1]).read(),ns)
sid=ns['id']; d=f'/verif/seeded/{sid}'
wt='/tmp/seedwt'
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
shutil.rmtree(wt,ignore_errors=True)
sh(f'cp -a /repo {wt}')
for f,old,new in ns['edits']:
    p=f'{wt}/{f}'; s=open(p).read()
    assert s.count(old)==1,(f,old,s.count(old))
    open(p,'w').write(s.replace(old,new))
os.makedirs(d,exist_ok=True)
diff=sh(f'git -C {wt} diff -- '+' '.join(sorted({e[0] for e in ns["edits"]}))).stdout
open(d+'/patch.diff','w').write(diff)
open(d+'/demo_test.go','w').write(ns['test'])
if ns.get('common'):
    s=open('/verif/replay/common/%s_test.go'%(ns['common'] if isinstance(ns['common'],str) else 'shared')).read().split('\n',1)[1]
    open(d+'/common_test.go','w').write(s)
names=['demo_test.go']+(['common_test.go'] if ns.get('common') else [])
rep=' '.join(f'"$repo/{ns["pkg"]}/zz_seed_{n}:$here/{n}"' for n in names)
open(d+'/demo.sh','w').write(f'''#!/bin/bash
# run with cwd = the repository; exit 0 when the property's demonstration passes
here="$(cd "$(dirname "$0")" && pwd)"
repo="$(pwd)"
. /opt/vp/env.sh
tmp="$(mktemp -d)"
trap 'rm -rf "$tmp"' EXIT
{{ printf '{{"Replace":{{'; sep=
for x in {rep}; do printf '%s"%s":"%s"' "$sep" "${{x%%:*}}" "${{x#*:}}"; sep=,; done
printf '}}}}'; }} > "$tmp/overlay.json"
export TMPDIR="$tmp"
go test -count=1 -vet=off -timeout 250s -overlay "$tmp/overlay.json" -run '^TestSeedDemo$' ./{ns["pkg"]}
''')
json.dump(dict(property=ns['property'],needs=ns['needs'],what_it_breaks=ns['breaks']),open(d+'/meta.json','w'),indent=1)
r=sh(f'cp -a {d} /tmp/seeddemo; cd /repo && bash /tmp/seeddemo/demo.sh'); print('clean demo',r.returncode); 
if r.returncode: print((r.stdout+r.stderr)[-1500:])
r2=sh(f'cd {wt} && bash /tmp/seeddemo/demo.sh'); print('patched demo',r2.returncode,(r2.stdout)[-300:])
r3=sh(f'cd {wt} && . /opt/vp/env.sh && go build ./... ; cd {wt} && go vet ./core/... >/dev/null; true'); print('build',r3.returncode,r3.stderr[-500:])
shutil.rmtree('/tmp/seeddemo'); shutil.rmtree(wt)
