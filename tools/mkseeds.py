#!/usr/bin/env python3
# (re)generates /verif/seeded/<id>/{patch.diff,meta.json,demo.sh,zz_demo_test.go}
# from tools/seeds/*.py ; usage: mkseeds.py [id...]
import sys,os,json,subprocess,shutil,glob
R='/tmp/mkseeds_repo'
seeds={}
def seed(id,prop,pkg,edits,needs,breaks,demo,flags='',env='export USE_BIT_DECOMPOSITION_RANGE_CHECK=true'):
    seeds[id]=dict(prop=prop,pkg=pkg,edits=edits,needs=needs,breaks=breaks,demo=demo,flags=flags,env=env)
HELP='''
func demoSolve(circuit, assignment frontend.Circuit, opts ...solver.Option) error {
	os.Setenv("USE_BIT_DECOMPOSITION_RANGE_CHECK", "true")
	ccs, err := frontend.Compile(ecc.BN254.ScalarField(), r1cs.NewBuilder, circuit)
	if err != nil {
		return err
	}
	w, err := frontend.NewWitness(assignment, ecc.BN254.ScalarField())
	if err != nil {
		return err
	}
	return ccs.IsSolved(w, opts...)
}
'''
g=dict(seed=seed,HELP=HELP)
for f in sorted(glob.glob(os.path.join(os.path.dirname(os.path.abspath(__file__)),'seeds','*.py'))):
    exec(open(f).read(),g)
want=sys.argv[1:] or sorted(seeds)
for i in want:
    s=seeds[i]
    shutil.rmtree(R,ignore_errors=True)
    subprocess.run(['git','clone','-q','/repo',R],check=True)
    for f,old,new in s['edits']:
        p=os.path.join(R,f); t=open(p).read()
        assert t.count(old)==1,(i,f,t.count(old),old)
        open(p,'w').write(t.replace(old,new))
    d='/verif/seeded/'+i; os.makedirs(d,exist_ok=True)
    diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True,check=True).stdout
    open(d+'/patch.diff','w').write(diff)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/zz_demo_test.go','w').write(s['demo'])
    open(d+'/demo.sh','w').write('''#!/bin/bash
# exit 0: the property holds for the demonstrated case; nonzero: it is broken
D=$(cd "$(dirname "$0")" && pwd)
R=$PWD
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
export HOME=/root GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod GOSUMDB=off
%s
cp "$D/zz_demo_test.go" "$T/zz_demo_test.go"
echo "{\\"Replace\\":{\\"$R/%s/zz_demo_test.go\\":\\"$T/zz_demo_test.go\\"}}" > "$T/o.json"
cd "$R/%s" && /usr/local/bin/go1.23 test -overlay "$T/o.json" -vet=off -count=1 -timeout 250s -run '^TestDemo$' %s .
''' % (s['env'],s['pkg'],s['pkg'],s['flags']))
    os.chmod(d+'/demo.sh',0o755)
    print(i,'ok')
shutil.rmtree(R,ignore_errors=True)
