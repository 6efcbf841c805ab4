#!/usr/bin/env python3
"""mutants.py [-t] [name...]: ad-hoc planted changes; each is applied in a scratch copy, built and checked.
-t also runs the repository's stable tests first (a change that fails them is not realistic)."""
import sys,os,subprocess,concurrent.futures as cf,re,json
M=[]
def m(name,props,*edits): M.append((name,props,edits))
here=os.path.dirname(os.path.abspath(__file__))
for f in sorted(os.listdir(here+'/mutants')):
    exec(open(here+'/mutants/'+f).read())
def sh(c,**k): return subprocess.run(['bash','-c',c],capture_output=True,text=True,**k)
ENV=dict(os.environ,HOME='/root',GOTOOLCHAIN='local',GOPROXY='off',GOFLAGS='-mod=mod')
def run(t,tests):
    name,props,edits=t; W='/tmp/mutp_'+name
    sh(f'rm -rf {W}; mkdir -p {W}/verif; cp -a /repo {W}/repo; cp -a /verif/mc /verif/run.sh /verif/env.sh /verif/known_findings.txt {W}/verif/; '
       f'grep -rlE "/repo|/verif" {W}/verif --include=*.go --include=go.mod --include=*.sh | xargs sed -i "s#/repo\\b#{W}/repo#g; s#/verif\\b#{W}/verif#g"; cd {W}/repo; git checkout -q -- .')
    try:
        for f,o,n in edits:
            p=f'{W}/repo/{f}'; s=open(p).read()
            if o=='' : s+=n
            else:
                if s.count(o)<1: return f'{name}: no match in {f}: {o[:60]!r}'
                s=s.replace(o,n,1) if not o.startswith('ALL:') else s
            open(p,'w').write(s)
        r=sh(f'cd {W}/repo && go1.23 build ./... 2>&1 | head -5',env=ENV)
        if r.stdout.strip(): return f'{name}: build: {r.stdout.strip()[:300]}'
        out=[]
        if tests:
            sh(f'cd {W}/repo; go1.23 test -json -vet=off -count=1 -timeout 6m ./... > {W}/d.jsonl 2>/dev/null; USE_BIT_DECOMPOSITION_RANGE_CHECK=true go1.23 test -json -vet=off -count=1 -timeout 6m ./... 2>/dev/null | sed \'s/^\\({{.*"Action":"[a-z-]*","Package":"\\)/\\1bitdecomp:/\' > {W}/b.jsonl; python3 /opt/vp/results.py {W}/r.json gojson:{W}/d.jsonl gojson:{W}/b.jsonl'.replace('{{','{'),env=ENV)
            r=json.load(open(W+'/r.json')); st=json.load(open('/opt/vp/BASELINE.json'))['stable']
            bad=[x for x in st if x not in set(r['passed'])]
            out.append('TESTS-FAIL(%d)'%len(bad) if bad else 'tests-ok')
        for p in props.split(','):
            r=sh(f'timeout 900 bash {W}/verif/run.sh {p} quick > /tmp/mutp_{name}.{p}.log 2>&1; echo $?',env=ENV)
            rc=r.stdout.strip(); v=sh(f'grep -c "^VIOLATION" /tmp/mutp_{name}.{p}.log').stdout.strip()
            out.append(f'{p}:{"caught" if rc=="1" else "MISSED" if rc=="0" else "rc="+rc}')
        return f'{name}: '+' '.join(out)
    finally: sh(f'rm -rf {W}')
if __name__=='__main__':
    a=sys.argv[1:]; tests='-t' in a; a=[x for x in a if x!='-t']
    L=[t for t in M if not a or any(re.fullmatch(x,t[0]) for x in a)]
    with cf.ThreadPoolExecutor(int(os.environ.get('J','2'))) as ex:
        for f in cf.as_completed([ex.submit(run,t,tests) for t in L]): print(f.result(),flush=True)
