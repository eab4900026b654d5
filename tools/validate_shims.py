"""Runs ink's own googletests on /repo against the stand-in libraries of shim/ (FUZZ_TESTs are cut out).
usage: validate_shims.py [substring of the test path]...  Scratch files go to /tmp/ink-validate-shims."""
import re,subprocess,sys,os
from pathlib import Path
from concurrent.futures import ThreadPoolExecutor
R=Path('/repo'); T=Path('/tmp/ink-validate-shims'); T.mkdir(exist_ok=True)
def deps(src,seen):
    txt=src.read_text()
    for inc in re.findall(r'#include "(ink/[^"]+)\.h"',txt):
        for ext in('.h','.cc'):
            p=R/(inc+ext)
            if p.exists() and p not in seen:
                seen.add(p); deps(p,seen)
    return seen
tests=[p for p in R.glob('ink/**/*_test.cc') if 'native' not in str(p) and 'jni' not in str(p)
       and (not sys.argv[1:] or any(a in str(p) for a in sys.argv[1:]))]
objs={}
def comp(src,out):
    r=subprocess.run(['clang++','-std=c++20','-O1','-g1','-Wno-everything','-fsanitize=undefined,address','-I/repo','-I/verif/shim','-c',str(src),'-o',out],capture_output=True,text=True)
    return r.returncode==0, r.stderr
jobs={}
plan={}
for t in tests:
    txt=t.read_text()
    if 'fuzztest' in txt:
        txt=re.sub(r'FUZZ_TEST\([^;]*?\)\s*(\.[^;]*)?;','',txt,flags=re.S)
        txt='\n'.join(l for l in txt.split('\n') if 'fuzz_domains' not in l and 'fuzztest' not in l)
    name=str(t.relative_to(R)).replace('/','_')
    s=T/name; s.write_text(txt)
    d=[p for p in deps(s,set()) if p.suffix=='.cc']
    plan[t]=(s,d)
    jobs[str(s)]=str(T/(name+'.o'))
    for p in d: jobs[str(p)]=str(T/(str(p.relative_to(R)).replace('/','_')+'.o'))
bad={}
with ThreadPoolExecutor(8) as ex:
    for (s,o),(ok,err) in zip(jobs.items(),ex.map(lambda kv:comp(*kv),jobs.items())):
        if not ok: bad[s]=err
for s,e in bad.items(): print('COMPILE FAIL',s,'\n'.join([l for l in e.split('\n') if 'error' in l][:3]))
def run(t):
    s,d=plan[t]
    need=[str(s)]+[str(p) for p in d]
    if any(n in bad for n in need): return 'skip %s'%t
    exe=jobs[str(s)][:-2]+'.exe'
    r=subprocess.run(['clang++','-fsanitize=undefined,address']+[jobs[n] for n in need]+['-lgmock','-lgtest','-lgtest_main','-o',exe],capture_output=True,text=True)
    if r.returncode: return 'LINK %s %s'%(t,r.stderr[-600:])
    r=subprocess.run([exe],capture_output=True,text=True,timeout=900)
    out=r.stdout
    f=re.findall(r'\[  FAILED  \] (\S+) \(',out)
    p=len(re.findall(r'\[       OK',out))
    return '%s rc=%d pass=%d fail=%s %s'%(t.relative_to(R),r.returncode,p,f, '' if r.returncode==0 or f else (r.stderr[-800:]))
with ThreadPoolExecutor(8) as ex:
    for x in ex.map(run,tests): print(x)
