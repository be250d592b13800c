#!/usr/bin/env python3
"""mk.py SPEC.py: builds planted bugs from a spec file and confirms each."""
import sys, os, subprocess, json, shutil, re
R='/tmp/pb/repo'; S='/verif/seeded'
env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1', CARGO_PROFILE_DEV_DEBUG='line-tables-only')
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, env=env, **k)
spec={}; exec(open("b0.py").read() if os.path.exists("b0.py") else "", spec); exec(open(sys.argv[1]).read(), spec)
only=sys.argv[2:]
sh(f'git -C {R} checkout -q -- .; git -C {R} fetch -q /repo; git -C {R} reset -q --hard "$(git -C /repo rev-parse HEAD)"')
for b in spec['BUGS']:
    if only and b['id'] not in only: continue
    sh(f'git -C {R} checkout -q -- .')
    ok=True
    for f,old,new in b['edits']:
        p=f'{R}/{f}'; t=open(p).read()
        if t.count(old)!=1: print(b['id'],'EDIT matches',t.count(old),repr(old[:60])); ok=False; break
        open(p,'w').write(t.replace(old,new))
    if not ok: continue
    r=sh('cargo test --workspace --no-fail-fast --offline -- --test-threads 8', cwd=R, timeout=800)
    out=r.stdout+r.stderr
    if 'error: could not compile' in out or 'error[' in out: print(b['id'],'DOES NOT COMPILE', '\n'.join(re.findall(r'error.*\n.*\n.*',out)[:6])); continue
    passed=sum(int(x) for x in re.findall(r'test result: \w+\. (\d+) passed',out)); failed=sum(int(x) for x in re.findall(r'passed; (\d+) failed',out))
    if failed or passed<182:
        print(b['id'],'TESTS',passed,failed,re.findall(r'test (\S+(?: .*)?) \.\.\. FAILED',out)[:4]); continue
    base={}
    n_orig=0
    cur=None
    for l in sh(f'git -C {R} diff -U0').stdout.splitlines():
        if l.startswith('--- a/'): cur=sh(f'git -C {R} show 2ef9116:{l[6:]}').stdout.splitlines()
        elif l.startswith('-') and not l.startswith('---') and l[1:].strip() not in ('','}') and l[1:] in cur: n_orig+=1
    if not n_orig: print(b['id'],'NO ORIGINAL LINE CHANGED')
    d=f'{S}/{b["id"]}'; os.makedirs(d,exist_ok=True)
    open(f'{d}/patch.diff','w').write(sh(f'git -C {R} diff').stdout)
    open(f'{d}/demo.rs','w').write(b['demo'].lstrip()); shutil.copy('/tmp/pb/shim.rs',d); shutil.copy('/tmp/pb/demo.sh',d); os.chmod(f'{d}/demo.sh',0o755)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(f'{d}/meta.json','w'),indent=1)
    x=sh(f'bash {d}/demo.sh',cwd='/repo',timeout=300); y=sh(f'bash {d}/demo.sh',cwd=R,timeout=300)
    good = x.returncode==0 and y.returncode not in (0,90,91)
    print(b['id'],'OK' if good else 'DEMO BAD','clean',x.returncode,'patched',y.returncode, (y.stderr.strip().splitlines() or [''])[0][:150] if good else (x.stderr[-1500:]+'\n--\n'+y.stderr[-800:]))
sh(f'git -C {R} checkout -q -- .')
