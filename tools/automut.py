#!/usr/bin/env python3
"""automut.py OUT.jsonl [LANES] [LIMIT] [SEED]: small source mutations of the library, one at a
time. A mutant that compiles and passes the repository's tests is given to the checks (few
runs each) until one reports a violation; what survives is for a human to look at.
Development aid; works on scratch copies under /tmp, no registered check uses it."""
import sys, os, re, subprocess, json, random, shutil, threading, queue
OUT=sys.argv[1]; LANES=int(sys.argv[2]) if len(sys.argv)>2 else 2; LIMIT=int(sys.argv[3]) if len(sys.argv)>3 else 0; SEED=int(sys.argv[4]) if len(sys.argv)>4 else 1
FILES=os.environ.get('FILES','src/io/file_writer.rs src/io/file_reader.rs src/data_set.rs src/data_set/variable.rs src/data_set/dimension.rs src/data_set/attribute.rs src/data_vector.rs src/io.rs src/error.rs src/name_string.rs src/data_type.rs').split()
env=dict(os.environ, RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', CARGO_INCREMENTAL='1')
RUNS=json.loads(os.environ.get('RUNS','{"C01":4000,"C02":4000,"C03":6000,"C13":4000,"C05":4000,"C04":20000,"C06":4000,"C08":4000,"C09":4000,"C16":4000,"C15":3000,"C07":4000,"C12":4000,"C17":4000,"C11":4000,"C10":4000,"C14":1500}'))
def muts(line):
    out=[]
    def subs(pat, rep, tag):
        for m in re.finditer(pat,line):
            r=m.expand(rep) if isinstance(rep,str) else rep(m)
            out.append((line[:m.start()]+r+line[m.end():],tag))
    subs(r' <= ',' < ','rel'); subs(r' >= ',' > ','rel'); subs(r' < ',' <= ','rel'); subs(r' > ',' >= ','rel')
    subs(r' == ',' != ','rel'); subs(r' != ',' == ','rel')
    subs(r' \+ ',' - ','arith'); subs(r' - ',' + ','arith'); subs(r' \* ',' + ','arith'); subs(r' \+= ',' -= ','arith'); subs(r' % ',' / ','arith')
    subs(r' && ',' || ','logic'); subs(r' \|\| ',' && ','logic')
    subs(r'\btrue\b','false','bool'); subs(r'\bfalse\b','true','bool')
    subs(r'(?<![\w."\[<])0(?![\w."])','1','int'); subs(r'(?<![\w."])1(?![\w."])','0','int'); subs(r'(?<![\w."])1(?![\w."])','2','int')
    subs(r'\bif (?!let)([^{]*) \{$',r'if false { /* \1 */','cond'); subs(r'\bif (?!let)([^{]*) \{$',r'if true || (\1) {','cond'); subs(r'\bif (?!let)([^{]*) \{$',r'if !(\1) {','cond')
    subs(r'as u64\b','as u32 as u64','cast'); subs(r'as usize\b','as u32 as usize','cast'); subs(r'as usize\b','as i32 as usize','cast'); subs(r'as i64\b','as i32 as i64','cast'); subs(r'as u32\b','as u16 as u32','cast')
    subs(r'std::cmp::min','std::cmp::max','minmax'); subs(r'std::cmp::max','std::cmp::min','minmax')
    subs(r'\.min\(\)','.max()','minmax'); subs(r'!([a-z])',r'\1','not')
    subs(r'\.is_empty\(\)','.is_empty() == false','not'); subs(r'\.is_some\(\)','.is_none()','not'); subs(r'\.is_none\(\)','.is_some()','not')
    subs(r'write_all\(','write(','short'); subs(r'read_exact\(','read(','short')
    subs(r'SeekFrom::Current','SeekFrom::Start','seek'); subs(r'to_be_bytes','to_le_bytes','endian'); subs(r'BigEndian','LittleEndian','endian')
    subs(r'std::i32::MAX','(std::i32::MAX - 1)','const'); subs(r'std::u32::MAX','(std::u32::MAX - 1)','const')
    subs(r'\.unwrap_or\(0\)','.unwrap_or(4)','const'); subs(r'\.skip\(1\)','.skip(2)','const'); subs(r'\.all\(','.any(','anyall'); subs(r'\.any\(','.all(','anyall')
    s=line.strip(); ind=line[:len(line)-len(line.lstrip())]
    if s.endswith('?;') and not s.startswith(('let ','return','}')) and s.count('(')==s.count(')'): out.append((ind+'let _ = '+s[:-2]+';','ignore')); out.append((ind+';','del'))
    elif s.endswith(';') and not s.startswith(('let ','return','}','use ','const ','pub ','break','continue')) and s.count('(')==s.count(')') and s.count('{')==s.count('}'): out.append((ind+';','del'))
    return [(a,t) for a,t in out if a!=line]
GROUPS=[['chunk_len','num_chunks','num_records','record_stride','padding_size','begin_offset','chunk_size','header_size','start','end','record_index','position','offset_size','num_of_bytes','num_of_elements','file_size','buf_size','new_buf_size','old_buf_start','header_required_size','header_min_size','begin_offset','data_size','end_offset','zero_padding_size','i'],
 ['var.chunk_len()','var.len()','var.num_chunks()','var.num_dims()'],['renamed_','removed_'],['old_dim_name','new_dim_name'],['old_var_name','new_var_name'],['old_attr_name','new_attr_name'],['var_name','attr_name','dim_name'],['unlimited_dim','dims'],['is_ok()','is_err()'],['is_some()','is_none()'],
 ['checked_mul','checked_add','saturating_mul','wrapping_mul'],['.find(','.rfind('],['.iter()','.iter().rev()','.iter().skip(1)'],['.position(','.rposition('],['VariableMismatchDataLength','VariableMismatchDataType'],['RecordMismatchDataLength','RecordIndexExceeded']]
def idents(line):
    out=[]
    for g in GROUPS:
        for a in g:
            pat=r'(?<![\w.])'+re.escape(a)+(r'(?![\w(:])' if a[-1].isalnum() else '')
            if a[0]=='.' : pat=re.escape(a)
            for m in re.finditer(pat,line):
                for b in g:
                    if b!=a: out.append((line[:m.start()]+b+line[m.end():],'ident'))
    return out
allm=[]
OPS=os.environ.get('OPS','muts')
for f in FILES:
    L=open('/repo/'+f).read().split('\n'); intest=False; fence=False
    for i,l in enumerate(L):
        if '#[cfg(test)]' in l: break
        s=l.strip()
        if s.startswith(('//','#','use ','///')) or not s: continue
        code=l.split('  //')[0] if '  //' in l else l
        if s.startswith('num_bytes'): continue
        for m,t in (idents(code) if OPS=='idents' else muts(code)): allm.append((f,i,m,t))
        if OPS=='idents' and i+1<len(L):
            n=L[i+1]
            if s.endswith(';') and n.strip().endswith(';') and len(l)-len(l.lstrip())==len(n)-len(n.lstrip()): allm.append((f,i,n+'\n'+l+'\x00','swap'))
random.Random(SEED).shuffle(allm)
done=set()
if os.path.exists(OUT):
    for x in open(OUT): j=json.loads(x); done.add((j['file'],j['line'],j['new']))
if LIMIT: allm=allm[:LIMIT]
todo=[m for m in allm if (m[0],m[1],m[2]) not in done]
print(len(allm),'mutants,',len(todo),'to do',flush=True)
q=queue.Queue(); [q.put(m) for m in todo]; lock=threading.Lock()
def sh(c,cwd,t,e=env):
    try: return subprocess.run(('ulimit -v 24000000; ' if c.startswith('cargo test') else '')+'exec timeout -k 2 %d %s'%(t,c),shell=True,capture_output=True,text=True,cwd=cwd,env=e,executable='/bin/bash',errors='replace')
    except Exception as x: return subprocess.CompletedProcess(c,99,'','%s'%x)
def lane(n):
    d='/tmp/automut/%d'%n; os.makedirs(d+'/verif',exist_ok=True)
    if os.path.exists(d+'/repo'): shutil.rmtree(d+'/repo')
    subprocess.run(['git','clone','-q','/repo',d+'/repo'],check=True)
    if os.path.exists('/repo/Cargo.lock'): shutil.copy('/repo/Cargo.lock',d+'/repo/')
    for x in ('src','Cargo.toml','Cargo.lock'):
        p=d+'/verif/harness/'+x
        os.makedirs(d+'/verif/harness',exist_ok=True)
        if os.path.isdir('/verif/harness/'+x): shutil.rmtree(p,ignore_errors=True); shutil.copytree('/verif/harness/'+x,p)
        else: shutil.copy('/verif/harness/'+x,p)
    shutil.copy('/verif/KNOWN_FINDINGS.txt',d+'/verif/')
    p=d+'/verif/harness/Cargo.toml'; t=open(p).read().replace('path = "/repo"','path = "%s/repo"'%d); open(p,'w').write(t)
    he=dict(env,RUSTC_WRAPPER='/verif/tools/rustc-wrap.sh',CARGO_INCREMENTAL='0')
    te=dict(env,CARGO_TARGET_DIR=d+'/ttarget',CARGO_PROFILE_DEV_DEBUG='0',CARGO_PROFILE_TEST_DEBUG='0')
    while True:
        try: f,i,new,tag=q.get_nowait()
        except queue.Empty: return
        p=d+'/repo/'+f; src=open('/repo/'+f).read(); L=src.split('\n'); old=L[i]; L[i]=new
        if new.endswith('\x00'): a,b=new[:-1].split('\n'); L[i]=a; L[i+1]=b
        open(p,'w').write('\n'.join(L))
        res={'file':f,'line':i,'old':old.strip(),'new':new,'tag':tag}
        try:
            r=sh('cargo test --workspace --no-fail-fast --offline --lib --bins --tests -- --test-threads 4',d+'/repo',120,te)
            o=r.stdout+r.stderr
            if 'could not compile' in o or 'error[' in o: res['verdict']='nocompile'
            elif r.returncode!=0: res['verdict']='tests'
            else:
                r=sh('cargo test --workspace --offline --doc -- --test-threads 4',d+'/repo',200,te)
                if r.returncode!=0: res['verdict']='tests'
                else:
                    r=sh('cargo build --offline --release',d+'/verif/harness',400,he)
                    if r.returncode!=0: res['verdict']='nobuild '+r.stderr[-300:]
                    else:
                        res['verdict']='SURVIVED'
                        for c,k in RUNS.items():
                            r=sh('./target/release/simcheck check %s'%c,d+'/verif/harness',400,dict(he,VERIF_ROOT=d+'/verif',SIM_RUNS=str(k)))
                            if r.returncode!=0:
                                m=re.search(r'violation class[^\n]*',r.stdout); res['verdict']='killed'; res['by']=c; res['rc']=r.returncode; res['class']=m.group(0)[:120] if m else (r.stdout+r.stderr)[-200:]; break
        finally: open(p,'w').write(src)
        with lock:
            open(OUT,'a').write(json.dumps(res)+'\n')
            print(n,res['verdict'],res.get('by',''),f,i+1,tag,'|',old.strip()[:70],'=>',new.strip()[:90],flush=True)
ts=[threading.Thread(target=lane,args=(n,)) for n in range(LANES)]
[t.start() for t in ts]; [t.join() for t in ts]
