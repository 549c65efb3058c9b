#!/usr/bin/env python3
"""Development aid, no check: mutate one line of lofty at a time in a scratch clone, run the
checks against it, and list the mutants no check notices (survivors), to find blind spots.
usage: mutate.py WORKDIR SEED COUNT [path-regex]"""
import sys,os,re,random,subprocess,json,time,shutil
W,seed,count=sys.argv[1],int(sys.argv[2]),int(sys.argv[3])
pat=re.compile(sys.argv[4]) if len(sys.argv)>4 else re.compile('.')
R=W+'/r'; H=W+'/harness'; T=W+'/target'
os.makedirs(W,exist_ok=True)
def sh(c,t=900,**k): 
    try: return subprocess.run(c,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,timeout=t,**k)
    except subprocess.TimeoutExpired: return None
shutil.rmtree(R,True); shutil.rmtree(H,True)
sh(f'git clone -q /repo {R}; cp -a /verif/harness {H}; rm -rf {H}/target')
p=H+'/Cargo.toml'; s=open(p).read().replace('path = "/repo/',f'path = "{R}/').replace('path = "../../repo/',f'path = "{R}/'); open(p,'w').write(s)
assert R in s
sh(f"sed -i 's#/verif/replays#{W}/replays#; s#/verif/evidence#{W}/evidence#' {H}/src/ctx.rs")
env=dict(os.environ,CARGO_TARGET_DIR=T,VERIF_TIER='quick',LV_JOBS=os.environ.get('LV_JOBS','4'))
files=[f for f in sh(f'cd {R}; git ls-files "lofty/src/*.rs" "ogg_pager/src/*.rs"').stdout.decode().split() if not re.search(r'tests?\.rs|/tests/|error|genre|constants|lib.rs',f) and pat.search(f)]
OPS=[(r' < ',[' <= ']),(r' > ',[' >= ']),(r' <= ',[' < ']),(r' >= ',[' > ']),(r' == ',[' != ']),(r' != ',[' == ']),(r' && ',[' || ']),(r' \|\| ',[' && ']),
 (r' \+ 1\b',['',' + 2']),(r' - 1\b',['']),(r' \+ ',[' - ']),(r' - ',[' + ']),(r' \+= ',[' -= ',' = ']),(r' -= ',[' += ']),(r'\bif !',['if ']),(r'\btrue\b',['false']),(r'\bfalse\b',['true']),
 (r'\b([0-9]+)\b',['INC']),(r'0x[0-9a-fA-F]+\b',['HEX']),(r'is_empty\(\)',['is_empty() == false']),(r'\.is_some\(\)',['.is_none()']),(r'\.is_none\(\)',['.is_some()']),
 (r'BigEndian',['LittleEndian']),(r' & ',[' | ']),(r' << ',[' >> ']),(r' >> ',[' << ']),(r'\.\.=',['..']),(r'\bSome\((\w+)\)$',['None']),(r'Ok\(Some\([^()]*\)\)',['Ok(None)']),(r'\.trim_end_matches\([^)]*\)',['']),(r'\.rev\(\)',['']),(r'\bbreak;',['continue;']),(r'\bcontinue;',['break;'])]
def cands(f):
    L=open(f'{R}/{f}').read().split('\n'); out=[]; intest=False
    for i,l in enumerate(L):
        st=l.strip()
        if '#[cfg(test)]' in l or st.startswith('mod tests'): break
        if st.startswith('//') or st.startswith('#') or not st or 'err!' in l or 'log::' in l or 'assert' in l or st.startswith('use ') or st.startswith('pub fn') or st.startswith('fn ') or st.startswith('impl') or st.startswith('const '): continue
        for rx,subs in OPS:
            for m in re.finditer(rx,l):
                for s in subs:
                    if s=='INC': r=str(int(m.group(1))+1)
                    elif s=='HEX': r=hex(int(m.group(0),16)^1)
                    else: r=s
                    out.append((i,l[:m.start()]+r+l[m.end():]))
        # statement deletion
        if re.match(r'^\s+[a-z_][\w.:?]*(\(.*\)|[\w.]* [-+|&]?= .*)\??;$',l) and not st.startswith(('let','return','use')): out.append((i,'//'))
    return out
rng=random.Random(seed)
allc=[(f,c) for f in files for c in cands(f)]
rng.shuffle(allc)
FIRST=[('id3/v1','C25 C04'),('id3','C26 C02 C18 C24 C22 C04'),('ape','C26 C02 C04 C15 C22'),('mp4','C26 C02 C06 C03 C15'),('ogg_pager','C21 C03'),('ogg','C02 C06 C20 C15'),('flac','C06 C02 C05 C20'),('iff','C26 C06 C02 C15'),('mpeg','C15 C04 C10'),('aac','C15 C04'),('wavpack','C15'),('musepack','C15'),('picture','C20'),('tag/','C13 C11 C23 C12'),('probe','C10 C16'),('util/text','C17 C18'),('util','C16 C09'),('config','C16')]
ALL='C25 C26 C22 C23 C19 C20 C10 C11 C12 C21 C18 C13 C02 C24 C15 C09 C07 C08 C04 C06 C03 C05 C16 C14 C17 C01'.split()
log=open(W+'/log','a')
n=0
for f,(i,new) in allc:
    if n>=count: break
    P=f'{R}/{f}'; src=open(P).read(); L=src.split('\n'); old=L[i]; L[i]=new; open(P,'w').write('\n'.join(L))
    t0=time.time()
    b=sh(f'cd {H} && cargo build --release --offline 2>&1',env=env)
    if b is None or b.returncode!=0:
        open(P,'w').write(src); continue
    n+=1
    order=[]
    for k,v in FIRST:
        if k in f: order+=v.split()
    order+= [c for c in ALL if c not in order]
    killer=None
    for c in order:
        r=sh(f'timeout -k 5 240 {T}/release/lv {c} 2>&1 | tail -c 3000; exit ${{PIPESTATUS[0]}}',t=600,env=dict(env,LV_REPO=R),cwd=W,executable='/bin/bash')
        if r is None: killer=c+'(timeout)'; break
        if r.returncode!=0: killer=c; break
    log.write(json.dumps(dict(file=f,line=i+1,old=old.strip(),new=new.strip(),killer=killer,t=int(time.time()-t0)))+'\n'); log.flush()
    open(P,'w').write(src)
