#!/usr/bin/env python3
# Development-time tool: builds corpus/*.txt from (a) cvc5 Alethe proofs of the repository's benchmark
# problems and (b) the proof snippets found in carcara/tests/rules. Not run by any check.
import re,sys,os,glob,random
out='/verif/corpus'
def ser(recs,path):
    with open(path,'w') as f:
        for name,flags,expect,prob,proof in recs:
            f.write(f"@@@ {name}\t{flags}\t{expect}\t{len(prob.encode())}\t{len(proof.encode())}\n{prob}\n{proof}\n")
# (a)
recs=[]
chk=[l.split() for l in open('/tmp/bm/chk.txt')]
random.seed(7)
seen={}
def rules(t): return frozenset(re.findall(r':rule ([^\s()]+)',t))|({'anchor'} if '(anchor' in t else set())
cand=[]
for r,size,p in chk:
    if int(size)>26000: continue
    t=open('/tmp/bm/'+p).read(); s=open('/tmp/bm/'+p[:-7]+'.smt2').read()
    if len(s)>20000: continue
    cand.append((r,p,t,s,rules(t)))
cnt={}
ok=[c for c in cand if c[0] in('valid','holey')]
random.shuffle(ok)
ok.sort(key=lambda c:-len(c[4]))
for r,p,t,s,ru in ok:
    if any(cnt.get((x,r),0)<4 for x in ru) and len(recs)<90:
        for x in ru: cnt[(x,r)]=cnt.get((x,r),0)+1
        recs.append((os.path.basename(p)[:-7][-60:],'cvc5',r,s,t))
inv=[c for c in cand if c[0]=='invalid' and 'anchor' in c[4]][:6]+[c for c in cand if c[0]=='invalid'][:400:40]
for r,p,t,s,ru in inv: recs.append((os.path.basename(p)[:-7][-60:],'cvc5',r,s,t))
ser(recs,out+'/cvc5.txt'); print(len(recs),sum(len(r[3])+len(r[4]) for r in recs))
# (b)
recs=[]
for f in sorted(glob.glob('/repo/carcara/tests/rules/*.rs')):
    src=open(f).read()
    src=re.sub(r'(?m)^\s*//.*$','',src)
    for m in re.finditer(r'fn (?:r#)?(\w+)\(\)\s*\{\s*test_cases!\s*\{',src):
        i=m.end(); 
        # tokenise until the matching brace
        depth=1; toks=[]; j=i
        while depth>0:
            c=src[j]
            if c=='r' and re.match(r'r#+"',src[j:]):
                h=re.match(r'r(#+)"',src[j:]).group(1); e=src.index('"'+h,j+2+len(h)); toks.append(('s',src[j+2+len(h):e])); j=e+1+len(h); continue
            if c=='"':
                k=j+1; buf=''
                while src[k]!='"':
                    if src[k]=='\\':
                        n=src[k+1]
                        if n=='\n':
                            k+=2
                            while src[k] in ' \n\t': k+=1
                            continue
                        buf+={'n':'\n','t':'\t','"':'"','\\':'\\'}.get(n,'\\'+n); k+=2; continue
                    buf+=src[k]; k+=1
                toks.append(('s',buf)); j=k+1; continue
            if c=='{': depth+=1; toks.append(('p','{'))
            elif c=='}': depth-=1; toks.append(('p','}'))
            elif c==':' : toks.append(('p',':'))
            elif re.match(r'true\b|false\b',src[j:]): toks.append(('b',re.match(r'true|false',src[j:]).group(0)))
            elif src[j:].startswith('definitions'): toks.append(('d','d'))
            j+=1
        defs=None; k=0; group=''
        while k<len(toks):
            ty,v=toks[k]
            if ty=='d':
                while toks[k][0]!='s': k+=1
                defs=toks[k][1]; k+=1; continue
            if ty=='s' and k+1<len(toks) and toks[k+1]==('p','{'): group=v; k+=2; continue
            if ty=='s' and k+2<len(toks) and toks[k+1]==('p',':') and toks[k+2][0]=='b':
                if defs is not None: recs.append((os.path.basename(f)[:-3]+'.'+m.group(1),'snippet',toks[k+2][1],defs,v))
                k+=3; continue
            k+=1
print(len(recs))
by={}
for r in recs: by.setdefault((r[0],r[2]),[]).append(r)
sel=[]
for k,v in sorted(by.items()):
    v=[x for x in v if len(x[4])<4000]
    if len(v)>8: random.shuffle(v); v=v[:8]
    sel+=v
ser(sel,out+'/snippets.txt'); print(len(sel),sum(len(r[3])+len(r[4]) for r in sel))
