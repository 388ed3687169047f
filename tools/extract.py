#!/usr/bin/env python3
# Collects Ferlium program texts from /repo: string literals in the tests, .fer files, fenced blocks in the documentation.
# Writes build/all_texts.txt, texts separated by lines holding only \x1e. Run by hand; the result is committed.
import re,sys,glob,hashlib
out=[];seen=set()
def add(t):
    t=t.strip('\n')
    k=hashlib.sha1(t.encode()).hexdigest()
    if len(t)>=2 and len(t)<6000 and k not in seen and '\x1e' not in t:
        seen.add(k); out.append(t)
def dedent(s):
    ls=s.split('\n')
    ind=[len(l)-len(l.lstrip()) for l in ls if l.strip()]
    m=min(ind) if ind else 0
    return '\n'.join(l[m:] for l in ls)
STR=re.compile(r'r(#+)"(.*?)"\1|r"([^"]*)"|"((?:[^"\\]|\\.)*)"',re.S)
ESC={'n':'\n','t':'\t','r':'\r','\\':'\\','"':'"',"'":"'",'0':'\0'}
def unesc(s):
    s=re.sub(r'\\\n\s*','',s)
    def f(m):
        g=m.group(1)
        if g[0]=='u': return chr(int(g[2:-1].replace('_',''),16))
        if g[0]=='x': return chr(int(g[1:],16))
        return ESC.get(g,g)
    return re.sub(r'\\(u\{[0-9a-fA-F_]+\}|x[0-9a-fA-F]{2}|.)',f,s,flags=re.S)
for f in sorted(glob.glob('/repo/**/*.fer',recursive=True)):
    if '/target/' in f: continue
    add(open(f).read())
for f in sorted(glob.glob('/repo/**/*.md',recursive=True)):
    if '/target/' in f: continue
    for m in re.finditer(r'```(?:ferlium|fer|rust)?[^\n]*\n(.*?)```',open(f).read(),re.S): add(m.group(1))
for f in sorted(glob.glob('/repo/tests/**/*.rs',recursive=True)+glob.glob('/repo/src/**/*.rs',recursive=True)):
    src=open(f).read()
    for m in STR.finditer(src):
        if m.group(2) is not None: t=m.group(2)
        elif m.group(3) is not None: t=m.group(3)
        else:
            try: t=unesc(m.group(4))
            except Exception: continue
        if '\n' in t or re.search(r'[;{(|+*=\[]|->| ',t): add(dedent(t))
open('/verif/build/all_texts.txt','w').write('\n\x1e\n'.join(out))
print(len(out),sum(map(len,out)))
