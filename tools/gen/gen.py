#!/usr/bin/env python3
"""Generates harness/h/tmpl_gen.go from templates.txt. Run at development
time only; the PN column is reviewed by hand and then fixed."""
import json,re,subprocess,os,sys
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(os.path.dirname(here))
T=[]
for l in open(here+'/templates.txt'):
    l=l.rstrip('\n')
    if not l or l.startswith('#'): continue
    m,s=l.split('|',1)
    s=re.sub(r'\\n','\n',s) if m in 'pwtesb' else s
    T.append((m,s))
env=dict(os.environ,GOFLAGS='-mod=mod',GOPROXY='off',GOSUMDB='off')
def pns(rows):
    r=subprocess.run(['go','run','./cmd/pn'],cwd=root+'/harness',input='\n'.join(json.dumps(x) for x in rows)+'\n',capture_output=True,text=True,env=env)
    if r.returncode: sys.exit(r.stderr)
    return [json.loads(x) for x in r.stdout.splitlines()]
base=pns(T)
# token boundaries at which layout is claimed to be insignificant
tok=re.compile(r'''\s+|\#[^\n]*|/\*.*?\*/|\$?(?:::)?[A-Za-z_][A-Za-z0-9_-]*(?:::[A-Za-z_][A-Za-z0-9_-]*)*|\d[0-9a-fA-FxX]*(?:\.\d+)?(?:[eE][+-]?\d+)?|'(?:\\.|[^'\\])*'|"(?:\\.|\$\{(?:[^{}]|\{[^{}]*\})*\}|[^"\\])*"|<<\||\|>>|<\||\|>|<<|>>|->|~>|<-|<~|=>|\+>|=~|!~|==|!=|<=|>=|\+=|-=|@@|.''',re.S)
out=[]
for (m,s),pn in zip(T,base):
    gaps=[]
    if m!='e' and '@(' not in s and '`' not in s and '/a\\' not in s:
        pos=0; prev=''
        for t in tok.findall(s):
            gaps.append((pos,prev,t)); pos+=len(t); 
            if not t.isspace(): prev=t
            else: prev=prev
        gaps.append((pos,prev,''))
        # regexps are single tokens
        rx=[x.span() for x in re.finditer(r'/[a-z]+\+?[a-z]*/',s)]+[x.span() for x in re.finditer(r"/\*.*?\*/",s)]
        gaps=[g for g in gaps if not any(a<g[0]<b for a,b in rx)]
    cand=[]
    for p,prev,t in gaps:
        if p>0 and t in('(','[','|') and not s[p-1].isspace(): continue   # adjacency is significant
        if prev.endswith('-') and t.isdigit() or p>0 and s[p-1]=='-' : continue
        cand.append(p)
    out.append((m,s,pn,cand))
rows=[]
for m,s,pn,c in out:
    for p in c: rows.append((m,s[:p]+' '+s[p:])); rows.append((m,s[:p]+'\n'+s[p:])); rows.append((m,s[:p]+'/* c */'+s[p:]))
r=pns(rows); i=0
W=open(root+'/harness/h/tmpl_gen.go','w')
W.write('package h\n\n// Generated by tools/gen/gen.py.\n\ntype tmpl struct {\n\tmode, src, pn string\n\tgaps []int\n}\n\nvar tmpls = []tmpl{\n')
for m,s,pn,c in out:
    ok=[]
    for p in c:
        bad=[x for x in r[i:i+3] if x!=pn]
        i+=3
        if bad: print('GAP',m,repr(s),p,repr(s[:p]+'^'+s[p:]),bad[0][:150])
        else: ok.append(p)
    if '-v' in sys.argv: print(m,repr(s),'\n    ',pn,'\n    ',''.join('^' if k in ok else '.' for k in range(len(s)+1)))
    if pn.startswith('ERR'): print('REJECTED',m,repr(s),pn); continue
    W.write('\t{%s, %s, %s, []int{%s}},\n'%(json.dumps(m),json.dumps(s),json.dumps(pn),', '.join(map(str,ok))))
W.write('}\n'); W.close()
subprocess.run(['gofmt','-w',root+'/harness/h/tmpl_gen.go'])
print(len(out),'templates')
