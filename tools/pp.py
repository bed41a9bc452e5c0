#!/usr/bin/env python3
import json,sys
d=json.load(open('/verif/.work/mir/%s.json'%sys.argv[1]))
F=d['fns'];T=d['types']
def op(o):
    if o[0]=='p': return pl(o[1])
    if o[0]=='k':
        k=o[1]
        if k[0]=='fn': return 'fn:'+T[k[1]]['s']
        if k[0]=='ev': return 'ev:%d:%s'%(k[1],k[2])
        return ':'.join(map(str,k[:2]))
    return str(o)
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        else: s+={'f':'.%s','v':'@%s','i':'[_%s]'}.get(e[0],'<%s>')%(e[1],)
    return s
def rv(r):
    return r[0]+' '+' '.join(op(x) if isinstance(x,list) and x and x[0] in('p','k') else (pl(x) if isinstance(x,list) and x and isinstance(x[0],int) else ('['+', '.join(op(y) if isinstance(y,list) else str(y) for y in x)+']' if isinstance(x,list) else str(x))) for x in r[1:])
for i,f in enumerate(F):
    if sys.argv[2] in f['p'] and 'bb' in f and f['k']!='promoted':
        print('== fn',i,f['p'],f.get('file'),f.get('line'),'args',f['n'], f.get('ln'))
        if len(sys.argv)>3 and sys.argv[3]=='-l': continue
        for b,x in enumerate(f['bb']):
            if not x: continue
            print(' bb%d:'%b)
            for s in x[0]:
                print('    ',pl(s[1]),'=',rv(s[2]) if s[0]=='=' else s)
            t=x[1]
            if t[0]=='call':
                c=t[1]; n=F[c['f']]['p']+('#%d'%c['f']) if 'f' in c else op(c['op'])
                print('     call',pl(t[3]),'=',n,'(',', '.join(map(op,t[2])),') ->',t[4],'L',t[5])
            elif t[0]=='sw': print('     switch',op(t[1]),t[2],'else',t[3])
            else: print('    ',t)
