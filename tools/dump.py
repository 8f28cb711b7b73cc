import json,sys
D=json.load(open(sys.argv[1]))
def ty(t):
    if t is None: return '?'
    k=t['k']
    if k=='basic': return t['n']
    if k=='named': return t['n']+('['+','.join(map(ty,t['a']))+']' if t['a'] else '')
    if k=='ptr': return '*'+ty(t['e'])
    if k=='slice': return '[]'+ty(t['e'])
    if k=='array': return '[%d]%s'%(t['len'],ty(t['e']))
    if k=='tp': return t['n']
    if k=='struct': return 'struct{'+';'.join(f['n']+' '+ty(f['t']) for f in t['f'])+'}'
    if k=='tuple': return '('+','.join(map(ty,t['e']))+')'
    if k=='func': return 'func'+ty(t['p'])+ty(t['r'])
    if k=='iface': return 'iface{'+','.join(t['m'])+'}'
    if k=='map': return 'map[%s]%s'%(ty(t['key']),ty(t['e']))
    if k=='chan': return 'chan '+ty(t['e'])
    return str(t)
def v(x):
    if x is None: return '_'
    if isinstance(x,list): return '['+', '.join(v(y) for y in x)+']'
    k=x['k']
    if k=='const':
        for q in('b','i','s','x'):
            if q in x: return str(x[q])
        return 'nil:'+ty(x['t'])
    if k=='fn': return 'fn '+x['n']+('<'+','.join(map(ty,x['ta']))+'>' if x['ta'] else '')
    return x['n']
def call(c):
    s=c['mode']+' '
    if c['mode']=='invoke': s+=v(c['recv'])+'.'+c['method']
    elif c['mode']=='dyn': s+=v(c['fn'])
    else: s+=c['fn']+('<'+','.join(map(ty,c['ta']))+'>' if c.get('ta') else '')
    return s+v(c['args'])
def dump(n):
    f=D['fns'][n]
    print('func',n,'(',', '.join(p['n']+' '+ty(p['t']) for p in f['params']),') free',[(p['n'],ty(p['t'])) for p in f['free']],f['syn'])
    for i,b in enumerate(f['blocks']):
        print(' %d: %s preds %s'%(i,b['c'],b['p']))
        for q in b['i']:
            s='   '
            if 'r' in q: s+=q['r']+':'+ty(q['t'])+' = '
            s+=q['op']+' '
            for a in('o','x','y','m','lo','hi','max','xs','i','ok','fn','c'):
                if a in q:
                    z=q[a]
                    s+=a+'='+(v(z) if isinstance(z,dict) or z is None or (isinstance(z,list)) else str(z))+' '
            if 'call' in q: s+=call(q['call'])
            if 'at' in q: s+=' at='+ty(q['at'])
            print(s)
        print('     ->',b['s'])
if __name__=='__main__':
    for n in sys.argv[2:]:
        for k in sorted(D['fns']):
            if k==n or (n.endswith('*') and k.startswith(n[:-1])): dump(k)
