import json,sys
d=json.load(open('/verif/build/mir.json'))
T=d['types']
def ty(i,dep=0):
    if i is None: return '?'
    t=T[i]
    k=t['k']
    if k=='adt': return t['path'].split('::')[-1]+('<'+','.join(ty(a) if isinstance(a,int) else a for a in t['args'])+'>' if t['args'] else '')
    if k=='ref': return '&'+('mut ' if t['mut'] else '')+ty(t['el'])
    if k in('int','uint','float'): return t['name']
    if k=='tuple': return '('+','.join(map(ty,t['els']))+')'
    if k in('slice','array'): return '['+ty(t['el'])+']'
    if k=='fndef': return 'fn '+t['path']
    if k=='closure': return t['path'].split('::')[-1]
    return t.get('name',k)
def pl(p):
    s='_%d'%p[0]
    for e in p[1:]:
        if e=='*': s='(*%s)'%s
        elif e[0]=='f': s+='.%d'%e[1]
        elif e[0]=='d': s+=' as v%d'%e[1]
        else: s+=str(e)
    return s
def op(o):
    if 'p' in o: return ('move ' if o.get('mv') else '')+pl(o['p'])
    c=o.get('c')
    if c is None: return str(o)
    if 'fn' in c: return c['fn'].get('res') or c['fn']['path']
    for k in('str','int','promoted','static','const_item','bytes','zst','opaque'):
        if k in c: return k+':'+repr(c[k])
    return str(c)
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&'+('mut ' if r['mut'] else '')+pl(r['p'])
    if k=='agg': return r['ak']+' '+str(r.get('adt',r.get('closure','')))+'#'+str(r.get('variant',''))+'('+', '.join(map(op,r['ops']))+')'
    if k=='discr': return 'discr '+pl(r['p'])
    if k=='bin': return op(r['a'])+' '+r['op']+' '+op(r['b'])
    if k=='cast': return 'cast %s %s -> %s'%(r['ck'],op(r['o']),ty(r['ty']))
    if k=='un': return r['op']+op(r['a'])
    return str(r)
def show(b):
    for i,l in enumerate(b['locals']): print('  let _%d: %s'%(i,ty(l)))
    print('  names',[(n,pl(p)) for n,p in b['names']])
    for i,bb in enumerate(b['blocks']):
        if bb['cl']: continue
        print(' bb%d:'%i)
        for s in bb['s']:
            print('    ',pl(s['p']) if 'p' in s else '','=',rv(s['r']) if 'r' in s else s)
        t=bb['t']
        if t['k']=='call': print('     ',pl(t['d']),'=',op(t['f']),'(',', '.join(map(op,t['a'])),') ->',t['t'])
        elif t['k']=='switch': print('      switch',op(t['d']),t['ts'],'else',t['else'])
        else: print('     ',{k:v for k,v in t.items() if k!='ln'})
if __name__=='__main__':
    for f in d['fns']:
        if sys.argv[1] in f['path'] and not f.get('derived'):
            print('FN',f['path'],f['kind'],f['file'],f['line'],f.get('generics'),f.get('impl_trait'))
            if len(sys.argv)>2 or True: show(f['body'])
            for i,p in enumerate(f['promoted']): print(' promoted',i); show(p)
