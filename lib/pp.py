import sys, extract
def pl(p):
    s="_%d"%p['l']
    for e in p['p']:
        if e[0]=='*': s="(*%s)"%s
        elif e[0]=='f': s+=".%d"%e[1]
        elif e[0]=='i': s+="[_%d]"%e[1]
        elif e[0]=='d': s+=" as v%d"%e[1]
        else: s+=str(e)
    return s
def op(o):
    k=o['k']
    if k in('copy','move'): return k[0]+" "+pl(o['pl'])
    if k=='const':
        return "const(%s)"%(o.get('v',o.get('str',o.get('opaque',o.get('closure','()')))))
    if k=='fn': return "FN %s [%s]%s"%(o.get('rpath') or o['path'],o.get('rkind'), ' INST' if 'inst' in o else '')
    if k=='promoted': return 'promoted'
    return str(o)
def rv(r):
    k=r['k']
    if k=='use': return op(r['o'])
    if k=='ref': return '&%s%s%s'%('mut ' if r['mut'] else '','fake ' if r['fake'] else '',pl(r['pl']))
    if k=='bin': return '%s(%s, %s)'%(r['op'],op(r['a']),op(r['b']))
    if k=='un': return '%s(%s)'%(r['op'],op(r['a']))
    if k=='cast': return '%s as %s [%s]'%(op(r['o']),T(r['ty']),r['ck'])
    if k=='discr': return 'discr(%s)'%pl(r['pl'])
    if k=='agg': return 'agg %s %s(%s)'%(r['ak'],r.get('path','')+('#%s'%r['variant'] if 'variant' in r else ''),', '.join(op(x) for x in r['ops']))
    return str({a:b for a,b in r.items()})
def T(i): return TY[i]['s']
def show(b):
    print('==',b['key'],b['sp'], 'argc',b['argc'])
    for i,t in enumerate(b['locals']): print('  _%d: %s'%(i,T(t)), [n[0] for n in b['names'] if n[1]['l']==i and not n[1]['p']])
    for i,bb in enumerate(b['blocks']):
        if bb['cleanup']: continue
        print(' bb%d'%i)
        for s in bb['s']:
            print('    ', pl(s['pl'])+' = '+rv(s['rv']) if s['k']=='=' else s)
        t=bb['t']; k=t['k']
        if k=='call': print('    ',pl(t['d']),'= call',op(t['f']),'(',', '.join(op(a) for a in t['a']),') ->',t['t'])
        elif k=='switch': print('     switch',op(t['o']),t['ts'],t['else'])
        elif k=='goto': print('     goto',t['t'])
        elif k=='assert': print('     assert',op(t['c']),t['e'],t['m'],'->',t['t'])
        else: print('    ',{a:b for a,b in t.items() if a!='sp'})
if __name__=='__main__':
    D=extract.load(sys.argv[1]); TY=D['types']
    for b in D['bodies']:
        if sys.argv[2] in b['key'] : show(b)
