#!/usr/bin/env python3
"""debug: print a dumped body"""
import json,sys
d=json.load(open(sys.argv[1])); pat=sys.argv[2]
T=d['types']
for i in d['insts']:
    if pat in (i.get('full') or i['path'])or pat==str(i['id']):
        print('=====',i['id'],i['kind'],i.get('full'),i.get('krate'),{k:v for k,v in i.items() if k not in('body','id','kind','full','krate','path')})
        b=i.get('body')
        if not b or len(sys.argv)<4: continue
        for n,l in enumerate(b['locals']): print('  let _%d: %s'%(n,T[l]['s']))
        print('  names',b['names'],'argc',b['argc'],'spread',b.get('spread'))
        for n,bl in enumerate(b['blocks']):
            if not bl: continue
            print(' bb%d'%n)
            for s in bl['s']: print('    ',json.dumps(s))
            print('    T',json.dumps(bl['t']))
