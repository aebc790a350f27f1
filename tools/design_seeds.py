#!/usr/bin/env python3
"""prints the table of planted bugs of DESIGN.md (from seeded/*/meta.json)"""
import json,os,glob
H=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
missed={'p08-tagr':'tag with a number out of order of the legs','p13-tracecopy':'recipes used twice on the same tensors','p04-memo':'scenario two_networks','p07-linkorder':'scenario lists with equal names and several links'}
missed.update(json.load(open(H+'/tools/missed.json')) if os.path.exists(H+'/tools/missed.json') else {})
print('| bug | breaks | needs | first run |\n|---|---|---|---|')
for d in sorted(glob.glob(H+'/seeded/*/meta.json')):
    m=json.load(open(d)); i=os.path.basename(os.path.dirname(d))
    f=lambda s: s.replace('|','/').replace('\n',' ')
    print('| %s | %s | %s | %s |'%(i,f(m['what_it_breaks']),f(m['needs']),('missed; added: '+missed[i]) if i in missed else 'caught'))
print()
