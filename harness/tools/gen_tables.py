#!/usr/bin/env python3
"""Generates data/nfkd.txt, data/ccc.txt and data/gb18030_zh.txt from CPython's unicodedata / codecs."""
import unicodedata as u, os
# unicode-normalization 0.1.21 implements Unicode 14; these 15.0 characters decompose or combine
NEW15=set(range(0x1E030,0x1E06E))|set(range(0x10EFD,0x10F00))|{0x11F41,0x11F42,0x1E08F}|set(range(0x1E4EC,0x1E4F0))
assert u.unidata_version=='15.0.0'
d=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','data')
with open(d+'/nfkd.txt','w') as f, open(d+'/ccc.txt','w') as g:
    for c in range(0x110000):
        if 0xD800<=c<=0xDFFF or 0xAC00<=c<=0xD7A3: continue
        if c in NEW15: continue
        ch=chr(c)
        n=u.normalize('NFKD',ch)
        if n!=ch: f.write('%X %s\n'%(c,' '.join('%X'%ord(x) for x in n)))
        k=u.combining(ch)
        if k: g.write('%X %d\n'%(c,k))
ws=open(d+'/chinese_simplified.txt',encoding='utf8').read().split()
with open(d+'/gb18030_zh.txt','w') as f:
    for w in ws: f.write(w.encode('gb18030').hex()+'\n')
