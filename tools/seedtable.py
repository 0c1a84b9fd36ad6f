#!/usr/bin/env python3
"""rewrites the table of planted changes in DESIGN.md from /verif/seeded (a development tool)"""
import os,json,re
rows=["| change | property, caught by | needs | breaks |","|---|---|---|---|"]
B='/verif/seeded/'
for i in sorted(os.listdir(B),key=lambda i:(json.load(open(B+i+'/meta.json'))['property'],i)):
    m=json.load(open(B+i+'/meta.json')); rows.append('| %s | %s | %s | %s |'%(i,m['property'],m['needs'].replace('|','/'),m['what_it_breaks'].replace('|','/')))
t=open('/verif/DESIGN.md').read()
a,b='<!-- seeds -->\n','<!-- /seeds -->\n'
blk=a+'\n'.join(rows)+'\n'+b
if a in t: t=t[:t.index(a)]+blk+t[t.index(b)+len(b):]
else: t=t.replace('SEEDTABLE\n','''Every change below is caught by the quick check of its own property (confirmed with `tools/seed.py run`).

'''+blk+'''
Two further campaigns (tools in `tools/`, nothing of them is read by a check):

* `trybugs.py`: about 130 hand-written changes, each written from a property's text, tried in private copies. About 85 were caught at once; 20 were missed
  and led to stronger checks (empty CRW leaves and 17-bit ARW codes in C05; large directories, far and signed offsets in C07; private DSLR-A100 blocks in C01 and
  C17; DNGs of every camera in C18; long images in C10, C11 and C12; far shifts in C09; large inputs in C16; means next to whole numbers in C19; single failing
  calls and three arguments in C20; short Pentax tables in C05; blocks that end with their last used value in C17; large scales in C06); all of those are caught
  now. The remaining misses change nothing observable (equivalent changes, unreachable values), or only what the properties leave open: the noise pattern of
  dithered samples, the order of duplicate tags, the exact nesting limit.
* `mutate.py`: 155 mechanical mutants of decoder and development code that pass the repository's tests; the survivors were read one by one and are equivalent,
  outside of what is claimed, or covered by the additions above.
''')
open('/verif/DESIGN.md','w').write(t)
