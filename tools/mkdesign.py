# Regenerates the "Seeded changes" table at the end of DESIGN.md from seeded/*/meta.json.
import json,os,glob,sys
here=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
p=os.path.join(here,'DESIGN.md')
s=open(p).read()
mark='## Seeded changes'
head=s.split(mark)[0].rstrip()+'\n\n'
rows=[]
for m in sorted(glob.glob(os.path.join(here,'seeded','*','meta.json'))):
    d=json.load(open(m))
    cl=lambda t: str(t).replace('\n',' ').replace('|','/')
    rows.append('| %s | %s | %s | %s |'%(os.path.basename(os.path.dirname(m)),d['property'],cl(d['what_it_breaks']),cl(d['needs'])))
out=head+mark+'''

Each was written from the property text and the code, confirmed to build, to pass
the 102 stable tests and to have a demonstration that fails only with the change.
Every change below is reported by the quick check of the property named in its row
(run `git -C /repo apply`, the check, `git -C /repo checkout -- .`).

| change | property (and catching check) | what it breaks | needs |
|---|---|---|---|
'''+'\n'.join(rows)+'\n'
open(p,'w').write(out)
