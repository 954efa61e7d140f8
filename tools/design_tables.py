import re,glob,os
seeds={}
for f in sorted(glob.glob('/verif/tools/seeds/*.seed')):
    t=open(f).read(); g=lambda k:(re.search(r'^'+k+r':\s*(.*)',t,re.M) or [0,''])[1]
    seeds[os.path.basename(f)[:-5]]=(g('property'),g('breaks'),g('needs'))
rows='| Seed | Caught by | Breaks | Needs |\n|---|---|---|---|\n'+'\n'.join(f'| {k} | {v[0]} | {v[1]} | {v[2]} |' for k,v in seeds.items())
p='/verif/DESIGN.md'; s=open(p).read()
s=re.sub(r'(Each was written from the statement[^\n]*\n\n?)(.*?)(\nBeyond these)',lambda m:m[1].rstrip('\n')+'\n\n'+rows+'\n'+m[3],s,flags=re.S)
open(p,'w').write(s)
