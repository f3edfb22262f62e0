import json,glob,os,re
p='/verif/DESIGN.md'; s=open(p).read()
notes={'b130':' (first missed: merges that add no light added)','b135':' (first missed: positions that are rounded up to the next pixel added)','b119':' (first missed: scenes whose every light is hidden behind a clutter added)','b121':' (first missed: clocks that tick coarsely added)','b126':' (first missed: files that cannot be renamed added)','b100':' (first missed: samplers that stall while they are copied added)','b105':' (first missed: positions of four and five digits added)','b111':' (it made the simulator itself fail, see `apis` below; now by the picture)','b83':' (first missed: renderings that begin while another is at its file added)','b93':' (first missed: renderings that begin when others are over and gone added)','b88':' (second renderings added to C12)','b12':' (first found late: structured pixel walks added)','b29':' (first missed: renderers now also made by one thread, filters vary between renderings)',
'b36':' (first missed: the same picture is now rendered again over a file tampered with)','b39':' (first missed: the life after a crash now renders another size too, and crashes keep every file)',
'b40':' (first missed: families of questions differing in one respect)','b43':' (panics that repeat added)','b44':' (first found late: many samples per pixel on tiny films, own samplers)',
'b46':' (first missed: scenes of one process now differ in size by up to 400 times)','b47':' (slow machines and hour-long stalls added)','b48':' (long pictures added)','b49':' (up to 70 threads added)',
'b50':' (first missed: errors of more kinds, errors that stay)','b52':' (first missed: slow file operations added)','b51':' (hundreds of copies added)','b62':' (first missed: one question asked again after ever more rays in between)','b65':' (found rarely: short writes before the error added)','b66':' (invalid samples are now part of most workloads)','b72':' (short reads of the entropy added)'}
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    n=os.path.basename(d[:-1]); m=json.load(open(d+'meta.json'))
    k=n.split('-')[0]
    rows.append('| %s | %s | %s%s |'%(n,m['property'],m['needs'],notes.get(k,'')))
a=s.index('| bug | property, caught by | needs |'); b=s.index('\nRefactorings tried',a)
s=s[:a]+'| bug | property, caught by | needs |\n|---|---|---|\n'+'\n'.join(rows)+'\n'+s[b:]
open(p,'w').write(s)
