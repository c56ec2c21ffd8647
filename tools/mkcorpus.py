import glob,json,re,collections,pathlib
import spl_transpiler as s
from spl_transpiler.macros import *
M={p.stem:json.load(open(p)) for p in pathlib.Path('/repo/tests/sample_data/macros').rglob('*.json')}
fb=lambda n: MacroDefinition(definition="")
L=CombinedMacroLoader(RegistryMacroLoader(M), fallback_fn=lambda n: MacroDefinition(definition="search x=1"))
best={}
n=c=0
for p in sorted(glob.glob('/repo/tests/sample_data/queries/security_content/*.spl')):
    q=open(p).read()
    try: q=substitute_macros(q,L)
    except Exception as e: c+=1; continue
    try:
        s.convert_spl_to_pyspark(q,allow_runtime=True,format_code=False); ok=1
    except Exception: ok=0
    n+=ok
    cmds=tuple(sorted(set(re.findall(r'\|\s*([a-z]+)',q))|set(re.findall(r'\b(\w+)\(',q))))
    if len(q)<900:
        best.setdefault((ok,cmds),[]).append(q)
print(n,c,len(best))
out=[]
for (ok,cm),qs in sorted(best.items()):
    if ok or len(out)%9==0: out.append(min(qs,key=len))
out=out[::max(1,len(out)//160)]
print(len(out))
json.dump(out,open('/verif/sim/corpus.json','w'),indent=0)
