import json,sys,os
sys.path.insert(0,os.path.join(os.path.dirname(__file__),'..','lib'))
import proggen as pg
c=json.load(open(sys.argv[1]))['case']; print({k:v for k,v in c.items() if k!='P'})
import richgen as rg
s=pg.sources(c["P"]) if "funcs" in c["P"] else {"prog": rg.source(c["P"])}
for k,v in s.items(): print("//",k); print("\n".join(l for l in v.split("\n") if not l.startswith("typedef")))
