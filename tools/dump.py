"""python3 tools/dump.py module.Class.method|module.func [opaque,..] [watch,..]  : print outcomes"""
import sys,time,os; sys.path.insert(0,os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
from sa.core import *; from sa.interp import *
BASE={'Database.set','Database.get','Database.__setitem__','SessionManager.__setitem__','SessionManager.__getitem__','unpack_session_key','session_key','decrypt_session_id','encrypted_session_id','get_session_info_by_token','get_session_info','mint_token','register_usage','get_token','is_active','sanitize'}
p=Program()
q=sys.argv[1]
op=set(x for x in (sys.argv[2].split(',') if len(sys.argv)>2 else []) if x)
w=set(x for x in (sys.argv[3].split(',') if len(sys.argv)>3 else []) if x)
nobase='-' in op
op={x for x in op if x!='-'}
pol=Policy(opaque=(set() if nobase else BASE)|op,watch=w,ignore_attrs={'expires_at'},ignore_keys={'expires_in'},ev_args={'mint_token':{'token_class','based_on','session_id','scope'}},widen=int(os.environ.get('WIDEN','300')),cap=int(os.environ.get('CAP','40')))
fi=p.funcs.get(q) or p.need_method(*q.rsplit('.',1))
t=time.time(); i=Interp(p,pol)
os_=i.run(fi)
print(len(os_),'outcomes',i.steps,'steps %.2fs'%(time.time()-t),i.maxstates,i.lossy)
full=os.environ.get('FULL')
for o in os_[:int(os.environ.get('N','12'))]:
    print('==',o.kind,str(o.val)[:200])
    for e in o.trace: print('    ev',str(e)[:200])
    for a,b in o.facts.items(): print('    ',b,show_atom(a)[:170])
    if full:
        for t_,ob in o.st.heap.items(): print('   H',show(t_),str(ob)[:300])
        for k,v in o.st.ov.items(): print('   O',k[0],show(k[1]),k[2] if not isinstance(k[2],T) else show(k[2]),'=',show(v))
