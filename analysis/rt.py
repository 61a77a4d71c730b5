import sys
sys.path.insert(0,'/verif/analysis')
import threading
threading.stack_size(1024*1024*1024)
from compose import *
def main():
    p=Prog('/verif/build/mir.json')
    S=Summaries(p)
    pat=sys.argv[1] if len(sys.argv)>1 else ''
    for (tr,ty,m),path in sorted(p.impls.items()):
        if m!='to_xml_element' or tr!=CR+'to_xml::ToXmlElement' or pat not in ty: continue
        if not S.impl(CR+'parser::Parser',ty,'parser'): print('NOREADER',ty); continue
        try:
            v,args,pc,_=S.reader(ty)
            w,wa,_,_=S.writer(ty,False)
            slf=mk('sym','self')
            wv=Comp(S,{wa[0]:slf})(w)
            cp=Comp(S,{args[0]:wv})
            r=cp(v)
            if len(sys.argv)>2: print(show(wv)[:3000]); print('R:',show(r)[:3000])
            pr=Prover(S.e)
            ok=pr.eq(r,okv(slf))
            print('OK ' if ok else 'BAD',ty)
            if not ok:
                pth,x,y,f=pr.fail
                print('   ',pth,'|',show(x)[:300],'|',show(y)[:200],'|',describe(f)[:30000])
        except AnalysisError as ex:
            print('ERR',ty,ex)
t=threading.Thread(target=main); t.start(); t.join()
