import sys,time,traceback
sys.path.insert(0,'/verif/analysis')
sys.setrecursionlimit(200000)
import threading
threading.stack_size(512*1024*1024)
from engine import *
BOUNDARY=[('japanese_law_xml_schema::parser::Parser','parser'),('japanese_law_xml_schema::to_xml::ToXmlElement','to_xml_element'),
 ('japanese_law_xml_schema::to_xml::ToXmlElementWithName','to_xml_element_with_name'),
 'japanese_law_xml_schema::text::Text::from_children','japanese_law_xml_schema::text::Text::to_children',
 'japanese_law_xml_schema::paragraph::SentenceOrColumnOrTable::from_element',
 'japanese_law_xml_schema::article_number::ArticleNumber::num_str','japanese_law_xml_schema::article_number::ArticleNumber::from_num_str','japanese_law_xml_schema::article_number::ArticleNumber::from_str']
def main():
    p=Prog('/verif/build/mir.json')
    pat=sys.argv[1]
    for path,f in p.fns.items():
        if pat in path and f['kind'] in('Fn','AssocFn') and not f.get('derived') and '_::<impl' not in path:
            e=Engine(p,BOUNDARY)
            t=time.time()
            try:
                v,st,pc=e.run_fn(path,[mk('sym',f['body']['names'].get(str(i+1)) or 'a%d'%i) if isinstance(f['body']['names'],dict) else mk('sym','a%d'%i) for i in range(f['body']['argc'])])
                print(path,'%.2fs'%(time.time()-t)); 
                if len(sys.argv)>2: print(' ',str(show(v))[:6000]); print('  opaque',e.opaque)
            except Exception as ex:
                print('FAIL',path,repr(ex)[:200])
                if len(sys.argv)>2: traceback.print_exc()
t=threading.Thread(target=main); t.start(); t.join()
