import json
def prop(id,title,stmt,over,text,why,files,mech,contracts,native,assumptions,note,level='proof',budget=40,**kw):
    assert len(title)<=80,(id,len(title))
    d={'property':{'id':id,'title':title,'statement':stmt,'quantifier':{'over':over,'text':text},'why_tests_cant':why,'anchors':{'files':files,'mechanism':mech}},
       'check':{'contracts':contracts,'native':native,'level':level,'budget':budget,'assumptions':assumptions,'level_note':note,**kw}}
    json.dump(d,open(f'/verif/props/{id}.json','w'),indent=1)
