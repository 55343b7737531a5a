import json
NOTE={
'P01':'all values compared as exact rationals; approximate or over-long (more than 100 digits) results are left open by the specification',
'P02':'laws model-checked on a share of all operator chains, the share replayed; random nested expressions',
'P14':'installation order and closure model-checked over all small feature graphs; replayed on synthetic and real features',
}
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    i=p['id']
    if i in SKIP if 'SKIP' in globals() else False: continue
    checks.append({'property':i,'quick_cmd':'./check %s quick'%i,'thorough_cmd':'./check %s thorough'%i,
     'technique':'TLA+ specification checked with TLC; its behaviours replayed into the implementation and recorded implementation behaviours judged by the specification',
     'level':'model_checking',
     'level_note':NOTE.get(i,'bounded model checking of the specification plus replayed and seeded random histories of the real calculator, each step judged by the specification')})
json.dump({'version':1,'setup_cmd':'./setup','checks':checks,'not_applicable':NA if 'NA' in globals() else [],
 'notes':'No hooks: everything is observed through the public API. See DESIGN.md.'},open('/verif/MANIFEST.json','w'),indent=1)
