import json
T='deterministic simulation with fault injection: '
checks=json.load(open('/verif/tools/claims.json'))
props=[json.loads(l) for l in open('/verif/properties.jsonl')]
claimed={c['property'] for c in checks['checks']}
na=checks['not_applicable']
m={'version':1,'setup_cmd':'./build.sh','checks':[],'not_applicable':[]}
for c in checks['checks']:
    p=c['property']
    m['checks'].append({'property':p,'quick_cmd':f'./check.sh {p} quick','thorough_cmd':f'./check.sh {p} thorough','technique':T+c['technique'],'level':'exploration','level_note':c['note']})
for p in props:
    if p['id'] not in claimed:
        m['not_applicable'].append({'property':p['id'],'reason':na.get(p['id'],'not claimed yet: check under construction')})
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1,ensure_ascii=False); open('/verif/MANIFEST.json','a').write('\n')
