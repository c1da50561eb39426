import json,sys
e=json.load(open('/verif/evidence/%s.json'%sys.argv[1])); c=e['coverage']
for k,v in c['facets'].items(): print(k,{a:b for a,b in v.items() if a!='rule'},c['labels'].get(k))
print(c['known_findings_hit'],e['wall_s'])
