import json,sys
d=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))
for s in sorted(d['coverage']['scenarios'],key=lambda s:-s.get('wall_s',0))[:12]: print(s['unit'],s['scenario'],s['wall_s'],s['complete'],s['states'])
print(d['wall_s'],d['coverage'].get('compile_s'))
