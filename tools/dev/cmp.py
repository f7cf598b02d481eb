import json
a=json.load(open('/tmp/t.json'));b=json.load(open('/opt/vp/BASELINE.json'))
st=set(b.get('stable',b.get('passed')))
print(len(a['passed']),'missing:',sorted(st-set(a['passed'])))
