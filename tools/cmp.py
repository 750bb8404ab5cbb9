import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/o.json'))
print({k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in b.items()}, {k:(v if not isinstance(v,(list,dict)) else len(v)) for k,v in o.items()})
def passed(x):
    for k in ('passed','stable','tests','pass'):
        if k in x: return set(x[k])
print(passed(b)-passed(o))
