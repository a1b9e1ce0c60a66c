import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
miss=[x for x in b['stable'] if x not in t['passed']]
print(len(b['stable']),"stable,",len(miss),"not passing",miss[:5]); sys.exit(bool(miss))
