import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1] if len(sys.argv)>1 else '/tmp/o.json'))
miss=set(b['stable'])-set(o['passed'])
print('baseline missing:',len(miss), list(miss)[:10])
