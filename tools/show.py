import json,sys
d=json.load(open(__import__('os').path.dirname(__import__('os').path.dirname(__import__('os').path.abspath(__file__)))+'/evidence/%s.json'%sys.argv[1]))
lo=float(sys.argv[2]) if len(sys.argv)>2 else 0
for k,v in d['coverage']['monitors'].items():
    if v['worst_deviation_over_tolerance']>=lo: print(k,v['judged'],v['worst_deviation_over_tolerance'])
print(d['coverage']['observed_events'],d['coverage']['inconclusive'])
