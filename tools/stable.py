"""compare a test.sh result with the stable baseline"""
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','pass','tests'):
        if isinstance(x,dict) and k in x: return x[k]
    return x
st=names(b); ps=names(o)
st=set(st if isinstance(st,list) else st.keys()); ps=set(ps if isinstance(ps,list) else ps.keys())
print('missing:',sorted(st-ps),len(st))
sys.exit(1 if st-ps else 0)
