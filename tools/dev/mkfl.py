import sys,json,re
for p in sys.argv[1:]:
    e=json.load(open(f'/verif/evidence/{p}.json'))['coverage']['events_observed']
    fn=f'/verif/vf/checks/{p.lower()}.py'; t=open(fn).read()
    import re as _re
    def r(v,k=''):
        # how often streams and callbacks are called is the library's choice
        loose = p in ('C17','C21','C24') or _re.search(r'stream (reads|writes)|calls|observed|preempt|switches|validator|refusals', k)
        v=int(v*(0.05 if loose else 0.4)); d=10**max(0,len(str(v))-2); return v//d*d
    items=[(k,r(v,k)) for k,v in sorted(e.items()) if not k.startswith('feature ') and k not in ('declarations','oracle_checks') and r(v,k)>0 and not k.startswith('depth ')]
    s="FLOORS = {"; line=s; out=[]
    for k,v in items:
        x=f'"{k}": {v}, '
        if len(line)+len(x)>118: out.append(line.rstrip()); line="          "
        line+=x
    out.append(line.rstrip(", ")+"}")
    t=re.sub(r"FLOORS = \{[^}]*\}", lambda m:"\n".join(out), t, count=1)
    open(fn,'w').write(t); print("\n".join(out))
