import re,json
s=open('/repo/src/common/enums.rs').read()
out={}
for m in re.finditer(r'((?:^[ \t]*#\[[^\n]*\]\n)*)^pub enum (\w+) \{\n(.*?)^\}',s,re.S|re.M):
    attrs,n,b=m.groups()
    cur=-1; vs=[]; d=None; nextd=False
    for line in b.split('\n'):
        t=re.sub(r'//.*','',line).strip()
        if not t: continue
        if t.startswith('#['):
            if t.startswith('#[default]'): nextd=True
            if not t.endswith(']'): print('multi',n,t)
            continue
        mm=re.match(r'(\w+)(?:\s*=\s*([-\w]+))?,?$',t)
        if not mm: print('??',n,repr(t)); continue
        cur=int(mm[2].replace('_',''),0) if mm[2] else cur+1
        vs.append((mm[1],cur))
        if nextd: d=mm[1]; nextd=False
    imp=[x for x in re.findall(r'impl %s \{(.*?)\n\}'%n,s,re.S)]
    w=None
    for x in imp:
        q=re.search(r'from_(u\d+)\(buf\.get_(u\d+)',x)
        if q: w=q.groups()
    fl=re.search(r'impl FieldLen for %s \{.*?(\d+)\n'%n,s,re.S)
    fs=re.search(r'impl FieldSerialize for %s \{.*?put_(u\d+)\((.*?)\);'%n,s,re.S)
    fd=bool(re.search(r'impl FieldDeserialize for %s \{'%n,s))
    out[n]=dict(attrs=attrs,variants=vs,default=d,w=w,flen=int(fl[1]) if fl else None,fser=fs.groups() if fs else None,fd=fd)
json.dump(out,open('enums.json','w'),indent=1)
print(len(out))
for n,e in out.items():
    mx=max(v for _,v in e['variants'])
    if e['w'] is None: print('NOW',n,e['attrs'][:80],[x for x in s.split('impl %s {'%n)[1:2]][0][:300] if ('impl %s {'%n) in s else '')
    else:
        bits=int(e['w'][0][1:]); 
        if e['w'][0]!=e['w'][1]: print('wmis',n)
        if mx>=1<<bits: print('TOO BIG',n,bits,mx,[v for v in e['variants'] if v[1]>=1<<bits][:5], e['fser'])
        if mx<256 and bits>8 : print('  wide',n,bits,mx)
    if e['default'] is None: print('nodefault',n)
    if e['fser'] and (e['flen']*8!=int(e['w'][0][1:]) or e['fser'][0]!=e['w'][0]): print('FS mism',n,e['fser'],e['flen'],e['w'])
    if len(set(v for _,v in e['variants']))!=len(e['variants']): print('dup',n)
