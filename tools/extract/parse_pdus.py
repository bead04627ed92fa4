import re,json,glob,sys
out=[]
for f in sorted(glob.glob('/repo/src/**/*.rs',recursive=True)):
    s=open(f).read()
    if f.endswith('pdu_macro.rs'): continue
    for m in re.finditer(r'define_pdu!\s*\{',s):
        i=m.end();d=1
        while d:
            c=s[i]
            d+= c=='{'; d-= c=='}'; i+=1
        b=s[m.end():i-1]
        b=re.sub(r'//[^\n]*','',b)
        name=re.search(r'pub struct (\w+)',b).group(1)
        hdr=re.search(r'header:\s*([\w:]+)',b).group(1)
        pt=re.search(r'pdu_type:\s*([\w:]+)',b).group(1)
        pf=re.search(r'protocol_family:\s*([\w:]+)',b).group(1)
        fb=b[b.index('fields:'):]
        fb=fb[fb.index('{')+1:fb.rindex('}')]
        fb=fb[:fb.rindex('}')]
        fl=[(m[2],m[3],(m[0],m[1].strip())) for m in re.findall(r'((?:#\[[^\]]*\]\s*)*)(pub\s+)?(\w+)\s*:\s*([^,]+?)\s*,',fb)]
        fl=[(n,re.sub(r'\s','',t),a[0].strip(),bool(a[1])) for n,t,a in fl]
        assert fb.count(',')==len(fl),(name,fb)
        out.append(dict(file=f,name=name,header=hdr,pdu_type=pt,family=pf,fields=fl))
json.dump(out,open('/tmp/odr_extract/pdus.json','w'),indent=1)
for p in out:
    print(p['file'][10:],p['name'],p['header'],p['pdu_type'].split('::')[-1],p['family'].split('::')[-1])
    print('   ',' '.join((a+' ' if a else '')+n+':'+t for n,t,a,v in p['fields'] if not v or a))
print(len(out))
