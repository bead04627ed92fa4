import re,json,glob
def body(s,i):
    d=1;j=i
    while d:
        d+= s[j]=='{'; d-= s[j]=='}'; j+=1
    return s[i:j-1]
recs=[]
for f in sorted(glob.glob('/repo/src/common/data_types/*.rs')):
    if f.endswith('/mod.rs'): continue
    s=open(f).read().split('#[cfg(test)]')[0]
    s=re.sub(r'//[^\n]*','',s)
    for m in re.finditer(r'pub struct (\w+)\s*(?:<[^>]*>)?\s*\{',s):
        name=m.group(1)
        b=body(s,m.end())
        fields=[(v.strip(),n,re.sub(r'\s+','',t)) for v,n,t in re.findall(r'(pub )?(\w+)\s*:\s*([^,]+),?',re.sub(r'#\[[^\]]*\]','',b))]
        # impl
        im=[body(s,x.end()) for x in re.finditer(r'impl\s+%s\s*\{'%name,s)]
        allim='\n'.join(im)
        def fn(nm,src=allim):
            x=re.search(r'fn %s\b[^{]*\{'%nm,src)
            return re.sub(r'\s+',' ',body(src,x.end())).strip() if x else None
        ser=fn('serialize'); de=fn('deserialize')
        fl=None
        x=re.search(r'impl FieldLen for %s\s*\{'%name,s)
        if x: fl=fn('field_len',body(s,x.end()))
        L=None
        x=re.search(r'impl SerializedLength for %s\s*\{\s*const LENGTH: usize\s*=\s*([^;]+);'%name,s)
        if x: L=x.group(1)
        tr=[t for t in ('FieldSerialize','FieldDeserialize','FieldLen','FieldDeserializeWithLen') if re.search(r'impl %s for %s\b'%(t,name),s)]
        new=re.search(r'fn new\b\s*\(([^)]*)\)',allim)
        # simple?
        exp_s=[];exp_d=[]
        simple=True
        for v,n,t in fields:
            if t in('u8','i8','u16','i16','u32','i32','u64','i64','f32','f64'):
                exp_s.append('buf.put_%s(self.%s);'%(t,n)); exp_d.append('%s: buf.get_%s()'%(n,t))
            else:
                exp_s.append('T self.%s'%n); exp_d.append('%s: %s::deserialize(buf)'%(n,t))
        st=[x.strip()+';' for x in (ser or '').split(';') if x.strip()]
        ok=len(st)==len(exp_s)
        types={}
        if ok:
            for a,b2,(v,n,t) in zip(st,exp_s,fields):
                if b2.startswith('T '):
                    if a=='self.%s.serialize(buf);'%n: continue
                    mm=re.match(r'buf\.put_(u8|u16|u32)\(self\.%s as \1\);'%n,a)
                    if mm: types[n]=mm.group(1);continue
                    ok=False
                elif a!=b2: ok=False
        dex='Self { '+', '.join(exp_d)+', }'
        okd= de==dex
        recs.append(dict(file=f[30:],name=name,fields=fields,ser=ser,de=de,fl=fl,L=L,tr=tr,new=new.group(1) if new else None,simple=ok and okd,enums=types))
        print('##',f[30:].split('/')[-1],name,'SIMPLE' if ok and okd else '','LEN='+str(L),'FL='+str(fl)[:300],'TR=',','.join(x.replace('Field','') for x in tr))
        print('   ',' '.join((('' if v else 'PRIV ')+n+':'+t+('@'+types[n] if n in types else '')) for v,n,t in fields))
        if not ok: print('   SER',ser)
        if not okd: print('   DE',de)
json.dump(recs,open('/tmp/odr_extract/recs.json','w'),indent=1)
