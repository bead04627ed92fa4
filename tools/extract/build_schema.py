# One-off: turns the three extractor dumps (/tmp/odr_extract/*.json) into schema/schema.json.
# The committed schema.json is the reviewed specification; checks never re-derive it.
import json,re
D='/tmp/odr_extract/'
pd=json.load(open(D+'pdus.json')); rc=json.load(open(D+'recs.json')); en=json.load(open(D+'enums.json'))
recn={r['name'] for r in rc}
flags={'FrozenBehavior':1,'ObjectStateAppearanceGeneral':2}
prims={'u8','i8','u16','i16','u32','i32','u64','i64','f32','f64'}
def ty(t,width=None):
    if t in prims: return t
    if t in flags: return 'flags:%s:%d'%(t,flags[t])
    if t in en:
        w=width or int(en[t]['w'][0][1:])//8
        return 'enum:%s:%d'%(t,w)
    if t=='String': return 'marking:11'
    m=re.match(r'\[([ui]8);(\d+)\]$',t)
    if m: return 'barr:%s:%s'%(m.group(1),m.group(2))
    if t=='Vec<u8>': return 'bytes'
    m=re.match(r'Vec<Option<(.*)>>$',t)
    if m: return 'optvec:'+ty(m.group(1))
    m=re.match(r'Vec<(.*)>$',t)
    if m: return 'vec:'+ty(m.group(1))
    m=re.match(r'Option<(\w+)>$',t)
    if m and m.group(1) in('AntennaPattern','ModulationParameters'): return 'optbytes:'+m.group(1)
    if t in('GridAxisType','DataRepresentationType'): return 'variant:'+t
    if t in recn: return 'rec:'+t
    raise Exception(t)
out={'enums':{},'flags':flags,'records':[],'pdus':[]}
for n,e in en.items():
    out['enums'][n]={'width':int(e['w'][0][1:])//8,'default':e['default'],'field_io':bool(e['fser']),'variants':e['variants']}
reccount={('AcousticEmitterSystemData','number_of_beams'):'count:beam_records',('AttributeRecord','record_length'):'count:record_specific_fields',('AttributeRecordSet','number_of_attribute_records'):'count:attribute_records',('ElectromagneticEmissionBeamData','number_of_track_jam_targets'):'count:track_jam_targets',('ElectromagneticEmissionSystemData','number_of_beams'):'count:beam_data_records',('RecordSpecification','number_of_record_sets'):'count:record_sets',('StandardVariableRecords','record_length'):'count:record_specific_fields',('StandardVariableSpecification','number_of_standard_variable_records'):'count:standard_variable_records',('VariableTransmitterParameters','record_length'):'count:record_specific_fields',('VariableDatumRecord','length_bits'):'bits:value',('RecordSpecificationElement','record_length'):'prod:record_count,record_values',('GridAxisDescriptor','axis_type'):'tag:data',('GridDataRecord','data_representation'):'tag:data'}
used=set()
for r in rc:
    if r['name'] in('AntennaPattern','ModulationParameters'): continue
    fs=[]
    for v,n,t in r['fields']:
        w={'u8':1,'u16':2,'u32':4}.get(r['enums'].get(n))
        if r['name']=='GridDataRecord' and t.startswith('Gridded'): w=2
        f={'name':n,'ty':ty(t,w)}
        if r['name']=='VariableTransmitterParameters' and n=='record_type': f['ty']='enum:VariableParameterRecordType:4'
        if not v: f['ty']='pad:'+t
        k=(r['name'],n)
        if k in reccount: f['derive']=reccount[k]; used.add(k)
        fs.append(f)
    if r['name']=='VariableDatumRecord': fs.append({'name':'','ty':'align:8'})
    out['records'].append({'name':r['name'],'module':'common::data_types::'+r['file'].split('/')[-1][:-3] if False else None,'fields':fs})
assert used==set(reccount),set(reccount)-used
import glob,os
for r in out['records']:
    for f in glob.glob('/repo/src/common/data_types/*.rs'):
        if re.search(r'pub struct %s\b'%r['name'],open(f).read()): r['module']='common::data_types::'+os.path.basename(f)[:-3]
for p in pd:
    fs=[]
    for n,t,a,v in p['fields']:
        if not v:
            if t=='Vec<u8>': continue      # AggregateState padding: private, always empty
            fs.append({'name':n,'ty':'pad:'+t}); continue
        fs.append({'name':n,'ty':ty(t)})
    ix={f['name']:f for f in fs}
    for n,t,a,v in p['fields']:
        m=re.match(r'#\[(\w+) = (.*)\]$',a)
        if not m: continue
        k,x=m.groups()
        if k=='len': ix[x]['derive']='optlen:'+n
        elif re.match(r'\w+$',x): ix[x]['derive']='count:'+n
        elif 'data_length' in x: ix['data_length']['derive']='bits:'+n
        elif 'intercom_parameters_length' in x: ix['intercom_parameters_length']['derive']='bytes8:'+n
        elif 'secondary' in x: ix['secondary_operational_data']['derive']='sub:number_of_iff_fundamental_parameter_records,'+n
        else: raise Exception(x)
    T={n:c for n,c in en['PduType']['variants']}; F={n:c for n,c in en['ProtocolFamily']['variants']}
    out['pdus'].append({'name':p['name'],'module':os.path.basename(p['file'])[:-3],'type':T[p['pdu_type'].split('::')[-1]],'family':F[p['family'].split('::')[-1]],'fields':fs})
json.dump(out,open('/verif/schema/schema.json','w'),indent=0)
