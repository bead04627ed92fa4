#!/usr/bin/env python3
"""Generates harness/src/gen_.rs (glue between the generic value model and the
crate's public types) from schema/schema.json.  One-off: its output is committed."""
import json, os
here = os.path.dirname(os.path.abspath(__file__))
s = json.load(open(os.path.join(here, '../schema/schema.json')))
NO_FIELD = {'AcousticBeamData', 'AcousticBeamFundamentalParameter', 'AcousticEmitterSystemData',
            'AngularVelocity', 'EmitterSystem', 'Vector3Double', 'VelocityVector'}
LITERAL = {'FixedDatumRecord', 'VariableDatumRecord', 'RecordSpecificationElement',
           'GridAxisDescriptor', 'GridDataRecord'}
LENGTH = set("""AngularVelocity ApaData BeamData DeadReckoningParameters EmitterSystem
EntityCoordinateVector EntityId EntityMarking EntityType EulerAngles EventId
FundamentalOperationalData IFFFundamentalParameterData LayerHeader LinearAcceleration
LinearVelocity PropulsionSystemData SecondaryOperationalData ShaftRPMs SimulationAddress
SimulationIdentifier SystemId VariableParameter Vector3Double VectoringNozzleSystemData
WorldCoordinate""".split())
out = []
w = out.append
w('// Generated by tools/gen.py from schema/schema.json. Do not edit.')
w('#![allow(deprecated, unreachable_patterns, clippy::all)]')
w('use crate::model::*;')
w('use open_dis_rust as odr;')
w('')
W = {1: 'u8', 2: 'u16', 4: 'u32'}
for n, e in s['enums'].items():
    if not e['variants']:
        continue
    arms = ' '.join(f'({c}, {v})' for v, c in e['variants'])
    w(f"conv_enum!({n}, {W[e['width']]}; {arms});")
w('')
for n, b in s['flags'].items():
    w(f"conv_flags!({n}, u{8*b});")
w('')
def fields(p):
    return [(f['name'], i, f['ty']) for i, f in enumerate(p['fields'])]
def vis(t):
    return not (t.startswith('pad:') or t.startswith('align:'))
for r in s['records']:
    path = f"odr::{r['module']}::{r['name']}"
    fl = ', '.join(f'{n}: {i}' for n, i, t in fields(r) if vis(t))
    n = len(r['fields'])
    kind = 'conv_lit' if r['name'] in LITERAL else 'conv_rec'
    w(f"{kind}!({path}, {n}; {fl});")
w('')
for p in s['pdus']:
    path = f"{p['module']}::{p['name']}" if p['module'] == 'crate::custom' else f"odr::{p['module']}::{p['name']}"
    fl = ', '.join(f'{n}: {i}' for n, i, t in fields(p) if vis(t))
    w(f"conv_pdu!({path}, {len(p['fields'])}; {fl});")
w('')
w('pub static ENUMS: &[EnumOps] = &[')
for n, e in s['enums'].items():
    if not e['variants']:
        continue
    io = 'io' if e['field_io'] else 'noio'
    w(f"    enum_ops!({n}, {W[e['width']]}, {e['width']}, {io}),")
w('];')
w('pub static RECS: &[RecOps] = &[')
for r in s['records']:
    path = f"odr::{r['module']}::{r['name']}"
    io = 'noio' if r['name'] in NO_FIELD else 'io'
    ln = 'len' if r['name'] in LENGTH else 'nolen'
    w(f"    rec_ops!({path}, \"{r['name']}\", {io}, {ln}),")
w('];')
w('pub static PDUS: &[PduInfo] = &[')
for p in s['pdus']:
    path = f"{p['module']}::{p['name']}" if p['module'] == 'crate::custom' else f"odr::{p['module']}::{p['name']}"
    w(f"    pdu_info!({path}, \"{p['name']}\"),")
w('];')
ctors = json.load(open(os.path.join(here, '../schema/ctors.json')))
mods = {r['name']: f"odr::{r['module']}::{r['name']}" for r in s['records']}
w('pub static CTORS: &[CtorOps] = &[')
for n, args in ctors['ctors'].items():
    call = ', '.join(f'Conv::from_v(&a[{i}])' for i in range(len(args)))
    paths = ', '.join('&' + json.dumps(a) for a in args)
    v = 'a' if args else '_a'
    w(f"    ctor_ops!({mods[n]}, \"{n}\", Some(&[{paths}]); {v}, <{mods[n]}>::new({call})),")
for n in ctors['defaults']:
    w(f"    ctor_ops!({mods[n]}, \"{n}\", None; _a, <{mods[n]} as Default>::default()),")
w('];')
open(os.path.join(here, '../harness/src/gen_.rs'), 'w').write('\n'.join(out) + '\n')
