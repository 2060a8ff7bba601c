#!/usr/bin/env python3
"""Generates /verif/sim/harness/src/catalog.rs: the structs the simulations run on - one or more declarations per
documented form of a fieldx struct - with an `Obj` implementation each, so that plans can drive them uniformly."""
import os, re, sys

DECL = 9_000_000
structs = []

class F:
    """name, kind (L lazy, O optional, E eager), declaration args, ops letters:
       h has, g get, r reader, m get_mut, w writer, s set, c clear.  Upper case = needs &mut self."""
    def __init__(s, name, k, args, ops, **kw):
        s.name=name; s.k=k; s.args=args; s.ops=ops
        s.ty=kw.get('ty','Val'); s.own=kw.get('own',False); s.fal=kw.get('fal',False); s.into=kw.get('into',False)
        s.a=kw.get('a',None); s.lock=kw.get('lock',None); s.cell=kw.get('cell',False); s.dflt=kw.get('dflt',None)
        s.bset=kw.get('bset',None); s.binto=kw.get('binto',False); s.breq=kw.get('breq',None)
        s.ser=kw.get('ser',None); s.de=kw.get('de',None); s.dedflt=kw.get('dedflt',None)
        s.as_ref=kw.get('as_ref',False); s.builder=kw.get('builder',None); s.h=kw.get('h',None) or name
        s.key=kw.get('key',name); s.names=kw.get('names',{}); s.noattr=kw.get('noattr',False); s.bname=kw.get('bname',None); s.direct=kw.get('direct','')

def S(name, mode, args, fields, **kw):
    structs.append(dict(name=name, mode=mode, args=args, fields=fields, **kw))

ALL_L='hgrmwsc'
def dflt_txt(kw):
    if kw.get('ty')=='String': return 'default("V<%d>")'%kw['dflt']
    return 'default(%s(%d))'%({'Cid':'cd','Big':'bd'}.get(kw.get('ty'),'vd'),kw['dflt'])
def L(name, extra='', ops=ALL_L, **kw):
    parts={'h':'predicate','g':'get','r':'reader','m':'get_mut','w':'writer','s':'set','c':'clearer'}
    a=['lazy'] if not kw.get('builder') else ['lazy("%s")'%kw['builder']]
    for o in ops.replace('t',''):
        p=parts[o.lower()]
        if p=='get' and kw.get('getarg'): p='get(%s)'%kw['getarg']
        if p=='set' and kw.get('into'): p='set(into)'
        a.append(p)
    if kw.get('fal'): a.append('fallible(error(Er))')
    if isinstance(kw.get('dflt'),int) and not kw.get('nodflt'): a.append(dflt_txt(kw))
    if extra: a.append(extra)
    kw['own']=kw.get('getarg') in ('clone','copy')
    return F(name,'L',', '.join(a),ops,**kw)
def O(name, extra='', ops=ALL_L, kind='O', first='optional', **kw):
    parts={'h':'predicate','g':'get','r':'reader','m':'get_mut','w':'writer','s':'set','c':'clearer'}
    a=[first] if first else []
    for o in ops.replace('t',''):
        p=parts[o.lower()]
        if p=='get' and kw.get('getarg'): p='get(%s)'%kw['getarg']
        if p=='set' and kw.get('into'): p='set(into)'
        a.append(p)
    if isinstance(kw.get('dflt'),int) and not kw.get('nodflt'): a.append(dflt_txt(kw))
    if extra: a.append(extra)
    kw['own']=kw.get('getarg') in ('clone','copy')
    return F(name,kind,', '.join(a),ops,**kw)
def E(name, extra='', ops='grmws', **kw):
    return O(name,extra,ops,kind='E',first=kw.pop('first','lock'),**kw)

D=DECL
CED='Clone, PartialEq, Eq, Debug'
# ---- sync ----
S('S01','sync','sync',[L('a'),L('b',getarg='clone'),L('c',ty='Cid',getarg='copy')],derive=CED)
S('S02','sync','sync',[L('a',fal=True),L('b',fal=True,getarg='clone'),L('c')],derive='Clone, Debug')
S('S03','sync','sync, builder',[L('a',dflt=D+1,into=True),L('b','builder(into)',binto=True,into=True),L('c',dflt=D+3,ty='Cid',getarg='copy')],derive='Clone, Debug')
S('S04','sync','sync, lazy, get, set, predicate, clearer, reader, writer, get_mut',[
   F('a','L','',ALL_L,noattr=True),F('b','L','get(clone)',ALL_L,own=True),F('c','L','fallible(error(Er))',ALL_L,fal=True),F('d','L','',ALL_L,noattr=True)],derive='Debug')
S('S05','sync','sync',[O('a'),O('b',getarg='clone'),O('c',ty='Cid',getarg='copy')],derive=CED)
S('S06','sync','sync',[E('a'),E('b',getarg='clone',dflt=D+2),E('c',ty='Cid',getarg='copy'),E('d',into=True,first='',ops='grws')],derive=CED)
S('S07','sync','sync, builder',[L('a'),O('b'),E('c'),E('e',ops='gMS',first='',lock=False),O('f','lock(off)',ops='hgMS',lock=False),L('g',fal=True)],derive='Clone, Debug')
S('S08','sync','sync, lock, get, get_mut, set, reader, writer',[F('a','E','','grmws',noattr=True),F('b','E','get(clone)','grmws',own=True),O('c',ops='hgrmwsc')],derive='Clone, PartialEq, Debug')
S('S09','sync','sync, builder',[L('a',ty='T'),O('b',ty='T'),E('c',ty='T',bset=True),L('d',ty='T',fal=True)],generic=True,derive='Clone, Debug')
S('S10','sync','sync, rc, builder',[L('a'),L('b',fal=True),O('c'),E('d',dflt=D+4,breq=False)],rc=True,derive='Debug')
S('S11','sync','sync, rc',[L('a'),L('b',getarg='clone')],rc=True,derive='')
S('S12','sync','sync',[L('a')],derive=CED)
S('S13','sync','sync',[O('a')],derive=CED)
S('S14','sync','sync',[E('a')],derive=CED)
S('S15','sync','sync, serde',[L('a'),L('b',getarg='clone'),L('c',ty='Cid',getarg='copy')],derive='Clone, Debug',serde=True)
S('S16','sync','sync, builder, serde("S16Dup", default)',[L('a'),L('b',fal=True),O('c'),E('d'),E('e',first='',ops='g',lock=False),
   L('f','serde(off)',ser=False,de=False),E('g','serde(default(vd(%d)))'%(D+16),dflt=D+17,dedflt=D+16),
   O('j','serde(deserialize(off))',de=False),L('k','serde(deserialize(off))',dflt=D+18,de=False)],derive='Clone, Debug',serde=True,de_struct_default=True)
S('S17','sync','sync, serde',[E('a'),O('b'),L('c',dflt=D+5),E('d','serde(default(vd(%d)))'%(D+19),dedflt=D+19)],derive='Clone, Debug',serde=True)
S('S18','sync','sync, builder(post_build(fixup))',[L('a'),O('b','builder(required)',breq=True),E('c',bset=True),E('d',dflt=D+6),L('e','builder(required)',breq=True),O('f',dflt=D+20)],post=True,derive='Debug')
S('S19','sync','sync, builder(error(BErr), post_build(fixup))',[L('a','builder(into)',binto=True),O('b'),E('c','builder(into)',binto=True)],post='f',err='BErr',derive='Debug')
S('S20','sync','sync, rc, builder(post_build(fixup))',[L('a'),O('b'),E('c')],post=True,rc=True,derive='Debug')
S('S21','mixed','sync',[L('a'),L('b','r#async',a=True),O('c'),O('d','r#async',ops='hrwsc',a=True)],derive='Debug')
S('S22','sync','sync, lazy, predicate, clearer',[F('a','L','get, set','hgsc'),F('b','L','lazy("make_b"), get, writer','hgwc',builder='make_b'),F('c','E','lazy(off), predicate(off), clearer(off), lock, get, set','gs')],derive='Debug')
S('S23','sync','sync',[L('a','rename("alpha")',h='alpha'),O('b','rename("beta")',h='beta'),E('c',ops='grws')],derive='Debug')
S('S24','sync','sync',[O('a','inner_mut',ops='hgmsc',first='optional',cell=True),E('b',first='inner_mut',ops='gms',cell=True),L('c')],derive='Clone, Debug',box=True)
S('S25','sync','sync, builder(into), into',[L('a',ops='hgsc',binto=True),O('b',ops='hgsc',binto=True),E('c',ops='gs',binto=True)],derive='Debug',all_into=True)
S('S26','sync','sync, builder(error(BErr, BErr::Unset))',[E('a',breq=True),O('b','builder(required)',breq=True),L('c')],err='BErr',derive='Debug')
S('S27','sync','sync, optional, get, set, clearer, predicate, writer',[F('a','O','','hgwsc',noattr=True),F('b','O','get(clone)','hgwsc',own=True)],derive='Clone, PartialEq, Debug')
S('S28','sync','sync, fallible(error(Er)), lazy, get, clearer, predicate',[F('a','L','set','hgsc',fal=True),F('b','L','get_mut, reader','hgmrc',fal=True)],derive='Debug')
S('S29','sync','sync, serde',[O('a',dflt=D+24),O('b','rename("beta")',h='beta',key='beta',dflt=D+25),L('c','rename("gamma")',h='gamma',key='gamma'),E('d',dflt=D+26)],derive='Clone, PartialEq, Debug',serde=True)
S('S30','sync','sync, serde("S30Dup", default(Self::sdef()))',[O('a',dedflt=D+30),L('b',dedflt=D+31),E('c',dedflt=D+32),O('d',ops='hgsc')],derive='Clone, Debug',serde=True,
  raw="""pub struct Sd30;
impl S30 { fn sdef() -> Sd30 { Sd30 } }
impl From<Sd30> for S30Dup { fn from(_: Sd30) -> S30Dup { S30Dup { a: Some(vd(%d)), b: Some(vd(%d)), c: vd(%d), d: None } } }
"""%(D+30,D+31,D+32),oid_plain=True)
S('S31','sync','sync, no_new, default, predicate, clearer',[F('a','L','lazy, get, set, default(vd(%d))'%(D+33),'hgsc',dflt=D+33),F('b','O','get, writer','hgwc'),F('c','E','predicate(off), clearer(off), lock, get, set, default(vd(%d))'%(D+34),'gs',dflt=D+34)],derive='Clone, Debug',no_new=True)
S('S32','sync','sync, builder("with_", opt_in)',[L('a','builder'),O('b'),E('c','builder(into)',binto=True),L('d',bset=False),E('e',bset=False,breq=False)],bprefix='with_',optin=True,derive='Clone, Debug')
S('S33','sync','sync, get, set',[F('a','O','predicate','hgs'),F('b','O','clearer, writer','gwsc'),F('c','L','lazy, clearer, get_mut','gmsc')],derive='Clone, PartialEq, Debug')
S('S34','sync','mode(sync), serde(deserialize(off))',[L('a'),O('b'),E('c'),L('d','serde(off)',ser=False)],derive='Clone, Debug',serde=True,node=True)
S('S35','sync','sync, serde, builder',[L('a',fal=True),L('b',dflt=D+35),L('c','serde(default(vd(%d)))'%(D+36),dedflt=D+36),O('d','serde(default(vd(%d)))'%(D+37),dedflt=D+37,dflt=D+38)],derive='Clone, Debug',serde=True)
S('S36','sync','sync, rc, builder(into), lazy, get, predicate, clearer',[F('a','L','writer','hgwc',binto=True),F('b','L','get(clone), writer, fallible(error(Er))','hgwc',own=True,fal=True,binto=True)],rc=True,derive='Debug')
S('S37','sync','sync, serde(default), builder',[O('a',dflt=D+60),L('b',dflt=D+61,fal=True),E('c',dflt=D+62),O('d','serde(default(vd(%d)))'%(D+63),dflt=D+64,dedflt=D+63),O('e')],derive='Clone, PartialEq, Debug',serde=True,de_struct_default=True)
S('S38','sync','sync, builder, serde',[L('a'),O('b'),E('c'),L('d',fal=True),L('e',getarg='clone'),O('f',getarg='clone'),L('g',dflt=D+80),L('h',ops='grw'),O('i',ops='hwc'),L('j'),E('k'),L('l',fal=True,getarg='clone'),L('m'),O('n')],derive='Clone, PartialEq, Debug',serde=True)
# ---- async ----
S('A01','async','r#async',[L('a'),L('b',getarg='clone'),L('c',ty='Cid',getarg='copy')],derive='Debug')
S('A02','async','r#async',[L('a',fal=True),L('b',fal=True,getarg='clone'),L('c')],derive='Debug')
S('A03','async','r#async, builder',[L('a',dflt=D+1,into=True),L('b','builder(into)',binto=True,into=True)],derive='Debug')
S('A04','async','r#async, lazy, get, set, predicate, clearer, reader, writer, get_mut',[
   F('a','L','',ALL_L,noattr=True),F('b','L','get(clone)',ALL_L,own=True),F('c','L','fallible(error(Er))',ALL_L,fal=True)],derive='Debug')
S('A05','async','r#async',[O('a',ops='hgrwsc'),O('b',ops='hrwsc')],derive='Clone, Debug')
S('A06','async','r#async',[E('a',ops='grws'),E('b',ops='rws',dflt=D+2,into=True)],derive='Clone, Debug')
S('A07','async','r#async, builder',[L('a'),O('b',ops='hgrwsc'),E('c',ops='grws'),E('e',ops='gMS',first='',lock=False),L('g',fal=True)],derive='Debug')
S('A08','async','r#async',[L('a',ty='T'),O('b',ty='T',ops='hgrwsc'),L('d',ty='T',fal=True)],generic=True,derive='Debug')
S('A09','async','r#async, rc, builder',[L('a'),L('b',fal=True),O('c',ops='hgrwsc')],rc=True,derive='Debug')
S('A10','async','r#async',[E('a',ops='grws')],derive='Clone, PartialEq, Debug')
S('A11','async','r#async, builder(post_build(fixup))',[L('a'),O('b','builder(required)',ops='hgrwsc',breq=True),E('c',ops='grws',bset=True)],post=True,derive='Debug')
S('A12','async','r#async',[L('a'),L('b','',ops='hgc'),O('c',ops='hrwsc'),E('d',ops='gMS',first='',lock=False),O('e','lock(off)',ops='hgMS',lock=False)],derive='Debug')
S('A13','async','r#async, lazy, predicate, clearer',[F('a','L','get, set','hgsc'),F('b','L','lazy("make_b"), get, writer','hgwc',builder='make_b')],derive='Debug')
S('A14','async','r#async, serde',[O('a',ops='hgrwsc'),E('b',ops='grws')],derive='Clone',serde=True)
S('A15','async','r#async',[O('a',ops='hgrwsc')],derive='Clone, PartialEq, Debug')
S('A16','async','mode(async), builder("with_", opt_in)',[L('a','builder',dflt=D+40),O('b',ops='hgrwsc',dflt=D+41),E('c','builder(into)',ops='grws',binto=True),L('d',fal=True,bset=False)],bprefix='with_',optin=True,derive='Debug')
S('A17','async','r#async, rc, builder(post_build(fixup))',[L('a'),O('b',ops='hrwsc'),E('c',ops='grws')],post=True,rc=True,derive='Debug')
S('A18','async','r#async, no_new, default, predicate, clearer',[F('a','L','lazy, get, set','hgsc'),F('b','O','reader, writer, set','hrwsc'),F('c','L','lazy, get(clone), writer, default(vd(%d))'%(D+42),'hgwc',own=True,dflt=D+42)],derive='Debug',no_new=True)
S('A19','mixed','r#async',[L('a'),O('c',ops='hrwsc'),L('d',fal=True,getarg='clone'),E('e',ops='rws')],derive='Debug')
S('A20','async','r#async, serde(serialize(off)), builder',[L('a'),O('b',ops='hgrwsc'),L('c','serde(default(vd(%d)))'%(D+65),dflt=D+66,dedflt=D+65,fal=True),E('d',ops='grws')],derive='Debug',serde=True,noser=True)
S('A21','async','r#async, builder',[L('a'),O('b',ops='hgrwsc'),E('c',ops='grws'),L('d',fal=True),L('e',getarg='clone'),O('f',ops='hrwsc'),L('g',dflt=D+81),L('h',ops='grw'),O('i',ops='hwc'),L('j'),E('k',ops='grws'),L('l',fal=True,getarg='clone')],derive='Debug')
# ---- plain ----
PL='hgMSC'
def p(k,name,extra='',ops=None,**kw):
    if k=='L': return L(name,extra,ops or PL,**kw)
    if k=='O': return O(name,extra,ops or PL,**kw)
    return E(name,extra,ops or 'gMS',first='',**kw)
S('P01','plain','',[p('L','a'),p('L','b',getarg='clone'),p('L','c',ty='Cid',getarg='copy'),p('L','d',into=True)],derive=CED)
S('P02','plain','',[p('L','a',fal=True),p('L','b',fal=True,getarg='clone'),p('L','c')],derive='Clone, Debug')
S('P03','plain','builder',[p('L','a',dflt=D+1,into=True),p('L','b','builder(into)',binto=True,into=True),p('O','c',dflt=D+3),p('E','d',dflt=D+4)],derive='Clone, Debug')
S('P04','plain','lazy, get, set, predicate, clearer, get_mut',[F('a','L','',PL,noattr=True),F('b','L','get(clone)',PL,own=True),F('c','L','fallible(error(Er))',PL,fal=True)],derive='Clone, Debug')
S('P05','plain','',[p('O','a'),p('O','b',getarg='clone'),p('O','c',ty='Cid',getarg='copy'),p('O','d','get(as_ref)',ops='hMSC',as_ref=True)],derive=CED)
S('P06','plain','',[p('E','a'),p('E','b',getarg='clone',dflt=D+2),p('E','c',ty='Cid',getarg='copy'),p('E','d',into=True)],derive=CED)
IM='hgmsc'
S('P07','plain','',[O('a','inner_mut',IM,cell=True),O('b','inner_mut',IM,getarg='clone',cell=True),E('c','inner_mut',ops='gms',first='',cell=True),E('d','inner_mut',ops='gms',ty='Cid',getarg='copy',first='',cell=True,dflt=D+7),p('L','e')],derive='Clone, Debug')
S('P08','plain','',[p('L','a',ty='T'),p('O','b',ty='T'),p('E','c',ty='T')],generic=True,derive='Clone, Debug')
S('P09','plain','rc, builder',[L('a','',ops='hg'),L('b','',ops='hg',fal=True),O('c','inner_mut',IM,cell=True),E('d','inner_mut',ops='gms',first='',cell=True,dflt=D+8,breq=False)],rc=True,derive='Debug')
S('P10','plain','builder(post_build(fixup))',[p('L','a'),p('O','b','builder(required)',breq=True),p('E','c',bset=True),p('E','d',dflt=D+6),p('O','e',dflt=D+21)],post=True,derive='Debug')
S('P11','plain','builder(error(BErr), post_build(fixup))',[p('L','a','builder(into)',binto=True),p('O','b'),p('E','c','builder(into)',binto=True)],post='f',err='BErr',derive='Debug')
S('P12','plain','serde',[p('L','a'),p('L','b',fal=True),p('O','c'),p('E','d'),p('L','f','serde(off)',ser=False,de=False)],derive='Clone, Debug',serde=True)
S('P13','plain','builder, serde("P13Dup", default)',[p('L','a',dflt=D+9),p('O','c'),p('E','d','serde(default(vd(%d)))'%(D+22),dflt=D+23,dedflt=D+22),
   p('O','j','serde(deserialize(off))',de=False),E('m','inner_mut',ops='gms',first='',cell=True),O('n','inner_mut',IM,cell=True)],derive='Clone, Debug',serde=True,de_struct_default=True)
S('P14','plain','lazy, predicate, clearer',[F('a','L','get, set','hgSC'),F('b','L','lazy("make_b"), get, get_mut','hgMC',builder='make_b'),F('c','E','lazy(off), predicate(off), clearer(off), get, set','gS',lock=False)],derive='Clone, Debug')
S('P15','plain','rc',[L('a','',ops='hg'),L('b','',ops='hg',getarg='clone')],rc=True,derive='',rcself=True)
S('P16','plain','builder(into), into, builder(error(BErr, BErr::Unset))' if False else 'builder(error(BErr, BErr::Unset), into), into',[p('L','a',ops='hgSC',binto=True),p('O','b','builder(required)',ops='hgSC',binto=True,breq=True),p('E','c',ops='gS',binto=True,breq=True)],err='BErr',derive='Debug',all_into=True)

S('P17','plain','serde',[p('O','a',dflt=D+50),p('L','b',dflt=D+51),p('E','c',dflt=D+52),O('d','inner_mut',IM,cell=True,dflt=D+53),p('O','e','rename("epsilon")',h='epsilon',key='epsilon'),p('L','f','serde(default(vd(%d)))'%(D+54),dedflt=D+54)],derive='Clone, PartialEq, Debug',serde=True)
S('P18','plain','no_new, default, get, set, predicate, clearer',[F('a','L','lazy, default(vd(%d))'%(D+55),'hgSC',dflt=D+55),F('b','O','get_mut','hgMSC'),F('c','E','predicate(off), clearer(off)','gS')],derive='Clone, PartialEq, Debug',no_new=True)
S('P19','plain','builder("with_", opt_in)',[p('L','a','builder'),p('O','b',bset=False),p('E','c','builder(into)',binto=True),p('O','d','builder(required)',breq=True,bset=True)],bprefix='with_',optin=True,derive='Clone, Debug')
S('P20','plain','serde("P20Dup", default(Self::sdef()))',[p('O','a',dedflt=D+56),p('L','b',dedflt=D+57),p('E','c',dedflt=D+58),p('O','d')],derive='Clone, Debug',serde=True,
  raw="""pub struct Sd20;
impl P20 { fn sdef() -> Sd20 { Sd20 } }
impl From<Sd20> for P20Dup { fn from(_: Sd20) -> P20Dup { P20Dup { a: Some(vd(%d)), b: Some(vd(%d)), c: vd(%d), d: None } } }
"""%(D+56,D+57,D+58),oid_plain=True)
S('P21','plain','rc, builder(into)',[O('a','inner_mut',IM,cell=True,binto=True),E('b','inner_mut',ops='gms',first='',cell=True,binto=True)],rc=True,derive='Debug')
S('P22','plain','inner_mut, get, get_mut, set, builder',[F('a','E','get(clone)','gms',cell=True,own=True),F('b','O','optional, predicate, clearer','hgmsc',cell=True),F('c','E','default(cd(%d)), get(copy)'%(D+59),'gms',ty='Cid',own=True,cell=True,dflt=D+59)],derive='Clone, PartialEq, Debug')
S('P23','plain','serde(default)',[p('O','a',dflt=D+70),p('L','b',dflt=D+71),p('E','c',dflt=D+72),O('d','inner_mut',IM,cell=True,dflt=D+73),p('O','e')],derive='Clone, PartialEq, Debug',serde=True,de_struct_default=True)
S('P24','plain','builder, serde',[p('L','a'),p('O','b'),p('E','c'),p('L','d',fal=True),p('L','e'),O('f','inner_mut',IM,cell=True),p('L','g',dflt=D+82),p('O','h'),p('O','i'),p('L','j'),p('E','k'),p('L','l',fal=True)],derive='Clone, PartialEq, Debug',serde=True)

OFFS=', '.join(o+'(off)' for o in ['lazy','get','get_mut','set','predicate','clearer','reader','writer','lock','optional','builder'])
# ---- other ways of saying it: field-level modes, names, prefixes, struct-level clone/copy/fallible, wider generics ----
S('S39','sync','',[L('a','sync'),O('b','sync'),E('c','sync'),L('d','sync',fal=True,getarg='clone'),E('e',first='',ops='g',lock=False),E('f',first='sync',ops='rws'),E('g',first='sync',ops='ws')],derive='Clone, Debug')
PFX=dict(h='is_',g='get_',r='rd_',m='mut_',w='wr_',s='put_',c='reset_')
S('S40','sync','sync, get("get_"), set("put_"), clearer("reset_"), predicate("is_"), reader("rd_"), writer("wr_"), get_mut("mut_"), builder("give_")',[
   F('a','L','lazy',ALL_L),F('b','O','optional',ALL_L),F('c','E','lock, clearer(off), predicate(off)','grmws'),F('d','L','lazy, fallible(error(Er)), get(clone)',ALL_L,fal=True,own=True)],prefix=PFX,bprefix='give_',derive='Clone, Debug')
def named(f):
    m=dict(h='there_',g='the_',r='peek_',m='edit_',w='hold_',s='swap_',c='drop_')
    return dict(names={k:v+f for k,v in m.items()},txt=', '.join('%s("%s%s")'%(a,m[k],f) for k,a in dict(h='predicate',r='reader',m='get_mut',w='writer',s='set',c='clearer').items()),g='get("the_%s"'%f)
N=lambda f,k,args,ops=ALL_L,get='',**kw: F(f,k,', '.join(x for x in [args,named(f)['g']+(', '+get if get else '')+')',named(f)['txt'] if k!='E' else ', '.join(y for y in named(f)['txt'].split(', ') if not y.startswith(('pred','clear')))] if x),ops,names=named(f)['names'],own=bool(get),**kw)
S('S41','sync','sync, builder',[N('a','L','lazy("mk_a"), builder("hand_a")',builder='mk_a',bname='hand_a'),N('b','O','optional, builder("hand_b", into)',bname='hand_b',binto=True),N('c','E','lock','grmws'),N('d','L','lazy, fallible(error(Er))',fal=True,get='clone')],derive='Clone, PartialEq, Debug')
S('S42','sync','sync, lazy, clone, get, set, predicate, clearer, writer',[F('a','L','','hgwsc',noattr=True,own=True),F('b','L','fallible(error(Er))','hgwsc',own=True,fal=True),F('c','L','copy','hgwsc',ty='Cid',own=True),F('d','O','lazy(off), optional','hgwsc',own=True)],derive='Clone, Debug')
S('S43','sync','sync, fallible(off, error(Er)), builder(into)',[L('a',''),L('b','fallible',binto=True),L('c','fallible(on)' if False else 'fallible',getarg='clone',binto=True),O('d',binto=True)],derive='Debug')
for f in structs[-1]['fields']:
    f.binto=True
    if 'fallible' in f.args: f.fal=True
XF=['    #[fieldx(%s, default(std::marker::PhantomData))]'%OFFS,"    mark: std::marker::PhantomData<[u8; N]>,"]
G3=dict(tp="<T, N>",ti="<T: GenV, const N: usize>",conc="<Val, 3>",decl="<T: GenV, const N: usize>",where=" where T: Clone",obj_i="<T: GenV, const N: usize>")
S('S44','sync','sync, builder',[L('a',ty='T'),O('b',ty='T'),E('c',ty='T',bset=True),L('d',ty='T',fal=True)],xf=XF,generic=G3,derive='Clone, Debug')
S('S45','sync','sync, serde, builder',[L('a','serde("first")',key='first'),O('b','rename("bee"), serde("second")',h='bee',key='second',dflt=D+90),E('c','serde("third", default(vd(%d)))'%(D+91),key='third',dedflt=D+91,dflt=D+92),L('d','serde("fourth")',fal=True,key='fourth')],derive='Clone, Debug',serde=True)
S('S46','sync','sync, rc("me"), builder',[L('a'),O('b'),L('c',fal=True),E('d',dflt=D+93,breq=False)],rc=True,rcname='me',derive='Debug')
S('S47','sync','sync, optional, lock, reader, writer, clone, get, set, clearer, predicate, into',[F('a','O','','hgrwsc',noattr=True,own=True,into=True),F('b','O','copy','hgrwsc',ty='Cid',own=True,into=True),F('c','O','set(into(off))' if False else 'into(off)','hgrwsc',own=True)],derive='Clone, PartialEq, Debug')
S('A22','async','r#async, get("get_"), set("put_"), clearer("reset_"), predicate("is_"), reader("rd_"), writer("wr_"), builder("give_")',[
   F('a','L','lazy','hgrwsc'),F('b','O','optional','hgrwsc'),F('c','E','lock, clearer(off), predicate(off)','grws'),F('d','L','lazy, fallible(error(Er)), get(clone)','hgrwsc',fal=True,own=True)],prefix=PFX,bprefix='give_',derive='Debug')
S('A23','async','',[L('a','r#async'),L('b','r#async',fal=True),O('c','r#async',ops='hgrwsc'),E('d',first='r#async',ops='grws')],derive='Debug')
S('A24','async','r#async, fallible(off, error(Er)), lazy, clone, get, set, predicate, clearer',[F('a','L','','hgsc',noattr=True,own=True),F('b','L','fallible','hgsc',fal=True,own=True),F('c','L','copy','hgsc',ty='Cid',own=True)],derive='Debug')
S('A25','async','r#async, rc("me")',[N('a','L','lazy("mk_a")',builder='mk_a'),N('d','L','lazy, fallible(error(Er))',fal=True,get='clone')],rc=True,rcname='me',derive='Debug')
S('P25','plain','get("get_"), set("put_"), clearer("reset_"), predicate("is_"), get_mut("mut_"), builder("give_")',[
   F('a','L','lazy',PL),F('b','O','optional',PL),F('c','E','clearer(off), predicate(off)','gMS'),F('d','L','lazy, fallible(error(Er)), get(clone)',PL,fal=True,own=True),F('e','O','optional, inner_mut',IM,cell=True)],prefix=PFX,bprefix='give_',derive='Clone, Debug')
S('P26','plain','clone, get, set, predicate, clearer, fallible(off, error(Er)), into, builder',[F('a','L','lazy','hgSC',own=True,binto=True),F('b','L','lazy, fallible','hgSC',own=True,fal=True,binto=True),F('c','O','copy','hgSC',ty='Cid',own=True,binto=True),F('d','O','optional, into(off)','hgSC',own=True),F('e','O','inner_mut','hgsc',cell=True,own=True,binto=True)],derive='Clone, PartialEq, Debug')
S('P27','plain','builder',[p('L','a',ty='T'),p('O','b',ty='T'),p('E','c',ty='T',bset=True),O('d','inner_mut',IM,cell=True,ty='T')],xf=XF,generic=G3,derive='Clone, Debug')
S('P28','plain','serde, builder',[p('L','a','serde("first")',key='first'),p('O','b','rename("bee"), serde("second")',h='bee',key='second',dflt=D+94),p('E','c','serde("third", default(vd(%d)))'%(D+95),key='third',dedflt=D+95,dflt=D+96),O('d','inner_mut, serde("fourth")',IM,cell=True,key='fourth')],derive='Clone, Debug',serde=True)
S('P29','plain','rc("me"), get, get_mut, set',[F('a','E','inner_mut','gms',cell=True),F('b','O','inner_mut, optional, clearer, predicate','hgmsc',cell=True),F('c','O','inner_mut, clearer','gmsc',cell=True)],rc=True,rcname='me',derive='Debug')

ALL_T=ALL_L+'t'
# ---- the containers used directly, as documented, next to the helpers ----
S('S48','sync','sync',[L('a',ops=ALL_T,direct=ALL_T),L('b',ops=ALL_T,fal=True,direct=ALL_T),O('c',direct=ALL_L),E('d',direct='grmws'),L('e',ops='hgsct',direct='ts',fal=True),O('f','lock',ops='hgrwsc',direct='wc')],derive='Clone, PartialEq, Debug')
S('A26','async','r#async',[L('a',ops=ALL_T,direct=ALL_T),L('b',ops=ALL_T,fal=True,direct=ALL_T),O('c',ops='hgrwsc',direct='hgrwsc'),E('d',ops='grws',direct='grws'),L('e',ops='hgsct',direct='ts',fal=True)],derive='Debug')
# ---- rarer spellings ----
S('S49','sync','sync, serde(attributes(serde(deny_unknown_fields)), default("Self::sdef")), builder',[L('a',dedflt=D+100),O('b',dedflt=D+101),E('c',dedflt=D+102),L('d','builder(required)',breq=True,fal=True,dedflt=D+106)],derive='Clone, Debug',serde=True,deny=True,
  raw="""impl S49 { fn sdef() -> Self { let x = S49::builder().a(vd(%d)).b(vd(%d)).c(vd(%d)).d(vd(%d)).build().unwrap(); x } }
"""%(D+100,D+101,D+102,D+106),oid_plain=True)
S('S50','sync','sync, builder(post_build)',[L('a'),O('b'),E('c','default',dflt='DEFAULT_ID'),E('d','default',getarg='clone',dflt='DEFAULT_ID')],post=True,postname='post_build',derive='Clone, Debug')
S('S51','sync','sync, public(crate), attributes_impl(allow(dead_code)), builder(attributes(derive(Clone)), attributes_impl(allow(unused)), public), serde(public, attributes(derive(Clone)))',[
  L('a','attributes_fn(inline), private'),O('b','public'),E('c'),L('d','public(crate)',getarg='clone')],derive='Clone, Debug',serde=True)
S('A27','mixed','r#async',[L('a'),L('b','mode(sync)',a=False),O('c','mode(sync)',ops='hgrmwsc',a=False),O('d',ops='hgrwsc'),L('e','mode(sync)',fal=True,a=False)],derive='Debug')
S('P30','plain','sync',[p('L','a','mode(plain)'),p('O','b','mode(plain)'),p('E','c','mode(plain)'),p('L','d','mode(plain)',fal=True,getarg='clone')],derive='Clone, PartialEq, Debug')
S('P31','plain','mode(plain), builder(post_build), default',[p('L','a'),p('O','b'),p('E','c','default',dflt='DEFAULT_ID'),E('d','inner_mut, default',ops='gms',first='',cell=True,dflt='DEFAULT_ID')],post=True,postname='post_build',derive='Clone, PartialEq, Debug')
S('P32','plain','serde(attributes(serde(deny_unknown_fields)), default("Self::sdef")), builder',[p('L','a',dedflt=D+103),p('O','b',dedflt=D+104),p('E','c',dedflt=D+105),O('d','inner_mut',IM,cell=True)],derive='Clone, Debug',serde=True,deny=True,
  raw="""impl P32 { fn sdef() -> Self { P32::builder().a(vd(%d)).b(vd(%d)).c(vd(%d)).build().unwrap() } }
"""%(D+103,D+104,D+105),oid_plain=True)

# ---- large values ----
S('S52','sync','sync, builder, serde',[L('a',ty='Big'),O('b',ty='Big'),E('c',ty='Big'),L('d',ty='Big',fal=True,getarg='clone'),O('e',ty='Big',getarg='clone',dflt=D+110)],derive='Clone, PartialEq, Debug',serde=True)
S('S53','sync','sync, rc, builder(into), lazy, get, set(into), predicate, clearer',[F('a','L','writer','hgwsc',ty='Big',binto=True,into=True),F('b','L','writer, fallible(error(Er))','hgwsc',ty='Big',fal=True,binto=True,into=True)],rc=True,derive='Debug')
S('S54','sync','sync, builder',[L('a',ty='T'),O('b',ty='T'),E('c',ty='T',bset=True),L('d',ty='T',fal=True)],generic=True,big=True,derive='Clone, Debug')
S('A28','async','r#async, builder',[L('a',ty='Big'),O('b',ty='Big',ops='hgrwsc'),E('c',ty='Big',ops='grws'),L('d',ty='Big',fal=True,getarg='clone')],derive='Debug')
S('P33','plain','builder, serde',[p('L','a',ty='Big'),p('O','b',ty='Big'),p('E','c',ty='Big'),p('L','d',ty='Big',fal=True,getarg='clone'),O('e','inner_mut',IM,ty='Big',cell=True),E('f','inner_mut',ops='gms',ty='Big',first='',cell=True,getarg='clone')],derive='Clone, PartialEq, Debug',serde=True)

# ---- text values, string literals as defaults ----
S('S55','sync','sync, builder',[L('a',ty='String',dflt=D+120),O('b',ty='String',dflt=D+121),E('c',ty='String',dflt=D+122),E('d',ty='String',getarg='clone',into=True),L('e',ty='String',fal=True,getarg='clone')],derive='Clone, PartialEq, Debug')
S('A29','async','r#async, builder(into)',[L('a',ty='String',dflt=D+123,binto=True),O('b',ty='String',ops='hgrwsc',dflt=D+124,binto=True),E('c',ty='String',ops='grws',dflt=D+125,binto=True)],derive='Debug')
S('P34','plain','builder',[p('L','a',ty='String',dflt=D+126),p('O','b',ty='String',dflt=D+127),p('E','c',ty='String',dflt=D+128),E('d','inner_mut',ops='gms',first='',ty='String',cell=True,dflt=D+129,getarg='clone'),O('e','inner_mut',IM,ty='String',cell=True)],derive='Clone, PartialEq, Debug')
# ---- fields of sync and async structs without a lock ----
S('S56','sync','sync, builder',[O('a','lock(off)',ops='hgMS',lock=False,dflt=D+130),O('b','lock(off), clearer',ops='hgMS',lock=False,getarg='clone'),O('c','lock(off)',ops='hgMS',lock=False,ty='Cid',getarg='copy'),E('d',ops='gMS',first='',lock=False,getarg='clone',dflt=D+131),E('e',ops='gMS',first='',lock=False,ty='Cid',getarg='copy'),E('f','lock(off), builder(into)',ops='gMS',first='',lock=False,binto=True)],derive='Clone, PartialEq, Debug')
S('A30','async','r#async, builder',[L('a'),O('b','lock(off)',ops='hgMS',lock=False,getarg='clone',dflt=D+132),O('c','lock(off)',ops='hgMS',lock=False,ty='Cid',getarg='copy'),E('d',ops='gMS',first='',lock=False,getarg='clone'),E('e',ops='gMS',first='',lock=False,ty='Cid',getarg='copy',dflt=D+133)],derive='Debug')
# ---- serde defaults left to the types ----
S('S57','sync','sync, serde(default), builder',[L('a'),O('b'),E('c'),E('d',dflt=D+134),O('e',dflt=D+135),L('f',fal=True)],derive='Clone, Debug',serde=True,de_struct_default=True)
S('S58','sync','sync, serde, builder',[L('a'),O('b','serde(default)'),E('c','serde(default)',dedflt='DEFAULT_ID'),L('d','serde(default)'),E('e')],derive='Clone, Debug',serde=True)
S('P35','plain','serde(default), builder',[p('L','a'),p('O','b'),p('E','c'),p('E','d',dflt=D+136),O('e','inner_mut',IM,cell=True,dflt=D+137)],derive='Clone, Debug',serde=True,de_struct_default=True)
S('P36','plain','serde',[p('L','a'),p('O','b','serde(default)'),p('E','c','serde(default)',dedflt='DEFAULT_ID'),p('E','d')],derive='Clone, Debug',serde=True)
# ---- builders asked for by fields only ----
S('S59','sync','sync',[L('a','builder'),O('b','builder'),E('c','builder(into)',binto=True),L('d',bset=False),E('e',bset=False,breq=False,dflt=D+138)],optin=True,derive='Clone, Debug')
S('P37','plain','',[p('L','a','builder'),p('O','b',bset=False),p('E','c','builder(required)',dflt=D+139,breq=True,bset=True)],optin=True,derive='Clone, Debug')
# ---- copy and clone as flags, bare #[fieldx], visibility, defaults switched off ----
S('S60','sync','sync, copy, get, set, predicate, clearer',[F('a','L','lazy','hgsc',ty='Cid',own=True),F('b','O','optional, clone','hgsc',own=True),F('c','L','lazy, get(clone), fallible(error(Er))','hgsc',own=True,fal=True),F('d','E','lock, clone, predicate(off), clearer(off)','gs',own=True)],derive='Clone, Debug')
S('S61','sync','sync, get, set',[F('a','L','lazy, predicate, clearer','hgsc'),F('c','E','lock, default(off, vd(%d))'%(D+140),'gs'),F('d','O','optional, predicate, default(off, vd(%d))'%(D+141),'hgs')],derive='Clone, Debug')
S('P38','plain','copy, get, set, predicate, clearer',[F('a','L','lazy','hgSC',ty='Cid',own=True),F('b','O','optional, clone','hgSC',own=True),F('c','O','clone, inner_mut','hgsc',own=True,cell=True),F('d','L','lazy, clone','hgSC',own=True)],derive='Clone, PartialEq, Debug')
S('S62','sync','sync, public(super), builder',[L('a','public(in_mod = "crate::catalog")'),O('b','private'),E('c','public(super)'),L('d',getarg='clone')],derive='Clone, Debug')
# ---- functions named by path as serde defaults, Self in a default ----
for nm_,mode_,args_,f_ in (('S63','sync','sync, serde(default)',lambda k,*a,**kw: dict(L=L,O=O,E=E)[k](*a,**kw)),('P39','plain','serde(default)',p)):
    S(nm_,mode_,args_,[f_('E','a','default(Self::dv())',dflt=D+142,nodflt=True),f_('E','b','serde(default("crate::subjutil::sd_val"))',dedflt=D+143),f_('O','c','serde(default("crate::subjutil::sd_opt"))',dedflt=D+144),
        f_('L','d','serde(default("crate::subjutil::sd_opt"))',dedflt=D+144),f_('L','e',fal=True),f_('O','f','default(Self::dv())',dflt=D+142,nodflt=True)],derive='Clone, Debug',serde=True,de_struct_default=True,
        raw='impl %s { fn dv() -> Val { vd(%d) } }'%(nm_,D+142))

# ---- wide structs ----
def wide(n,f_,k=4,**kw):
    r=[]
    for i in range(n):
        nm=chr(ord('a')+i)
        r.append([lambda:f_('L',nm),lambda:f_('O',nm),lambda:f_('E',nm),lambda:f_('L',nm,fal=True,getarg='clone'),lambda:f_('O',nm,getarg='clone',dflt=D+150+i) if kw.get('dflt') else f_('O',nm)][i%5]())
    return r
S('S64','sync','sync, builder, serde',wide(20,lambda k,*a,**kw: dict(L=L,O=O,E=E)[k](*a,**kw),dflt=True),derive='Clone, PartialEq, Debug',serde=True)
S('A31','async','r#async, builder',wide(18,lambda k,*a,**kw: L(*a,**kw) if k=='L' else O(*a,ops='hgrwsc',**kw) if k=='O' else E(*a,ops='grws',**kw)),derive='Debug')
S('P40','plain','builder, serde',wide(20,p,dflt=True),derive='Clone, PartialEq, Debug',serde=True)

def dflt_impl(st):
    # new() goes through Default whenever there is one
    return True

def bset_of(st,f,builder):
    if f.bset is not None: return f.bset
    if st.get('optin'): return 'builder' in f.args
    return builder

def gen(st):
    n=st['name']; mode=st['mode']; mode='async' if mode=='mode_async' else mode; g=st.get('generic'); rc=st.get('rc'); der=st['derive']
    plain=mode=='plain'
    tp='<T>' if g else ''; ti='<T: GenV>' if g else ''; conc=('<Big>' if st.get('big') else '<Val>') if g else ''; decl_g=ti; decl_w=''
    if isinstance(g,dict): tp=g['tp']; ti=g['ti']; conc=g['conc']; decl_g=g['decl']; decl_w=g.get('where','')
    out=[]
    d=[x.strip() for x in der.split(',') if x.strip()]
    builder='builder' in st['args'] or any(bool(re.search(r'\bbuilder\b',f.args)) for f in st['fields'])
    attrs=st['args']
    out.append('#[fxstruct%s]'%('(%s)'%attrs if attrs else ''))
    if d: out.append('#[derive(%s)]'%', '.join(d))
    out.append('pub struct %s%s%s {'%(n,decl_g,decl_w))
    for i,f in enumerate(st['fields']):
        # resolve per-field facts
        f.unwraps=0
        f.isa = f.a if f.a is not None else (mode=='async' or (mode=='mixed' and st['args'].startswith('r#async')))
        if plain: f.isa=False
        f.locked = f.lock if f.lock is not None else (not plain)
        if f.cell: f.locked=False
        if st.get('all_into'): f.into=True
        if not f.locked and f.k!='L': f.isa=False
        if not f.noattr: out.append('    #[fieldx(%s)]'%f.args if f.args!='bare' else '    #[fieldx]')
        out.append('    %s: %s,'%(f.name,f.ty))
    # A skip field needs a default for new()/builder
    # `skip` is not accepted together with a builder or struct-level lock/reader/writer defaults; switch everything off instead
    lv=[a.strip().split('(')[0] for a in attrs.split(',')]
    if any(a in lv for a in ('builder','lazy','lock','optional','reader','writer','predicate','clearer','inner_mut')) or st.get('optin'):
        offs=(['inner_mut'] if 'inner_mut' in lv else [])+['lazy','get','get_mut','set','predicate','clearer','reader','writer','lock','optional','builder']
        extra=['serde(off)'] if st.get('serde') else []
        out.append('    #[fieldx(%s, default(Oid::default()))]'%', '.join([o+'(off)' for o in offs]+extra))
    else:
        out.append('    #[fieldx(skip, default(Oid::default()))]')
    out.append('    oid: Oid,')
    out+=st.get('xf',[])
    out.append('}')
    if st.get('raw'): out.append(st['raw'])
    # builders
    lz=[(i,f) for i,f in enumerate(st['fields']) if f.k=='L']
    if lz or st.get('post'):
        out.append('impl%s %s%s%s {'%(ti,n,tp,decl_w))
        for i,f in lz:
            nm=f.builder or 'build_'+f.name
            if f.h!=f.name and not f.builder: nm='build_'+f.h
            slf='self: std::rc::Rc<Self>' if st.get('rcself') else '&self'
            arg='&*self' if st.get('rcself') else 'self'
            ret='Result<%s, Er>'%f.ty if f.fal else f.ty
            hk=('a_build' if f.isa else 'build')+('_f' if f.fal else '')
            if f.isa: out.append('    async fn %s(&self) -> %s { hook::%s(self, %d).await }'%(nm,ret,hk,i))
            else: out.append('    fn %s(%s) -> %s { hook::%s(%s, %d) }'%(nm,slf,ret,hk,arg,i))
        if st.get('post')=='f':
            out.append('    fn %s(self) -> Result<Self, BErr> { hook::post(&self).map_err(|e| BErr::Post(e.0))?; Ok(self) }'%st.get('postname','fixup'))
        elif st.get('post'):
            out.append('    fn %s(self) -> Self { let _ = hook::post(&self); self }'%st.get('postname','fixup'))
        out.append('}')
    # Obj
    b={k:[] for k in ('has','get','reader','get_mut','writer','set','clear','xget_mut','xset','xclear','touch','a_touch','a_has','a_get','a_reader','a_get_mut','a_writer','a_set','a_clear')}
    for i,f in enumerate(st['fields']):
        h=f.h
        names=dict(h='has_'+h,g=h,r='read_'+h,m=h+'_mut',w='write_'+h,s='set_'+h,c='clear_'+h)
        names.update({k:v+h+('_mut' if k=='m' else '') for k,v in st.get('prefix',{}).items()})
        names.update(f.names)
        val=('In(id)' if f.into else '<%s as FxV>::mk(id)'%f.ty)
        for o in (f.ops+('g' if f.as_ref else '')):
            x=o.isupper(); l=o.lower(); c='self.%s'%names.get(l)
            if l in f.direct:
                aw='.await' if f.isa else ''
                n_='self.'+f.name
                rd={'D':n_,'A':'AsRef::<%s::RwLock<_>>::as_ref(&%s)'%('tokio::sync' if f.isa else 'parking_lot',n_),'B':'std::borrow::Borrow::<%s::RwLock<_>>::borrow(&%s)'%('tokio::sync' if f.isa else 'parking_lot',n_)}
                if f.k=='L':
                    t='try_' if f.fal else ''
                    w={'h':n_+'.is_set()','g':'%s.%sread(self)%s.rg()'%(n_,t,aw),'r':'%s.read(self)%s.rg()'%(n_,aw),'m':'%s.%sread_mut(self)%s.wg()'%(n_,t,aw),
                       'w':'lazy_wg!(%s.write()%s, %s)'%(n_,aw,f.ty),'s':'{ let mut g = %s.write()%s; g.store(%s).old() }'%(n_,aw,val),
                       'c':('{ let g = %s.write()%s; g.clear().old() }' if i%2 else '%s.clear()%s.old()')%(n_,aw),'t':'%s.lazy_init(self)%s'%(n_,aw)}[l]
                    if f.fal and i%2: w={'m':'%s.read_mut(self)%s.wg()'%(n_,aw)}.get(l,w)
                    if f.fal and (l=='r' or l=='m' and i%2): f.unwraps|=dict(r=4,m=8)[l]
                else:
                    opt=f.k=='O'
                    w={'h':'%s.read()%s.is_some()'%(rd['B'],aw),'g':'%s.read()%s.rg()'%(rd['D'],aw),'r':'%s.read()%s.rg()'%(rd['A'],aw),'m':'%s.write()%s.wg()'%(rd['D'],aw),'w':'%s.write()%s.wg()'%(rd['B'],aw),
                       's':('%s.write()%s.replace(%s).old()' if opt else 'std::mem::replace(&mut *%s.write()%s, %s).old()')%(rd['A'],aw,val),'c':'%s.write()%s.take().old()'%(rd['D'],aw)}[l]
                key={'h':'has','g':'get','r':'reader','m':'get_mut','w':'writer','s':'set','c':'clear','t':'touch'}[l]
                if f.isa and not (l=='h' and f.k=='L'): b['a_'+key].append('%d => Box::pin(async move { %s }),'%(i,w))
                else: b[key].append('%d => %s,'%(i,w))
                continue
            if f.isa and not x and not (l=='h' and f.k=='L'):
                w={'h':'%s().await'%c,'g':'%s().await.rg()'%c,'r':'%s().await.rg()'%c,'m':'%s().await.wg()'%c,
                   'w':('lazy_wg!(%s().await, %s)'%(c,f.ty) if f.k=='L' else '%s().await.wg()'%c),
                   's':'%s(%s).await.old()'%(c,val),'c':'%s().await.old()'%c}[l]
                key={'h':'a_has','g':'a_get','r':'a_reader','m':'a_get_mut','w':'a_writer','s':'a_set','c':'a_clear'}[l]
                # an unlocked eager field of an async struct has a synchronous accessor
                if not f.locked and l=='g':
                    w='%s().rg()'%c
                b[key].append('%d => Box::pin(async move { %s }),'%(i,w))
            else:
                w={'h':'%s()'%c,'g':('rg_opt(%s())'%c if f.as_ref else '%s().rg()'%c),'r':'%s().rg()'%c,'m':'%s().wg()'%c,
                   'w':('lazy_wg!(%s(), %s)'%(c,f.ty) if f.k=='L' else '%s().wg()'%c),
                   's':'%s(%s).old()'%(c,val),'c':'%s().old()'%c}[l]
                key={'h':'has','g':'get','r':'reader','m':'get_mut','w':'writer','s':'set','c':'clear'}[l]
                if x: key='x'+key
                b[key].append('%d => %s,'%(i,w))
    sig={'touch':'fn touch(&self, f: u8)','a_touch':"fn a_touch(&self, f: u8) -> Fut<'_, ()>",'has':'fn has(&self, f: u8) -> bool','get':"fn get(&self, f: u8) -> R<Rgb<'_>>",'reader':"fn reader(&self, f: u8) -> R<Rgb<'_>>",
         'get_mut':"fn get_mut(&self, f: u8) -> R<Wgb<'_>>",'writer':"fn writer(&self, f: u8) -> R<Wgb<'_>>",'set':'fn set(&self, f: u8, id: u32) -> Old',
         'clear':'fn clear(&self, f: u8) -> Old','xget_mut':"fn xget_mut(&mut self, f: u8) -> R<Wgb<'_>>",'xset':'fn xset(&mut self, f: u8, id: u32) -> Old',
         'xclear':'fn xclear(&mut self, f: u8) -> Old','a_has':"fn a_has(&self, f: u8) -> Fut<'_, bool>",'a_get':"fn a_get(&self, f: u8) -> Fut<'_, R<Rgb<'_>>>",
         'a_reader':"fn a_reader(&self, f: u8) -> Fut<'_, R<Rgb<'_>>>",'a_get_mut':"fn a_get_mut(&self, f: u8) -> Fut<'_, R<Wgb<'_>>>",
         'a_writer':"fn a_writer(&self, f: u8) -> Fut<'_, R<Wgb<'_>>>",'a_set':"fn a_set(&self, f: u8, id: u32) -> Fut<'_, Old>",'a_clear':"fn a_clear(&self, f: u8) -> Fut<'_, Old>"}
    box=plain or st.get('box'); hd='P' if plain and rc else ('B' if box else 'S')
    wrap=(lambda e:e) if rc else (lambda e:('boxed(%s)' if box else 'arc(%s)')%e)
    out.append('impl%s Obj for %s%s {'%((g['obj_i'],n,tp+decl_w) if isinstance(g,dict) else (ti,n,tp)))
    out.append('    fn oid(&self) -> u32 { self.oid.num }')
    out.append('    fn parent(&self) -> u32 { self.oid.parent }')
    out.append("    fn meta(&self) -> &'static Meta { &%s_META }"%n)
    out.append('    fn any(&self) -> &dyn std::any::Any { self }')
    for k,arms in b.items():
        if arms: out.append('    %s { match f { %s _ => unreachable!() } }'%(sig[k],' '.join(arms)))
    if 'Clone' in d: out.append('    fn dup(&self) -> Handle { Handle::%s(%s) }'%(hd,wrap('self.clone()')))
    if 'PartialEq' in d: out.append('    fn eq(&self, o: &dyn Obj) -> bool { *self == *o.any().downcast_ref::<Self>().unwrap() }')
    if 'Debug' in d: out.append('    fn dbg(&self, w: &mut dyn std::fmt::Write, alt: bool) -> std::fmt::Result { if alt { write!(w, "{:#?}", self) } else { write!(w, "{:?}", self) } }')
    if st.get('serde') and not st.get('noser'): out.append('    fn ser(&self, w: &mut dyn std::io::Write) -> Result<(), String> { serde_json::to_writer(w, self).map_err(|e| e.to_string()) }')
    if rc:
        out.append('    fn myself(&self) -> Option<Handle> { match self.%s() { Some(x) => Some(Handle::%s(x)), None => None } }'%(st.get('rcname','myself'),hd))
        out.append('    fn weak(&self) -> Box<dyn Fn() -> Option<Handle>> { let w = self.%s_downgrade(); Box::new(move || w.upgrade().map(|x| Handle::%s(x))) }'%(st.get('rcname','myself'),hd))
    out.append('}')
    # meta
    fl=[]
    bits=dict(h=1,g=2,r=4,m=8,w=16,s=32,c=64,t=128)
    for i,f in enumerate(st['fields']):
        ops=0; ex=0
        for o in f.ops+('g' if f.as_ref else ''):
            ops|=bits[o.lower()]
            if o.isupper(): ex|=bits[o.lower()]
        dflt=f.dflt
        if dflt is None and f.k=='E': dflt='DEFAULT_ID'
        bset=bset_of(st,f,builder)
        breq=f.breq if f.breq is not None else (bset and f.k=='E' and f.dflt is None)
        ser=(bool(st.get('serde') and not st.get('noser')) if f.ser is None else f.ser); de=(bool(st.get('serde')) if f.de is None else f.de)
        a = f.isa and (f.locked or f.k=='L')
        tracked='false' if f.ty in ('Cid','String') else 'true'
        fl.append('    FieldMeta { name: "%s", k: K::%s, a: %s, ops: %d, excl: %d, owned: %s, fallible: %s, unwraps: %d, into: %s, lock: %s, cell: %s, tracked: %s, default: %s, b_set: %s, b_into: %s, b_req: %s, ser: %s, de: %s, de_dflt: %s, key: "%s" },'%(
            f.name,{'L':'Lazy','O':'Opt','E':'Eager'}[f.k],str(bool(a)).lower(),ops,ex,str(f.own).lower(),str(f.fal).lower(),f.unwraps,str(f.into).lower(),
            str(bool(f.locked)).lower(),str(f.cell).lower(),tracked,('Some(%s)'%dflt if dflt is not None else 'None'),str(bool(bset)).lower(),str(f.binto).lower(),
            str(bool(breq)).lower(),str(ser).lower(),str(de).lower(),('Some(%s)'%f.dedflt if f.dedflt is not None else 'None'),f.key))
    out.append('static %s_FIELDS: &[FieldMeta] = &['%n); out+=fl; out.append('];')
    ty=n+('::'+conc if g else '')
    out.append('fn %s_new() -> Handle { Handle::%s(%s) }'%(n.lower(),hd,wrap(ty+('::default()' if st.get('no_new') else '::new()'))))
    mk='None'
    if builder:
        mk='Some(%s_make)'%n.lower()
        arms=[]
        for i,f in enumerate(st['fields']):
            v='In(id(%d))'%i if f.binto else '%s::mk(id(%d))'%({'Val':'Val','T':'Big' if st.get('big') else 'Val'}.get(f.ty,f.ty),i)
            if bset_of(st,f,builder): arms.append('%d => b.%s(%s),'%(i,f.bname or st.get('bprefix','')+f.h,v))
        out.append('fn %s_make(mk: &Make, id: &mut dyn FnMut(u8) -> u32) -> Made {'%n.lower())
        out.append('    make_body!(mk, %s::builder(), |b, f| match f { %s _ => b }, |x| Handle::%s(%s))'%(ty,' '.join(arms),hd,wrap('x')))
        out.append('}')
    dfl='None'
    if dflt_impl(st) and not rc:
        dfl='Some(%s_dflt)'%n.lower()
        out.append('fn %s_dflt() -> Handle { Handle::%s(%s) }'%(n.lower(),hd,wrap(ty+'::default()')))
    de='None'
    if st.get('serde') and not st.get('node'):
        de='Some(%s_de)'%n.lower()
        out.append('fn %s_de(s: &str) -> Result<Handle, String> { serde_json::from_str::<%s>(s).map(|x| Handle::%s(%s)).map_err(|e| e.to_string()) }'%(n.lower(),n+conc,hd,wrap('x')))
    blocking = mode=='async'
    B=lambda x:str(bool(x)).lower()
    out.append('pub static %s_META: Meta = Meta { name: "%s", fields: %s_FIELDS, plain: %s, clone: %s, eq: %s, dbg: %s, ser: %s, de: %s, rc: %s, deny: %s, blocking: %s, new: %s_new, dflt: %s, make: %s, post: %s, post_fallible: %s, deser: %s, de_struct_default: %s };'%(
        n,n,n,B(box),B('Clone' in d),B('PartialEq' in d),B('Debug' in d),B(st.get('serde') and not st.get('noser')),B(st.get('serde') and not st.get('node')),B(rc),B(st.get('deny')),B(blocking),n.lower(),dfl,mk,B(st.get('post')),B(st.get('post')=='f'),de,B(st.get('de_struct_default'))))
    return '\n'.join(out)+'\n'

hdr='''// Generated by tools/gen_catalog.py - do not edit.
#![allow(dead_code, unused_imports, unused_mut, unused_variables, unexpected_cfgs, non_upper_case_globals, non_snake_case, clippy::all)]
use crate::exec::hook;
use crate::lazy_wg;
use crate::make_body;
use crate::obj::*;
use crate::plan::*;
use crate::state::DEFAULT_ID;
use crate::val::*;
use crate::subjutil::*;
use fieldx::fxstruct;
use serde::{Deserialize, Serialize};
use std::sync::Arc;

'''
def main():
    # One module per shape, each behind its own cfg: check.sh drops the shapes that a changed tree
    # no longer compiles and decides the properties on the others.
    out=hdr
    for s in structs:
        c='#[cfg(not(fx_no_%s))]'%s['name']
        out+='// shape %s\n%s\nmod m_%s {\nuse super::*;\n%s}\n%s\npub use m_%s::*;\n\n'%(s['name'],c,s['name'],gen(s),c,s['name'])
    out+='// shape -\npub static ALL: &[&Meta] = &[\n%s];\n'%''.join('    #[cfg(not(fx_no_%s))]\n    &%s_META,\n'%(s['name'],s['name']) for s in structs)
    p=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','sim','harness','src','catalog.rs')
    open(p,'w').write(out)
main()
