#!/usr/bin/env python3
"""One-off generator: signature table -> harness/src/lib.rs and xmv/api.json.
(The outputs are committed; the generator is kept so they can be regenerated when the public API grows.)
usage: gen_harness.py <dir with comment-stripped sources>"""
import re, json, sys, os
SRC = sys.argv[1] if len(sys.argv) > 1 else '/repo/src'
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
KIND = {'FXMVECTOR':'V','GXMVECTOR':'V','HXMVECTOR':'V','XMVECTOR':'V','CXMVECTOR':'PV','FXMMATRIX':'M','CXMMATRIX':'PM','XMMATRIX':'M',
 'f32':'F','u32':'U','i32':'I','usize':'N','HALF':'H','bool':'B','&f32':'PF','&mut f32':'mF','&mut u32':'mU','&mut XMVECTOR':'mV','&mut FXMVECTOR':'mV',
 '&[u32; 2]':'PU2','&[u32; 3]':'PU3','&[u32; 4]':'PU4','&mut [u32; 2]':'mU2','&mut [u32; 3]':'mU3','&mut [u32; 4]':'mU4','Option<&mut XMVECTOR>':'oV'}
ST = {'XMFLOAT2':'f2','XMFLOAT3':'f3','XMFLOAT4':'f4','XMFLOAT3X3':'f33','XMFLOAT4X3':'f43','XMFLOAT3X4':'f34','XMFLOAT4X4':'f44'}
for k,v in list(ST.items()):
    KIND['&'+k]='P'+v; KIND['&mut '+k]='m'+v
    KIND['&Align16<%s>'%k]='PA'+v; KIND['&mut Align16<%s>'%k]='mA'+v
WORDS = {'V':4,'PV':4,'M':16,'PM':16,'F':1,'U':1,'I':1,'N':1,'H':1,'B':1,'PF':1,'mF':1,'mU':1,'mV':4,'oV':4,'f2':2,'f3':3,'f4':4,'f33':9,'f43':12,'f34':12,'f44':16,
 'U2':2,'U3':3,'U4':4,'S':4,'X':6,'O':10,'R':13,'mS':4,'mX':6,'mO':10,'mR':13,'mC':24,'':0}
RT = {'V':'XMVECTOR','PV':'XMVECTOR','M':'XMMATRIX','PM':'XMMATRIX','F':'f32','U':'u32','I':'i32','PF':'f32','mF':'f32','mU':'u32','mV':'XMVECTOR','oV':'XMVECTOR',
 'S':'BoundingSphere','X':'BoundingBox','O':'BoundingOrientedBox','R':'BoundingFrustum','mS':'BoundingSphere','mX':'BoundingBox','mO':'BoundingOrientedBox','mR':'BoundingFrustum','mC':'[XMFLOAT3; 8]'}
for k,v in ST.items():
    for p in 'Pm':
        WORDS[p+v]=WORDS[v]; WORDS[p+'A'+v]=WORDS[v]; RT[p+v]=k; RT[p+'A'+v]='Align16<%s>'%k
    RT[v]=k
for n in '234':
    for p in ('P','m'):
        WORDS[p+'U'+n]=int(n); RT[p+'U'+n]='[u32; %s]'%n
def sigs():
    out=[]
    for f in ['vector','matrix','misc','convert','packed_vector','lib']:
        s=open('%s/%s.rs'%(SRC,f)).read()
        s=re.sub(r'//[^\n]*','',s)
        for m in re.finditer(r'^(?:    )?pub (?:unsafe )?fn (\w+)\s*(<[^>]*>)?\s*\(([^)]*)\)\s*(?:->\s*([\w<>&\' ;\[\]]+?))?\s*(?:where[^{]*)?\{',s,re.M):
            if m.group(1) in ('set','XMMin','XMMax'): continue
            ps=[re.sub(r'\s+',' ',x.strip()) for x in m.group(3).split(',') if x.strip()]
            out.append((f,m.group(1),[KIND[p.split(':',1)[1].strip()] for p in ps],KIND.get((m.group(4) or '').strip(),'')))
    return out
api={}; rust=[]
def emit(name, ins, ret, expr, pretty=None, unsafe=False):
    """expr uses a0.. (by-value locals; m* kinds are `let mut`)"""
    body=[]; off=0; outs=[]
    for k,t in enumerate(ins):
        w=WORDS[t]
        if t in ('F','PF','mF'): e='f32::from_bits(*i.add(%d))'%off
        elif t=='U' or t=='mU': e='*i.add(%d)'%off
        elif t=='I': e='*i.add(%d) as i32'%off
        elif t=='N': e='*i.add(%d) as usize'%off
        elif t=='H': e='*i.add(%d) as u16'%off
        elif t=='B': e='*i.add(%d) != 0'%off
        elif 'A' in t: e='Align16(ld::<%s>(i.add(%d)))'%(RT[t][8:-1],off)
        else: e='ld::<%s>(i.add(%d))'%(RT[t],off)
        mut='mut ' if t[0] in 'mo' else ''
        body.append('let %sa%d = %s;'%(mut,k,e)); off+=w
        if t[0] in 'mo': outs.append((k,t))
    o=0; okinds=[]
    body.append('let r = %s;'%expr if ret else '%s;'%expr)
    if ret:
        if ret=='F': body.append('*o.add(0) = r.to_bits();')
        elif ret in ('U','I','B','H','N'): body.append('*o.add(0) = r as u32;')
        else: body.append('st::<%s>(o, r);'%RT[ret])
        okinds.append(ret); o+=WORDS[ret]
    for k,t in outs:
        if t=='mF': body.append('*o.add(%d) = a%d.to_bits();'%(o,k))
        elif t=='mU': body.append('*o.add(%d) = a%d;'%(o,k))
        elif 'A' in t: body.append('st::<%s>(o.add(%d), a%d.0);'%(RT[t][8:-1],o,k))
        else: body.append('st::<%s>(o.add(%d), a%d);'%(RT[t],o,k))
        okinds.append(t); o+=WORDS[t]
    rust.append('#[no_mangle] pub unsafe extern "C-unwind" fn h_%s(i: *const u32, o: *mut u32) {\n    %s\n}'%(name,'\n    '.join(body)))
    api[name]={'in':ins,'out':okinds,'nin':off,'nout':o}
    if pretty: api[name]['pretty']=pretty
def arg(k,t):
    if t in ('V','M','F','U','I','N','H','B'): return 'a%d'%k
    if t[0]=='P': return '&a%d'%k
    if t[0]=='m': return '&mut a%d'%k
    if t=='oV': return 'Some(&mut a%d)'%k
    return '&a%d'%k
MODP={'vector':'directx_math::vector::','matrix':'directx_math::matrix::','misc':'directx_math::misc::','convert':'directx_math::convert::','packed_vector':'directx_math::packed_vector::','lib':'directx_math::'}
for f,n,ins,ret in sigs():
    emit(n,ins,ret,'%s(%s)'%(n,', '.join(arg(k,t) for k,t in enumerate(ins))),MODP[f]+n)
emit('XMMatrixInverse_None',['M'],'M','XMMatrixInverse(None, a0)')
emit('XMMin',['F','F'],'F','XMMin(a0, a1)'); emit('XMMax',['F','F'],'F','XMMax(a0, a1)')
emit('XMMin_i32',['I','I'],'I','XMMin(a0, a1)'); emit('XMMax_i32',['I','I'],'I','XMMax(a0, a1)')
# operators
VV='XMVector'; MM='XMMatrix'
for nm,op in (('add','+'),('sub','-'),('mul','*'),('div','/')):
    emit('XMVector_%s'%nm,['V','V'],'V','(XMVector(a0) %s XMVector(a1)).0'%op)
    emit('XMVector_%s_assign'%nm,['V','V'],'V','{ let mut t = XMVector(a0); t %s= XMVector(a1); t.0 }'%op)
emit('XMVector_mul_f32',['V','F'],'V','(XMVector(a0) * a1).0')
emit('f32_mul_XMVector',['F','V'],'V','(a0 * XMVector(a1)).0')
emit('XMVector_mul_assign_f32',['V','F'],'V','{ let mut t = XMVector(a0); t *= a1; t.0 }')
emit('XMVector_div_f32',['V','F'],'V','(XMVector(a0) / a1).0')
emit('XMVector_div_assign_f32',['V','F'],'V','{ let mut t = XMVector(a0); t /= a1; t.0 }')
emit('XMVector_neg',['V'],'V','(-XMVector(a0)).0')
emit('XMVector_eq',['V','V'],'B','XMVector(a0) == XMVector(a1)')
emit('XMVector_set',['F']*4,'V','XMVector::set(a0, a1, a2, a3).0')
emit('XMVector_from',['Pf4'],'V','{ let t: [f32; 4] = a0.into(); XMVector::from(&t).0 }')
emit('XMVector_deref',['V'],'V','*XMVector(a0)')
emit('XMVector_deref_mut',['V','V'],'V','{ let mut t = XMVector(a0); *t = a1; t.0 }')
for nm,op in (('add','+'),('sub','-'),('mul','*')):
    emit('XMMatrix_%s'%nm,['M','M'],'M','(XMMatrix(a0) %s XMMatrix(a1)).0'%op)
    emit('XMMatrix_%s_assign'%nm,['M','M'],'M','{ let mut t = XMMatrix(a0); t %s= XMMatrix(a1); t.0 }'%op)
emit('XMMatrix_mul_f32',['M','F'],'M','(XMMatrix(a0) * a1).0')
emit('f32_mul_XMMatrix',['F','M'],'M','(a0 * XMMatrix(a1)).0')
emit('XMMatrix_mul_assign_f32',['M','F'],'M','{ let mut t = XMMatrix(a0); t *= a1; t.0 }')
emit('XMMatrix_div_f32',['M','F'],'M','(XMMatrix(a0) / a1).0')
emit('XMMatrix_div_assign_f32',['M','F'],'M','{ let mut t = XMMatrix(a0); t /= a1; t.0 }')
emit('XMMatrix_neg',['M'],'M','(-XMMatrix(a0)).0')
emit('XMMatrix_eq',['M','M'],'B','XMMatrix(a0) == XMMatrix(a1)')
emit('XMMatrix_set',['F']*16,'M','XMMatrix::set(%s).0'%', '.join('a%d'%k for k in range(16)))
emit('XMMatrix_from16',['Pf44'],'M','{ let t: [f32; 16] = a0.into(); XMMatrix::from(&t).0 }')
emit('XMMatrix_from44',['Pf44'],'M','{ let t: [[f32; 4]; 4] = a0.into(); XMMatrix::from(&t).0 }')
emit('XMMatrix_into16',['M'],'f44','{ let t: [f32; 16] = XMMatrix(a0).into(); ld::<XMFLOAT4X4>(t.as_ptr() as *const u32) }')
emit('XMMatrix_into44',['M'],'f44','{ let t: [[f32; 4]; 4] = XMMatrix(a0).into(); ld::<XMFLOAT4X4>(t.as_ptr() as *const u32) }')
emit('XMMatrix_deref',['M'],'M','*XMMatrix(a0)')
# storage-type conversions
ARR={'XMINT2':('i32',2),'XMINT3':('i32',3),'XMINT4':('i32',4),'XMUINT2':('u32',2),'XMUINT3':('u32',3),'XMUINT4':('u32',4),'XMFLOAT2':('f32',2),'XMFLOAT3':('f32',3),'XMFLOAT4':('f32',4)}
for s,(t,n) in ARR.items():
    WORDS['T'+s]=n; RT['T'+s]=s; WORDS['A%s%d'%(t,n)]=n; RT['A%s%d'%(t,n)]='[%s; %d]'%(t,n)
MATS={'XMFLOAT3X3':(3,3),'XMFLOAT4X3':(4,3),'XMFLOAT3X4':(3,4),'XMFLOAT4X4':(4,4)}
def convs(s,a,tag,n):
    ka='Y%s'%tag; ks='Z%s'%tag
    WORDS[ka]=n; RT[ka]=a; WORDS[ks]=n; RT[ks]=s
    emit('%s_from_%s'%(s,tag),[ka],ks,'%s::from(a0)'%s)
    emit('%s_into_%s'%(s,tag),[ks],ka,'{ let t: %s = a0.into(); t }'%a)
    emit('%s_from_ref_%s'%(s,tag),[ka],ks,'*<&%s>::from(&a0)'%s)
    emit('%s_into_ref_%s'%(s,tag),[ks],ka,'{ let t: &%s = (&a0).into(); *t }'%a)
    emit('%s_as_ref_%s'%(s,tag),[ks],ka,'*AsRef::<%s>::as_ref(&a0)'%a)
    emit('%s_as_mut_%s'%(s,tag),[ks,ka],ks,'{ let mut t = a0; *AsMut::<%s>::as_mut(&mut t) = a1; t }'%a)
for s,(t,n) in ARR.items():
    convs(s,'[%s; %d]'%(t,n),'%s%d'%(t,n),n)
    fs='xyzw'[:n]
    emit('%s_fields'%s,['Z%s%d'%(t,n)],'Y%s%d'%(t,n),'[%s]'%', '.join('a0.%s'%c for c in fs))
    emit('%s_set'%s,['Y%s%d'%(t,n)],'Z%s%d'%(t,n),'%s::set(%s)'%(s,', '.join('a0[%d]'%k for k in range(n))))
for s,(r,c) in MATS.items():
    convs(s,'[[f32; %d]; %d]'%(c,r),'f32_%dx%d'%(r,c),r*c)
    convs(s,'[f32; %d]'%(r*c),'f32_%d_%dx%d'%(r*c,r,c),r*c)
emit('Align16_deref',['f4'],'f4','{ let t = Align16::from(a0); *t }')
emit('Align16_deref_mut',['f4','f4'],'f4','{ let mut t = Align16(a0); *t = a1; t.0 }')
emit('Align16_as_ref',['f4'],'f4','{ let t = Align16(a0); *AsRef::<XMFLOAT4>::as_ref(&t) }')
emit('Align16_as_mut',['f4','f4'],'f4','{ let mut t = Align16(a0); *AsMut::<XMFLOAT4>::as_mut(&mut t) = a1; t.0 }')
for u,f,t in (('XMVECTORF32','f','f32'),('XMVECTORU32','u','u32'),('XMVECTORI32','i','i32')):
    emit('%s_deref'%u,['Y%s4'%t],'V','*%s { %s: a0 }'%(u,f))
# public constants
emit('CONST_pi',[],'Yf324','[XM_PI, XM_2PI, XM_PIDIV2, XM_PIDIV4]')
emit('CONST_inv',[],'Yf322','[XM_1DIVPI, XM_1DIV2PI]')
emit('CONST_permute0',[],'Yu324','[XM_PERMUTE_0X, XM_PERMUTE_0Y, XM_PERMUTE_0Z, XM_PERMUTE_0W]')
emit('CONST_permute1',[],'Yu324','[XM_PERMUTE_1X, XM_PERMUTE_1Y, XM_PERMUTE_1Z, XM_PERMUTE_1W]')
emit('CONST_swizzle',[],'Yu324','[XM_SWIZZLE_X, XM_SWIZZLE_Y, XM_SWIZZLE_Z, XM_SWIZZLE_W]')
emit('CONST_select',[],'Yu322','[XM_SELECT_0, XM_SELECT_1]')
emit('CONST_crmask',[],'Yu324','[XM_CRMASK_CR6, XM_CRMASK_CR6TRUE, XM_CRMASK_CR6FALSE, XM_CRMASK_CR6BOUNDS]')
# trait swizzle / permute
import itertools
SW='XYZW'
for s in itertools.product(SW,repeat=4):
    emit('SwizzleT_'+''.join(s),['V'],'V','<(%s)>::XMVectorSwizzle(a0)'%', '.join('Swizzle'+c for c in s))
PN=['0X','0Y','0Z','0W','1X','1Y','1Z','1W']
perms={(0,1,2,3),(4,5,6,7),(0,1,4,5),(6,7,2,3)}
for p in range(4):
    for v in range(8):
        q=[(3*p+5*k+v)%8 for k in range(4)]; q[p]=v; perms.add(tuple(q))
import random
rnd=random.Random(7)
while len(perms)<96: perms.add(tuple(rnd.randrange(8) for _ in range(4)))
for q in sorted(perms):
    emit('PermuteT_'+''.join(PN[k] for k in q),['V','V'],'V','<(%s)>::XMVectorPermute(a0, a1)'%', '.join('Permute'+PN[k] for k in q))
# collision
def col(cls,meth,ins,ret,expr=None,static=False,pretty=True):
    t={'BoundingSphere':'S','BoundingBox':'X','BoundingOrientedBox':'O','BoundingFrustum':'R'}[cls]
    al=([] if static else [t])+ins
    if expr is None:
        if static: expr='%s::%s(%s)'%(cls,meth,', '.join(arg(k,x) for k,x in enumerate(al)))
        else: expr='a0.%s(%s)'%(meth,', '.join(arg(k,x) for k,x in enumerate(al) if k>0))
    emit('%s_%s'%(cls,meth),al,ret,expr,'<directx_math::collision::%s>::%s'%(cls,meth))
C={'BoundingSphere':'S','BoundingBox':'X','BoundingOrientedBox':'O','BoundingFrustum':'R'}
for c,t in C.items():
    col(c,'TransformMatrix',['m'+t,'M'],'')
    col(c,'TransformDecomposed',['m'+t,'F','V','V'],'')
    col(c,'ContainsPoint',['V'],'U'); col(c,'ContainsTriangle',['V','V','V'],'U')
    for c2,t2 in (('Sphere','S'),('Box','X'),('OrientedBox','O'),('Frustum','R')):
        col(c,'Contains'+c2,[t2],'U'); col(c,'Intersects'+c2,[t2],'B')
    col(c,'IntersectsTriangle',['V','V','V'],'B'); col(c,'IntersectsPlane',['V'],'U'); col(c,'IntersectsRay',['V','V','mF'],'B')
col('BoundingSphere','ContainedBy',['V']*6,'U')
col('BoundingBox','ContainedBy',['V']*3+['V','V','V'],'U')
col('BoundingOrientedBox','ContainedBy',['V']*6,'U')
col('BoundingFrustum','ContainedBy',['V']*6,'U')
col('BoundingSphere','CreateMerged',['mS','S','S'],'',static=True)
col('BoundingSphere','CreateFromBoundingBox',['mS','X'],'',static=True)
col('BoundingSphere','CreateFromBoundingOrientedBox',['mS','O'],'',static=True)
col('BoundingSphere','CreateFromFrustum',['mS','R'],'',static=True)
col('BoundingBox','CreateMerged',['mX','X','X'],'',static=True)
col('BoundingBox','CreateFromSphere',['mX','S'],'',static=True)
col('BoundingBox','GetCorners',['mC'],'')
col('BoundingOrientedBox','GetCorners',['mC'],'')
col('BoundingFrustum','GetCorners',['mC'],'')
col('BoundingOrientedBox','CreateFromBoundingBox',['mO','X'],'',static=True)
col('BoundingFrustum','CreateFromMatrix',['mR','M','B'],'',static=True)
emit('BoundingFrustum_GetPlanes',['R']+['oV']*6,'','a0.GetPlanes(%s)'%', '.join('Some(&mut a%d)'%k for k in range(1,7)),'<directx_math::collision::BoundingFrustum>::GetPlanes')
for n in (1,2,3,4,6):
    WORDS['Q%d'%n]=3*n; RT['Q%d'%n]='[XMFLOAT3; %d]'%n
    for c,t in (('BoundingSphere','S'),('BoundingBox','X'),('BoundingOrientedBox','O')):
        emit('%s_CreateFromPoints_%d'%(c,n),['m'+t,'Q%d'%n],'','%s::CreateFromPoints(&mut a0, a1.iter())'%c)
WORDS['Q32']=96; RT['Q32']='[XMFLOAT3; 32]'
for c,t in (('BoundingSphere','S'),('BoundingBox','X'),('BoundingOrientedBox','O')):
    emit('%s_CreateFromPoints_any'%c,['m'+t,'Q32','U'],'','{ PTS = a1.as_ptr(); NPTS = if a2 <= 70000 { a2 as usize } else { (a2 %% 33) as usize }; %s::CreateFromPoints(&mut a0, AnyIter(0)) }'%c)
emit('triangle_IntersectsRay',['V']*5+['mF'],'B','triangle_tests::IntersectsRay(a0, a1, a2, a3, a4, &mut a5)','directx_math::collision::triangle_tests::IntersectsRay')
emit('triangle_IntersectsTriangle',['V']*6,'B','triangle_tests::IntersectsTriangle(a0, a1, a2, a3, a4, a5)','directx_math::collision::triangle_tests::IntersectsTriangle')
emit('triangle_IntersectsPlane',['V']*4,'U','triangle_tests::IntersectsPlane(a0, a1, a2, a3)','directx_math::collision::triangle_tests::IntersectsPlane')
emit('triangle_ContainedBy',['V']*9,'U','triangle_tests::ContainedBy(a0, a1, a2, a3, a4, a5, &a6, &a7, &a8)','directx_math::collision::triangle_tests::ContainedBy')
hdr='''// GENERATED by tools/gen_harness.py: uniform word-level entry points to the public API of directx_math.
#![allow(unused_variables, non_snake_case, non_upper_case_globals, unused_mut, unused_unsafe, unused_parens, clippy::all)]
use directx_math::*;
use directx_math::collision::*;

#[inline(always)] unsafe fn ld<T: Copy>(p: *const u32) -> T { (p as *const T).read_unaligned() }
#[inline(always)] unsafe fn st<T: Copy>(p: *mut u32, v: T) { (p as *mut T).write_unaligned(v) }

// An iterator over points of which nothing is known but that it is a sequence: the symbolic executor leaves both the
// length and the elements open (xmv_next is not stepped into); natively it yields the given
// points, repeating the first 31 in sequences of more than 32 (the last element is the 32nd point then).
static mut PTS: *const XMFLOAT3 = std::ptr::null();
static mut NPTS: usize = 0;
#[inline(never)] #[no_mangle] pub unsafe extern "C" fn xmv_next(i: usize) -> *const XMFLOAT3 {
    if i >= NPTS { return std::ptr::null(); }
    PTS.add(if NPTS <= 32 { i } else if i + 1 == NPTS { 31 } else { i % 31 })
}
#[derive(Clone)] pub struct AnyIter(usize);
impl Iterator for AnyIter {
    type Item = &'static XMFLOAT3;
    fn next(&mut self) -> Option<&'static XMFLOAT3> {
        let p = unsafe { xmv_next(self.0) };
        if p.is_null() { return None; }
        self.0 = self.0.wrapping_add(1);
        Some(unsafe { &*p })
    }
}
'''
names=sorted(api)
tail='\npub static TABLE: &[(&str, unsafe extern "C-unwind" fn(*const u32, *mut u32), usize, usize)] = &[\n%s\n];\n'%'\n'.join('    ("%s", h_%s, %d, %d),'%(n,n,api[n]['nin'],api[n]['nout']) for n in names)
open(HERE+'/harness/src/lib.rs','w').write(hdr+'\n'.join(rust)+tail)
json.dump({'words':WORDS,'api':api},open(HERE+'/xmv/api.json','w'),indent=0,sort_keys=True)
print(len(api))
