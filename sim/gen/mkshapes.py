#!/usr/bin/env python3
"""Generates src/shapes/table.rs: every (convention x argument count x closure kind) and the
constructor, factory, bound, handle and global-allocator catalogues."""
import os, random
CCS = [("Rust","Rust",""),("C","C",""),("CUnwind","C-unwind",""),("System","system",""),("SystemUnwind","system-unwind",""),("Efiapi","efiapi",""),
 ("Sysv64","sysv64","x86_64"),("Sysv64Unwind","sysv64-unwind","x86_64"),("Win64","win64","x86_64"),("Win64Unwind","win64-unwind","x86_64"),
 ("Fastcall","fastcall","x86"),("FastcallUnwind","fastcall-unwind","x86"),("Stdcall","stdcall","x86"),("StdcallUnwind","stdcall-unwind","x86"),
 ("Cdecl","cdecl","x86"),("CdeclUnwind","cdecl-unwind","x86"),("Thiscall","thiscall","x86"),("ThiscallUnwind","thiscall-unwind","x86"),
 ("Aapcs","aapcs","arm"),("AapcsUnwind","aapcs-unwind","arm")]
KINDS = ["Fn","FnMut","FnOnce"]
ARGS = ["u64","f64","u8","i32","f32","P16","u16","*const u8","i64","D16","Big","bool","P8","u128","i8","usize"]
RETS = ["u64","f64","()","Big","P16","u8","i32","D16","bool","u128","P8","f32"]
CAPS = ["Cap","Cap","Small","Over","Plain","Wide"]
S = ["dyn Send + Sync","dyn Send","dyn Sync","dyn closure_ffi::traits::Any"]
unw = lambda cc: cc=="Rust" or cc.endswith("Unwind")
out=[]; rows=[]; n=0
# Builds with the feature "few" (emulated machines) leave these out.
def spare(cc,arch,fam):
    if arch in ("x86","arm") or "FACTORY" in fam or "BOUND" in fam: return False
    if "LEAF" in fam: return cc not in ("C","Rust") and n%3!=0
    return n%3!=0
def emit(kind,cc,lit,arch,args,ret,cap,s,ctor,al,hold,mk,fam,cfgx=None):
    global n
    if any(t == "Tok" for t in args): assert unw(cc)
    m=f"s{n}"
    cfgs=[]
    if arch: cfgs.append(f'target_arch = "{arch}"')
    if cfgx: cfgs.append(cfgx)
    if spare(cc,arch,fam): cfgs.append('not(feature = "few")')
    cfg = f'#[cfg(all({", ".join(cfgs)}))]\n' if cfgs else ''
    a=", ".join(f"a{i}: {t}" for i,t in enumerate(args))
    out.append(f'{cfg}shape!({m}, {n}, {kind}, {cc}, "{lit}", ({a}), {ret}, {cap}, [{s}], {ctor}, {al}, {hold}, {mk});')
    zst = cap in ("Zst","ZstD")
    tracked = cap not in ("Zst","Plain")
    fallible = ctor.startswith(("try","(factory","(front "))
    counts = cap in ("Cap","Over","Wide","Plain")
    b=lambda x:"true" if x else "false"
    name=f"{kind} {lit} {len(args)} {cap} {ctor}" + ("" if al=="AnyAlloc" else " "+al)
    rows.append(f'    {cfg.strip()} Shape {{ sid: {n}, name: "{name}", kind: Kind::{kind}, cc: "{lit}", arity: {len(args)}, zst: {b(zst)}, tracked: {b(tracked)}, counts: {b(counts)}, observed: true, unwind: {b(unw(cc))}, fallible: {b(fallible)}, toks: {b("Tok" in args)}, fam: {fam}, make: {m}::make, inv: {m}::inv }},')
    n+=1
def special(name,kind,cc,arity,make,inv,fam,fallible,unwind,cfg="",zst=False):
    global n
    b=lambda x:"true" if x else "false"
    if zst: make+=f"::<{n}>"
    c=f'#[cfg({cfg})] ' if cfg else ''
    rows.append(f'    {c}Shape {{ sid: {n}, name: "{name}", kind: Kind::{kind}, cc: "{cc}", arity: {arity}, zst: {b(zst)}, tracked: true, counts: {b(not zst)}, observed: true, unwind: {b(unwind)}, fallible: {b(fallible)}, toks: false, fam: {fam}, make: special::{make}, inv: special::{inv} }},')
    n+=1
def sig(seed,arity,cc,toks=True):
    a=[ARGS[(seed*7+i*(1+seed%3)+i)%len(ARGS)] for i in range(arity)]
    if cc in ("Fastcall","FastcallUnwind","Thiscall","ThiscallUnwind","Stdcall","StdcallUnwind"):
        a=[x if x not in ("u128",) else "u64" for x in a]
    if toks and unw(cc) and arity and seed%2==0: a[(seed//2)%arity]="Tok"
    return a
F=lambda *x:" | ".join("fam::"+y for y in x)
seed=0
for cc,lit,arch in CCS:
    for arity in range(13):
        for kind in KINDS:
            seed+=1
            r=RETS[(seed*5+arity)%len(RETS)]
            if r=="u128" and arch=="x86": r="u64"
            emit(kind,cc,lit,arch,sig(seed,arity,cc),r,CAPS[seed%len(CAPS)],S[seed%4],"try_with_cc_in","AnyAlloc","typed" if seed%4==0 else "untyped","closure",F("MATRIX"))
    for arity in (0,2,7,12):
        for kind in KINDS:
            seed+=1
            emit(kind,cc,lit,arch,sig(seed,arity,cc),RETS[seed%3],"ZstD" if seed%3 else "Zst",S[seed%4],"try_with_cc_in","AnyAlloc","typed" if seed%2 else "untyped","closure",F("MATRIX","ZST"))
SHORT={"Rust":"rust","C":"c","System":"system","Efiapi":"efiabi","Sysv64":"sysv64","Aapcs":"aapcs"}
for cc,lit,arch in CCS:
    if arch=="x86" and cc!="Cdecl": continue
    for kind in KINDS:
        ctors=["with_cc_in","new_in","with_thunk_in","try_with_thunk_in"]
        if cc in SHORT: ctors.append(f"(short new_{SHORT[cc]}_in)")
        for c in ctors:
            seed+=1
            zst = seed%5==0
            emit(kind,cc,lit,arch,sig(seed,1+seed%4,cc),RETS[seed%len(RETS)] if arch!="x86" else "u64","ZstD" if zst else CAPS[seed%len(CAPS)],S[seed%4],c,"AnyAlloc","typed","closure",F("CTOR",*(["ZST"] if zst else [])))
# storage bounds: every kind x bound, typed, capturing
for kind in KINDS:
    for s in S:
        for cc,lit in (("C","C"),("CUnwind","C-unwind")):
            emit(kind,cc,lit,"",["u64","f64"],"u64","Cap",s,"try_with_cc_in","AnyAlloc","typed","closure",F("BOUND"))
# factories
for kind,pre in (("Fn","make"),("FnMut","make_mut"),("FnOnce","make_once")):
    for suf,s in (("",S[3]),("_send",S[1]),("_sync",S[2]),("_send_sync",S[0])):
        for cc,lit in (("C","C"),("CUnwind","C-unwind"),("Rust","Rust")):
            seed+=1
            cap = "ZstD" if seed%6==0 else CAPS[seed%len(CAPS)]
            emit(kind,cc,lit,"",sig(seed,seed%6,cc),RETS[seed%9],cap,s,f"(factory {pre}{suf})","AnyAlloc","typed","packed",F("FACTORY",*(["ZST"] if cap=="ZstD" else [])))
# instrumentation in front of a thunk
FRONT={"Fn":"front","FnMut":"front_mut","FnOnce":"front_once"}
for kind in KINDS:
    for j,(cc,lit,arch) in enumerate(CCS):
        for layers in ("front","front2"):
            seed+=1
            if arch=="x86" and (seed+j)%2: continue
            r=RETS[seed%len(RETS)]
            if r=="u128" and arch=="x86": r="u64"
            cap="ZstD" if seed%8==0 else CAPS[seed%len(CAPS)]
            emit(kind,cc,lit,arch,sig(seed,seed%13,cc),r,cap,S[0],f"({layers} {FRONT[kind]})","AnyAlloc","typed","closure",F("FACTORY",*(["ZST"] if cap=="ZstD" else [])))
# allocator handles
for kind in KINDS:
    for al in ("&'static crate::simjit::SimHandle","&'static std::sync::LazyLock<crate::simjit::SimHandle>","std::sync::Arc<crate::simjit::SimHandle>","std::rc::Rc<crate::simjit::SimHandle>","Box<crate::simjit::SimHandle>","Box<std::sync::Arc<crate::simjit::SimHandle>>","Smart"):
        for c in ("try_with_cc_in","with_thunk_in"):
            seed+=1
            cap="ZstD" if seed%7==0 else "Cap"
            emit(kind,"CUnwind","C-unwind","",["u64","P16"],"u64",cap,S[0],c,al,"typed" if seed%2 else "untyped","closure",F("HANDLE",*(["ZST"] if cap=="ZstD" else [])))
# through the global allocator
G="closure_ffi::jit_alloc::GlobalJitAlloc"
for kind in KINDS:
    pre={"Fn":"make","FnMut":"make_mut","FnOnce":"make_once"}[kind]
    for cc,lit,arch in (("C","C",""),("CUnwind","C-unwind",""),("Rust","Rust",""),("System","system",""),("Efiapi","efiapi",""),("Sysv64","sysv64","x86_64"),("Aapcs","aapcs","arm")):
        cs=["new","with_cc","with_thunk"]
        if cc in SHORT: cs.append(f"(gshort new_{SHORT[cc]})")
        for c in cs:
            seed+=1
            emit(kind,cc,lit,arch,sig(seed,seed%5,cc),RETS[seed%3],"ZstD" if seed%9==0 else "Cap",S[seed%4],c,G,"typed","closure",F("GLOBAL",*(["ZST"] if seed%9==0 else [])))
    emit(kind,"C","C","",["u64"],"u64","Cap",S[0],f"(gfactory {pre}_send_sync)",G,"typed","packed",F("GLOBAL"))
# leaf closures: floating constants, tables, short bodies
LEAF=[("f64",["f64","f64"],"a0 * 3.140625 + a1 * 2.5e10 + c as f64"),
 ("f64",["f64"],"a0.abs() * 1.0e-3 - c as f64"),
 ("f32",["f32","f32"],"-(a0 * 0.7071067) + a1 + c as f32"),
 ("u64",["u64","u64"],"a0.wrapping_mul(0x9E37_79B9_7F4A_7C15).wrapping_add(a1) ^ c as u64"),
 ("u32",["u32"],"[0x11u32, 0x2222, 0x333333, 0x44444444, 9, 8, 7, 6][(a0 & 7) as usize].wrapping_add(c)"),
 ("i32",["i32","i32"],"if a0 > 100 { a1.wrapping_sub(c as i32) } else { a1.wrapping_add(c as i32) }"),
 ("f64",["u64"],"(a0 >> 12) as f64 * 0.1 + c as f64"),
 ("f64",["f64","u8"],"if a1 & 1 == 1 { a0 + 1.5 } else { a0 - 2.25 } * (c as f64 + 0.5)"),
 ("D16",["D16"],"{ let _ = c; a0 }"),
 ("u64",["u64"],"match a0 % 7 { 0 => 11, 1 => 222, 2 => 3333, 3 => c as u64, 4 => 5, 5 => a0, _ => 77 }"),
 ("f32",["f32","f32","f32","f32"],"(a0 * 1.1 + a1 * 2.2 + a2 * 3.3 + a3 * 4.4).abs() + c as f32"),
 # Long entry code: many saved registers, then constants.
 ("f64",["f64"]*8,"{ let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c as f64; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5; let r = (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); p * q * (p - q) + (q - r) * (r - p) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) * (a5 + a6 * 0.9) * a7 }"),
 ("f32",["f32"]*9,"{ let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + a8 * 0.1; let q = a1 * 3.5 - a2 * 4.5 + a3 * 5.5 - a4 * 6.5 + a5 * 7.5 - a6 * 8.5 + a7 * 9.5 + c as f32; let r = (a1 - q) * (a2 - 1.1) + (a3 - 2.2) * (a4 - 3.3) + (a5 - 4.4) * (a6 - 5.5) - (a7 - 6.6) * (a8 + 7.7); p * q + (q - r) * (p + 3.3) + (a1 + a2 * 0.3) * (a3 + a4 * 0.7) + (a5 + a6 * 0.9) * a8 }"),
 ("f64",["f64","f64","u64","u64","u64","u64","u64"],"{ let (mut x, mut y) = (a0 * 1.5, a1 + 0.5); let (mut s, mut t, mut u, mut v, mut w) = (a2, a3, a4, a5, a6); for i in 0..(a2 & 7) { s = s.wrapping_mul(t) ^ a6.wrapping_add(i); t = t.wrapping_add(u) ^ a5; u = u.rotate_left(7) ^ v; v = v.wrapping_mul(w | 1) ^ a4; w = w.wrapping_sub(s) ^ a3; x += (s >> 20) as f64; y -= (w >> 20) as f64; } x + y + (s ^ t ^ u ^ v ^ w ^ c as u64) as f64 }"),
 ("u64",["u64"]*12,"(a0 ^ 0x9E37_79B9_7F4A_7C15).wrapping_mul(a1).wrapping_add(a2 ^ 0xD1B5_4A32_D192_ED03).rotate_left((a3 & 31) as u32).wrapping_mul(a4 | 1).wrapping_add(a5 ^ a6).wrapping_mul(0x94D0_49BB_1331_11EB) ^ a7.wrapping_add(a8).wrapping_mul(a9 | 1) ^ (a10 & a11) ^ c as u64"),
 # Large and over-aligned stack frames.
 ("u64",["u64","f64"],"{ let mut b = [0u8; 20000]; b[(a0 % 20000) as usize] = a0 as u8; core::hint::black_box(&mut b); b[(a0 % 20000) as usize] as u64 + (a1 * 0.5) as i64 as u64 + c as u64 }"),
 ("u64",["u64","u64"],"{ #[repr(align(64))] struct A([u64; 16]); let mut b = A([a1; 16]); core::hint::black_box(&mut b); b.0[(a0 & 15) as usize] ^ a0 ^ c as u64 }"),
 # Static tables and far tables of branches.
 ("u64",["u8","u64"],"{ static T: [u64; 256] = { let mut t = [0; 256]; let mut i = 0; while i < 256 { t[i] = (i as u64 + 3) * 0x0101_0101_0101; i += 1; } t }; T[a0 as usize] ^ a1 ^ c as u64 }"),
 ("u128",["u128","u64"],"a0.wrapping_mul(0x1234_5678_9ABC_DEF0_0FED_CBA9_8765_4321) ^ (a1 as u128) << 17 ^ c as u128")]
# The captured value is used last and as it is, so the compiler loads the constants before it: these
# loads come in front of the place that is filled in, and must be relocated.
W8="{ let p = a0 * 1.5 + a1 * 2.25 + a2 * 3.75 + a3 * 4.125 + a4 * 5.2 + a5 * 6.3 + a6 * 7.4 + a7 * 8.5 + c; let q = a1 / 3.5 + a2 / 4.5 + a3 / 5.5 + a4 / 6.5 + a5 / 7.5 + a6 / 8.5 + a7 / 9.5; let r = p * (a1 - q) * (a2 - 1.1) * (a3 - 2.2) * (a4 - 3.3) * (a5 - 4.4) * (a6 - 5.5) * (a7 - 6.6); %s }"
LEAF64=[("f64",["f64"]*8,W8%"p * q * r * (p - q) * (q - r) * (r - p) + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7)"),
 ("f64",["f64"]*8,W8%"p * q * r + (1.0 / a1) * (a2 + 1.0 / a3) * (a4 + 1.0 / a5) * (a6 + 1.0 / a7)"),
 ("f64",["f64"],"a0 * 1.5 + c"),
 ("f64",["f64"],"a0.abs() * 1.5 + c"),
 ("f64",["f64"],"-a0 + c"),
 ("f32",["f32"],"a0.abs() * 1.5 + (c as f32)"),
 ("f64",["f64"],"(a0 + 0.5) * (a0 - 1.5) * c"),
 ("f64",["f64"]*2,"(a0 * 1.5) * (a1 * 2.5) + c"),
 ("f64",["f64"]*4,"(a0 * 1.5) * (a1 * 2.5) * (a2 * 3.5) * (a3 * 4.5) + c"),
 ("f64",["f64"]*4,"(a0.abs() + a1.abs() + a2.abs() + a3.abs()) * c"),
 ("f64",["u64"],"(a0 >> 12) as f64 * 0.1 * c"),
 ("f64",["u64"],"a0 as f64 * 0.1 + c"),
 ("f64",["f64"],"if a0 < 1.5 { a0 * 2.5 + c } else { a0 - c }"),
 ("f64",["f64"],"if a0 < 1.5 { a0.abs() * 2.5 + c } else { -a0 * 3.5 * c }"),
 ("u64",["f64"],"(a0 * 1.5) as u64 ^ c as u64"),
 ("f64",["f64"]*2,"a0.max(1.5) + a1.min(2.5) * c"),
 ("f64",["f64"]*2,"a0.copysign(1.5) + a1 * c"),
 ("f64",["f64"]*2,"(1.5 / a0) + (c / a1)"),
 ("f64",["f64"]*2,"(1.5 - a0) * (2.5 - a1) * c")]
# Random bodies: the entry code the compiler makes of them varies widely.
R=random.Random(20)
LT=["u64","f64","f32","u32","u8","i16"]
def lit(t):
    if t=="f64": return f"{round(R.uniform(.5,9),3)!r}f64"
    if t=="f32": return f"{round(R.uniform(.5,9),2)!r}f32"
    return {"u64":lambda:f"{R.getrandbits(R.choice([4,12,17,40,64])):#x}u64","u32":lambda:f"{R.getrandbits(R.choice([4,20,32]))}u32","u8":lambda:f"{R.getrandbits(8)}u8","i16":lambda:f"{R.getrandbits(14)}i16"}[t]()
def expr(t,vs,d):
    c=[v for v,x in vs if x==t]
    if d<=0: return R.choice(c) if c and R.random()<.7 else lit(t)
    k=R.random()
    e=lambda u=t:expr(u,vs,d-1)
    if k<.12: return f"(({e(R.choice([x for x in LT if x!=t]))}) as {t})"
    if k<.2: return f"(if {e('u64')} > {e('u64')} {{ {e()} }} else {{ {e()} }})"
    if k<.26: return f"(if {e('f64')} > {e('f64')} {{ {e()} }} else {{ {e()} }})"
    if t in ("f64","f32"):
        if k<.4: return f"({e()}).abs()"
        if k<.45: return f"(-({e()}))"
        if k<.5: return f"(({e()}).max({e()}))"
        if k<.55 and t=="f64": return f"far_f({e()}, {e()})"
        return f"({e()} {R.choice('+-*/')} {e()})"
    if k<.33 and t=="u64": return f"far_u({e()}, {e()})"
    if k<.38:
        m=R.choice([4,8,16]); return f"[{', '.join(lit(t) for _ in range(m))}][(({e()}) as usize) & {m-1}]"
    if k<.43: return f"({e()}).rotate_left(5)"
    if k<.48: return f"(match ({e()}) & 7 {{ 0 => {e()}, 1 => {lit(t)}, 2 => {lit(t)}, 3 => {e()}, 4 => {lit(t)}, _ => {e()} }})"
    return f"({e()}).{R.choice(['wrapping_add','wrapping_mul','wrapping_sub'])}({e()})"
RAND=[]
for _ in range(40):
    bias=R.choice([["f64"],["f32","f64"],["u64"],["u64","f64"],LT])
    a=[R.choice(bias) for _ in range(R.choice([0,1,1,2,2,3,4,5,8,12]))]
    r=R.choice(["u64","f64","f32","u32"]); ct=R.choice(["u64","f64","u32","f32"])
    vs=[(f"a{j}",t) for j,t in enumerate(a)]
    op=R.choice("+*-") if r[0]=="f" else R.choice("^|&")
    if R.random()<.3: b=expr(r,vs+[("c",ct)],R.choice([2,3,4]))
    else: b=expr(r,vs,R.choice([1,2,3,4,5]))
    if R.random()<.25: b=f"{{ let mut m = {b}; let mut k = 0u64; while k < (c as u64 & 3) {{ m = m {op} ({expr(r,vs,2)}); k += 1; }} m }}"
    RAND.append((ct,(r,a,f"({b}) {op} (c as {r})")))
# Bodies whose entry code needs several relocations, or leaves few registers for them.
DENSE=[["f64", ["f64", ["u64", "u64", "i16"], "(((((if (8.031f64 + 6.279f64) > (1.299f64 + 3.926f64) { (8.063f64).abs() } else { (0.693f64 * 0.858f64) }) * (if ((a1) as f64) > (0.847f64 * 6.732f64) { ((164u8) as f64) } else { (if 4.589f64 > 4.825f64 { 3.384f64 } else { 8.483f64 }) })) / (((((a0).wrapping_add(a1)) as f64)).max(((4.873f64 * 6.088f64) * (3.102f64).abs())))) - (((((220u8).wrapping_add(36u8)) as f64) * (-((if a1 > a1 { 2.914f64 } else { 2.893f64 })))) - (if (((7.887f64).max(6.609f64))).abs() > ((((a2) as u32)) as f64) { ((7.748f64 + 5.931f64)).abs() } else { ((0.556f64 / 4.834f64)).abs() })))) - (c as f64)"]],
 ["f64", ["f32", ["u64", "u64", "f64", "u64", "f64"], "((((((((if a2 > 5.106f64 { 213u8 } else { 220u8 })).wrapping_sub((if a2 > a2 { 93u8 } else { 242u8 }))) as i16)) as f32) - ((if ((((2.177f64).max(3.545f64))) as u64) > far_u(((a4) as u64),(a1).wrapping_sub(a1)) { ((8.24f32 / 1.5f32) + (1.23f32 - 0.73f32)) } else { ((2.64f32 - 3.84f32) + (if 0.837f64 > a4 { 4.88f32 } else { 5.12f32 })) }) - (((2.68f32 * 5.89f32)).abs()).abs()))) - (c as f32)"]],
 ["u32", ["f32", ["f64", "f64"], "(((((((3341i16).wrapping_mul(8565i16)) as f32) - ((3.54f32 + 7.92f32) / (4.09f32 - 7.61f32))) + (((8.34f32 - 1.89f32) / (-(2.37f32)))).abs()) - (((((13393i16).wrapping_sub(15752i16)) as f32) + (if (a0 / a0) > (a1 / a1) { (if 1.483f64 > a0 { 4.83f32 } else { 1.11f32 }) } else { (7.02f32 * 2.67f32) })) * ((-((if 0.744f64 > a0 { 2.94f32 } else { 1.77f32 }))) / (((0x7ffdu64) as f32) - (6.02f32 / 1.76f32)))))) + (c as f32)"]],
 ["u64", ["f64", ["u64", "f64", "f64", "f64", "f64", "u64", "f64", "u64", "u64", "f64", "u64", "u64"], "((((((if (if a9 > a3 { 0xfa53d7f2f1u64 } else { a10 }) > (match (0x0u64)&7 { 0=>0xf253u64,1=>0x3af34635aeu64,2=>0x76051503a4u64,3=>a0,4=>0x1e253u64,_=>0x20505acbc0u64 }) { (3004249466u32).wrapping_mul(3540566091u32) } else { ((5.4f32) as u32) })).rotate_left(5)) as f64) / (((((if a7 > 0x9u64 { 2u32 } else { 4033255208u32 })).wrapping_add((3387658006u32).wrapping_mul(3245418906u32))).wrapping_add([86938124u32,6u32,1024825u32,23065u32,6u32,363835u32,12u32,640325097u32][(((if a10 > a8 { 4u32 } else { 3236538417u32 })) as usize) & 7])) as f64))) - (c as f64)"]],
 ["u32", ["u32", ["f64"], "(((a0) as u32)) ^ (c as u32)"]],
 ["u32", ["u64", ["f64", "u64"], "(((((4.117f64 * a0)).abs()) as u64)) | (c as u64)"]],
 ["u64", ["f64", ["f64"], "((((if a0 > 7.961f64 { 8.79f32 } else { 1.73f32 })) as f64)) + (c as f64)"]],
 ["u32", ["u32", ["f64", "u64", "f64"], "(((((((2.6f32) as f64) - (a2 * 7.146f64))) as u32)).rotate_left(5)) & (c as u32)"]],
 ["f32", ["f32", ["f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64"], "((if a7 > 1.979f64 { 3.63f32 } else { 4.4f32 })) * (c as f32)"]],
 ["f32", ["f32", ["f64", "f64", "f64"], "(((if a0 > 4.687f64 { 3.16f32 } else { 3.85f32 }) / (1.31f32 + 4.8f32))) + (c as f32)"]],
 ["u32", ["f32", ["f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64"], "((((8.23f32 / 7.28f32)).max((if a1 > 6.526f64 { 3.1f32 } else { 6.31f32 })))) + (c as f32)"]],
 ["u64", ["f64", ["f64", "f64", "f64", "f64"], "((a1).abs()) * (c as f64)"]],
 ["f32", ["f32", ["u32", "u8", "f32", "u8", "f32", "f64", "f64", "u64", "u8", "u8", "f32", "f64"], "((a4).abs()) * (c as f32)"]],
 ["f64", ["f64", ["u64", "u64", "f64", "f64", "u64", "u64", "f64", "u64"], "((a6 * 2.91f64)) + (c as f64)"]],
 ["u64", ["f64", ["f64"], "((((3.269f64 * a0) / ((7.57f32) as f64)) / ((a0 - a0) * far_f(8.412f64,3.65f64)))) - (c as f64)"]],
 ["f64", ["f64", ["f64"], "((((3.761f64 + a0)).abs() - (if (a0 + a0) > ((0xdu64) as f64) { (-(a0)) } else { (a0 * 3.762f64) }))) * (c as f64)"]],
 ["u64", ["u64", ["f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64", "f64"], "(((((if (8.728f64 - 2.929f64) > ((a9).max(2.289f64)) { ((a0).max(a4)) } else { (a3 * 4.022f64) }) - ((a11 / a7) + (a5).abs()))) as u64)) ^ (c as u64)"]],
 ["f32", ["u32", ["u64", "u32", "f64", "i16"], "([3170611280u32,90667u32,696000u32,463561237u32,8u32,388521u32,768360u32,7u32,4u32,3643427490u32,2547704717u32,1690497763u32,731644238u32,8u32,15u32,12u32][(((if 0x678a5aa33b6fe507u64 > a0 { a1 } else { a1 })) as usize) & 15]) | (c as u32)"]],
 ["u32", ["u32", ["u64", "u64", "u64", "u64", "u64"], "({ let mut m=([3358250377u32,80375u32,2363412085u32,9u32,15u32,382616u32,591865u32,3973133406u32,7u32,112963u32,13u32,12983u32,2879396074u32,1u32,120693u32,3u32][((c) as usize) & 15]).wrapping_add(((6.288f64) as u32)); let mut k=0u64; while k < (c as u64 & 3) { m=m|(((match (845663u32)&7 { 0=>3905081881u32,1=>576936u32,2=>746178u32,3=>329734u32,4=>3u32,_=>1363292806u32 })).wrapping_add(((6.68f32) as u32))); k+=1; } m }) | (c as u32)"]],
 ["f32", ["u32", ["f64", "f32", "f32", "f32", "f64"], "([545015u32,10u32,14u32,11u32][(([309073u32,0u32,11u32,1942869849u32][((((a2) as u32)) as usize) & 3]) as usize) & 3]) | (c as u32)"]]]
for i,(ct,(r,args,e)) in enumerate([("u32",x) for x in LEAF]+[("f64",x) for x in LEAF64]+RAND+DENSE):
    for kind in KINDS:
        for j,(cc,lit_,arch) in enumerate(CCS):
            if arch=="x86" and cc not in("Fastcall","Cdecl"): continue
            if arch=="x86" and "u128" in args: continue
            if cc in ("SystemUnwind","Sysv64Unwind","Win64Unwind","AapcsUnwind"): continue
            if i<len(LEAF):
                if (i+len(cc))%2 and cc not in ("C","Rust"): continue
            elif kind!=KINDS[(i+j)%3] or cc in ("System","Sysv64","CUnwind","Cdecl"): continue
            m=f"s{n}"
            cfgs=([f'target_arch = "{arch}"'] if arch else [])+(['not(feature = "few")'] if spare(cc,arch,"LEAF") else [])
            cfg=f'#[cfg(all({", ".join(cfgs)}))] ' if cfgs else ''
            a=", ".join(f"a{j}: {t}" for j,t in enumerate(args))
            out.append(f'{cfg}leaf!({m}, {n}, {kind}, {cc}, "{lit_}", ({a}), {r}, |c: {ct}| {e});')
            rows.append(f'    {cfg}Shape {{ sid: {n}, name: "{kind} {lit_} leaf {i}", kind: Kind::{kind}, cc: "{lit_}", arity: {len(args)}, zst: false, tracked: false, counts: false, observed: false, unwind: {"true" if unw(cc) else "false"}, fallible: true, toks: false, fam: fam::LEAF, make: {m}::make, inv: {m}::inv }},')
            n+=1
for kind,mod in (("Fn","hr_fn"),("FnMut","hr_mut"),("FnOnce","hr_once")):
    special(f"{kind} hrtb C",kind,"C",2,f"{mod}::make_c","inv_c",F("HRTB"),True,False)
    special(f"{kind} hrtb Rust",kind,"Rust",2,f"{mod}::make_rust","inv_rust",F("HRTB"),False,True)
    special(f"{kind} hrtb C-unwind",kind,"C-unwind",7,f"{mod}::make_many","inv_many",F("HRTB"),True,True)
    special(f"{kind} hrtb factory",kind,"C",2,f"{mod}::make_front","inv_c",F("HRTB","FACTORY"),True,False)
    special(f"{kind} hrtb zero-sized",kind,"C",2,f"{mod}::make_zst","inv_c",F("HRTB","ZST"),True,False,zst=True)
    special(f"{kind} hrtb system",kind,"system",2,f"{mod}::make_gen","inv_gen",F("HRTB"),False,False)
for kind,l in (("Fn",("fn_0","fn_1","fn_4","fn_9")),("FnMut",("mut_0","mut_1","mut_4","mut_7")),("FnOnce",("once_0","once_1","once_4","once_8"))):
    for x in l:
        special(f"{kind} variadic {x}",kind,"C...",int(x.split("_")[1]),f"va::{x}::make",f"va::{x}::inv",F("VARIADIC"),False,False,'feature = "lane-nightly"')
        special(f"{kind} variadic factory {x}",kind,"C...",int(x.split("_")[1]),f"va::{x}::make_front",f"va::{x}::inv",F("VARIADIC","FACTORY"),True,False,'feature = "lane-nightly"')
dst=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","src","shapes","table.rs")
with open(dst,"w") as f:
    f.write("// Generated by gen/mkshapes.py.\n#![allow(improper_ctypes_definitions, clippy::all, unused)]\n#![cfg_attr(rustfmt, rustfmt_skip)]\nuse super::{fam, special, Kind, Shape};\n\n")
    f.write("\n".join(out)); f.write("\n\npub static SHAPES: &[Shape] = &[\n"); f.write("\n".join(rows)); f.write("\n];\n")
print(n)
