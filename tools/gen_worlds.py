#!/usr/bin/env python3
"""Generates the replacement `fields.rs` files for the model-checking worlds:
   mc/worlds/mini.rs, mc/worlds/nano.rs (committed; regenerating gives identical files).
   The parameter tuples were found by exhaustive search over small (d1,d2,dA1,dA2,b):
       m1^2 * dA1^2 * d1 + m2^2 * dA2^2 * d2 = 2^b .
"""
import os, sys
from math import gcd, isqrt
OUT=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","mc","worlds")

def is_prime(n):
    if n<2: return False
    for q in (2,3,5,7,11,13,17,19,23,29,31,37):
        if n%q==0: return n==q
    d,s=n-1,0
    while d%2==0: d//=2; s+=1
    for a in (2,3,5,7,11,13,17,19,23,29,31,37,41,43,47):
        x=pow(a,d,n)
        if x in (1,n-1): continue
        for _ in range(s-1):
            x=x*x%n
            if x==n-1: break
        else: return False
    return True
def val(f):
    r=1
    for p,e in f: r*=p**e
    return r
def limbs(x,n,w=64): return [(x>>(w*i))&((1<<w)-1) for i in range(n)]
def l64(x,n): return "["+", ".join("0x%016X"%v for v in limbs(x,n))+"]"
def l32(x):
    n=max(1,(x.bit_length()+31)//32)
    return n,"["+", ".join("0x%08X"%v for v in limbs(x,n,32))+"]"

def fp_mod(name,p,extra=""):
    B=p.bit_length(); N=(B+63)//64
    assert p%8==7 and B>64*(N-1) and p>2**64
    R=1<<(64*N)
    n1=(2*B-34)//31; n2=2*B-31*n1-2
    def digits(e):
        el=0
        while e%(1<<(5*(el+1)))==0: el+=1
        e>>=5*el
        d=[]
        while e: d.append(e&31); e>>=5
        return d,el
    EH,EL=digits((p+1)//4); FH,FL=digits((p+1)//8)
    P1=p>>(B-32); assert P1>2**31
    s=f"""pub mod {name} {{
    const N: usize = {N};
    const BITLEN: usize = {B};
    const MODULUS: [u64; N] = {l64(p,N)};
    const HALF_MODULUS: [u64; N] = {l64((p+1)//2,N)};
    const R_VAL: [u64; N] = {l64(R%p,N)};
    const MINUS_R_VAL: [u64; N] = {l64(-R%p,N)};
    const DR_VAL: [u64; N] = {l64(2*R%p,N)};
    const TR_VAL: [u64; N] = {l64(3*R%p,N)};
    const QR_VAL: [u64; N] = {l64(4*R%p,N)};
    const R2_VAL: [u64; N] = {l64(R*R%p,N)};
    const P0I: u64 = {(-pow(p,-1,1<<64))%(1<<64)};
    const TFIXDIV_VAL: [u64; N] = {l64(pow(2,33*n1+64-n2+2*64*N,p),N)};
    const TDEC_VAL: [u64; N] = {l64(pow(2,64*(2*N-1),p),N)};
    const WIN_LEN: usize = 5;
    const SQRT_EH: [u8; {len(EH)}] = {EH};
    const SQRT_EL: usize = {EL};
    const FOURTH_ROOT_EH: [u8; {len(FH)}] = {FH};
    const FOURTH_ROOT_EL: usize = {FL};
    const P1: u64 = {P1};
    const P1DIV_M: u64 = {1+((2**32-P1)*2**64)//P1};
    crate::finitefield::fp_gen::define_fp_core! {{}}
}}
"""
    return s
def nqr_re(p):
    x=1
    while True:
        # x+i non-square in Fp2 iff x^2+1 non-square in Fp
        if pow(x*x+1,(p-1)//2,p)==p-1: return x
        x+=1
def ext_mod(name,base,p,body=""):
    N=(p.bit_length()+63)//64
    R=1<<(64*N)
    return f"""pub mod {name} {{
    use num_bigint::BigUint;
    use super::{base}::Fp;
    const NQR_RE: Fp = Fp::new({l64(nqr_re(p)*R%p,N)});
{body}
    crate::finitefield::fp2_gen::define_fp2_core! {{}}
}}
"""
def strategy(n,mul=2,ev=1):
    """optimal strategy (De Feo-Jao-Pluet) for a chain with n leaves, as a list of n-1 doublings"""
    S={1:[]}; C={1:0}
    for i in range(2,n+1):
        b,cost=min(((b,C[i-b]+C[b]+b*mul+(i-b)*ev) for b in range(1,i)),key=lambda t:t[1])
        S[i]=[b]+S[i-b]+S[b]; C[i]=cost
    return S[n]
def valid_strategy(st,n):
    # same walk as product_isogeny
    level=[0]; prev=0; i=0
    while prev!=n-1:
        level.append(st[i]); prev+=st[i]; i+=1
    level.pop()
    for k in range(1,n):
        prev=sum(level)
        while prev!=n-1-k:
            level.append(st[i]); prev+=st[i]; i+=1
        level.pop()
    return i==len(st)

def festa_world(name,b,d1,d2,a1,a2,m1,m2,mult,maxbits,full,c=1):
    L=b+2
    D1,D2,A1,A2=val(d1),val(d2),val(a1)**2,val(a2)**2
    if m1: assert m1*m1*A1*D1+m2*m2*A2*D2==1<<b
    else: m1=m2=1   # key generation only
    base=(1<<L)*D1*D2*val(a1)*val(a2)
    f=full
    x=base*f//gcd(1,1)
    while True:
        p=x*c-1
        if p.bit_length()>=67 and is_prime(p): break
        c+=2 if x.bit_length()>=67 else 1
        if c%2==0: c+=1
    # keep v2(p+1)==L : c odd and f odd
    assert (p+1)%(1<<L)==0 and ((p+1)>>L)%2==1 and p%8==7
    assert p.bit_length()<=maxbits,(p.bit_length())
    fa=lambda f:"[(u32, u32); %d] = [%s]"%(len(f),", ".join("(%d, %d)"%t for t in f))
    da=[(q,2) for q,_ in a1]+[(q,2) for q,_ in a2]
    st=strategy(b) if False else strategy(b)
    assert valid_strategy(st,b)
    def c32(nm,v):
        n,s=l32(v); return f"    pub const {nm}: [u32; {n}] = {s};\n"
    body=""
    body+=c32("D1",D1)+f"    pub const D1_FACTORED: {fa(d1)};\n"
    body+=c32("D2",D2)+f"    pub const D2_FACTORED: {fa(d2)};\n"
    body+=c32("DA",A1*A2)+f"    pub const DA_FACTORED: {fa(da)};\n"
    body+=c32("DA1",A1)+f"    pub const DA1_FACTORED: {fa(a1)};\n"
    body+=c32("DA2",A2)+f"    pub const DA2_FACTORED: {fa(a2)};\n"
    body+=c32("M1",m1)+c32("M2",m2)
    body+=f"    pub const L_POWER: u32 = {L};\n    pub const THETA_ISOGENY_LENGTH: u32 = {b};\n"
    body+=c32("BASIS_ORDER",p+1)+c32("BIGUINT_MODULUS",p)
    body+=f"    pub const THETA_STRATEGY: [usize; {len(st)}] = {st};\n"
    print(name,"p=",p,"bits",p.bit_length(),"c=",c,"v2",L,"p+1 factors",full,c,file=sys.stderr)
    # factors of p+1 that are < 50, with multiplicities (harness enumerates isogeny degrees from it)
    return p,fp_mod("FpFESTA",p)+ext_mod("FpFESTAExt","FpFESTA",p,body)

HEAD="""// GENERATED by tools/gen_worlds.py -- replacement for src/fields.rs under cfg(festa_mc).
"""
def next_p7(x):
    while not (x%8==7 and is_prime(x)): x+=1
    return x
def prev_p7(x):
    while not (x%8==7 and is_prime(x)): x-=1
    return x

def main():
    os.makedirs(OUT,exist_ok=True)
    # --- mini
    p,s=festa_world("mini",47,[(3,2),(13,1)],[(5,2),(11,1)],[(7,1)],[(17,1),(19,1)],140121,991,1,124,
                    3**2*5*7*11)
    zoo=[("Z65",next_p7((1<<64)+(1<<63)+12345)), # top limb is 1
         ("Z96",next_p7((0x9E3779B97F4A7C15F39CC060)>>0)),
         ("Z127",(1<<127)-1),                   # all-ones limbs
         ("Z127b",next_p7((1<<126)+(1<<96)-100)),
         ("Z128",prev_p7((1<<128)-1)),          # no spare bit in the top limb
         ("Z191",prev_p7((1<<191)-19)),
         ("Z193",next_p7((1<<192)+(1<<161)+77)),
         ("Z254",next_p7((1<<253)+(0xDEADBEEF<<200))),
        ]
    for nm,q in zoo:
        assert is_prime(q) and q%8==7,(nm,q)
        s+=fp_mod(nm,q)+ext_mod(nm+"e",nm,q)
    tiny="pub mod tiny {\n    macro_rules! tiny_world { ($m:ident, $p:expr, $nqr:expr) => { pub mod $m {\n        pub mod base { pub const P: u64 = $p; crate::fields::tiny_fp! {} }\n        pub mod ext { use num_bigint::BigUint; use super::base::Fp; const NQR_RE: Fp = Fp::new([$nqr]); crate::finitefield::fp2_gen::define_fp2_core! {} }\n        pub mod ec { pub type Fq = super::ext::Fp2; crate::eccore::define_ec_core! {} }\n        pub mod th { pub use super::ec::{CouplePoint, Curve, EllipticProduct, Point, PointX}; pub type Fq = super::ext::Fp2; crate::theta::define_theta_structure! {} }\n    } } }\n"
    for q in (7,23,31,47,71,103):
        tiny+=f"    tiny_world! {{ p{q}, {q}, {nqr_re(q)} }}\n"
    tiny+="}\n"
    open(os.path.join(OUT,"mini.rs"),"w").write(HEAD+'include!(concat!(env!("FESTA_MC_DIR"), "/tiny_fp.rs"));\n'+s+tiny)
    # --- duo: composite d1 (with a prime power) and d2, m1 and m2 coprime to them
    p,s=festa_world("duo",32,[(5,2),(23,1)],[(11,1),(19,1)],[(13,1)],[(7,1)],163,409,1,124,3**4*5*7*11)
    open(os.path.join(OUT,"duo.rs"),"w").write(HEAD+s)
    # --- nano
    p,s=festa_world("nano",12,[(3,1)],[(13,1)],[(29,1)],[(11,1)],1,1,1,124,3*5*7*17)
    open(os.path.join(OUT,"nano.rs"),"w").write(HEAD+s)
    # --- pico: masks of 5 bits, for enumerating the key space (the trapdoor cannot be inverted here)
    p,s=festa_world("pico",3,[(5,1)],[(11,1)],[(7,1)],[(3,1)],0,0,1,124,5*7*3*13,(1<<42)+1)
    open(os.path.join(OUT,"pico.rs"),"w").write(HEAD+s)
main()
