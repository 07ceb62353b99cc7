#!/usr/bin/env python3
"""Generates contracts/prelude_ops.rs: assumed contracts of num-bigint's operator impls."""
out=[]
A=out.append
A("// GENERATED by tools/gen_ops.py. Assumed contracts of num_bigint::BigInt's operators (trusted).")
A("#[allow(unused_imports)]\nuse super::*;")
OPS=[("Add","add","bi(L + R)","true"),("Sub","sub","bi(L - R)","true"),("Mul","mul","bi(L * R)","true"),
     ("Div","div","bi(tdiv(L, R))","R != 0"),("Rem","rem","bi(trem(L, R))","R != 0")]
def val(t,e):
    return f"{e}.v@" if 'BigInt' in t else f"({e} as int)"
def gens(*ts):
    g=[]
    if ts[0].startswith('&'): g.append("'a")
    if len(ts)>1 and ts[1].startswith('&'): g.append("'b")
    return ("<"+", ".join(g)+">" if g else "")
def lt(t,l): return t.replace('&',"&"+l+" ")
pairs=[("BigInt","BigInt"),("&BigInt","BigInt"),("BigInt","&BigInt"),("&BigInt","&BigInt")]
prims=["i32","i64","u32","u64","usize"]
for p in prims:
    pairs+= [("BigInt",p),("&BigInt",p),(p,"BigInt"),(p,"&BigInt")]
for T,m,spec,req in OPS:
    for l,r in pairs:
        L,R=val(l,"self"),val(r,"rhs")
        g=gens(l,r); lt_l,lt_r=lt(l,"'a"),lt(r,"'b")
        sp=spec.replace("L","@@").replace("R",R).replace("@@",L); rq=req.replace("R",R)
        A(f"impl{g} vstd::std_specs::ops::{T}SpecImpl<{lt_r}> for {lt_l} {{ open spec fn obeys_{m}_spec() -> bool {{ true }} open spec fn {m}_req(self, rhs: {lt_r}) -> bool {{ {rq} }} open spec fn {m}_spec(self, rhs: {lt_r}) -> BigInt {{ {sp} }} }}")
        A(f"impl{g} std::ops::{T}<{lt_r}> for {lt_l} {{ type Output = BigInt; #[verifier::external_body] fn {m}(self, rhs: {lt_r}) -> BigInt {{ unimplemented!() }} }}")
    for r in ["BigInt","&BigInt"]+prims:
        R=val(r,"rhs"); g="<'b>" if r[0]=='&' else ""; lr=lt(r,"'b")
        sp=spec.replace("L","self.v@").replace("R",R); rq=req.replace("R",R)
        A(f"impl{g} vstd::std_specs::ops::{T}AssignSpecImpl<{lr}> for BigInt {{ open spec fn obeys_{m}_assign_spec() -> bool {{ true }} open spec fn {m}_assign_req(&self, rhs: {lr}) -> bool {{ {rq} }} open spec fn {m}_assign_spec(&self, rhs: {lr}) -> &BigInt {{ &{sp} }} }}")
        A(f"impl{g} std::ops::{T}Assign<{lr}> for BigInt {{ #[verifier::external_body] fn {m}_assign(&mut self, rhs: {lr}) {{ unimplemented!() }} }}")
for T,m,spec in [("Shl","shl","bi(L * p2(rhs as nat))"),("Shr","shr","bi(L / p2(rhs as nat))")]:
    for l in ["BigInt","&BigInt"]:
        g=gens(l); ll=lt(l,"'a"); sp=spec.replace("L","self.v@")
        A(f"impl{g} vstd::std_specs::ops::{T}SpecImpl<usize> for {ll} {{ open spec fn obeys_{m}_spec() -> bool {{ true }} open spec fn {m}_req(self, rhs: usize) -> bool {{ true }} open spec fn {m}_spec(self, rhs: usize) -> BigInt {{ {sp} }} }}")
        A(f"impl{g} std::ops::{T}<usize> for {ll} {{ type Output = BigInt; #[verifier::external_body] fn {m}(self, rhs: usize) -> BigInt {{ unimplemented!() }} }}")
    sp=spec.replace("L","self.v@")
    A(f"impl vstd::std_specs::ops::{T}AssignSpecImpl<usize> for BigInt {{ open spec fn obeys_{m}_assign_spec() -> bool {{ true }} open spec fn {m}_assign_req(&self, rhs: usize) -> bool {{ true }} open spec fn {m}_assign_spec(&self, rhs: usize) -> &BigInt {{ &{sp} }} }}")
    A(f"impl std::ops::{T}Assign<usize> for BigInt {{ #[verifier::external_body] fn {m}_assign(&mut self, rhs: usize) {{ unimplemented!() }} }}")
for l in ["BigInt","&BigInt"]:
    g=gens(l); ll=lt(l,"'a")
    A(f"impl{g} vstd::std_specs::ops::NegSpecImpl for {ll} {{ open spec fn obeys_neg_spec() -> bool {{ true }} open spec fn neg_req(self) -> bool {{ true }} open spec fn neg_spec(self) -> BigInt {{ bi(-self.v@) }} }}")
    A(f"impl{g} std::ops::Neg for {ll} {{ type Output = BigInt; #[verifier::external_body] fn neg(self) -> BigInt {{ unimplemented!() }} }}")
for p in prims:
    A(f"impl vstd::std_specs::convert::FromSpecImpl<{p}> for BigInt {{ open spec fn obeys_from_spec() -> bool {{ true }} open spec fn from_spec(v: {p}) -> BigInt {{ bi(v as int) }} }}")
    A(f"impl From<{p}> for BigInt {{ #[verifier::external_body] fn from(v: {p}) -> BigInt {{ unimplemented!() }} }}")
open('/verif/contracts/prelude_ops.rs','w').write("\n".join(out)+"\n")
