//! Mechanical extraction of /repo/src into one Verus file, with the contracts of
//! /verif/contracts woven in.  The code text is taken from the source by byte ranges;
//! every edit made to it is one of the rewrites listed in DESIGN.md.
mod overlay;
mod render;
use overlay::*;
use render::*;
use serde_json::{json, Value};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::spanned::Spanned;

pub struct SrcFile { pub module: String, pub path: String, pub text: String, pub ast: syn::File }

/// One function found in the sources.
#[derive(Clone)]
pub struct FnInfo {
    pub key: String,
    pub file: usize,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub is_method: bool,
    pub line: usize,
}

pub fn norm_ty(t: &str) -> String {
    // strip lifetimes, whitespace and leading path segments
    let re = regex::Regex::new(r"'[a-z_]+\s*").unwrap();
    let t = re.replace_all(t, "");
    let t: String = t.chars().filter(|c| !c.is_whitespace()).collect();
    let re2 = regex::Regex::new(r"([A-Za-z_0-9]+::)+").unwrap();
    re2.replace_all(&t, "").replace("<>", "")
}
pub fn strip_ref(t: &str) -> String {
    let mut s = t.to_string();
    loop {
        if let Some(r) = s.strip_prefix('&') { s = r.to_string(); continue; }
        break;
    }
    if s.starts_with("mut") && s.len() > 3 && s.chars().nth(3).unwrap().is_uppercase() { s = s[3..].to_string(); }
    s
}
pub fn tyname(t: &syn::Type) -> String { norm_ty(&quote::quote!(#t).to_string()) }

pub const OPTRAITS: &[(&str, &str, &str)] = &[("Add","add","+"),("Sub","sub","-"),("Mul","mul","*"),("Div","div","/"),("Rem","rem","%")];

struct OpMacro { op: String, params: Vec<(syn::Ident, syn::Type)>, ret: Option<syn::Type>, body: syn::Block, ex: bool }
impl syn::parse::Parse for OpMacro {
    fn parse(input: syn::parse::ParseStream) -> syn::Result<Self> {
        let mut op = String::new();
        while !input.peek(syn::Token![|]) {
            let p: proc_macro2::TokenTree = input.parse()?;
            op.push_str(&p.to_string());
            if op.len() > 4 { return Err(input.error("operator")); }
        }
        input.parse::<syn::Token![|]>()?;
        let mut params = vec![];
        while !input.peek(syn::Token![|]) {
            let _m: Option<syn::Token![mut]> = input.parse()?;
            let id: syn::Ident = input.parse()?;
            input.parse::<syn::Token![:]>()?;
            let ty: syn::Type = input.call(syn::Type::without_plus)?;
            params.push((id, ty));
            if input.peek(syn::Token![,]) { input.parse::<syn::Token![,]>()?; }
        }
        input.parse::<syn::Token![|]>()?;
        let ret = if input.peek(syn::Token![->]) { input.parse::<syn::Token![->]>()?; Some(input.parse()?) } else { None };
        let body = input.parse()?;
        Ok(OpMacro { op, params, ret, body, ex: true })
    }
}

pub struct Out { pub s: String, pub fns: Vec<Value>, pub dropped: Vec<String>, pub notes: Vec<String> }
impl Out {
    fn line(&self) -> usize { self.s.matches('\n').count() + 1 }
}

/// `use a::{b, c as d}` as one path per leaf
fn use_leaves(t: &syn::UseTree, pre: String, out: &mut Vec<String>) {
    match t {
        syn::UseTree::Path(p) => use_leaves(&p.tree, format!("{}{}::", pre, p.ident), out),
        syn::UseTree::Name(n) if n.ident == "self" => out.push(pre.trim_end_matches("::").to_string()),
        syn::UseTree::Name(n) => out.push(format!("{}{}", pre, n.ident)),
        syn::UseTree::Rename(n) if n.ident == "self" => out.push(format!("{} as {}", pre.trim_end_matches("::"), n.rename)),
        syn::UseTree::Rename(n) => out.push(format!("{}{} as {}", pre, n.ident, n.rename)),
        syn::UseTree::Glob(_) => out.push(format!("{}*", pre)),
        syn::UseTree::Group(g) => for x in &g.items { use_leaves(x, pre.clone(), out) },
    }
}
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| {
        let s = quote::quote!(#a).to_string().replace(' ', "");
        s == "#[test]" || s.starts_with("#[cfg(test)")
    })
}

fn key_of_trait_impl(module: &str, selfty: &str, tr: &str, m: &str) -> String {
    // operator traits are keyed by operator, ignoring references
    let (base, arg) = match tr.find('<') { Some(i) => (&tr[..i], &tr[i+1..tr.len()-1]), None => (tr, "Self") };
    for (t, _, o) in OPTRAITS {
        if base == *t { return format!("{}::op{}({},{})", module, o, strip_ref(selfty), strip_ref(if arg == "Self" { selfty } else { arg })); }
        if base == format!("{}Assign", t) { return format!("{}::op{}=({},{})", module, o, strip_ref(selfty), strip_ref(if arg == "Self" { selfty } else { arg })); }
    }
    if base == "Neg" { return format!("{}::neg({})", module, strip_ref(selfty)); }
    format!("{}::{}:{}::{}", module, strip_ref(selfty), tr, m)
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let cfg: Value = serde_json::from_str(&std::fs::read_to_string(&args[1]).unwrap()).unwrap();
    let src = cfg["src"].as_str().unwrap();
    let contracts = cfg["contracts"].as_str().unwrap();
    let out_rs = cfg["out_rs"].as_str().unwrap();
    let out_json = cfg["out_json"].as_str().unwrap();
    let demote: HashMap<String, String> = cfg["demote"].as_object().map(|o| o.iter().map(|(k, v)| (k.clone(), v.as_str().unwrap_or("").to_string())).collect()).unwrap_or_default();
    let drop_uses: BTreeSet<String> = cfg["drop_uses"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
    let verify: Option<BTreeSet<String>> = cfg["verify"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect());
    let verify_props: Option<BTreeSet<String>> = cfg["verify_props"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect());
    let vacuity = cfg["vacuity"].as_bool().unwrap_or(false);
    let mut ov = Overlay::load(contracts);
    if vacuity { for fc in ov.fns.values_mut() { fc.begin.push_str("\nproof { assert(false); }\n"); } }
    // ---- read sources ----
    let libtext = std::fs::read_to_string(format!("{}/lib.rs", src)).unwrap();
    let lib: syn::File = syn::parse_file(&libtext).expect("lib.rs");
    let mut files: Vec<SrcFile> = vec![];
    for it in &lib.items {
        if let syn::Item::Mod(m) = it {
            if m.content.is_some() || is_test(&m.attrs) { continue; }
            let name = m.ident.to_string();
            if name == "assert_eq_str" { continue; }
            let mut p = format!("{}/{}.rs", src, name);
            if !std::path::Path::new(&p).exists() { p = format!("{}/{}/mod.rs", src, name); }
            let text = match std::fs::read_to_string(&p) { Ok(t) => t, Err(_) => continue };
            match syn::parse_file(&text) {
                Ok(ast) => files.push(SrcFile { module: name, path: p, text, ast }),
                Err(e) => { eprintln!("PARSE-ERROR {} {}", p, e); std::process::exit(3); }
            }
        }
    }
    // ---- index functions (for inlining of helpers without contract) ----
    let mut index: BTreeMap<String, Vec<FnInfo>> = BTreeMap::new();
    let mut all_names: HashMap<String, usize> = HashMap::new();
    for (fi, f) in files.iter().enumerate() {
        for it in &f.ast.items {
            match it {
                syn::Item::Fn(x) if !is_test(&x.attrs) => {
                    let key = format!("{}::{}", f.module, x.sig.ident);
                    index.entry(x.sig.ident.to_string()).or_default().push(FnInfo { key, file: fi, sig: x.sig.clone(), block: (*x.block).clone(), is_method: false, line: x.sig.span().start().line });
                }
                syn::Item::Impl(im) if !is_test(&im.attrs) => {
                    let st = strip_ref(&tyname(&im.self_ty));
                    for ii in &im.items {
                        if let syn::ImplItem::Fn(x) = ii {
                            *all_names.entry(x.sig.ident.to_string()).or_default() += 1;
                            if im.trait_.is_none() {
                                let key = format!("{}::{}::{}", f.module, st, x.sig.ident);
                                let is_method = x.sig.receiver().is_some();
                                index.entry(x.sig.ident.to_string()).or_default().push(FnInfo { key, file: fi, sig: x.sig.clone(), block: x.block.clone(), is_method, line: x.sig.span().start().line });
                            }
                        }
                    }
                }
                _ => {}
            }
        }
    }
    let env = Env { files: &files, ov: &ov, index: &index, demote: &demote, drop_uses: &drop_uses, verify: &verify, verify_props: &verify_props };
    let mut out = Out { s: String::new(), fns: vec![], dropped: vec![], notes: vec![] };
    if cfg["noiso"].as_bool().unwrap_or(false) { out.s.push_str("#![verifier::loop_isolation(false)]\n#![verifier::allow_complex_invariants]\n"); }
    out.s.push_str("#![allow(warnings)]\nuse vstd::prelude::*;\nverus! {\n");
    let prelude = std::fs::read_to_string(format!("{}/prelude.rs", contracts)).unwrap()
        .replace("include!(\"prelude_ops.rs\");", &std::fs::read_to_string(format!("{}/prelude_ops.rs", contracts)).unwrap());
    out.s.push_str(&prelude);
    for (name, text) in &ov.libs {
        out.s.push_str(&format!("\n//@@LIB {}\npub mod {} {{\nuse vstd::prelude::*;\nuse crate::vx::*;\n{}\n}}\n//@@ENDLIB\n", name, name, text));
    }
    let mods: Vec<Value> = vec![];
    let mut seen: BTreeSet<String> = BTreeSet::new();
    for (fi, f) in files.iter().enumerate() {
        if !ov.modules.contains(&f.module) { out.dropped.push(format!("module {} (no contracts)", f.module)); continue; }
        out.s.push_str(&format!("\npub mod {} {{\nuse vstd::prelude::*;\nuse crate::vx::*;\nuse crate::vx::num_traits::*; use crate::vx::num_integer::*; use crate::vx::collections::*;\n", f.module));
        for (name, _) in &ov.libs { out.s.push_str(&format!("use crate::{}::*;\n", name)); }
        if let Some(t) = ov.module_text.get(&f.module) { out.s.push_str(t); out.s.push('\n'); }
        for it in &f.ast.items { env.item(fi, it, &mut out, &mut seen); }
        out.s.push_str("}\n");
    }
    out.s.push_str("\n} // verus!\nfn main() {}\n");
    let missing: Vec<String> = ov.fns.keys().filter(|k| !seen.contains(*k)).cloned().collect();
    std::fs::write(out_rs, &out.s).unwrap();
    std::fs::write(out_json, serde_json::to_string_pretty(&json!({
        "mods": mods, "fns": out.fns, "dropped": out.dropped, "notes": out.notes, "missing": missing,
    })).unwrap()).unwrap();
}

pub struct Env<'a> {
    pub files: &'a Vec<SrcFile>,
    pub ov: &'a Overlay,
    pub index: &'a BTreeMap<String, Vec<FnInfo>>,
    pub demote: &'a HashMap<String, String>,
    pub drop_uses: &'a BTreeSet<String>,
    pub verify: &'a Option<BTreeSet<String>>,
    pub verify_props: &'a Option<BTreeSet<String>>,
}

impl<'a> Env<'a> {

    fn item(&self, fi: usize, it: &syn::Item, out: &mut Out, seen: &mut BTreeSet<String>) {
        let f = &self.files[fi];
        let m = &f.module;
        match it {
            syn::Item::Use(u) => {
                if is_test(&u.attrs) { return; }
                let mut leaves: Vec<String> = vec![];
                use_leaves(&u.tree, String::new(), &mut leaves);
                let glob = if u.leading_colon.is_some() { "::" } else { "" };
                for l in leaves {
                    let t = format!("use {}{};", glob, rewrite_use(&l));
                    if self.drop_uses.contains(&t) { out.dropped.push(t); } else { out.s.push_str(&format!("#[allow(unused_imports)] {}\n", t)); }
                }
            }
            syn::Item::Type(t) => { out.s.push_str(&format!("pub {}\n", rewrite_paths(&{ let mut t = t.clone(); t.vis = syn::Visibility::Inherited; t.attrs.clear(); quote::quote!(#t).to_string() }))); }
            syn::Item::Const(c) => { out.s.push_str(&format!("pub {}\n", rewrite_paths(&{ let mut t = c.clone(); t.vis = syn::Visibility::Inherited; t.attrs.clear(); quote::quote!(#t).to_string() }))); }
            syn::Item::Struct(s) => self.strukt(fi, s, out, seen),
            syn::Item::Trait(t) => {
                let name = t.ident.to_string();
                let k = format!("{}::{}", m, name);
                if let Some(extra) = self.ov.traits.get(&k) {
                    let g = &t.generics;
                    out.s.push_str(&format!("pub trait {}{}: Sized {{\n{}\n", name, quote::quote!(#g), extra));
                    for ti in &t.items {
                        if let syn::TraitItem::Fn(x) = ti {
                            let spec = self.ov.traitfns.get(&format!("{}::{}", k, x.sig.ident)).cloned().unwrap_or_default();
                            out.s.push_str(&format!("{}\n{};\n", sig_text(&f.text, &x.sig), spec));
                        }
                    }
                    out.s.push_str("}\n");
                } else { out.dropped.push(format!("trait {}", k)); }
            }
            syn::Item::Fn(x) => {
                if is_test(&x.attrs) { return; }
                let key = format!("{}::{}", m, x.sig.ident);
                if let Some(fc) = self.ov.fns.get(&key) {
                    seen.insert(key.clone());
                    self.function(fi, &key, &key, fc, &x.sig, &x.block, "pub ", out);
                } else { out.dropped.push(format!("fn {}", key)); }
            }
            syn::Item::Impl(im) => self.implb(fi, im, out, seen),
            syn::Item::Macro(mac) => {
                let name = mac.mac.path.segments.last().unwrap().ident.to_string();
                if name == "impl_op_ex" || name == "impl_op" {
                    match syn::parse2::<OpMacro>(mac.mac.tokens.clone()) {
                        Ok(mut o) => { o.ex = name == "impl_op_ex"; self.opmacro(fi, &o, out, seen) }
                        Err(e) => out.notes.push(format!("cannot parse {}: {}", name, e)),
                    }
                } else { out.dropped.push(format!("macro {}!", name)); }
            }
            syn::Item::ExternCrate(_) => {}
            syn::Item::Mod(mm) => { out.dropped.push(format!("mod {}::{}", m, mm.ident)); }
            _ => out.dropped.push(format!("item in {}", m)),
        }
    }

    fn derived_default(&self, t: &str) -> bool {
        self.files.iter().any(|f| f.ast.items.iter().any(|i| matches!(i, syn::Item::Struct(s) if s.ident == t && s.attrs.iter().any(|a| a.path().is_ident("derive") && quote::quote!(#a).to_string().contains("Default")))))
    }

    fn mode(&self, key: &str, fc: &FnContract) -> (String, String) {
        if let Some(r) = self.demote.get(key) { return ("undecided".into(), r.clone()); }
        if fc.opts.contains("trusted") { return ("trusted".into(), "contract assumed".into()); }
        if let Some(v) = self.verify { if !v.contains(key) { return ("assumed".into(), "not in this check".into()); } }
        if let Some(v) = self.verify_props { if !fc.props.iter().any(|p| v.contains(p)) { return ("assumed".into(), format!("discharged by {}", fc.props.join(" "))); } }
        ("body".into(), String::new())
    }

    /// Emits one function (free, inherent, or inside a trait impl).
    fn function(&self, fi: usize, key: &str, label: &str, fc: &FnContract, sig: &syn::Signature, block: &syn::Block, vis: &str, out: &mut Out) {
        let f = &self.files[fi];
        let (mut mode, mut why) = self.mode(key, fc);
        let mut sigt = sig_text(&f.text, sig);
        let params: Vec<String> = sig.inputs.iter().filter_map(|a| if let syn::FnArg::Typed(p) = a { Some(pat_names(&p.pat)) } else { None }).flatten().collect();
        let ret_ty = match &sig.output { syn::ReturnType::Type(_, t) => Some(rewrite_paths(&quote::quote!(#t).to_string())), _ => None };
        let r = self.body(fi, key, fc, &params, ret_ty.as_deref(), block, "", out);
        let rename = r.rename.clone();
        let mut bodytext = r.text;
        if fc.opts.contains("push_loops") && sig.inputs.iter().any(|a| match a { syn::FnArg::Receiver(_) => true, syn::FnArg::Typed(p) => quote::quote!(#p).to_string().contains("& mut") }) { mode = "undecided".into(); why = "a loop is skipped although the function has parameters it could change".into(); }
        if let Some(e) = &r.error { if mode == "body" { mode = "undecided".into(); why = e.clone(); } }
        let spec = subst(&fc.spec, &rename);
        if mode != "body" { bodytext = "{ unimplemented!() }".into(); sigt = format!("#[verifier::external_body]\n{}{}", vis, sigt); }
        else { sigt = format!("{}{}", vis, sigt); }
        let l0 = out.line();
        out.s.push_str(&format!("{}{}\n{}\n{}\n", if mode == "body" { fc.attr.clone() } else { String::new() }, sigt, spec, bodytext));
        let l1 = out.line();
        out.fns.push(json!({"key": key, "label": label, "lines": [l0, l1], "mode": mode, "why": why, "src": f.path, "src_line": sig.span().start().line, "lenient": r.lenient, "inits": r.inits, "heads": r.heads, "binders": r.binders, "nloops": r.nloops, "calls": r.calls, "inlined": r.inlined, "uncontracted": r.uncontracted, "edits": r.edit_kinds, "props": fc.props}));
    }

    fn implb(&self, fi: usize, im: &syn::ItemImpl, out: &mut Out, seen: &mut BTreeSet<String>) {
        if is_test(&im.attrs) { return; }
        let f = &self.files[fi];
        let st = tyname(&im.self_ty);
        let gen = &im.generics;
        let gen = quote::quote!(#gen).to_string();
        let self_ty = &im.self_ty;
        let self_txt = rewrite_paths(&quote::quote!(#self_ty).to_string());
        match &im.trait_ {
            None => {
                out.s.push_str(&format!("impl{} {} {{\n", gen, self_txt));
                for ii in &im.items {
                    if let syn::ImplItem::Fn(x) = ii {
                        if is_test(&x.attrs) { continue; }
                        let key = format!("{}::{}::{}", f.module, strip_ref(&st), x.sig.ident);
                        if let Some(fc) = self.ov.fns.get(&key) {
                            seen.insert(key.clone());
                            self.function(fi, &key, &key, fc, &x.sig, &x.block, "pub ", out);
                        } else { out.dropped.push(format!("fn {}", key)); }
                    }
                }
                out.s.push_str("}\n");
            }
            Some((_, path, _)) => {
                let tr = norm_ty(&quote::quote!(#path).to_string());
                let ptxt = rewrite_paths(&quote::quote!(#path).to_string());
                let ik = format!("{}::{}:{}", f.module, strip_ref(&st), tr);
                let fns: Vec<&syn::ImplItemFn> = im.items.iter().filter_map(|i| if let syn::ImplItem::Fn(x) = i { Some(x) } else { None }).collect();
                let keys: Vec<String> = fns.iter().map(|x| key_of_trait_impl(&f.module, &st, &tr, &x.sig.ident.to_string())).collect();
                let extra = self.ov.impls.get(&ik).cloned();
                if extra.is_none() && !keys.iter().any(|k| self.ov.fns.contains_key(k)) {
                    out.dropped.push(format!("impl {}", ik));
                    return;
                }
                // spec impl for std traits
                for (x, k) in fns.iter().zip(&keys) {
                    if let Some(fc) = self.ov.fns.get(k) {
                        if fc.opspec.is_some() || fc.opreq.is_some() { out.s.push_str(&self.spec_impl(&tr, &ptxt, &gen, &self_txt, &x.sig.ident.to_string(), fc.opreq.as_deref().unwrap_or("true"), fc.opspec.as_deref())); }
                    }
                }
                out.s.push_str(&format!("impl{} {} for {} {{\n{}\n", gen, ptxt, self_txt, extra.unwrap_or_default()));
                for ii in &im.items { if let syn::ImplItem::Type(t) = ii { out.s.push_str(&format!("{}\n", rewrite_paths(&quote::quote!(#t).to_string()))); } }
                for (x, k) in fns.iter().zip(&keys) {
                    if let Some(fc) = self.ov.fns.get(k) {
                        seen.insert(k.clone());
                        let label = format!("{} [{} for {}]", k, ptxt, self_txt);
                        self.function(fi, k, &label, fc, &x.sig, &x.block, "", out);
                    } else {
                        // a method without contract in an impl we keep
                        let empty = FnContract::default();
                        let mut d = empty.clone(); d.opts.insert("trusted".into());
                        self.function(fi, k, k, &d, &x.sig, &x.block, "", out);
                        out.notes.push(format!("no contract for {}", k));
                    }
                }
                out.s.push_str("}\n");
            }
        }
    }

    fn spec_impl(&self, tr: &str, ptxt: &str, gen: &str, self_txt: &str, fname: &str, req: &str, spec: Option<&str>) -> String {
        let base = tr.split('<').next().unwrap().to_string();
        let arg = match ptxt.find('<') { Some(i) => ptxt[i..].to_string(), None => String::new() };
        let argty = if arg.is_empty() { "Self".to_string() } else { arg[1..arg.rfind('>').unwrap()].to_string() };
        let ob = spec.is_some();
        let s = spec.unwrap_or("vstd::pervasive::arbitrary()").replace("$l", "self").replace("$r", "rhs");
        let rq = req.replace("$l", "self").replace("$r", "rhs");
        match base.as_str() {
            "PartialEq" => format!("impl{gen} vstd::std_specs::cmp::PartialEqSpecImpl for {self_txt} {{ open spec fn obeys_eq_spec() -> bool {{ true }} open spec fn eq_spec(&self, rhs: &Self) -> bool {{ {s} }} }}\n"),
            "PartialOrd" => format!("impl{gen} vstd::std_specs::cmp::PartialOrdSpecImpl for {self_txt} {{ open spec fn obeys_partial_cmp_spec() -> bool {{ true }} open spec fn partial_cmp_spec(&self, rhs: &Self) -> Option<std::cmp::Ordering> {{ {s} }} }}\n"),
            "Ord" => format!("impl{gen} vstd::std_specs::cmp::OrdSpecImpl for {self_txt} {{ open spec fn obeys_cmp_spec() -> bool {{ true }} open spec fn cmp_spec(&self, rhs: &Self) -> std::cmp::Ordering {{ {s} }} }}\n"),
            "Neg" => format!("impl{gen} vstd::std_specs::ops::NegSpecImpl for {self_txt} {{ open spec fn obeys_neg_spec() -> bool {{ {ob} }} open spec fn neg_req(self) -> bool {{ {rq} }} open spec fn neg_spec(self) -> Self::Output {{ {s} }} }}\n"),
            b if b.ends_with("Assign") => format!("impl{gen} vstd::std_specs::ops::{b}SpecImpl{arg} for {self_txt} {{ open spec fn obeys_{fname}_spec() -> bool {{ {ob} }} open spec fn {fname}_req(&self, rhs: {argty}) -> bool {{ {rq} }} open spec fn {fname}_spec(&self, rhs: {argty}) -> &Self {{ &({s}) }} }}\n"),
            b => format!("impl{gen} vstd::std_specs::ops::{b}SpecImpl{arg} for {self_txt} {{ open spec fn obeys_{fname}_spec() -> bool {{ {ob} }} open spec fn {fname}_req(self, rhs: {argty}) -> bool {{ {rq} }} open spec fn {fname}_spec(self, rhs: {argty}) -> Self::Output {{ {s} }} }}\n"),
        }
    }

    fn opmacro(&self, fi: usize, o: &OpMacro, out: &mut Out, seen: &mut BTreeSet<String>) {
        let f = &self.files[fi];
        let m = &f.module;
        let tn = |t: &syn::Type| strip_ref(&tyname(t));
        let (key, fname, tr);
        if o.params.len() == 1 { key = format!("{}::neg({})", m, tn(&o.params[0].1)); fname = "neg".to_string(); tr = "Neg".to_string(); }
        else {
            let assign = o.op.ends_with('=');
            let base = o.op.trim_end_matches('=');
            let e = match OPTRAITS.iter().find(|x| x.2 == base) { Some(e) => e, None => { out.notes.push(format!("operator {}", o.op)); return; } };
            key = format!("{}::op{}({},{})", m, o.op, tn(&o.params[0].1), tn(&o.params[1].1));
            fname = if assign { format!("{}_assign", e.1) } else { e.1.to_string() };
            tr = if assign { format!("{}Assign", e.0) } else { e.0.to_string() };
        }
        let fc = match self.ov.fns.get(&key) { Some(fc) => fc, None => { out.dropped.push(format!("impl {}", key)); return; } };
        seen.insert(key.clone());
        let base_ty = |t: &syn::Type| -> String { let mut t = t.clone(); while let syn::Type::Reference(r) = t { t = *r.elem; } rewrite_paths(&quote::quote!(#t).to_string()) };
        let isref = |t: &syn::Type| matches!(t, syn::Type::Reference(_));
        let lty = base_ty(&o.params[0].1);
        let assign = fname.ends_with("_assign");
        let mut variants: Vec<(bool, bool)> = vec![];
        if o.params.len() == 1 { if o.ex { variants.push((true, false)); } variants.push((if o.ex { false } else { isref(&o.params[0].1) }, false)); if o.ex {} }
        else if assign { if o.ex { variants.push((false, true)); variants.push((false, false)); } else { variants.push((false, isref(&o.params[1].1))); } }
        else if o.ex {
            // impl_op_ex makes the borrowed parameters also available by value
            let lrefs = if isref(&o.params[0].1) { vec![true, false] } else { vec![false] };
            let rrefs = if isref(&o.params[1].1) { vec![true, false] } else { vec![false] };
            for l in &lrefs { for r in &rrefs { variants.push((*l, *r)); } }
        } else { variants.push((isref(&o.params[0].1), isref(&o.params[1].1))); }
        for (lr, rr) in variants {
            let mut gens: Vec<&str> = vec![];
            if lr { gens.push("'b"); }
            if rr { gens.push("'a"); }
            let gen = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
            let self_txt = if lr { format!("&'b {}", lty) } else { lty.clone() };
            let (mode, why) = self.mode(&key, fc);
            let mut mode = mode; let mut why = why;
            let an = o.params[0].0.to_string();
            let (ptxt, sigt, params);
            if o.params.len() == 1 {
                ptxt = "std::ops::Neg".to_string();
                params = vec![an.clone()];
                sigt = "fn neg(self) -> (vr: Self::Output)".to_string();
            } else {
                let rty = base_ty(&o.params[1].1);
                let rt = if rr { format!("&'a {}", rty) } else { rty.clone() };
                let bn = o.params[1].0.to_string();
                params = vec![an.clone(), bn.clone()];
                ptxt = format!("std::ops::{}<{}>", tr, rt);
                sigt = if assign { format!("fn {}(&mut self, {}: {})", fname, bn, rt) } else { format!("fn {}(self, {}: {}) -> (vr: Self::Output)", fname, bn, rt) };
            }
            let ret_ty = o.ret.as_ref().map(|t| rewrite_paths(&quote::quote!(#t).to_string()));
            // by-value forms: impl_op_ex! calls the written body with references to the operands
            let mut pre = if assign { format!("let mut {} = self;", an) } else if !lr && isref(&o.params[0].1) { format!("let {} = &self;", an) } else { format!("let {} = self;", an) };
            if o.params.len() == 2 && !rr && isref(&o.params[1].1) { pre.push_str(&format!(" let {0} = &{0};", o.params[1].0)); }
            let r = self.body(fi, &key, fc, &params, ret_ty.as_deref(), &o.body, &pre, out);
            if let Some(e) = &r.error { if mode == "body" { mode = "undecided".into(); why = e.clone(); } }
            let rename = r.rename.clone();
            if fc.opspec.is_some() || fc.opreq.is_some() {
                out.s.push_str(&self.spec_impl(&tr, &ptxt, &gen, &self_txt, &fname, fc.opreq.as_deref().unwrap_or("true"), fc.opspec.as_deref()));
            }
            out.s.push_str(&format!("impl{} {} for {} {{\n", gen, ptxt, self_txt));
            if let Some(t) = &ret_ty { out.s.push_str(&format!("type Output = {};\n", t)); }
            let l0 = out.line();
            let spec = subst(&fc.spec, &rename);
            if mode == "body" { out.s.push_str(&format!("{}{}\n{}\n{}\n", fc.attr, sigt, spec, r.text)); }
            else { out.s.push_str(&format!("#[verifier::external_body]\n{}\n{}\n{{ unimplemented!() }}\n", sigt, spec)); }
            let l1 = out.line();
            out.s.push_str("}\n");
            out.fns.push(json!({"key": key, "label": format!("{} [{} for {}]", key, ptxt, self_txt), "lines": [l0, l1], "mode": mode, "why": why, "src": f.path, "src_line": o.body.span().start().line, "lenient": r.lenient, "inits": r.inits, "heads": r.heads, "binders": r.binders, "nloops": r.nloops, "calls": r.calls, "inlined": r.inlined, "uncontracted": r.uncontracted, "edits": r.edit_kinds, "props": fc.props}));
        }
    }

    fn strukt(&self, fi: usize, s: &syn::ItemStruct, out: &mut Out, seen: &mut BTreeSet<String>) {
        let f = &self.files[fi];
        let m = &f.module;
        let name = s.ident.to_string();
        let g = &s.generics;
        let mut names: Vec<String> = vec![];
        match &s.fields {
            syn::Fields::Named(n) => {
                out.s.push_str(&format!("pub struct {}{} {{\n", name, quote::quote!(#g)));
                for fl in &n.named { let t = &fl.ty; let id = fl.ident.as_ref().unwrap(); names.push(id.to_string()); out.s.push_str(&format!("    pub {}: {},\n", id, rewrite_paths(&quote::quote!(#t).to_string()))); }
                out.s.push_str("}\n");
            }
            syn::Fields::Unnamed(u) => {
                let ts: Vec<String> = u.unnamed.iter().map(|x| { let t = &x.ty; format!("pub {}", rewrite_paths(&quote::quote!(#t).to_string())) }).collect();
                out.s.push_str(&format!("pub struct {}({});\n", name, ts.join(", ")));
            }
            syn::Fields::Unit => out.s.push_str(&format!("pub struct {};\n", name)),
        }
        let mut derives: Vec<String> = vec![];
        for a in &s.attrs {
            if a.path().is_ident("derive") {
                let _ = a.parse_nested_meta(|mm| { derives.push(mm.path.segments.last().unwrap().ident.to_string()); Ok(()) });
            }
        }
        for d in &derives {
            let tk = format!("{}::{}:{}", m, name, d);
            let emit = |fkey: String, head: String, sig: String, spec: String, body: String, out: &mut Out| {
                let fc0 = FnContract::default();
                let fc = self.ov.fns.get(&fkey).unwrap_or(&fc0);
                let (mode, why) = self.mode(&fkey, fc);
                out.s.push_str(&head);
                let l0 = out.line();
                if mode == "body" { out.s.push_str(&format!("{}\n{}\n{}\n", sig, spec, body)); }
                else { out.s.push_str(&format!("#[verifier::external_body]\n{}\n{}\n{{ unimplemented!() }}\n", sig, spec)); }
                let l1 = out.line();
                out.s.push_str("}\n");
                out.fns.push(json!({"key": fkey, "label": format!("{} (expanded derive)", fkey), "lines": [l0, l1], "mode": mode, "why": why, "src": f.path, "src_line": s.span().start().line, "binders": [], "nloops": 0, "calls": [], "inlined": [], "uncontracted": [], "edits": ["derive"], "props": fc.props}));
            };
            match d.as_str() {
                "Clone" => {
                    let k = format!("{}::clone", tk);
                    if let Some(fc) = self.ov.fns.get(&k) {
                        seen.insert(k.clone());
                        let spec = if fc.spec.trim().is_empty() { "ensures vr == *self,".to_string() } else { fc.spec.clone() };
                        let body = format!("{{ {} {{ {} }} }}", name, names.iter().map(|n| format!("{}: self.{}.clone()", n, n)).collect::<Vec<_>>().join(", "));
                        emit(k, format!("impl Clone for {} {{\n", name), "fn clone(&self) -> (vr: Self)".into(), spec, body, out);
                    }
                }
                "Copy" => out.s.push_str(&format!("impl Copy for {} {{}}\n", name)),
                "PartialEq" => {
                    let k = format!("{}::eq", tk);
                    if let Some(fc) = self.ov.fns.get(&k) {
                        seen.insert(k.clone());
                        let sp = self.spec_impl("PartialEq", "PartialEq", "", &name, "eq", "true", Some(fc.opspec.as_deref().unwrap_or("true")));
                        let body = format!("{{ {} }}", names.iter().map(|n| format!("self.{} == other.{}", n, n)).collect::<Vec<_>>().join(" && "));
                        emit(k, format!("{}impl PartialEq for {} {{\n", sp, name), "fn eq(&self, other: &Self) -> bool".into(), String::new(), body, out);
                        if derives.contains(&"Eq".to_string()) { out.s.push_str(&format!("impl Eq for {} {{}}\n", name)); }
                    }
                }
                "Default" => {
                    let k = format!("{}::default", tk);
                    if let Some(fc) = self.ov.fns.get(&k) {
                        seen.insert(k.clone());
                        let body = format!("{{ {} {{ {} }} }}", name, names.iter().map(|n| format!("{}: Default::default()", n)).collect::<Vec<_>>().join(", "));
                        emit(k, format!("impl Default for {} {{\n", name), "fn default() -> (vr: Self)".into(), fc.spec.clone(), body, out);
                    } else if let syn::Fields::Named(n) = &s.fields {
                        // no contract of its own: the standard meaning, field by field
                        let mut sp: Vec<String> = vec![]; let mut bd: Vec<String> = vec![]; let mut ok = true;
                        for fl in &n.named {
                            let (t, id) = (&fl.ty, fl.ident.as_ref().unwrap().to_string());
                            let t = quote::quote!(#t).to_string().replace(' ', "");
                            match t.as_str() {
                                "i8" | "i16" | "i32" | "i64" | "u8" | "u16" | "u32" | "u64" | "usize" | "isize" => { sp.push(format!("vr.{} == 0", id)); bd.push(format!("{}: 0", id)); }
                                "bool" => { sp.push(format!("vr.{} == false", id)); bd.push(format!("{}: false", id)); }
                                "BigInt" | "num_bigint::BigInt" => { sp.push(format!("vr.{}@ == 0", id)); bd.push(format!("{}: Default::default()", id)); }
                                _ => {
                                    let tail = format!("::{}:Default::default", t.rsplit("::").next().unwrap());
                                    match self.ov.fns.iter().find(|(k, _)| k.ends_with(&tail)) {
                                        Some((_, c)) if c.spec.trim_start().starts_with("ensures") => { sp.push(c.spec.trim_start().trim_start_matches("ensures").trim().trim_end_matches(',').replace("vr", &format!("vr.{}", id))); bd.push(format!("{}: Default::default()", id)); }
                                        _ => { if self.derived_default(&t) { sp.push(format!("call_ensures(<{} as Default>::default, (), vr.{})", t, id)); bd.push(format!("{}: Default::default()", id)); } else { ok = false; } }
                                    }
                                }
                            }
                        }
                        if ok { emit(k, format!("impl Default for {} {{\n", name), "fn default() -> (vr: Self)".into(), format!("ensures {},", sp.join(", ")), format!("{{ {} {{ {} }} }}", name, bd.join(", ")), out); }
                    }
                }
                _ => {}
            }
        }
    }
}
