//! Rendering of a function body: the source text plus a list of disjoint byte-range edits.
use crate::overlay::*;
use crate::*;
use std::collections::HashMap;
use syn::visit::{self, Visit};

const EXT: &str = r"\b(num_bigint|num_integer|num_traits|num_iter|primes)\s*::";
pub fn rewrite_paths(t: &str) -> String {
    let re = regex::Regex::new(EXT).unwrap();
    let s = re.replace_all(t, "crate::vx::$1::").to_string();
    let re = regex::Regex::new(r"\bstd\s*::\s*collections\b").unwrap();
    let s = re.replace_all(&s, "crate::vx::collections").to_string();
    let re = regex::Regex::new(r"\bstd\s*::\s*(fmt|string)\b").unwrap();
    let s = re.replace_all(&s, "crate::vx::$1").to_string();
    // the deprecated modules std::i32 ... : their constants are those of the types
    let re = regex::Regex::new(r"\b(?:std|core)\s*::\s*([iu](?:8|16|32|64|128|size))\s*::\s*(MAX|MIN)\b").unwrap();
    re.replace_all(&s, "$1::$2").to_string()
}
pub fn rewrite_use(t: &str) -> String { rewrite_paths(t) }

pub fn sig_text(text: &str, sig: &syn::Signature) -> String {
    let r = sig.span().byte_range();
    let whole = &text[r.clone()];
    let s = match &sig.output {
        syn::ReturnType::Type(_, t) => {
            let tr = t.span().byte_range();
            format!("{}(vr: {}){}", &text[r.start..tr.start], &text[tr.clone()], &text[tr.end..r.end])
        }
        _ => whole.to_string(),
    };
    rewrite_paths(&s)
}
pub fn pat_names(p: &syn::Pat) -> Vec<String> {
    struct V(Vec<String>);
    impl<'a> Visit<'a> for V { fn visit_pat_ident(&mut self, i: &'a syn::PatIdent) { self.0.push(i.ident.to_string()); visit::visit_pat_ident(self, i); } }
    let mut v = V(vec![]);
    v.visit_pat(p);
    v.0
}
pub fn subst(text: &str, rename: &HashMap<String, String>) -> String {
    let re = regex::Regex::new(r"\$(it|o|n)(\d+)").unwrap();
    let t = re.replace_all(text, "vx_$1$2").replace("$r", "vx_ret");
    if rename.is_empty() { return t; }
    let re = regex::Regex::new(r"[A-Za-z_][A-Za-z_0-9]*").unwrap();
    // a name after `.` or `::` is a field / path segment, not a binder
    let mut out = String::new();
    let mut last = 0;
    for m in re.find_iter(&t) {
        let prev = t[..m.start()].chars().last();
        let prev2 = t[..m.start()].ends_with("::") || t[m.end()..].starts_with("::");
        out.push_str(&t[last..m.start()]);
        match rename.get(m.as_str()) {
            Some(n) if prev != Some('.') && !prev2 => out.push_str(n),
            _ => out.push_str(m.as_str()),
        }
        last = m.end();
    }
    out.push_str(&t[last..]);
    out
}

pub struct BodyOut { pub lenient: Option<String>, pub inits: Vec<(String, String)>, pub heads: Vec<String>, pub text: String, pub rename: HashMap<String, String>, pub error: Option<String>, pub binders: Vec<String>, pub nloops: usize, pub calls: Vec<String>, pub inlined: Vec<String>, pub uncontracted: Vec<String>, pub edit_kinds: Vec<String> }

struct Shared { muts: Vec<String>, inits: Vec<(String, String)>, heads: Vec<String>, binders: Vec<String>, nloops: usize, calls: Vec<String>, inlined: Vec<String>, uncontracted: Vec<String>, kinds: BTreeSet<String>, error: Option<String>, depth: usize }

struct R<'e, 'a> {
    env: &'e Env<'a>, fi: usize, fc: &'e FnContract, rename: &'e HashMap<String, String>,
    sh: &'e mut Shared,
    edits: Vec<(usize, usize, String)>,
    ret: Option<(String, String)>, // (type, proof text)
    selfname: Option<String>,
    in_closure: usize,
    has_return: bool,
    ends: Vec<(String, String)>,
}
impl<'e, 'a> R<'e, 'a> {
    fn text(&self) -> &'e str { let s: &str = &self.env.files[self.fi].text; unsafe { std::mem::transmute(s) } }
    fn rep(&mut self, s: usize, e: usize, t: impl Into<String>) { self.edits.push((s, e, t.into())); }
    fn kind(&mut self, k: &str) { self.sh.kinds.insert(k.to_string()); }
    fn apply(&mut self, s: usize, e: usize) -> String {
        let mut ed = std::mem::take(&mut self.edits);
        let idx: Vec<usize> = (0..ed.len()).collect();
        let mut z: Vec<(usize, usize, usize, String)> = idx.into_iter().zip(ed.drain(..)).map(|(i, (a, b, t))| (a, b, i, t)).collect();
        z.sort_by_key(|x| (x.0, x.1, x.2));
        let mut out = String::new();
        let mut pos = s;
        for (a, b, _, t) in z {
            if a < pos { self.sh.error.get_or_insert("overlapping rewrite".into()); continue; }
            out.push_str(&self.text()[pos..a]);
            out.push_str(&t);
            pos = b;
        }
        out.push_str(&self.text()[pos..e]);
        out
    }
    /// With `@@opt push_loops`: a loop whose only effect on what surrounds it is `X.push(..)` for one
    /// local X becomes "X may have grown"; what happens inside the loop is not verified.
    fn skip_loop(&mut self, whole: std::ops::Range<usize>, after: &str, body: &syn::Block) -> bool {
        if !self.fc.opts.contains("push_loops") { return false; }
        match only_pushes(&self.sh.muts, body) {
            Ok(Some(x)) => { self.rep(whole.start, whole.end, format!("crate::vx::vx_extended(&mut {}); {}", x, after)); self.kind("loop skipped (only pushes)"); true }
            Ok(None) => { self.rep(whole.start, whole.end, after.to_string()); self.kind("loop skipped (no effect outside)"); true }
            Err(e) => { self.sh.error.get_or_insert(format!("loop that should only push: {}", e)); false }
        }
    }
    fn loopc(&self, n: usize) -> LoopC {
        let mut c = self.fc.loops.get(&n).cloned().unwrap_or_default();
        for f in [&mut c.spec, &mut c.start, &mut c.end, &mut c.after, &mut c.pre] { *f = subst(f, self.rename); }
        c
    }
    fn macro_args(&self, m: &syn::Macro) -> Option<Vec<syn::Expr>> {
        use syn::punctuated::Punctuated;
        use syn::parse::Parser;
        Punctuated::<syn::Expr, syn::Token![,]>::parse_terminated.parse2(m.tokens.clone()).ok().map(|p| p.into_iter().collect())
    }
    fn do_macro(&mut self, m: &syn::Macro, whole: std::ops::Range<usize>) {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let chk = if let Some(c) = &self.fc.assert_if { format!("crate::vx::vx_check_if(Ghost({}), ", subst(c, self.rename)) } else if self.fc.opts.contains("assume_asserts") { "crate::vx::vx_check(".to_string() } else { "crate::vx::vx_assert(".to_string() };
        match name.as_str() {
            "assert" | "debug_assert" => {
                if let Some(a) = self.macro_args(m) {
                    let r = a[0].span().byte_range();
                    self.rep(whole.start, r.start, chk);
                    self.visit_expr(&a[0].clone());
                    self.rep(r.end, whole.end, ")");
                    self.kind("assert");
                } else { self.sh.error.get_or_insert("assert!".into()); }
            }
            "assert_eq" | "debug_assert_eq" | "assert_ne" | "debug_assert_ne" => {
                if let Some(a) = self.macro_args(m) {
                    let r0 = a[0].span().byte_range();
                    let r1 = a[1].span().byte_range();
                    self.rep(whole.start, r0.start, format!("{}(", chk));
                    self.visit_expr(&a[0].clone());
                    self.rep(r0.end, r1.start, if name.ends_with("ne") { ") != (" } else { ") == (" });
                    self.visit_expr(&a[1].clone());
                    self.rep(r1.end, whole.end, "))");
                    self.kind("assert");
                } else { self.sh.error.get_or_insert("assert_eq!".into()); }
            }
            "panic" | "unreachable" | "todo" | "unimplemented" => {
                let t = if self.fc.opts.contains("assume_asserts") { "crate::vx::vx_diverge()" } else { "crate::vx::vx_panic()" };
                self.rep(whole.start, whole.end, t); self.kind("panic");
            }
            "println" | "print" | "eprintln" | "eprint" | "dbg" if name != "dbg" => { self.rep(whole.start, whole.end, "()"); self.kind("print dropped"); }
            "write" | "writeln" | "format" => {
                // write!(dest, "lit {} ..", args): the arguments stay where they are
                let a = match self.macro_args(m) { Some(a) => a, None => { self.sh.error.get_or_insert(format!("{}! arguments", name)); return; } };
                let off = if name == "format" { 0 } else { 1 };
                let lit = match a.get(off) { Some(syn::Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(x), .. })) => x.clone(), None if name == "writeln" => { self.sh.error.get_or_insert("writeln!".into()); return; } _ => { self.sh.error.get_or_insert(format!("{}! without literal", name)); return; } };
                let mut text = lit.value();
                if name == "writeln" { text.push('\n'); }
                let (pieces, holes) = match fmt_pieces(&text) { Some(x) => x, None => { self.sh.error.get_or_insert(format!("{}! format string", name)); return; } };
                let args = &a[off + 1..];
                if holes.iter().filter(|h| h.is_empty()).count() != args.len() { self.sh.error.get_or_insert(format!("{}! arguments", name)); return; }
                let lr = lit.span().byte_range();
                let mut chain = "crate::vx::fmt::vx_fmt()".to_string();
                let close = if name == "format" { ".string()" } else { ")" };
                if off == 1 {
                    let dr = a[0].span().byte_range();
                    self.rep(whole.start, dr.start, "crate::vx::fmt::vx_write(");
                    self.visit_expr(&a[0].clone());
                    self.rep(dr.end, lr.start, ", ");
                } else { self.rep(whole.start, lr.start, ""); }
                let mut pos = lr.start;
                let mut next = 0;
                for (i, p) in pieces.iter().enumerate() {
                    if !p.is_empty() { chain.push_str(&format!(".lit({:?})", p)); }
                    if i < holes.len() {
                        if holes[i].is_empty() {
                            let ar = args[next].span().byte_range();
                            self.rep(pos, ar.start, format!("{}.arg(&(", chain));
                            self.visit_expr(&args[next].clone());
                            pos = ar.end; next += 1;
                            chain = "))".to_string();
                        } else { chain.push_str(&format!(".arg(&({}))", holes[i])); }
                    }
                }
                self.rep(pos, whole.end, format!("{}{}", chain, close));
                self.kind("formatting macro");
            }
            "vec" => {
                use syn::parse::Parser;
                let p = |i: syn::parse::ParseStream| -> syn::Result<(syn::Expr, syn::Expr)> { let a = i.parse()?; i.parse::<syn::Token![;]>()?; let b = i.parse()?; Ok((a, b)) };
                if let Ok((x, n)) = p.parse2(m.tokens.clone()) {
                    let (rx, rn) = (x.span().byte_range(), n.span().byte_range());
                    self.rep(whole.start, rx.start, "crate::vx::vx_vec(");
                    self.visit_expr(&x);
                    self.rep(rx.end, rn.start, ", ");
                    self.visit_expr(&n);
                    self.rep(rn.end, whole.end, ")");
                    self.kind("vec![e; n]");
                } else if let Some(a) = self.macro_args(m) { for e in a { self.visit_expr(&e.clone()); } }
            }
            _ => { self.sh.error.get_or_insert(format!("macro {}!", name)); }
        }
    }
    /// a helper without contract is inlined at its call site
    fn inline(&mut self, h: &FnInfo, recv: Option<&syn::Expr>, args: Vec<&syn::Expr>, whole: std::ops::Range<usize>) -> bool {
        if self.sh.depth > 6 { self.sh.error.get_or_insert("recursive helper".into()); return false; }
        if !h.sig.generics.params.iter().all(|g| matches!(g, syn::GenericParam::Lifetime(_))) { return false; }
        let hf = &self.env.files[h.file];
        let mut names = vec![]; let mut tys = vec![];
        let mut hself = None;
        for a in &h.sig.inputs {
            match a {
                syn::FnArg::Receiver(_) => { let n = format!("vx_self{}", self.sh.inlined.len()); hself = Some(n); }
                syn::FnArg::Typed(p) => {
                    names.push(hf.text[p.pat.span().byte_range()].to_string());
                    let t = &p.ty; tys.push(strip_lifetimes(&rewrite_paths(&quote::quote!(#t).to_string())));
                    for n in pat_names(&p.pat) { self.sh.inits.push((n.clone(), format!("param {}", quote::quote!(#t)))); self.sh.binders.push(n); }
                }
            }
        }
        if names.len() != args.len() { return false; }
        if hself.is_some() && recv.is_none() { return false; }
        let rt = match &h.sig.output { syn::ReturnType::Type(_, t) => rewrite_paths(&quote::quote!(#t).to_string()), _ => "()".into() };
        let rt = strip_lifetimes(&rt);
        let modname = &hf.module;
        if h.file != self.fi { self.sh.error.get_or_insert(format!("helper {} lives in module {}", h.key, modname)); return false; }
        // render arguments in place
        let mut pieces: Vec<(std::ops::Range<usize>, &syn::Expr)> = vec![];
        let mut head = "{ ".to_string();
        let mut tail = String::new();
        let simple_self = matches!(recv, Some(syn::Expr::Path(p)) if p.path.is_ident("self"));
        let mut selfname = self.selfname.clone();
        if let (Some(hn), Some(rv)) = (&hself, recv) {
            if !simple_self {
                let refd = match h.sig.receiver() { Some(r) if r.reference.is_some() => if r.mutability.is_some() { "&mut " } else { "&" }, _ => "" };
                head.push_str(&format!("let {} = {}(", hn, refd));
                pieces.push((rv.span().byte_range(), rv));
                selfname = Some(hn.clone());
            }
        }
        for a in &args { pieces.push((a.span().byte_range(), a)); }
        self.sh.inlined.push(h.key.clone());
        self.kind("helper inlined");
        // edits: text between pieces is replaced
        let mut pos = whole.start;
        let mut first_arg = true;
        for (i, (r, e)) in pieces.iter().enumerate() {
            let is_recv = i == 0 && !simple_self && recv.is_some() && hself.is_some();
            let t = if is_recv { head.clone() } else if first_arg {
                first_arg = false;
                let pre = if i == 0 { head.clone() } else { "); ".to_string() };
                format!("{}let ({},): ({},) = (", pre, names.join(", "), tys.join(", "))
            } else { ", ".to_string() };
            self.rep(pos, r.start, t);
            self.visit_expr(&(*e).clone());
            pos = r.end;
        }
        if pieces.is_empty() { tail.push_str(&head); }
        else if args.is_empty() { tail.push_str("); "); } else { tail.push_str(",); "); }
        self.sh.depth += 1;
        let r = h.block.span().byte_range();
        let (txt, has_ret) = {
            let mut v = R { env: self.env, fi: h.file, fc: self.fc, rename: self.rename, sh: self.sh, edits: vec![], ret: None, selfname, in_closure: 0, has_return: false, ends: vec![] };
            v.block_outer(&h.block, "");
            let t = v.apply(r.start, r.end);
            (t, v.has_return)
        };
        self.sh.depth -= 1;
        if has_ret { self.sh.error.get_or_insert(format!("helper {} has an early return", h.key)); }
        tail.push_str(&format!("let vx_inl: {} = {}; vx_inl }}", rt, txt));
        self.rep(pos, whole.end, tail);
        true
    }
    fn block_outer(&mut self, b: &syn::Block, begin: &str) {
        let r = b.span().byte_range();
        if !begin.is_empty() { self.rep(r.start + 1, r.start + 1, format!(" {} ", begin)); }
        let n = b.stmts.len();
        for (i, s) in b.stmts.iter().enumerate() {
            if i + 1 == n {
                if let Some((ty, pf)) = self.ret.clone() {
                    match s {
                        syn::Stmt::Expr(e, None) if !matches!(e, syn::Expr::Return(_)) => {
                            let er = e.span().byte_range();
                            // loops / ifs without value stay as they are when the function returns ()
                            if ty == "()" { self.visit_stmt(s); self.rep(er.end, er.end, format!("; {}", pf)); continue; }
                            self.rep(er.start, er.start, format!("let vx_ret: {} = ", ty));
                            self.visit_expr(e);
                            self.rep(er.end, er.end, format!(";\n{}\nvx_ret", pf));
                            continue;
                        }
                        _ => {
                            self.visit_stmt(s);
                            if ty == "()" { let er = s.span().byte_range(); self.rep(er.end, er.end, format!("\n{}\n", pf)); }
                            continue;
                        }
                    }
                }
            }
            self.visit_stmt(s);
        }
        if n == 0 { if let Some((ty, pf)) = &self.ret { if ty == "()" { let t = pf.clone(); self.rep(r.end - 1, r.end - 1, t); } } }
    }
    fn add_auto(&self, spec: &str, n: usize, has_break: bool) -> String {
        let mut s = spec.trim_end().to_string();
        if !s.is_empty() && !s.ends_with(',') { s.push(','); }
        let red = regex::Regex::new(r"\bdecreases\b").unwrap();
        let ree = regex::Regex::new(r"\bensures\b").unwrap();
        let (mut head, dec) = match red.find(&s) { Some(m) => (s[..m.start()].to_string(), s[m.start()..].to_string()), None => (s.clone(), format!("decreases vx_it{}.vx_left(),", n)) };
        if !has_break && !ree.is_match(&head) { head.push_str(&format!("\nensures vx_it{}.vx_done(),", n)); }
        format!("\n{}\n{}\n", head, dec)
    }
}
/// literal pieces and holes of a format string; `{}` is the empty hole, `{name}` names a variable
fn fmt_pieces(t: &str) -> Option<(Vec<String>, Vec<String>)> {
    let (mut pieces, mut holes, mut cur) = (vec![], vec![], String::new());
    let mut it = t.chars().peekable();
    while let Some(c) = it.next() {
        match c {
            '{' if it.peek() == Some(&'{') => { it.next(); cur.push('{'); }
            '}' if it.peek() == Some(&'}') => { it.next(); cur.push('}'); }
            '{' => {
                let mut h = String::new();
                loop { match it.next()? { '}' => break, x => h.push(x) } }
                if !(h.is_empty() || (h.chars().all(|c| c.is_alphanumeric() || c == '_') && !h.chars().next().unwrap().is_numeric())) { return None; }
                pieces.push(std::mem::take(&mut cur)); holes.push(h);
            }
            '}' => return None,
            c => cur.push(c),
        }
    }
    pieces.push(cur);
    Some((pieces, holes))
}
fn only_pushes(muts: &[String], body: &syn::Block) -> Result<Option<String>, String> {
    struct V<'m> { muts: &'m [String], pushed: BTreeSet<String>, err: Option<String> }
    impl<'m, 'a> Visit<'a> for V<'m> {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.err.get_or_insert("return".into()); }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.err.get_or_insert("?".into()); }
        fn visit_expr_unsafe(&mut self, _: &'a syn::ExprUnsafe) { self.err.get_or_insert("unsafe".into()); }
        fn visit_item(&mut self, _: &'a syn::Item) { self.err.get_or_insert("item".into()); }
        fn visit_label(&mut self, _: &'a syn::Label) { self.err.get_or_insert("label".into()); }
        fn visit_expr_break(&mut self, b: &'a syn::ExprBreak) { if b.label.is_some() { self.err.get_or_insert("labelled break".into()); } visit::visit_expr_break(self, b); }
        fn visit_expr_continue(&mut self, b: &'a syn::ExprContinue) { if b.label.is_some() { self.err.get_or_insert("labelled continue".into()); } }
        fn visit_expr_path(&mut self, p: &'a syn::ExprPath) { if let Some(i) = p.path.get_ident() { let i = i.to_string(); if self.muts.contains(&i) { self.err.get_or_insert(format!("{} is used otherwise", i)); } } }
        fn visit_expr_method_call(&mut self, m: &'a syn::ExprMethodCall) {
            if let syn::Expr::Path(p) = &*m.receiver { if let Some(i) = p.path.get_ident() { let i = i.to_string(); if m.method == "push" && self.muts.contains(&i) { self.pushed.insert(i); for a in &m.args { self.visit_expr(a); } return; } } }
            visit::visit_expr_method_call(self, m);
        }
        fn visit_macro(&mut self, m: &'a syn::Macro) {
            let n = m.path.segments.last().unwrap().ident.to_string();
            if !["println", "print", "eprintln", "eprint", "assert", "assert_eq", "assert_ne", "debug_assert", "debug_assert_eq", "vec", "format", "line", "panic", "unreachable"].contains(&n.as_str()) { self.err.get_or_insert(format!("{}!", n)); }
            let toks = m.tokens.to_string();
            for w in toks.split(|c: char| !(c.is_alphanumeric() || c == '_')) { if self.muts.iter().any(|x| x == w) || w == "return" { self.err.get_or_insert(format!("{} in {}!", w, n)); } }
        }
    }
    let mut v = V { muts, pushed: BTreeSet::new(), err: None };
    v.visit_block(body);
    if let Some(e) = v.err { return Err(e); }
    if v.pushed.len() > 1 { return Err("several vectors".into()); }
    Ok(v.pushed.into_iter().next())
}
fn strip_lifetimes(t: &str) -> String { regex::Regex::new(r"'[a-z_]+\s*").unwrap().replace_all(t, "").to_string() }
fn has_own_break(b: &syn::Block) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_break(&mut self, _: &'a syn::ExprBreak) { self.0 = true; }
        fn visit_expr_for_loop(&mut self, _: &'a syn::ExprForLoop) {}
        fn visit_expr_while(&mut self, _: &'a syn::ExprWhile) {}
        fn visit_expr_loop(&mut self, _: &'a syn::ExprLoop) {}
    }
    let mut v = V(false); v.visit_block(b); v.0
}
fn closure_returns(e: &syn::Expr) -> bool {
    struct V(bool);
    impl<'a> Visit<'a> for V {
        fn visit_expr_return(&mut self, _: &'a syn::ExprReturn) { self.0 = true; }
        fn visit_expr_try(&mut self, _: &'a syn::ExprTry) { self.0 = true; }
        fn visit_expr_closure(&mut self, _: &'a syn::ExprClosure) {}
    }
    let mut v = V(false); v.visit_expr(e); v.0
}
fn is_int_lit(e: &syn::Expr) -> bool {
    match e {
        syn::Expr::Lit(l) => matches!(l.lit, syn::Lit::Int(_)),
        syn::Expr::Unary(u) => matches!(u.op, syn::UnOp::Neg(_)) && is_int_lit(&u.expr),
        syn::Expr::Paren(p) => is_int_lit(&p.expr),
        _ => false,
    }
}

impl<'e, 'a, 'ast> Visit<'ast> for R<'e, 'a> {
    fn visit_item(&mut self, _: &'ast syn::Item) { self.sh.error.get_or_insert("nested item".into()); }
    fn visit_pat_ident(&mut self, i: &'ast syn::PatIdent) { self.sh.binders.push(i.ident.to_string()); if i.mutability.is_some() { self.sh.muts.push(i.ident.to_string()); } visit::visit_pat_ident(self, i); }
    fn visit_path(&mut self, p: &'ast syn::Path) {
        let first = p.segments[0].ident.to_string();
        let r = p.segments[0].ident.span().byte_range();
        if p.segments.len() > 1 {
            if ["num_bigint", "num_integer", "num_traits", "num_iter", "primes"].contains(&first.as_str()) { self.rep(r.start, r.start, "crate::vx::"); self.kind("external crate path"); }
            else if first == "std" && p.segments[1].ident == "collections" { let e = p.segments[1].ident.span().byte_range().end; self.rep(r.start, e, "crate::vx::collections"); }
        } else if first == "self" { if let Some(n) = self.selfname.clone() { self.rep(r.start, r.end, n); } }
        visit::visit_path(self, p);
    }
    fn visit_type(&mut self, t: &'ast syn::Type) { visit::visit_type(self, t); }
    fn visit_expr_closure(&mut self, c: &'ast syn::ExprClosure) { self.in_closure += 1; visit::visit_expr_closure(self, c); self.in_closure -= 1; }
    fn visit_expr_return(&mut self, e: &'ast syn::ExprReturn) {
        if self.in_closure == 0 { self.has_return = true; }
        if let (Some((ty, pf)), 0) = (self.ret.clone(), self.in_closure) {
            let r = e.return_token.span().byte_range();
            match &e.expr {
                Some(x) => {
                    let xr = x.span().byte_range();
                    self.rep(r.start, xr.start, format!("{{ let vx_ret: {} = ", ty));
                    self.visit_expr(x);
                    self.rep(xr.end, xr.end, format!("; {} return vx_ret; }}", pf));
                }
                None => self.rep(r.start, r.end, format!("{{ {} return; }}", pf)),
            }
            return;
        }
        visit::visit_expr_return(self, e);
    }
    fn visit_expr_continue(&mut self, e: &'ast syn::ExprContinue) {
        // the annotations at the end of the loop body also hold on this way out of it
        let lab = e.label.as_ref().map(|x| x.ident.to_string());
        let end = match &lab { None => self.ends.last(), Some(l) => self.ends.iter().rev().find(|x| &x.0 == l) }.map(|x| x.1.clone()).unwrap_or_default();
        if end.trim().is_empty() { return; }
        let r = e.span().byte_range();
        let t = self.text()[r.clone()].to_string();
        self.rep(r.start, r.end, format!("{{ {} {} }}", end, t));
    }
    fn visit_local(&mut self, l: &'ast syn::Local) {
        if let Some(i) = &l.init { let e = &i.expr; let t = quote::quote!(#e).to_string(); for x in pat_names(&l.pat) { self.sh.inits.push((x, t.clone())); } }
        visit::visit_local(self, l);
    }
    fn visit_expr_let(&mut self, l: &'ast syn::ExprLet) {
        let e = &l.expr; let t = quote::quote!(#e).to_string();
        for x in pat_names(&l.pat) { self.sh.inits.push((x, t.clone())); }
        visit::visit_expr_let(self, l);
    }
    fn visit_expr_index(&mut self, x: &'ast syn::ExprIndex) {
        self.visit_expr(&x.expr);
        if let syn::Expr::Range(r) = &*x.index { // slicing, not counting
            if let Some(a) = &r.start { self.visit_expr(a); }
            if let Some(b) = &r.end { self.visit_expr(b); }
        } else { self.visit_expr(&x.index); }
    }
    fn visit_expr_range(&mut self, x: &'ast syn::ExprRange) {
        let (Some(a), Some(b)) = (&x.start, &x.end) else { visit::visit_expr_range(self, x); return; };
        let (r, ar, br) = (x.span().byte_range(), a.span().byte_range(), b.span().byte_range());
        let f = if matches!(x.limits, syn::RangeLimits::HalfOpen(_)) { "range" } else { "range_inclusive" };
        self.rep(r.start, ar.start, format!("crate::vx::num_iter::{}(", f));
        self.visit_expr(a);
        self.rep(ar.end, br.start, ", ");
        self.visit_expr(b);
        self.rep(br.end, r.end, ")");
        self.kind("a..b as num_iter::range");
    }
    fn visit_expr_for_loop(&mut self, l: &'ast syn::ExprForLoop) {
        let n = self.sh.nloops; self.sh.nloops += 1;
        let c = self.loopc(n);
        if self.skip_loop(l.span().byte_range(), &c.after, &l.body) { return; }
        self.kind("for loop desugared");
        let ls = l.for_token.span().byte_range();
        let start = l.label.as_ref().map(|x| x.span().byte_range().start).unwrap_or(ls.start);
        let label = l.label.as_ref().map(|x| self.text()[x.span().byte_range()].to_string()).unwrap_or_default();
        let es = l.expr.span().byte_range();
        let bs = l.body.span().byte_range();
        let pat = self.text()[l.pat.span().byte_range()].to_string();
        let le = &l.expr; let head = format!("for {}", quote::quote!(#le));
        for x in pat_names(&l.pat) { self.sh.inits.push((x.clone(), head.clone())); self.sh.binders.push(x); }
        self.sh.heads.push(head);
        let lab = l.label.as_ref().map(|x| x.name.ident.to_string()).unwrap_or_default();
        let spec = self.add_auto(&c.spec, n, has_own_break(&l.body));
        let mutref = match &*l.expr { syn::Expr::Reference(r) if r.mutability.is_some() => Some(r.expr.clone()), _ => None };
        let bind;
        if let Some(inner) = &mutref {
            let it = self.text()[inner.span().byte_range()].to_string();
            let it = match &self.selfname { Some(s) => it.replace("self", s), None => it };
            let (p1, p2) = match &*l.pat { syn::Pat::Tuple(t) if t.elems.len() == 2 => (self.text()[t.elems[0].span().byte_range()].to_string(), self.text()[t.elems[1].span().byte_range()].to_string()), _ => { self.sh.error.get_or_insert("for over &mut".into()); return; } };
            self.rep(start, bs.start, format!("let mut vx_it{n} = {it}.vx_keys_snapshot(); {} {} loop {}", c.pre, label, spec));
            bind = format!("let {p1} = &vx_n{n}; let {p2} = {it}.get_mut(&vx_n{n}).unwrap();");
            self.kind("for over &mut map");
        } else {
            self.rep(start, es.start, format!("let mut vx_it{} = (", n));
            self.visit_expr(&l.expr);
            self.rep(es.end, bs.start, format!(").vx_into_iter(); {} {} loop {}", c.pre, label, spec));
            bind = format!("let {} = vx_n{};", pat, n);
        }
        self.rep(bs.start + 1, bs.start + 1, format!(" let ghost vx_o{n} = vx_it{n}; match vx_it{n}.next() {{ None => {{ break; }} Some(vx_n{n}) => {{ {bind} {} ", c.start));
        self.ends.push((lab, c.end.clone()));
        for s in &l.body.stmts { self.visit_stmt(s); }
        self.ends.pop();
        // a trailing expression of type () becomes a statement
        let semi = match l.body.stmts.last() { Some(syn::Stmt::Expr(_, None)) => "; ", _ => "" };
        self.rep(bs.end - 1, bs.end - 1, format!("{}{} }} }} ", semi, c.end));
        self.rep(bs.end, bs.end, format!(" {} ", c.after));
    }
    fn visit_expr_while(&mut self, l: &'ast syn::ExprWhile) {
        let n = self.sh.nloops; self.sh.nloops += 1;
        let c = self.loopc(n);
        if self.skip_loop(l.span().byte_range(), &c.after, &l.body) { return; }
        let lc = &l.cond; self.sh.heads.push(format!("while {}", quote::quote!(#lc)));
        let lab = l.label.as_ref().map(|x| x.name.ident.to_string()).unwrap_or_default();
        let ls = l.span().byte_range();
        let bs = l.body.span().byte_range();
        self.rep(ls.start, ls.start, format!("{} ", c.pre));
        self.visit_expr(&l.cond);
        self.rep(bs.start, bs.start, format!("\n{}\n", c.spec));
        self.rep(bs.start + 1, bs.start + 1, format!(" {} ", c.start));
        self.ends.push((lab, c.end.clone()));
        for s in &l.body.stmts { self.visit_stmt(s); }
        self.ends.pop();
        let semi = match l.body.stmts.last() { Some(syn::Stmt::Expr(_, None)) => "; ", _ => "" };
        self.rep(bs.end - 1, bs.end - 1, format!("{}{} ", semi, c.end));
        self.rep(bs.end, bs.end, format!(" {} ", c.after));
    }
    fn visit_expr_loop(&mut self, l: &'ast syn::ExprLoop) {
        let n = self.sh.nloops; self.sh.nloops += 1;
        let c = self.loopc(n);
        if self.skip_loop(l.span().byte_range(), &c.after, &l.body) { return; }
        self.sh.heads.push("loop".into());
        let lab = l.label.as_ref().map(|x| x.name.ident.to_string()).unwrap_or_default();
        let ls = l.span().byte_range();
        let bs = l.body.span().byte_range();
        self.rep(ls.start, ls.start, format!("{} ", c.pre));
        self.rep(bs.start, bs.start, format!("\n{}\n", c.spec));
        self.rep(bs.start + 1, bs.start + 1, format!(" {} ", c.start));
        self.ends.push((lab, c.end.clone()));
        for s in &l.body.stmts { self.visit_stmt(s); }
        self.ends.pop();
        let semi = match l.body.stmts.last() { Some(syn::Stmt::Expr(_, None)) => "; ", _ => "" };
        self.rep(bs.end - 1, bs.end - 1, format!("{}{} ", semi, c.end));
        self.rep(bs.end, bs.end, format!(" {} ", c.after));
    }
    fn visit_expr_method_call(&mut self, m: &'ast syn::ExprMethodCall) {
        let name = m.method.to_string();
        let r = m.method.span().byte_range();
        self.sh.calls.push(name.clone());
        // adapters whose closure takes no argument: the match they stand for
        if let (Some(syn::Expr::Closure(c)), 1, true) = (m.args.first(), m.args.len(), name == "then_with" || name == "unwrap_or_else" || name == "or_else") {
            if c.inputs.is_empty() && !closure_returns(&c.body) {
                let (w, rr, cr) = (m.span().byte_range(), m.receiver.span().byte_range(), c.body.span().byte_range());
                let (a, z) = match name.as_str() {
                    "then_with" => ("Ordering::Equal => ", "vx_o => vx_o"),
                    "or_else" => ("None => ", "vx_o => vx_o"),
                    _ => ("None => ", "Some(vx_o) => vx_o"),
                };
                let a = if name == "then_with" { format!("std::cmp::{}", a) } else { a.to_string() };
                self.rep(w.start, rr.start, "(match ");
                self.visit_expr(&m.receiver);
                self.rep(rr.end, cr.start, format!(" {{ {}{{ ", a));
                self.visit_expr(&c.body);
                self.rep(cr.end, w.end, format!(" }} {} }})", z));
                self.kind("closure adapter as match");
                return;
            }
        }
        if name == "iter" && m.args.is_empty() { self.rep(r.start, r.end, "vx_iter"); self.kind("iter"); }
        else if name == "to_string" && m.args.is_empty() { self.rep(r.start, r.end, "vx_to_string"); self.kind("to_string"); }
        else if name == "into_iter" && m.args.is_empty() { self.rep(r.start, r.end, "vx_into_iter"); self.kind("iter"); }
        else if let Some(c) = self.env.index.get(&name) {
            let cands: Vec<&FnInfo> = c.iter().filter(|h| h.is_method).collect();
            if !cands.is_empty() && cands.iter().all(|h| !self.env.ov.fns.contains_key(&h.key)) && !self.env.contracted_method(&name) {
                if cands.len() == 1 {
                    let args: Vec<&syn::Expr> = m.args.iter().collect();
                    let h = cands[0].clone();
                    if self.inline(&h, Some(&m.receiver), args, m.span().byte_range()) { return; }
                }
                self.sh.uncontracted.push(name.clone());
            }
        }
        visit::visit_expr_method_call(self, m);
    }
    fn visit_expr_call(&mut self, c: &'ast syn::ExprCall) {
        if let syn::Expr::Path(p) = &*c.func {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let name = segs.last().unwrap().clone();
            self.sh.calls.push(segs.join("::"));
            if name == "black_box" && c.args.len() == 1 { let r = c.func.span().byte_range(); self.rep(r.start, r.end, ""); for a in &c.args { self.visit_expr(a); } return; }
            if let Some(cs) = self.env.index.get(&name) {
                let here = &self.env.files[self.fi].module;
                let cands: Vec<&FnInfo> = cs.iter().filter(|h| {
                    let hm: Vec<&str> = h.key.split("::").collect();
                    if segs.len() == 1 { hm.len() == 2 && (hm[0] == here || cs.len() == 1) }
                    else { let q = &segs[segs.len() - 2]; hm[hm.len() - 2] == q || q == "Self" }
                }).collect();
                if cands.len() == 1 && !self.env.ov.fns.contains_key(&cands[0].key) {
                    let h = cands[0].clone();
                    let args: Vec<&syn::Expr> = c.args.iter().collect();
                    if h.is_method && !args.is_empty() {
                        let (rv, rest) = (args[0], args[1..].to_vec());
                        if self.inline(&h, Some(rv), rest, c.span().byte_range()) { return; }
                    } else if self.inline(&h, None, args, c.span().byte_range()) { return; }
                    self.sh.uncontracted.push(name.clone());
                }
            }
        }
        visit::visit_expr_call(self, c);
    }
    fn visit_expr_binary(&mut self, b: &'ast syn::ExprBinary) {
        let tr = match b.op { syn::BinOp::Add(_) => "Add::add", syn::BinOp::Sub(_) => "Sub::sub", syn::BinOp::Mul(_) => "Mul::mul", syn::BinOp::Div(_) => "Div::div", syn::BinOp::Rem(_) => "Rem::rem", _ => "" };
        if !tr.is_empty() && is_int_lit(&b.left) && !is_int_lit(&b.right) && !self.fc.opts.contains("native_lit") {
            let (l, r) = (b.left.span().byte_range(), b.right.span().byte_range());
            self.rep(l.start, l.start, format!("std::ops::{}(", tr));
            self.rep(l.end, r.start, ", ");
            self.visit_expr(&b.right);
            self.rep(r.end, r.end, ")");
            self.kind("literal operand as UFCS");
            return;
        }
        // Verus has no native div/mod on signed machine integers; the trait call has a contract
        let asg = match b.op { syn::BinOp::DivAssign(_) => "DivAssign::div_assign", syn::BinOp::RemAssign(_) => "RemAssign::rem_assign", _ => "" };
        let dv = match b.op { syn::BinOp::Div(_) => "Div::div", syn::BinOp::Rem(_) => "Rem::rem", _ => "" };
        if !asg.is_empty() || !dv.is_empty() {
            let (l, r) = (b.left.span().byte_range(), b.right.span().byte_range());
            self.rep(l.start, l.start, if asg.is_empty() { format!("std::ops::{}(", dv) } else { format!("std::ops::{}(&mut ", asg) });
            self.visit_expr(&b.left);
            self.rep(l.end, r.start, ", ");
            self.visit_expr(&b.right);
            self.rep(r.end, r.end, ")");
            self.kind("division operator as UFCS");
            return;
        }
        visit::visit_expr_binary(self, b);
    }
    // `e as Option<T>` only states the type
    fn visit_expr_cast(&mut self, c: &'ast syn::ExprCast) {
        if let syn::Type::Path(t) = &*c.ty {
            if t.path.segments.last().map_or(false, |s| s.ident == "Option") {
                let (e, r) = (c.expr.span().byte_range(), c.span().byte_range());
                if matches!(&*c.expr, syn::Expr::Path(p) if p.path.is_ident("None")) { self.rep(e.end, r.end, ""); self.kind("type ascription cast dropped"); return; }
            }
        }
        visit::visit_expr_cast(self, c);
    }
    fn visit_expr_macro(&mut self, m: &'ast syn::ExprMacro) { let r = m.span().byte_range(); self.do_macro(&m.mac, r); }
    fn visit_stmt_macro(&mut self, m: &'ast syn::StmtMacro) { let r = m.mac.span().byte_range(); self.do_macro(&m.mac, r); }
}

impl<'a> Env<'a> {
    /// some contracted function (possibly a trait method) carries this method name
    pub fn contracted_method(&self, name: &str) -> bool {
        let suf = format!("::{}", name);
        self.ov.fns.keys().any(|k| k.ends_with(&suf)) || self.ov.traitfns.keys().any(|k| k.ends_with(&suf))
    }
    pub fn body(&self, fi: usize, key: &str, fc: &FnContract, params: &[String], ret_ty: Option<&str>, block: &syn::Block, pre: &str, _out: &mut Out) -> BodyOut {
        let empty = HashMap::new();
        let r = block.span().byte_range();
        let run = |fc: &FnContract, rename: &HashMap<String, String>| -> (String, Shared) {
            let mut sh = Shared { muts: vec![], inits: vec![], heads: vec![], binders: params.to_vec(), nloops: 0, calls: vec![], inlined: vec![], uncontracted: vec![], kinds: BTreeSet::new(), error: None, depth: 0 };
            for (i, p) in params.iter().enumerate() { sh.inits.push((p.clone(), format!("param {}", i))); }
            let ret = if fc.ret.trim().is_empty() { None } else { Some((ret_ty.map(|s| s.to_string()).unwrap_or("()".into()), subst(&fc.ret, rename))) };
            let begin = format!("{} {}", pre, subst(&fc.begin, rename));
            let t = {
                let mut v = R { env: self, fi, fc, rename, sh: &mut sh, edits: vec![], ret, selfname: None, in_closure: 0, has_return: false, ends: vec![] };
                v.block_outer(block, begin.trim());
                v.apply(r.start, r.end)
            };
            (t, sh)
        };
        let (_, sh) = run(fc, &empty);
        let mut rename = HashMap::new();
        let mut error = sh.error.clone();
        let mut lenient: Option<String> = None;
        let mut fc2 = fc.clone();
        if let Some(base) = self.ov.binders.get(key) {
            let mut lost: BTreeSet<String> = BTreeSet::new();
            let mut why: Vec<String> = vec![];
            // loops: the annotations follow the loop they were written for
            let bn = *self.ov.nloops.get(key).unwrap_or(&0);
            if bn != sh.nloops {
                let none = vec![];
                let bh = self.ov.heads.get(key).unwrap_or(&none);
                let map = align(bh, &sh.heads);
                let mut loops = BTreeMap::new();
                for (b, c) in &fc2.loops { if let Some(n) = map.get(b) { loops.insert(*n, c.clone()); } }
                fc2.loops = loops;
                let re = regex::Regex::new(r"\$(it|o|n)(\d+)").unwrap();
                let f = |t: &mut String| { *t = re.replace_all(t, |c: &regex::Captures| match map.get(&c[2].parse::<usize>().unwrap()) { Some(n) => format!("${}{}", &c[1], n), None => format!("vx_lost_{}{}", &c[1], &c[2]) }).to_string(); };
                f(&mut fc2.begin); f(&mut fc2.ret);
                for l in fc2.loops.values_mut() { for t in [&mut l.spec, &mut l.start, &mut l.end, &mut l.after, &mut l.pre] { f(t); } }
                for b in 0..bn { if !map.contains_key(&b) { for k in ["it", "o", "n"] { lost.insert(format!("vx_lost_{}{}", k, b)); } } }
                why.push(format!("loop structure changed ({} loops, contract written for {})", sh.nloops, bn));
            }
            let mut alltext = format!("{} {} {}", fc2.spec, fc2.begin, fc2.ret);
            for l in fc2.loops.values() { for s in [&l.spec, &l.start, &l.end, &l.after, &l.pre] { alltext.push(' '); alltext.push_str(s); } }
            let dedup = |v: &Vec<String>| { let mut o: Vec<String> = vec![]; for x in v { if !o.contains(x) { o.push(x.clone()); } } o };
            let (b, n) = (dedup(base), dedup(&sh.binders));
            let miss: Vec<&String> = b.iter().filter(|x| !n.contains(x)).collect();
            let new: Vec<&String> = n.iter().filter(|x| !b.contains(x)).collect();
            let used: Vec<&String> = miss.iter().filter(|m| mentions(&alltext, m)).cloned().collect();
            if !used.is_empty() {
                let none = vec![];
                let bi = self.ov.inits.get(key).unwrap_or(&none);
                let init = |v: &Vec<(String, String)>, x: &str| v.iter().find(|y| y.0 == x).map(|y| y.1.clone()).unwrap_or_default();
                let mut cand: Vec<(f64, usize, usize)> = vec![];
                for (i, m) in miss.iter().enumerate() { for (j, w) in new.iter().enumerate() {
                    let s = similar(&init(bi, m), &init(&sh.inits, w));
                    let pos = (i as f64 / miss.len() as f64 - j as f64 / new.len() as f64).abs();
                    if s >= 0.34 { cand.push((s + 0.1 * (1.0 - pos), i, j)); }
                } }
                cand.sort_by(|a, b| b.0.partial_cmp(&a.0).unwrap());
                let (mut ti, mut tj): (BTreeSet<usize>, BTreeSet<usize>) = (BTreeSet::new(), BTreeSet::new());
                for (_, i, j) in cand { if !ti.contains(&i) && !tj.contains(&j) { ti.insert(i); tj.insert(j); rename.insert(miss[i].clone(), new[j].clone()); } }
                let lm: Vec<usize> = (0..miss.len()).filter(|i| !ti.contains(i) && used.contains(&miss[*i])).collect();
                let la: Vec<usize> = (0..miss.len()).filter(|i| !ti.contains(i)).collect();
                let ln: Vec<usize> = (0..new.len()).filter(|j| !tj.contains(j)).collect();
                let l2 = if lm.len() == ln.len() { lm } else if la.len() == ln.len() { la } else { vec![] };
                for (i, j) in l2.iter().zip(&ln) { rename.insert(miss[*i].clone(), new[*j].clone()); }
                let gone: Vec<&String> = used.iter().filter(|m| !rename.contains_key(**m)).cloned().collect();
                if !gone.is_empty() {
                    why.push(format!("the contract mentions variables the function no longer has: {:?}", gone));
                    for g in gone { if mentions(&fc2.spec, g) { error.get_or_insert(format!("parameter {} of the contract is gone", g)); } lost.insert(g.clone()); }
                }
            }
            if !why.is_empty() {
                lenient = Some(why.join("; "));
                drop_lost(&mut fc2, &mut lost);
            }
        }
        if let Some(mx) = fc2.loops.keys().max() { if *mx >= sh.nloops { error.get_or_insert(format!("contract annotates loop {} but the function has {}", mx, sh.nloops)); } }
        let (text, sh) = run(&fc2, &rename);
        BodyOut { lenient, inits: sh.inits, heads: sh.heads, text, rename, error, binders: sh.binders, nloops: sh.nloops, calls: sh.calls, inlined: sh.inlined, uncontracted: sh.uncontracted, edit_kinds: sh.kinds.into_iter().collect() }
    }
}

fn mentions(text: &str, w: &str) -> bool { regex::Regex::new(&format!(r"(^|[^A-Za-z0-9_]){}([^A-Za-z0-9_]|$)", regex::escape(w))).unwrap().is_match(text) }
/// token similarity of two source expressions (0 = nothing shared, 1 = same tokens)
fn similar(a: &str, b: &str) -> f64 {
    let tok = |s: &str| -> Vec<String> { regex::Regex::new(r"[A-Za-z_][A-Za-z_0-9]*|\d+|[-+*/%<>=!]+").unwrap().find_iter(s).map(|m| m.as_str().to_string()).filter(|x| x != "clone").collect() };
    let (x, mut y) = (tok(a), tok(b));
    if x.is_empty() || y.is_empty() { return 0.0; }
    let n = x.len() + y.len();
    let mut c = 0;
    for t in &x { if let Some(i) = y.iter().position(|u| u == t) { y.remove(i); c += 1; } }
    2.0 * c as f64 / n as f64
}
/// order-preserving alignment of loop headers, base index -> new index
fn align(b: &[String], n: &[String]) -> HashMap<usize, usize> {
    let (p, q) = (b.len(), n.len());
    let mut d = vec![vec![0.0f64; q + 1]; p + 1];
    let s = |i: usize, j: usize| -> f64 { let v = similar(&b[i], &n[j]); if v < 0.3 { -1.0 } else { v } };
    for i in (0..p).rev() { for j in (0..q).rev() { d[i][j] = d[i + 1][j].max(d[i][j + 1]).max(s(i, j) + d[i + 1][j + 1]); } }
    let (mut i, mut j) = (0, 0);
    let mut r = HashMap::new();
    while i < p && j < q {
        let v = s(i, j);
        if v > 0.0 && d[i][j] == v + d[i + 1][j + 1] { r.insert(i, j); i += 1; j += 1; }
        else if d[i][j] == d[i + 1][j] { i += 1; } else { j += 1; }
    }
    r
}
/// removes the ghost statements and clauses that mention a name the function no longer has
fn drop_lost(fc: &mut FnContract, lost: &mut BTreeSet<String>) {
    loop {
        let before = lost.len();
        fc.begin = drop_stmts(&fc.begin, lost);
        fc.ret = drop_stmts(&fc.ret, lost);
        for l in fc.loops.values_mut() {
            for t in [&mut l.start, &mut l.end, &mut l.after, &mut l.pre] { *t = drop_stmts(t, lost); }
            l.spec = drop_clauses(&l.spec, lost);
        }
        if lost.len() == before { break; }
    }
}
fn hit(t: &str, lost: &BTreeSet<String>) -> bool { lost.iter().any(|l| mentions(t, l)) }
fn split_stmts(t: &str) -> Vec<String> {
    let c: Vec<char> = t.chars().collect();
    let (mut out, mut cur, mut depth) = (vec![], String::new(), 0i32);
    let mut i = 0;
    while i < c.len() {
        if c[i] == '/' && i + 1 < c.len() && c[i + 1] == '/' { while i < c.len() && c[i] != '\n' { i += 1; } continue; }
        cur.push(c[i]);
        match c[i] { '(' | '[' | '{' => depth += 1, ')' | ']' | '}' => depth -= 1, _ => {} }
        if depth == 0 && c[i] == ';' { out.push(std::mem::take(&mut cur)); }
        else if depth == 0 && c[i] == '}' {
            let rest: String = c[i + 1..].iter().collect();
            let r = rest.trim_start();
            let cont = r.starts_with(';') || r.starts_with("else") || r.starts_with("by") || r.starts_with("implies") || r.starts_with(|x: char| ".,)=&|<>+-*/?".contains(x));
            if !cont { out.push(std::mem::take(&mut cur)); }
        }
        i += 1;
    }
    if !cur.trim().is_empty() { out.push(cur); }
    out
}
fn drop_stmts(t: &str, lost: &mut BTreeSet<String>) -> String {
    let mut out = String::new();
    for s in split_stmts(t) {
        if !hit(&s, lost) { out.push_str(&s); continue; }
        let tr = s.trim();
        if tr.starts_with("proof") && tr.ends_with('}') {
            let i = tr.find('{').unwrap();
            let inner = drop_stmts(&tr[i + 1..tr.len() - 1], lost);
            out.push_str(&format!(" proof {{ {} }} ", inner));
        } else if tr.starts_with("let") {
            if let Some(e) = tr.find('=') { for m in regex::Regex::new(r"[A-Za-z_][A-Za-z_0-9]*").unwrap().find_iter(tr[3..e].split(':').next().unwrap_or("")) { if !["ghost", "mut", "tracked"].contains(&m.as_str()) { lost.insert(m.as_str().to_string()); } } }
        }
    }
    out
}
fn drop_clauses(t: &str, lost: &BTreeSet<String>) -> String {
    let kw = ["invariant_except_break", "invariant", "ensures", "decreases"];
    let c: Vec<char> = t.chars().collect();
    let mut secs: Vec<(String, Vec<String>)> = vec![];
    let (mut cur, mut depth, mut pipe, mut i) = (String::new(), 0i32, false, 0);
    let flush = |secs: &mut Vec<(String, Vec<String>)>, cur: &mut String| { let x = std::mem::take(cur); if !x.trim().is_empty() { if let Some(s) = secs.last_mut() { s.1.push(x); } } };
    while i < c.len() {
        if depth == 0 && !pipe && (c[i].is_alphabetic() || c[i] == '_') && (i == 0 || !(c[i - 1].is_alphanumeric() || c[i - 1] == '_')) {
            let w: String = c[i..].iter().take_while(|x| x.is_alphanumeric() || **x == '_').collect();
            if kw.contains(&w.as_str()) { flush(&mut secs, &mut cur); secs.push((w.clone(), vec![])); i += w.len(); continue; }
        }
        match c[i] {
            '(' | '[' | '{' => depth += 1,
            ')' | ']' | '}' => depth -= 1,
            '|' => { if i + 1 < c.len() && c[i + 1] == '|' { cur.push_str("||"); i += 2; continue; } pipe = !pipe; }
            _ => {}
        }
        if c[i] == ',' && depth == 0 && !pipe { flush(&mut secs, &mut cur); } else { cur.push(c[i]); }
        i += 1;
    }
    flush(&mut secs, &mut cur);
    let mut out = String::new();
    for (k, v) in secs {
        let v: Vec<String> = v.into_iter().filter(|x| !hit(x, lost)).collect();
        if !v.is_empty() { out.push_str(&format!("    {} {},\n", k, v.join(","))); }
    }
    out
}
