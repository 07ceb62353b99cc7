use std::collections::{BTreeMap, BTreeSet};
#[derive(Clone, Default, Debug)]
pub struct LoopC { pub spec: String, pub start: String, pub end: String, pub after: String, pub pre: String }
#[derive(Clone, Default, Debug)]
pub struct FnContract {
    pub props: Vec<String>,
    pub spec: String, pub attr: String, pub begin: String, pub ret: String,
    pub opreq: Option<String>, pub opspec: Option<String>, pub assert_if: Option<String>,
    pub loops: BTreeMap<usize, LoopC>,
    pub opts: BTreeSet<String>,
}
#[derive(Default)]
pub struct Overlay {
    pub fns: BTreeMap<String, FnContract>,
    pub traits: BTreeMap<String, String>,
    pub traitfns: BTreeMap<String, String>,
    pub impls: BTreeMap<String, String>,
    pub module_text: BTreeMap<String, String>,
    pub modules: BTreeSet<String>,
    pub libs: Vec<(String, String)>,
    pub binders: BTreeMap<String, Vec<String>>,
    pub nloops: BTreeMap<String, usize>,
    pub inits: BTreeMap<String, Vec<(String, String)>>,
    pub heads: BTreeMap<String, Vec<String>>,
}
impl Overlay {
    pub fn load(dir: &str) -> Overlay {
        let mut o = Overlay::default();
        let mut names: Vec<String> = std::fs::read_dir(dir).unwrap().map(|e| e.unwrap().file_name().into_string().unwrap()).collect();
        names.sort();
        for n in &names {
            let p = format!("{}/{}", dir, n);
            if n.starts_with("lib_") && n.ends_with(".rs") {
                o.libs.push((n[4..n.len()-3].trim_start_matches(|c: char| c.is_ascii_digit() || c == '_').to_string(), std::fs::read_to_string(&p).unwrap()));
            } else if n.ends_with(".vc") { o.parse(&std::fs::read_to_string(&p).unwrap(), n); }
            else if n == "binders.json" {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&p).unwrap()).unwrap();
                for (k, x) in v.as_object().unwrap() {
                    o.binders.insert(k.clone(), x["binders"].as_array().unwrap().iter().map(|y| y.as_str().unwrap().to_string()).collect());
                    o.nloops.insert(k.clone(), x["nloops"].as_u64().unwrap() as usize);
                    o.inits.insert(k.clone(), x["inits"].as_array().unwrap().iter().map(|y| (y[0].as_str().unwrap().to_string(), y[1].as_str().unwrap().to_string())).collect());
                    o.heads.insert(k.clone(), x["heads"].as_array().unwrap().iter().map(|y| y.as_str().unwrap().to_string()).collect());
                }
            }
        }
        o
    }
    fn parse(&mut self, text: &str, fname: &str) {
        #[derive(Clone)]
        enum T { None, Module(String), Trait(String), TraitFn(String), Impl(String), Fn(String, String) }
        let mut cur = T::None;
        for (ln, line) in text.lines().enumerate() {
            if line.starts_with("@@") {
                let rest = &line[2..];
                let (d, arg) = match rest.find(char::is_whitespace) { Some(i) => (&rest[..i], rest[i..].trim()), None => (rest, "") };
                let key = match &cur { T::Fn(k, _) => k.clone(), _ => panic!("{}:{}: @@ outside @fn", fname, ln + 1) };
                let fc = self.fns.get_mut(&key).unwrap();
                match d {
                    "props" => { fc.props = arg.split_whitespace().map(|s| s.to_string()).collect(); }
                    "opt" => { for a in arg.split_whitespace() { fc.opts.insert(a.to_string()); } }
                    "assertif" => { fc.assert_if = Some(arg.to_string()); }
                    "opreq" => { fc.opreq = Some(arg.to_string()); cur = T::Fn(key, "opreq".into()); continue; }
                    "opspec" => { fc.opspec = Some(arg.to_string()); cur = T::Fn(key, "opspec".into()); continue; }
                    "spec" | "attr" | "begin" | "ret" => { cur = T::Fn(key, d.to_string()); continue; }
                    "loop" | "start" | "end" | "after" | "pre" => { let n: usize = arg.parse().unwrap(); fc.loops.entry(n).or_default(); cur = T::Fn(key, format!("{} {}", d, n)); continue; }
                    _ => panic!("{}:{}: unknown directive @@{}", fname, ln + 1, d),
                }
                cur = T::Fn(key, "spec".into());
                continue;
            }
            if line.starts_with('@') {
                let rest = &line[1..];
                let (d, arg) = match rest.find(char::is_whitespace) { Some(i) => (&rest[..i], rest[i..].trim().to_string()), None => (rest, String::new()) };
                cur = match d {
                    "module" => { self.modules.insert(arg.clone()); T::Module(arg) }
                    "trait" => { self.traits.entry(arg.clone()).or_default(); T::Trait(arg) }
                    "traitfn" => T::TraitFn(arg),
                    "impl" => { self.impls.entry(arg.clone()).or_default(); T::Impl(arg) }
                    "fn" => { if self.fns.contains_key(&arg) { panic!("duplicate {}", arg); } self.fns.insert(arg.clone(), FnContract::default()); T::Fn(arg, "spec".into()) }
                    "like" => {
                        // copy everything of another fn contract
                        let k = match &cur { T::Fn(k, _) => k.clone(), _ => panic!() };
                        let c = self.fns.get(&arg).unwrap_or_else(|| panic!("like {}", arg)).clone();
                        self.fns.insert(k.clone(), c);
                        T::Fn(k, "spec".into())
                    }
                    _ => panic!("{}:{}: unknown directive @{}", fname, ln + 1, d),
                };
                continue;
            }
            let t = format!("{}\n", line);
            match &cur {
                T::None => {}
                T::Module(k) => self.module_text.entry(k.clone()).or_default().push_str(&t),
                T::Trait(k) => self.traits.entry(k.clone()).or_default().push_str(&t),
                T::TraitFn(k) => self.traitfns.entry(k.clone()).or_default().push_str(&t),
                T::Impl(k) => self.impls.entry(k.clone()).or_default().push_str(&t),
                T::Fn(k, sec) => {
                    if line.trim_start().starts_with("//#") { continue; }
                    let fc = self.fns.get_mut(k).unwrap();
                    let mut it = sec.split(' ');
                    let s = it.next().unwrap();
                    let n = it.next().map(|x| x.parse::<usize>().unwrap()).unwrap_or(0);
                    match s {
                        "spec" => fc.spec.push_str(&t),
                        "attr" => fc.attr.push_str(&t),
                        "begin" => fc.begin.push_str(&t),
                        "ret" => fc.ret.push_str(&t),
                        "opreq" => fc.opreq.as_mut().unwrap().push_str(&t),
                        "opspec" => fc.opspec.as_mut().unwrap().push_str(&t),
                        "loop" => fc.loops.get_mut(&n).unwrap().spec.push_str(&t),
                        "start" => fc.loops.get_mut(&n).unwrap().start.push_str(&t),
                        "end" => fc.loops.get_mut(&n).unwrap().end.push_str(&t),
                        "after" => fc.loops.get_mut(&n).unwrap().after.push_str(&t),
                        "pre" => fc.loops.get_mut(&n).unwrap().pre.push_str(&t),
                        _ => unreachable!(),
                    }
                }
            }
        }
    }
}
