//! Mechanical extraction of functions and types from the working tree into one Verus file.
//!
//! usage: hooq-extract REPO SYN_SRC PACK.vspec OUT.rs OUT.json [ASSUMED_FN ...]
//!
//! The pack interleaves raw Verus text (specification functions, lemmas, trusted contracts of library code)
//! with directives that pull the code under verification out of /repo and attach contracts to it.
mod pass;
mod render;
mod source;

use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fmt::Write as _;

#[derive(Clone, Debug, Default)]
pub struct FnSpec {
    pub file: String,
    pub path: String,
    pub owners: String,
    pub newname: Option<String>,
    pub assume: bool,
    pub asimpl: bool,
    pub keeperr: bool,
    pub veq: bool,
    pub split: bool,
    /// the broadcast axioms of this function, instead of the pack's
    pub bc: Option<Vec<String>>,
    pub attrs: Vec<String>,
    pub contract: String,
    pub prologue: String,
    pub epilogue: String,
    pub loops: Vec<(String, String)>,
    /// (pattern, text): proof text inserted before the first statement whose printed form contains `pattern`
    pub before: Vec<(String, String)>,
    pub after: Vec<(String, String)>,
}

pub enum Chunk {
    Raw(String),
    Fn(FnSpec),
    Ty(String, Vec<String>),
    Syn(Vec<String>),
}

#[derive(Default)]
pub struct Pack {
    pub chunks: Vec<Chunk>,
    pub world: BTreeSet<String>,
    pub mrename: BTreeMap<String, String>,
    pub prename: BTreeMap<String, String>,
    pub looptemplates: Vec<(String, String)>,
    pub known: BTreeSet<String>,
    pub inline: BTreeSet<String>,
    pub broadcast: Vec<String>,
    pub foreach: String,
    pub foreachtypes: BTreeSet<String>,
}

fn parse_pack(dir: &std::path::Path, file: &str, assume: bool, p: &mut Pack) {
    let text = std::fs::read_to_string(dir.join(file)).unwrap_or_else(|e| panic!("{file}: {e}"));
    let text = expand_q(&text);
    let mut raw = String::new();
    let mut lines = text.lines().peekable();
    while let Some(l) = lines.next() {
        let Some(d) = l.trim_start().strip_prefix("//@") else {
            raw.push_str(l);
            raw.push('\n');
            continue;
        };
        let mut w = d.split_whitespace();
        let cmd = w.next().unwrap_or("");
        let rest: Vec<String> = w.map(|s| s.to_string()).collect();
        if matches!(cmd, "fn" | "ty" | "synty" | "include" | "assume") && !raw.is_empty() {
            p.chunks.push(Chunk::Raw(std::mem::take(&mut raw)));
        }
        match cmd {
            "include" => parse_pack(dir, &rest[0], assume, p),
            "assume" => parse_pack(dir, &rest[0], true, p),
            "ty" => p.chunks.push(Chunk::Ty(rest[0].clone(), rest[1..].to_vec())),
            "synty" => p.chunks.push(Chunk::Syn(rest)),
            "world" => p.world.extend(rest),
            "known" => p.known.extend(rest),
            "inline" => p.inline.extend(rest),
            "foreachtypes" => p.foreachtypes.extend(rest),
            "foreach" => {
                for l in lines.by_ref() {
                    if l.trim() == "//@end" {
                        break;
                    }
                    p.foreach.push_str(l);
                    p.foreach.push('\n');
                }
            }
            "broadcast" => p.broadcast.extend(rest),
            "method" => {
                p.mrename.insert(rest[0].clone(), rest[1].clone());
            }
            "path" => {
                p.prename.insert(rest[0].clone(), rest[1].clone());
            }
            "looptemplate" => {
                let mut t = String::new();
                for l in lines.by_ref() {
                    if l.trim() == "//@end" {
                        break;
                    }
                    t.push_str(l);
                    t.push('\n');
                }
                p.looptemplates.push((rest.join(" "), t));
            }
            "fn" => {
                let mut s = FnSpec { file: rest[0].clone(), path: rest[1].clone(), assume, ..Default::default() };
                for o in &rest[2..] {
                    if let Some(x) = o.strip_prefix("owners=") {
                        s.owners = x.to_string();
                    } else if let Some(x) = o.strip_prefix("name=") {
                        s.newname = Some(x.to_string());
                    } else if let Some(x) = o.strip_prefix("bc=") {
                        s.bc = Some(x.split(',').map(|x| x.to_string()).collect());
                    } else if let Some(x) = o.strip_prefix("attr=") {
                        s.attrs.push(x.to_string());
                    } else {
                        match o.as_str() {
                            "asimpl" => s.asimpl = true,
                            "keeperr" => s.keeperr = true,
                            "veq" => s.veq = true,
                            "split" => s.split = true,
                            "assume" => s.assume = true,
                            x => panic!("unknown fn option {x}"),
                        }
                    }
                }
                let base = s.path.split('@').next().unwrap().rsplit("::").next().unwrap().rsplit('>').next().unwrap().to_string();
                p.known.insert(s.newname.clone().unwrap_or(base));
                let mut target = 0usize; // 0 contract 1 prologue 2 epilogue 3 loop 4 before
                loop {
                    let l = lines.next().unwrap_or_else(|| panic!("{file}: unterminated //@fn {}", s.path));
                    let t = l.trim();
                    if t == "//@end" {
                        break;
                    } else if t == "//@prologue" {
                        target = 1;
                    } else if t == "//@epilogue" {
                        target = 2;
                    } else if let Some(x) = t.strip_prefix("//@loop") {
                        s.loops.push((x.trim().to_string(), String::new()));
                        target = 3;
                    } else if let Some(x) = t.strip_prefix("//@before") {
                        s.before.push((x.trim().to_string(), String::new()));
                        target = 4;
                    } else if let Some(x) = t.strip_prefix("//@after") {
                        s.after.push((x.trim().to_string(), String::new()));
                        target = 5;
                    } else {
                        let dst = match target {
                            0 => &mut s.contract,
                            1 => &mut s.prologue,
                            2 => &mut s.epilogue,
                            3 => &mut s.loops.last_mut().unwrap().1,
                            4 => &mut s.before.last_mut().unwrap().1,
                            _ => &mut s.after.last_mut().unwrap().1,
                        };
                        dst.push_str(l);
                        dst.push('\n');
                    }
                }
                p.chunks.push(Chunk::Fn(s));
            }
            "" | "//" => {}
            c => panic!("{file}: unknown directive {c}"),
        }
    }
    if !raw.is_empty() {
        p.chunks.push(Chunk::Raw(raw));
    }
}

/// `$q{ .. }` in a pack: the specification of what `quote! { .. }` builds
fn expand_q(text: &str) -> String {
    let mut s = text.to_string();
    while let Some(p) = s.find("$q{") {
        let b = s.as_bytes();
        let (mut d, mut q) = (0, p + 2);
        loop {
            match b[q] {
                b'{' => d += 1,
                b'}' => d -= 1,
                _ => {}
            }
            q += 1;
            if d == 0 {
                break;
            }
        }
        let ts: proc_macro2::TokenStream = s[p + 3..q - 1].parse().expect("$q");
        let r = pass::quote_spec(ts);
        s.replace_range(p..q, &r);
    }
    s
}

pub fn jstr(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn assumed_all(s: &FnSpec, forced: &BTreeSet<String>, short: &str) -> bool {
    s.assume || forced.contains(short)
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (repo, synsrc, packf, outrs, outjson) = (&a[1], &a[2], &a[3], &a[4], &a[5]);
    let forced: BTreeSet<String> = a[6..].iter().cloned().collect();
    let packp = std::path::Path::new(packf);
    let mut pack = Pack::default();
    parse_pack(packp.parent().unwrap(), packp.file_name().unwrap().to_str().unwrap(), false, &mut pack);
    let mut src = source::Sources::new(repo, synsrc);
    let mut out = String::from(
        "#![allow(unused, non_snake_case, non_camel_case_types, dead_code, unreachable_patterns)]\nuse vstd::prelude::*;\nuse vstd::pervasive::unreached;\nuse std::rc::Rc;\nuse std::ops::Deref;\nverus! {\n",
    );
    let mut recs: Vec<String> = vec![];
    let mut declared: HashMap<String, ()> = HashMap::new();
    let mut referenced: BTreeSet<String> = BTreeSet::new();
    let mut each: BTreeSet<String> = pack.foreachtypes.clone();
    for ch in &pack.chunks {
        if let Chunk::Raw(t) = ch {
            source::scan_declared(t, &mut declared);
        }
    }
    for ch in &pack.chunks {
        match ch {
            Chunk::Raw(t) => out.push_str(t),
            Chunk::Ty(f, names) => {
                for n in names {
                    match src.repo_type(f, n) {
                        Some(item) => {
                            declared.insert(n.clone(), ());
                            if !render::has_generics(&item) {
                                each.insert(n.clone());
                            }
                            out.push_str(&render::emit_type(item, &pack, &mut referenced));
                        }
                        None => recs.push(format!("{{\"type\":{},\"status\":\"lost\"}}", jstr(n))),
                    }
                }
            }
            Chunk::Syn(names) => {
                for n in names {
                    match src.syn_type(n) {
                        Some(item) => {
                            declared.insert(n.clone(), ());
                            if !render::has_generics(&item) {
                                each.insert(n.clone());
                            }
                            out.push_str(&render::emit_type(item, &pack, &mut referenced));
                        }
                        None => recs.push(format!("{{\"type\":{},\"status\":\"lost\"}}", jstr(n))),
                    }
                }
            }
            Chunk::Fn(s) => {
                let short = s.newname.clone().unwrap_or_else(|| s.path.clone());
                let found = src.find_fn(s);
                // a function split by the arms of its final match: the function itself carries the contract,
                // one copy per arm is verified against it
                let arms: Vec<(Option<usize>, String)> = match &found {
                    Some(ff) if s.split && !assumed_all(s, &forced, &short) => {
                        let v = render::arm_names(&ff.block);
                        if v.len() < 2 { vec![(None, short.clone())] } else {
                            v.into_iter().enumerate().map(|(k, n)| (Some(k), format!("{short}[{n}]"))).collect()
                        }
                    }
                    _ => vec![(None, short.clone())],
                };
                if arms.len() > 1 {
                    if let Some(ff) = &found {
                        if let Ok((t, _)) = render::emit_fn(ff, s, &pack, true, &mut referenced, None) {
                            out.push_str(&t);
                        }
                    }
                }
                for (arm, label) in arms {
                    let start = out.matches('\n').count() + 1;
                    let assumed = assumed_all(s, &forced, &short) || forced.contains(&label);
                    let (text, status, info) = match &found {
                        None => (String::new(), "lost".to_string(), render::FnInfo::default()),
                        Some(_) if assumed && arm.is_some() => (String::new(), "assumed".to_string(), render::FnInfo::default()),
                        Some(ff) => match render::emit_fn(ff, s, &pack, assumed, &mut referenced, arm) {
                            Ok((t, i)) => (t, if assumed { "assumed".to_string() } else { "ok".to_string() }, i),
                            Err(e) if arm.is_some() => (String::new(), format!("unsupported: {e}"), render::FnInfo::default()),
                            Err(e) => match render::emit_fn(ff, s, &pack, true, &mut referenced, None) {
                                Ok((t, i)) => (t, format!("unsupported: {e}"), i),
                                Err(e2) => (String::new(), format!("unsupported: {e}; {e2}"), render::FnInfo::default()),
                            },
                        },
                    };
                    out.push_str(&text);
                    let end = out.matches('\n').count() + 1;
                    recs.push(format!(
                        "{{\"fn\":{},\"file\":{},\"owners\":{},\"status\":{},\"line_start\":{start},\"line_end\":{end},\"loops\":{},\"unmatched_loops\":{},\"unknown_calls\":[{}],\"src_line\":{},\"packassumed\":{}}}",
                        jstr(&label), jstr(&s.file), jstr(&s.owners), jstr(&status), info.loops, info.unmatched,
                        info.unknown.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","), info.src_line, s.assume
                    ));
                }
            }
        }
    }
    // every type that is referenced but neither extracted nor declared becomes opaque
    let mut opaque = vec![];
    for r in &referenced {
        if !declared.contains_key(r) && !render::BUILTIN.contains(&r.as_str()) {
            let _ = write!(out, "#[verifier::external_body]\npub struct {r} {{ v: u64 }}\n");
            opaque.push(jstr(r));
            each.insert(r.clone());
        }
    }
    for t in &each {
        out.push_str(&pack.foreach.replace("$T", t));
    }
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(outrs, out).unwrap();
    std::fs::write(outjson, format!("{{\"items\":[\n{}\n],\"opaque\":[{}]}}\n", recs.join(",\n"), opaque.join(","))).unwrap();
}
