// Runs inside rustc as a procedural macro, so that `proc_macro::Span` has real line/column data.
// Included next to `#[path = ".../hooq-macros/src/impls/mod.rs"] mod impls;` -- the code that runs is the
// code in /repo's working tree.
//
// Each invocation appends `N \x1f status \x1f payload \x1e` to the file PROBE_OUT.
use proc_macro2::{Delimiter, TokenStream, TokenTree};
use std::panic::{AssertUnwindSafe, catch_unwind};

// Canonical, spacing-insensitive token dump; invisible groups are kept transparent.
fn dump(ts: TokenStream, out: &mut String) {
    for tt in ts {
        match tt {
            TokenTree::Group(g) => {
                let (a, b) = match g.delimiter() {
                    Delimiter::Parenthesis => ("( ", ") "),
                    Delimiter::Brace => ("{ ", "} "),
                    Delimiter::Bracket => ("[ ", "] "),
                    Delimiter::None => ("", ""),
                };
                out.push_str(a);
                dump(g.stream(), out);
                out.push_str(b);
            }
            TokenTree::Ident(i) => {
                out.push_str(&i.to_string());
                out.push(' ');
            }
            TokenTree::Punct(p) => {
                out.push(p.as_char());
                out.push(' ');
            }
            TokenTree::Literal(l) => {
                out.push_str(&l.to_string());
                out.push(' ');
            }
        }
    }
}

fn dumps(ts: TokenStream) -> String {
    let mut s = String::new();
    dump(ts, &mut s);
    s
}

fn lit_or_tokens(ts: TokenStream) -> String {
    if let Ok(l) = syn::parse2::<syn::LitStr>(ts.clone()) {
        return format!("str\x1f{}", l.value());
    }
    format!("tok\x1f{}", dumps(ts))
}

// What an entry point gave back: `compile_error!`s stand for the error they carry.
fn result(ts: TokenStream, ok: impl Fn(TokenStream) -> String) -> String {
    let v: Vec<TokenTree> = ts.clone().into_iter().collect();
    let is = |i: usize, s: &str| v.get(i).map(|t| t.to_string() == s).unwrap_or(false);
    if is(0, ":") && is(1, ":") && is(2, "core") && is(5, "compile_error") && is(6, "!") {
        if let Some(TokenTree::Group(g)) = v.get(7) {
            if let Ok(l) = syn::parse2::<syn::LitStr>(g.stream()) {
                return format!("err\x1f{}", l.value());
            }
        }
    }
    ok(ts)
}

fn one(kind: &str, a: TokenStream, b: TokenStream) -> String {
    let r = catch_unwind(AssertUnwindSafe(|| -> Result<String, String> {
        match kind {
            "hooq" => {
                let item: syn::Item = syn::parse2(b.clone()).map_err(|e| format!("parse: {e}"))?;
                if let Some(ts) = crate::enter(kind, a.clone(), b) {
                    return Ok(result(ts, |ts| format!("ok\x1f{}", dumps(ts))));
                }
                match crate::impls::hooq_impls(a, item) {
                    Ok(ts) => Ok(format!("ok\x1f{}", dumps(ts))),
                    Err(e) => Ok(format!("err\x1f{e}")),
                }
            }
            "dump" => Ok(format!("ok\x1f{}", dumps(b))),
            k @ ("truncate" | "pretty" | "one_line" | "excerpted") => {
                use crate::impls::utils::source_excerpt_macros as m;
                if let Some(ts) = crate::enter(kind, a, b.clone()) {
                    return Ok(result(ts, lit_or_tokens));
                }
                let r = match k {
                    "truncate" => m::truncate_lit_str(b),
                    "pretty" => m::pretty_stringify(b),
                    "one_line" => m::one_line_stringify(b),
                    _ => m::excerpted_pretty_stringify(b),
                };
                match r {
                    Ok(ts) => Ok(lit_or_tokens(ts)),
                    Err(e) => Ok(format!("err\x1f{e}")),
                }
            }
            k => Err(format!("unknown kind {k}")),
        }
    }));
    match r {
        Ok(Ok(s)) => s,
        Ok(Err(e)) => format!("badcase\x1f{e}"),
        Err(p) => {
            let m = p
                .downcast_ref::<String>()
                .cloned()
                .or_else(|| p.downcast_ref::<&str>().map(|s| s.to_string()))
                .unwrap_or_default();
            format!("panic\x1f{m}")
        }
    }
}

// Input tokens: N kind "manifest_dir" {a} {b}
pub fn run(input: TokenStream) {
    let v: Vec<TokenTree> = input.into_iter().collect();
    let grp = |i: usize| match &v[i] {
        TokenTree::Group(g) => g.stream(),
        t => panic!("bad probe input at {t}"),
    };
    let dir: syn::LitStr = syn::parse2(v[2].clone().into()).unwrap();
    // SAFETY: rustc runs this macro on one thread and reads no environment meanwhile.
    unsafe { std::env::set_var("CARGO_MANIFEST_DIR", dir.value()) };
    let name = std::path::Path::new(&dir.value()).file_name().map(|n| n.to_string_lossy().to_string()).unwrap_or_default();
    unsafe { std::env::set_var("CARGO_PKG_NAME", &name) };
    unsafe { std::env::set_var("CARGO_CRATE_NAME", name.replace('-', "_")) };
    std::panic::set_hook(Box::new(|_| {}));
    let r = one(&v[1].to_string(), grp(3), grp(4));
    let _ = std::panic::take_hook();
    use std::io::Write;
    let mut f = std::fs::OpenOptions::new()
        .create(true)
        .append(true)
        .open(std::env::var("PROBE_OUT").unwrap())
        .unwrap();
    f.write_all(format!("{}\x1f{r}\x1e", v[0]).as_bytes()).unwrap();
}
