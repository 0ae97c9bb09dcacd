"""Shared helpers: where things are, building the extractor and the probe, running the probe."""
import os, re, subprocess, sys, hashlib, shutil, tempfile, time, json
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, "build"))
TOOLCHAIN = "1.88.0"


def env():
    e = dict(os.environ)
    e.update(HOME="/root", CARGO_HOME="/root/.cargo", RUSTUP_HOME="/root/.rustup", RUSTUP_TOOLCHAIN=TOOLCHAIN,
             CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="")
    e["PATH"] = "/root/.cargo/bin:" + e.get("PATH", "/usr/bin:/bin")
    for k in ("RUST_BACKTRACE", "RUSTFLAGS", "RUST_LOG", "CARGO_TARGET_DIR", "CARGO", "CARGO_TARGET_TMPDIR"):
        e.pop(k, None)
    return e


class CheckError(Exception):
    """The check itself could not do its work (never a violation)."""


def write_if_changed(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    open(path, "w").write(text)


def sh(cmd, cwd=None, timeout=900, extra=None):
    e = env()
    e.update(extra or {})
    return subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                          timeout=timeout)


PROBE_TOML = """[package]
name = "probe-%(name)s"
version = "0.0.0"
edition = "2024"
[lib]
proc-macro = true
path = "lib.rs"
[features]
default = ["anyhow", "log", "tracing", "eyre"]
log = []
anyhow = []
consume-question = []
tracing = []
eyre = []
%(deps)s
[workspace]
[profile.dev]
debug = 0
"""
PROBE_LIB = """#![allow(dead_code, unused, clippy::all)]
#[path = "%(repo)s/hooq-macros/src/impls/mod.rs"]
mod impls;
%(entry)s
#[path = "%(verif)s/harness/probe.rs"]
mod probe;
#[proc_macro]
pub fn probe(i: proc_macro::TokenStream) -> proc_macro::TokenStream {
    probe::run(i.into());
    proc_macro::TokenStream::new()
}
"""


# the entry points of the macro crate (hooq-macros/src/lib.rs), called as rustc calls them
ENTRY_CALL = """mod entry;
pub(crate) fn enter(k: &str, a: proc_macro2::TokenStream, b: proc_macro2::TokenStream) -> Option<proc_macro2::TokenStream> {
    Some(match k {
        "hooq" => entry::hooq(a.into(), b.into()),
        "truncate" => entry::truncate_lit_str(b.into()),
        "pretty" => entry::pretty_stringify(b.into()),
        "one_line" => entry::one_line_stringify(b.into()),
        "excerpted" => entry::excerpted_pretty_stringify(b.into()),
        _ => return None,
    }.into())
}"""
NO_ENTRY = """pub(crate) fn enter(_: &str, _: proc_macro2::TokenStream, _: proc_macro2::TokenStream) -> Option<proc_macro2::TokenStream> { None }"""


def entry_text():
    """lib.rs as a module: without its inner attributes and #[proc_macro..] attributes, and with `mod impls;` naming the probe's copy."""
    s = open(os.path.join(REPO, "hooq-macros/src/lib.rs"), encoding="utf8").read()
    s = re.sub(r"^#!\[(?:[^\[\]\"]|\"[^\"]*\"|\[[^\]]*\])*\]", "", s, flags=re.M)
    s = re.sub(r"^\s*//[/!].*$", "", s, flags=re.M)
    s = re.sub(r"^#\[proc_macro(_attribute|_derive\([^)]*\))?\]", "", s, flags=re.M)
    s = re.sub(r"^(pub(\([a-z]*\))? )?mod impls;", "use crate::impls;", s, flags=re.M)
    return s


def deps_section():
    """The [dependencies] table of the code under test, as it stands in the working tree."""
    out, on = [], False
    for l in open(os.path.join(REPO, "hooq-macros/Cargo.toml")):
        if l.startswith("["):
            on = l.strip() == "[dependencies]"
        if on:
            out.append(l)
    return "".join(out)


def build_probe(name="cur", features=()):
    """Builds the probe macro around the current working tree; returns (dylib path, None) or (None, log)."""
    d = os.path.join(BUILD, "probe-" + name)
    write_if_changed(os.path.join(d, "Cargo.toml"), PROBE_TOML % dict(name=name, deps=deps_section()))
    lock = os.path.join(d, "Cargo.lock")
    if not os.path.exists(lock):
        shutil.copy(os.path.join(VERIF, "harness", "Cargo.lock"), lock) if os.path.exists(
            os.path.join(VERIF, "harness", "Cargo.lock")) else shutil.copy(os.path.join(REPO, "Cargo.lock"), lock)
    tgt = os.path.join(BUILD, "target")
    cmd = ["cargo", "build", "--offline", "--quiet", "--message-format=short", "--target-dir", tgt]
    if features:
        cmd += ["--features", ",".join(features)]
    so = os.path.join(tgt, "debug", "libprobe_%s.so" % name)
    try:
        write_if_changed(os.path.join(d, "entry.rs"), entry_text())
        entries = [ENTRY_CALL, NO_ENTRY]
    except OSError:
        entries = [NO_ENTRY]
    for e in entries:
        write_if_changed(os.path.join(d, "lib.rs"), PROBE_LIB % dict(repo=REPO, verif=VERIF, entry=e))
        r = sh(cmd, cwd=d)
        if r.returncode == 0 and os.path.exists(so):
            return so, None
    return None, r.stdout


FS, RS = "\x1f", "\x1e"


class Case:
    """One probe case: kind, attribute/argument tokens `a`, body text `b` (real source text, real spans)."""
    __slots__ = ("kind", "dir", "a", "b", "line", "out", "meta")

    def __init__(self, kind, b, a="", dir="/nonexistent", meta=None):
        self.kind, self.a, self.b, self.dir, self.meta = kind, a, b, dir, meta
        self.line, self.out = 0, None   # line: source line on which b's text starts


def run_probe(so, cases, timeout=600):
    """Runs the cases through the probe macro (one rustc process); fills in .line and .out ([status, payload...]).
    A case in which the process dies gets the status "crash"; the ones after it run in another process."""
    crashes = 0
    while cases:
        log = _run_probe(so, cases, timeout)
        k = next((i for i, c in enumerate(cases) if c.out is None), None)
        if k is None:
            return
        _run_probe(so, [cases[k]], timeout)
        if cases[k].out is None:
            cases[k].out = ["crash", log[-600:]]
            crashes += 1
            if crashes > 20:
                for c in cases[k + 1:]:
                    c.out = ["badcase", "not run"]
                return
        cases = cases[k + 1:]


def _run_probe(so, cases, timeout):
    name = os.path.basename(so)[3:-3]
    d = tempfile.mkdtemp(prefix="probe.")
    try:
        txt, line = ['#![crate_type="lib"]\n'], 2
        for i, c in enumerate(cases):
            head = '%s::probe!{ %d %s "%s" { %s\n} {\n' % (name, i, c.kind, c.dir, c.a)
            line += head.count("\n")
            c.line, c.out = line, None
            body = c.b + "\n} }\n"
            line += body.count("\n")
            txt += [head, body]
        open(d + "/m.rs", "w", encoding="utf8", newline="").write("".join(txt))
        r = sh(["rustc", "--edition=2021", "--emit=metadata", "-o", "m.rmeta", "--extern", name + "=" + so,
                "m.rs"], cwd=d, timeout=timeout, extra=dict(PROBE_OUT=d + "/out"))
        if os.path.exists(d + "/out"):
            for rec in open(d + "/out", encoding="utf8", newline="").read().split(RS):
                f = rec.split(FS)
                if len(f) >= 2:
                    cases[int(f[0])].out = f[1:]
        elif r.returncode >= 0 and "SIG" not in r.stdout:
            raise CheckError("probe did not run: " + r.stdout[-2000:])
        return r.stdout
    finally:
        shutil.rmtree(d, ignore_errors=True)
