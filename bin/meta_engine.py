"""Random metadata and questions for HooqMeta::get_binding (C18), answered by the real code in a small program."""
import os, shutil
import vlib

RULE = ("random sets of bindings (25 types, 40 names and variations of them) and random questions put to the real get_binding, compared with an"
        " association list, pointers and reference counts included; non-trivial = distinct (name, type, expected answer)")
TOML = """[package]
name = "metacheck"
version = "0.0.0"
edition = "2024"
[[bin]]
name = "metacheck"
path = "%(verif)s/harness/meta_main.rs"
[dependencies]
hooq-helpers = { path = "%(repo)s/hooq-helpers" }
[workspace]
[profile.dev]
debug = 0
"""


class Fail:
    def __init__(self, why, question, bindings, seed):
        self.why, self.q, self.b, self.seed = why, question, bindings, seed

    def size(self):
        return len(self.b)

    def describe(self):
        return {"question": self.q, "bindings": self.b, "what is wrong": self.why, "program": "harness/meta_main.rs", "seed": self.seed}


class MetaEngine:
    rule = RULE

    def __init__(self, prop):
        self.prop = prop

    def run(self, seed, effort, deadline):
        d = os.path.join(vlib.BUILD, "metacheck")
        vlib.write_if_changed(os.path.join(d, "Cargo.toml"), TOML % dict(verif=vlib.VERIF, repo=vlib.REPO))
        if not os.path.exists(d + "/Cargo.lock"):
            shutil.copy(os.path.join(vlib.REPO, "Cargo.lock"), d + "/Cargo.lock")
        tgt = os.path.join(vlib.BUILD, "target-meta")
        r = vlib.sh(["cargo", "build", "--offline", "--quiet", "--target-dir", tgt], cwd=d)
        if r.returncode != 0:
            raise vlib.CheckError("the program around hooq-helpers does not build: " + r.stdout[-1500:])
        r = vlib.sh([tgt + "/debug/metacheck", str(seed), str(500 * effort)], timeout=300)
        fails, st = [], {}
        for l in r.stdout.split("\n"):
            f = l.split("\x1f")
            if f[0] == "FAIL":
                fails.append((Fail(f[1], f[2], f[3], seed), f[1]))
            elif l.startswith("run "):
                w = l.split()
                st = {"run": int(w[1]), "distinct_outputs": int(w[3])}
        if not st and not fails:
            fails.append((Fail("the program ended early: " + r.stdout[-300:], "?", "?", seed), "the program ended early"))
        st["samples"] = [{"question": "get_binding::<T>(key) for 40 random (T, key) per random metadata value", "seed": seed}]
        return fails, st
