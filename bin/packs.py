"""Extracts a pack from the current source and runs Verus over it."""
import glob, json, os, re, shutil, tempfile, time
import vlib
from vlib import VERIF, REPO, BUILD, CheckError, sh, env
import subprocess

VERUS_TOOLCHAIN = "1.98.1"
SPECS = os.path.join(VERIF, "specs")
VERIFY_ERR = re.compile(
    r"^(postcondition not satisfied|precondition not satisfied|assertion failed|invariant not satisfied|decreases not satisfied"
    r"|possible (arithmetic|division|bit shift|shift)|unable to prove|loop invariant not satisfied|could not prove|recursive call|"
    r"constructed value may fail|cannot show|requires not satisfied|unreachable|split (pre|post)condition failure|"
    r"possible .*overflow|recommendation not met|failed (this|precondition|postcondition)|ensures not satisfied|"
    r"termination proof|not all errors may have been reported|cannot prove)")
RLIMIT = re.compile(r"(Resource limit \(rlimit\) exceeded|could not.*rlimit|while loop: Resource limit|function body check: Resource limit|canceled)", re.I)


def build_extractor():
    tgt = os.path.join(BUILD, "xt")
    r = sh(["cargo", "build", "--offline", "--quiet", "--target-dir", tgt], cwd=os.path.join(VERIF, "extract"))
    exe = os.path.join(tgt, "debug", "hooq-extract")
    if r.returncode != 0 or not os.path.exists(exe):
        raise CheckError("the extractor does not build:\n" + r.stdout[-3000:])
    return exe


def syn_src():
    c = glob.glob(os.path.expanduser("~/.cargo/registry/src/*/syn-2.0.117/src")) or glob.glob("/root/.cargo/registry/src/*/syn-2.0.117/src")
    if not c:
        raise CheckError("syn 2.0.117 sources not found")
    return c[0]


class PackResult:
    def __init__(self, pack):
        self.pack = pack
        self.items = []          # functions under contract in this pack (not those only assumed here)
        self.failed = {}         # fn -> (message, obligation text)
        self.undecided = {}      # fn -> why
        self.verified = self.errors = 0
        self.solver_s = self.wall_s = 0.0
        self.cmd = ""
        self.note = None         # why the whole pack is undecided
        self.trusted = []
        self.canary = None
        self.times = {}


CANARY = "\nverus! {\nproof fn vx_canary() ensures false { %s }\n}\n"


def verify(exe, pack, rlimit=10, timeout=600, smoke=False):
    """One pack: extract, verify, demote what cannot be expressed, re-verify."""
    res = PackResult(pack)
    t0 = time.time()
    d = tempfile.mkdtemp(prefix="vx.")
    forced, why = [], {}
    try:
        for attempt in range(6):
            rs, js = os.path.join(d, pack + ".rs"), os.path.join(d, pack + ".json")
            r = sh([exe, REPO, syn_src(), os.path.join(SPECS, pack + ".vspec"), rs, js] + sorted(set(forced)))
            if r.returncode != 0 or not os.path.exists(js):
                res.note = "extraction failed: " + r.stdout[-1500:]
                return res
            meta = json.load(open(js))
            text = open(rs).read()
            bro = sorted(set(x.strip() for m in re.findall(r"broadcast use \{([^}]*)\}", text) for x in m.split(",") if x.strip()))
            text = text.replace("fn main() {}", "") + CANARY % ("broadcast use {%s};" % ", ".join(bro) if bro else "") + "fn main() {}\n"
            open(rs, "w").write(text)
            lines = text.split("\n")
            canary_line = next(i + 1 for i, l in enumerate(lines) if "fn vx_canary" in l)
            items = meta["items"]
            for it in items:
                st = it["status"].split(":")[0]
                if st in ("lost", "unsupported") or it.get("unmatched_loops") or it.get("unknown_calls"):
                    w = it["status"] if st in ("lost", "unsupported") else (
                        "loop without an applicable invariant" if it.get("unmatched_loops") else "calls functions without a contract: " + ", ".join(it["unknown_calls"]))
                    why.setdefault(it["fn"], w)
            need = [f for f in why if f not in forced and any(i["fn"] == f and i["status"] == "ok" for i in items)]
            if need:
                forced += need
                continue
            cmd = ["verus", os.path.basename(rs), "--output-json", "--time-expanded", "--error-format=json", "--multiple-errors", "1",
                   "--triggers-mode", "silent", "--rlimit", str(rlimit), "--num-threads", "4"]
            e = env()
            e.pop("RUSTUP_TOOLCHAIN", None)
            try:
                p = subprocess.run(cmd, cwd=d, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
            except subprocess.TimeoutExpired:
                res.note = "verifier timed out after %d s" % timeout
                return res
            try:
                out = json.loads(p.stdout)
            except ValueError:
                out = {}
            errs, other = {}, {}
            canary = False
            nowhere = []
            for l in p.stderr.splitlines():
                if not l.startswith("{"):
                    continue
                m = json.loads(l)
                if m.get("level") != "error" or m["message"].startswith("aborting due to"):
                    continue
                sp = [s for s in m["spans"] if s["is_primary"]] + [s for s in m["spans"] if not s["is_primary"]]
                ls = [s["line_start"] for s in sp if s["file_name"].endswith(pack + ".rs")]
                if any(canary_line <= x for x in ls):
                    canary = True
                    continue
                hit = None
                for x in ls:
                    hit = next((i for i in items if i["line_start"] <= x < i["line_end"]), None)
                    if hit:
                        break
                if RLIMIT.search(m["message"]):
                    if hit:
                        other[hit["fn"]] = "rlimit"
                    else:
                        nowhere.append("rlimit: %s" % (lines[ls[0] - 1].strip() if ls else m["message"]))
                elif VERIFY_ERR.match(m["message"]) and m.get("code") is None:
                    ob = m["message"] + ": " + " | ".join(
                        (s["text"][0]["text"].strip() if s["text"] else "") + (" (" + s["label"] + ")" if s["label"] else "") for s in sp)
                    if hit:
                        errs[hit["fn"]] = (m["message"], ob)
                    else:
                        nowhere.append(ob)
                else:
                    if hit:
                        other[hit["fn"]] = "the verifier does not accept it: " + m["message"][:300]
                    else:
                        nowhere.append("not accepted: %s%s" % (m["message"][:300], (" at: " + lines[ls[0] - 1].strip()[:200]) if ls else ""))
            reject = {f: w for f, w in other.items() if w != "rlimit"}
            ok_run = bool(out.get("verification-results")) and "smt" in out.get("times-ms", {})
            if reject and attempt < 5:
                new = [f for f in reject if f not in forced]
                why.update({f: w for f, w in reject.items() if f in new})
                if new:
                    forced += new
                    continue
            if not ok_run or (not canary and not out.get("verification-results", {}).get("verified")):
                res.note = "the verifier gave no verdict: " + ("; ".join(nowhere) or p.stderr[-800:] or str(p.returncode))
                return res
            vr = out["verification-results"]
            res.verified, res.errors = vr["verified"], max(0, vr["errors"] - 1)
            smt = out["times-ms"]["smt"]
            res.solver_s = smt["total"] / 1000.0
            for mt in smt.get("smt-run-module-times", []):
                for f in mt.get("function-breakdown", []):
                    res.times[f["function"].split("::", 1)[1]] = f.get("time-micros", 0) / 1e6
            res.canary = canary
            res.cmd = " ".join(cmd)
            res.failed = errs
            res.undecided = dict(why)
            res.undecided.update({f: w for f, w in other.items() if w == "rlimit"})
            res.loose = nowhere
            res.items = [i for i in items if not i.get("packassumed")]
            res.assumed_fns = [i["fn"] for i in items if i.get("packassumed")]
            res.trusted = trusted(text, items)
            return res
        res.note = "the verifier does not accept the extracted code: " + "; ".join("%s (%s)" % x for x in why.items())[:1500]
        return res
    finally:
        res.wall_s = time.time() - t0
        shutil.rmtree(d, ignore_errors=True)


def trusted(text, items):
    """A mechanical scan of everything the verifier takes on trust in the generated file."""
    ext = set(re.findall(r"#\[verifier::external_body\]\s*(?:pub )?(?:broadcast )?(?:proof )?(?:fn|struct) (\w+)", text))
    ax = re.findall(r"\baxiom fn (\w+)", text)
    un = re.findall(r"\buninterp spec fn (\w+)", text)
    asm = re.findall(r"\bassume\((?!false\))|assume_specification", text)
    names = {i["fn"].split("::")[-1] for i in items}
    lib = sorted(x for x in ext if x not in names)
    out = ["axioms (%d): %s" % (len(ax), " ".join(sorted(set(ax)))),
           "uninterpreted functions (%d): %s" % (len(un), " ".join(sorted(set(un)))),
           "assumed library contracts, opaque types (%d distinct names): %s" % (len(lib), " ".join(lib)),
           "assume() / assume_specification occurrences: %d (not counting the arms of a match that are verified in a copy of their own)" % len(asm)]
    asf = sorted(i["fn"] for i in items if i["status"] == "assumed")
    if asf:
        out.append("functions of the code whose contract is assumed in this pack: " + " ".join(asf))
    return out
