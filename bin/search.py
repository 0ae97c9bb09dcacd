"""The bounded searches, one engine per property."""
import random, time
import vlib, oracle

RULES = {
    None: "random items from a grammar of every syn expression/statement/item form, expanded by the real macro code and compared token by token"
          " with an independently written reference expansion; non-trivial = distinct expansions"}


class ProgEngine:
    rule = RULES[None]

    def __init__(self, prop):
        self.prop = prop

    def sos(self):
        so, log = vlib.build_probe()
        if so is None:
            raise vlib.CheckError("the probe does not build: " + log[-1500:])
        s = {"cur": so}
        if self.prop in ("C03", "C10"):
            s["consume"] = vlib.build_probe("consume", ("consume-question",))[0]
        return s

    def run(self, seed, effort, deadline):
        sos, fails, tot, k = self.sos(), [], {}, 0
        while k < effort and not fails and (k == 0 or time.time() < deadline):
            progs = oracle.programs(self.prop, random.Random("%s/%s/%s" % (self.prop, seed, k)), 500)
            f, st = oracle.run_programs(progs, sos)
            fails += f
            for a, b in st.items():
                tot[a] = tot.get(a, 0) + b
            tot["samples"] = [progs[-1].describe(), progs[-2].describe()]
            k += 1
        return fails, tot


def engine(prop):
    if prop in ("C12", "C13", "C20"):
        import toml_engine
        return toml_engine.TomlEngine(prop)
    if prop in ("C14", "C15", "C16", "C19"):
        import excerpt_engine
        return excerpt_engine.ExcerptEngine(prop)
    if prop == "C18":
        import meta_engine
        return meta_engine.MetaEngine(prop)
    if prop == "C21":
        import history_engine
        return history_engine.HistoryEngine(prop)
    return ProgEngine(prop)
