"""Loads the MIR facts written by the compiler driver (driver/driver.rs)."""
import json, os, re
from . import terms as tm

class Facts:
    def __init__(self, d, crates=("cres",)):
        self.types, self.adts, self.bodies, self.crate_of = {}, {}, {}, {}
        self.dup = []
        self.names = {}
        for c in crates:
            with open(os.path.join(d, c + ".json")) as f:
                txt = f.read()
            pre = "cres::" if c == "cres" else "bin::"
            txt = re.sub(r'(?<![$\w])crate::', pre, txt)
            j = json.loads(txt)
            self.types.update(j["types"])
            for k, v in j["adts"].items():
                self.adts.setdefault(k, v)
            for k, v in j["bodies"].items():
                if k in self.bodies:
                    self.dup.append((c, k))
                    continue
                v["id"] = k
                v["crate"] = c
                self.bodies[k] = v
                if v.get("promoted") is None:
                    self.names.setdefault(v["name"], []).append(k)
        for p, a in self.adts.items():
            if a["kind"] == "enum":
                tm.VARIANTS[p] = [v["name"] for v in a["variants"]]
        # implementations: (trait item path) -> [body]
        self.impls = {}
        for k, b in self.bodies.items():
            if b.get("trait_item") and b.get("promoted") is None:
                self.impls.setdefault(b["trait_item"], []).append(b)

    def by_name(self, name):
        return self.names.get(name, [])

    def find_impl(self, trait_item, self_sub):
        """bodies implementing trait_item for a self type containing self_sub"""
        return [b for b in self.impls.get(trait_item, []) if self_sub(b["impl_self"])]
