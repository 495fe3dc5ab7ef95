"""Property id -> check."""
from . import golden, units

SEEDS = {'quick': 120, 'thorough': 3000}


class Golden:
    level = 'other'

    def __init__(self, pid, unit_fns, explanation, extra=None):
        self.pid, self.unit_fns, self.explanation, self.extra = pid, unit_fns, explanation, extra

    def units(self, p):
        out, seen = [], set()
        for f in self.unit_fns:
            for u in f(p):
                if u.id not in seen:
                    seen.add(u.id)
                    out.append(u)
        return out

    def gen(self, p):
        return golden.generate(self.pid, p, self.units(p))

    def run(self, p, tier, seed):
        n = SEEDS[tier]
        base = seed * 100003
        viol, stats, broken = golden.run(self.pid, p, self.units(p), range(base, base + n), {'quick': 4, 'thorough': 60}[tier], {'quick': 5, 'thorough': 60}[tier])
        if self.extra:
            v2, s2, b2 = self.extra(p, tier, seed)
            viol += v2
            broken += b2
            stats.update(s2)
        return viol, stats, broken


CHECKS = {}


def reg(c):
    CHECKS[c.pid] = c


reg(Golden('C01', [units.obj_load], "effect summaries compared with the specification under value numberings"))
reg(Golden('C02', [units.obj_save], "effect summaries compared with the specification under value numberings"))
reg(Golden('C03', [units.asset_load], "effect summaries compared with the specification under value numberings"))
reg(Golden('C04', [units.asset_save], "effect summaries compared with the specification under value numberings"))
reg(Golden('C05', [units.arch_ascii], "effect summaries compared with the specification under value numberings"))
reg(Golden('C06', [units.arch_binary], "effect summaries compared with the specification under value numberings"))
reg(Golden('C07', [units.arch_binsafe], "effect summaries compared with the specification under value numberings"))
reg(Golden('C08', [units.streams], "effect summaries compared with the specification under value numberings"))
reg(Golden('C09', [units.script], "effect summaries compared with the specification under value numberings"))
reg(Golden('C10', [units.vm], "effect summaries compared with the specification under value numberings"))
reg(Golden('C12', [units.host], "effect summaries compared with the specification under value numberings"))
reg(Golden('C13', [units.vfs], "effect summaries compared with the specification under value numberings"))
reg(Golden('C14', [units.vfsdisk], "effect summaries compared with the specification under value numberings"))
reg(Golden('C15', [units.factory, units.arch_common], "effect summaries compared with the specification under value numberings"))
reg(Golden('C16', [units.texture, units.texcvt], "effect summaries compared with the specification under value numberings"))
reg(Golden('C17', [units.modelscript], "effect summaries compared with the specification under value numberings"))
reg(Golden('C19', [units.bindings, units.members], "effect summaries compared with the specification under value numberings"))
reg(Golden('C25', [units.savegame], "effect summaries compared with the specification under value numberings"))
reg(Golden('C26', [units.cutscene], "effect summaries compared with the specification under value numberings"))
reg(Golden('C27', [units.math, units.misc], "effect summaries compared with the specification under value numberings"))
reg(Golden('C24', [units.lifecycle], "effect summaries compared with the specification under value numberings"))
reg(Golden('C28', [units.values], "effect summaries compared with the specification under value numberings"))
reg(Golden('C29', [units.legacy], "effect summaries compared with the specification under value numberings"))
