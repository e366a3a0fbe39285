"""C06: read_dgs_laptop."""
import gravgen as gg
from vlib import Check


class C(Check):
    pid = 'C06'
    trace = ('TraceGrav', 'TraceGrav.cfg')
    readers = 'laptop'.split(',')

    def mc(self, tier):
        return [('MC_GravReader', 'MC_GravReader.cfg', {})]

    def cases(self, rng, tier, scen):
        n = (160 if tier == 'quick' else 1200)
        out = []
        for r in self.readers:
            for s in gg.READERS[r]:
                out += [gg.rand_case(rng, r, s) for _ in range(n)]
                out += [gg.rand_case(rng, r, s, nfiles=1, n=m) for m in ([100] if tier == 'quick' else [100, 400, 1100])]
        out.append(gg.rand_case(rng, self.readers[-1], nfiles=1, n=500 if tier == 'quick' else 3000))
        return out

    def observe(self, case):
        return gg.observe(case)


CHECK = C()
