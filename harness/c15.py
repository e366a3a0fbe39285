"""C15: ENvel_to_course_heading and rotate_acceleration_EN_to_cl."""
import numgen
from vlib import Check, call

AXIS = [0.0, -0.0, 1.0, -1.0, 5.0, -5.0, 1e-9, -1e-9, 1e6, -1e6]


class C(Check):
    pid = 'C15'
    trace = ('TraceFrames', 'TraceFrames.cfg')
    note = ('TLC checks the rotation (length, inverse, along/cross signs) for all 36 exact headings of denominator 65 and a grid of vectors; '
            'the real functions are judged sample by sample to 1e-11 of the vector on all quadrants, axes, zeros and many-turn headings.')
    assumptions = ['finite inputs; headings up to 100 turns']

    def mc(self, tier):
        return [('MC_Frames', 'MC_Frames.cfg', {})]

    def cases(self, rng, tier, scen):
        out = []
        pairs = [(a, b) for a in AXIS for b in AXIS]
        for how in ('array', 'series', 'readonly', 'strided', 'scalar'):
            for fun in ('course', 'rotate'):
                if how == 'scalar':
                    for e, n in rng.sample(pairs, 40):
                        out.append(dict(kind='axis', fun=fun, how=how, e=[e], n=[n], h=[rng.choice([0, 90, -180, 270, 360.0, 45])]))
                else:
                    out.append(dict(kind='axis', fun=fun, how=how, e=[p[0] for p in pairs], n=[p[1] for p in pairs],
                                    h=[rng.choice([0, 90, 180, -90, 270, 360, 45, -45, 135, 225, 720, -1e-7]) for _ in pairs]))
        for _ in range(240 if tier == 'quick' else 4000):
            m = rng.choice([1, 2, 5, 16])
            s = rng.choice([1e-6, 1e-3, 1, 10, 1000])
            hm = rng.choice([180, 360, 720, 36000])
            out.append(dict(kind='random', fun=rng.choice(['course', 'rotate']), how=rng.choice(['array', 'series', 'readonly', 'strided']),
                            e=[rng.uniform(-s, s) for _ in range(m)], n=[rng.uniform(-s, s) for _ in range(m)],
                            h=[rng.choice([rng.uniform(-hm, hm), rng.randrange(-8, 9) * 45]) for _ in range(m)]))
        def big(n):
            s = rng.choice([1e-3, 10])
            hm = rng.choice([180, 36000])
            return dict(fun=rng.choice(['course', 'rotate']), how=rng.choice(['array', 'series']), e=[rng.uniform(-s, s) for _ in range(n)],
                        n=[rng.uniform(-s, s) for _ in range(n)], h=[rng.uniform(-hm, hm) for _ in range(n)])
        for n in [100, 100, 700, 700, 3000, 3000, 100000, 100000] if tier == 'quick' else [100, 700, 3000, 20000] * 10:
            out.append(numgen.long_case(rng, big, n, 20))
        out.append(dict(kind='empty', fun='course', how='array', e=[], n=[], h=[]))
        out.append(dict(kind='empty', fun='rotate', how='array', e=[], n=[], h=[]))
        return out

    def observe(self, case):
        import shipgrav.nav as sgn
        p = (lambda v: v[0]) if case['how'] == 'scalar' else (lambda v: numgen.pack(v, case['how']))
        e, n, h = p(case['e']), p(case['n']), p(case['h'])
        if case['fun'] == 'course':
            if case['how'] == 'scalar':
                e, n = float(e), float(n)
            st, r = call(sgn.ENvel_to_course_heading, e, n)
        else:
            st, r = call(sgn.rotate_acceleration_EN_to_cl, h, e, n)
        req = dict(fun=case['fun'], e=numgen.arr(case['e']), n=numgen.arr(case['n']), h=numgen.arr(case['h']))
        obs = dict(kind=st, a=[], b=[])
        if st == 'ok':
            try:
                a, b = r
                obs = dict(kind='pair', a=numgen.arr(a), b=numgen.arr(b))
            except Exception:
                obs['kind'] = 'other'
        numgen.judged(case, req, ('e', 'n', 'h'), obs, ('a', 'b'), len(case['e']))
        return dict(req=req, obs=obs)


CHECK = C()
