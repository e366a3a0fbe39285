"""C09: several files = each file on its own, in list order; string path, progress bar."""
import gravgen as gg
from vlib import Check


def scen_case(rng, s):
    """file patterns of MC_GravReader: lists of row/blank/reject per file"""
    opts = [('laptop', 'Langseth')] * 3 + [('raw', 'Sikuliaq')] + [('bgm', x) for x in gg.BGMS] + [('rgs', 'Atlantis')]
    allrows = all(k != 'reject' for f in s for k in f)
    nonempty = all(any(k == 'row' for k in f) for f in s)
    if not nonempty:
        opts = [('laptop', 'Langseth')]
    reader, ship = rng.choice(opts if allrows else opts[:4])
    if not any('row' in f for f in s):
        return None
    files = [gg.gen_file(rng, reader, ship, kinds=list(f)) for f in s]
    return mix(rng, dict(kind='scenario-%s-%s' % (reader, ship), reader=reader, ship=ship, files=files))


def mix(rng, c):
    n = len(c['files'])
    k = rng.random()
    order = list(range(n))
    if k < 0.3:
        order = order[::-1]
    elif k < 0.6:
        order = [rng.randrange(n) for _ in range(rng.choice([n, n + 1, n + 2]))]
    elif k < 0.7 and n == 1:
        order = [0, 0]
    if c['reader'] == 'laptop' and c['ship'] == 'Langseth' and not any(len(l.split(',')) == 26 for i in order for l in c['files'][i]):
        order = list(range(n))
    c['order'] = order
    c['single'] = rng.random() < 0.7
    c['bar'] = rng.random() < 0.5
    c['last'] = rng.random() < 0.7
    if c['reader'] == 'raw':
        c['ccp'] = rng.choice([None, True, False])
    if c['reader'] == 'bgm' and rng.random() < 0.2:
        c['scale'] = 4.5
    return c


def fn_case(rng, reader):
    n = rng.choice([1, 2, 3])
    ship = rng.choice(['Atlantis', 'Thompson', 'Titanic'])
    if reader == 'bgm':
        files = [['%d %02d:%s' % (1656633600 + i, 4, gg.counts(rng)) for i in range(rng.choice([1, 3]))] for _ in range(n)]
    else:
        files = [['%s mark%d' % (gg.dec(rng), rng.randrange(99)) for i in range(rng.choice([1, 3]))] for _ in range(n)]
    c = mix(rng, dict(kind='fn-' + reader, reader=reader, ship=ship, files=files, fn=True))
    if reader == 'bgm':
        c['scale'] = rng.choice([5.0, 4.98])
    return c


class C(Check):
    pid = 'C09'
    trace = ('TraceGrav', 'TraceGrav.cfg')
    note = ('TLC checks FilesInOrder, CountRows and Prefix of GravReader for all small file sets; every such set, and seeded multi-file '
            'lists (repeated, reversed), are read by the real readers and judged row by row.')

    def mc(self, tier):
        return [('MC_GravReader', 'MC_GravReader.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        out = []
        for s in (rng.sample(scen, 300) if q and len(scen) > 300 else scen):
            c = scen_case(rng, s)
            if c:
                out.append(c)
        for r in gg.READERS:
            for ship in gg.READERS[r]:
                for _ in range(20 if q else 200):
                    out.append(mix(rng, gg.rand_case(rng, r, ship, nfiles=rng.choice([1, 2, 3, 4]))))
                for n in ([7, 12] if q else [6, 7, 9, 11, 12, 16, 30, 60]):            # many short files
                    c = mix(rng, gg.rand_case(rng, r, ship, nfiles=rng.choice([3, n]), n=rng.choice([1, 2])))
                    m = len(c['files'])
                    c['order'] = list(range(m)) + [rng.randrange(m) for _ in range(n - m)]
                    out.append(c)
        for _ in range(50 if q else 300):
            out.append(fn_case(rng, 'bgm'))
            out.append(fn_case(rng, 'laptop'))
        return out

    def observe(self, case):
        return gg.observe(case)


CHECK = C()
