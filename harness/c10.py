"""C10: decode_dgs_status_bits, all status words and tables."""
from vlib import Check, call

OTHER = ['rgrav', 've', 'vcc', 'date_time', 'lat', 'Status', 'mark', 'stat', '0']


def table(rng, n=0):
    n = n or rng.choice([0, 1, 2, 5, 17, 40, 40, 200])
    key = rng.choice(['status', 'status', 'stat_word', 'key', 'flags'])
    cols = rng.sample(OTHER, rng.randrange(0, 6))
    cols.insert(rng.randrange(len(cols) + 1), key)
    words = [rng.choice([0, 65535, 1, 32768, rng.randrange(65536), 1 << rng.randrange(16), 65535 ^ (1 << rng.randrange(16))]) for _ in range(n)]
    m = rng.random()
    if m < 0.15:
        words = words[:1] * n
    elif m < 0.25:
        words = sorted(words, reverse=m < 0.2)
    elif m < 0.3:
        words = [0] * n
    elif m < 0.4:
        words = list(range(rng.randrange(65536 - n), 65536))[:n]
    index = rng.choice(['range', 'rev', 'text', 'dup', 'step', 'time'])
    return dict(kind='table', columns=cols, key=key, words=words, index=index,
                dtype=rng.choice(['int64', 'int64', 'uint16', 'int32', 'object']),
                cells=[[rng.choice(['a%d' % rng.randrange(99), str(rng.randrange(10 ** 6)), '%.3f' % rng.uniform(-9, 9)]) for _ in cols] for _ in range(n)])


class C(Check):
    pid = 'C10'
    trace = ('TraceStatus', 'TraceStatus.cfg')
    note = ('Exhaustive over all 65536 status words, in TLC (the word is recovered from the flags) and in the real code (every word is '
            'decoded and judged); tables are seeded samples over column orders, key names, index kinds and integer types.')
    assumptions = ['tables have no column with the name of a flag; status words are integers']

    def mc(self, tier):
        return [('MC_StatusBits', 'MC_StatusBits.cfg', {})]

    def cases(self, rng, tier, scen):
        out = [dict(kind='ints', first=i, count=256) for i in range(0, 65536, 256)]
        out += [table(rng, n) for n in [1500, 5000]]
        return out + [table(rng) for _ in range(800 if tier == 'quick' else 5000)]

    def observe(self, case):
        import pandas as pd
        import shipgrav.utils as sgu
        if case['kind'] == 'ints':
            obs = dict(kind='dicts', names=[], same=True, bits=[])
            for i in range(case['first'], case['first'] + case['count']):
                st, r = call(sgu.decode_dgs_status_bits, i)
                if st != 'ok' or not isinstance(r, dict):
                    obs['kind'] = st
                    continue
                names = [str(x) for x in r]
                if not obs['names']:
                    obs['names'] = names
                obs['same'] = obs['same'] and names == obs['names']
                obs['bits'].append([{'0': 0, '1': 1}.get(v, 9) for v in r.values()])
            return dict(req=dict(kind='ints', first=case['first'], count=case['count']), obs=obs)
        n = len(case['words'])
        idx = dict(range=list(range(n)), rev=list(range(n))[::-1], text=['r%d' % i for i in range(n)], dup=[7] * n,
                   step=[10 * i + 3 for i in range(n)], time=list(pd.date_range('2022-07-01', periods=n, freq='s')))[case['index']]
        data, rows = {}, []
        for j, c in enumerate(case['columns']):
            if c == case['key']:
                data[c] = pd.Series(case['words'], index=idx, dtype=case['dtype'])
            else:
                data[c] = pd.Series([r[j] for r in case['cells']], index=idx, dtype=object)
        df = pd.DataFrame(data, index=idx, columns=case['columns'])

        def cell(v):
            return str(v) if isinstance(v, str) else 'n%s' % v
        rows = [[cell(v) for v in df.iloc[i]] for i in range(n)]
        index = [str(x) for x in df.index]
        if case['key'] == 'status':
            st, r = call(sgu.decode_dgs_status_bits, df)
        else:
            st, r = call(sgu.decode_dgs_status_bits, df, key=case['key'])
        obs = dict(kind=st, columns=[], rows=[], index=[])
        if st == 'ok' and isinstance(r, pd.DataFrame):
            out = []
            for i in range(len(r)):
                v = list(r.iloc[i])
                out.append([cell(x) for x in v])
            obs = dict(kind='table', columns=[str(c) for c in r.columns], rows=out, index=[str(x) for x in r.index])
        return dict(req=dict(kind='table', columns=case['columns'], words=case['words'], rows=rows, index=index), obs=obs)


CHECK = C()
