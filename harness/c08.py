"""C08: read_other_stuff."""
import navgen
import num
import gravgen as gg
from vlib import Check, call

TAGS = ['PASHR', 'PHZDA', 'HEHDT', 'PHGGA', 'PSXN', 'GPVTG', 'WIMWV']
TYPES = ['g', 'd', 'of', 'x', 'nlat_dir', 'w']
WORDS = ['T', 'M', 'A', 'N', 'nan', 'ok', '1*5B', '12:30:01', '-', 'e5', '2022-07-01', '0x1F', 'Inc', '3 4', 'A B', ' A', 'ok ', ' - ']


def yaml_text(rng, formats, fields, top):
    out = ['# feed description', top + ':', '  category: "device_type"', '  format:']
    for t, f in formats:
        out.append("    %s: '%s'" % (t, f))
    out.append('  fields:')
    for n, d in fields:
        out += ['    %s:' % n, '      units: "u"', '      description: "%s"' % d]
    return '\n'.join(out) + '\n'


def make_format(rng, tag, nf):
    names, text = [], []
    for i in range(nf):
        if i and rng.random() < 0.2:
            text.append('%s%d' % (rng.choice('TMNK'), i))
        else:
            n = 'Field%s%d' % (rng.choice(['Lat', 'Lon', 'X', 'Time']), i)
            names.append(n)
            text.append('{%s:%s}' % (n, rng.choice(TYPES)))
    text[-1] += rng.choice(['', '*{CheckSum:x}', '*{CheckSum:x}'])
    head = rng.choice(['$' + tag, '${:.2}' + tag[2:]])
    return head + ',' + ','.join(text), names, nf


def value(rng, edge):
    k = rng.random()
    if k < 0.5:
        return gg.dec(rng)
    if k < 0.6:
        return rng.choice(['007', '0', '-0.0', '+5', '.5', '5.', '1e3', '-2.5E-3', '121733.00', '20220701121733'])
    if k < 0.7 and not edge:
        return ''
    return rng.choice(WORDS)


def feed(rng, tag, nf, pre):
    v = [value(rng, i in (0, nf - 1)) for i in range(nf)]
    if rng.random() < 0.5:
        v[-1] = '%s*%02X' % (v[-1].replace(' ', ''), rng.randrange(256))
    p = ''
    if pre == 1:
        p = '2022-07-%02dT12:%02d:%02d.%03dZ ' % (rng.randrange(1, 29), rng.randrange(60), rng.randrange(60), rng.randrange(1000))
    elif pre == 2:
        p = '%d.%d ' % (1656633600 + rng.randrange(10 ** 6), rng.randrange(10))
    elif pre == 4:
        p = '%02d/%02d/2022,12:%02d:%02d.%03d,' % (rng.randrange(1, 13), rng.randrange(1, 29), rng.randrange(60), rng.randrange(60), rng.randrange(1000))
    elif pre == 5:           # anything
        p = ''.join(rng.choice([',', ' ', '7', '-', '$', 'x', ':', '\t', '"', '.5', tag, '*', ';', '|', 'NaN', '/', '#']) for _ in range(rng.randrange(1, 9) if rng.random() < .9 else rng.randrange(20, 300)))
        while '$' + tag in p:
            p = p.replace('$' + tag, tag)
        p = p.rstrip('$')
    elif pre == 3:
        p = rng.choice(['', 'mru\t2022:182:00:00:01.5\t', ' x ', '12'])
    return p + '$' + tag + ',' + ','.join(v)


def other(rng, tag):
    t = rng.choice([x for x in TAGS if tag not in x and x not in tag])
    return rng.choice(['$%s,1,2,3*4F' % t, '2022-07-01T00:00:00Z $%s,,A' % t, '', 'noise %d' % rng.randrange(99), ' ', ',,,', tag[:-1]])


def make(rng, kinds, nl, last, kind):
    """kinds: list of True (line of the feed) / False"""
    tag = rng.choice(TAGS)
    nf = rng.choice([1, 2, 3, 5, 11])
    fmt, names, nf = make_format(rng, tag, nf)
    formats = [(tag, fmt)]
    for t in rng.sample([x for x in TAGS if x != tag], rng.randrange(3)):
        formats.insert(rng.randrange(len(formats) + 1), (t, make_format(rng, t, 3)[0]))
    fields = [(n, 'text %d' % i) for i, n in enumerate(names) if rng.random() < 0.7]
    fields += [('Unused', 'text u')]
    rng.shuffle(fields)
    pre = rng.randrange(6)
    mix = rng.random() < 0.3
    lines = [feed(rng, tag, nf, rng.randrange(6) if mix else pre) if k else other(rng, tag) for k in kinds]
    data = nl.join(lines) + (nl if last else '')
    want = tag
    m = rng.random()
    if m < 0.04:
        formats = [f for f in formats if f[0] != tag] or [('ZZZZZ', fmt)]
    elif m < 0.08:
        data = nl.join(other(rng, tag) for _ in lines) + nl
    return dict(kind=kind, tag=('$' if rng.random() < 0.5 else '') + want, formats=formats, fields=fields, data=data,
                top=rng.choice(['IXBlueHydrins', 'mru']))


def from_scenario(rng, codes):
    """bytes over {84 tag, 120 other, 10 line end} -> lines"""
    kinds, cur, had = [], False, False
    for c in codes:
        if c == 10:
            kinds.append(cur)
            cur, had = False, False
        else:
            had = True
            cur = cur or c == 84
    last = not had
    if had:
        kinds.append(cur)
    return make(rng, kinds, rng.choice(['\n', '\r\n']), last, 'scenario')


class C(Check):
    pid = 'C08'
    trace = ('TraceFeed', 'TraceFeed.cfg')
    note = ('TLC checks AllAndOnly and RaiseRule of FeedReader for every file of up to six bytes over {tag, other, line end}; each such '
            'file, and seeded ones, are read by the real code and compared with the machine row by row.')
    assumptions = ['feed lines have as many fields as the yaml names, with the first and last field not empty',
                   'other lines do not contain the tag text', 'ASCII files']

    def mc(self, tier):
        return [('MC_FeedReader', 'MC_FeedReader.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        out = [from_scenario(rng, s) for s in (rng.sample(scen, 700) if q else scen)]
        for _ in range(700 if q else 4000):
            n = rng.choice([1, 2, 3, 5, 8, 20])
            out.append(make(rng, [rng.random() < 0.6 for _ in range(n)], rng.choice(['\n', '\n', '\r\n']), rng.random() < 0.5, 'random'))
        for n, share in ([(400, .3), (1300, .8)] if q else [(400, .3), (1300, .8), (1300, .3), (2500, .3), (4000, .6)]):   # longer than a page, a buffer
            out.append(make(rng, [rng.random() < share for _ in range(n)], '\n', rng.random() < 0.5, 'long'))
        return out

    def observe(self, case):
        import pandas as pd
        import shipgrav.io as sgi
        with open('d.yaml', 'w') as f:
            f.write(yaml_text(None, case['formats'], case['fields'], case['top']))
        with open('d.txt', 'w', newline='') as f:
            f.write(case['data'])
        st, r = call(sgi.read_other_stuff, 'd.yaml', 'd.txt', case['tag'])
        obs = dict(kind='raise', names=[], rows=[], info=[], index=True, types=[])
        if st == 'ok':
            obs['kind'] = 'other'
            if isinstance(r, tuple) and len(r) == 2 and isinstance(r[0], pd.DataFrame):
                df, info = r
                cols = [list(df.iloc[:, i]) for i in range(df.shape[1])]
                obs = dict(kind='table', names=[num.codes(str(c)) for c in df.columns],
                           rows=[[gg.value(c[i]) for c in cols] for i in range(len(df))],
                           info=[[num.codes(k), num.codes(str(v.get('description')))] for k, v in info.items()],
                           index=list(df.index) == list(range(len(df))), types=[navgen.coltype(df.iloc[:, i]) for i in range(df.shape[1])])
        req = dict(tag=num.codes(case['tag']), formats=[[num.codes(a), num.codes(b)] for a, b in case['formats']],
                   fields=[[num.codes(a), num.codes(b)] for a, b in case['fields']], data=num.codes(case['data']))
        return dict(req=req, obs=obs)


CHECK = C()
