"""C04: which parser, talker, scale; the sentinel -999 otherwise."""
import itertools
import gravgen as gg
import navgen as ng
from vlib import Check

US = (1656633600 + 43210) * 10 ** 6
UNKNOWN = ['Titanic', 'DGStest', '', 'atlantis', 'Atlantis ']
ALIASES = ['Palmer', 'Nathaniel B. Palmer', 'nbp', 'REVELLE', 'Roger Revelle', 'Sally Ride', 'ride', 'thompson', 'Thompson ', 'TN', 'MGL', 'langseth',
           'Marcus G. Langseth', 'sikuliaq', 'SKQ', 'AT', 'RR', 'SR', 'R/V Atlantis', 'Atlantis II', 'Healy', 'Armstrong', 'dgstest', 'DGSTest', 'Test']
TALKERS = [None, 'GPGGA', 'INGGA', 'PXGGA', 'ABSENT']


def nav_file(rng, ship, talkers, fn):
    """a file holding one or two fixes of each talker, and other lines"""
    out = [ng.other(rng, ship, ng.EPOCH.date().replace(year=2022)) for _ in range(rng.randrange(3))]
    for tk in talkers:
        for _ in range(rng.choice([1, 2])):
            us = US + rng.randrange(3600) * 10 ** 6
            n = rng.randrange(1000)
            if fn:
                out.append('%d.5 %s %s %s' % (us // 10 ** 6, repr(-30.0 + n / 10000), repr(10.0 + n / 10000), tk))
            else:
                out += ng.fix(rng, ship, tk, us, 600000 + n, -1800000 - n, 3, 3)
        if rng.random() < 0.3 and ship != 'Revelle':
            out.append('other')
    return out


def nav_cases(rng, n):
    out = []
    ships = ng.VESSELS + UNKNOWN
    pats = [['in'], ['out'], ['empty'], ['in', 'in'], ['in', 'out'], ['out', 'in'], ['in', 'empty'], ['in', 'in', 'out']]
    for ship, tk, fn, pat in itertools.product(ships, TALKERS, [False, True], pats):
        if rng.random() > n:
            continue
        lay = ship if ship in ng.VESSELS else rng.choice(ng.VESSELS)
        eff = tk or ng.LISTED.get(ship, 'GPGGA')
        if ship == 'Sikuliaq' and not fn and tk in ('INGGA', 'PXGGA'):
            pass                               # known vessel without a parser for this talker
        files = []
        for p in pat:
            if p == 'in' and eff != 'ABSENT':
                t = [eff] + rng.choice([[], [x for x in ('GPGGA', 'INGGA', 'PXGGA') if x != eff][:rng.randrange(1, 3)]])
                if lay == 'Revelle':
                    t = [eff]
                files.append(nav_file(rng, lay, t, fn))
            elif p == 'empty':
                files.append([])
            else:
                t = [x for x in ('GPGGA', 'INGGA') if x != eff][:rng.randrange(1, 3)]
                files.append(nav_file(rng, lay, t, fn))
        out.append(dict(spec='nav', kind='nav-%s-%s%s' % ('known' if ship in ng.VESSELS else 'unknown', tk, '-fn' if fn else ''),
                        ship=ship, talker=tk, fn=fn, files=files, decim=None, single=rng.random() < 0.5))
    for ship in ALIASES:                       # other ways to write a vessel's name are not listed
        tk, fn = rng.choice([None, None, 'GPGGA', 'INGGA']), rng.random() < .3
        out.append(dict(spec='nav', kind='nav-alias', ship=ship, talker=tk, fn=fn, files=[nav_file(rng, rng.choice(ng.VESSELS), ['GPGGA', 'INGGA'], fn)],
                        decim=None, single=True))
    for ship in ng.VESSELS + UNKNOWN:          # an empty talker of the caller is his talker: the reader function gets it
        f = ['%d.5 %r %r %s' % (US // 10 ** 6 + i, -30.0 - i / 1000, 10.0 + i / 1000, rng.choice(['GPGGA', 'INGGA', 'x'])) for i in range(rng.choice([1, 3, 5]))]
        out.append(dict(spec='nav', kind='nav-empty-talker-fn', ship=ship, talker='', fn=True, files=[f], decim=None, single=True))
    return out


def grav_cases(rng, n):
    out = []

    def add(reader, ship, lay, files, **kw):
        c = dict(spec='grav', kind='%s-%s' % (reader, '-'.join(sorted(kw)) or 'plain'), reader=reader, ship=ship, files=files,
                 single=rng.random() < 0.5, last=True)
        c.update(kw)
        if reader == 'raw':
            c.setdefault('ccp', None)
        out.append(c)
    ships = sorted(set(ng.VESSELS + gg.LAPTOPS + UNKNOWN))
    for _ in range(n):
        for ship in ships:
            nf = rng.choice([1, 2])
            lay = ship if ship in gg.READERS['rgs'] else rng.choice(gg.READERS['rgs'])
            add('rgs', ship, lay, [gg.gen_file(rng, 'rgs', lay) for _ in range(nf)])
            lay = ship if ship in gg.BGMS else rng.choice(gg.BGMS)
            for scale, fn in itertools.product([None, rng.choice([5.0, 4.98, 1.5, 0.25]), 0, rng.choice([1, -2.5, 0.0])], [False, True]):
                kw = {}
                if scale is not None:
                    kw['scale'] = scale
                if fn:
                    kw['fn'] = True
                    fs = [['%d %02d:%s' % (1656633600 + i, 4, gg.counts(rng)) for i in range(rng.choice([1, 3]))] for _ in range(nf)]
                else:
                    fs = [gg.gen_file(rng, 'bgm', lay) for _ in range(nf)]
                add('bgm', ship, lay, fs, **kw)
            lay = ship if ship in gg.LAPTOPS else rng.choice(gg.LAPTOPS[:5])
            add('laptop', ship, lay, [gg.gen_file(rng, 'laptop', lay) + ([] if lay != 'Langseth' else
                [gg.row(rng, 'laptop', lay, gg.when(rng), gg.file_style(rng, 'laptop', lay))]) for _ in range(nf)])
            add('laptop', ship, lay, [['%s mark%d' % (gg.dec(rng), i) for i in range(3)] for _ in range(nf)], fn=True)
            lay = ship if ship in ('Thompson', 'Sikuliaq') else 'Atlantis'
            add('raw', ship, lay, [gg.gen_file(rng, 'raw', lay) for _ in range(nf)], ccp=rng.choice([None, True, False]))
    for ship in ALIASES:
        for reader in ('rgs', 'bgm', 'laptop', 'raw'):
            lay = rng.choice(gg.READERS[reader][:5]) if reader != 'raw' else 'Atlantis'
            kw = dict(scale=4.5) if reader == 'bgm' and rng.random() < .5 else {}
            add(reader, ship, lay, [gg.gen_file(rng, reader, lay)], **kw)
    return out


class C(Check):
    pid = 'C04'
    note = ('The whole product of vessel, talker, reader function, scale and file pattern (with, without talker lines, empty) '
            'is enumerated and each call of the real readers is accepted or rejected by the reader machines NavSeries and GravReader in TLC.')
    assumptions = ['user-supplied functions are two simple parsers of the harness']

    def trace_for(self, case):
        return ('TraceNav', 'TraceNav.cfg') if case['spec'] == 'nav' else ('TraceGrav', 'TraceGrav.cfg')

    def mc(self, tier):
        return [('MC_GravReader', 'MC_GravReader.cfg', {}), ('MC_NavSeries', 'MC_NavTiny.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        out = nav_cases(rng, 1)
        out += grav_cases(rng, 6 if q else 40)
        if not q:
            for _ in range(6):
                out += nav_cases(rng, 1)
        return out

    def observe(self, case):
        return ng.observe(case) if case['spec'] == 'nav' else gg.observe(case)


CHECK = C()
