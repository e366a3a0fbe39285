"""C12: clean_ini_to_toml."""
import os
import num
import gravgen as gg
from vlib import Check, call

NAMES = ['Sensor', 'Meter', 'GPS', 'Serial_1', 'A-B', 'x', '7', 'TRUE', 'nini', 'Filter']
KEYS = ['GravCal', 'LongOffset', 'g0', 'k', 'Port', 'TRUEkey', 'beam-zero', 'Name', 'FALSE', 'in', '12', 'e5']


def blank(rng):
    return rng.choice(['', '', ' ', '  ', '\t', ' \t'])


def value(rng):
    k = rng.random()
    if k < 0.3:
        return gg.dec(rng, nd=rng.choice([0, 1, 4, 9]))
    if k < 0.42:
        return rng.choice(['007', '.5', '5.', '-.25', '+5', '1e5', '-2.5E-3', '0', '-0', '00', '1.50', '8388607', '1E+3'])
    if k < 0.55:
        return rng.choice(['TRUE', 'FALSE'])
    if k < 0.75:
        return '"' + rng.choice(['COM1', 'TRUE', 'a // b', 'x = y', '', 'FALSE', '$GPGGA', 'two  words', '12.5', '[x]', 'a\tb', '#', 'no # mark', '#FF00', 'a // # b', 'ch#1']) + '"'
    if k < 0.85:                                # words around the keywords
        v = ''.join(rng.choice(['TRUE', 'FALSE', 'true', 'false', 'True', '=', ' ', '$', 'x', '7', '.5', '-', '[', ']', '\\', "'", ',', ':', '/', 'e'])
                    for _ in range(rng.randrange(1, 5))).strip().replace('//', '/')
        return v if v not in ('true', 'false') else 'x'
    return rng.choice(['COM3', 'trueheading', 'falsepick', 'true north', 'false=1', 'TRUE1', 'FALSE x', '12 // 3'[:2] + 'a', '1e5x', '5 6', '0x1F', '1_0x', 'a b c', 'TRUEBLUE', 'isFALSE', 'x=y', 'k = TRUE', 'a=b=c', '=', 'C:\\data\\new', 'he "said" so', '$foo', '1.2.3',
                       '12:30:01', '2022/07/01', '1,2,3', '', 'False', 'ini', '192.168.0.1', '-', '+', '1 2', 'AT1M-33',
                       'http:', 'x$y', "it's", '[z]', 'e', 'GPGGA,GPVTG'])


def comment(rng):
    return rng.choice(['// note', '//', '// a = b', '//[x]', '// $K = 5 // more', '// TRUE', '// tab\there', '// #', '// no # mark'])


def key_line(rng, name):
    v = value(rng)
    s = rng.choice(['', '', '', '  ', '\t']) + rng.choice(['', '', '', '$']) + name + blank(rng) + '=' + blank(rng) + v + blank(rng)
    if rng.random() < 0.25:
        if '"' in v and not v.startswith('"'):
            return s
        s += rng.choice(['', ' ', '  ']) + comment(rng)
    return s


def make(rng, lines, kind):
    names = rng.sample(NAMES, 4)
    out = []
    used = {}
    sec = None
    for a, b in lines:
        if a == 'section':
            sec = b
            out.append(rng.choice(['', '', '  ']) + '[' + names[int(b[1:]) - 1] + ']' + rng.choice(['', '', ' ', '  // x']))
        elif a == 'key':
            keys = used.setdefault(sec, rng.sample(KEYS, len(KEYS)))
            out.append(key_line(rng, keys[int(b[1:]) - 1]))
        else:
            out.append(rng.choice(['', '', ' ', '\t', comment(rng), comment(rng), '  ' + comment(rng)]))
    top = {'x'} if any(a == 'key' for a, b in lines[:1]) else set()
    return dict(kind=kind, lines=out, nl=rng.choice(['\n', '\n', '\r\n']), last=rng.random() < 0.7,
                name=rng.choice(['Meter.ini', 'mini.ini', 'a.b.ini', 'init.ini', 'iniini.ini', 'a.ini.ini', 'x.initial.ini', 'ini.ini', 'n.i.ini', 'toml.ini', 'A B.ini']), absolute=rng.random() < 0.3)


def rand_lines(rng):
    out, ns = [], 0
    nk = 0
    for _ in range(rng.choice([1, 3, 8, 16])):
        k = rng.random()
        if k < 0.2 and ns < 4:
            ns += 1
            nk = 0
            out.append(('section', 's%d' % ns))
        elif k < 0.8 and nk < 12:
            nk += 1
            out.append(('key', 'k%d' % nk))
        else:
            out.append(('skip', ''))
    return out


def val(v):
    if isinstance(v, bool):
        return ['b', v]
    if isinstance(v, (int, float)):
        return ['n', num.num(v)]
    if isinstance(v, str):
        return ['s', num.codes(v)]
    return ['o', str(v)]


class C(Check):
    pid = 'C12'
    trace = ('TraceIni', 'TraceIni.cfg')
    note = ('TLC checks that the IniFile machine keeps every key under its section for all files of up to five abstract lines; each such '
            'file with concrete keys and values, and longer seeded ones, are converted by the real code and the toml compared entry by entry.')
    assumptions = ['section and key names of letters, digits, - and _, not repeated', 'unquoted values without # marks; quoted text without backslashes',
                   'the toml is read with tomli']

    def mc(self, tier):
        return [('MC_IniFile', 'MC_IniFile.cfg', {})]

    def cases(self, rng, tier, scen):
        q = tier == 'quick'
        out = [make(rng, s, 'scenario') for s in (rng.sample(scen, 500) if q and len(scen) > 500 else scen)]
        # a key in front of any section shares its table with the sections: names differ
        for _ in range(1200 if q else 8000):
            out.append(make(rng, rand_lines(rng), 'random'))
        return [c for c in out if not clash(c)]

    def observe(self, case):
        import tomli
        import shipgrav.utils as sgu
        data = case['nl'].join(case['lines']) + (case['nl'] if case['last'] else '')
        os.makedirs('ini')
        p = os.path.join('ini', case['name'])
        if case['absolute']:
            p = os.path.abspath(p)
        with open(p, 'w', newline='') as f:
            f.write(data)
        st, r = call(sgu.clean_ini_to_toml, p)
        obs = dict(kind='raise', sections=[], entries=[], path=False, kept=open(p, newline='').read() == data)
        if st == 'ok':
            want = p[:-3] + 'toml'
            obs['path'] = r == want and sorted(os.listdir('ini')) == sorted([case['name'], case['name'][:-3] + 'toml'])
            try:
                t = tomli.load(open(want, 'rb'))
                obs['kind'] = 'toml'
                for k, v in t.items():
                    if isinstance(v, dict):
                        obs['sections'].append(num.codes(k))
                        obs['entries'] += [[[num.codes(k)], num.codes(a), val(b)] for a, b in v.items()]
                    else:
                        obs['entries'].append([[], num.codes(k), val(v)])
            except Exception as e:
                obs['kind'] = 'invalid'
        return dict(req=[num.codes(l) for l in case['lines']], obs=obs)


def clash(c):
    """a top-level key with the name of a section"""
    import re
    top, secs, seen = set(), set(), False
    for l in c['lines']:
        s = l.strip()
        if s.startswith('['):
            seen = True
            secs.add(s[1:s.index(']')])
        elif s and not s.startswith('//') and not seen:
            top.add(s.split('=')[0].strip().lstrip('$'))
    return bool(top & secs)


CHECK = C()
