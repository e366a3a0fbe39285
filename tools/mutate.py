#!/opt/venv/bin/python
"""Mutation runs: mutants of shipgrav's functions against the checks.

usage: mutate.py OUTDIR [FUNCTION ...]
For every mutant (one small syntactic change in one function) the harness of the function's
checks observes its quick cases on the mutant; records that differ from the unchanged tree's are
judged by TLC.  Prints and appends to OUTDIR/results.txt: id, function, line, change, verdict
  caught CNN clauses | same (no record differs) | accepted (records differ, TLC accepts) """
import ast, importlib, json, os, random, re, shutil, subprocess, sys, tempfile, time
SRC = os.environ.get('MUT_SRC', '/repo')  # where the unchanged shipgrav is
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'harness'))
sys.dont_write_bytecode = True

MAP = {  # function -> checks
    'read_nav': 'C02 C03 C04 C01', '_clock_time': 'C01', '_navdate_Atlantis': 'C01', '_navdate_NBP': 'C01', '_navdate_Thompson': 'C01', '_navdate_Revelle': 'C01',
    '_navdate_Ride': 'C01 C04', '_navdate_Langseth': 'C01', '_navcoords': 'C01 C02', '_clean_180cross': 'C03', 'read_bgm_rgs': 'C05 C04 C09', 'read_bgm_raw': 'C05 C04 C09',
    '_bgmserial_Atlantis': 'C05', '_bgmserial_Thompson': 'C05', '_bgmserial_Revelle': 'C05', '_bgmserial_Langseth': 'C05', 'read_dgs_laptop': 'C06 C04 C09',
    '_dgs_laptop_general': 'C06', '_dgs_laptop_Sikuliaq': 'C06', '_dgs_laptop_Thompson': 'C06', '_dgs_laptop_Langseth': 'C06', 'read_dgs_raw': 'C07 C04 C09',
    '_dgs_raw_general': 'C07', '_dgs_raw_Thompson': 'C07', '_dgs_raw_Sikuliaq': 'C07', 'read_other_stuff': 'C08',
    'decode_dgs_status_bits': 'C10', 'gaussian_filter': 'C11', '_gaussian_coeffs': 'C11', 'clean_ini_to_toml': 'C12', '_SnappingCursor': 'C13',
    'latlon_to_EN': 'C14', 'ENvel_to_course_heading': 'C15', 'rotate_acceleration_EN_to_cl': 'C15', '_convert_datetime_tidetime': 'C16', 'longman_tide_prediction': 'C16',
    'eotvos_full': 'C17', 'center_diff': 'C17', 'free_air_second_order': 'C18', 'wgs_grav': 'C18', 'calc_cross_coupling_coefficients': 'C19', 'up_vecs': 'C20', '_tilt_filter': 'C20',
    '_calc_up_vecs': 'C20', 'grav1d_padded': 'C21', 'grav2d_folding': 'C22', 'grav2d_layer_variable_density': 'C23', '_kvalue': 'C23', 'therm_halfspace': 'C24',
    'therm_Z_halfspace': 'C24', 'therm_plate': 'C25', 'therm_Z_plate': 'C25', 'crustal_thickness_2D': 'C26'}


def mutants(src, fn):
    """(offset, end, new text, what) for one function or class"""
    lines = src.split('\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l.encode()) + 1)
    b = src.encode()

    def span(n):
        return starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset

    def text(n):
        a, e = span(n)
        return b[a:e].decode()
    out = []

    def rep(n, new, what):
        a, e = span(n)
        if b[a:e].decode() != new:
            out.append((a, e, new, n.lineno, what + ': ' + ' '.join(b[a:e].decode().split())[:50] + ' -> ' + new[:50]))
    cmpo = {ast.Lt: ['<=', '>'], ast.LtE: ['<'], ast.Gt: ['>=', '<'], ast.GtE: ['>'], ast.Eq: ['!='], ast.NotEq: ['=='], ast.Is: ['is not'], ast.IsNot: ['is'], ast.In: ['not in'],
            ast.NotIn: ['in']}
    bino = {ast.Add: ['-'], ast.Sub: ['+'], ast.Mult: ['/'], ast.Div: ['*'], ast.Pow: ['*'], ast.Mod: ['//']}
    names = {'sin': 'cos', 'cos': 'sin', 'tan': 'sin', 'arctan': 'sin', 'arctan2': 'hypot', 'max': 'min', 'min': 'max', 'argmin': 'argmax', 'fft2': 'ifft2', 'ifft2': 'fft2', 'sqrt': 'abs',
             'hstack': 'vstack', 'flipud': 'fliplr', 'fliplr': 'flipud', 'zeros': 'ones', 'ones': 'zeros', 'floor': 'ceil', 'startswith': 'endswith', 'lstrip': 'strip', 'rstrip': 'strip',
             'strip': 'lstrip', 'radians': 'degrees', 'deg2rad': 'rad2deg', 'rad2deg': 'deg2rad', 'append': 'extend', 'real': 'imag', 'abs': 'negative', 'search': 'match', 'match': 'search'}
    doc = set()
    for n in ast.walk(fn):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            doc.add(n.body[0].value)
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            for o in cmpo.get(type(n.ops[0]), []):
                rep(n, '(%s %s %s)' % (text(n.left), o, text(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BinOp):
            for o in bino.get(type(n.op), []):
                rep(n, '((%s) %s (%s))' % (text(n.left), o, text(n.right)), 'op')
        elif isinstance(n, ast.BoolOp):
            o = ' or ' if isinstance(n.op, ast.And) else ' and '
            rep(n, '(' + o.join('(%s)' % text(v) for v in n.values) + ')', 'bool')
        elif isinstance(n, ast.UnaryOp):
            if isinstance(n.op, ast.USub) or isinstance(n.op, ast.Not):
                rep(n, '(%s)' % text(n.operand), 'unary')
        elif isinstance(n, ast.Constant) and n not in doc:
            v = n.value
            if isinstance(v, bool):
                rep(n, str(not v), 'const')
            elif isinstance(v, int):
                rep(n, str(v + 1), 'const')
                rep(n, '(%d)' % (v - 1), 'const')
            elif isinstance(v, float):
                rep(n, repr(v * (1 + 1e-5)) if v else '1e-6', 'const')
            elif isinstance(v, str) and v and not re.search('not supported|not yet|must|skip|SKIP|reading|INFO|unknown|bad |lengths|shorter|at least|weird|not known|raw data|larger', v):
                rep(n, repr(v[:-1]), 'str')
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            rep(n.test, 'True', 'cond')
            if not isinstance(n, ast.While):
                rep(n.test, 'False', 'cond')
        elif isinstance(n, (ast.Assign, ast.AugAssign, ast.Assert)) or (isinstance(n, ast.Expr) and not isinstance(n.value, ast.Constant)):
            if not text(n).startswith('print'):
                rep(n, 'pass', 'drop')
        elif isinstance(n, (ast.Break, ast.Continue)):
            rep(n, 'pass', 'drop')
        elif isinstance(n, ast.Attribute) and n.attr in names:
            rep(n, text(n.value) + '.' + names[n.attr], 'call')
        elif isinstance(n, ast.Slice):
            if n.lower is not None and n.upper is not None:
                rep(n, '%s:' % text(n.lower), 'slice')
            elif n.lower is not None or n.upper is not None:
                rep(n, ':', 'slice')
        elif isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Tuple) and len(n.slice.elts) == 2:
            rep(n.slice, '%s, %s' % (text(n.slice.elts[1]), text(n.slice.elts[0])), 'swap')
        elif isinstance(n, ast.keyword) and n.arg not in ('desc', 'disable'):
            if isinstance(n.value, ast.Constant) is False:
                pass
        elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
            a, e = span(n.args[0])[0], span(n.args[1])[1]
            out.append((a, e, '%s, %s' % (text(n.args[1]), text(n.args[0])), n.lineno, 'args: ' + text(n)[:60]))
    return out


def main():
    outdir = sys.argv[1]
    only = sys.argv[2:]
    os.makedirs(outdir, exist_ok=True)
    import vlib
    import numpy, pandas, scipy.signal, scipy.special, statsmodels.api, yaml, tomli, tqdm  # noqa: the workers are forked
    vlib.START, vlib.NPROC = 'fork', 4
    cap = int(os.environ.get('CAP', '40'))
    os.environ.setdefault('OMP_NUM_THREADS', '1')
    base = {}

    def scen(pid, chk):
        p = os.path.join(outdir, 'scen-%s.json' % pid)
        if not os.path.exists(p):
            s = []
            for module, cfg, kw in chk.mc('quick'):
                s += [x['SCEN'] for x in vlib.printed(vlib.tlc_mc(module, cfg, **kw)['out'], 'SCEN')]
            s.sort(key=lambda x: json.dumps(x, sort_keys=True))
            json.dump(s, open(p, 'w'))
        return json.load(open(p))

    def baseline(pid):
        if pid not in base:
            chk = importlib.import_module(pid.lower()).CHECK
            rng = random.Random(1 * 1000003 + sum(map(ord, pid)))
            cases = chk.cases(rng, 'quick', scen(pid, chk))
            vlib.REPO = SRC
            os.environ['SHIPGRAV_REPO'] = SRC
            scr = tempfile.mkdtemp(prefix='mutb-')
            rec = vlib.observe_all(pid.lower(), cases, scr, chk.case_timeout)
            shutil.rmtree(scr)
            base[pid] = (chk, cases, rec)
        return base[pid]
    res = open(os.path.join(outdir, 'results.txt'), 'a')
    for fname in ('io', 'grav', 'nav', 'utils'):
        src = open(SRC + '/shipgrav/%s.py' % fname).read()
        tree = ast.parse(src)
        for fn in tree.body:
            if not isinstance(fn, (ast.FunctionDef, ast.ClassDef)) or fn.name not in MAP or (only and fn.name not in only and fname not in only):
                continue
            ms = mutants(src, fn)
            keep = set(range(len(ms))) if len(ms) <= 1.5 * cap else set(random.Random(len(ms)).sample(range(len(ms)), cap))
            for i, (a, e, new, line, what) in enumerate(ms):
                if i not in keep:
                    continue
                b = src.encode()
                mod = b[:a] + new.encode() + b[e:]
                try:
                    ast.parse(mod)
                except SyntaxError:
                    continue
                d = tempfile.mkdtemp(prefix='mut-')
                shutil.copytree(SRC + '/shipgrav', d + '/shipgrav', ignore=shutil.ignore_patterns('__pycache__', 'tests'))
                open(d + '/shipgrav/%s.py' % fname, 'wb').write(mod)
                verdict = []
                for pid in MAP[fn.name].split():
                    chk, cases, rec = baseline(pid)
                    os.environ['SHIPGRAV_REPO'] = d
                    vlib.REPO = d
                    scr = tempfile.mkdtemp(prefix='mutc-')
                    try:
                        r2 = vlib.observe_all(pid.lower(), cases, scr, 3)
                        diff = [k for k in range(len(cases)) if json.dumps(rec[k]) != json.dumps(r2[k])]
                        if not diff:
                            verdict.append('same')
                            continue
                        pick = diff if len(diff) <= 40 else random.Random(1).sample(diff, 40)
                        st = dict(states=0, transitions=0, tlc_s=0.0, errors=[])
                        v = vlib.judge(chk, [cases[k] for k in pick], [r2[k] for k in pick], scr, st)
                        bad = [x for x in v if [c for c in x if not c.startswith('known:')]]
                        if not bad and len(pick) < len(diff):
                            pick = diff
                            v = vlib.judge(chk, [cases[k] for k in pick], [r2[k] for k in pick], scr, st)
                            bad = [x for x in v if [c for c in x if not c.startswith('known:')]]
                        verdict.append(('caught %s %d/%d/%d %s' % (pid, len(bad), len(pick), len(diff), sorted({c for x in bad for c in x})[:4])) if bad
                                       else 'accepted %s %d' % (pid, len(diff)))
                        if bad:
                            break
                    except vlib.MachineryError as ex:
                        verdict.append('machinery %s %s' % (pid, str(ex)[-200:].replace('\n', ' ')))
                    finally:
                        shutil.rmtree(scr, ignore_errors=True)
                shutil.rmtree(d)
                ln = '%s#%d line %d [%s] => %s' % (fn.name, i, line, what.replace('\n', ' '), ' | '.join(verdict))
                print(ln, flush=True)
                res.write(ln + '\n')
                res.flush()


if __name__ == '__main__':
    main()
