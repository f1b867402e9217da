#!/usr/bin/env python3
"""Driver: contract-based deductive verification of hec-dss with CBMC code contracts (DFCC).

usage: vf.py check <PROPERTY> [--unit U] [--keep]
Every run recompiles the functions under contract from /repo's working tree.
See DESIGN.md ("How a check decides") for the outcome rules."""
import sys, os, re, json, subprocess, tempfile, shutil, time, glob, hashlib, signal, importlib.util
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('HEC_REPO', '/repo')
SRC = REPO + '/heclib/heclib_c/src'
HDR = SRC + '/headers'
API = REPO + '/heclib/hecdss'
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
JOBS = 8
DEADLINE = time.time() + float(os.environ.get('VF_BUDGET', '800' if TIER == 'quick' else '7200'))

sys.path.insert(0, V + '/tools')


class Unit:
    """One function (or lemma) under contract.
    name      obligation group name
    file      /verif/contracts/<file>: contract text + harness
    enforce   function whose contract is enforced (None: lemma / plain harness over real code)
    replace   callees checked against their contract instead of their body
    src       further repo sources (relative to heclib_c/src) compiled in
    kind      'proof' (all inputs, complete) | 'bounded' (stated bound) | 'finding' (a listed defect)
    loops     True: apply the loop contracts written in the source / loop contract file
    """
    def __init__(self, name, file, enforce=None, replace=(), src=(), defs=(), unwind=None, unwindset=(),
                 kind='proof', loops=False, solver='cadical', timeout=None, flags=(), bound=None, t2=None,
                 t2defs=(), t2unwind=None, harness='hv_harness', dfcc=None, tier='quick', note='', native=True, nobody=(),
                 pre_unwind=(), finding=None, havoc=(), annot=None, ghost=None, checks=True, objbits=None, split=0):
        self.__dict__.update(locals())
        if dfcc is None:
            self.dfcc = bool(enforce) or bool(replace) or loops


_procs = set()


def run(cmd, timeout=None, cwd=None, mem_gb=None, env=None):
    left = DEADLINE - time.time()
    if timeout is None or timeout > left:
        timeout = max(left, 1)
    def pre():
        os.setsid()
        if mem_gb:
            import resource
            resource.setrlimit(resource.RLIMIT_AS, (int(mem_gb * 2**30),) * 2)
    if cmd[0] == 'cbmc' and '--cvc5' in cmd and env is None:
        env = dict(os.environ, PATH=V + '/tools/bin:' + os.environ['PATH'])
    p = subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=cwd, preexec_fn=pre, env=env)
    _procs.add(p)
    try:
        o, e = p.communicate(timeout=timeout)
        return p.returncode, o.decode('utf8', 'replace'), e.decode('utf8', 'replace')
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.communicate()
        return 'timeout', '', ''
    finally:
        _procs.discard(p)


# ---------------------------------------------------------------- source index (function name -> file)
_index = None
FNRE = re.compile(r'^(?!\s)(?:[A-Za-z_][\w\s\*]*?[\s\*])?([A-Za-z_]\w*)\s*\(', re.M)


def source_index():
    global _index
    if _index is None:
        _index = {}
        for f in glob.glob(SRC + '/**/*.c', recursive=True) + glob.glob(API + '/*.c'):
            if '/Dss6/' in f:
                continue
            try:
                t = open(f, errors='replace').read()
            except OSError:
                continue
            t = re.sub(r'/\*.*?\*/', lambda m: '\n' * m.group(0).count('\n'), t, flags=re.S)
            t = re.sub(r'//[^\n]*', '', t)
            for m in FNRE.finditer(t):
                # a definition: the matching parenthesis is followed by '{'
                i, d = m.end(), 1
                while i < len(t) and d:
                    d += t[i] == '('
                    d -= t[i] == ')'
                    i += 1
                if re.match(r'\s*\{', t[i:i + 200]) and m.group(1) not in ('if', 'while', 'for', 'switch'):
                    _index.setdefault(m.group(1), f)
    return _index


INC = ['-I' + V + '/contracts/lib', '-I' + V + '/contracts', '-I' + HDR, '-I' + API, '-I' + SRC, '-I' + REPO + '/heclib']

# library functions cbmc models itself or that are trusted as opaque: never resolved from the repository
OPAQUE = set('''printf fprintf snprintf sprintf puts fputs fflush exit abort'''.split())


def blank(t):
    """source text with comments, strings and character constants blanked out (same length)"""
    def sp(m):
        return re.sub(r'[^\n]', ' ', m.group(0))
    return re.sub(r'/\*.*?\*/|//[^\n]*|"(?:\\.|[^"\\\n])*"|\'(?:\\.|[^\'\\\n])*\'', sp, t, flags=re.S)


def close(t, i, o='(', c=')'):
    """index just after the bracket matching the one at i"""
    d = 0
    while i < len(t):
        d += t[i] == o
        d -= t[i] == c
        i += 1
        if d == 0:
            return i
    raise ValueError('unbalanced')


PURE = set("""strlen toupper tolower abs fabs strcmp strncmp memcmp sizeof if while for switch return zmessageLevel zisaCollection
numberLongsInInts numberIntsInLongs numberIntsInBytes numberLongsInBytes isOdd defined""".split())
ID = r'[A-Za-z_]\w*'


_gotos = {}


def goto_program(f, work, defs):
    """the goto program of one source file: [(function, line, instruction)]"""
    if f not in _gotos:
        o = f'{work}/{os.path.basename(f)}.frame.gb'
        rc, x, e = run(['goto-cc', '-c', '-DHEC_CONTRACTS=1'] + ['-D' + d for d in defs] + INC + ['-I' + os.path.dirname(f), f, '-o', o], 200)
        if rc != 0:
            raise ValueError('goto-cc ' + f)
        rc, x, e = run(['goto-instrument', '--show-goto-functions', o], 200)
        ins, cur = [], None
        for l in x.splitlines():
            m = re.match(r'\s*// \d+ (?:file (.*) line (\d+) function (\S+))?', l)
            if m:
                cur = (m.group(3), int(m.group(2)), m.group(1)) if m.group(2) else None
            elif cur and l.strip() and os.path.basename(cur[2]) == os.path.basename(f):
                ins.append((cur[0], cur[1], re.sub(r'^\d+:\s*', '', l.strip())))
        _gotos[f] = ins
    return _gotos[f]


def frame(fn, ins, lo, hi, hdecl, calls, alias={}):
    """What the loop on source lines lo..hi of fn may modify, read off its goto program: scalars, and objects written through a
    base (a[i], *p, p->f count as the whole object the base denotes).  ValueError where that cannot be bounded."""
    scal, objs, decl = set(), set(), set()
    sel = [i for f, l, i in ins if f == fn and lo <= l <= hi]
    name = lambda q: q.split('::')[-1]
    for i in sel:
        m = re.match(r'DECL (\S+) :', i)
        if m:
            decl.add(m.group(1))
    keep = lambda q: q not in decl or name(q) in hdecl
    Q = r'(?:[A-Za-z_]\w*::(?:\$tmp::)?(?:\d+::)*)?[A-Za-z_$][\w$]*'
    def target(t, what):
        t = t.strip()
        if '$tmp::' in t.split('[')[0].split('+')[0] and re.fullmatch(Q, t):
            return
        m = re.fullmatch(r'(' + Q + r')((?:\.\w+)*)', t)
        if m:
            if keep(m.group(1)):
                scal.add(m.group(1))
            return
        m = re.match(r'^\(*(' + Q + r')\)*(?:\.\w+)*\[', t) or re.match(r'^\(*\*\(*(?:cast\()*(' + Q + r')', t) or re.match(r'^\(*(' + Q + r')->', t)
        if not m or '$tmp' in m.group(1):
            raise ValueError(f'{fn}: cannot bound what the loop writes: {t}')
        if keep(m.group(1)):
            objs.add(m.group(1))
    for i in sel:
        m = re.match(r'ASSIGN (.*?) := ', i)
        if m:
            target(m.group(1), i)
            continue
        m = re.match(r'CALL (?:(.*?) := )?(' + ID + r')\((.*)\)$', i)
        if m:
            if m.group(1):
                target(m.group(1), i)
            f = m.group(2)
            if f in calls:
                for x in calls[f]:
                    (objs if x.endswith('[]') else scal).add(x.rstrip('[]'))
            elif f not in PURE and not f.startswith('__CPROVER'):
                raise ValueError(f'{fn}: call of {f} in a loop under contract')
            for a in re.findall(r'address_of\((' + Q + r')\)|&(' + Q + r')', m.group(3)):
                q = a[0] or a[1]
                if keep(q) and f not in PURE:
                    scal.add(q)
        elif i.startswith('CALL'):
            raise ValueError(f'{fn}: {i}')
    S, O = {name(x) for x in scal}, {name(x) for x in objs}
    O = {alias.get(x, x) for x in O}              # alias: asserted in the loop body (annotate)
    if S & O:
        raise ValueError(f'{fn}: pointer moved in a loop under contract: ' + ','.join(S & O))
    return S, O


def annotate(u, work):
    """Copies of the source files in which loops under contract are cut at their head:
        annot = {'function': {n: dict(inv=[...], inst='...', calls={...})}}   (n-th for/while loop of the function, source order)
      for (I; C; N) B   becomes   I; assert inv; havoc(frame); assume inv; if (C) { B; N; assert inv; stop }
    with break, continue and return keeping their meaning.  frame is read off the loop's goto program (frame()).
    Nothing else of the file changes.  Returns {original: copy}."""
    res = {}
    for fn, loops in u.annot.items():
        f = source_index().get(fn)
        if f is None:
            raise ValueError('no definition of ' + fn)
        txt = open(res.get(f, f), errors='replace', newline='').read()
        b = blank(txt)
        for m in re.finditer(r'\b' + fn + r'\s*\(', b):
            e = close(b, m.end() - 1)
            m2 = re.match(r'\s*\{', b[e:])
            if m2:
                s0, s1 = e + m2.end() - 1, close(b, e + m2.end() - 1, '{', '}')
                break
        else:
            raise ValueError('no body of ' + fn)
        edits = []
        k, nused = -1, 0
        for x in re.finditer(r'\b(for|while)\b', b[s0:s1]):
            q = s0 + x.start()
            h = b.index('(', q)
            e = close(b, h)
            if x.group(1) == 'while' and re.match(r'\s*;', b[e:]):
                continue                      # do ... while: not supported
            k += 1
            if k not in loops:
                continue
            nused += 1
            L = loops[k] if isinstance(loops[k], dict) else dict(inv=loops[k])
            m3 = re.match(r'\s*\{', b[e:])
            if m3:
                bs, be = e + m3.end(), close(b, e + m3.end() - 1, '{', '}')
            elif re.match(r'\s*(for|while|if|do|switch)\b', b[e:]):
                raise ValueError(f'{fn}: loop {k} has no braces')
            else:
                bs, be = e, b.index(';', e) + 1
            if x.group(1) == 'for':
                hd, hb = txt[h + 1:e - 1], b[h + 1:e - 1]
                c1 = hb.index(';')
                c2 = hb.index(';', c1 + 1)
                I, C, N = hd[:c1], hd[c1 + 1:c2], hd[c2 + 1:]
                hdecl = re.findall(r'(' + ID + r')\s*=', hb[:c1]) if re.match(r'\s*(?:unsigned\s+|const\s+)*(?:int|long|size_t|char)\b', hb) else []
            else:
                I, C, N, hdecl = '', txt[h + 1:e - 1], '', []
            if L.get('nullcmp'):                      # pointer > 0, undefined to the letter only: read as != 0
                C = re.sub(r'>\s*(0|NULL)\s*$', '!= 0', C.strip())
            line = lambda z: b.count('\n', 0, z) + 1
            scal, objs = frame(fn, goto_program(f, work, u.defs), line(q), line(be), hdecl, L.get('calls', {}), dict(L.get('alias', {}), **L.get('alias_end', {})))
            inv = [L['inv']] if isinstance(L['inv'], str) else list(L['inv'])
            inv = [' '.join(i.split()) for i in inv]
            asr = lambda how: ', '.join(f'__CPROVER_assert({i}, "invariant {n} of loop {k} of {fn} {how}")' for n, i in enumerate(inv))
            hav = ' '.join(f'{{ __typeof__({v}) hv_nd; {v} = hv_nd; }}' for v in sorted(scal)) + ' ' + \
                  ' '.join(f'__CPROVER_havoc_object({v});' for v in sorted(objs))
            new = (f'{{ {I}; {L.get("pre", "")} {asr("holds on entry")}; {hav} ' + ' '.join(f'__CPROVER_assume({i});' for i in inv) +
                   f' int hv_once{k} = 0; for (; hv_once{k} ? ({asr("is kept")}, __CPROVER_assume(0), 0) : (({C.strip() or "1"}) ? 1 : 0); {N})')
            edits.append((q, e, new))
            al_ = lambda d: ' '.join(f'__CPROVER_assert(__CPROVER_same_object({x}, {y}), "{x} points into {y} in loop {k} of {fn}");' for x, y in d.items())
            al = al_(L.get('alias', {}))
            ae = al_(L.get('alias_end', {}))
            pre = f' hv_once{k} = 1; {al} {L.get("inst", "")} __CPROVER_assert(0, "HVCOVER body of loop {k} of {fn}"); '
            if m3:
                edits.append((bs, bs, pre))
                edits.append((be - 1, be - 1, ' ' + ae + ' '))
                edits.append((be, be, ' } ' + L.get('exit', '')))
            else:
                edits.append((bs, bs, '{' + pre))
                edits.append((be, be, ' ' + ae + ' } } ' + L.get('exit', '')))
        if nused != len(loops):
            raise ValueError(f'{fn}: {len(loops)} loop contracts but {k + 1} loops')
        for x, y, t in sorted(edits, key=lambda z: (z[0], z[1]), reverse=True):
            txt = txt[:x] + t.replace('\n', ' ').replace('\r', ' ') + txt[y:]
        out = res.get(f) or f'{work}/{u.name}.{os.path.basename(f)}'
        with open(out, 'w', newline='') as o:
            o.write(txt)
        res[f] = out
    return res


def compile_unit(u, work, extra_defs, tag):
    """goto-cc the unit and, transitively, the real source of every repository function it reaches
    that is not replaced by its contract or by a stub in the unit."""
    out = f'{work}/{u.name}.{tag}.gb'
    srcs = [V + '/contracts/' + u.file] + [x if x.startswith('/') else SRC + '/' + x for x in u.src]
    ann = {}
    if u.annot and tag == 't1':
        try:
            ann = annotate(u, work)
        except ValueError as x:
            return None, 'loop contracts: ' + str(x), srcs, []
    for it in range(25):
        cmd = ['goto-cc', '-DHEC_CONTRACTS=1'] + ['-D' + d for d in list(u.defs) + list(extra_defs)] + INC + \
              ['--function', u.harness] + [ann.get(x, x) for x in srcs] + ['-I' + os.path.dirname(x) for x in ann] + (['-include', V + '/contracts/' + u.ghost] if ann and u.ghost else []) + ['-o', out]
        rc, o, e = run(cmd, 200)
        if rc != 0:
            return None, 'goto-cc: ' + (o + e)[-3000:], srcs, []
        rc, o, e = run(['goto-instrument', '--list-undefined-functions', out], 100)
        und = set(l.strip() for l in o.splitlines() if re.match(r'^[A-Za-z_]\w*$', l.strip()))
        # only functions reachable from the harness matter
        rc, o2, e2 = run(['goto-instrument', '--reachable-call-graph', out], 100)
        reach = set()
        for l in o2.splitlines():
            m = re.match(r'^(\S+) -> (\S+)$', l.strip())
            if m:
                reach.add(m.group(2))
        idx = source_index()
        add = []
        for f in sorted(und & reach):
            if f in u.nobody or f in OPAQUE or f in u.replace or f.startswith('__') or f.startswith('nondet_'):
                continue
            if f in idx and idx[f] not in srcs and idx[f] not in add:
                add.append(idx[f])
        if not add:
            missing = sorted(f for f in und & reach if not f.startswith('__CPROVER') and not f.startswith('nondet_')
                             and not f.startswith('__builtin') and f not in u.replace)
            return out, '', srcs, missing
        srcs += add
    return None, 'dependency resolution did not converge', srcs, []


SOLV = {'cadical': ['--sat-solver', 'cadical'], 'minisat': [], 'kissat': ['--external-sat-solver', 'kissat'],
        'cvc5': ['--cvc5'], 'cvc5i': ['--cvc5'], 'z3': ['--z3']}


def parse_results(txt):
    try:
        js = json.loads(txt)
    except Exception:
        return None, None, 'unparsable cbmc output'
    res, status, msgs = [], None, []
    for x in js:
        if 'result' in x:
            res = x['result']
        if 'cProverStatus' in x:
            status = x['cProverStatus']
        if x.get('messageType') == 'ERROR':
            msgs.append(x.get('messageText', ''))
    return res, status, '; '.join(msgs)


def trace_inputs_dedup(entry):
    steps = [st for st in entry.get('trace', []) if st.get('stepType') == 'assignment' and str(st.get('lhs', '')).startswith('hvin_')]
    out = []
    for st in steps:
        if st.get('hidden'):
            continue
        d = (st.get('value') or {}).get('data')
        if d is None:
            continue
        m = re.match(r'^-?\d+', str(d))
        if m:
            out.append((st['lhs'][5:], int(m.group(0))))
    return out


CHECKFLAGS = ['--no-unwinding-assertions']


def cbmc_cmd(u, gb, unwind, unwindset, extra, assertions=True, solver=None):
    c = ['cbmc', gb, '--json-ui'] + SOLV[solver or u.solver]
    if unwind:
        c += ['--unwind', str(unwind)]
    if unwindset:
        c += ['--unwindset', ','.join(unwindset)]
    if not assertions:
        c += ['--no-unwinding-assertions']
    if not u.checks:
        c += ['--no-standard-checks']
    if True:
        c += ['--object-bits', str(u.objbits or 12)]
    return c + list(u.flags) + list(extra)


def run_split(u, gb, to):
    """the same obligations, decided in groups: each functional assertion alone, the others u.split at a time"""
    rc, o, e = run(['cbmc', gb, '--show-properties', '--json-ui'] + list(u.flags) + ([] if u.checks else ['--no-standard-checks']), 200)
    ps = []
    try:
        for m in json.loads(o):
            ps += m.get('properties', [])
    except Exception:
        return rc, None, 'no property list', e
    cov = [p['name'] for p in ps if 'HVCOVER' in p['description']]
    one = [[p['name']] for p in ps if u.split and '.assertion.' in p['name'] and p['name'] not in cov]
    rest = [p['name'] for p in ps if [p['name']] not in one and p['name'] not in cov]
    n = u.split or len(rest) or 1
    groups = one + [rest[i:i + n] for i in range(0, len(rest), n)] + [cov]
    res, bad = [], []
    def go(g):
        x = []
        for n in g:
            x += ['--property', n]
        rc, o, e = run(cbmc_cmd(u, gb, u.unwind, u.unwindset, x, solver='cadical' if g is cov and u.solver == 'cvc5i' else None), to, mem_gb=14)
        if rc == 'timeout':
            bad.append(('timeout', '', ''))
            return
        q, st, msg = parse_results(o)
        q = [y for y in q or [] if y['property'] in g or '.unwind.' in y['property']]   # unwinding assertions come with every group
        if not set(g) <= {y['property'] for y in q}:
            bad.append((rc, msg, e))
        res.extend(q)
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(3) as ex:
        list(ex.map(go, groups))
    if bad:
        return bad[0][0], None, bad[0][1], bad[0][2]
    return 0, list({y['property']: y for y in sorted(res, key=lambda y: y['status'] != 'SUCCESS')}.values()), '', ''


def tier1(u, work):
    r = dict(unit=u.name, tier1='unavailable', reason='', obligations=0, discharged=0, failed=[], solver_s=0.0, missing=[], srcs=[])
    t0 = time.time()
    gb, err, srcs, missing = compile_unit(u, work, [], 't1')
    r['srcs'] = [s.replace(REPO + '/', '') for s in srcs if s.startswith(REPO)]
    r['missing'] = missing
    if gb is None:
        r['reason'] = err
        return r
    if u.pre_unwind:
        g2 = gb + '.u'
        rc, o, e = run(['goto-instrument', '--unwindset', ','.join(u.pre_unwind), '--unwinding-assertions', gb, g2], 200)
        if rc != 0:
            r['reason'] = 'goto-instrument unwind: ' + (o + e)[-1500:]
            return r
        gb = g2
    if u.dfcc:
        g2 = gb + '.d'
        cmd = ['goto-instrument', '--dfcc', u.harness]
        if u.enforce:
            cmd += ['--enforce-contract', u.enforce]
        for f in u.replace:
            cmd += ['--replace-call-with-contract', f]
        if u.loops:
            cmd += ['--apply-loop-contracts']
        rc, o, e = run(cmd + [gb, g2], 300)
        if rc != 0:
            r['reason'] = 'goto-instrument --dfcc: ' + (o + e)[-280:]
            return r
        gb = g2
    elif not u.loops:
        g2 = gb + '.s'
        rc, o, e = run(['goto-instrument', '--drop-unused-functions', gb, g2], 200)
        if rc == 0:
            gb = g2
    r['gb'] = gb
    to = u.timeout or 300
    cmd = cbmc_cmd(u, gb, u.unwind, u.unwindset, [])
    r['cmd'] = ' '.join(cmd).replace(work, '$W')
    t1 = time.time()
    if u.split or u.solver == 'cvc5i':      # (integer reasoning finds proofs, not models: reachability goes to the SAT solver)
        rc, res, msg, e = run_split(u, gb, to)
    else:
        rc, o, e = run(cmd, to, mem_gb=14)
        if rc != 'timeout':
            res, status, msg = parse_results(o)
    r['solver_s'] = round(time.time() - t1, 2)
    if rc == 'timeout':
        r['reason'] = f'solver timeout after {int(time.time()-t1)} s'
        return r
    if res is None or not res:
        r['reason'] = f'cbmc rc={rc} {msg} {e[-500:]}'
        return r
    covers = [x for x in res if 'HVCOVER' in x.get('description', '')]
    obl = [x for x in res if 'HVCOVER' not in x.get('description', '')]
    errs = [x for x in obl if x['status'] not in ('SUCCESS', 'FAILURE')]
    if errs and not any(x['status'] == 'FAILURE' for x in obl):     # (cbmc leaves obligations behind a failed one undecided)
        r['reason'] = f'{len(errs)} obligations undecided by the solver (status {errs[0]["status"]})'
        return r
    r['obligations'] = len(obl)
    r['discharged'] = sum(x['status'] == 'SUCCESS' for x in obl)
    fails = [x for x in obl if x['status'] == 'FAILURE']
    unw = [x for x in fails if 'unwind' in x.get('property', '') or 'unwinding assertion' in x.get('description', '')]
    hard = [x for x in fails if x not in unw]
    if unw and not hard:
        r['reason'] = 'loop not fully unwound: ' + unw[0]['property']
        return r
    bad = [x for x in covers if x['status'] != 'FAILURE']
    if not hard and (bad or not covers):
        r['reason'] = 'vacuous: reachability check(s) not satisfiable: ' + ','.join(x['description'] for x in bad)
        r['vacuous'] = True
        return r
    r['covers'] = len(covers)
    if not hard:
        r['tier1'] = 'proved'
        return r
    nob = [x for x in hard if '.no-body.' in x['property']]
    if nob:
        r['reason'] = 'calls a function with no body and no model: ' + ','.join(x['property'].split('.')[-1] for x in nob)
        return r
    r['tier1'] = 'failed'
    r['unwound'] = not unw
    r['failed'] = [dict(property=x['property'], description=x['description'],
                        line=x.get('sourceLocation', {}).get('line'), file=x.get('sourceLocation', {}).get('file'),
                        function=x.get('sourceLocation', {}).get('function')) for x in hard]
    # counterexamples for the failed obligations
    r['traces'] = []
    pick = sorted(hard, key=lambda x: (0 if ('.assertion' in x['property'] or 'postcondition' in x['property']) else 1))[:4]
    for x in pick:
        rc, o, e = run(cbmc_cmd(u, gb, u.unwind, u.unwindset, ['--trace', '--property', x['property']]), min(to, 250), mem_gb=14)
        if rc in ('timeout',):
            continue
        res2, st2, _ = parse_results(o)
        for y in res2 or []:
            if y['status'] == 'FAILURE' and 'HVCOVER' not in y['description']:
                r['traces'].append((x['property'], trace_inputs_dedup(y)))
    return r


def tier2(u, work):
    """bounded stand-in with the real bodies; only consulted when tier 1 gave no proof"""
    r = dict(unit=u.name, tier2='unavailable', reason='', traces=[], failed=[], obligations=0)
    gb, err, srcs, missing = compile_unit(u, work, ['HV_T2=1'] + list(u.t2defs), 't2')
    if gb is None:
        r['reason'] = err
        return r
    unw = u.t2unwind or u.unwind or 12
    cmd = cbmc_cmd(u, gb, unw, u.unwindset if u.t2unwind is None else (), ['--trace'], assertions=False)
    rc, o, e = run(cmd, min(u.timeout or 200, 250), mem_gb=14)
    if rc == 'timeout':
        r['reason'] = 'timeout'
        return r
    res, status, msg = parse_results(o)
    if not res:
        r['reason'] = f'cbmc rc={rc} {msg}'
        return r
    obl = [x for x in res if 'HVCOVER' not in x.get('description', '')]
    hard = [x for x in obl if x['status'] == 'FAILURE']
    r['obligations'] = len(obl)
    if any('.no-body.' in x['property'] for x in hard):
        r['reason'] = 'calls a function with no body and no model'
        return r
    r['tier2'] = 'failed' if hard else 'passed'
    for x in hard:
        r['failed'].append(dict(property=x['property'], description=x['description']))
        r['traces'].append((x['property'], trace_inputs_dedup(x)))
    return r


# ---------------------------------------------------------------- native replay
_lib = {}
SANX = []      # per property: sanitizer checks that do not apply (PROPS[...]['native_flags'])
SAN = ['-fsanitize=address,undefined', '-fno-sanitize=alignment,shift', '-fno-sanitize-recover=undefined']


import threading
_nlock = threading.Lock()


def native_lib(work):
    with _nlock:
        return _native_lib(work)


def _native_lib(work):
    if 'lib' in _lib:
        return _lib['lib']
    d = work + '/nlib'
    os.makedirs(d, exist_ok=True)
    files = [f for f in glob.glob(SRC + '/**/*.c', recursive=True) if '/Dss6/' not in f] + glob.glob(API + '/hecdss.c')
    def cc(f):
        o = d + '/' + re.sub(r'\W', '_', f.replace(SRC, '')) + '.o'
        rc, out, err = run(['gcc', '-w', '-g', '-O1', '-c'] + SAN + SANX + ['-I' + HDR, '-I' + API, f, '-o', o], 120)
        return o if rc == 0 else None
    with ThreadPoolExecutor(JOBS) as ex:
        objs = [o for o in ex.map(cc, files) if o]
    lib = d + '/libn.a'
    run(['ar', 'rcs', lib] + objs, 120)
    _lib['lib'] = lib
    return lib


def native_build(u, work):
    exe = f'{work}/{u.name}.native'
    if os.path.exists(exe):
        return exe
    lib = native_lib(work)
    cmd = ['gcc', '-w', '-g', '-O1', '-DHV_NATIVE', '-DHV_T2=1', f'-DHV_MAIN={u.harness}'] + ['-D' + d for d in list(u.defs) + list(u.t2defs)] + SAN + SANX + INC + \
          [V + '/contracts/' + u.file, V + '/contracts/lib/native_rt.c',] + \
          [lib, '-Wl,--allow-multiple-definition', '-lz', '-lm', '-lpthread', '-o', exe]
    rc, o, e = run(cmd, 200)
    if rc != 0:
        return None
    return exe


def native_replay(u, work, inputs, path):
    """returns (confirmed, text)"""
    exe = native_build(u, work)
    with open(path, 'w') as f:
        for n, v in inputs:
            f.write(f'{n} {v}\n')
    if not exe:
        return False, 'native build failed'
    scratch = tempfile.mkdtemp(dir=work)
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77', UBSAN_OPTIONS='print_stacktrace=1:halt_on_error=1')
    rc, o, e = run([exe, path], 20, cwd=scratch, env=env)
    txt = f'rc={rc}\n{o[-2000:]}\n{e[-4000:]}'
    return (rc not in (0, 3, 9, 'timeout')), txt


def native_search(u, work, path, secs=20):
    """witness search on the real code, after an obligation failed or no proof was obtained"""
    exe = native_build(u, work)
    if not exe:
        return None
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=77:quarantine_size_mb=4', UBSAN_OPTIONS='halt_on_error=1')
    best = None
    for k in range(3):
        scratch = tempfile.mkdtemp(dir=work)
        rc, o, e = run([exe, '--search', str(SEED * 17 + k), str(max(2, secs // 3)), path], secs + 20, cwd=scratch, env=env)
        shutil.rmtree(scratch, ignore_errors=True)
        if rc in (2, 77, 78, 1) and os.path.exists(path):
            inp = [(l.split()[0], int(l.split()[1])) for l in open(path) if len(l.split()) == 2]
            ok, txt = native_replay(u, work, inp, path)
            if ok:
                return dict(obligation='native run of the contract on ' + (u.enforce or 'the real code'), inputs=inp, path=path, output=txt)
        best = (rc, (o + e)[-400:])
    return dict(none=str(best))


# ---------------------------------------------------------------- check
def load(prop):
    spec = importlib.util.spec_from_file_location('units', V + '/checks/units.py')
    m = importlib.util.module_from_spec(spec)
    m.Unit = Unit
    m.TIER = TIER
    spec.loader.exec_module(m)
    return m.PROPS[prop]


def do_unit(u, work):
    if u.kind == 'finding':
        exe = native_build(u, work)
        if not exe:
            return dict(unit=u.name, finding='unknown')
        p = work + f'/{u.name}.in'
        ok, txt = native_replay(u, work, [], p)
        return dict(unit=u.name, finding='present' if ok else 'absent', text=txt)
    r = tier1(u, work)
    r['kind'] = u.kind
    if r['tier1'] == 'proved':
        return r
    # try to confirm natively
    rp = f'{V}/evidence/replay/{u.prop}'
    os.makedirs(rp, exist_ok=True)
    def confirm(traces):
        for i, (p, inp) in enumerate(traces):
            if not u.native:
                continue
            path = f'{rp}/{u.name}.{i}.input'
            ok, txt = native_replay(u, work, inp, path)
            if ok:
                return dict(obligation=p, inputs=inp, path=path, output=txt)
        return None
    if r['tier1'] == 'failed':
        c = confirm(r.get('traces', []))
        if c:
            r['confirmed'] = c
            return r
    if u.native:
        c = native_search(u, work, f'{rp}/{u.name}.search.input')
        if c and 'none' not in c:
            r['confirmed'] = c
            return r
        elif c:
            r['search'] = c['none']
    if u.t2 is not False:
        r2 = tier2(u, work)
        r['tier2'] = {k: v for k, v in r2.items() if k != 'traces'}
        if r2['tier2'] == 'failed':
            c = confirm(r2['traces'])
            if c:
                r['confirmed'] = c
                return r
    return r


def check(prop, only=None, keep=False):
    t0 = time.time()
    P = load(prop)
    SANX[:] = P.get('native_flags', [])
    units = [u for u in P['units'] if (not only or u.name == only)]
    units = [u for u in units if TIER == 'thorough' or u.tier == 'quick']
    for u in units:
        u.prop = prop
    work = tempfile.mkdtemp(prefix=f'vf_{prop}_')
    rp = f'{V}/evidence/replay/{prop}'
    shutil.rmtree(rp, ignore_errors=True)
    os.makedirs(V + '/evidence', exist_ok=True)
    source_index()
    try:
        with ThreadPoolExecutor(P.get('jobs', JOBS)) as ex:
            results = list(ex.map(lambda u: do_unit(u, work), units))
    finally:
        if not keep:
            shutil.rmtree(work, ignore_errors=True)
        else:
            print('work dir', work)
    viol, lines, undecided = [], [], []
    for u, r in zip(units, results):
        if 'finding' in r:
            if r['finding'] == 'present':
                print(f'KNOWN-FINDING: property={prop} {u.finding}')
            print(f'  [{u.name}] listed finding: {r["finding"]}')
            continue
        t2 = (r.get('tier2') or {}).get('tier2')
        print(f'  [{u.name}] {u.kind} tier1={r["tier1"]} obligations={r["obligations"]} discharged={r["discharged"]} solver={r["solver_s"]}s'
              + (f' tier2={t2}' if t2 else '') + (f' reason={r["reason"][:300]}' if r['reason'] else ''))
        for f in r['failed'][:8]:
            print(f'      failed: {f["property"]}: {f["description"]} ({f["file"]}:{f["line"]})')
        os.makedirs(rp, exist_ok=True)
        if r.get('confirmed'):
            c = r['confirmed']
            path = f'{rp}/{u.name}.violation.txt'
            with open(path, 'w') as f:
                f.write(f'property {prop}\nfunction/unit {u.name} ({u.enforce or "lemma"}), contract file contracts/{u.file}\nfailed obligation {c["obligation"]}\n'
                        f'failing input (verifier counterexample), replayed on the real compiled code:\n'
                        + ''.join(f'  {n} = {v}\n' for n, v in c['inputs']) + '\nnative output:\n' + c['output'] + '\n'
                        + json.dumps(r['failed'], indent=1))
            viol.append((path, ''))
        elif r['tier1'] == 'failed':
            path = f'{rp}/{u.name}.violation.txt'
            with open(path, 'w') as f:
                f.write(f'property {prop}\nunit {u.name} ({u.enforce or "lemma"}), contract file contracts/{u.file}\nthe verifier no longer discharges:\n'
                        + json.dumps(r['failed'], indent=1) + '\ncommand: ' + r.get('cmd', '') + '\ntier 2: ' + json.dumps(r.get('tier2'), indent=1)
                        + '\nverifier counterexample inputs (not confirmed natively): ' + json.dumps(r.get('traces', [])[:2]) + '\n')
            viol.append((path, ' no-failing-input-found'))
        elif r['tier1'] == 'unavailable':
            if t2 != 'passed':
                undecided.append(u.name)
    proved = [r for u, r in zip(units, results) if r.get('tier1') == 'proved' and u.kind == 'proof']
    bounded = [r for u, r in zip(units, results) if r.get('tier1') == 'proved' and u.kind == 'bounded']
    fallback = [r for u, r in zip(units, results) if r.get('tier1') == 'unavailable']
    level = P.get('level', 'proof')
    trusted = sorted(set(P.get('trusted', [])) | {f'opaque body (havoc): {m}' for r in results for m in r.get('missing', [])})
    cov = dict(obligations=sum(r['obligations'] for r in proved), discharged=sum(r['discharged'] for r in proved),
               checker_cmd='cbmc 6.11 (DFCC contracts, SAT/SMT) per unit; e.g. ' + next((r['cmd'] for r in results if r.get('cmd')), '(none)'),
               trusted_base=trusted,
               functions_under_contract=[dict(unit=u.name, function=u.enforce, kind=u.kind, bound=u.bound, tier1=r.get('tier1'),
                                              obligations=r.get('obligations'), discharged=r.get('discharged'), back_end=u.solver,
                                              solver_s=r.get('solver_s'), replaced_by_contract=list(u.replace), reach_checks=r.get('covers'),
                                              sources=r.get('srcs'), fallback=(r.get('tier2') or None), note=u.note)
                                         for u, r in zip(units, results) if u.kind != 'finding'],
               bounded_obligations_not_counted_as_proved=sum(r['obligations'] for r in bounded),
               units_proved=len(proved), units_bounded=len(bounded), units_without_proof_this_run=len(fallback),
               solver_seconds=round(sum(r.get('solver_s', 0) for r in results), 1))
    if level == 'model_checking':
        cov.update(states=sum(r['obligations'] for r in bounded), transitions=0, traces_validated_against_impl=0, samples=[])
    if level == 'other':
        cov['explanation'] = P.get('explanation', '')
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov, assumptions=P.get('assumptions', []),
              wall_s=round(time.time() - t0, 1), violations=len(viol))
    with open(f'{V}/evidence/{prop}.json', 'w') as f:
        json.dump(ev, f, indent=1)
    for path, sfx in viol[:1] if all(s for _, s in viol) else [x for x in viol if not x[1]][:1]:
        print(f'VIOLATION property={prop} replay={path}{sfx}')
    print(f'{prop}: proved {len(proved)} bounded {len(bounded)} fallback {len(fallback)} violations {len(viol)} undecided {len(undecided)} wall {ev["wall_s"]}s')
    if viol:
        return 1
    if undecided and (len(undecided) == len([u for u in units if u.kind != 'finding']) or os.environ.get('VF_STRICT')):
        print('no answer: ', undecided)
        return 2
    return 0


if __name__ == '__main__':
    a = sys.argv[1:]
    if a[:1] == ['setup']:
        for t in ('goto-cc', 'goto-instrument', 'cbmc', 'gcc'):
            if not shutil.which(t):
                sys.exit('missing tool ' + t)
        os.makedirs(V + '/evidence', exist_ok=True)
        print('ok')
        sys.exit(0)
    only = a[a.index('--unit') + 1] if '--unit' in a else None
    rc = check(a[1], only, '--keep' in a)
    sys.stdout.flush()
    os._exit(rc)
