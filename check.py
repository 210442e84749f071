#!/usr/bin/env python3
"""check.py <ID> [--thorough|--quick] [--case NAME] : build the check for one
property from /repo's current tree, run it, confirm and report violations."""
import sys, os, subprocess, hashlib, json, glob, fnmatch, shutil, time, re, tempfile
from concurrent.futures import ThreadPoolExecutor

V = os.path.dirname(os.path.abspath(__file__))
REPO = '/repo'
H = os.path.join(V, 'harness')
B = os.path.join(V, 'build')
SRC = os.path.join(REPO, 'src')
INC = ['mesh', 'mesh/mesh_simple', 'mesh/mesh_factory', 'geometry', 'error_handling', 'statemanager']
T0 = time.time()

def sources():
    out = []
    for d in INC:
        out += sorted(glob.glob(os.path.join(SRC, d, '*.cc')))
    return [s for s in out if os.path.basename(s) not in ('main.cc',)]

def headers():
    out = []
    for d in INC:
        for e in ('*.hh', '*.h', '*.H'):
            out += sorted(glob.glob(os.path.join(SRC, d, e)))
    return out

def hheaders():
    return sorted(glob.glob(os.path.join(H, '*.hh')) + glob.glob(os.path.join(H, '*', '*.hh')))

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b'\0')
    return h.hexdigest()[:24]

def read(p):
    with open(p, 'rb') as f: return f.read()

def flags(san):
    f = ['-std=c++11', '-O1', '-D_GLIBCXX_ASSERTIONS', '-DNDEBUG', '-DJali_HAVE_METIS', '-DJali_HAVE_ZOLTAN',
         '-DOMPI_SKIP_MPICXX', '-w', '-fno-omit-frame-pointer', '-pthread',
         '-ftrivial-auto-var-init=pattern']  # what was never written is recognisably wrong, on the stack ...
    if san: f += ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-fno-sanitize=vptr', '-g1']
    f += ['-I' + os.path.join(SRC, d) for d in INC]
    f += ['-isystem', '/usr/lib/x86_64-linux-gnu/openmpi/include', '-isystem', '/usr/include/trilinos', '-I' + H]
    return f

# Checks of the mesh factory are built twice: as the project is built here and
# with a stand-in for the external framework in place of Mesh_MSTK.
VARIANTS = {'C27': ['', 'mstk'], 'C28': ['', 'mstk']}

# C35 runs the programs of other checks too, all with every access watched;
# of what they find only the end of the process counts.
PROGRAMS = {'C35': ['C35', 'C34', 'C29', 'C18', 'C17', 'C20', 'C16', 'C14', 'C15', 'C21', 'C19']}   # the first three in the quick tier
PREFIX = {}

def build(pid, san, thorough):
    if pid in PROGRAMS:
        use = PROGRAMS[pid][:None if thorough else 3]
        out = [build1(pid, True, '')]; PREFIX[out[0]] = ''
        with ThreadPoolExecutor(8) as ex:
            for p, e in zip(use[1:], ex.map(lambda p: build1(p, True, ''), use[1:])): PREFIX[e] = p + ': '; out.append(e)
        return out
    return [build1(pid, san, v) for v in VARIANTS.get(pid, [''])]

def build1(pid, san, variant):
    """compile what is missing, link; return path of the program"""
    os.makedirs(os.path.join(B, 'obj'), exist_ok=True)
    fl = flags(san)
    hh = sha(*([p.encode() + read(p) for p in headers()]), ' '.join(fl))
    hv = sha(hh, *([p.encode() + read(p) for p in hheaders()]))
    srcs = sources() + [os.path.join(H, 'vk.cc'), os.path.join(H, 'fakempi.cc')] \
        + sorted(glob.glob(os.path.join(H, pid + '*.cc')))
    objs, todo = [], []
    for s in srcs:
        x = []
        if variant == 'mstk' and (os.sep + 'mesh_factory' + os.sep in s or os.path.basename(s).startswith(pid)):
            x = ['-DHAVE_MSTK_MESH', '-DVARIANT_MSTK', '-I' + os.path.join(H, 'fakemstk')]
        o = os.path.join(B, 'obj', os.path.basename(s)[:-3] + '-' + sha(s, read(s), hv if s.startswith(H) or x else hh, *x) + '.o')
        objs.append(o)
        if not os.path.exists(o): todo.append((s, o, x))
    # big ones first
    todo.sort(key=lambda t: -os.path.getsize(t[0]))
    def cc(t):
        s, o, x = t
        tmp = o + '.%d.tmp' % os.getpid()
        r = subprocess.run(['g++'] + x + fl + ['-c', s, '-o', tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: return s, r.stdout
        os.rename(tmp, o)
        return None
    with ThreadPoolExecutor(8) as ex:
        errs = [e for e in ex.map(cc, todo) if e]
    if errs:
        for s, o in errs: sys.stderr.write('compile failed: %s\n%s\n' % (s, o[:4000]))
        sys.stderr.flush(); os._exit(3)
    exe = os.path.join(B, pid + '-' + sha(*objs))
    if not os.path.exists(exe):
        tmp = exe + '.%d.tmp' % os.getpid()
        cmd = ['g++'] + [f for f in fl if f.startswith('-f')] + ['-pthread'] + objs + ['-o', tmp, '-L/usr/lib/x86_64-linux-gnu/openmpi/lib', '-lmetis', '-lmpi']
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            sys.stderr.write('link failed\n' + r.stdout[:4000]); sys.exit(3)
        os.rename(tmp, exe)
    return exe

def execute(exes, thorough, **kw):
    """run the program of each variant, add up what they report"""
    out = None
    case, budget = kw.get('case'), kw.get('budget')
    for n, e in enumerate(exes):
        if e in PREFIX:
            kw['monitor'], kw['hang'] = True, 240
            if budget: kw['budget'] = max(10, (budget - (time.time() - T0)) / (len(exes) - n))
            if case is not None:
                if any(x and case.startswith(x) for x in PREFIX.values()) and not PREFIX[e] or not case.startswith(PREFIX[e]): continue
                kw['case'] = case[len(PREFIX[e]):]
        r, v, s = execute1(e, thorough, **kw)
        if e in PREFIX: v = [x for x in v if x[1] != 'hang']    # slow is not wrong
        if PREFIX.get(e): v = [(PREFIX[e] + x[0],) + x[1:] for x in v]; s = [PREFIX[e] + x for x in s]
        if out is None: out = [r, v, s]; continue
        for k, n in r['counters'].items(): out[0]['counters'][k] = out[0]['counters'].get(k, 0) + n
        for k in ('cases', 'distinct', 'total', 'wall'): out[0][k] += r[k]
        for k in ('truncated', 'aborted'): out[0][k] = out[0][k] or r[k]
        out[1] += v; out[2] = out[2][:3] + s[:3]
    return out

def execute1(exe, thorough, case=None, budget=None, hang=60, verbose=False, monitor=False):
    out = tempfile.mkdtemp(prefix='run-', dir=B)
    cmd = [exe, '--out', out, '--hang', str(hang)]
    if thorough: cmd.append('--thorough')
    if case is not None: cmd += ['--case', case]
    if budget: cmd += ['--budget', str(budget)]
    env = dict(os.environ)
    env['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:max_malloc_fill_size=65536:malloc_fill_byte=192:max_free_fill_size=65536:free_fill_byte=63'
    env['UBSAN_OPTIONS'] = 'print_stacktrace=0:halt_on_error=1:abort_on_error=1'
    env['MALLOC_PERTURB_'] = '63'            # ... and on the heap (0xC0 when new, 0x3F when gone)
    if verbose: env['VK_VERBOSE'] = '1'
    if monitor: env['VK_MONITOR'] = '1'
    subprocess.run(cmd, env=env, cwd=out)
    res = json.load(open(os.path.join(out, 'result.json')))
    res['rule'] = open(os.path.join(out, 'rule.txt')).read()
    viol, samp = [], []
    for f in sorted(glob.glob(os.path.join(out, 'viol.*'))):
        for l in open(f, errors='replace'):
            p = l.rstrip('\n').split('\t')
            if len(p) >= 2: viol.append((p[0], p[1], p[2] if len(p) > 2 else ''))
    for f in sorted(glob.glob(os.path.join(out, 'samp.*'))):
        samp += [l.rstrip('\n') for l in open(f, errors='replace')]
    shutil.rmtree(out, ignore_errors=True)
    return res, viol, samp

def known(pid):
    out = []
    p = os.path.join(V, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'finding:\s+property=(\S+)\s+case=(.*?)\s+what=(.*?)\s+::\s+(.*)$', l)
            if m and m.group(1) == pid: out.append((m.group(2), m.group(3), m.group(4)))
    return out

def pmatch(pat, s):
    # '*' is the only wildcard
    return re.fullmatch('.*'.join(re.escape(x) for x in pat.split('*')), s, re.S) is not None

def main():
    args = sys.argv[1:]
    pid = args.pop(0)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in args: tier = 'thorough'
    if '--quick' in args: tier = 'quick'
    thorough = tier == 'thorough'
    case = args[args.index('--case') + 1] if '--case' in args else None
    san = ('--san' in args)
    budget = float(os.environ.get('VK_BUDGET', '780' if thorough else '420'))
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    os.makedirs(B, exist_ok=True)
    exe = build(pid, san, thorough)
    tb = time.time() - T0
    if case is not None:
        res, viol, samp = execute(exe, thorough, case=case, verbose='-v' in args)
        for v in viol: print('\t'.join(v))
        print('cases run: %d' % res['cases'])
        sys.exit(1 if viol else 0)
    res, viol, samp = execute(exe, thorough, budget=budget)
    kn = known(pid)
    new, kf, seen = [], {}, set()
    for v in viol:
        for k in kn:
            if pmatch(k[0], v[0]) and pmatch(k[1], v[1]):
                kf.setdefault(k, 0); kf[k] += 1
                break
        else:
            if (v[0], v[1]) not in seen:
                seen.add((v[0], v[1])); new.append(v)
    # confirm by replaying in a fresh process (deterministic): first of each kind
    confirmed, unconf = [], []
    bywhat = {}
    for v in new: bywhat.setdefault(v[1], []).append(v)
    for w in list(bywhat)[:8]:
        for v in bywhat[w][:2]:
            if v[0] == '@harness':
                # the code under test ended the process while cases were being set up
                r2, v2, _ = execute(exe, thorough, budget=budget)
                (confirmed if any(x[0] == '@harness' and x[1] == v[1] for x in v2) else unconf).append(v); continue
            ok = False
            for attempt in range(2):
                r2, v2, _ = execute(exe, thorough, case=v[0], hang=60)
                if any(x[1] == v[1] or x[1].startswith('crash') and v[1].startswith('crash') for x in v2): ok = True; break
                if v2 and not any(pmatch(k[0], x[0]) and pmatch(k[1], x[1]) for x in v2 for k in kn): ok = True; break
                if v[1] == 'hang': break
            (confirmed if ok else unconf).append(v)
    cov = dict(res['counters'])
    states = cov.pop('states', 0); trans = cov.pop('transitions', 0); tr = cov.pop('traces_validated_against_impl', 0)
    if res['level'] == 'model_checking':
        c = {'states': states, 'transitions': trans, 'traces_validated_against_impl': tr, 'cases': res['cases']}
    else:
        c = {'evaluations': res['cases'], 'distinct_nontrivial': res['distinct']}
        if states: c['states'] = states
        if trans: c['transitions'] = trans
    c['rule'] = res['rule']
    c['samples'] = samp[:6]
    c['exhaustive'] = not res['truncated'] and not res['aborted'] and res['total'] == res['cases']
    c.update(cov)
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': res['level'], 'coverage': c,
          'wall_s': round(time.time() - T0, 2), 'violations': len(confirmed),
          'assumptions': ['g++ -O1 code of the sources in /repo/src as compiled with -DNDEBUG (the configuration the project ships)',
                          'bounds stated in coverage.rule and DESIGN.md']}
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as f: json.dump(ev, f, indent=1)
    print('%s %s: %d cases, %s, build %.1fs run %.1fs%s' % (pid, tier, res['cases'], ' '.join('%s=%s' % i for i in sorted(res['counters'].items())), tb, res['wall'], ' TRUNCATED' if res['truncated'] else ''))
    for k, n in kf.items(): print('KNOWN-FINDING: property=%s %s (%d observations)' % (pid, k[2], n))
    if unconf:
        for v in unconf: print('note: unconfirmed observation, not reported: %s | %s | %s' % v)
    if confirmed:
        rd = os.path.join(V, 'replays'); os.makedirs(rd, exist_ok=True)
        for i, v in enumerate(confirmed):
            rp = os.path.join(rd, '%s-%d.txt' % (pid, i))
            with open(rp, 'w') as f:
                f.write('property: %s\ncase: %s\nobservation: %s\ndetail: %s\nreplay: cd /verif && python3 check.py %s --%s --case %s\n' % (pid, v[0], v[1], v[2], pid, tier, "'" + v[0].replace("'", "'\\''") + "'"))
            print('  %s | %s | %s' % v)
            print('VIOLATION property=%s replay=%s' % (pid, rp))
        print('%d observations in all' % len(new))
        sys.exit(1)
    if res['aborted']:
        print('harness stopped outside any case'); sys.exit(2)
    sys.exit(0)
main()
