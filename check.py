#!/usr/bin/env python3
"""check.py <PROPERTY> [--tier quick|thorough]
Compiles the property's harnesses against /repo's current headers to LLVM IR, runs the symbolic executor on them,
replays every counterexample natively, writes evidence/<PROPERTY>.json."""
import json, os, subprocess, sys, time, glob, re, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.abspath(__file__)); REPO = os.environ.get('SE_REPO', '/repo')
BUILD = os.path.join(V, 'build'); VMSE = os.path.join(BUILD, 'vmse')
SYMFLAGS = ('-O1 -emit-llvm -c -std=gnu++17 -fno-vectorize -fno-slp-vectorize -fno-builtin -ffp-contract=off -frounding-math -fno-inline -w -DSE_SYMBOLIC '
            '-D_GLIBCXX_ASSERTIONS').split() + ['-I' + V + '/shim', '-I' + V + '/harness', '-I' + REPO]
NATFLAGS = '-std=gnu++17 -w'.split() + ['-I' + V + '/harness', '-I' + REPO]

def ensure_engine():
    srcs = glob.glob(V + '/engine/*.cpp') + glob.glob(V + '/engine/*.inc')
    if os.path.exists(VMSE) and all(os.path.getmtime(VMSE) >= os.path.getmtime(s) for s in srcs): return
    r = subprocess.run(['make', '-C', V + '/engine'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not os.path.exists(VMSE) or r.returncode: print(r.stdout[-3000:]); sys.exit(2)

def merge(pattern):
    t = {}
    for f in sorted(glob.glob(pattern)):
        j = json.load(open(f)); os.unlink(f)
        for k, v in j.items():
            if isinstance(v, bool): t[k] = t.get(k, True) and v
            elif isinstance(v, (int, float)): t[k] = t.get(k, 0) + v
            elif isinstance(v, list): t.setdefault(k, []).extend(v)
            else:
                d = t.setdefault(k, {})
                for a, b in v.items(): d[a] = d.get(a, 0) + b
    return t

class Replayer:
    def __init__(s, src, defs, tmp): s.src, s.defs, s.tmp, s.bins = src, defs, tmp, {}
    def binary(s, flavour):
        if flavour in s.bins: return s.bins[flavour]
        fl = {'fast': [], 'asan': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-D_GLIBCXX_ASSERTIONS'], 'asan-newdel': ['-fsanitize=address,undefined', '-fno-sanitize-recover=all', '-DSE_NOHEAPCOUNT'], 'plain': ['-g', '-O1']}[flavour]
        out = os.path.join(s.tmp, os.path.basename(s.src) + '.' + flavour)
        r = subprocess.run(['clang++' if flavour == 'fast' else 'g++'] + NATFLAGS + fl + s.defs + [s.src, V + '/harness/native_rt.cpp', '-o', out], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode: print('native build failed: ' + r.stdout[-2000:]); out = None
        s.bins[flavour] = out; return out
    def run(s, inp, kind, tol):
        env = dict(os.environ, SE_INPUT=inp, ASAN_OPTIONS='detect_leaks=0:allocator_may_return_null=1', SE_TOL=str(tol))
        def go(cmd, t=30):
            try: r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=t, errors='replace', text=True)
            except subprocess.TimeoutExpired: return 'timeout', ''
            return r.returncode, r.stdout
        out = ''
        order = ['asan', 'asan-newdel'] if kind == 'memory' else ['fast', 'asan'] if kind in ('eq', 'eqfine', 'assert', 'exception', 'abort', 'terminate', 'nontermination') else ['asan']
        for fl in order:
            b = s.binary(fl)
            if not b: continue
            rc, out = go([b])
            if rc == 'timeout': return kind == 'nontermination', 'native run did not terminate'
            if rc not in (0, 2, 3): return True, out[-1500:]
        if kind in ('uninit', 'memory'):
            b = s.binary('plain')
            if b and shutil.which('valgrind'):
                rc, out = go(['valgrind', '-q', '--error-exitcode=9', b], 120)
                if rc == 9: return True, out[-1500:]
        if kind == 'ub': pass
        return False, out[-500:]

def rejected(h, defs, name, r, tmp, pid, viol):
    """A use of the library that no longer compiles: the harness is the failing program. Only if both compilers reject it and the
    error lies in the library's headers (or is an ambiguity or a failed instantiation there); everything else stays an error of the check."""
    src = V + '/harness/' + h['src']
    g = subprocess.run(['g++'] + NATFLAGS + ['-fmax-errors=40', '-fsyntax-only'] + defs + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if not g.returncode: return False
    lib = os.path.realpath(REPO) + '/viennamath/'
    def inlib(out):
        for l in out.splitlines():
            m = re.match(r'([^\s:]+):\d+:\d+: (fatal )?error: (.*)', l)
            if m and (os.path.realpath(m.group(1)).startswith(lib) or 'ambiguous' in m.group(3)): return True
        return False
    if not (inlib(r.stdout) and inlib(g.stdout)): return False
    rd = BUILD + '/replay'; os.makedirs(rd, exist_ok=True); dst = '%s/%s-%d.txt' % (rd, pid, len(viol))
    open(dst, 'w').write('g++ -fsyntax-only -std=gnu++17 -I%s/harness -I%s %s %s\n' % (V, REPO, ' '.join(defs), src)); open(dst + '.info', 'w').write(g.stdout[:20000])
    first = [l for l in g.stdout.splitlines() if 'error:' in l][0]
    viol.append({'msg': 'library code used by %s is rejected by the compiler' % name, 'kind': 'compile', 'replay': dst, 'inputs': '', 'where': first, 'native': first})
    return True

def main():
    pid = sys.argv[1]; tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv: tier = sys.argv[sys.argv.index('--tier') + 1]
    t0 = time.time(); cfg = json.load(open(V + '/harness/checks.json'))[pid]
    os.makedirs(V + '/evidence', exist_ok=True); ensure_engine()
    tmp = tempfile.mkdtemp(prefix='vmse-' + pid + '-'); rc = 2
    try: rc = run(pid, tier, cfg, t0, tmp)
    finally: shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)

def run(pid, tier, cfg, t0, tmp):
    seed = int(os.environ.get('VERIF_SEED', '1')); thorough = tier == 'thorough'
    budget = cfg.get('budget', 700)
    hs = [h for h in cfg['harnesses'] if thorough or not h.get('thorough_only')]
    known = [k for k in json.load(open(V + '/known_findings.json'))['findings'] if k.get('property') == pid and k.get('status') == 'known']
    def comp(h):
        defs = list(h.get('defs', [])) + (['-DSE_THOROUGH'] if thorough else [])
        name = os.path.basename(h['src']) + ''.join(c for c in ''.join(h.get('defs', [])) if c.isalnum() or c in '_=')
        bc = os.path.join(tmp, name + '.bc')
        r = subprocess.run(['clang++'] + SYMFLAGS + defs + [V + '/harness/' + h['src'], '-o', bc], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        return h, defs, name, bc, r
    with ThreadPoolExecutor(8) as ex: comps = list(ex.map(comp, hs))
    viol, errors, total, knownhit = [], [], {}, {}
    funcs, samples, sites = set(), [], {}
    perh = []
    enough = lambda: len(viol) >= (1 if os.environ.get('SE_FIRST') else 3) or (viol and time.time() - t0 > 240)
    for h, defs, name, bc, r in comps:
        if enough(): break          # the verdict is already a confirmed violation
        if r.returncode:
            if rejected(h, defs, name, r, tmp, pid, viol): continue
            errors.append('harness %s does not compile:\n%s' % (h['src'], '\n'.join(l for l in r.stdout.splitlines() if 'error' in l)[:2000])); continue
        out = os.path.join(tmp, name + '.out'); ts = time.time()
        left = max(20, budget - (time.time() - t0))
        p = subprocess.run([VMSE, bc, '-o', out, '-j', os.environ.get('SE_JOBS', '8'), '-t', str(left)] + h.get('args', []), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace')
        t = merge(out + '.*.json')
        if p.returncode or not t: errors.append('executor failed on %s: %s' % (name, p.stdout[-800:])); 
        if not t: continue
        for k in ('paths', 'infeasible', 'steps', 'queries', 'qsat', 'qunsat', 'qunknown', 'cached', 'asserts', 'eqs', 'forks', 'syntactic', 'rounded', 'solver_s'): total[k] = total.get(k, 0) + t.get(k, 0)
        funcs |= set(t['funcs']); samples += ['%s: %s' % (name, s) for s in t['samples'][:3]]
        for k, v in t['sites'].items(): sites[k] = sites.get(k, 0) + v
        perh.append({'harness': name, 'paths': t['paths'], 'queries': t['queries'], 'solver_s': round(t['solver_s'], 2), 'wall_s': round(time.time() - ts, 2), 'bounds': h.get('bounds', '')})
        rep = Replayer(V + '/harness/' + h['src'], defs, tmp); seen = {}; confirmed = 0
        cands = t['cands']
        for i, c in enumerate(cands):
            if seen.get(c['msg'], 0) >= 3: continue
            if enough(): break
            kf = [k for k in known if k['msg'] == c['msg'] and k.get('harness', h['src']) == h['src']]
            if kf and not kf[0].get('inputs_re'): knownhit[kf[0]['id']] = c['msg']; continue
            if kf and re.search(kf[0]['inputs_re'], c['inputs']): knownhit[kf[0]['id']] = c['msg']; continue
            ipath = os.path.join(tmp, 'in.%s.%d' % (name, i)); open(ipath, 'w').write(c['inputs'])
            ok, text = rep.run(ipath, c['kind'], 1e-9 if c['kind'] == 'eqfine' else h.get('tol', cfg.get('tol', 1e-6)))
            if ok:
                seen[c['msg']] = seen.get(c['msg'], 0) + 3; confirmed += 1
                rd = BUILD + '/replay'; os.makedirs(rd, exist_ok=True); dst = '%s/%s-%d.txt' % (rd, pid, len(viol)); 
                open(dst, 'w').write(c['inputs']); open(dst + '.info', 'w').write('harness %s %s\nkind %s\nmsg %s\nwhere %s\nnative output:\n%s\n' % (h['src'], defs, c['kind'], c['msg'], c['where'], text))
                viol.append({'msg': c['msg'], 'kind': c['kind'], 'replay': dst, 'inputs': c['inputs'], 'where': c['where'], 'native': text})
            else:
                seen[c['msg']] = seen.get(c['msg'], 0) + 1
                errors.append('counterexample did not reproduce natively: [%s] %s | %s | %s | native: %s' % (c['kind'], c['msg'], c['where'][:300], c['inputs'].replace('\n', ' ')[:400], text[-300:]))
        if t['errors'] : errors += ['executor: ' + e for e in t['errors'][:5]]
        if not t['complete'] and not confirmed: errors.append('%s: exploration incomplete within the time limit' % name)
        if t['inconclusive']: errors += ['inconclusive: ' + m for m in t['inconclusive_msgs'][:5]]
        if not t['sites'] and not cands: errors.append('%s: no assertion reached' % name)
        for sname in t['sites']:
            if not t['nonvac'].get(sname) and not cands: errors.append('%s: assertion "%s" only reached vacuously' % (name, sname))
        for rname in h.get('reach', []):
            if not t['reach'].get(rname) and not cands: errors.append('%s: witness "%s" not reached' % (name, rname))
    for k in known:
        if k['id'] in knownhit: print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'other'),
          'coverage': {'explanation': 'Exhaustive symbolic execution (LLVM IR of the real headers + Z3) of the listed harnesses: every path over the symbolic inputs within the stated bounds; %d assertion sites, each with a satisfiable (non-vacuous) reach.' % len(sites),
                       'technique': 'symbolic execution of clang LLVM IR, Z3 decides path feasibility and every assertion', 'bounds': cfg.get('bounds', ''), 'harnesses': perh,
                       'paths': total.get('paths', 0), 'queries_discharged': total.get('queries', 0), 'queries_unsat': total.get('qunsat', 0), 'queries_sat': total.get('qsat', 0), 'queries_unknown': total.get('qunknown', 0), 'queries_from_cache': total.get('cached', 0), 'obligations_whose_two_sides_are_one_term_after_simplification': total.get('syntactic', 0), 'equalities_decided_up_to_1e-9': total.get('rounded', 0), 'solver_seconds': round(total.get('solver_s', 0), 2), 'ir_instructions': total.get('steps', 0),
                       'assertion_sites': dict(sorted(sites.items())[:200]), 'functions_encoded': len([f for f in funcs if 'viennamath::' in f]), 'functions': sorted(f[:200] for f in funcs if f.startswith('viennamath::') or ' viennamath::' in f)[:400], 'samples': samples[:12],
                       'states': total.get('paths', 0), 'transitions': total.get('steps', 0), 'traces_validated_against_impl': len(viol), 'evaluations': total.get('queries', 0)},
          'assumptions': cfg.get('assumptions', []) + COMMON, 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    if errors: ev['coverage']['errors'] = [e[:500] for e in errors[:10]]
    json.dump(ev, open(V + '/evidence/%s.json' % pid, 'w'), indent=1)
    for v in viol[:5]: print('VIOLATION property=%s replay=%s' % (pid, v['replay'])); print('  [%s] %s\n  at %s\n  native: %s' % (v['kind'], v['msg'], v['where'][:400], v['native'][-400:].replace('\n', '\n    ')))
    if viol: return 1
    if errors:
        for e in errors[:12]: print('ERROR ' + e)
        return 2
    print('OK property=%s tier=%s paths=%d queries=%d unsat=%d solver=%.1fs sites=%d wall=%.1fs' % (pid, tier, total['paths'], total['queries'], total['qunsat'], total['solver_s'], len(sites), time.time() - t0))
    return 0

COMMON = ['doubles are exact reals: IEEE rounding, NaN, infinities and signed zero are outside the claim', 'elementary functions are uninterpreted with congruence, sin^2+cos^2=1, exp>0, sqrt/fabs axioms; tan=sin/cos, log10=log/log(10)', 'libstdc++ streams are replaced by a stand-in that formats symbolic numbers as unique tokens', 'memory allocation never fails', 'clang -O1 IR of the headers is taken as their semantics']
main()
