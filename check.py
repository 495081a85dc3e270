#!/usr/bin/env python3
"""check.py PROP... | all      decide properties of the quick_cache sources in /repo

Deciding step: Verus on functions extracted from /repo/src on every run, with the contracts of
/verif/specs.  A clause of a contract is tagged with the property it carries ([Cxx]); a clause that
fails is an obligation of that property that fails.  A search for a failing input on the real crate
(/verif/harness, /verif/conc) runs alongside.  See DESIGN.md.
"""
import json, os, re, shutil, subprocess, sys, tempfile, threading, time, signal

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
if TIER not in ('quick', 'thorough'):
    TIER = 'quick'
try:
    SEED = int(os.environ.get('VERIF_SEED', '1'))
except ValueError:
    SEED = 1
BUILD = os.environ.get('VERIF_BUILD', os.path.join(VERIF, '.build'))
EVID = os.path.join(VERIF, 'evidence')
NPROC = os.cpu_count() or 4
WALL = {'quick': 540, 'thorough': 5400}[TIER]  # seconds for one run of the verifier
RLIMIT = {'quick': 150, 'thorough': 600}[TIER]
PROVED = json.load(open(os.path.join(VERIF, 'claims.json')))


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, **kw):
    return subprocess.run(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)


# ---------------------------------------------------------------- building
def cargo(crate, target, extra_env=None, args=(), fresh=()):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, target), CARGO_NET_OFFLINE='true')
    env.update(extra_env or {})
    man = os.path.join(VERIF, crate, 'Cargo.toml')
    for p in fresh:  # never trust time stamps for the code under test
        run(['cargo', 'clean', '--offline', '--manifest-path', man, '-p', p], env=env)
    return run(['cargo', 'build', '--offline', '--manifest-path', man, *args], env=env)


def build_extract():
    r = cargo('extract', 'extract')
    exe = os.path.join(BUILD, 'extract', 'debug', 'extract')
    if r.returncode or not os.path.exists(exe):
        log(r.stdout[-3000:])
        sys.exit(2)
    return exe


def build_harness():
    r = cargo('harness', 'harness', {'RUSTFLAGS': '--cfg fuzzing'}, fresh=['quick_cache', 'explore'])
    exe = os.path.join(BUILD, 'harness', 'debug', 'explore')
    return (exe, None) if r.returncode == 0 else (None, r.stdout[-4000:])


def build_conc():
    if not os.path.exists(os.path.join(VERIF, 'conc')):
        return None, 'absent'
    r = cargo('conc', 'conc', fresh=['quick_cache', 'conc'])
    exe = os.path.join(BUILD, 'conc', 'debug', 'conc')
    return (exe, None) if r.returncode == 0 else (None, r.stdout[-4000:])


def build_timed():
    r = cargo('timed', 'timed', fresh=['quick_cache', 'timed'])
    exe = os.path.join(BUILD, 'timed', 'debug', 'timed')
    return (exe, None) if r.returncode == 0 else (None, r.stdout[-4000:])


# ---------------------------------------------------------------- the proof
TAG = re.compile(r'//\s*((?:\[C\d\d\]\s*)+)(.*)$')
LTAG = re.compile(r'/\*((?:\[C\d\d\]\s*)+)(.*?)\*/')  # on loop invariants


def clause_tags(lines):
    """maps every line of a tagged clause to (tags, text); a clause ends at a line ending in a comma at depth 0"""
    tags, start, depth, pend = {}, None, 0, None
    for n, line in enumerate(lines, 1):
        m = TAG.search(line)
        lm = LTAG.search(line)
        if lm:
            pend, line = lm, line.replace(lm.group(0), '')
        code = line[:m.start()] if m else line.split('//')[0]
        word = code.strip()
        if word in ('requires', 'ensures', 'invariant', 'decreases', 'invariant_except_break', '{') or not word:
            start, depth, pend = None, 0, None
            continue
        if start is None:
            start = n
        depth += sum(code.count(c) for c in '([{') - sum(code.count(c) for c in ')]}')
        if word.endswith(',') and depth <= 0:
            m = m or pend
            if m:
                for k in range(start, n + 1):
                    tags[k] = (re.findall(r'C\d\d', m.group(1)), m.group(2).strip(), (start, n))
            start, depth, pend = None, 0, None
    return tags


class Proof:
    pass


def extract(exe, out, rep, *flags):
    r = run([exe, os.path.join(REPO, 'src'), os.path.join(VERIF, 'specs'), out, rep, *flags])
    if r.returncode:
        return None, r.stdout
    return json.load(open(rep)), None


def verus(path, *args, limit=WALL):
    cmd = ['verus', path, '--triggers-mode', 'silent', '--error-format=json', '--output-json', '--time-expanded', *args]
    t0 = time.time()
    q = subprocess.Popen(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=os.path.dirname(path), start_new_session=True)
    late = []

    def stop():
        late.append(1)
        try:
            os.killpg(q.pid, signal.SIGKILL)
        except OSError:
            pass
    timer = threading.Timer(max(limit, 1), stop)
    timer.start()
    so, se = q.communicate()
    timer.cancel()
    diags = []
    for l in se.splitlines():
        if l.startswith('{'):
            try:
                diags.append(json.loads(l))
            except ValueError:
                pass
    try:
        res = json.loads(so)
    except ValueError:
        res = {}
    if late:  # what it reported until then counts; the rest is undecided
        res = {'late': True}
    return cmd, diags, res, time.time() - t0, se


TIMEOUT_WORDS = ('rlimit', 'resource limit', 'timed out', 'timeout')
HARD = ('precondition not satisfied', 'postcondition not satisfied', 'invariant not satisfied', 'assertion failed',
        'possible arithmetic', 'possible division', 'possible bit shift', 'decreases not satisfied', 'index', 'recommendation not met',
        'could not prove termination', 'not satisfied', 'underflow/overflow', 'unreachable')


def prove(exe, work, features=()):
    """extract, verify, map failures to properties"""
    P = Proof()
    P.t0 = time.time()
    P.problem, P.stubs, P.failed, P.undecided = None, [], [], []
    mark = '_'.join(features)
    gen, rep = os.path.join(work, f'gen{mark}.rs'), os.path.join(work, f'rep{mark}.json')
    for _ in range(7):
        P.rep, err = extract(exe, gen, rep, *features, *['stub:' + s for s in P.stubs])
        if P.rep is None:
            P.problem = 'extraction failed: ' + err[-800:]
            return P
        P.cmd, diags, P.res, P.wall, raw = verus(gen, '--multiple-errors', '20', '--rlimit', str(RLIMIT), '--num-threads', str(NPROC), limit=WALL - (time.time() - P.t0))
        vr = P.res.get('verification-results', {})
        P.verified, P.errors = vr.get('verified', 0), vr.get('errors', 0)
        if P.res.get('late'):
            P.errors = 1 + sum(d['level'] == 'error' and bool(d['spans']) for d in diags)
            P.undecided.append(dict(fn='(the rest)', message='the verifier ran out of time', why=f'stopped after {round(P.wall)} s', line=0, text='', tags=None, rendered=''))
        if P.verified or P.errors:
            break
        # the crate was rejected before any obligation: leave out the functions the messages point into
        bad = set()
        for d in diags:
            if d['level'] == 'error':
                for s in d['spans']:
                    if s['is_primary']:
                        for f in P.rep['fns']:
                            if f['start'] <= s['line_start'] <= f['end']:
                                bad.add(f['fn'])
        bad -= set(P.stubs)
        if not bad:
            msgs = [d['message'] for d in diags if d['level'] == 'error']
            P.problem = 'rejected by the verifier: ' + ('; '.join(msgs[:4]) or raw[-400:])
            return P
        P.stubs += sorted(bad)
    else:
        P.problem = 'too many functions out of reach: ' + ', '.join(P.stubs)
        return P
    lines = open(gen).read().split('\n')
    P.lines = lines
    P.tags = clause_tags(lines)
    P.times = P.res.get('times-ms', {})
    name = os.path.basename(gen)
    noted = set()
    shape = json.load(open(os.path.join(VERIF, 'specs', 'SHAPE.json')))
    usual = set(shape['notes'])  # the original tree gives these too
    for fn, sh in P.rep['shapes'].items():
        if shape['loops'].get(fn) != sh:  # a loop was added, removed or rewritten: its annotations may not fit
            noted.add(fn)
    for fn in shape['loops']:
        if fn not in P.rep['shapes']:
            noted.add(fn)
    for n in P.rep['notes']:
        if n not in usual:
            noted.add(n.split(': ')[0])
    for n in P.rep['inlined']:
        if n not in usual:
            noted.add(n.split(' <- ')[0])
    for d in diags:
        if d['level'] != 'error' or not d['spans']:
            continue
        where = None
        tags, text = None, None
        for s in d['spans']:
            if not s['file_name'].endswith(name):
                continue
            for f in P.rep['fns']:
                if f['start'] <= s['line_start'] <= f['end'] and (s['label'] or '') not in ('failed precondition', 'failed this postcondition'):
                    where = where or f['fn']
            lab = s['label'] or ''
            if 'failed' in lab or s['is_primary']:
                t = P.tags.get(s['line_start'])
                if t and (tags is None or 'failed' in lab):
                    tags, text = t[0], t[1]
        if where is None:
            for s in d['spans']:
                for f in P.rep['fns']:
                    if s['file_name'].endswith(name) and f['start'] <= s['line_start'] <= f['end']:
                        where = f['fn']
        msg = d['message']
        prim = [s for s in d['spans'] if s['is_primary']] or d['spans']
        foreign = all(not s['file_name'].endswith(name) for s in d['spans'] if 'failed' in (s['label'] or '')) and any('failed' in (s['label'] or '') for s in d['spans'])
        e = dict(fn=where or '?', message=msg, line=prim[0]['line_start'], text=text or '', tags=tags, rendered=d.get('rendered', '')[:3000])
        low = msg.lower()
        if any(w in low for w in TIMEOUT_WORDS):
            e['why'] = 'solver limit'
            P.undecided.append(e)
            continue
        if tags is None and ('decreases' in low or 'terminat' in low or 'arithmetic' in low or 'unreachable' in low or (foreign and 'precondition' in low)):
            e['tags'], e['text'] = ['C07'], 'no overflow, no unwrap of nothing, in bounds'
        if e['tags'] is None:
            e['why'] = 'auxiliary obligation'
            P.undecided.append(e)
        elif e['fn'] in noted:
            e['why'] = 'the source changed shape here (helper inlined, loop rewritten or annotation lost)'
            P.undecided.append(e)
        else:
            P.failed.append(e)
    # a function with an undischarged auxiliary obligation (say, a loop invariant that no longer fits) has an
    # incomplete argument: its tagged failures are still failures, reported with the verifier's output.
    return P


def probe(exe, work):
    """every precondition must be satisfiable: bodies that are only right under `false` must be rejected"""
    gen, rep = os.path.join(work, 'probe.rs'), os.path.join(work, 'probe.json')
    r, err = extract(exe, gen, rep, 'probe:all')
    if r is None:
        return None
    _, diags, res, wall, _ = verus(gen, '--rlimit', '5', '--num-threads', '3')
    hit = set()
    for d in diags:
        if d['level'] == 'error':
            for s in d['spans']:
                for f in r['fns']:
                    if f['start'] <= s['line_start'] <= f['end'] and s['file_name'].endswith('probe.rs'):
                        hit.add(f['fn'])
    allf = {f['fn'] for f in r['fns']} - set(r.get('assumed', []))
    return dict(functions=len(allf), satisfiable=len(hit & allf), vacuous=sorted(allf - hit), wall_s=round(wall, 1))


def trusted(lines):
    out, i = [], 0
    for n, l in enumerate(lines):
        if re.search(r'external_body|assume_specification|uninterp|\badmit\(|\bassume\(|external_type_specification', l) and '//' not in l.split('external')[0]:
            sig = l.strip()
            if 'external_body' in l:
                for k in range(n + 1, min(n + 5, len(lines))):
                    if re.search(r'\b(fn|struct|enum)\b', lines[k]):
                        sig = lines[k].strip()
                        break
                sig = 'assumed contract: ' + sig
            out.append(re.sub(r'\s+', ' ', sig)[:150])
    return sorted(set(out))


# ---------------------------------------------------------------- floating-point conditions
FLOATS = dict(hot_accepts='C15', ghost_accepts='C15', hot_rejects='C15', ghost_rejects='C15', no_share='C11')


def floats(work):
    """the conditions on f64 values, bit-precise and complete, by Kani on the real crate (crate floats)"""
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(work, 'floats'), CARGO_NET_OFFLINE='true')
    t0 = time.time()
    try:
        r = run(['cargo', 'kani', '--output-format', 'terse'], env=env, cwd=os.path.join(VERIF, 'floats'), timeout=400)
    except (OSError, subprocess.TimeoutExpired) as e:
        return dict(problem=repr(e)[:300])
    out = {}
    for part in r.stdout.split('Checking harness ')[1:]:
        name = part.split('...')[0].strip()
        # (should_panic harnesses also need that nothing comes back)
        ok = 'VERIFICATION:- SUCCESSFUL' in part and not re.search(r'[1-9]\d* of \d+ cover properties satisfied', part)
        bad = 'VERIFICATION:- FAILED' in part or re.search(r'[1-9]\d* of \d+ cover properties satisfied', part)
        if 'unsupported' in part.lower() or 'unwinding' in part.lower() or not (ok or bad):
            out[name] = ('undecided', part[-1500:])
        else:
            out[name] = ('discharged' if ok else 'failed', part[-1500:])
    if not out:
        return dict(problem=r.stdout[-600:])
    return dict(harnesses=out, wall_s=round(time.time() - t0, 1))


# ---------------------------------------------------------------- search for failing inputs
def alive_json(text):
    for l in reversed(text.strip().splitlines()):
        if l.startswith('{'):
            try:
                return json.loads(l)
            except ValueError:
                pass
    return None


def spawn(cmd, progress):
    p = subprocess.Popen(cmd, text=True, stdout=subprocess.PIPE, stderr=subprocess.PIPE, preexec_fn=lambda: os.nice(5))
    return dict(cmd=cmd, p=p, progress=progress)


def search(prop, exe, conc, timed, work, millis):
    """random histories and scenarios on the real crate; returns (found, stats)"""
    kinds = PROVED[prop].get('search', [])
    jobs = []
    if exe and 'seq' in kinds:
        n = max(2, NPROC - 3)
        for w in range(n):
            pg = os.path.join(work, f'p{prop}{w}')
            jobs.append(spawn([exe, 'seq', prop, str(SEED), str(w * 10 ** 8), str(10 ** 8), str(millis), pg], pg))
    if exe and 'scen' in kinds:
        for w in range(1 if 'seq' in kinds else 4):
            pg = os.path.join(work, f's{prop}{w}')
            jobs.append(spawn([exe, 'scen', prop, str(SEED + 1000 * w), str(millis), pg], pg))
    if conc and 'conc' in kinds:
        for w in range(3):
            pg = os.path.join(work, f'c{prop}{w}')
            jobs.append(spawn([conc, prop, str(SEED + 1000 * w), str(millis), pg], pg))
    if timed and 'timed' in kinds:
        for w in range(6):
            pg = os.path.join(work, f't{prop}{w}')
            jobs.append(spawn([timed, prop, str(SEED + 1000 * w), str(millis), pg], pg))
    found, stats = None, []
    for j in jobs:
        try:
            o, e = j['p'].communicate(timeout=millis / 1000 + 200)
        except subprocess.TimeoutExpired:
            j['p'].kill()
            o, e = j['p'].communicate()
            o += '\nHANG'
        rc = j['p'].returncode
        js = alive_json(o)
        at = ''
        try:
            at = open(j['progress']).read().strip()
        except OSError:
            pass
        if rc == 1 and js and 'found' in js and prop == 'C07' and js['kind'].startswith('schedule:') and js['kind'] != 'schedule:panic':
            stats.append(dict(interrupted=js['kind']))  # the business of C10 and C16
        elif rc == 1 and js and 'found' in js:
            found = found or dict(kind=js['kind'], detail=js['detail'], cmd=' '.join(j['cmd']))
        elif rc == 0 and js:
            stats.append(js)
        elif rc == 3 or (rc is not None and rc < 0) or rc in (101, 134, 139):
            # the code under test hangs, aborts or kills the process: a violation of "no panic, no endless loop"
            what = 'does not terminate' if rc == 3 or 'HANG' in o else f'ends the process (status {rc})'
            if prop in ('C07', 'C16', 'C20') and rc != -9:
                found = found or dict(kind='crash', detail=f'case {at} {what}\n{o[-500:]}\n{e[-1500:]}', cmd=' '.join(j['cmd']))
            else:
                stats.append(dict(interrupted=f'case {at} {what}'))
        else:
            stats.append(dict(interrupted=f'status {rc} {e[-300:]}'))
    return found, stats


def merge(stats):
    m = {}
    for s in stats:
        for k, v in s.items():
            if isinstance(v, bool):
                continue
            if isinstance(v, int):
                m[k] = m.get(k, 0) + v
            elif isinstance(v, dict):
                d = m.setdefault(k, {})
                for a, b in v.items():
                    d[a] = d.get(a, 0) + b
            elif k == 'sample' and v:
                m.setdefault('samples', [])
                if len(m['samples']) < 2:
                    m['samples'].append(v[:700])
            elif isinstance(v, str):
                m.setdefault(k, []).append(v)
    return m


# ---------------------------------------------------------------- verdict
def known_findings():
    out = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'finding: property=(C\d\d) match=(\S+) (.*)', l.strip())
            if m:
                out.append(m.groups())
    except OSError:
        pass
    return out


def judge(prop, P, probes, found, stats, harness_err, wall, fl=None):
    os.makedirs(os.path.join(EVID, 'replay'), exist_ok=True)
    mine = [e for e in P.failed if prop in e['tags']]
    proved_here = PROVED[prop]['level'] == 'proof'
    fl = fl or {}
    mine_fl = {h: v for h, v in fl.get('harnesses', {}).items() if FLOATS.get(h) == prop}
    for h, v in mine_fl.items():
        if v[0] == 'failed':
            mine.append(dict(fn=f'floats::{h}', tags=[prop], text='decided by Kani for every f64', rendered=v[1], message='verification failed', line=0))
    clauses = sum(1 for v in {id(t): t for t in getattr(P, 'tags', {}).values()}.values() if prop in v[0])
    vac = (probes or {}).get('vacuous', [])
    complete = P.problem is None and not P.failed and not P.undecided and not P.stubs and not vac
    m = merge(stats)
    assumed = P.rep.get('assumed', []) if getattr(P, 'rep', None) else []
    cov = dict(
        obligations=P.verified + P.errors if P.problem is None else 0,
        discharged=P.verified if P.problem is None else 0,
        checker_cmd=' '.join(P.cmd) if hasattr(P, 'cmd') else 'verus (not reached)',
        trusted_base=trusted(P.lines) if hasattr(P, 'lines') else [],
        back_end='Verus 0.2026.09.13 / Z3; every obligation is one query per function or lemma, unbounded',
        clauses_carrying_this_property=clauses,
        functions_under_contract=sorted(f['fn'] for f in P.rep['fns'] if f['fn'] not in P.stubs and f['fn'] not in assumed) if getattr(P, 'rep', None) else [],
        functions_outside_contract=sorted(set(u for u in P.rep['uncontracted'] if not u.startswith('theory::')) - {f['fn'] for f in P.rep['fns']} - {n.split('::')[0] + '::' + n.split(' <- ')[1] for n in P.rep['inlined']}) if getattr(P, 'rep', None) else [],
        functions_verified_where_they_are_called=sorted(P.rep['inlined']) if getattr(P, 'rep', None) else [],
        solver_ms=getattr(P, 'times', {}).get('smt', {}).get('smt-run', 0),
        preconditions_probed=probes or 'not run',
        proof_complete=complete,
        bounded_search=dict(note='bounded, not counted as proved: random histories and scenarios on the real crate', **m),
    )
    if 'floats' in PROVED[prop].get('also', []):
        cov['float_conditions'] = dict(back_end='Kani 0.68 / CBMC, bit-precise over all f64 (and u64), loop-free, no bound',
                                       **{h: v[0] for h, v in mine_fl.items()}, **({'problem': fl['problem']} if 'problem' in fl else {}))
        complete = complete and mine_fl and all(v[0] == 'discharged' for v in mine_fl.values())
        cov['proof_complete'] = bool(complete)
        cov['obligations'] += sum(1 for h in FLOATS if FLOATS[h] == prop)
        cov['discharged'] += sum(1 for v in mine_fl.values() if v[0] == 'discharged')
    if not complete:
        cov['proof_not_reestablished'] = (P.problem or '') + '; '.join(
            [f"{e['fn']}: {e['message']} ({e.get('why', 'obligation failed')}; line {e['line']} of the generated file) {e['text']}" for e in P.failed + P.undecided][:30]
            + [f'floats::{h}: {v[0]}' for h, v in mine_fl.items() if v[0] != 'discharged']
            + [f'{s}: body outside the verifier\'s reach, contract assumed' for s in P.stubs]
            + [f'{v}: precondition cannot be met, so nothing is proved of it' for v in vac])
    if not proved_here:
        cov['evaluations'] = int(m.get('cases', 0) + m.get('rounds', 0) + m.get('executions', 0))
        cov['distinct_nontrivial'] = int(m.get('nontrivial', m.get('rounds', 0) + m.get('executions', 0)))
        cov['rule'] = PROVED[prop].get('rule', 'every case has its own derived seed; non-trivial: at least two insertions evicted')
        cov.setdefault('samples', m.get('samples', [json.dumps(stats)[:600]]))
    viol = None
    if found:
        path = os.path.join(EVID, 'replay', f'{prop}.txt')
        with open(path, 'w') as f:
            f.write(f"property {prop}: failing {found['kind']} on the real crate\nrun: {found['cmd']}\n\n{found['detail']}\n")
            for e in mine:
                f.write(f"\nfailed obligation in {e['fn']}: {e['text']}\n{e['rendered']}\n")
        viol = (path, '')
    elif mine and proved_here:
        path = os.path.join(EVID, 'replay', f'{prop}.txt')
        with open(path, 'w') as f:
            f.write(f'property {prop}: obligations that hold on the original tree fail; the verifier gives no input and the search found none\n')
            f.write(f"command: {' '.join(P.cmd)}\n")
            for e in mine:
                f.write(f"\nfailed obligation in {e['fn']}: {e['text']}\n{e['rendered']}\n")
        viol = (path, ' no-failing-input-found')
    known = [k for k in known_findings() if k[0] == prop]
    for _, pat, text in known:
        print(f'KNOWN-FINDING: property={prop} {text}')
        if viol and found and re.search(pat, found['detail']):
            viol = None
    ev = dict(property=prop, tier=TIER, seed=SEED, level=PROVED[prop]['level'], coverage=cov,
              assumptions=PROVED['_assumptions'] + PROVED[prop].get('assumptions', []) + [f'contract of {f} assumed, its body is not verified' for f in assumed], wall_s=round(wall, 1), violations=1 if viol else 0)
    json.dump(ev, open(os.path.join(EVID, f'{prop}.json'), 'w'), indent=1)
    if viol:
        print(f'VIOLATION property={prop} replay={viol[0]}{viol[1]}')
        return 1
    if vac:
        log(f'vacuous preconditions: {vac}')
    if not complete and not stats and P.problem:
        log('neither proof nor search gave an answer:', P.problem, harness_err)
        return 2
    how = f'{P.verified} obligations discharged' if complete else 'proof not re-established (' + cov['proof_not_reestablished'][:300] + '); bounded search found nothing'
    print(f'OK property={prop} {how}; search {json.dumps({k: v for k, v in m.items() if isinstance(v, int)})}')
    return 0


def main():
    props = sys.argv[1:]
    if props == ['setup']:
        build_extract()
        _, e = build_harness()
        _, e2 = build_conc()
        _, e3 = build_timed()
        log(e or '', e2 or '', e3 or '')
        return 0
    if props == ['all']:
        props = [p for p in PROVED if not p.startswith('_') and not PROVED[p].get('na')]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(BUILD, exist_ok=True)
    work = tempfile.mkdtemp(prefix='run', dir=BUILD)
    rc = 0
    try:
        exe = build_extract()
        box = {}

        def proof_thread():
            try:
                for f in {tuple(PROVED[p].get('features', [])) for p in props}:
                    box[f] = prove(exe, work, f)
            except Exception as e:  # a failure of the machinery is not a verdict
                P = Proof()
                P.problem, P.failed, P.undecided, P.stubs = f'internal: {e!r}', [], [], []
                box[f] = P

        def probe_thread():
            try:
                box['probe'] = probe(exe, work)
            except Exception as e:
                log('probe', repr(e))

        def floats_thread():
            try:
                box['floats'] = floats(work)
            except Exception as e:
                box['floats'] = dict(problem=repr(e)[:300])

        need = {k for p in props for k in PROVED[p].get('search', [])}
        harness = conc = timed = None
        herr = None
        ths = [threading.Thread(target=proof_thread), threading.Thread(target=probe_thread)]
        if any('floats' in PROVED[p].get('also', []) for p in props):
            ths.append(threading.Thread(target=floats_thread))
        for t in ths:
            t.start()
        if need & {'seq', 'scen'}:
            harness, herr = build_harness()
            if herr:
                log('harness does not build:', herr)
        if 'conc' in need:
            conc, cerr = build_conc()
            if cerr:
                log('conc does not build:', cerr)
        if 'timed' in need:
            timed, terr = build_timed()
            if terr:
                log('timed does not build:', terr)
        res = {}
        for p in props:
            ms = PROVED[p].get('millis', {}).get(TIER) or {'quick': 25000, 'thorough': 400000}[TIER]
            if len(props) > 1:
                ms = min(ms, int(os.environ.get('VERIF_MS', '8000')))
            res[p] = search(p, harness, conc, timed, work, ms)
        for t in ths:
            t.join()
        for p in props:
            rc = max(rc, judge(p, box[tuple(PROVED[p].get('features', []))], box.get('probe'), *res[p], herr, time.time() - t0, box.get('floats')))
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return rc


if __name__ == '__main__':
    sys.exit(main())
