"""Orchestration of one property check: model checking of the specification,
generation of scenarios from the specification, execution of the scenarios in
the real code (/repo), and trace validation of what was observed.

Verdicts come from TLC only; this file and the harness execute and project.
"""
import concurrent.futures as cf
import json
import os
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
VENV_PY = '/opt/venv/bin/python'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
JOBS = 4


class MachineryError(Exception):
    pass


def log(*a):
    print(*a, flush=True)


def run_group(cmd, env, cwd, timeout):
    """Run a command in its own process group; returns (rc, output) or (None, output) on timeout."""
    p = subprocess.Popen(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         start_new_session=True, text=True, errors='replace')
    try:
        out, _ = p.communicate(timeout=timeout)
        return p.returncode, out
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, _ = p.communicate()
        return None, out


def tlc(work, name, module, cfg_text, env=None, extra=(), timeout=800, heap='2g', workers=1):
    d = os.path.join(work, name)
    os.makedirs(d, exist_ok=True)
    cfg = os.path.join(d, name + '.cfg')
    with open(cfg, 'w') as f:
        f.write(cfg_text)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ['java', '-XX:+UseSerialGC', '-XX:TieredStopAtLevel=4', '-Xmx' + heap, '-Xss64m', '-Dfile.encoding=UTF-8', '-Djava.io.tmpdir=' + d,
           '-DTLA-Library=' + SPEC, '-cp', CP, 'tlc2.TLC', '-config', cfg, '-metadir',
           os.path.join(d, 'meta'), '-workers', str(workers), '-lncheck', 'final', '-nowarning', '-deadlock', *extra,
           os.path.join(SPEC, module + '.tla')]
    rc, out = run_group(cmd, e, d, timeout)
    out = '\n'.join(x for x in out.split('\n') if not re.match(r'Parsing file|Semantic proc|Linting of', x))
    return rc, out


def states_of(out):
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


def cfg_of(d, tier):
    """cfg text of a dict(consts=, invariants=, ...); values may be {'quick':..,'thorough':..}."""
    def pick(v):
        return v[tier] if isinstance(v, dict) and set(v) == {'quick', 'thorough'} else v
    lines = ['SPECIFICATION ' + d.get('spec', 'Spec')]
    for k, v in (d.get('consts') or {}).items():
        v = pick(v)
        lines.append('CONSTANT %s %s' % (k, v if str(v).startswith('<-') else '= ' + str(v)))
    for k in ('INVARIANT', 'PROPERTY', 'CONSTRAINT', 'ACTION_CONSTRAINT', 'POSTCONDITION', 'VIEW', 'SYMMETRY'):
        for v in d.get(k, ()):
            lines.append('%s %s' % (k, v))
    return '\n'.join(lines) + '\n'


def harness_env(work, seed):
    e = {k: v for k, v in os.environ.items() if not k.startswith('PYTHON')}
    e.update(PYTHONPATH=':'.join([HARNESS, REPO, os.path.join(REPO, 'babylondigger')]),
             PYTHONDONTWRITEBYTECODE='1', PYTHONPYCACHEPREFIX='/nonexistent', PYTHONHASHSEED='0',
             PYTHONUNBUFFERED='1', PYTHONIOENCODING='utf-8', PYTHONUTF8='1', TF_CPP_MIN_LOG_LEVEL='3', CUDA_VISIBLE_DEVICES='',
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1',
             VERIF_SCRATCH=work, VERIF_SEED=str(seed), VERIF_REPO=REPO, HOME=work, TMPDIR=work)
    return e


class Check:
    def __init__(self, pid, spec, tier, seed, replay=None):
        self.pid, self.spec, self.tier, self.seed, self.replay = pid, spec, tier, seed, replay
        self.work = tempfile.mkdtemp(prefix='vf-%s-' % pid)
        self.states = self.transitions = 0
        self.samples = []
        self.notes = []

    # -- specification side ---------------------------------------------------------
    def model_check(self, i, mc):
        t0 = time.time()
        tmo = 850 if self.tier == 'quick' else 6 * 3600
        rc, out = tlc(self.work, 'mc%d' % i, mc['module'], cfg_of(mc, self.tier), extra=mc.get('extra', ()),
                      timeout=tmo, heap=mc.get('heap', '4g'), workers=mc.get('workers', 2),
                      env={'TIER': self.tier, 'OUT': os.path.join(self.work, 'mc%d.json' % i)})
        if rc != 0 or 'No error has been found' not in out:
            raise MachineryError('model checking of %s failed (rc=%s)\n%s' % (mc['module'], rc, out[-3000:]))
        gen, dis = states_of(out)
        return mc['module'], gen, dis, time.time() - t0

    def generate(self, i, g):
        out_file = os.path.join(self.work, 'gen%d.json' % i)
        extra = list(g.get('extra', ()))
        if 'simulate' in g:
            extra += ['-simulate', 'num=%d' % g['simulate'][self.tier], '-depth', '1000', '-seed', str(self.seed)]
        rc, out = tlc(self.work, 'gen%d' % i, g['module'], cfg_of(g, self.tier), extra=extra,
                      timeout=850 if self.tier == 'quick' else 6 * 3600, heap=g.get('heap', '4g'), workers=1,
                      env={'TIER': self.tier, 'OUT': out_file, 'SEED': str(self.seed)})
        if rc != 0 or not os.path.exists(out_file):
            raise MachineryError('scenario generation by %s failed (rc=%s)\n%s' % (g['module'], rc, out[-3000:]))
        gen, dis = states_of(out)
        return g['name'], out_file, gen, dis

    # -- implementation side --------------------------------------------------------
    def execute(self, shard, nshards, gens):
        out = os.path.join(self.work, 'rec%d.ndjson' % shard)
        args = [VENV_PY, os.path.join(HARNESS, 'runner.py'), '--module', self.spec['harness'], '--prop', self.pid,
                '--tier', self.tier, '--seed', str(self.seed), '--shard', '%d/%d' % (shard, nshards), '--out', out]
        for name, path in gens.items():
            args += ['--gen', '%s=%s' % (name, path)]
        if self.replay:
            args += ['--replay', self.replay]
        tmo = self.spec.get('timeout', 600) if self.tier == 'quick' else 4 * 3600
        rc, text = run_group(args, harness_env(self.work, self.seed), self.work, tmo)
        return rc, text, out

    # -- trace validation -----------------------------------------------------------
    def trace_cfg(self):
        return ('SPECIFICATION TSpec\nCONSTANT Judge <- %s\nCONSTANT InitSt <- %s\nINVARIANT Remember\n'
                'POSTCONDITION Report\n' % (self.spec['judge'], self.spec.get('init', 'NoState')))

    def validate(self, name, lines):
        """lines: list of (raw json text). Returns list of (line index, clauses)."""
        tr = os.path.join(self.work, name + '.ndjson')
        with open(tr, 'w', encoding='utf-8') as f:
            f.write('\n'.join(lines) + '\n')
        out_file = os.path.join(self.work, name + '.json')
        rc, out = tlc(self.work, name, self.spec['trace'], self.trace_cfg(), timeout=800 if self.tier == 'quick' else 4 * 3600,
                      env={'TRACE': tr, 'OUT': out_file, 'TIER': self.tier}, heap='3g')
        if rc != 0 or not os.path.exists(out_file):
            return None, out, (0, 0)
        with open(out_file, encoding='utf-8') as f:
            res = json.load(f)
        if res['consumed'] != len(lines):
            return None, 'consumed %s of %s' % (res['consumed'], len(lines)), (0, 0)
        return [(b[0] - 1, b[1]) for b in res['bad']], out, states_of(out)

    def validate_robust(self, name, lines, depth=0):
        """A record TLC cannot evaluate is an observation outside the specified types: report it, go on after it."""
        bad, out, st = self.validate(name, lines)
        if bad is not None:
            return bad, st, None
        at = [int(x) for x in re.findall(r'^(?:/\\ )?tl = (\d+)', out, re.M)]
        if not at or 'Parsing or semantic analysis failed' in out:
            raise MachineryError('trace validation could not run\n' + out[-3000:])
        i = at[-1] - 1
        res, err = [(i, ['observation-outside-the-specified-types'])], out
        groups = group_by_sid(lines)
        n, rest = 0, []
        for g in groups:
            if n > i:
                rest += g
            n += len(g)
        if i > 0:
            b, s1, _ = self.validate(name + 'p', lines[:i])
            res = (b or []) + res
        if rest and depth < 2:
            b, s2, _ = self.validate_robust(name + 'r', rest, depth + 1)
            res += [(k + len(lines) - len(rest), c) for k, c in b]
        return res, st, err

    # -------------------------------------------------------------------------------
    def run(self):
        t0 = time.time()
        try:
            return self._run(t0)
        finally:
            shutil.rmtree(self.work, ignore_errors=True)

    def _run(self, t0):
        spec = self.spec
        nsh = spec.get('shards', 2) if not self.replay else 1
        with cf.ThreadPoolExecutor(8) as ex:
            mcs = [] if self.replay else [ex.submit(self.model_check, i, m) for i, m in enumerate(spec.get('mc', ()))]
            gens = {}
            for f in [ex.submit(self.generate, i, g) for i, g in enumerate(spec.get('gen', ()))]:
                name, path, gen, dis = f.result()
                gens[name] = path
                self.notes.append('generator %s: %d states generated, %d distinct' % (name, gen, dis))
            runs = [f.result() for f in [ex.submit(self.execute, s, nsh, gens) for s in range(nsh)]]
            lines, scen = [], {}
            for shard, (rc, text, out) in enumerate(runs):
                got = open(out, encoding='utf-8').read().split('\n') if os.path.exists(out) else []
                got = [x for x in got if x]
                done = bool(got) and got[-1].startswith('{"k":"end"')
                if not done and rc is not None and 'HARNESS-FAULT' in text:
                    raise MachineryError('harness fault (rc=%s)\n%s' % (rc, text[-3000:]))
                if done:
                    got = got[:-1]
                else:
                    # the implementation ended or blocked the interpreter: an observation, not a machinery fault
                    got = [x for x in got if x.endswith('}')]
                    sid = json.loads(got[-1])['sid'] if got else -2
                    got.append(json.dumps({'k': 'crash', 'sid': sid, 'exc': 'process ended rc=%s: %s' % (rc, text[-1500:])}))
                lines += got
            if not lines:
                raise MachineryError('no observations')
            chunks = split(lines, spec.get('jobs', JOBS))
            vals = [ex.submit(self.validate_robust, 'tr%d' % i, c) for i, c in enumerate(chunks)]
            bad, base, tstates, errs = [], 0, 0, []
            for c, f in zip(chunks, vals):
                b, st, err = f.result()
                bad += [(base + i, cl) for i, cl in b]
                base += len(c)
                tstates += st[1]
                if err:
                    errs.append(err)
            if errs and os.environ.get('VERIF_DEBUG'):
                log(errs[0][-3000:])
            for m, gen, dis, dt in [f.result() for f in mcs]:
                self.states += dis
                self.transitions += gen
                self.notes.append('TLC %s: %d states generated, %d distinct, %.1f s, no error' % (m, gen, dis, dt))
        nh = len(group_by_sid(lines))
        self.notes.append('trace specification %s/%s: %d records in %d histories, %d states' % (
            spec['trace'], spec['judge'], len(lines), nh, tstates))
        known = load_known(self.pid)
        reported, rc = 0, 0
        suppressed = []
        for i, clauses in bad:
            r = json.loads(lines[i])
            k = next((k for k in known if matches(k, r, clauses)), None)
            if k is not None:
                if k['what'] not in suppressed:
                    suppressed.append(k['what'])
                    log('KNOWN-FINDING: property=%s %s' % (self.pid, k['what']))
                continue
            reported += 1
            if reported <= 5:
                path = self.write_replay(reported, r, clauses, lines)
                log('VIOLATION property=%s replay=%s' % (self.pid, path))
                log('  clauses: %s' % ', '.join(clauses))
                log('  record: %s' % lines[i][:1500])
            rc = 1
        if reported > 5:
            log('  ... %d violating records in total' % reported)
        if errs:
            log(errs[0][-1500:])
        if not self.replay:
            self.evidence(t0, len(lines), nh, tstates, reported, lines, rc)
        log('%s %s: %d histories, %d records, model %d states; %.1f s; %s' % (
            self.pid, self.tier, nh, len(lines), self.states, time.time() - t0, 'VIOLATED' if rc else 'held'))
        return rc

    def write_replay(self, n, r, clauses, lines):
        d = os.path.join(VERIF, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%d.json' % (self.pid, n))
        with open(path, 'w', encoding='utf-8') as f:
            json.dump({'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'clauses': clauses, 'sid': r.get('sid'),
                       'record': r}, f, ensure_ascii=True, indent=1)
        return path

    def evidence(self, t0, nrec, nh, tstates, viol, lines, rc):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        samp = []
        for x in (lines[0], lines[len(lines) // 2], lines[-1]):
            samp.append(x[:1200])
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': 'model_checking',
              'coverage': {'states': self.states, 'transitions': self.transitions, 'traces_validated_against_impl': nh,
                           'trace_records': nrec, 'trace_states': tstates, 'samples': samp, 'runs': self.notes,
                           'exhaustive': False},
              'assumptions': self.spec.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': viol}
        with open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)


def group_by_sid(lines):
    groups, last = [], None
    for x in lines:
        m = re.match(r'\{"k": ?"[^"]*", ?"sid": ?(-?\d+)', x)
        sid = m.group(1) if m else None
        if not groups or sid != last:
            groups.append([])
        groups[-1].append(x)
        last = sid
    return groups


def split(lines, n):
    groups = group_by_sid(lines)
    total = sum(map(len, lines))
    n = max(1, min(n, total // 100000 + 1, len(groups)))
    out, cur, size = [], [], 0
    for g in groups:
        cur += g
        size += sum(map(len, g))
        if size >= total / n and len(out) < n - 1:
            out.append(cur)
            cur, size = [], 0
    if cur:
        out.append(cur)
    return out


def load_known(pid):
    path = os.path.join(VERIF, 'KNOWN_FINDINGS.json')
    if not os.path.exists(path):
        return []
    with open(path) as f:
        return [k for k in json.load(f).get('known', []) if k['property'] == pid]


def matches(k, r, clauses):
    if not set(clauses) <= set(k['clauses']):
        return False
    return all(r.get(key) == v for key, v in k['match'].items())
