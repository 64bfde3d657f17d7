#!/usr/bin/env python3
"""Decide one property: extract the real functions, attach the contracts, let
Verus discharge every obligation; run the bounded stand-in (executable form of
the same contracts against the compiled crate) to find or confirm inputs.

  run.py PID [--tier quick|thorough]     run the check of one property
  run.py --rebaseline                    rewrite specs/baseline.* (unchanged tree only)
  run.py --setup                         build everything once
"""
import concurrent.futures as cf
import hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VX_REPO', '/repo')
BUILD = os.path.join(V, 'build')
TGT = os.path.join(BUILD, 'target')
SPECS = os.path.join(V, 'specs')
sys.path.insert(0, V)
from props import PROPS, UNITS  # noqa: E402

ENV = dict(os.environ)
ENV.update({'HOME': '/root', 'PATH': '/root/.cargo/bin:/usr/local/cargo/bin:' + os.environ.get('PATH', ''),
            'CARGO_NET_OFFLINE': 'true', 'CARGO_TERM_COLOR': 'never', 'CARGO_INCREMENTAL': '0', 'RUSTC_WRAPPER': ''})
ENV.pop('CARGO_PROFILE_DEV_DEBUG', None)
ENV['RUSTUP_TOOLCHAIN'] = 'stable-x86_64-unknown-linux-gnu'
HOOK_ENV = dict(ENV)
HOOK_ENV['RUSTC_BOOTSTRAP'] = 'vimwiki_core'
HOOK_ENV['RUSTFLAGS'] = '--cfg vimwiki_verif'
TGT_CLI = os.path.join(BUILD, 'target_cli')
CLI_ENV = dict(HOOK_ENV)
CLI_ENV['RUSTC_BOOTSTRAP'] = 'vimwiki_core,vimwiki_cli'
NOHOOK_ENV = dict(ENV)
NOHOOK_ENV['RUSTC_BOOTSTRAP'] = 'vimwiki_core'


def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors='replace', **kw)


# ---------------------------------------------------------------- building
def build_vx():
    r = sh(['cargo', 'build', '--offline', '--target-dir', os.path.join(BUILD, 'vx')], cwd=os.path.join(V, 'tools/vx'), env=ENV)
    if r.returncode != 0:
        raise RuntimeError('vx does not build:\n' + r.stderr[-3000:])
    return os.path.join(BUILD, 'vx/debug/vx')


def build_replay():
    """returns (binary or None, env used, note)"""
    cwd = os.path.join(V, 'tools/replay')
    note = ''
    r = sh(['cargo', 'build', '--offline', '--target-dir', TGT], cwd=cwd, env=HOOK_ENV)
    env = HOOK_ENV
    if r.returncode != 0:
        note = 'harness built without the hooks (the hook module does not compile on this tree)'
        err1 = r.stderr
        r = sh(['cargo', 'build', '--offline', '--target-dir', TGT, '--no-default-features'], cwd=cwd, env=NOHOOK_ENV)
        env = NOHOOK_ENV
        if r.returncode != 0:
            return None, env, 'the replay harness does not build:\n' + err1[-1500:] + '\n' + r.stderr[-1500:]
    return os.path.join(TGT, 'debug/replay'), env, note


def build_cli():
    """the harness of the command line tool, and the closure types of the tool"""
    cwd = os.path.join(V, 'tools/replay_cli')
    r = sh(['cargo', 'build', '--offline', '--target-dir', TGT_CLI], cwd=cwd, env=CLI_ENV)
    if r.returncode != 0:
        return None, CLI_ENV, 'the harness of the tool does not build:\n' + r.stderr[-1500:]
    return os.path.join(TGT_CLI, 'debug/replay_cli'), CLI_ENV, ''


def dump_cli_mir():
    p = os.path.join(BUILD, 'vimwiki-cli.mir')
    r = sh(['cargo', 'rustc', '--offline', '--target-dir', TGT_CLI, '-p', 'vimwiki-cli', '--lib', '--', '-C', 'opt-level=0', '-Zunpretty=mir'],
           cwd=os.path.join(V, 'tools/replay_cli'), env=CLI_ENV)
    with open(p, 'w') as f:
        f.write(r.stdout)
    return p


def dump_mir(env):
    """closure parameter types, from rustc's own MIR of the crate under test"""
    out = {}
    for pkg, kind in (('vimwiki-core', '--lib'),):
        p = os.path.join(BUILD, f'{pkg}.mir')
        r = sh(['cargo', 'rustc', '--offline', '--target-dir', TGT, '-p', pkg, kind, '--', '-C', 'opt-level=0', '-Zunpretty=mir'],
               cwd=os.path.join(V, 'tools/replay'), env=env)
        with open(p, 'w') as f:
            f.write(r.stdout)
        out[pkg] = p
    return out['vimwiki-core']


# ---------------------------------------------------------------- verus
def base_line():
    try:
        return json.load(open(os.path.join(SPECS, 'baseline.json')))
    except FileNotFoundError:
        return {}


class Unit:
    """one extracted Verus crate"""

    def __init__(self, name, vx, mir, tag=''):
        self.name, self.vx, self.mir, self.tag = name, vx, mir, tag
        self.demoted = {}
        self.cmds = []
        self.problems = []

    def extract(self, suffix='', only=None, probe=False):
        rs = os.path.join(BUILD, f'{self.name}{self.tag}{suffix}.rs')
        js = rs[:-3] + '.json'
        cmd = [self.vx, os.path.join(SPECS, self.name + '.spec'), REPO, self.mir, rs, js,
               'demote=' + ';'.join(sorted(self.demoted)), 'base=' + os.path.join(SPECS, 'baseline.tsv')]
        if only is not None:
            cmd.append('only=' + ';'.join(sorted(only)))
        if probe:
            cmd.append('probe=1')
        r = sh(cmd)
        if r.returncode != 0:
            raise Undecided(f'extraction of {self.name} failed: {r.stderr[-800:]}')
        return rs, json.load(open(js))

    def verus(self, rs, info, timeout, errs=3):
        cmd = ['verus', os.path.basename(rs), '--rlimit', '25', '--multiple-errors', str(errs), '--triggers-mode', 'silent',
               '--error-format=json', '--output-json', '--time', '--num-threads', '4']
        self.cmds.append(' '.join(cmd))
        try:
            r = sh(cmd, cwd=BUILD, timeout=timeout)
        except subprocess.TimeoutExpired:
            return {'timeout': True, 'front': [], 'errors': [], 'verified': 0, 'failed': 0, 'funcs': [], 'smt_ms': 0}
        try:
            oj = json.loads(r.stdout[r.stdout.index('{'):])
        except Exception:
            oj = {}
        res = oj.get('verification-results', {})
        funcs = []
        smt = oj.get('times-ms', {}).get('smt', {})
        for m in smt.get('smt-run-module-times', []):
            funcs += m.get('function-breakdown', [])
        diags = []
        for line in r.stderr.splitlines():
            if line.startswith('{'):
                try:
                    d = json.loads(line)
                except Exception:
                    continue
                if d.get('level') == 'error' and d.get('spans'):
                    diags.append(d)
                elif d.get('level') == 'error' and not d['message'].startswith('aborting'):
                    diags.append(d)
        ran = 'verified' in res and not res.get('encountered-vir-error')
        errors, front = [], []
        text = open(rs).read().split('\n')
        for d in diags:
            k = self.locate(info, d, rs)
            msg = d['message']
            code = (d.get('code') or {}).get('code') if d.get('code') else None
            spans = [(os.path.basename(s['file_name']), s['line_start'], (s.get('label') or ''), s['is_primary']) for s in d['spans']]
            src = ''
            for s in d['spans']:
                if s['is_primary'] and os.path.basename(s['file_name']) == os.path.basename(rs):
                    src = text[s['line_start'] - 1].strip()
            e = {'fn': k, 'message': msg, 'source': src, 'rendered': d.get('rendered', ''), 'clause': self.clause(d, rs, text)}
            if ran and code is None and res.get('errors', 0) > 0 and not re.search(r'not supported|unsupported|is not allowed', msg):
                errors.append(e)
            else:
                front.append(e)
        if not ran and not front:
            front.append({'fn': None, 'message': 'verus gave no result: ' + r.stderr[-600:], 'source': '', 'rendered': r.stderr[-2000:], 'clause': ''})
        return {'timeout': False, 'front': front, 'errors': errors, 'verified': res.get('verified', 0), 'failed': res.get('errors', 0),
                'funcs': funcs, 'smt_ms': smt.get('total', 0), 'wall_ms': oj.get('times-ms', {}).get('total', 0)}

    @staticmethod
    def clause(d, rs, text):
        for s in d['spans']:
            if os.path.basename(s['file_name']) == os.path.basename(rs) and s.get('label') and 'failed' in s['label']:
                return ' '.join(text[s['line_start'] - 1:s['line_end']]).strip()[:400]
        return ''

    @staticmethod
    def locate(info, d, rs):
        """the function a diagnostic belongs to: prefer verified copies"""
        lines = [s['line_start'] for s in sorted(d['spans'], key=lambda s: not s['is_primary']) if os.path.basename(s['file_name']) == os.path.basename(rs)]
        for want in ('impl', None):
            for ln in lines:
                for f in info['functions']:
                    if f['gen_start'] <= ln < f['gen_end'] and (want is None or f['kind'] == want):
                        return f['file'] + '::' + f['key'] if want else 'stub:' + f['file'] + '::' + f['key']
        return None

    def run(self, shards, timeout, base):
        """verify, demoting functions the front end cannot take"""
        t0 = time.time()
        for rnd in range(8):
            rs, info = self.extract()
            impls = [f for f in info['functions'] if f['kind'] == 'impl']
            keys = [f['key'] for f in impls]
            if shards <= 1:
                parts = [None]
            else:
                w = {f['key']: base.get(self.name, {}).get(f['file'] + '::' + f['key'], {}).get('ms', 50) + 20 for f in impls}
                parts = [[] for _ in range(shards)]
                load = [0] * shards
                for k in sorted(set(keys), key=lambda k: (-w[k], k)):
                    i = load.index(min(load))
                    parts[i].append(k)
                    load[i] += w[k]
                parts = [p for p in parts if p]
            outs = []

            def one(i):
                if parts[i] is None:
                    return self.verus(rs, info, timeout)
                r2, i2 = self.extract(suffix=f'_s{i}', only=parts[i])
                return self.verus(r2, i2, timeout)
            with cf.ThreadPoolExecutor(max_workers=max(1, len(parts))) as ex:
                outs = list(ex.map(one, range(len(parts))))
            front = [e for o in outs for e in o['front']]
            if front:
                bad = {}
                for e in front:
                    if e['fn']:
                        k = e['fn'].replace('stub:', '').split('::', 1)[1]
                        bad[k] = e['message'][:200]
                new = {k: v for k, v in bad.items() if k not in self.demoted}
                if not new:
                    raise Undecided(f'unit {self.name}: the verifier front end rejects the extraction: ' + front[0]['message'][:300] + ' | ' + front[0]['source'][:200])
                self.demoted.update(new)
                continue
            break
        else:
            raise Undecided(f'unit {self.name}: too many rejected functions')
        self.info = info
        self.problems = info['problems']
        self.impls = impls
        self.outs = outs
        self.errors = [e for o in outs for e in o['errors']]
        self.timeout = any(o['timeout'] for o in outs)
        self.smt_ms = sum(o['smt_ms'] for o in outs)
        fb = {}
        for o in outs:
            for f in o['funcs']:
                fb[f['function']] = f
        self.funcs = fb
        self.obl = len(fb)
        self.ok = sum(1 for f in fb.values() if f.get('success'))
        self.wall = time.time() - t0
        return self

    def probe(self, timeout):
        """vacuity: with `false` added to every postcondition every function must fail"""
        rs, info = self.extract(suffix='_probe', probe=True)
        o = self.verus(rs, info, timeout, errs=0)
        failed = {e['fn'] for e in o['errors']}
        vac = [f['file'] + '::' + f['key'] for f in info['functions'] if f['kind'] == 'impl' and f['file'] + '::' + f['key'] not in failed]
        return vac, len([f for f in info['functions'] if f['kind'] == 'impl']), o['timeout']


class Undecided(Exception):
    pass


def shape(f):
    return {'calls': f['calls'], 'heads': f['heads'], 'closures': f['closures']}


def raw_assumptions(rs):
    """assumed contracts in the generated crate outside extracted functions"""
    t = open(rs).read()
    t = re.sub(r'//@@ (STUB|IMPL) .*', '', t)
    a = sorted(set(re.findall(r'assume_specification\s*(?:<[^\[]*>)?\s*\[\s*([^\]]+?)\s*\]', t)))
    ext = sorted(set(re.findall(r'external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub )?(?:broadcast )?(?:exec |proof )?fn (\w+)', open(rs).read())))
    ax = sorted(set(re.findall(r'(?:axiom|admit)\s*fn (\w+)', t)))
    return a, ext, ax


# ---------------------------------------------------------------- bounded stand-in
def run_jailed(binary, pid, ms, seed, thorough, threads):
    """the tool writes and removes files: run it as an unprivileged user who owns nothing but a scratch directory"""
    top = tempfile.mkdtemp(prefix='vw-')
    try:
        os.chmod(top, 0o755)
        for x in ('s', 'o'):
            os.makedirs(os.path.join(top, x))
        b = os.path.join(top, 'replay_cli')
        shutil.copy(binary, b)
        os.chmod(b, 0o755)
        for x in ('s', 'o'):
            os.chown(os.path.join(top, x), 65534, 65534)
        cmd = ['setpriv', '--reuid=65534', '--regid=65534', '--clear-groups', 'env', '-i', 'PATH=/usr/bin:/bin', f'HOME={top}/s', f'REPLAY_SCRATCH={top}/s']
        t = sh(cmd + ['id', '-u'])
        if t.returncode != 0 or t.stdout.strip() != '65534':
            return {'error': 'cannot become an unprivileged user here: the tool was not run', 'violations': [], 'evaluations': 0, 'samples': [], 'known': []}
        cmd += [b, pid, '--ms', str(ms), '--seed', str(seed), '--threads', str(threads), '--dir', f'{top}/o'] + (['--thorough'] if thorough else [])
        ks = [k['match'] for k in known_findings(pid) if k.get('match')]
        if ks:
            with open(f'{top}/known.txt', 'w') as f:
                f.write('\n'.join(ks) + '\n')
            os.chmod(f'{top}/known.txt', 0o644)
            cmd += ['--known', f'{top}/known.txt']
        with open(f'{top}/out', 'w') as out, open(f'{top}/err', 'w') as err:
            try:
                rc = subprocess.run(cmd, stdout=out, stderr=err, stdin=subprocess.DEVNULL, cwd=f'{top}/s', timeout=ms / 1000 + 120).returncode
            except subprocess.TimeoutExpired:
                return {'error': 'the bounded run did not end', 'violations': [], 'evaluations': 0, 'samples': [], 'known': []}
        if os.path.exists(f'{top}/o/result.json'):
            return json.load(open(f'{top}/o/result.json'))
        res = {'error': f'harness ended with {rc}: {open(top + "/err", errors="replace").read()[-400:]}', 'violations': [], 'evaluations': 0, 'samples': [], 'known': []}
        for n in sorted(os.listdir(f'{top}/o')):
            if n.startswith('cur-'):
                try:
                    q = sh(cmd[:9] + [b, pid, '--case', f'{top}/o/{n}'], cwd=f'{top}/s', timeout=60)
                    if q.returncode != 0:
                        res['violations'].append({'input': open(f'{top}/o/{n}', errors='replace').read(), 'message': f'process ended with {q.returncode}: {q.stderr[-300:]}'})
                except subprocess.TimeoutExpired:
                    res['violations'].append({'input': open(f'{top}/o/{n}', errors='replace').read(), 'message': 'does not end'})
        return res
    finally:
        shutil.rmtree(top, ignore_errors=True)


def run_replay(binary, pid, ms, seed, thorough, threads=6, timeout=None):
    if PROPS[pid].get('harness') == 'cli':
        return run_jailed(binary, pid, ms, seed, thorough, threads)
    d = os.path.join(BUILD, 'replay-' + pid)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    cmd = [binary, pid, '--ms', str(ms), '--seed', str(seed), '--threads', str(threads), '--dir', d]
    if thorough:
        cmd.append('--thorough')
    ks = [k['match'] for k in known_findings(pid) if k.get('match')]
    if ks:
        with open(os.path.join(d, 'known.txt'), 'w') as f:
            f.write('\n'.join(ks) + '\n')
        cmd += ['--known', os.path.join(d, 'known.txt')]
    try:
        r = sh(cmd, cwd=d, timeout=timeout or (ms / 1000 + 120))
    except subprocess.TimeoutExpired:
        return {'error': 'the bounded run did not end', 'violations': [], 'evaluations': 0, 'samples': [], 'known': []}
    p = os.path.join(d, 'result.json')
    if os.path.exists(p):
        return json.load(open(p))
    # crashed (stack overflow, abort): the current case of some thread is the input
    out = {'error': f'harness ended with {r.returncode}: {r.stderr[-400:]}', 'violations': [], 'evaluations': 0, 'samples': [], 'known': []}
    for n in sorted(os.listdir(d)):
        if n.startswith('cur-'):
            try:
                c = open(os.path.join(d, n), errors='replace').read()
                q = sh([binary, pid, '--case', os.path.join(d, n)], cwd=d, timeout=60)
                if q.returncode not in (0,):
                    out['violations'].append({'input': c, 'message': f'process ended with {q.returncode}: {q.stdout[-300:]} {q.stderr[-300:]}'})
            except subprocess.TimeoutExpired:
                out['violations'].append({'input': c, 'message': 'does not end'})
    return out


def known_findings(pid):
    p = os.path.join(V, 'known-findings.json')
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p))['findings'] if k['property'] == pid and k['status'] == 'known']


# ---------------------------------------------------------------- the check
def main():
    a = sys.argv[1:]
    os.makedirs(BUILD, exist_ok=True)
    if a[:1] == ['--setup']:
        build_vx()
        b, env, note = build_replay()
        if b is None:
            print(note)
            return 1
        b, env, note = build_cli()
        if b is None:
            print(note)
            return 1
        return 0
    if a[:1] == ['--rebaseline']:
        return rebaseline(a[1:])
    pid = a[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        tier = a[a.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    t0 = time.time()
    thorough = tier == 'thorough'
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        fvx = ex.submit(build_vx)
        frp = ex.submit(build_cli if P.get('harness') == 'cli' else build_replay)
        binary, env, bnote = frp.result()
        if binary is None:
            print(bnote)
            return 2
        mir = dump_cli_mir() if P.get('harness') == 'cli' else dump_mir(env)
        vx = fvx.result()
    ms = P.get('ms', 12000) if not thorough else P.get('ms_thorough', 180000)
    base = base_line()
    units, undecided, failures, notes = [], [], [], []
    if bnote:
        notes.append(bnote)
    vac_note = []
    with cf.ThreadPoolExecutor(max_workers=8) as ex:
        jobs = []
        nu = len(P['units'])
        for u in P['units']:
            U = Unit(u, vx, mir)
            sh_n = UNITS.get(u, {}).get('shards', 1)
            jobs.append((U, ex.submit(U.run, sh_n, 400 if not thorough else 1500, base)))
        rep = ex.submit(run_replay, binary, pid, ms, seed, thorough, P.get('threads', 4)) if P.get('replay', True) else None
        for U, j in jobs:
            try:
                units.append(j.result())
            except Undecided as e:
                undecided.append(str(e))
        if thorough:
            for U in units:
                try:
                    vac, n, to = U.probe(1500)
                    vac_note.append({'unit': U.name, 'functions_probed': n, 'vacuous': vac, 'timeout': to})
                except Exception as e:
                    vac_note.append({'unit': U.name, 'error': str(e)[:300]})
        R = rep.result() if rep else {'violations': [], 'evaluations': 0, 'samples': [], 'known': []}

    # ---- read the verifier's answer
    for U in units:
        for k, why in U.demoted.items():
            undecided.append(f'{U.name}: {k} is outside the verifier\'s subset on this tree ({why}); left to the bounded run')
        for p in U.problems:
            undecided.append(f'{U.name}: {p}')
        if U.timeout:
            undecided.append(f'{U.name}: verifier timed out')
        bad = [e for e in U.errors]
        b0 = UNITS.get(U.name, {}).get('base')
        if bad and b0:
            # obligations that fail for the weaker contract as well belong to the other property
            try:
                B = Unit(b0, vx, mir, tag='_base')
                B.demoted = dict(U.demoted)
                keys = {e['fn'].split('::', 1)[1] for e in bad if e['fn']}
                rs, info = B.extract(only=keys)
                o = B.verus(rs, info, 400)
                seen = {(e['fn'], e['message'], e['source']) for e in o['errors']}
                drop = [e for e in bad if (e['fn'], e['message'], e['source']) in seen]
                for e in drop:
                    notes.append(f'obligation of {e["fn"]} also fails for {b0}: judged by that property\'s check')
                bad = [e for e in bad if (e['fn'], e['message'], e['source']) not in seen]
            except Exception as e:
                notes.append(f'base run of {b0} failed: {e}')
        for e in bad:
            rl = 'rlimit' in e['message'].lower() or 'resource limit' in e['message'].lower()
            if e['fn'] is None or e['fn'].startswith('stub:'):
                undecided.append(f'{U.name}: a support lemma is not discharged ({e["message"]}: {e["source"]})')
                continue
            if rl:
                undecided.append(f'{U.name}: {e["fn"]}: resource limit')
                continue
            f = next(f for f in U.impls if f['file'] + '::' + f['key'] == e['fn'])
            bf = base.get(U.name, {}).get(e['fn'])
            if bf is None:
                undecided.append(f'{U.name}: {e["fn"]} is new since the contracts were written: {e["message"]}')
                continue
            if shape(f) != {x: bf[x] for x in ('calls', 'heads', 'closures')}:
                undecided.append(f'{U.name}: {e["fn"]}: {e["message"]} (calls or loops changed since the contract was written: not judged)')
                notes.append(f'undischarged in {e["fn"]}: {e["message"]} at `{e["source"]}`')
                continue
            failures.append((U, e))
    only = P.get('fns')
    if only:
        keep = [(U, e) for U, e in failures if re.search(only, e['fn'])]
        for U, e in failures:
            if (U, e) not in keep:
                notes.append(f'obligation of {e["fn"]} failed; it is judged by another property\'s check')
        failures = keep

    if P.get('crash_only'):
        # only obligations whose failure is a crash (preconditions of calls, arithmetic, bounds, unreachable code);
        # what a function computes is judged by the property whose unit this is
        keep = [(U, e) for U, e in failures if not re.search('postcondition|invariant|ensures', e['message'])]
        for U, e in failures:
            if (U, e) not in keep:
                undecided.append(f'{U.name}: {e["fn"]}: {e["message"]}: judged by the property that states it')
        failures = keep

    # ---- report
    rc = 0
    rdir = os.path.join(BUILD, 'replays')
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    for k in known_findings(pid):
        print(f'KNOWN-FINDING: property={pid} {k["what"]}')
    for v in R.get('violations', [])[:3]:
        h = hashlib.sha1(v['input'].encode()).hexdigest()[:10]
        p = os.path.join(rdir, f'{pid}-{h}.json')
        named = [f'{U.name}: {e["fn"]}: {e["message"]} at `{e["source"]}` [{e["clause"]}]' for U, e in failures[:10]]
        json.dump({'property': pid, 'input': v['input'], 'observed': v['message'], 'failed_obligations': named,
                   'rerun': f'{binary} {pid} --case FILE   (FILE holds the input verbatim)'}, open(p, 'w'), indent=1)
        with open(p[:-5] + '.case', 'w') as f:
            f.write(v['input'])
        print(f'  input {v["input"]!r:.300}\n  {v["message"]:.300}')
        for n in named[:3]:
            print('  failed obligation: ' + n)
        print(f'VIOLATION property={pid} replay={p}')
        nviol += 1
        rc = 1
    if failures and not nviol:
        U, e = failures[0]
        h = hashlib.sha1((e['fn'] + e['message']).encode()).hexdigest()[:10]
        p = os.path.join(rdir, f'{pid}-obl-{h}.json')
        json.dump({'property': pid, 'input': None, 'failed_obligations': [
            {'unit': U.name, 'function': e['fn'], 'obligation': e['message'], 'at': e['source'], 'clause': e['clause'], 'verifier_output': e['rendered']}
            for U, e in failures]}, open(p, 'w'), indent=1)
        for U, e in failures[:5]:
            print(f'  failed obligation: {U.name}: {e["fn"]}: {e["message"]} at `{e["source"]}` [{e["clause"]}]')
        print(f'VIOLATION property={pid} replay={p} no-failing-input-found')
        nviol += 1
        rc = 1
    if R.get('error') and not R['violations']:
        undecided.append('bounded run: ' + R['error'])
    for u in undecided[:20]:
        print('undecided: ' + u[:300])

    # ---- evidence
    ev_dir = os.path.join(V, 'evidence')
    os.makedirs(ev_dir, exist_ok=True)
    fn_list, trusted, assumed = [], [], set()
    for U in units:
        for f in U.impls:
            fn_list.append(f'{f["file"]}:{f["line"]} {f["key"]}')
        trusted += [f'{f["file"]}::{f["key"]} (contract assumed)' for f in U.info['functions'] if f['kind'] == 'trusted']
        a_, ext_, ax_ = raw_assumptions(os.path.join(BUILD, U.name + '.rs'))
        stub_names = {f['name'] for f in U.info['functions']}
        assumed |= {f'assumed std contract: {x}' for x in a_}
        assumed |= {f'assumed model/lemma: {x}' for x in ext_ if x not in stub_names}
        assumed |= {f'axiom: {x}' for x in ax_}
    tb = ['Verus 0.2026.09.13 with Z3 (SMT back end)', 'the extractor tools/vx and its edits (DESIGN.md)', 'rustc, for closure parameter types read from MIR'] + sorted(set(trusted)) + sorted(assumed)
    cov = {
        'obligations': sum(U.obl for U in units), 'discharged': sum(U.ok for U in units),
        'checker_cmd': '; '.join(sorted({c for U in units for c in U.cmds}))[:1500] or 'none',
        'trusted_base': tb,
        'functions_under_contract': fn_list, 'functions_under_contract_count': len(fn_list),
        'backend': 'z3 through Verus', 'solver_ms': sum(U.smt_ms for U in units),
        'verifier_wall_s': round(sum(U.wall for U in units), 1),
        'slowest_functions_ms': sorted(([f['function'], f['time']] for U in units for f in U.funcs.values()), key=lambda x: -x[1])[:8],
        'undecided': undecided, 'notes': notes,
        'failed_obligations': [f'{e["fn"]}: {e["message"]}' for _, e in failures],
        'evaluations': R.get('evaluations', 0), 'samples': R.get('samples', [])[:8],
        'bounded': {'label': 'bounded stand-in, never counted as proved', 'fixed_cases': R.get('fixed', 0), 'fixed_enumeration_complete': R.get('fixed_complete', False),
                    'wall_ms': R.get('wall_ms', 0), 'covers': P.get('bounded_covers', ''), 'known_hits': R.get('known', [])},
        'explanation': P['explanation'],
    }
    if vac_note:
        cov['vacuity_probe'] = vac_note
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': P['level'], 'coverage': cov,
          'assumptions': P.get('assumptions', []), 'wall_s': round(time.time() - t0, 1), 'violations': nviol}
    json.dump(ev, open(os.path.join(ev_dir, pid + '.json'), 'w'), indent=1)
    print(f'{pid}: {cov["discharged"]}/{cov["obligations"]} obligations discharged, {len(fn_list)} functions under contract, '
          f'{cov["evaluations"]} bounded evaluations, {len(undecided)} undecided, {ev["wall_s"]} s')
    return rc


def rebaseline(names):
    vx = build_vx()
    b, env, note = build_replay()
    mir = dump_mir(env)
    base = base_line()
    allu = sorted({u for p in PROPS.values() for u in p['units']})
    if any(UNITS.get(u, {}).get('mir') == 'cli' for u in names or allu):
        build_cli()
        cmir = dump_cli_mir()
    for u in names or allu:
        U = Unit(u, vx, cmir if UNITS.get(u, {}).get('mir') == 'cli' else mir)
        U.run(UNITS.get(u, {}).get('shards', 1), 1500, base)
        ms = {}
        for f in U.funcs.values():
            ms[f['function'].split('::')[-1]] = max(ms.get(f['function'].split('::')[-1], 0), f['time'])
        base[u] = {f['file'] + '::' + f['key']: {**shape(f), 'params': f['params'], 'ms': int(round(ms.get(f['name'], 50), -2))} for f in U.impls}
        print(u, U.ok, '/', U.obl, 'errors', len(U.errors), 'demoted', U.demoted, 'problems', U.problems, 'smt', U.smt_ms, 'wall', round(U.wall, 1))
        for e in U.errors[:5]:
            print('  ', e['fn'], e['message'], e['source'])
    for u in list(base):
        if u not in allu:
            del base[u]
    json.dump(base, open(os.path.join(SPECS, 'baseline.json'), 'w'), indent=0, sort_keys=True)
    rows = {}
    for u in base.values():
        for k, f in u.items():
            # key is FILE::KEY ; FILE contains no '::'
            fl, key = k.split('::', 1)
            rows[(fl, key)] = ','.join(f['params'])
    with open(os.path.join(SPECS, 'baseline.tsv'), 'w') as f:
        for (fl, key), p in sorted(rows.items()):
            f.write(f'{fl}\t{key}\t{p}\n')
    return 0


if __name__ == '__main__':
    sys.exit(main())
