#!/usr/bin/env python3
"""check.py <property>: build from /repo, run the monitor over its cases, write evidence, decide."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as B
import config

def sh_env(extra=None):
    e = {k: v for k, v in os.environ.items() if not k.startswith('GDX')}
    e.update({'ASAN_OPTIONS': 'detect_odr_violation=0:abort_on_error=0:exitcode=66:detect_leaks=1:allocator_may_return_null=1:detect_stack_use_after_return=1:symbolize=1:handle_abort=1',
              'UBSAN_OPTIONS': 'print_stacktrace=1:halt_on_error=1:exitcode=66',
              'TSAN_OPTIONS': 'exitcode=66:halt_on_error=1:second_deadlock_stack=1',
              'LSAN_OPTIONS': 'exitcode=66', 'LC_ALL': 'C'})
    e.update(extra or {})
    return e

def san_key(text):
    m = re.search(r'ERROR: (AddressSanitizer|LeakSanitizer|ThreadSanitizer|MemorySanitizer): ?([^\n]*)', text) or \
        re.search(r'WARNING: (ThreadSanitizer|MemorySanitizer): ?([^\n]*)', text)
    if m:
        kind = m.group(2).split(' on ')[0].split(' (pid')[0].strip()
        return 'sanitizer:'+m.group(1)+':'+re.sub(r'0x[0-9a-f]+', '', kind)[:80]
    m = re.search(r'runtime error: ([^\n]*)', text)
    if m:
        return 'sanitizer:UB:'+re.sub(r'0x[0-9a-f]+|-?\d+', 'N', m.group(1))[:100]
    if 'HANG:' in text: return 'hang'
    if 'Assertion' in text: return 'assertion'
    return 'crash'

def load_known(pid):
    kf = os.path.join(B.VERIF, 'known-findings.json')
    if not os.path.exists(kf): return []
    return [f for f in json.load(open(kf))['findings'] if f['property'] == pid and f.get('status') == 'known']

def cpu(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11])+int(f[12]))/os.sysconf('SC_CLK_TCK')
    except Exception: return 0.0

def run_shards(pid, cfg, binp, libdir, cases, seed, tier, scratch, env):
    nsh = cfg.get('shards', 8)
    results, viol = [], []
    def start(shard, frm):
        sd = os.path.join(scratch, 's%d' % shard)
        shutil.rmtree(sd, ignore_errors=True); os.makedirs(sd)
        out = os.path.join(scratch, 'out%d_%d.json' % (shard, frm))
        prog = os.path.join(scratch, 'prog%d' % shard)
        err = os.path.join(scratch, 'err%d_%d' % (shard, frm))
        cmd = [binp, '--seed', str(seed), '--from', str(frm), '--to', str(cases), '--stride', str(nsh), '--out', out,
               '--progress', prog, '--scratch', sd, '--libdir', libdir, '--tier', tier, '--cpu', str(cfg.get('cpu', 60))]
        p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=open(err, 'w'), stdin=subprocess.DEVNULL, env=env, cwd=sd, start_new_session=True)
        return dict(p=p, out=out, prog=prog, err=err, shard=shard, frm=frm, t=time.time())
    limit = cfg.get('wall', {}).get(tier, 520 if tier == 'quick' else 5400)
    t0 = time.time()
    live = [start(i, i) for i in range(min(nsh, cases))]
    restarts = hangs = 0
    while live:
        time.sleep(0.05)
        for s in list(live):
            rc = s['p'].poll()
            if rc is None:
                # a slow machine is no violation: finish early and report what was explored; a monitor that is blocked (no CPU use) is
                now = time.time()-t0
                if now > limit and 'term' not in s: s['term'] = cpu(s['p'].pid); os.kill(s['p'].pid, signal.SIGTERM)
                if now < limit+60: continue
                used = cpu(s['p'].pid)-s['term']
                os.killpg(s['p'].pid, signal.SIGKILL); s['p'].wait(); rc = 'blocked' if used < 0.5 and not cfg.get('tools') else 'slow'
                if rc == 'slow':
                    live.remove(s); print('note: shard %d did not finish within the time limit' % s['shard']); continue
            live.remove(s)
            if rc == 0:
                results.append(json.load(open(s['out'])))
                continue
            if rc == 99:
                print('HARNESS ERROR', open(s['err'], errors='replace').read()[-2000:]); sys.exit(3)
            txt = open(s['err'], errors='replace').read()
            try: case = int(open(s['prog']).read().split()[0])
            except Exception: case = s['frm']
            key = 'hang' if rc == 'blocked' else san_key(txt)
            i = max(txt.find('ERROR: '), txt.find('WARNING: '), 0) if 'runtime error' not in txt else txt.find('runtime error')
            viol.append(dict(case=case, key=key, msg='exit %s: %s' % (rc, txt[max(0, i-100):i+3500])))
            restarts += 1
            # leak reports come at process end: nothing left to run; otherwise go on after the failing case
            if rc != 'blocked' and key.startswith('sanitizer:LeakSanitizer') and os.path.exists(s['out']):
                results.append(json.load(open(s['out']))); continue
            hangs += key == 'hang'
            if rc != 'blocked' and restarts < 12 and hangs < 3 and time.time()-t0 < limit and case+nsh < cases:
                live.append(start(s['shard'], case+nsh))
    return results, viol

def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    only = None
    for i, a in enumerate(sys.argv):
        if a == '--tier': tier = sys.argv[i+1]
        if a == '--seed': seed = int(sys.argv[i+1])
        if a == '--case': only = int(sys.argv[i+1])
    cfg = config.CHECKS[pid]
    t0 = time.time()
    rp = os.path.join(B.VERIF, '.replay'); os.makedirs(rp, exist_ok=True)
    os.makedirs(os.path.join(B.VERIF, 'evidence'), exist_ok=True)
    try:
        if 'runner' in cfg:
            import importlib
            mod = importlib.import_module(cfg['runner'])
            scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid)
            try: res = mod.run(pid, cfg, tier, seed, scratch, only)
            finally: shutil.rmtree(scratch, ignore_errors=True)
        else:
            res = run_cpp(pid, cfg, tier, seed, only)
    except B.BuildError as e:
        print('BUILD ERROR', e); sys.exit(3)
    viol, ev = res['violations'], res['coverage']
    kn = load_known(pid)
    newv, seen = [], {}
    for v in viol:
        k = next((f for f in kn if re.search(f['match'], v['key']+' '+v['msg'])), None)
        if k: seen[k['id']] = k
        else: newv.append(v)
    for kid, msg in res.get('known', {}).items():
        k = next((f for f in kn if f['id'] == kid), None)
        if k: seen[kid] = k
        else: newv.append(dict(case=-1, key='unlisted-finding:'+kid, msg=msg))
    for k in seen.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    ev.setdefault('known_findings_seen', sorted(seen))
    rec = {'property': pid, 'tier': tier, 'seed': seed, 'level': cfg.get('level', 'exploration'), 'coverage': ev,
           'assumptions': cfg.get('assumptions', []), 'wall_s': round(time.time()-t0, 2), 'violations': len(newv)}
    json.dump(rec, open(os.path.join(B.VERIF, 'evidence', pid+'.json'), 'w'), indent=1)
    if newv:
        keys = {}
        for v in newv: keys.setdefault(v['key'], v)
        for k, v in list(keys.items())[:5]:
            path = os.path.join(rp, '%s_%s_%s.txt' % (pid, seed, re.sub(r'[^A-Za-z0-9]+', '_', k)[:40]))
            with open(path, 'w') as f:
                f.write('property %s seed %d tier %s case %s\nkey %s\n%s\n\nreplay: cd %s && python3 lib/check.py %s --tier %s --seed %d --case %s\n'
                        % (pid, seed, tier, v['case'], v['key'], v['msg'], B.VERIF, pid, tier, seed, v['case']))
            print('  %s: case %s: %s' % (k, v['case'], v['msg'][:1500].replace('\n', '\n    ')))
            print('VIOLATION property=%s replay=%s' % (pid, path))
        sys.exit(1)
    if not only and ev.get('distinct_nontrivial', 0) < 1:
        print('ERROR: nothing was observed'); sys.exit(3)
    print('OK property=%s evaluations=%s distinct=%s wall=%.1fs' % (pid, ev.get('evaluations'), ev.get('distinct_nontrivial'), rec['wall_s']))
    sys.exit(0)

def merge(results):
    counts, notes, nt, samples, known, viol, rule, cases = {}, {}, set(), [], {}, [], '', 0
    for r in results:
        cases += r['cases']; rule = r['rule']
        for k, v in r['counts'].items(): counts[k] = counts.get(k, 0)+v
        for k, v in r['notes'].items(): notes.setdefault(k, set()).update(v)
        nt.update(r['nontrivial'])
        samples += r['samples']
        known.update(r['known'])
        viol += r['violations']
    cov = {'evaluations': cases, 'distinct_nontrivial': len(nt), 'rule': rule, 'samples': samples[:6], 'observed': counts,
           'distinct_observed': {k: len(v) for k, v in notes.items()}}
    return cov, known, viol

def run_cpp(pid, cfg, tier, seed, only):
    scratch = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        allres, allviol, builds = [], [], []
        for part in cfg.get('parts') or [cfg]:
            fl = part.get('flavor', 'asan')
            b = B.build(part['monitor'], fl, tools=part.get('tools', ()), internal=part.get('internal', False), lib=not part.get('internal', False), extra=part.get('extra', ()))
            builds.append(b['build_s'])
            cases = part['cases'][tier]
            sc = os.path.join(scratch, part['monitor']+fl); os.makedirs(sc)
            env = sh_env(part.get('env'))
            if only is not None:
                p = subprocess.run([b['bin'], '--seed', str(seed), '--from', str(only), '--to', str(only+1), '--scratch', sc, '--libdir', b['libdir'], '--out', sc+'/o.json', '--tier', tier],
                                   stdout=subprocess.DEVNULL, env=env, cwd=sc, stderr=subprocess.PIPE, text=True, errors='replace')
                if p.returncode == 0: allres.append(json.load(open(sc+'/o.json')))
                else: allviol.append(dict(case=only, key=san_key(p.stderr), msg=p.stderr[-6000:]))
                continue
            r, v = run_shards(pid, part, b['bin'], b['libdir'], cases, seed, tier, sc, env)
            allres += r; allviol += v
        cov, known, viol = merge(allres)
        cov['build_s'] = builds
        return {'violations': allviol+viol, 'coverage': cov, 'known': known}
    finally:
        shutil.rmtree(scratch, ignore_errors=True)

if __name__ == '__main__':
    main()
