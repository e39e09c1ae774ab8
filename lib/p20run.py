"""P20: the same sessions in processes with different surroundings; files must be equal byte for byte."""
import glob, json, os, subprocess
import build as B
VARIANTS = {  # variant -> environment
 0: dict(opts='max_malloc_fill_size=4096:malloc_fill_byte=0', env={}),
 1: dict(opts='max_malloc_fill_size=1000000:malloc_fill_byte=165', env={'TZ': 'Asia/Tokyo', 'HOME': '/nonexistent'}),
 2: dict(opts='max_malloc_fill_size=1000000:malloc_fill_byte=90', env={'LC_ALL': 'C.utf8', 'LANG': 'de_DE.UTF-8', 'GAMSDIR': '/nowhere', 'UNRELATED': 'x'*5000}),
 3: dict(opts='max_malloc_fill_size=1000000:malloc_fill_byte=255', env={'USER': 'somebody', 'PWD': '/'}),
 4: dict(opts='max_malloc_fill_size=1000000:malloc_fill_byte=1', env={'PATH': '/bin', 'TMPDIR': '/nonexistent'}),
}
def run(pid, cfg, tier, seed, scratch, only):
    import check as C
    b = B.build('p20', 'asan')
    cases = cfg['cases'][tier]
    part = dict(cfg, shards=8)
    allres, viol, table = [], [], {}
    for v, s in VARIANTS.items():
        sc = os.path.join(scratch, 'v%d' % v); os.makedirs(sc)
        env = C.sh_env(s['env'])
        env['ASAN_OPTIONS'] += ':'+s['opts']
        env.update({'P20_VARIANT': str(v), 'P20_OUT': os.path.join(sc, 'hash')})
        if only is not None:
            subprocess.run([b['bin'], '--seed', str(seed), '--from', str(only), '--to', str(only+1), '--scratch', sc, '--libdir', b['libdir'], '--out', sc+'/o.json'], env=env, cwd=sc, stdout=subprocess.DEVNULL)
            if os.path.exists(sc+'/o.json'): allres.append(json.load(open(sc+'/o.json')))
        else:
            r, vi = C.run_shards(pid, part, b['bin'], b['libdir'], cases, seed, tier, sc, env)
            allres += r; viol += vi
        for f in glob.glob(os.path.join(sc, 'hash.*')):
            for l in open(f):
                w = l.split()
                if len(w) == 4: table.setdefault(int(w[0]), {})[v] = (w[1], w[2], w[3])
    cmp_ = 0
    for c, t in sorted(table.items()):
        if 0 not in t: continue
        for v in t:
            if v == 0: continue
            cmp_ += 1
            if t[v][0] != t[0][0]:
                viol.append(dict(case=c, key='bytes', msg='case %d: file of variant %d (%s bytes) differs from variant 0 (%s bytes)' % (c, v, t[v][2], t[0][2])))
            elif t[v][1] != t[0][1]:
                viol.append(dict(case=c, key='answers', msg='case %d: answers of variant %d differ from variant 0' % (c, v)))
    # memcheck: nothing uninitialised may reach write(2)
    vg = {'runs': 0, 'cases': 0}
    if only is None and os.path.exists('/usr/bin/valgrind'):
        p = B.build('p20', 'plain')
        n = cfg['memcheck'][tier]
        procs = []
        for sh in range(8):
            sc = os.path.join(scratch, 'm%d' % sh); os.makedirs(sc)
            env = C.sh_env({'P20_VARIANT': '1'})
            cmd = ['valgrind', '-q', '--error-exitcode=66', '--leak-check=no', '--track-origins=no', p['bin'], '--seed', str(seed), '--from', str(100000+sh), '--to', str(100000+n), '--stride', '8',
                   '--scratch', sc, '--libdir', p['libdir'], '--out', sc+'/o.json', '--cpu', '600']
            procs.append((sc, subprocess.Popen(cmd, env=env, cwd=sc, stdout=subprocess.DEVNULL, stderr=open(sc+'/err', 'w'))))
        for sc, q in procs:
            try: rc = q.wait(timeout=700)
            except subprocess.TimeoutExpired: q.kill(); rc = 'timeout'
            vg['runs'] += 1
            if os.path.exists(sc+'/o.json'):
                o = json.load(open(sc+'/o.json')); vg['cases'] += o['cases']
            if rc == 66: viol.append(dict(case=-1, key='uninitialised', msg='memcheck: '+open(sc+'/err', errors='replace').read()[:3500]))
            elif rc != 0 and rc != 'timeout': viol.append(dict(case=-1, key='crash', msg='memcheck run ended with %s: %s' % (rc, open(sc+'/err', errors='replace').read()[-2000:])))
    cov, known, v2 = C.merge(allres)
    cov['observed']['comparisons'] = cmp_
    cov['observed']['memcheck_cases'] = vg['cases']
    cov['evaluations'] = cmp_+vg['cases']
    if only is None and cmp_ == 0: viol = viol or [dict(case=-1, key='nothing-compared', msg='no variant produced comparable files')]
    return {'violations': viol+v2, 'coverage': cov, 'known': known}
