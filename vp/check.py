#!/usr/bin/env python3-vt
"""Decide one property: compile its harnesses from /repo's current headers to
LLVM IR, execute them symbolically, discharge the assertions with z3, replay
every counterexample natively, write the evidence file."""
import threading
import argparse
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import random
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from registry import PROPS  # noqa: E402

REPO = os.environ.get('VP_REPO', '/repo')
INC = ['-std=gnu++14', '-w', '-I' + REPO + '/include', '-I' + ROOT + '/harness', '-DBOOST_ALL_NO_LIB=1']
IRFLAGS = ['-O1', '-fno-vectorize', '-fno-slp-vectorize', '-fno-unroll-loops', '-ffp-contract=off', '-D_GLIBCXX_EXTERN_TEMPLATE=0',
           '-gline-tables-only', '-fno-threadsafe-statics']


def sh(cmd, timeout=300, env=None):
    try:
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, env=env)
        return p.returncode, p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        return 'timeout', (e.stdout or b'').decode('utf8', 'replace')


def omp(g):
    return '-fopenmp' in g.get('defs', [])


def flags(g):
    return INC + g.get('defs', []) + (['-I' + ROOT + '/harness/omp'] if omp(g) else [])


def runtime(g):
    """sources and options of the native side"""
    return [ROOT + '/harness/native.cpp'] + ([ROOT + '/harness/kmpc.cpp', '-lpthread'] if omp(g) else [])


def build_ir(g, d, k):
    bc = '%s/g%d.bc' % (d, k)
    rc, out = sh(['clang++'] + IRFLAGS + flags(g) + ['-c', '-emit-llvm', '%s/harness/%s' % (ROOT, g['src']), '-o', bc], 400)
    if rc != 0:
        return None, out
    return bc, out


def build_trace(g, d, k, bc):
    """native binary from the very IR that is interpreted: validates the executor"""
    exe = '%s/t%d' % (d, k)
    rc, out = sh(['clang++', '-O1', '-ffp-contract=off', '-std=gnu++14', '-w', '-I' + ROOT + '/harness', bc, '-x', 'c++'] +
                 runtime(g) + ['-rdynamic', '-o', exe, '-ldl'] + g.get('libs', []), 400)
    return exe if rc == 0 else None


LOCK = threading.Lock()
LOCKS = {}


def build_replay(g, d, k, kind):
    with LOCK:
        l = LOCKS.setdefault((d, k, kind), threading.Lock())
    with l:
        return build_replay_1(g, d, k, kind)


def build_replay_1(g, d, k, kind):
    exe = '%s/%s%d' % (d, kind, k)
    if os.path.exists(exe):
        return exe
    src = '%s/harness/%s' % (ROOT, g['src'])
    if kind == 'asan':
        cmd = ['clang++', '-O1', '-g', '-fsanitize=address,undefined', '-fno-sanitize=vptr,float-divide-by-zero', '-ftrivial-auto-var-init=pattern']
    elif kind == 'tsan':
        cmd = ['clang++', '-O1', '-g', '-fsanitize=thread']
    else:
        cmd = ['clang++' if omp(g) else 'g++', '-O2']
    cmd += ['-ffp-contract=off']
    if omp(g):     # compiled with OpenMP, linked with the runtime of kmpc.cpp
        obj = exe + '.o'
        rc, out = sh(cmd + flags(g) + ['-c', src, '-o', obj], 600)
        if rc != 0:
            return None
        src = obj
        fl = INC
    else:
        fl = flags(g)
    rc, out = sh(cmd + fl + [src] + runtime(g) + ['-rdynamic', '-o', exe, '-ldl'] + g.get('libs', []), 600)
    return exe if rc == 0 else None


def replay_commands(g, hit):
    if not omp(g):
        return 'g++ -O2 -ffp-contract=off %s %s/harness/%s %s -rdynamic -o $D/r -ldl %s\n' % (
            ' '.join(flags(g)), ROOT, g['src'], ' '.join(runtime(g)), ' '.join(g.get('libs', [])))
    cc = 'clang++ -O2 -ffp-contract=off' + (' -g -fsanitize=thread' if '(tsan' in hit else '')
    return '%s %s -c %s/harness/%s -o $D/h.o\n%s %s $D/h.o %s -rdynamic -o $D/r -ldl\n' % (
        cc, ' '.join(flags(g)), ROOT, g['src'], cc, ' '.join(INC), ' '.join(runtime(g)))


def write_inputs(path, rec):
    with open(path, 'w') as f:
        for k, v in rec['inputs']:
            f.write('%s %r\n' % (k, v))
        for fid, a, o in rec['sys']:
            f.write('s %d %d %d %s\n' % (fid, len(a), len(o), ' '.join(repr(x) for x in a + o)))


def limit():
    resource.setrlimit(resource.RLIMIT_AS, (7 << 30, 7 << 30))


def entries_of(bc):
    import llvmir
    m = llvmir.Module(bc)
    return sorted(n for n, f in m.funcs.items() if n.startswith('h_') and not llvmir.IsDeclaration(f))


def work(job):
    """one harness entry, in its own process"""
    bc, entry, opts, seed, exe, d = job
    t0 = time.time()
    r = dict(entry=entry, violations=[], inconclusive=[], incomplete=[], asserts={}, cuts={})
    try:
        limit()
        import llvmir
        import engine
        E = engine.Engine(llvmir.Module(bc), seed, opts)
        try:
            E.explore(entry)
        except MemoryError:
            E.incomplete.append('memory limit')
        r.update(paths=E.paths, complete=E.paths_complete, infeasible=E.infeasible, pruned=E.pruned, cuts=E.cuts,
                 incomplete=sorted(set(E.incomplete)), steps=E.steps_total, asserts=E.asserts, violations=E.violations,
                 inconclusive=E.inconclusive, obligations=E.assert_obligations, stats=vars(E.stats),
                 lines=sorted(E.mod.lines), funcs=len(E.funcs_run))
        # executor validation: concrete runs here vs. machine code from the same IR
        val = ok = 0
        bad = []
        if exe:
            for s in range(opts.get('validate', 2)):
                C = engine.Engine(E.mod, seed, dict(time=30))
                C.concrete = random.Random('%d/%s/%d' % (seed, entry, s))
                C.asserts_trace = []
                fn = C.func(entry)
                C.entry = entry
                C.deadline = time.time() + 20
                C.incomplete = []
                C.work = []
                C.o['steps'] = 400000
                C.run_path(fn, [], {})
                rec = dict(inputs=[[k, v] for k, v in C.inputs], sys=[])
                p = '%s/val_%s_%s_%d.txt' % (d, os.path.basename(exe), entry, s)
                write_inputs(p, rec)
                rc, out = sh([exe, entry, p, 'trace'], 20)
                nat = []
                for l in out.split('\n'):
                    q = l.split()
                    if len(q) == 3 and q[0] == 'N':
                        nat += [float.fromhex(q[1]), float.fromhex(q[2])]
                    elif len(q) == 2 and q[0] == 'L':
                        nat.append(float.fromhex(q[1]))
                if C.incomplete:
                    continue
                val += 1
                same = len(nat) == len(C.log) and all(a == b or (a != a and b != b) for a, b in zip(nat, C.log))
                if same:
                    ok += 1
                else:
                    k = next((j for j, (a, b) in enumerate(zip(nat, C.log)) if a != b), min(len(nat), len(C.log)))
                    bad.append('%s seed %d: %d native values, %d interpreted; first difference at %d %s' %
                               (entry, s, len(nat), len(C.log), k, (nat[k:k + 1], C.log[k:k + 1])))
        r.update(validated=val, val_ok=ok, val_bad=bad)
    except Exception:
        r['incomplete'] = r.get('incomplete', []) + ['internal: ' + traceback.format_exc()[-1500:]]
    r['wall'] = time.time() - t0
    return r


def proc_main(job, q):
    try:
        q.send(work(job))
    except Exception as e:
        q.send(dict(entry=job[1], incomplete=['internal: %r' % e], violations=[], inconclusive=[], asserts={}, cuts={}))
    q.close()


def run_jobs(jobs, ncpu, deadline):
    """each job in a fresh process (memory isolation); yields results in completion order"""
    pend = list(enumerate(jobs))
    live = {}
    res = []
    ctx = mp.get_context('fork')
    while pend or live:
        while pend and len(live) < ncpu:
            i, j = pend.pop(0)
            left = deadline - time.time()
            j[2]['time'] = min(j[2]['time'], max(5, left - 5))
            a, b = ctx.Pipe(False)
            p = ctx.Process(target=proc_main, args=(j, b))
            p.start()
            b.close()
            live[i] = (p, a, j, time.time())
        done = False
        for i, (p, a, j, ts) in list(live.items()):
            if a.poll():
                try:
                    r = a.recv()
                except EOFError:
                    r = dict(entry=j[1], incomplete=['worker died'], violations=[], inconclusive=[], asserts={}, cuts={})
            elif not p.is_alive():
                r = dict(entry=j[1], incomplete=['worker died'], violations=[], inconclusive=[], asserts={}, cuts={})
            elif time.time() - ts > j[2]['time'] + 90:
                p.kill()
                r = dict(entry=j[1], incomplete=['worker killed (time)'], violations=[], inconclusive=[], asserts={}, cuts={})
            else:
                continue
            p.join(5)
            r['job'] = i
            res.append(r)
            del live[i]
            done = True
        if not done:
            time.sleep(0.02)
    return res


def replay(g, k, d, entry, msg, rec, path, undef):
    """-> text of the native failure, or None"""
    write_inputs(path, rec)
    memory = msg.startswith(('memory', 'arith', 'abort', 'unreachable'))
    race = msg.startswith('race')
    for kind in ('tsan',) if race else ('asan', 'rel') if memory else ('rel', 'asan'):
        exe = build_replay(g, d, k, kind)
        if not exe:
            continue
        for pert in ('', '85', '170') if undef or memory else ('',):
            env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:exitcode=77:max_malloc_fill_size=4096:malloc_fill_byte=%s' % (pert or '190'),
                       UBSAN_OPTIONS='print_stacktrace=0')
            if pert:
                env['MALLOC_PERTURB_'] = pert
            rc, out = sh([exe, entry, path], 20, env)
            hit = None
            if 'VPFAIL' in out:
                hit = [l for l in out.split('\n') if 'VPFAIL' in l][0]
            elif 'ThreadSanitizer' in out and 'data race' in out:
                w = re.findall(r'(/\S*/odeint/\S+?:\d+)', out)
                hit = 'ThreadSanitizer: data race' + ''.join(' ' + x for x in sorted(set(w))[:2])
            elif 'AddressSanitizer' in out:
                hit = [l for l in out.split('\n') if 'AddressSanitizer' in l][0]
            elif rc == 'timeout':
                hit = 'does not terminate within 20 s' if msg.startswith('nontermination') else None
            elif isinstance(rc, int) and rc < 0:
                hit = 'killed by signal %d' % -rc
            elif rc == 0 and msg.startswith('abort: exit'):
                hit = None
            elif 'runtime error' in out and memory:
                hit = [l for l in out.split('\n') if 'runtime error' in l][0]
            if hit:
                return '%s (%s build)' % (hit.strip(), kind)
    return None


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--only')
    ap.add_argument('--keep')
    ap.add_argument('-v', action='store_true')
    ap.add_argument('--no-native', action='store_true')
    a = ap.parse_args()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    P = PROPS[a.prop]
    t0 = time.time()
    budget = P.get('budget', {}).get(tier, 420 if tier == 'quick' else 3000)
    deadline = t0 + budget
    d = tempfile.mkdtemp(prefix='vp_%s_' % a.prop)
    code = 2
    try:
        code = run(a, P, tier, seed, d, t0, deadline)
    finally:
        if a.keep:
            shutil.copytree(d, a.keep, dirs_exist_ok=True)
        shutil.rmtree(d, ignore_errors=True)
    sys.exit(code)


def run(a, P, tier, seed, d, t0, deadline):
    pid = a.prop
    groups = [g for g in P['groups'] if tier == 'thorough' or g.get('tier', 'quick') == 'quick']
    if a.only:
        groups = [g for g in groups if re.search(a.only.split(':')[0], g['src'] + ' ' + ' '.join(g.get('defs', [])))]
    ncpu = os.cpu_count() or 4
    with cf.ThreadPoolExecutor(ncpu) as ex:
        bcs = list(ex.map(lambda kg: build_ir(kg[1], d, kg[0]), enumerate(groups)))
        for (bc, out), g in zip(bcs, groups):
            if bc is None:
                print('ERROR: harness %s does not compile against /repo' % g['src'])
                print(out[-3000:])
                return 2
        exes = [None] * len(groups) if a.no_native else list(ex.map(lambda kg: build_trace(kg[1], d, kg[0], bcs[kg[0]][0]), enumerate(groups)))
        ents = list(ex.map(lambda b: subprocess.run([sys.executable, HERE + '/check.py', '@entries', b[0]], stdout=subprocess.PIPE).stdout.decode().split(), bcs))
    tcomp = time.time() - t0
    jobs, jg = [], []
    for k, g in enumerate(groups):
        for e in ents[k]:
            if e.startswith('h_thorough_') and tier != 'thorough':
                continue
            if g.get('entries') and not re.match(g['entries'], e):
                continue
            if a.only and ':' in a.only and not re.search(a.only.split(':')[1], e):
                continue
            o = dict(time=100 if tier == 'quick' else 900, max_paths=5000 if tier == 'quick' else 40000,
                     query_ms=3000 if tier == 'quick' else 10000, assert_ms=10000 if tier == 'quick' else 40000)
            o.update(P.get('opts', {}))
            o.update(g.get('opts', {}))
            if tier == 'thorough':
                o.update(g.get('topts', {}))
            jobs.append((bcs[k][0], e, o, seed, exes[k], d))
            jg.append(k)
    res = run_jobs(jobs, ncpu, deadline)
    # ---- counterexamples
    known = []
    kf = ROOT + '/known_findings.json'
    if os.path.exists(kf):
        known = [x for x in json.load(open(kf)) if x.get('status', 'open') == 'open' and x['property'] == pid]
    rd = ROOT + '/evidence/replay'
    confirmed, unconfirmed, kfound = [], [], {}
    cand = [(r, v) for r in res for v in r['violations']]
    if cand:
        need = sorted({jg[r['job']] for r, v in cand})
        with cf.ThreadPoolExecutor(ncpu) as ex:
            list(ex.map(lambda kk: build_replay(groups[kk[0]], d, kk[0], kk[1]), [(k, x) for k in need for x in ('rel', 'asan')]))
        os.makedirs(rd, exist_ok=True)

        def confirm(nrv):
            n, (r, v) = nrv
            k = jg[r['job']]
            for q, m in enumerate(v['models']):
                path = '%s/%s_%s_%d_%d.in' % (rd, pid, r['entry'], n, q)
                hit = replay(groups[k], k, d, r['entry'], v['msg'], m, path, v.get('undef'))
                if hit:
                    sc = path[:-3] + '.sh'
                    g = groups[k]
                    with open(sc, 'w') as f:
                        f.write('#!/bin/sh\n# property %s, entry %s: %s\n# %s\nset -e\nD=$(mktemp -d)\n' % (pid, r['entry'], v['msg'], hit))
                        f.write(replay_commands(g, hit) + '$D/r %s %s\n' % (r['entry'], path))
                    return (r, v, sc, hit)
                os.unlink(path)
            return (r, v, None, None)
        seen = {}
        sel = []
        for n, rv in enumerate(cand):
            key = (rv[0]['entry'], rv[0]['job'], rv[1]['msg'])
            seen[key] = seen.get(key, 0) + 1
            if seen[key] <= 4:
                sel.append((n, rv))
        with cf.ThreadPoolExecutor(ncpu) as ex:
            out = list(ex.map(confirm, sel))
        for r, v, sc, hit in out:
            if not sc:
                unconfirmed.append((r['entry'], v['msg'], v['cond']))
                continue
            kk = next((x for x in known if re.fullmatch(x['entry'], r['entry']) and re.search(x['message'], v['msg'])), None)
            if kk:
                kfound.setdefault(kk['id'], (kk, r['entry'], hit))
            else:
                confirmed.append((r['entry'], v['msg'], sc, hit))
    # ---- report
    tot = lambda f: sum(f(r) for r in res)
    st = lambda k: sum(r.get('stats', {}).get(k, 0) for r in res)
    lines = {}
    for r in res:
        for fn, ln in r.get('lines', ()):
            lines.setdefault(os.path.normpath(fn).replace(REPO + '/include/boost/numeric/', ''), set()).add(ln)
    vac = [(r['entry'], m) for r in res for m, (n, w) in r['asserts'].items() if w == 0 and m != 'no runtime error']
    noass = [r['entry'] for r in res if not r['asserts']]
    inc = [(r['entry'], x) for r in res for x in r['incomplete']]
    inconc = [(r['entry'], x['msg'], x['why']) for r in res for x in r['inconclusive']]
    cuts = {}
    for r in res:
        for c, n in r['cuts'].items():
            cuts[c] = cuts.get(c, 0) + n
    ev = dict(
        property=pid, tier=tier, seed=seed, level='model_checking',
        coverage=dict(
            states=tot(lambda r: r.get('paths', 0)),
            transitions=tot(lambda r: r.get('steps', 0)),
            traces_validated_against_impl=tot(lambda r: r.get('val_ok', 0)),
            samples=[dict(entry=r['entry'], paths=r.get('paths'), assertions=sorted(r['asserts'])[:6]) for r in res[:6]],
            explanation='states = symbolic paths explored (inputs and system-function values stay symbolic on each); transitions = basic blocks of the '
                        'compiled IR executed over them; traces_validated = concrete runs of the same harness in the IR executor and in machine code '
                        'with identical checked values',
            harness_entries=len(jobs), assertion_obligations=tot(lambda r: r.get('obligations', 0)),
            distinct_assertions=len({(r['entry'], m) for r in res for m in r['asserts']}),
            paths_completed=tot(lambda r: r.get('complete', 0)), branches_pruned_by_solver=tot(lambda r: r.get('pruned', 0)),
            solver=dict(queries=st('queries'), unsat=st('unsat'), sat=st('sat'), unknown=st('unknown'), seconds=round(st('time'), 2),
                        linear_stage=st('lra'), nonlinear_stage=st('nra'), longest_s=round(max([r.get('stats', {}).get('maxt', 0) for r in res] or [0]), 2)),
            repo_code_encoded={k: len(v) for k, v in sorted(lines.items())},
            repo_lines_encoded=sum(len(v) for v in lines.values()),
            bounds=P.get('bounds', ''), bound_cuts=cuts,
            incomplete=['%s: %s' % x for x in inc][:40], undecided_assertions=['%s: %s (%s)' % x for x in inconc][:40],
            unconfirmed_counterexamples=['%s: %s | %s' % x for x in unconfirmed][:20],
            assertions_without_witness=['%s: %s' % x for x in vac][:40],
            validation_mismatches=[b for r in res for b in r.get('val_bad', [])][:20],
            compile_s=round(tcomp, 1)),
        assumptions=P.get('assumptions', []) + [
            'real arithmetic: rounding of the executed operations is abstracted (assertions carry tolerances; constants are the compiled doubles)',
            'the right-hand side is an arbitrary function of (state, time), equal arguments (up to 1e-11) giving equal results, bounded outputs',
            'executor and z3 are trusted; counterexamples are replayed natively before being reported'],
        wall_s=round(time.time() - t0, 2), violations=len(confirmed))
    os.makedirs(ROOT + '/evidence', exist_ok=True)
    with open(ROOT + '/evidence/%s.json' % pid, 'w') as f:
        json.dump(ev, f, indent=1)
    c = ev['coverage']
    print('%s [%s]: %d entries, %d paths, %d obligations, %d queries (%.1fs solver), %d lines of /repo, %.1fs' % (
        pid, tier, len(jobs), c['states'], c['assertion_obligations'], c['solver']['queries'], c['solver']['seconds'], c['repo_lines_encoded'], ev['wall_s']))
    for k in ('incomplete', 'undecided_assertions', 'unconfirmed_counterexamples', 'assertions_without_witness', 'validation_mismatches'):
        if c[k]:
            print('  note: %s: %d' % (k, len(c[k])))
            if a.v:
                for x in c[k]:
                    print('     ', x[:1600])
    if noass:
        print('  note: entries without assertions: %s' % noass)
    if a.v:
        for r in sorted(res, key=lambda r: -r.get('wall', 0)):
            print('   %-40s %6.1fs paths %d cuts %s' % (r['entry'], r.get('wall', 0), r.get('paths', 0), r['cuts']))
    for kid, (kk, e, hit) in kfound.items():
        print('KNOWN-FINDING: property=%s %s' % (pid, kk['what']))
    if confirmed:
        seen = set()
        for e, m, sc, hit in confirmed:
            if (e, m) in seen:
                continue
            seen.add((e, m))
            print('  %s: %s -- %s' % (e, m, hit))
        print('VIOLATION property=%s replay=%s' % (pid, confirmed[0][2]))
        return 1
    return 0


if __name__ == '__main__':
    if len(sys.argv) > 2 and sys.argv[1] == '@entries':
        print(' '.join(entries_of(sys.argv[2])))
        os._exit(0)
    main()
