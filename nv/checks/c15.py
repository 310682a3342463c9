"""C15: assembler instances are independent, results reproducible."""
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading
import types
from ..harness import Check, hx, import_repo, VERIF
from ..core import targets
from ..rich import Rich
from ..cpu import all_cpus
from .. import jobs as J
from .c01 import cpu_lines

FAULTS = ('BOGUS 1', '.bogus', '.db 256', 'a-b:', '.repeat 0', '.org 9 3', '.endmacro', 'NOP NOP NOP NOP', '.db nowhere', '.macro open x', '.repeat 3',
          '.define', '.cartridge_title "NOT SET"', '.dw 70000', 'late_: .dd late_+nowhere')


def make_job(rng, tg, cpus, d):
    if rng.random() < .35:
        t = rng.choice(tg)
        R = Rich(rng, t.num, d, features=('define', 'macro', 'repeat', 'include', 'import', 'org', 'pad'), probes=False)
        lines = R.block(rng.randrange(1, 14))
        R.write_files()
        job = {'cls': ('toy', t.style, t.big, t.fill), 'lines': lines}
    else:
        cpu = rng.choice(cpus)
        plat = [k for k, p in J.PLATFORMS.items() if p[2] == cpu.name]
        key = ('cpu', cpu.name.split()[0] if cpu.name.split()[0] in J.CPUS else cpu.name)
        if key[1] not in J.CPUS:
            key = ('cpu', {'mips32le': 'mips32'}.get(key[1], '6502'))
        if plat and rng.random() < .5:
            key = ('platform', plat[0])
        if key == ('cpu', 'mips32') and rng.random() < .5:
            key = ('platform', 'psx')
        code = [l for l, _ in cpu_lines(rng, cpu, rng.randrange(1, 8))]
        lines = [cpu.prelude] if cpu.prelude else []
        lines.append('.org %d' % rng.choice((0, 256, 32768)))
        n = rng.choice(('a', 'loop', 'start', 'Data'))
        lines += ['.define %s %d' % (rng.choice(('K', 'VRAM', 'RAM', 'size')), rng.randrange(99)), '.macro m x', '.endmacro', n + ':']
        lines += code
        lines += rng.choice(([], ['.repeat 3', code[0], '.endrepeat'], ['.section "text" RX', '.export ' + n]))
        lines += ['.dw %s, %d' % (n, rng.randrange(65536)), '.dd end_', '.db "text"', '.dw VRAM' if rng.random() < .3 else '.db 1', 'm K', 'end_:', '.align 4']
        if key == ('platform', 'gameboy') and rng.random() < .6:
            lines = ['.org 0', '.fill 256', '.cartridge', '.cartridge_title "%s"' % rng.choice('ABC')] + lines
        if key == ('platform', 'nes') and rng.random() < .6:
            lines = ['.cartridge', '.cartridge_prg_roms %d' % rng.randrange(1, 5)] + lines
        job = {'cls': key, 'lines': lines}
    job['fault'] = False
    if rng.random() < .3:
        lines = job['lines'] = list(job['lines'])
        lines.insert(rng.randrange(len(lines) + 1), rng.choice(FAULTS))
        job['fault'] = True
    if rng.random() < .3:
        job['register'] = [(rng.choice(('ZED', 'VRAM', 'K')), str(rng.randrange(9)))]
    return job


def freeze(v, seen, depth=0):
    """value snapshot of class and module state"""
    if isinstance(v, (str, bytes, int, float, bool, type(None), complex)):
        return repr(v)
    if id(v) in seen or depth > 8:
        return '...'
    seen = seen | {id(v)}
    if isinstance(v, dict):
        return '{' + ','.join('%s:%s' % (freeze(k, seen, depth + 1), freeze(x, seen, depth + 1)) for k, x in v.items()) + '}'
    if isinstance(v, (list, tuple, set, frozenset, bytearray)):
        items = [freeze(x, seen, depth + 1) for x in v]
        if isinstance(v, (set, frozenset)):
            items.sort()
        return type(v).__name__ + '(' + ','.join(items) + ')'
    if isinstance(v, (classmethod, staticmethod)):
        v = v.__func__
    if isinstance(v, property):
        return 'property'
    if isinstance(v, types.FunctionType):
        return 'function %s %d %s %s' % (v.__qualname__, id(v), freeze(v.__defaults__, seen, depth + 1), freeze({k: x for k, x in v.__dict__.items()}, seen, depth + 1))
    if isinstance(v, type):
        return 'type ' + v.__qualname__
    if isinstance(v, types.ModuleType):
        return 'module ' + v.__name__
    if hasattr(v, '__dict__'):
        return type(v).__name__ + freeze(vars(v), seen, depth + 1)
    return type(v).__name__


def snapshot():
    out = {}
    for name, mod in sorted(sys.modules.items()):
        if name != 'necroassembler' and not name.startswith('necroassembler.'):
            continue
        for k, v in list(vars(mod).items()):
            if k.startswith('_'):
                continue
            if isinstance(v, type) and v.__module__ == name:
                for a, x in list(vars(v).items()):
                    if a.startswith('_'):       # private state (a cache, say) may change, results are compared anyway
                        continue
                    out['%s.%s.%s' % (name, k, a)] = freeze(x, frozenset())
            else:
                out['%s.%s' % (name, k)] = freeze(v, frozenset())
    return out


def main():
    chk = Check('C15', 'jobs (toy CPU programs with defines, macros, repeats, includes and imports; instruction streams, defines, sections and headers of every '
                'shipped CPU and of the Game Boy, NES, Master System and PlayStation classes; a third of them faulty) run alone in a fresh process and compared with the same jobs '
                'interleaved line by line with others, run in threads, after other runs, in processes with other hash seeds, and as one text; class and module state '
                'compared before and after; non-trivial = another job was active or had run before', 800)
    rng = chk.rng
    tg = targets()
    cpus = all_cpus()
    for m, _, _ in J.PLATFORMS.values():
        __import__(m)
    for m in ('mips32', 'thumb', 'mc68000', 'powerpc', 'x86', 'intel8086', 'lr35902', 'z80', 'mos6502'):
        __import__('necroassembler.cpu.' + m)
    before = snapshot()
    chk.count('class_attributes_watched', len(before))
    with tempfile.TemporaryDirectory() as d:
        pool = []
        njobs = chk.n(260, 1500)
        for i in range(njobs):
            sub = os.path.join(d, 'j%d' % i)
            os.mkdir(sub)
            pool.append(make_job(rng, tg, cpus, sub))
        base_lines = J.alone(pool, False)
        base_text = J.alone(pool, True)
        for j, a, b in zip(pool, base_lines, base_text):
            j['line'], j['text'] = a, b
            chk.see('classes', j['cls'])
            if a['error']:
                chk.count('failing_jobs')
                chk.see('errors', a['error'][0])
            chk.case(('alone', j['lines']), '\n'.join(j['lines']), nontrivial=False)
            if not a['error'] or not b['error']:
                same = J.digest(a) == J.digest(b)
                chk.expect(same, 'text-vs-lines', lambda: '%s: as one text %s, line by line %s: %r' % (j['cls'], diff(b, a), '', j['lines']),
                           {'class': j['cls'], 'lines': j['lines'], 'text': b, 'line_by_line': a})
            else:
                chk.expect(a['bytes'].startswith(b['bytes']) or a['error'][0] == b['error'][0], 'text-vs-lines-error',
                           lambda: '%s: as one text %r, line by line %r' % (j['cls'], b['error'], a['error']), {'class': j['cls'], 'lines': j['lines']})

        def check_run(run, how):
            j = run.job
            got = run.result()
            want = j['text'] if run.whole else j['line']
            chk.count('runs/' + how)
            chk.expect(J.digest(got) == J.digest(want), how + '/' + j['cls'][1],
                       lambda: '%s %s: alone and %s differ: %s for %r' % (j['cls'], 'text' if run.whole else 'lines', how, diff(want, got), j['lines']),
                       {'class': j['cls'], 'lines': j['lines'], 'alone': want, 'observed': got, 'how': how})
        # one after the other in one process
        order = list(range(len(pool)))
        for rep in range(chk.n(2, 3)):
            rng.shuffle(order)
            for k in order:
                r = J.Run(pool[k], rng.random() < .5)
                r.run()
                chk.case(('serial', rep, k))
                check_run(r, 'after others')
        # interleaved line by line
        schedules = set()
        for rep in range(chk.n(250, 2500)):
            group = [J.Run(rng.choice(pool), rng.random() < .1) for _ in range(rng.randrange(2, 7))]
            if rng.random() < .3:
                group.append(J.Run(group[0].job, False))     # twin
            live = list(group)
            trace = []
            while live:
                r = rng.choice(live)
                for _ in range(rng.choice((1, 1, 1, 2, 5))):
                    if not r.done:
                        r.step()
                        trace.append(group.index(r))
                if r.done:
                    live.remove(r)
            schedules.add(tuple(trace))
            chk.count('interleaved_steps', len(trace))
            chk.case(('interleaved', rep, tuple(trace)))
            for r in group:
                check_run(r, 'interleaved')
        chk.counters['distinct_interleavings'] = len(schedules)
        # threads
        old = sys.getswitchinterval()
        sys.setswitchinterval(1e-6)
        try:
            for rep in range(chk.n(12, 100)):
                per = [[J.Run(rng.choice(pool), rng.random() < .5) for _ in range(8)] for _ in range(8)]
                gate = threading.Barrier(8)
                switches = []

                def work(me, runs):
                    gate.wait()
                    for r in runs:
                        while not r.done:
                            r.step()
                            switches.append(me)
                ts = [threading.Thread(target=work, args=(k, p)) for k, p in enumerate(per)]
                for t in ts:
                    t.start()
                for t in ts:
                    t.join()
                chk.count('thread_switches_seen', sum(1 for a, b in zip(switches, switches[1:]) if a != b))
                chk.case(('threads', rep))
                for p in per:
                    for r in p:
                        check_run(r, 'threads')
        finally:
            sys.setswitchinterval(old)
        # a custom subclass does not disturb its parent
        for j in rng.sample(pool, min(60, len(pool))):
            cls = J.cls_of(j['cls'])
            sub = type('Custom', (cls,), {'defines': {'K': '77', 'a': '1', 'VRAM': '9'}, 'fill_value': 0xCC, 'hex_prefixes': ('0z',), 'case_sensitive': False})
            other = sub()
            other.register_instruction('NOP', b'\x12\x34')
            other.register_directive('db', lambda instr: None)
            other.register_define('K', '5')
            other.pre_link_passes.append(lambda a: a.append_assembled_bytes(b'\x99'))
            other.defines['loop'] = '3'
            try:
                other.assemble('.define Data 9\nNOP\n.db 1\n')
                other.link()
            except Exception:
                pass
            r = J.Run(j, False)
            r.run()
            chk.case(('subclass', j['lines']))
            check_run(r, 'after a subclass')
        # the command line entry point of a class can be used again and again
        src = os.path.join(d, 'main.s')
        with open(src, 'w') as f:
            f.write('.org 0\n.dw a\na: .db 1\n')
        argv = sys.argv
        for j in rng.sample(pool, min(40, len(pool))):
            cls = J.cls_of(j['cls'])
            if not hasattr(cls, 'main') or j['cls'] == ('platform', 'gameboy'):
                continue
            outs = []
            for passes in ((), (lambda a: a.assembled_bytes.append(7),), ()):
                sys.argv = ['x', src, os.path.join(d, 'main.out')]
                try:
                    if passes:
                        cls.main(post_link_passes=list(passes))
                    else:
                        cls.main()
                finally:
                    sys.argv = argv
                with open(os.path.join(d, 'main.out'), 'rb') as f:
                    outs.append(f.read())
            chk.case(('main', j['cls'], len(outs)))
            chk.expect(outs[0] == outs[2] and outs[1] == outs[0] + b'\x07', 'main/' + j['cls'][1], lambda: '%s: three runs of main give %r' % (j['cls'], outs), {'class': j['cls']})
        main_passes(chk, d, src)
        # other processes, other hash seeds
        import_repo()
        jf = os.path.join(d, 'jobs.pickle')
        with open(jf, 'wb') as f:
            pickle.dump([{k: j[k] for k in ('cls', 'lines', 'register') if k in j} for j in pool], f)
        want = [J.digest(j['text']) for j in pool]
        procs = []
        for hs in ['0', '1', '2', 'random', '4242', 'random'] + [str(rng.randrange(1 << 32)) for _ in range(chk.n(2, 24))]:
            env = dict(os.environ, PYTHONHASHSEED=hs, PYTHONPATH=VERIF, PYTHONDONTWRITEBYTECODE='1')
            procs.append((hs, subprocess.Popen([sys.executable, '-m', 'nv.jobs', jf], env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, cwd=VERIF)))
        for hs, p in procs:
            o, e = p.communicate(timeout=300)
            got = o.decode().split()
            chk.count('processes')
            chk.case(('process', hs, len(procs)))
            if not chk.expect(len(got) == len(want), 'process', lambda: 'hash seed %s: the process printed %d results of %d: %s' % (hs, len(got), len(want), e.decode()[-300:])):
                continue
            for j, a, b in zip(pool, want, got):
                chk.count('cross_process_results')
                chk.expect(a == b, 'hash-seed/' + j['cls'][1], lambda: '%s: result depends on the process (hash seed %s): %r' % (j['cls'], hs, j['lines']), {'class': j['cls'], 'lines': j['lines'], 'hash_seed': hs})
        # platform modules that patch others must not change them
        import necroassembler.platforms.mz  # noqa: F401
        for j in pool:
            if j['cls'] == ('cpu', '8086'):
                r = J.Run(j, True)
                r.run()
                chk.case(('mz', j['lines']))
                check_run(r, 'after importing the MZ platform')
    after = snapshot()
    for k in sorted(before):
        chk.expect(before.get(k) == after.get(k), 'state/' + k.split('.')[-1], lambda: '%s changed: %s -> %s' % (k, str(before.get(k))[:200], str(after.get(k))[:200]))
    chk.require('failing_jobs', 40)
    chk.require('classes', 12 if len(cpus) > 6 else 8)
    chk.require('distinct_interleavings', 200)
    chk.require('thread_switches_seen', 50)
    chk.finish()


def main_passes(chk, d, src):
    """classes with link passes of their own, through their entry points in any order"""
    rng = chk.rng
    from necroassembler import Assembler, pre_link, post_link
    for i in range(chk.n(30, 300)):
        log = []

        def cls_of(k):
            def pre(self):
                log.append(('pre', k, type(self)))

            def post(self):
                log.append(('post', k, type(self)))
                self.assembled_bytes.append(k)
            body = {}
            if k % 4 != 0:
                body['_a_pre'] = pre_link(pre)
            if k % 4 != 1:
                body['_a_post'] = post_link(post)
            return type('Own%d' % k, (Assembler,), body)
        kinds = [cls_of(k) for k in range(rng.randrange(2, 5))]
        mine = [lambda a: log.append(('pre', 'mine', type(a)))], [lambda a: log.append(('post', 'mine', type(a)))]
        keep = [list(x) for x in mine]
        out = os.path.join(d, 'own.out')
        order = []
        for _ in range(rng.randrange(2, 7)):
            k = rng.randrange(len(kinds))
            way = rng.choice(('plain', 'plain', 'pre', 'post', 'both'))
            order.append((k, way))
            kw = {}
            if way in ('pre', 'both'):
                kw['pre_link_passes'] = mine[0]
            if way in ('post', 'both'):
                kw['post_link_passes'] = mine[1]
            want = []
            if k % 4 != 0:
                want.append(('pre', k))
            if way in ('pre', 'both'):
                want.append(('pre', 'mine'))
            if k % 4 != 1:
                want.append(('post', k))
            if way in ('post', 'both'):
                want.append(('post', 'mine'))
            del log[:]
            argv = sys.argv
            sys.argv = ['x', src, out]
            err = None
            try:
                kinds[k].main(**kw)
            except Exception as e:
                err = e
            finally:
                sys.argv = argv
            with open(out, 'rb') as f:
                got = f.read()
            chk.case(('own passes', i, len(order)))
            chk.count('entry_point_runs')
            rep = {'runs': order, 'log': [x[:2] for x in log]}
            chk.expect(err is None and sorted(map(str, (x[:2] for x in log))) == sorted(map(str, want)) and all(x[2] is kinds[k] for x in log), 'main-passes',
                       lambda: 'after the runs %s of main (class, passes given): passes %s, expected %s, %r' % (order, [x[:2] for x in log], want, err), rep)
            base = b'\x02\x00\x01'
            chk.expect(got == base + (bytes([k]) if k % 4 != 1 else b''), 'main-image', lambda: 'after the runs %s of main: image %s' % (order, hx(got)), rep)
            chk.expect([list(x) for x in mine] == keep, 'main-lists', lambda: 'main changed the lists of passes it was given: %s' % order, rep)


def diff(a, b):
    return '; '.join('%s: %s / %s' % (k, str(a[k])[:160], str(b[k])[:160]) for k in a if a[k] != b[k])
