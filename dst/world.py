"""The simulated world of one run: scratch tree, simulated disk/clock/entropy (shim), builds as separate processes that
can die, asynchronous exceptions at a chosen instant."""
import ctypes
import dis
import io
import linecache
import os
import pickle
import random
import shutil
import signal
import sys
import threading

from .backends import B

REPO = os.environ.get('NECRO_REPO', '/repo')
CODE = os.path.join(os.path.realpath(REPO), 'necroassembler') + os.sep

OPS = ['any', 'openr', 'openw', 'read', 'write', 'close', 'trunc', 'rename', 'unlink', 'fsync', 'mkdir', 'link', 'attr', 'escape']
OP = {n: i for i, n in enumerate(OPS)}
ACT = {'err': 1, 'short': 2, 'crash': 3, 'replace': 4}


class LogEnt(ctypes.Structure):
    _fields_ = [(n, ctypes.c_int) for n in ('op', 'fd', 'name', 'err', 'rule')] + [('arg', ctypes.c_long), ('ret', ctypes.c_long)]


class Shim:
    def __init__(self):
        c = ctypes.CDLL(None)
        self.c = c
        c.sim_log.restype = ctypes.POINTER(LogEnt)
        c.sim_name.restype = ctypes.c_char_p
        for n in ('sim_clock_now', 'sim_clock_reads', 'sim_rnd_reads'):
            getattr(c, n).restype = ctypes.c_long
        c.sim_clock.argtypes = [ctypes.c_int, ctypes.c_long, ctypes.c_long]
        c.sim_clock_add.argtypes = [ctypes.c_long]
        c.sim_entropy.argtypes = [ctypes.c_uint64]
        c.sim_add_rule.argtypes = [ctypes.c_int, ctypes.c_char_p, ctypes.c_int, ctypes.c_int, ctypes.c_int, ctypes.c_long, ctypes.c_char_p]
        self.nrules = 0

    def reset(self):
        self.c.sim_reset()
        self.nrules = 0

    def begin(self, prefix):
        self.c.sim_begin(prefix.encode())

    def end(self):
        self.c.sim_end()

    def resume(self):
        self.c.sim_resume()

    def rules(self, rules):
        """rules: list of {'op','f' (glob), 'nth', 'count', 'act', 'arg', 'extra'}"""
        self.c.sim_clear_rules()
        for r in rules:
            self.c.sim_add_rule(OP[r['op']], r['f'].encode(), r.get('nth', 0), r.get('count', -1), ACT[r['act']], r.get('arg', 0),
                                r.get('extra', '').encode())
        self.nrules = len(rules)

    def fired(self):
        return [self.c.sim_rule_fired(i) for i in range(self.nrules)]

    def log(self):
        out = []
        for i in range(self.c.sim_nlog()):
            e = self.c.sim_log(i).contents
            out.append((OPS[e.op], self.c.sim_name(e.name).decode(), e.arg, e.ret, e.err, e.rule))
        return out

    def nopen(self):
        return self.c.sim_nopen()


def content(spec):
    """file content from its JSON form: text, {'hex':..} or {'rep':[byte,count]}, {'cat':[..]}"""
    if isinstance(spec, str):
        return spec.encode('utf-8')
    if 'hex' in spec:
        return bytes.fromhex(spec['hex'])
    if 'rep' in spec:
        return bytes([spec['rep'][0]]) * spec['rep'][1]
    if 'rnd' in spec:
        return random.Random(spec['rnd'][0]).randbytes(spec['rnd'][1])
    return b''.join(content(x) for x in spec['cat'])


class Interrupt:
    """raises an exception in the code under test at its nth line event, or (entry) on the nth entry into one of its functions"""

    def __init__(self, nth, exc, budget=None, entry=False):
        self.nth, self.exc, self.count, self.fired, self.budget = nth, exc, 0, False, budget
        self.entry = entry
        self.where = None

    def __call__(self, frame, event, arg):
        code = frame.f_code
        if not code.co_filename.startswith(CODE):
            return None
        if not self.entry:
            return self.local
        # not while a clean-up runs, and not where a generator is resumed
        if code.co_name in ('__exit__', '__del__', 'close') or code.co_flags & 0x20 and frame.f_lasti > 4:
            return None
        self.tick(frame)
        return self.local if self.budget is not None else None

    def local(self, frame, event, arg):
        if event == 'line':
            if self.entry:
                self.count_line()
            else:
                self.tick(frame)
        return self.local

    def count_line(self):
        self.lines += 1
        if self.lines > self.budget:
            os._exit(98)

    lines = 0

    def tick(self, frame):
        self.count += 1
        if self.budget is not None and self.count > self.budget:
            os._exit(98)
        if self.nth is not None and self.count >= self.nth and not self.fired and not (not self.entry and leaving_with(frame)):
            self.fired = True
            self.where = '%s:%d' % (os.path.basename(frame.f_code.co_filename), frame.f_lineno)
            if self.exc is None:
                os._exit(99)
            raise self.exc()

    def __enter__(self):
        sys.settrace(self)
        return self

    def __exit__(self, *a):
        sys.settrace(None)


def leaving_with(frame):
    """the line event between the end of a with block and the call of __exit__: CPython delivers no signal there"""
    return dis.opname[frame.f_code.co_code[frame.f_lasti]] == 'LOAD_CONST' and \
        linecache.getline(frame.f_code.co_filename, frame.f_lineno).lstrip().startswith('with ')


EXCS = {'die': None, 'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError, 'OSError': OSError}


def fe_main(fe):
    kind, _, arg = fe.partition(':')
    if kind == 'cpu':
        return B[arg].cls().main
    import importlib
    m = {'nes': 'nes', 'gba': 'gba', 'genesis': 'genesis', 'psx': 'psx', 'i386': 'i386_elf32', 'x64': 'x86_64_elf64', 'ppc': 'ppc_elf32'}[kind]
    return importlib.import_module('necroassembler.platforms.' + m).main


FE_BACKEND = {'nes': 'nes', 'gba': 'thumb', 'genesis': '68000', 'psx': 'psx', 'i386': '8086', 'x64': 'x86', 'ppc': 'ppc'}


def fe_backend(fe):
    kind, _, arg = fe.partition(':')
    return B[arg if kind == 'cpu' else FE_BACKEND[kind]]


def multi_source(fe):
    return fe.partition(':')[0] in ('cpu', 'i386', 'x64', 'ppc')


class Build:
    """result of one simulated command line build"""
    died = False       # killed by the simulated crash
    ok = False         # ended without an error
    exc = ''
    msg = ''
    hung = False
    log = ()
    fired = ()
    injected = None
    lines = 0
    nopen = 0
    clock_reads = 0
    out = ''


class World:
    def __init__(self, root, budget=None):
        self.root = root
        self.tree = root + '/t'
        self.shim = Shim()
        self.budget = budget
        self.faults = {}

    def fresh(self):
        if os.path.lexists(self.tree):
            shutil.rmtree(self.tree)
        os.makedirs(self.tree)
        os.makedirs(self.root + '/side', exist_ok=True)

    def put(self, files, base=None):
        base = base or self.tree
        for name, spec in files.items():
            p = os.path.join(base, name)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            if isinstance(spec, dict) and 'dir' in spec:
                os.makedirs(p, exist_ok=True)
                continue
            if isinstance(spec, dict) and 'link' in spec:
                os.symlink(spec['link'], p)
                continue
            with open(p, 'wb') as f:
                f.write(spec if isinstance(spec, bytes) else content(spec))

    def age(self, how, newest=()):
        """give every file of the tree a modification time of the simulator's choosing; how: a number"""
        rng = random.Random(how)
        mode = how % 4
        for d, dirs, files in sorted(os.walk(self.tree)):
            for n in sorted(files):
                p = os.path.join(d, n)
                if os.path.islink(p):
                    continue
                t = rng.choice((0, 1, 10 ** 9, 1500000000, 1600000000, 2 ** 31 - 1, 4 * 10 ** 9))
                if mode == 0:
                    t = 10 ** 9
                elif mode == 1:
                    t = 1600000000 if os.path.relpath(p, self.tree) in newest else rng.choice((0, 10 ** 9, 1500000000))
                elif mode == 2:
                    t = 0 if os.path.relpath(p, self.tree) in newest else t
                os.utime(p, (t, t))
        self.count('ages of files set')

    def snapshot(self, base=None):
        base = base or self.tree
        out = {}
        for d, dirs, files in os.walk(base):
            for n in dirs + files:
                p = os.path.join(d, n)
                rel = os.path.relpath(p, base)
                st = os.lstat(p)
                if os.path.islink(p):
                    out[rel] = ('l', os.readlink(p))
                elif os.path.isdir(p):
                    out[rel] = ('d', st.st_mode)
                else:
                    with open(p, 'rb') as f:
                        out[rel] = ('f', st.st_mode, f.read())
        return out

    def read(self, name):
        p = os.path.join(self.tree, name)
        try:
            with open(p, 'rb') as f:
                return f.read()
        except (FileNotFoundError, IsADirectoryError, NotADirectoryError):
            return None

    def count(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def tally(self, rules, fired):
        for r, n in zip(rules, fired):
            if n:
                k = r['act'] + ':' + r['op']
                if r['act'] == 'err':
                    import errno
                    k += ':' + errno.errorcode.get(r['arg'], '?')
                self.count(k, n)

    def build(self, fe, argv, rules=(), inject=None, cwd='.', env=None, pre=None, clock=None, thread=False):
        """run one command line build in its own process; inject: {'nth':n,'exc':name}"""
        sh = self.shim
        sh.reset()
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                res = self._child(fe, argv, rules, inject, cwd, env, pre, clock, thread)
                data = pickle.dumps(res)
                while data:
                    data = data[os.write(w, data):]
            except BaseException as e:     # harness error in the child
                try:
                    os.write(w, pickle.dumps({'harness': repr(e)}))
                except BaseException:
                    pass
            os._exit(0)
        os.close(w)
        chunks = []
        while True:
            d = os.read(r, 1 << 16)
            if not d:
                break
            chunks.append(d)
        os.close(r)
        _, status = os.waitpid(pid, 0)
        sh.nrules = len(rules)
        b = Build()
        b.log = sh.log()
        b.fired = sh.fired()
        self.tally(rules, b.fired)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99:
            b.died = True
            b.exc = 'died'
            return b
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 98:
            b.hung = True
            b.exc = 'hung'
            os._exit(98)       # the whole run is reported as one that does not end
        if not chunks:
            b.exc = 'killed by signal %d' % (status & 127)
            b.died = True
            return b
        res = pickle.loads(b''.join(chunks))
        if 'harness' in res:
            raise RuntimeError(res['harness'])
        b.__dict__.update(res)
        if b.injected:
            self.count('interrupt:' + inject['exc'])
        return b

    def race(self, procs, sched):
        """run several command line builds as processes in lock step: before each file operation a process waits for its turn.
        procs: [{'fe','argv','cwd','rules','inject'}..]; sched: [[process, operations]..] decides who goes on; what is left runs in order.
        -> ([Build..], trace of (process, operation))"""
        sh = self.shim
        run = []
        trace = []
        held = []
        for n, q in enumerate(procs):
            sh.reset()
            r, w = os.pipe()        # results
            gr, gw = os.pipe()      # the process reports an operation
            tr, tw = os.pipe()      # its turn
            pid = os.fork()
            if pid == 0:
                try:
                    for fd in held + [r, gr, tw]:
                        os.close(fd)
                    sh.c.sim_gate(gw, tr)
                    res = self._child(q['fe'], q['argv'], q.get('rules', ()), q.get('inject'), q.get('cwd', '.'), None, None, None, False)
                    sh.c.sim_gate(-1, -1)
                    res['fired'] = sh.fired()
                    res['log'] = sh.log()[-200:]
                    data = pickle.dumps(res)
                except BaseException as e:     # harness error in the child
                    data = pickle.dumps({'harness': repr(e)})
                try:
                    os.close(gw)
                    while data:
                        data = data[os.write(w, data):]
                finally:
                    os._exit(0)
            for fd in (w, gw, tr):
                os.close(fd)
            held += [r, gr, tw]
            run.append({'pid': pid, 'r': r, 'g': gr, 't': tw})
            # up to its first file operation
            run[-1]['op'] = os.read(gr, 1)
        queue = [list(x) for x in sched] + [[n, -1] for n in range(len(procs))]
        for n, count in queue:
            x = run[n % len(run)]
            while count and x['op']:
                trace.append((n % len(run), OPS[x['op'][0]]))
                os.write(x['t'], b'g')
                x['op'] = os.read(x['g'], 1)
                count -= 1
        out = []
        for x, q in zip(run, procs):
            chunks = []
            while True:
                d = os.read(x['r'], 1 << 16)
                if not d:
                    break
                chunks.append(d)
            for fd in (x['r'], x['g'], x['t']):
                os.close(fd)
            _, status = os.waitpid(x['pid'], 0)
            b = Build()
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 98:
                os._exit(98)
            if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 99 or not chunks:
                b.died = True
                b.exc = 'died %d' % status
                self.count('process death')
            else:
                res = pickle.loads(b''.join(chunks))
                if 'harness' in res:
                    raise RuntimeError(res['harness'])
                b.__dict__.update(res)
                self.tally(q.get('rules', ()), b.fired)
                if b.injected:
                    self.count('interrupt:' + q['inject']['exc'])
            out.append(b)
        return out, trace

    def _child(self, fe, argv, rules, inject, cwd, env, pre, clock, thread):
        os.chdir(os.path.join(self.tree, cwd))
        main = fe_main(fe)
        old = sys.stdout
        sys.stdout = cap = io.StringIO()
        sys.argv = [fe] + list(argv)
        if env:
            os.environ.update(env)
        if pre:
            pre()
        sh = self.shim
        tr = None
        if inject or self.budget:
            tr = Interrupt(inject and inject['nth'], EXCS[inject['exc']] if inject else None, self.budget, bool(inject and inject.get('entry')))
        sh.begin(self.root)
        sh.rules(rules)
        if clock:
            sh.c.sim_clock(1, clock['now'], clock['tick'])
            sh.c.sim_entropy(clock['rnd'])
        res = {'ok': False, 'exc': '', 'msg': ''}
        held = None
        if tr:
            sys.settrace(tr)
        try:
            if thread:
                box = []

                def body():
                    try:
                        box.append((main(), None))
                    except BaseException as e:
                        box.append((None, e))
                t = threading.Thread(target=body, name='builder')
                t.start()
                t.join()
                rc, e = box[0]
                if e is not None:
                    raise e
            else:
                rc = main()
            if rc is None or isinstance(rc, int) and rc == 0:
                res['ok'] = True
            else:
                res['exc'] = 'exit'
                res['msg'] = repr(rc)
        except SystemExit as e:
            if e.code is None or e.code == 0:
                res['ok'] = True
            else:
                res['exc'], res['msg'] = 'SystemExit', repr(e.code)
        except BaseException as e:
            held = e          # the caller still has the exception
            res['exc'], res['msg'] = type(e).__name__, str(e)
        finally:
            sys.settrace(None)
        res['nopen'] = sh.nopen()
        res['clock_reads'] = sh.c.sim_clock_reads() + sh.c.sim_rnd_reads()
        held = None
        sh.end()
        sys.stdout = old
        res['out'] = cap.getvalue()[-2000:]
        if tr:
            res['injected'] = tr.where if tr.fired else None
            res['lines'] = tr.count
        return res


def expected_files(fe, linked, labels):
    """the output files of a front end for a linked image, from the documented formats (independent of the code).
    -> {suffix: bytes} or None if the front end cannot build such an image"""
    kind = fe.partition(':')[0]
    out = bytearray(linked)
    if kind == 'gba':
        if len(out) < 0xBE:
            return None
        out[0xBD] = (-(0x19 + sum(out[0xA0:0xBD]))) & 0xFF
    elif kind == 'genesis':
        if len(out) < 0x200 or len(out) % 2:
            return None
        s = 0
        for i in range(0x200, len(out), 2):
            s += out[i] << 8 | out[i + 1]
        out[0x18E], out[0x18F] = (s >> 8) & 0xFF, s & 0xFF
    elif kind == 'psx':
        out += bytes(-len(out) % 2048)
        h = bytearray(0x800)
        h[:8] = b'PS-X EXE'
        h[0x10:0x14] = (0x80010000).to_bytes(4, 'little')
        h[0x14:0x18] = b'\xff' * 4
        h[0x18:0x1C] = (0x80010000).to_bytes(4, 'little')
        h[0x1C:0x20] = len(out).to_bytes(4, 'little')
        h[0x20:0x24] = bytes.fromhex('F0FF1F80')
        h[0x4C:0x4C + 48] = b'Sony Computer Entertainment Inc. for Europe area'
        out = h + out if out else h[:0x4C + 48]
    res = {'': bytes(out)}
    if kind == 'nes':
        for suffix, lo, hi in (('.0.nl', 0x8000, 0xFFFF), ('.ram.nl', 0, 0x7FF)):
            res[suffix] = b''.join(b'$%04X#%s#\r\n' % (a, n.encode()) for n, a in labels.items() if lo <= a <= hi)
    return res
