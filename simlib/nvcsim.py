"""Whole nvc in simulated processes (sim/h2.c)."""
import hashlib, json, os, queue, shutil, subprocess, tempfile, threading
from concurrent.futures import ThreadPoolExecutor
from .common import *

H2P = os.path.join(B, 'bin', 'h2p')
H2T = os.path.join(B, 'bin', 'h2t')
LIBS = os.path.join(B, 'libs')
LSRC = REPO + '/lib'

LIBSTEPS = [
    ('std.08', ['-a', '--bootstrap'], ['std.08/standard.vhd']),
    ('std.08', ['-a'], ['std/standard-body.vhd']),
    ('nvc.08', ['-a'], ['nvc/sim_pkg.vhd', 'nvc/sim_pkg-body.vhd', 'nvc.08/polyfill.vhd']),
    ('std.08', ['-a'], ['std.08/textio.vhd', 'std/textio-body.vhd']),
    ('std.08', ['-a'], ['std.08/env.vhd', 'std.08/env-body.vhd']),
    ('ieee.08', ['-a'], ['ieee.08/std_logic_1164.vhdl', 'ieee.08/std_logic_1164-body.vhdl']),
    ('ieee.08', ['-a'], ['ieee.08/numeric_std.vhdl', 'ieee.08/numeric_std-body.vhdl']),
    ('nvc.08', ['-a'], ['nvc/text_util.vhd', 'nvc/text_util-body.vhd']),
    ('nvc.08', ['-a'], ['nvc/psl_support.vhd', 'nvc/psl_support-body.vhd']),
    ('nvc.08', ['-a'], ['nvc/verilog.vhd', 'nvc/verilog-body.vhd']),
    ('nvc.08', ['-a'], ['nvc/cover_pkg.vhd', 'nvc/cover_pkg-body.vhd']),
    ('nvc.08', ['-a'], ['nvc/random.vhd', 'nvc/random-body.vhd']),
    ('std.19', ['-a', '--bootstrap'], ['std.19/standard.vhd']),
    ('std.19', ['-a'], ['std/standard-body.vhd']),
    ('nvc.19', ['-a'], ['nvc/sim_pkg.vhd', 'nvc/sim_pkg-body.vhd', 'nvc.08/polyfill.vhd']),
    ('nvc.19', ['-a'], ['nvc/text_util.vhd', 'nvc/text_util-body.vhd']),
    ('std.19', ['-a'], ['std.19/textio.vhdl', 'std.19/env.vhdl', 'std/textio-body.vhd', 'std.19/env-body.vhd']),
    ('ieee.08', ['-a'], ['ieee/math_real.vhdl', 'ieee/math_real-body.vhdl']),
    ('ieee.08', ['-a'], ['ieee.08/numeric_bit.vhdl', 'ieee.08/numeric_bit-body.vhdl']),
    ('ieee.08', ['-a', '--relaxed'], ['synopsys/std_logic_arith.vhd', 'synopsys/std_logic_unsigned.vhd',
                         'synopsys/std_logic_signed.vhd']),
]


class Server:
    def __init__(self, binary=H2P):
        self.binary = binary
        self.p = None

    def start(self):
        self.p = subprocess.Popen([self.binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                                  stderr=subprocess.DEVNULL)

    def close(self):
        if self.p:
            self.p.stdin.close()
            self.p.wait()
            self.p = None

    def run(self, dir, procs, out='out', env=None, plan=None, **kw):
        """procs: list of argv lists (one simulated process each)."""
        if self.p is None:
            self.start()
        f = ['dir=' + dir, 'out=' + out]
        for a in procs:
            f.append('p=' + '\x1f'.join(a))
        if env:
            f.append('env=' + '\x1f'.join('%s=%s' % kv for kv in env.items()))
        if plan:
            f.append('plan=' + ','.join('%d:%s:%d' % e for e in plan))
        for k, v in kw.items():
            f.append('%s=%s' % (k, v))
        self.p.stdin.write(('\t'.join(f) + '\n').encode())
        self.p.stdin.flush()
        line = self.p.stdout.readline()
        if not line:
            raise CheckError('simulation server died')
        r = json.loads(line)
        outs = []
        for i in range(len(procs)):
            p = os.path.join(dir, out + ('.%d' % i if len(procs) > 1 else ''))
            try:
                outs.append(open(p, errors='replace').read())
            except OSError:
                outs.append('')
        r['outs'] = outs
        return r


class Pool:
    """One server per worker thread."""

    def __init__(self, binary=H2P, n=NCPU):
        self.n = n
        self.q = queue.Queue()
        for _ in range(n):
            self.q.put(Server(binary))
        self.ex = ThreadPoolExecutor(n)

    def map(self, fn, items):
        def w(x):
            s = self.q.get()
            try:
                return fn(s, x)
            finally:
                self.q.put(s)
        return self.ex.map(w, items)

    def close(self):
        self.ex.shutdown()
        while not self.q.empty():
            self.q.get().close()


def setup(*binaries):
    """Builds the binaries and the standard libraries from /repo."""
    make(*(binaries or (H2P,)), H2P)
    h = hashlib.sha1()
    h.update(open(H2P, 'rb').read())
    for _, _, fs in LIBSTEPS:
        for f in fs:
            h.update(open(os.path.join(LSRC, f), 'rb').read())
    stamp = os.path.join(LIBS, 'stamp')
    if os.path.exists(stamp) and open(stamp).read() == h.hexdigest():
        return
    shutil.rmtree(LIBS, ignore_errors=True)
    os.makedirs(LIBS + '/lib')
    s = Server()
    for lib, opts, files in LIBSTEPS:
        r = s.run(LIBS, [['nvc', '--std=20' + lib[-2:], '-L', 'lib', '--work=lib/' + lib] + opts
                         + [os.path.join(LSRC, f) for f in files]],
                  now=4 * 10**18)
        if r['procs'][0]['rc'] != 0 or r['procs'][0]['sim'] != 'ok':
            raise CheckError('building library %s failed: %s %s'
                             % (lib, r['procs'], r['outs'][0][-2000:]))
    s.close()
    # An empty preload library: everything runs in the JIT under test
    src = os.path.join(LIBS, 'stub.c')
    with open(src, 'w') as f:
        f.write('#include "util.h"\n#include "rt/rt.h"\nuint32_t __nvc_abi_version = RT_ABI_VERSION;\n')
    for y in ('08', '19'):
        subprocess.run(['gcc', '-shared', '-fPIC', '-DHAVE_CONFIG_H', '-w', '-I', V + '/sim/conf', '-I',
                        REPO + '/src', '-o', LIBS + '/lib/preload%s.so' % y, src], check=True)
    # The same libraries with their packages compiled ahead of time
    os.makedirs(LIBS + '/aot')
    for lib in sorted({l for l, _, _ in LIBSTEPS}):
        shutil.copytree(LIBS + '/lib/' + lib, LIBS + '/aot/' + lib)
    for y, libs in (('08', ['std', 'nvc', 'ieee']), ('19', ['std', 'nvc'])):
        s = Server()
        r = s.run(LIBS, [['nvc', '--std=20' + y, '-L', 'lib', '--work=lib/std.' + y, '--aotgen', '-O1', '-o',
                          'aot/preload%s.so' % y] + libs], now=4 * 10**18, secs=300)
        s.close()
        if r['procs'][0]['rc'] != 0 or not os.path.exists(LIBS + '/aot/preload%s.so' % y):
            raise CheckError('compiling the libraries failed: %s %s' % (r['procs'], r['outs'][0][-2000:]))
    with open(stamp, 'w') as f:
        f.write(h.hexdigest())


def scratch():
    base = '/dev/shm' if os.path.isdir('/dev/shm') else '/tmp'
    return tempfile.mkdtemp(prefix='nvcsim.', dir=base)


def lib_args(std=2008, aot=False):
    return ['--std=%d' % std, '-L', LIBS + ('/aot' if aot else '/lib')]
