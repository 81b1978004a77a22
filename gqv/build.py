"""Build the harness against /repo's working tree and lower it to optimised LLVM IR; build the native replay tool."""
import fcntl
import hashlib
import json
import os
import shutil
import re
import subprocess
import sys
import time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('GQ_REPO', '/repo')
BUILD = os.path.join(VERIF, '.build')
TC = 'stable-x86_64-unknown-linux-gnu'
TRIPLE = 'x86_64-unknown-linux-gnu'
RB = os.path.join(os.path.expanduser('~'), '.rustup/toolchains', TC, 'lib/rustlib', TRIPLE, 'bin')
FLAGS = ('-C opt-level=2 -C no-prepopulate-passes -C codegen-units=1 -C panic=abort -C overflow-checks=on '
         '-C debuginfo=0 --emit=llvm-bc,link,metadata -Zinline-mir=no -Awarnings')
LINK = ('gqh', 'gauss_quad', 'nalgebra', 'num_traits', 'simba', 'serde', 'serde_core', 'rayon', 'rayon_core', 'either',
        'num_complex', 'approx', 'zerocopy', 'rkyv', 'rend', 'rancor', 'munge', 'ptr_meta', 'typenum', 'matrixmultiply')


class BuildError(Exception):
    pass


def sh(cmd, env=None, cwd=None, check=True):
    p = subprocess.run(cmd, env=env, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if check and p.returncode:
        raise BuildError('%s\n%s\n%s' % (' '.join(cmd), p.stdout.decode(errors='replace')[-3000:],
                                         p.stderr.decode(errors='replace')[-6000:]))
    return p


def srchash():
    h = hashlib.sha256()
    roots = [os.path.join(REPO, 'src'), os.path.join(VERIF, 'harness')]
    fs = [os.path.join(REPO, 'Cargo.toml')]
    for r in roots:
        for d, _, names in os.walk(r):
            fs += [os.path.join(d, n) for n in names if n.endswith(('.rs', '.toml', '.lock'))]
    for f in sorted(fs):
        h.update(f.encode() + b'\0')
        h.update(open(f, 'rb').read() + b'\0')
    return h.hexdigest()


def cargo(crate, target_dir, flags, extra=(), native=False):
    # do not rely on modification times alone: forget our own crates when the sources differ from the last build
    mark = os.path.join(target_dir, 'srchash')
    hs = srchash()
    if os.path.exists(mark) and open(mark).read() != hs:
        os.remove(mark)
        fp = os.path.join(target_dir, TRIPLE, 'debug', '.fingerprint')
        if os.path.isdir(fp):
            for d in os.listdir(fp):
                if re.match(r'(gqh|gqn|gauss-quad)-', d):
                    shutil.rmtree(os.path.join(fp, d))
    r = _cargo(crate, target_dir, flags, extra, native)
    open(mark, 'w').write(hs)
    return r


def _cargo(crate, target_dir, flags, extra=(), native=False):
    env = dict(os.environ)
    env.update(RUSTUP_TOOLCHAIN=TC, CARGO_TARGET_DIR=target_dir, CARGO_NET_OFFLINE='true')
    for k in ('CARGO_ENCODED_RUSTFLAGS', 'RUSTC_WRAPPER'):
        env.pop(k, None)
    env['RUSTFLAGS'] = flags
    if not native:
        env['RUSTC_BOOTSTRAP'] = '1'
    else:
        env.pop('RUSTC_BOOTSTRAP', None)
    cmd = ['cargo', 'build', '--offline', '--message-format=json', '--target', TRIPLE] + list(extra)
    p = sh(cmd, env=env, cwd=crate, check=False)
    arts = {}
    msgs = []
    for l in p.stdout.decode(errors='replace').splitlines():
        try:
            d = json.loads(l)
        except ValueError:
            continue
        if d.get('reason') == 'compiler-artifact':
            arts[d['target']['name'].replace('-', '_')] = d
        elif d.get('reason') == 'compiler-message' and d['message'].get('level') == 'error':
            msgs.append(d['message'].get('rendered') or '')
    if p.returncode:
        raise BuildError('cargo build failed in %s\n%s\n%s' % (crate, ''.join(msgs)[-5000:], p.stderr.decode(errors='replace')[-3000:]))
    return arts


def locked(f):
    def g(cfg):
        os.makedirs(BUILD, exist_ok=True)
        with open(os.path.join(BUILD, 'lock.' + f.__name__ + cfg), 'w') as l:
            fcntl.flock(l, fcntl.LOCK_EX)
            return f(cfg)
    return g


@locked
def ll(cfg):
    """-> path of the optimised IR of harness configuration a (libm) or b (std + rayon)"""
    crate = os.path.join(VERIF, 'harness', cfg)
    tgt = os.path.join(BUILD, cfg)
    os.makedirs(tgt, exist_ok=True)
    arts = cargo(crate, tgt, FLAGS)
    bcs = []
    for n in LINK:
        d = arts.get(n)
        if not d:
            continue
        for f in d['filenames']:
            if f.endswith('.rlib'):
                b = os.path.join(os.path.dirname(f), 'deps', os.path.basename(f)[3:-5] + '.bc')
                if not os.path.exists(b):
                    # uplifted artifact: newest matching file in deps
                    dd = os.path.dirname(f)
                    dd = dd if os.path.basename(dd) == 'deps' else os.path.join(dd, 'deps')
                    c = [os.path.join(dd, x) for x in os.listdir(dd) if re.fullmatch(re.escape(n) + r'-[0-9a-f]+\.bc', x)]
                    stem = os.path.basename(f)[3:-5]
                    ex = [x for x in c if os.path.basename(x)[:-3] == stem]
                    c = ex or sorted(c, key=os.path.getmtime)[-1:]
                    if not c:
                        raise BuildError('no bitcode for ' + n)
                    b = c[0]
                bcs.append(b)
    lk = os.path.join(tgt, 'lk.bc')
    sh([RB + '/llvm-link'] + bcs + ['-o', lk])
    raw = os.path.join(tgt, 'raw.ll')
    sh([RB + '/llvm-dis', lk, '-o', raw])
    txt = open(raw).read()
    api = []
    out = []
    for l in txt.split('\n'):
        if l.startswith('define '):
            m = re.search(r'@("[^"]+"|[\w.$]+)\(', l)
            nm = m.group(1).strip('"')
            if nm.startswith('h_') or nm == 'stub_decompose':
                api.append(nm)
            keep = None
            if re.search(r'SymmetricEigen.{0,200}12?do_decompose', nm) and '{{closure' not in nm and '{closure' not in nm and 'Schur' not in nm:
                keep = True
                l = l.replace('define internal ', 'define ', 1)
                api.append(nm)
            if re.search(r'gauss_quad4math5gamma(?![\w]*closure)|gauss_quad4math5gamma$', nm) and 'closure' not in nm:
                keep = True
            if keep:
                l = re.sub(r'(\) unnamed_addr|\))( #\d+)', r'\1 noinline\2', l, count=1) if re.search(r'\)( unnamed_addr)? #\d+', l) else l
        elif l.startswith('declare ') and re.search(r'@(vf|vout|vouti|vint|vflt|vhavoc|vsched|veig_\w+)\(', l):
            # the environment never unwinds
            l = re.sub(r'\)( unnamed_addr)?( #\d+)?$', lambda m: ')%s nounwind%s' % (m.group(1) or '', m.group(2) or ''), l)
        out.append(l)
    pre = os.path.join(tgt, 'pre.ll')
    open(pre, 'w').write('\n'.join(out))
    lst = os.path.join(tgt, 'api.txt')
    open(lst, 'w').write('\n'.join(api))
    o = os.path.join(tgt, 'o.ll')
    sh([RB + '/opt', '-passes=internalize,globaldce,default<O2>', '-vectorize-loops=false', '-vectorize-slp=false',
        '-unroll-threshold=0', '-unroll-runtime=false', '-internalize-public-api-file=' + lst, '-S', pre, '-o', o + '.tmp'])
    os.replace(o + '.tmp', o)
    for f in (lk, raw, pre):
        os.remove(f)
    return o


@locked
def native(cfg):
    """-> path of the native replay tool (a: libm; b: std + real rayon)"""
    crate = os.path.join(VERIF, 'harness', 'native', cfg)
    tgt = os.path.join(BUILD, 'n' + cfg)
    os.makedirs(tgt, exist_ok=True)
    arts = cargo(crate, tgt, '-Awarnings', native=True)
    return arts['gqn']['executable']


if __name__ == '__main__':
    for c in sys.argv[1:]:
        t = time.time()
        print(native(c[1]) if c[0] == 'n' else ll(c), round(time.time() - t, 1))
