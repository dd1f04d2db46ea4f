"""Witness workspace: generate, build under the extracting compiler driver, collect results."""
import glob
import json
import os
import shutil
import subprocess
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('PV_REPO', '/repo')
WORK = os.environ.get('PV_WORK') or os.path.join(VERIF, 'work')
TARGET = os.path.join(os.environ['PV_WORK'], 'target') if os.environ.get('PV_WORK') else os.path.join(VERIF, 'target')
DRIVER_DIR = os.path.join(VERIF, 'driver')
DRIVER = os.path.join(DRIVER_DIR, 'target', 'release', 'pvdriver')

HOOKS = '''
pub mod hooks {
    pub struct T<const N: usize>(u8);
    impl<const N: usize> Drop for T<N> { fn drop(&mut self) {} }
    pub struct E(u8);
    impl Drop for E { fn drop(&mut self) {} }
    impl Default for E { fn default() -> E { loop {} } }
    pub struct X(u8);
    impl Drop for X { fn drop(&mut self) {} }
    pub fn act<const R: usize, X, A, Ret>(_x: &mut X, _a: A) -> Ret { loop {} }
    pub fn act_try<const R: usize, X, A, Ret, Er>(_x: &mut X, _a: A) -> Result<Ret, Er> { loop {} }
    pub fn on_syntax<X, Tok, Ret, Er>(_x: &mut X, _t: Option<Tok>) -> Result<Ret, Er> { loop {} }
    pub fn on_fail<X, Er>(_x: &mut X) -> Er { loop {} }
    pub fn on_overflow<X, Tok, Er>(_x: &mut X, _t: Option<Tok>) -> Er { loop {} }
    pub fn exp<T>(_n: &'static str, _t: T) {}
    pub struct WStack<T>(core::marker::PhantomData<T>);
    impl<T> Drop for WStack<T> { fn drop(&mut self) {} }
    impl<T> WStack<T> {
        pub fn new() -> Self { loop {} }
        pub fn push(&mut self, _t: T) { loop {} }
        pub fn pop(&mut self) -> Option<T> { loop {} }
        pub fn last(&self) -> Option<&T> { loop {} }
        pub fn is_empty(&self) -> bool { loop {} }
        pub fn clear(&mut self) { loop {} }
        pub fn len(&self) -> usize { loop {} }
    }
}
'''


class ToolError(Exception):
    pass


def sysroot():
    return subprocess.check_output(['rustc', '+nightly', '--print', 'sysroot'], text=True).strip()


def env(extra=None):
    e = dict(os.environ)
    for k in list(e):
        if k.startswith('CARGO') and k not in ('CARGO_HOME',) or k in ('RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTC', 'RUSTDOCFLAGS', 'RUSTUP_TOOLCHAIN'):
            del e[k]
    e['CARGO_NET_OFFLINE'] = 'true'
    e['CARGO_TERM_COLOR'] = 'never'
    e['CARGO_INCREMENTAL'] = '0'
    if extra:
        e.update(extra)
    return e


def build_driver():
    e = env()
    r = subprocess.run(['cargo', '+nightly', 'build', '--release', '--offline', '--quiet'], cwd=DRIVER_DIR, env=e,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode or not os.path.exists(DRIVER):
        raise ToolError('driver build failed:\n' + r.stdout[-3000:])


class Workspace:
    """a directory with member crates holding witness modules"""

    def __init__(self, name, ncrates=8, base=None):
        self.dir = os.path.join(base or WORK, name)
        self.n = ncrates
        self.target = os.path.join(TARGET, 'wit')
        self.out = os.path.join(self.dir, 'out')

    def write(self, mods):
        """mods: list of (modname, body, weight)"""
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.out)
        n = min(self.n, max(1, len(mods)))
        bins = [[0, []] for _ in range(n)]
        for m in sorted(mods, key=lambda m: -m[2]):
            b = min(bins, key=lambda b: b[0])
            b[0] += m[2]
            b[1].append(m)
        self.lines = {}
        names = []
        for i, (_, ms) in enumerate(bins):
            cn = 'wit_%s_%d' % (os.path.basename(self.dir), i)
            names.append(cn)
            d = os.path.join(self.dir, cn, 'src')
            os.makedirs(d)
            with open(os.path.join(self.dir, cn, 'Cargo.toml'), 'w') as f:
                f.write('[package]\nname = "%s"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\npomelo = { path = "%s" }\n' % (cn, REPO))
            src = '#![allow(warnings)]\n' + HOOKS
            ranges = []
            for name, body, _ in ms:
                start = src.count('\n') + 1
                src += 'pub mod %s {\n    use pomelo::pomelo;\n%s\n}\n' % (name, body)
                ranges.append((start, src.count('\n') + 1, name))
            self.lines[cn] = ranges
            with open(os.path.join(d, 'lib.rs'), 'w') as f:
                f.write(src)
        with open(os.path.join(self.dir, 'Cargo.toml'), 'w') as f:
            f.write('[workspace]\nresolver = "2"\nmembers = [%s]\n[profile.dev]\ndebug = 0\n' % ', '.join('"%s"' % c for c in names))
        lock = os.path.join(HERE, 'Cargo.lock.in')
        self.names = names
        if os.path.exists(lock):
            self.write_lock(lock)

    def write_lock(self, lock):
        s = open(lock).read()
        for c in self.names:
            s += '\n[[package]]\nname = "%s"\nversion = "0.0.0"\ndependencies = [\n "pomelo",\n]\n' % c
        with open(os.path.join(self.dir, 'Cargo.lock'), 'w') as f:
            f.write(s)

    def clean_pomelo(self):
        subprocess.run(['cargo', '+nightly', 'clean', '--offline', '-p', 'pomelo', '-p', 'pomelo-impl'], cwd=self.dir,
                       env=env({'CARGO_TARGET_DIR': self.target}), stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)

    def build(self, timeout=600, extra_env=None, clean=True):
        """returns (errors by module, other errors)"""
        if clean:
            self.clean_pomelo()
        e = env({'CARGO_TARGET_DIR': self.target, 'PV_OUT': self.out, 'RUSTC_WRAPPER': DRIVER,
                 'LD_LIBRARY_PATH': os.path.join(sysroot(), 'lib')})
        if extra_env:
            e.update(extra_env)
        try:
            r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--keep-going', '--message-format=json', '-j8'],
                               cwd=self.dir, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout)
        except subprocess.TimeoutExpired:
            return None, ['timeout']
        bymod, other = {}, []
        for ln in r.stdout.splitlines():
            if not ln.startswith('{'):
                continue
            try:
                d = json.loads(ln)
            except ValueError:      # the report of %verbose
                continue
            if d.get('reason') != 'compiler-message':
                continue
            msg = d['message']
            if msg['level'] not in ('error', 'error: internal compiler error'):
                continue
            crate = d['target']['name']
            mod = self.find_mod(crate, msg)
            if mod:
                bymod.setdefault(mod, []).append(msg)
            elif not msg['message'].startswith('aborting due to'):
                other.append(msg.get('rendered') or msg['message'])
        if r.returncode and not bymod and not other:
            other.append(r.stderr[-2000:])
        self.log = r.stderr
        return bymod, other

    def find_mod(self, crate, msg):
        def spans(m):
            for s in m.get('spans', []):
                x = s
                while x:
                    yield x
                    x = (x.get('expansion') or {}).get('span')
            for c in m.get('children', []):
                yield from spans(c)
        for s in spans(msg):
            if s['file_name'].endswith('lib.rs') and crate in s['file_name']:
                for a, b, n in self.lines.get(crate, ()):
                    if a <= s['line_start'] <= b:
                        return n
        return None

    def result(self, mod):
        p = os.path.join(self.out, mod + '.jsonl')
        if not os.path.exists(p):
            return None
        return p
