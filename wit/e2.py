"""E2: compile-fail witnesses with compiling twins.  Every case is one crate given to rustc; nothing is run."""
import concurrent.futures
import json
import os
import re
import shutil
import subprocess

import lib

OPEN, CLOSE = '⟦', '⟧'


class Case:
    """src: the whole crate, with ⟦ ⟧ around the construct(s) the error has to be on.  want: 'ok', 'err' or 'any'
    (any: rejected or not, but without a panic and with a location)."""

    def __init__(self, name, src, want, msg=None, code=None, cap=True, edition='2021'):
        self.name, self.want, self.msg, self.code, self.cap, self.edition = name, want, msg, code, cap, edition
        self.marks = []
        out, line, col, st = [], 1, 1, None
        for ch in src:
            if ch == OPEN:
                st = (line, col)
                continue
            if ch == CLOSE:
                self.marks.append((st, (line, col)))
                continue
            out.append(ch)
            if ch == '\n':
                line, col = line + 1, 1
            else:
                col += 1
        self.src = ''.join(out)


class Lab:
    """pomelo built once from the current tree, then one rustc per case"""

    def __init__(self, name):
        self.dir = os.path.join(lib.WORK, name + '_e2')
        if os.path.isdir(self.dir):
            shutil.rmtree(self.dir)
        os.makedirs(self.dir)
        ws = lib.Workspace(name + '_e2base', ncrates=1)
        ws.write([('base', '', 1)])
        ws.clean_pomelo()
        e = lib.env({'CARGO_TARGET_DIR': ws.target})
        r = subprocess.run(['cargo', '+nightly', 'check', '--offline', '--message-format=json'], cwd=ws.dir, env=e,
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
        self.meta, dirs = None, set()
        for ln in r.stdout.splitlines():
            if ln.startswith('{'):
                d = json.loads(ln)
                if d.get('reason') == 'compiler-artifact':
                    dirs.update(os.path.dirname(f) for f in d['filenames'])
                if d.get('reason') == 'compiler-artifact' and d['target']['name'] == 'pomelo':
                    self.meta = [f for f in d['filenames'] if f.endswith('.rmeta')][0]
        if r.returncode or not self.meta:
            raise lib.ToolError('pomelo does not build: ' + r.stderr[-2000:])
        self.deps = [x for y in sorted(dirs) for x in ('-L', 'dependency=' + y)]
        self.rustc = subprocess.check_output(['rustup', 'which', '--toolchain', 'nightly', 'rustc'], text=True).strip()

    def one(self, case, timeout=40, extra=()):
        src = os.path.join(self.dir, case.name + '.rs')
        with open(src, 'w') as f:
            f.write(case.src)
        cmd = [self.rustc, '--edition', case.edition, '--crate-type', 'lib', '--crate-name', 'case_' + re.sub(r'\W', '_', case.name),
               '--emit', 'metadata', '--error-format=json', '--extern',
               'pomelo=' + self.meta, '-o', os.path.join(self.dir, case.name + '.rmeta'), src] + (['--cap-lints', 'warn'] if case.cap else []) + self.deps + list(extra)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout,
                               env=lib.env({'RUST_BACKTRACE': '0'}), cwd=self.dir, errors='replace', preexec_fn=limits)
        except subprocess.TimeoutExpired:
            return {'timeout': True, 'diags': [], 'rc': None, 'out': ''}
        diags, junk = [], []
        for ln in r.stderr.splitlines():
            if ln.startswith('{'):
                d = json.loads(ln)
                if d.get('level', '').startswith('error') and not d['message'].startswith('aborting due to'):
                    diags.append(d)
            else:
                junk.append(ln)
        return {'timeout': False, 'diags': diags, 'rc': r.returncode, 'out': r.stdout, 'junk': '\n'.join(junk)[-800:], 'src': src}

    def judge(self, case, r):
        """None or a message saying what is wrong"""
        if r['timeout']:
            return 'the expansion does not end'
        for d in r['diags']:
            if 'panicked' in d['message'] or 'internal compiler error' in d['level'] or 'internal compiler error' in d['message']:
                return 'the macro panics: %s' % (d.get('rendered') or d['message'])[:400]
        if r['rc'] not in (0, 1):
            return 'the compiler dies with status %s: %s' % (r['rc'], r['junk'])
        if case.want == 'ok':
            if r['rc']:
                return 'is rejected: %s' % '; '.join((d.get('rendered') or d['message'])[:300] for d in r['diags'][:2])
            return None
        if case.want == 'err' and r['rc'] == 0:
            return 'is accepted'
        if r['rc'] and not r['diags']:
            return 'fails without a diagnostic: %s' % r['junk']
        for d in r['diags']:
            if not any(user_span(s, r['src']) for s in d['spans']):
                if d['spans'] or case.want == 'err':
                    return 'an error has no location in the source: %s' % d['message'][:200]
        if case.want == 'any':
            return None
        if case.marks:
            # the first error is the one about the mistake
            d = r['diags'][0]
            hit = False
            for s in d['spans']:
                if not s['is_primary'] or s['file_name'] != r['src']:
                    continue
                a, b = (s['line_start'], s['column_start']), (s['line_end'], s['column_end'])
                for st, en in case.marks:
                    if a >= st and b <= en:
                        hit = True
            if not hit:
                s = d['spans'][0] if d['spans'] else None
                return 'the error "%s" is at %s instead of %s' % (
                    d['message'][:120].replace('\n', ' '),
                    '%d:%d-%d:%d' % (s['line_start'], s['column_start'], s['line_end'], s['column_end']) if s else 'no place',
                    ', '.join('%d:%d-%d:%d' % (st + en) for st, en in case.marks))
        if case.code and not any((d.get('code') or {}).get('code') in case.code.split('|') for d in r['diags']):
            return 'is rejected with %s instead of %s' % ([((d.get('code') or {}).get('code'), d['message'][:100]) for d in r['diags'][:2]], case.code)
        if case.msg and not any(re.search(case.msg, d['message']) for d in r['diags']):
            return 'is rejected with "%s" instead of /%s/' % (r['diags'][0]['message'][:150], case.msg)
        return None

    def run(self, cases, jobs=8):
        assert len({c.name for c in cases}) == len(cases), 'duplicate case names'
        with concurrent.futures.ThreadPoolExecutor(jobs) as ex:
            rs = list(ex.map(self.one, cases))
        return [(c, r, self.judge(c, r)) for c, r in zip(cases, rs)]


def user_span(s, src):
    """the place of a span in the file of the user, following expansions"""
    while s:
        if s['file_name'] == src:
            return s
        s = (s.get('expansion') or {}).get('span')
    return None


def limits():
    import resource
    resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
