"""E3: rules over the MIR of the macro's own crate (it depends on nothing but its input)."""
import glob
import json
import os
import re
import shutil

import lib

CONTROL = os.path.join(lib.HERE, 'control_own.rs')


def analyse(name):
    """facts of the macro's crate and of the control crate, from one build"""
    d = os.path.join(lib.WORK, name)
    if os.path.isdir(d):
        shutil.rmtree(d)
    os.makedirs(os.path.join(d, 'out'))
    ctl = os.path.join(d, 'pv_control', 'src')
    os.makedirs(ctl)
    shutil.copy(CONTROL, os.path.join(ctl, 'lib.rs'))
    open(os.path.join(d, 'pv_control', 'Cargo.toml'), 'w').write(
        '[package]\nname = "pv_control"\nversion = "0.0.0"\nedition = "2021"\n[dependencies]\npomelo = { path = "%s" }\n' % lib.REPO)
    open(os.path.join(d, 'Cargo.toml'), 'w').write('[workspace]\nresolver = "2"\nmembers = ["pv_control"]\n[profile.dev]\ndebug = 0\n')
    ws = lib.Workspace(name)
    ws.dir, ws.names, ws.lines = d, ['pv_control'], {}
    ws.out = os.path.join(d, 'out')
    lock = os.path.join(lib.HERE, 'Cargo.lock.in')
    ws.write_lock(lock)
    # its own target directory: the macro's crate must be compiled under the driver
    ws.target = os.path.join(lib.TARGET, 'own')
    bad, other = ws.build(extra_env={'PV_OWN': ws.out})
    if bad is None or other or bad:
        raise lib.ToolError('the build of the macro crate failed: %s' % str(bad or other)[:1500])
    res = {}
    for n in ('pomelo_impl', 'pv_control'):
        p = os.path.join(ws.out, n + '.json')
        if not os.path.exists(p):
            raise lib.ToolError('no facts for the crate ' + n)
        res[n] = json.load(open(p))
    return res


SAY = {
    'effect': 'the expansion depends on something besides the macro input',
    'state': 'state is kept between expansions',
    'address': 'an address can reach the expansion',
    'debug': 'the expansion or a message shows something that differs between runs or places',
    'order': 'a hash order can reach the expansion',
    'print': 'the macro writes to the standard streams without %verbose',
    'env': 'an environment variable is compiled in',
}
RULES = ('effect', 'state', 'address', 'debug', 'order', 'print')


def control(ctx, f):
    want = set()
    for i, ln in enumerate(open(CONTROL), 1):
        m = re.search(r'//~ (\w+)$', ln.rstrip())
        if m:
            want.add((i, m.group(1)))
    have = {(int(x['line'].rsplit(':', 1)[1]), x['rule']) for x in f['findings']}
    for i, r in sorted(want - have):
        ctx.violate('e3:control:%d' % i, 'the rule %s does not see line %d of the control crate' % (r, i))
    for i, r in sorted(have - want):
        ctx.violate('e3:control:%d' % i, 'the rule %s fires on line %d of the control crate' % (r, i))
    ctx.add(control_lines=len(want), control_functions=f['functions'])
    ctx.floor('marked lines in the control crate', len(want), 40)
    for r in RULES:
        ctx.floor('control lines of the rule ' + r, sum(1 for x in want if x[1] == r), 3)


def part(ctx):
    res = analyse(ctx.prop.lower() + 'own')
    f = res['pomelo_impl']
    for x in f['findings']:
        ctx.violate('e3:%s:%s:%s' % (x['rule'], x['function'], re.sub(r':\d+$', '', x['line'])),
                    '%s: in %s, at %s: %s' % (SAY[x['rule']], x['function'], x['line'], x['message']), x)
    for v in f['env']:
        if not v.startswith('CARGO_PKG_') and v not in ('CARGO_CRATE_NAME',):
            ctx.violate('e3:env:' + v, '%s: %s' % (SAY['env'], v))
    control(ctx, res['pv_control'])
    ctx.add(functions=f['functions'], resolved_names=f['names'], hash_iterations=f['unordered_sources'], hash_iterations_sorted=f['unordered_sorted'],
            print_sites=f['prints'], guard_paths=f['guard_paths'], statics=f['statics'])
    ctx.samples.append({'verbose_flags': f['verbose'], 'env': f['env']})
    ctx.floor('functions of the macro crate', f['functions'], 120)
    ctx.floor('resolved names', f['names'], 2000)
    ctx.notes.append('E3: every body of the macro crate is visited in MIR. Rules: no named function with an effect (environment, files, clock, '
                     'network, processes, threads, random seeds, place of the call); no static that can change; no address turned into a value; '
                     'no Debug output of a type that shows places or hash order; no sequence in hash order (forward dataflow from every '
                     'iteration of a hash container) reaches a result, a caller or another function unless sorted or collected into an ordered '
                     'container; every print is on paths that have the flag of %verbose set. The same rules report exactly the marked lines of '
                     'a control crate.')
    ctx.assumptions += ['functions of std and of syn, quote and proc_macro2 that are not on the list of effects are functions of their arguments']
