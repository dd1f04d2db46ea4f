"""E4: rules over the resolved items and bodies of generated modules."""
import e1

# constructs that lose a value or duplicate it
LOSERS = ('mem::forget', 'ManuallyDrop', 'MaybeUninit', '::leak', 'into_raw', 'from_raw', 'ptr::read', 'ptr::write', 'transmute', 'rc::Rc',
          'sync::Arc', 'mem::zeroed', 'copy_nonoverlapping', 'Weak', 'ptr::copy')

CTL = {
    'w_ctl_unsafe_block': ('unsafe', 'pub mod parser { pub struct Parser; pub fn f() { unsafe { } } }'),
    'w_ctl_unsafe_fn': ('unsafe', 'pub mod parser { pub struct Parser; impl Parser { pub unsafe fn f() { } } }'),
    'w_ctl_unsafe_impl': ('unsafe', 'pub mod parser { pub struct Parser(*mut u8); unsafe impl Send for Parser {} }'),
    'w_ctl_unsafe_nested': ('unsafe', 'pub mod parser { pub struct Parser; mod a { fn g() { let c = || { fn h() { let x = unsafe { 1 }; } }; } } }'),
    'w_ctl_extern': ('unsafe', 'pub mod parser { pub struct Parser; extern "C" { fn g(); } }'),
    'w_ctl_static_mut': ('statics', 'pub mod parser { pub struct Parser; static mut X: u8 = 0; }'),
    'w_ctl_static_cell': ('statics', 'pub mod parser { pub struct Parser; static X: core::sync::atomic::AtomicUsize = core::sync::atomic::AtomicUsize::new(0); }'),
    'w_ctl_static_local': ('statics', 'pub mod parser { pub struct Parser; fn f() { static X: std::sync::Mutex<u8> = std::sync::Mutex::new(0); } }'),
    'w_ctl_static_nested': ('statics', 'pub mod parser { pub struct Parser; pub struct S(core::sync::atomic::AtomicU8); static X: (u8, [S; 1]) = (0, [S(core::sync::atomic::AtomicU8::new(1))]); }'),
    'w_ctl_tls': ('statics', 'pub mod parser { pub struct Parser; std::thread_local! { static X: core::cell::Cell<u8> = core::cell::Cell::new(0); } }'),
    'w_ctl_once': ('statics', 'pub mod parser { pub struct Parser; static X: std::sync::OnceLock<u8> = std::sync::OnceLock::new(); }'),
    'w_ctl_std_path': ('ext', 'pub mod parser { pub struct Parser; fn f() { std::collections::HashMap::<u8, u8>::new(); } }'),
    'w_ctl_std_method': ('ext', 'pub mod parser { pub struct Parser; fn f(s: &str) { let _ = s.to_string(); } }'),
    'w_ctl_std_macro': ('ext', 'pub mod parser { pub struct Parser; fn f() { std::println!("x"); } }'),
    'w_ctl_std_vec': ('ext', 'pub mod parser { pub struct Parser; fn f() { let _ = std::vec![1]; } }'),
    'w_ctl_alloc_box': ('ext', 'pub mod parser { pub struct Parser; fn f(x: u8) -> Box<u8> { Box::new(x) } }'),
    'w_ctl_std_crate': ('ext', 'pub mod parser { pub struct Parser; extern crate std as s; }'),
    'w_ctl_forget': ('losers', 'pub mod parser { pub struct Parser; fn f(x: String) { core::mem::forget(x); } }'),
    'w_ctl_mdrop': ('losers', 'pub mod parser { pub struct Parser; fn f(x: String) { let _ = core::mem::ManuallyDrop::new(x); } }'),
    'w_ctl_mdrop_ty': ('losers', 'pub mod parser { pub struct Parser(core::mem::ManuallyDrop<String>); }'),
    'w_ctl_leak': ('losers', 'pub mod parser { pub struct Parser; fn f(x: Vec<u8>) { x.leak(); } }'),
    'w_ctl_rc': ('losers', 'pub mod parser { pub struct Parser(std::rc::Rc<u8>); }'),
    'w_ctl_fn_value': ('losers', 'pub mod parser { pub struct Parser; fn f(x: Option<String>) { x.map(core::mem::forget); } }'),
}
# without findings
CTL_OK = {
    'w_ctl_ok': 'pub mod parser { pub struct Parser; static X: [u8; 2] = [0, 1]; static N: &str = "x"; const K: u8 = 1; fn f(x: &mut Option<u8>) { x.take(); let _ = X.get(0); let _ = core::mem::replace(x, None); } }',
}


def findings(facts, rule, std_stack):
    if rule == 'unsafe':
        return facts['unsafe']
    if rule == 'statics':
        return facts['statics']
    if rule == 'ext':
        out = list(facts['foreign'])
        for k, v in facts['ext'].items():
            if k == 'core':
                continue
            for n in v:
                if std_stack and (n in ('std', 'std::vec', 'alloc', 'alloc::vec') or n.startswith(('std::vec::Vec', 'alloc::vec::Vec'))):
                    continue
                if std_stack and k == 'alloc' and 'vec' in n and not n.startswith(('alloc::boxed',)) and 'Vec' in n:
                    continue
                out.append('%s (crate %s)' % (n, k))
        return out
    if rule == 'losers':
        return [n for k, v in facts['ext'].items() for n in v if any(x in n for x in LOSERS)]


RULE = {'C21': ('unsafe', 'statics'), 'C22': ('losers',), 'C24': ('ext',)}
SAY = {'unsafe': 'contains unsafe code', 'statics': 'contains shared state', 'ext': 'refers outside of core', 'losers': 'uses a function that loses or duplicates values'}


def part(ctx, grams):
    rules = RULE[ctx.prop]
    ctl = [(k, b) for k, (r, b) in CTL.items()] + list(CTL_OK.items())
    res, errors, t = e1.run(ctx.prop.lower() + 'e4', grams, headers=True, raw=ctl)
    for n, m in errors.items():
        ctx.violate('e4:%s:compile' % n, 'the witness grammar %s is rejected or does not compile: %s' % (n, m[0]['message'][:300]))
    tot = {'bodies': 0, 'names': 0, 'statics_seen': 0}
    for g in grams:
        r = res.get(g.name)
        if g.name in errors:
            continue
        if not r or 'facts' not in r['hdr']:
            ctx.violate('e4:%s:missing' % g.name, 'no facts for the grammar %s' % g.name)
            continue
        f = r['hdr']['facts']
        for k in tot:
            tot[k] += f[k]
        for rule in rules:
            for x in findings(f, rule, not g.stack_type)[:3]:
                ctx.violate('e4:%s:%s' % (g.name, rule), 'the module generated for %s %s: %s' % (g.name, SAY[rule], x), {'grammar': g.text})
    # controls: the rules find what is planted, and only that
    n = 0
    for k, (rule, _) in CTL.items():
        if rule in rules:
            n += 1
            if not findings(res[k]['hdr']['facts'], rule, False):
                ctx.violate('e4:control:' + k, 'the rule %s does not see the control %s' % (rule, k))
    for k in CTL_OK:
        for rule in rules:
            x = findings(res[k]['hdr']['facts'], rule, False)
            if x:
                ctx.violate('e4:control:' + k, 'the rule %s fires on the control %s: %s' % (rule, k, x))
    ctx.add(generated_modules=len(grams), bodies=tot['bodies'], resolved_names=tot['names'], statics=tot['statics_seen'], controls=n + len(CTL_OK))
    ctx.floor('generated modules', len(grams), 100)
    ctx.floor('resolved names', tot['names'], 20000)
    ctx.notes.append('E4: every item, body and resolved name of the generated modules is visited after type checking, and the rules %s are applied; '
                     'control modules with planted constructs show that the rules see them.' % ', '.join(rules))
