"""The witness programs of E2, by property."""
import random
import re

from e2 import Case

HEAD = '#![allow(warnings)]\n'


def gr(name, body, want, pre='', post='', **kw):
    return Case(name, HEAD + pre + 'use pomelo::pomelo;\npomelo! {\n' + body + '\n}\n' + post, want, **kw)


# ------------------------------------------------------------------ C18
# (name, grammar with the mistake marked, the same without the mistake)
BAD = [
    # duplicated declarations
    ('dup_default_type', '%default_type i8; %default_type ⟦i8⟧; s ::= A(_) { 0 }', '%default_type i8; s ::= A(_) { 0 }'),
    ('dup_extra_argument', '%extra_argument i8; %extra_argument ⟦u8⟧; s ::= A;', '%extra_argument i8; s ::= A;'),
    ('dup_extra_token', '%extra_token i8; %extra_token ⟦i8⟧; s ::= A;', '%extra_token i8; s ::= A;'),
    ('dup_error', '%error i8; %error ⟦i8⟧; s ::= A;', '%error i8; s ::= A;'),
    ('dup_start', '%start_symbol s; %start_symbol ⟦s⟧; s ::= A;', '%start_symbol s; s ::= A;'),
    ('dup_start2', '%start_symbol s; s ::= A; %start_symbol ⟦t⟧; t ::= B;', '%start_symbol s; s ::= A t; t ::= B;'),
    ('dup_wildcard', '%wildcard A; %wildcard ⟦B⟧; s ::= A;', '%wildcard A; s ::= A;'),
    ('dup_wildcard_same', '%wildcard A; %wildcard ⟦A⟧; s ::= A;', '%wildcard A; s ::= A;'),
    ('dup_token', '%token pub enum Token {}; %token ⟦pub enum Token {}⟧; s ::= A;', '%token pub enum Token {}; s ::= A;'),
    ('dup_parser', '%parser pub struct Parser {}; %parser ⟦pub struct Parser {}⟧; s ::= A;', '%parser pub struct Parser {}; s ::= A;'),
    ('dup_syntax_error', '%syntax_error { Err(()) } %syntax_error ⟦{ Err(()) }⟧ s ::= A;', '%syntax_error { Err(()) } s ::= A;'),
    ('dup_parse_fail', '%parse_fail { } %parse_fail ⟦{ }⟧ s ::= A;', '%parse_fail { } s ::= A;'),
    ('dup_stack_overflow', '%stack_overflow { } %stack_overflow ⟦{ }⟧ s ::= A;', '%stack_overflow { } s ::= A;'),
    ('dup_stack_size', '%stack_size 10; %stack_size ⟦20⟧; s ::= A;', '%stack_size 10; s ::= A;'),
    ('dup_stack_size_same', '%stack_size 10; %stack_size ⟦10⟧; s ::= A;', '%stack_size 100; s ::= A;'),
    ('dup_module', '%module ma; %module ⟦mb⟧; s ::= A;', '%module ma; s ::= A;'),
    ('dup_module_same', '%module parser; %module ⟦parser⟧; s ::= A;', '%module parser; s ::= A;'),
    ('dup_type', '%type A i8; %type ⟦A⟧ i8; s ::= A;', '%type A i8; s ::= A;'),
    ('dup_type_other', '%type A i8; %type ⟦A⟧ u8; s ::= A;', '%type A i8; %type B u8; s ::= A;'),
    ('dup_type_nt', '%type s i8; %type ⟦s⟧ i8; s ::= A { 0 }', '%type s i8; s ::= A { 0 }'),
    ('dup_prec', '%left A; %right ⟦A⟧; s ::= A;', '%left A; %right B; s ::= A;'),
    ('dup_prec_same_line', '%left A ⟦A⟧; s ::= A;', '%left A B; s ::= A;'),
    ('dup_fallback', '%fallback A C; %fallback B ⟦C⟧; s ::= A B;', '%fallback A C; %fallback B D; s ::= A B;'),
    ('dup_fallback_line', '%fallback A C ⟦C⟧; s ::= A B;', '%fallback A C D; s ::= A B;'),
    # kinds of symbols
    ('kind_prec_nt', '%left ⟦a⟧; s ::= A;', '%left A; s ::= A;'),
    ('kind_prec_nt2', '%nonassoc A ⟦b⟧; s ::= A;', '%nonassoc A B; s ::= A;'),
    ('kind_start', '%start_symbol ⟦S⟧; s ::= A;', '%start_symbol s; s ::= A;'),
    ('kind_fallback', '%fallback ⟦a⟧ B; s ::= A;', '%fallback A B; s ::= A;'),
    ('kind_fallback_id', '%fallback A ⟦b⟧; s ::= A;', '%fallback A B; s ::= A;'),
    ('kind_wildcard', '%wildcard ⟦a⟧; s ::= A;', '%wildcard W; s ::= A;'),
    ('kind_class', '%token_class ⟦k⟧ A; s ::= A;', '%token_class K A; s ::= K;'),
    ('kind_class_id', '%token_class K ⟦a⟧; s ::= A;', '%token_class K A; s ::= K;'),
    ('kind_lhs', '⟦S⟧ ::= A;', 's ::= A;'),
    ('kind_compound', 's ::= A|⟦b⟧; b ::= B;', 's ::= A|B;'),
    ('kind_compound_first', 's ::= ⟦b⟧|A; b ::= B;', 's ::= B|A;'),
    ('kind_prec_override', 's ::= A [⟦b⟧];', 's ::= A [B];'),
    ('kind_under_type', '%type ⟦_A⟧ i8; s ::= A;', '%type A i8; s ::= A;'),
    ('kind_under_rhs', 's ::= ⟦_a⟧;', 's ::= a; a ::= ;'),
    ('kind_under_lhs', '⟦_s⟧ ::= A;', 's ::= A;'),
    ('kind_under_prec', '%left ⟦_A⟧; s ::= A;', '%left A; s ::= A;'),
    ('kind_attr_nt', '%type ⟦#[doc = "x"]⟧ s i8; s ::= A { 0 }', '%type #[doc = "x"] A i8; s ::= A;'),
    ('kind_nonascii', '%type ⟦Ñ⟧ i8; s ::= A;', '%type N i8; s ::= A;'),
    ('kind_nonascii_rhs', 's ::= ⟦é⟧;', 's ::= e; e ::= ;'),
    # wildcards
    ('wild_type', '%wildcard A; %type A ⟦i8⟧; s ::= A;', '%wildcard A; %type B i8; s ::= A;'),
    ('wild_alias', '%wildcard A; s ::= A(⟦x⟧);', '%wildcard W; s ::= A(x);'),
    # fallbacks
    ('fb_self', '%fallback ⟦A⟧ A; s ::= A;', '%fallback A B; s ::= A;'),
    ('fb_self2', '%fallback ⟦A⟧ B A; s ::= A;', '%fallback A B C; s ::= A;'),
    ('fb_loop2', '%fallback A B; %fallback ⟦B⟧ A; s ::= A;', '%fallback A B; %fallback B C; s ::= A;'),
    ('fb_loop3', '%fallback A B; %fallback B C; %fallback ⟦C⟧ A; s ::= A;', '%fallback A B; %fallback B C; %fallback C D; s ::= A;'),
    ('fb_loop3b', '%fallback B C; %fallback C A; %fallback ⟦A⟧ D B; s ::= A;', '%fallback B C; %fallback C D; %fallback A E B; s ::= A;'),
    ('fb_type', '%type A ⟦i8⟧; %type B u8; %fallback A B; s ::= A;', '%type A i8; %type B i8; %fallback A B; s ::= A;'),
    ('fb_type_untyped', '%type A ⟦i8⟧; %fallback A B; s ::= A;', '%type B i8; %fallback A B; s ::= A;'),
    # token classes
    ('class_empty', '%token_class ⟦K⟧; s ::= K;', '%token_class K A; s ::= K;'),
    ('class_loop', '%token_class K A ⟦K⟧; s ::= K;', '%token_class K A; s ::= K;'),
    ('class_loop2', '%token_class K L; %token_class L ⟦K⟧; s ::= K;', '%token_class K L; %token_class L A; s ::= K;'),
    ('class_loop3', '%token_class K L; %token_class L M; %token_class M A ⟦K⟧; s ::= K;', '%token_class K L; %token_class L M; %token_class M A; s ::= K;'),
    # aliases and types
    ('alias_compound', '%type A i8; %type B u8; s ::= A|B(⟦x⟧);', '%type A i8; %type B i8; s ::= A|B(x);'),
    ('alias_compound_untyped', '%type A i8; s ::= A|B(⟦x⟧);', '%type A i8; %type B i8; s ::= A|B(x);'),
    ('alias_class', '%type A i8; %type B u8; %token_class K A B; s ::= K(⟦x⟧);', '%type A i8; %type B i8; %token_class K A B; s ::= K(x);'),
    ('alias_class_nested', '%type A i8; %type B i8; %type C u8; %token_class K A B; %token_class L K C; s ::= L(⟦x⟧);',
     '%type A i8; %type B i8; %type C i8; %token_class K A B; %token_class L K C; s ::= L(x);'),
    # rules without code
    ('nocode_none', '%type s i8; ⟦s⟧ ::= A;', '%type s i8; %type A i8; s ::= A;'),
    ('nocode_empty', '%type s i8; ⟦s⟧ ::= ;', '%type s i8; s ::= { 1 }'),
    ('nocode_two', '%type s i8; %type A i8; %type B i8; ⟦s⟧ ::= A B;', '%type s i8; %type A i8; s ::= A B;'),
    ('nocode_alias', '%type s i8; %type A i8; ⟦s⟧ ::= A(x);', '%type s i8; %type A i8; s ::= A(x) { x }'),
    ('nocode_default', '%default_type i8; s ::= t; ⟦t⟧ ::= ;', '%default_type i8; s ::= t; t ::= { 1 }'),
    ('nocode_default_two', '%default_type i8; ⟦s⟧ ::= t t; t ::= A;', '%default_type i8; s ::= t; t ::= A;'),
    # start and rules
    ('norules', '', 's ::= ;', ),
    ('norules_decl', '%type A i8; %left A;', '%type A i8; s ::= A;'),
    ('start_rhs', 's ::= A; s ::= ⟦s⟧ B;', 't ::= s; s ::= A; s ::= s B;'),
    ('start_rhs_decl', '%start_symbol t; s ::= ⟦t⟧; t ::= s A; t ::= B;', '%start_symbol u; u ::= t; s ::= A t; t ::= s A; t ::= B;'),
    ('start_rhs_opt', 's ::= A ⟦s⟧? B; s ::= C;', 't ::= s; s ::= A s? B; s ::= C;'),
    ('start_norules', '%start_symbol t; ⟦s⟧ ::= A;', '%start_symbol s; s ::= A;'),
    ('unreachable', 's ::= A; ⟦t⟧ ::= B;', 's ::= A t; t ::= B;'),
    ('undefined_nt', 's ::= A ⟦t⟧;', 's ::= A t; t ::= ;'),
    ('undefined_nt_opt', 's ::= A ⟦t⟧?;', 's ::= A t?; t ::= B;'),
    # tokens and parsers
    ('token_body', '%token pub enum Token { ⟦A⟧ }; s ::= A;', '%token pub enum Token {}; s ::= A;'),
    ('parser_body', '%parser pub struct Parser { ⟦x: i8⟧ }; s ::= A;', '%parser pub struct Parser {}; s ::= A;'),
    ('generic_missing', '%token pub enum Token<⟦T⟧> {}; %parser pub struct Parser {}; %type A T; s ::= A;',
     '%token pub enum Token<T> {}; %parser pub struct Parser<T> {}; %type A T; s ::= A;'),
    ('generic_missing_lt', "%token pub enum Token<⟦'a⟧> {}; %parser pub struct Parser<T> {}; %type A &'a str; s ::= A;",
     "%token pub enum Token<'a> {}; %parser pub struct Parser<'a, T> {}; %type A &'a str; %type s T; s ::= A { todo!() }"),
    ('token_name', '%token pub enum ⟦Tok⟧ {}; s ::= A;', '%token pub enum Token {}; s ::= A;'),
    ('parser_name', '%parser pub struct ⟦Prs⟧ {}; s ::= A;', '%parser pub struct Parser {}; s ::= A;'),
    ('parser_tuple', '%parser pub struct Parser(); ⟦s⟧ ::= A;', '%parser pub struct Parser {}; s ::= A;'),
    # syntax
    ('syn_unknown', '%⟦foo⟧ A; s ::= A;', '%left A; s ::= A;'),
    ('syn_percent', '% ⟦;⟧ s ::= A;', 's ::= A;'),
    ('syn_rule_op', 's ⟦=⟧ A;', 's ::= A;'),
    ('syn_rule_op2', 's ::⟦A⟧;', 's ::= A;'),
    ('syn_junk', '⟦12⟧ s ::= A;', 's ::= A;'),
    ('syn_junk_rhs', 's ::= A ⟦12⟧;', 's ::= A;'),
    ('syn_no_semi', '%left A ⟦%⟧right B; s ::= A;', '%left A; %right B; s ::= A;'),
    ('syn_type_none', '%type ⟦;⟧ s ::= A;', '%type A; s ::= A;'),
    ('syn_type_bad', '%type A ⟦=⟧; s ::= A;', '%type A i8; s ::= A;'),
    ('syn_type_two', '%type A i8 ⟦u8⟧; s ::= A;', '%type A i8; s ::= A;'),
    ('syn_stack_neg', '%stack_size ⟦-1⟧; s ::= A;', '%stack_size 1; s ::= A;'),
    ('syn_stack_str', '%stack_size ⟦"1"⟧; s ::= A;', '%stack_size 1; s ::= A;'),
    ('syn_stack_huge', '%stack_size ⟦99999999999999999999999⟧; s ::= A;', '%stack_size 99999; s ::= A;'),
    ('syn_stack_float', '%stack_size ⟦1.5⟧; s ::= A;', '%stack_size 1; s ::= A;'),
    ('syn_module', '%module ⟦1⟧; s ::= A;', '%module m; s ::= A;'),
    ('syn_module_path', '%module a⟦::⟧b; s ::= A;', '%module a; s ::= A;'),
    ('syn_include', '%include ⟦(⟧fn f() {}) s ::= A;', '%include { fn f() {} } s ::= A;'),
    ('syn_include_body', '%include { fn f() {} ⟦let⟧ x = 1; } s ::= A;', '%include { fn f() {} } s ::= A;'),
    ('syn_code', '%parse_fail ⟦(⟧) s ::= A;', '%parse_fail { } s ::= A;'),
    ('syn_code_bad', 's ::= A { let ⟦=⟧ 3; }', 's ::= A { let x = 3; }'),
    ('syn_alias_empty', 's ::= A(⟦)⟧;', 's ::= A(x);'),
    ('syn_alias_bad', '%type A i8; s ::= A(⟦+⟧);', '%type A i8; s ::= A(x);'),
    ('syn_prec_empty', 's ::= A [⟦]⟧;', 's ::= A [A];'),
    ('syn_prec_two', 's ::= A [A ⟦B⟧];', 's ::= A [A];'),
    ('syn_compound_end', 's ::= A|⟦;⟧', 's ::= A|B;'),
    ('syn_compound_start', 's ::= ⟦|⟧A;', 's ::= A|B;'),
    ('syn_opt_first', 's ::= ⟦?⟧A;', 's ::= A?;'),
    ('syn_opt_twice', 's ::= A?⟦?⟧;', 's ::= A?;'),
    ('syn_opt_after_alias', 's ::= A(x)⟦?⟧;', 's ::= A?(x);'),
    ('syn_fallback_none', '%fallback ⟦;⟧ s ::= A;', '%fallback A; s ::= A;'),
    ('syn_wildcard_none', '%wildcard ⟦;⟧ s ::= A;', '%wildcard W; s ::= A;'),
    ('syn_start_none', '%start_symbol ⟦;⟧ s ::= A;', '%start_symbol s; s ::= A;'),
    ('syn_token_struct', '%token pub ⟦struct⟧ Token {}; s ::= A;', '%token pub enum Token {}; s ::= A;'),
    ('syn_parser_enum', '%parser pub ⟦enum⟧ Parser {}; s ::= A;', '%parser pub struct Parser {}; s ::= A;'),
    ('syn_left_lit', '%left A ⟦1⟧; s ::= A;', '%left A B; s ::= A;'),
    ('syn_verbose_arg', '%verbose ⟦1⟧; s ::= A;', 's ::= A;'),
    ('syn_eof_directive', 's ::= A; %left A', 's ::= A; %left A;'),
    ('syn_eof_rule', 's ::= A; t', 's ::= A;'),
    ('syn_eof_rule2', 's ::= A; t ::', 's ::= A;'),
    ('syn_eof_percent', 's ::= A; %', 's ::= A;'),
    # conflicts
    ('conflict_sr', 's ::= e; e ::= e A e; e ::= B;', '%left A; s ::= e; e ::= e A e; e ::= B;'),
    ('conflict_rr', 's ::= a; s ::= b; a ::= A; b ::= A;', 's ::= a C; s ::= b D; a ::= A; b ::= A;'),
    ('dup_rule', 's ::= A; ⟦s⟧ ::= A;', 's ::= A; s ::= B;'),
    ('cyclic_unit', 's ::= a; ⟦a⟧ ::= a; a ::= A;', 's ::= a; a ::= B a; a ::= A;'),
    # types of values
    ('action_type', '%type s i8; s ::= A { ⟦"x"⟧ }', '%type s i8; s ::= A { 1 }'),
    ('action_type_alias', '%type s i8; %type A u8; s ::= A(x) { ⟦x⟧ }', '%type s i8; %type A i8; s ::= A(x) { x }'),
    ('action_untyped', 's ::= A { ⟦1⟧ }', 's ::= A { }'),
    ('action_name', '%type s i8; s ::= A { ⟦x⟧ }', '%type s i8; %type A i8; s ::= A(x) { x }'),
    ('alias_twice', '%type A i8; s ::= A(x) A(⟦x⟧) { }', '%type A i8; s ::= A(x) A(y) { }'),
    ('alias_twice_deep', '%type A i8; %type t (i8, i8); s ::= A(mut x) B t((_, ⟦ref x⟧)) { } t ::= C { (1, 2) }', '%type A i8; %type t (i8, i8); s ::= A(mut x) B t((_, ref y)) { } t ::= C { (1, 2) }'),
    ('alias_refutable', '%type A i8; s ::= A(⟦1⟧) { }', '%type A i8; s ::= A(_) { }'),
    ('forward_type', '%type s i8; %type A u8; s ::= ⟦A⟧;', '%type s i8; %type A i8; s ::= A;'),
    ('syntax_error_type', '%syntax_error { ⟦3⟧ } s ::= A;', '%syntax_error { Ok(()) } s ::= A;'),
    ('parse_fail_type', '%parse_fail { ⟦3⟧ } s ::= A;', '%parse_fail { () } s ::= A;'),
    ('overflow_type', '%stack_overflow { ⟦3⟧ } s ::= A;', '%stack_overflow { () } s ::= A;'),
    ('stack_type_unknown', '%stack_size 3 ⟦Foo⟧; s ::= A;', '%stack_size 3 Vec; s ::= A;'),
    ('type_unknown', '%type A ⟦Foo⟧; s ::= A;', '%type A i8; s ::= A;'),
]


def c18():
    out = []
    for t in BAD:
        n, bad, good = t[0], t[1], t[2]
        out.append(gr('bad_' + n, bad, 'err'))
        out.append(gr('good_' + n, good, 'ok'))
    return out


MUT_BASES = [
    '%left A B; %right C; %nonassoc D; s ::= e; e ::= e A e [C] { } e ::= e B e; e ::= e C e; e ::= e D e; e ::= Num;',
    '%type Num i32; %type s i32; %type e i32; %left Plus; s ::= e(X) { X } e ::= e(X) Plus e(Y) { X + Y } e ::= Num(X) { X }',
    '%fallback Id If Then; %fallback If Else; %type Id i8; %type If i8; %type Then i8; %type Else i8; s ::= Id(X) If(Y) { } s ::= Then Id;',
    '%wildcard Any; s ::= A Any B; s ::= B l; l ::= ; l ::= l Any C;',
    '%token_class K A B C; %token_class L K D; %type A i8; %type B i8; %type C i8; s ::= K(x) D { } s ::= D L K|D A|B|C(y) { }',
    '%type A i8; %type s Option<i8>; s ::= A?(x) B? { x } s ::= C t? D { None } t ::= A B;',
    '%module m; %token #[derive(Debug)] pub enum Token {}; %parser pub struct Parser {}; %extra_argument u8; %error String; s ::= A;',
    '%extra_token u8; %type A i8; %default_type i8; %start_symbol s; s ::= t; t ::= A { 0 } t ::= t A B { 1 }',
    '%stack_size 20 Vec; %stack_overflow { 1 } %parse_fail { 2 } %syntax_error { Err(3) } %error i32; s ::= A s2; s2 ::= ; s2 ::= s2 B;',
    '%type error i8; %syntax_error { Ok(1) } %type s i8; s ::= error(x) A { x } s ::= l { 2 } l ::= ; l ::= l B error C;',
    '%include { use std::vec::Vec; fn f() {} } %type #[doc = "t"] A Vec<u8>; %type s Vec<u8>; s ::= A; s ::= B A; %verbose;',
    "%token pub enum Token<'a, T: Copy> where T: 'a {}; %type A &'a T; %type s &'a T; s ::= A(x) { x } s ::= B s1; %type s1 &'a T; s1 ::= A;",
]
POOL = ['A', 'B', 'K', 's', 'e', 'error', ';', '%', '::=', '|', '?', '(', ')', '{', '}', '[', ']', '%left', '%fallback', '%wildcard',
        '%token_class', '%type', '%extra_token', '%start_symbol', '%default_type', '%error', '%stack_size', '%extra_argument', '%module',
        '%token', '%parser', '%include', '%verbose', '%parse_fail', 'i8', '0', '1', '_', '_x', "'a", '"x"', ',', '#', '-', 'r#A', 'r#s',
        'Token', 'Parser', '::', '=', '<', '>', '$', 'YY0', 'x']
TOK = re.compile(r"%?\w+|::=|\"[^\"]*\"|'\w+|\S")


def balanced(ts):
    st = []
    pair = {')': '(', ']': '[', '}': '{'}
    for t in ts:
        if t in '([{':
            st.append(t)
        elif t in pair and (not st or st.pop() != pair[t]):
            return False
    return not st


def c18_mutants(seed, n):
    """one or two tokens of a valid grammar deleted, doubled, swapped or replaced: never a panic, a hang or an unlocated error"""
    rng = random.Random('mut/%s' % seed)
    out, seen = [], set()
    while len(out) < n:
        ts = TOK.findall(rng.choice(MUT_BASES))
        for _ in range(rng.choice([1, 1, 1, 2, 2, 3])):
            i = rng.randrange(len(ts))
            k = rng.random()
            if k < .25:
                del ts[i]
            elif k < .4:
                ts.insert(i, ts[i])
            elif k < .5:
                j = rng.randrange(len(ts))
                ts[i], ts[j] = ts[j], ts[i]
            elif k < .75:
                ts[i] = rng.choice(POOL if rng.random() < .6 else ts)
            else:
                ts.insert(i, rng.choice(POOL if rng.random() < .6 else ts))
            if not ts:
                break
        if not ts or not balanced(ts):
            continue
        t = ' '.join(ts)
        if t in seen:
            continue
        seen.add(t)
        out.append(gr('mut_%s_%d' % (seed, len(out)), t, 'any'))
    return out


def m18():
    import sys
    return c18_mutants(int(sys.argv[3]) if len(sys.argv) > 3 else 1, int(sys.argv[4]) if len(sys.argv) > 4 else 400)


# ------------------------------------------------------------------ C11
USE = """
fn f() {
    use self::parser::{Parser, Token};
    let mut p = Parser::new(%s);
    let _ = p.parse(Token::A);
    %s
}
"""


def c11():
    """the result is obtained once, by value, and the parser is gone after that"""
    out = []
    for nm, decl, extra, ty in (('plain', '', '', '()'), ('typed', '%type s i8;', '', 'i8'), ('extra', '%extra_argument u8;', '3', '((), u8)'),
                                ('cstack', '%include { use std::vec::Vec as V; } %stack_size 0 V;', '', '()')):
        g = decl + (' s ::= A { 1 }' if 'type s' in decl else ' s ::= A;')

        def c(name, stmt, want, **kw):
            out.append(gr('c11_%s_%s' % (nm, name), g, want, post=USE % (extra, stmt), **kw))
        c('once', 'let r: Result<%s, ()> = p.end_of_input();' % ty, 'ok')
        c('twice', 'p.end_of_input(); let _ = ⟦p⟧.end_of_input();', 'err', code='E0382')
        c('parse_after', 'p.end_of_input(); let _ = ⟦p⟧.parse(Token::A);', 'err', code='E0382')
        c('by_ref', 'let q = &mut p; let _ = ⟦(*q)⟧.end_of_input();', 'err', code='E0507')
        c('by_ref_ok', 'let q = &mut p; let _ = q.parse(Token::A);', 'ok')
        c('shared', 'let q = &p; let _ = ⟦q⟧.parse(Token::A);', 'err', code='E0596')
        c('clone', 'fn c<T: Clone>(_: T) {} c(⟦p⟧);', 'err', code='E0277')
        c('copy', 'let q = p; let _ = ⟦p⟧.parse(Token::A); drop(q);', 'err', code='E0382')
        c('literal', 'let q = ⟦Parser {}⟧;', 'err')
        c('literal_rest', 'let q = Parser { ⟦..p⟧ };', 'err', code='E0451')
        c('default', 'fn c<T: Default>() -> T { T::default() } let q: Parser = ⟦c()⟧;', 'err', code='E0277')
        if nm == 'extra':
            c('into_extra', 'let x: u8 = p.into_extra();', 'ok')
            c('after_into_extra', 'p.into_extra(); let _ = ⟦p⟧.end_of_input();', 'err', code='E0382')
            c('both', 'let x = p.end_of_input(); let y = ⟦p⟧.into_extra();', 'err', code='E0382')
            c('borrowed', 'let x = p.extra_mut(); let _ = ⟦p⟧.parse(Token::A); *x = 1;', 'err', code='E0499')
            c('borrowed2', 'let x = p.extra(); let _ = ⟦p.parse(Token::A)⟧; drop(*x);', 'err', code='E0502')
    out.append(gr('c11_token_moved', '%type A String; s ::= A;', 'err', code='E0382',
                  post='fn f(p: &mut parser::Parser, t: parser::Token) { let _ = p.parse(t); let _ = p.parse(⟦t⟧); }'))
    out.append(gr('c11_token_copied', '%token #[derive(Clone, Copy)] pub enum Token {}; s ::= A;', 'ok',
                  post='fn f(p: &mut parser::Parser, t: parser::Token) { let _ = p.parse(t); let _ = p.parse(t); }'))
    return out


# ------------------------------------------------------------------ C17
MACROS = [
    ('ty', '$t:ty', 'Vec<u8>', '%include { use std::vec::Vec; } %type A $t; %type s $t; s ::= A(x) { x }', ''),
    ('ty_same', '$t:ty', 'Vec<u8>', '%include { use std::vec::Vec; } %type A $t; %type s Vec<u8>; s ::= A;', ''),
    ('ty_ref', '$t:ty', "&'static str", '%type A $t; %type s $t; s ::= A;', ''),
    ('ty_err', '$t:ty', 'u8', '%error $t; s ::= A;', 'fn f() { let _: Result<(), u8> = parser::Parser::new().end_of_input(); }'),
    ('ty_x', '$t:ty', 'u8', '%extra_argument $t; %extra_token $t; %default_type $t; s ::= A { 0 }', 'fn f() { parser::Parser::new(1).parse(parser::Token::A(2)); }'),
    ('ty_xt', '$t:ty', 'u8', '%extra_token $t; %type A i8; s ::= A B;', 'fn f() { parser::Token::A((1, 2)); parser::Token::B(3); }'),
    ('id', '$a:ident $s:ident', 'A s', '%type $a u8; %type $s u8; $s ::= $a; $s ::= B { 1 }', 'fn f() { parser::Token::A(1); }'),
    ('id_mod', '$a:ident', 'foo', '%module $a; s ::= A;', 'fn f() { foo::Token::A; }'),
    ('expr', '$e:expr', '1 + 2', '%type s u8; s ::= A { $e * 3 }', ''),
    ('block', '$e:block', '{ 3 }', '%type s u8; s ::= A $e', ''),
    ('block_handler', '$e:block', '{ Err(()) }', '%syntax_error $e %parse_fail { } s ::= A;', ''),
    ('pat', '$p:pat', '(a, b)', '%type A (u8, u8); s ::= A($p) { }', ''),
    ('lit', '$p:literal', '10', '%stack_size $p; s ::= A;', ''),
    ('tt', '$($t:tt)*', 's ::= A { } ', '$($t)*', ''),
    ('rep', '$($t:ident)*', 'A B C', '%token_class K $($t)*; $(s ::= $t D;)*', ''),
    ('item', '$($t:item)*', 'fn h() {}', '%include { $($t)* } s ::= A { h() }', ''),
    ('enum', '$t:item', 'pub enum Token {}', '%token $t; s ::= A;', ''),
    ('vis', '$v:vis', 'pub(crate)', '%token $v enum Token {}; %parser $v struct Parser {}; s ::= A;', 'fn f() { parser::Parser::new(); }'),
    ('lt', '$v:lifetime', "'a", '%token pub enum Token<$v> {}; %type A &$v str; s ::= A;', ''),
    ('path', '$v:path', 'std::vec::Vec', '%stack_size 3 $v; s ::= A;', ''),
    ('meta', '$v:meta', 'derive(Debug)', '%token #[$v] pub enum Token {}; s ::= A;', ''),
]


def c17():
    out = []

    def sig(name, decl, rules, toks, extra, err, ret, xtok=None, gen='', targs='', pargs=None, pre='', blocks=True, wrong=True, where=''):
        """one witness that has exactly the documented types, and one for every wrong type"""
        pargs = targs if pargs is None else pargs
        P, T = 'parser::Parser' + pargs, 'parser::Token' + targs
        S = ret if extra is None else '(%s, %s)' % (ret, extra)
        ls = ['let _: fn(%s) -> %s = parser::Parser::new;' % (extra or '', P),
              'let _: fn(&mut %s, %s) -> Result<(), %s> = parser::Parser::parse;' % (P, T, err),
              'let _: fn(%s) -> Result<%s, %s> = parser::Parser::end_of_input;' % (P, S, err)]
        if extra is not None:
            ls += ['let _: fn(%s) -> %s = parser::Parser::into_extra;' % (P, extra),
                   "let _: for<'q> fn(&'q %s) -> &'q %s = parser::Parser::extra;" % (P, extra),
                   "let _: for<'q> fn(&'q mut %s) -> &'q mut %s = parser::Parser::extra_mut;" % (P, extra)]
        for t, ty in toks:
            ls.append('let _: fn(%s) -> %s = parser::Token::%s;' % (ty, T, t) if ty else 'let _: %s = parser::Token::%s;' % (T, t))
        if xtok:
            ls += ['let _: fn(%s) -> %s = parser::Token::into_extra;' % (T, xtok),
                   "let _: for<'q> fn(&'q %s) -> &'q %s = parser::Token::extra;" % (T, xtok),
                   "let _: for<'q> fn(&'q mut %s) -> &'q mut %s = parser::Token::extra_mut;" % (T, xtok)]
        arms = ', '.join('parser::Token::%s%s => ()' % (t, '(_)' if ty else '') for t, ty in toks)

        def prog(ls):
            return 'fn sig%s()%s {\n    %s\n}\nfn all%s(t: %s)%s { match t { %s } }\n' % (gen, where, '\n    '.join(ls), gen, T, where, arms)
        out.append(gr('c17_%s' % name, decl + ' ' + rules, 'ok', pre=pre, post=prog(ls)))
        if not wrong:
            return
        for i, l in enumerate(ls):
            a, e, b = l.partition(' = ')
            for k, (x, y) in enumerate((('fn(', 'fn(::core::marker::PhantomData<i128>, '), ('-> Result<(),', '-> Result<i128,'), ('Result<', 'core::ops::ControlFlow<'),
                                        ('%s>' % err, 'i128>'), ('mut ', ''))):
                bad = a.replace(x, y, 1) if x != '%s>' % err else re.sub(re.escape(x) + '$', y, a)
                if bad == a:
                    continue
                if x == 'mut ' and 'fn(&' not in a:
                    continue
                m = list(ls)
                m[i] = bad + ' = ⟦' + b.rstrip(';') + '⟧;'
                out.append(gr('c17_%s_bad_%d_%d' % (name, i, k), decl + ' ' + rules, 'err', pre=pre, post=prog(m), code='E0308'))
    for xn, xd, xt in (('', '', None), ('_x', '%extra_argument u8;', 'u8'), ('_xs', '%extra_argument Vec<String>; %include { use std::{vec::Vec, string::String}; }', 'Vec<String>')):
        for en, ed, et in (('', '', '()'), ('_e', '%error u16;', 'u16'), ('_es', '%error super::Er; %syntax_error { Err(super::Er) } %parse_fail { super::Er } %stack_overflow { super::Er }', 'Er')):
            for rn, rd, rt in (('', 's ::= A B C;', '()'), ('_r', '%type s i64; s ::= A B C { 1 }', 'i64'), ('_d', '%default_type u32; s ::= A B C { 1 }', 'u32')):
                bt = 'u32' if rn == '_d' else None
                sig('iface%s%s%s' % (xn, en, rn), '%type A i8; ' + xd + ed, rd, [('A', 'i8'), ('B', bt), ('C', bt)], xt, et, rt, pre='pub struct Er;\n')
    # tokens of every origin are variants
    sig('origins', '%type T1; %left L1; %right R1; %nonassoc N1; %fallback F1 F2; %wildcard W1; %token_class C1 M1 M2; %type T2 u8;',
        's ::= A B|D C1 e? X2? W1 [P1]; e ::= E error F;', [(t, 'u8' if t == 'T2' else None) for t in
                                                         'T1 L1 R1 N1 F1 F2 W1 M1 M2 T2 A B D X2 P1 E F'.split()], None, '()', '()', wrong=False)
    # extra token
    sig('xtok', '%extra_token u32; %type A i8;', 's ::= A B;', [('A', '(u32, i8)'), ('B', 'u32')], None, '()', '()', 'u32')
    sig('xtok_extra', '%extra_token u32; %type A i8; %extra_argument u8;', 's ::= A B;', [('A', '(u32, i8)'), ('B', 'u32')], 'u8', '()', '()', 'u32')
    sig('xtok_def', '%extra_token u32; %default_type i8; %type s i64; %type A u8;', 's ::= A A { 1 }', [('A', '(u32, u8)')], None, '()', 'i64', 'u32')
    # generics
    L = "%token pub enum Token<'a> {}; %type A &'a str;"
    sig('lt', L, 's ::= A B;', [('A', "&'a str"), ('B', None)], None, '()', '()', gen="<'a>", targs="<'a>", wrong=False)
    sig('lt_ret', L + "%type s &'a str; %error &'a str;", "s ::= A B;", [('A', "&'a str"), ('B', None)], None, "&'a str", "&'a str", gen="<'a>", targs="<'a>", wrong=False)
    sig('ty', '%token pub enum Token<T> {}; %type A T; %type s T;', 's ::= A B;', [('A', 'T'), ('B', None)], None, '()', 'T', gen='<T>', targs='<T>', wrong=False)
    sig('ty_bound', '%token pub enum Token<T: super::Tr> {}; %type A T::X; %type s T;', 's ::= A(x) B { super::Tr::mk(x) }', [('A', 'T::X'), ('B', None)], None, '()', 'T',
        gen='<T: Tr>', targs='<T>', pre='pub trait Tr { type X; fn mk(x: Self::X) -> Self; }\n', wrong=False)
    sig('ty_where', '%token pub enum Token<T> where T: super::Tr {}; %type A T::X; %type s T;', 's ::= A(x) B { super::Tr::mk(x) }', [('A', 'T::X'), ('B', None)], None,
        '()', 'T', gen='<T>', targs='<T>', where=' where T: Tr', pre='pub trait Tr { type X; fn mk(x: Self::X) -> Self; }\n', wrong=False)
    sig('pty', '%parser pub struct Parser<T> {}; %extra_argument T; %type A i8;', 's ::= A B;', [('A', 'i8'), ('B', None)], 'T', '()', '()',
        gen='<T>', pargs='<T>', wrong=False)
    sig('plt', "%parser pub struct Parser<'x> {}; %extra_argument &'x mut u8; %error &'x str; %syntax_error { Err(\"\") } %type A i8; %type s &'x str;",
        's ::= A(_) B { **extra = 3; "x" }', [('A', 'i8'), ('B', None)], "&'x mut u8", "&'x str", "&'x str", gen="<'x>", pargs="<'x>", wrong=False)
    sig('both', "%token pub enum Token<'a, U> {}; %parser pub struct Parser<'a, U, V: Default> {}; %type A (&'a str, U); %type s V; %error V; %extra_argument U;",
        's ::= A(_) B { V::default() }', [('A', "(&'a str, U)"), ('B', None)], 'U', 'V', 'V', gen="<'a, U, V: Default>", targs="<'a, U>", pargs="<'a, U, V>", wrong=False)
    sig('both_reordered', "%token pub enum Token<'a, U> {}; %parser pub struct Parser<'a, V: Default, U> {}; %type A (&'a str, U); %type s V; %extra_argument U;",
        's ::= A(_) B { V::default() }', [('A', "(&'a str, U)"), ('B', None)], 'U', '()', 'V', gen="<'a, V: Default, U>", targs="<'a, U>", pargs="<'a, V, U>", wrong=False)
    sig('const', '%token pub enum Token<const N: usize> {}; %type A [u8; N];', 's ::= A B;', [('A', '[u8; N]'), ('B', None)], None, '()', '()', gen='<const N: usize>',
        targs='<N>', wrong=False)
    sig('xtok_gen', "%token pub enum Token<'a> {}; %extra_token &'a str; %type A i8;", 's ::= A B;', [('A', "(&'a str, i8)"), ('B', "&'a str")], None, '()', '()',
        "&'a str", gen="<'a>", targs="<'a>", wrong=False)

    def case(name, g, want, pre='', post='', **kw):
        out.append(gr('c17_' + name, g, want, pre=pre, post=post, **kw))
    # names of the module
    case('module', '%module other; s ::= A;', 'ok', post='fn f() { let _ = other::Parser::new(); }')
    case('module_not', '%module other; s ::= A;', 'err', post='fn f() { let _ = ⟦parser⟧::Parser::new(); }', code='E0433')
    case('module_two', '%module m1; s ::= A; } pomelo! { %module m2; s ::= B;', 'ok', post='fn f() { let _ = (m1::Token::A, m2::Token::B); }')
    case('module_default', 's ::= A;', 'ok', post='fn f() { let _ = parser::Token::A; }')
    # visibility
    case('vis_mod_priv', 's ::= A;', 'err', pre='mod m { use pomelo::pomelo; pomelo! { s ::= B; } }\n', post='fn f() { let _ = m::⟦parser⟧::Parser::new(); }', code='E0603')
    case('vis_tok_priv', '%token enum Token {}; %parser struct Parser {}; s ::= A;', 'err', post='fn f() { let _ = parser::⟦Token⟧::A; }', code='E0603')
    case('vis_parser_priv', '%token pub enum Token {}; %parser struct Parser {}; s ::= A;', 'err', post='fn f() { let _ = parser::⟦Parser⟧::new(); }', code='E0603')
    case('vis_super', '%token pub(super) enum Token {}; %parser pub(super) struct Parser {}; s ::= A;', 'ok', post='fn f() { let mut p = parser::Parser::new(); p.parse(parser::Token::A); }')
    case('vis_crate', '%token pub(crate) enum Token {}; %parser pub(crate) struct Parser {}; s ::= A;', 'ok', post='fn f() { let mut p = parser::Parser::new(); p.parse(parser::Token::A); }')
    case('vis_super_not', 's ::= A;', 'err', pre='mod inner { use pomelo::pomelo; pomelo! { %token pub(super) enum Token {}; %parser pub(super) struct Parser {}; '
         's ::= A; } pub use ⟦self::parser::Parser⟧; }\n', code='E0364|E0365')
    for it in ('ExpectedToken', 'ExpectedTokens', 'YYMinorType', 'YYStackEntry', 'YY_ACTION', 'YY_FALLBACK', 'YY_DEFAULT', 'token_value', 'yy_parse_token', 'yy_reduce'):
        case('hidden_' + it, 's ::= A;', 'err', post='fn f() { use ⟦parser::%s⟧; }' % it, code='E0432|E0603')
    for fl in ('yystack', 'yyidx', 'yyerrcnt', 'extra', 'yystack_size', 'stateno', 'errcnt', 'error_count'):
        case('field_' + fl, '%extra_argument u8; s ::= A;', 'err', post='fn f(p: parser::Parser) { let _ = p.⟦' + fl + '⟧; }', code='E0616|E0609|E0615')
    case('new_priv', 's ::= A;', 'err', post='fn f() { parser::Parser::⟦new_priv⟧(()); }', code='E0624|E0599')
    case('no_extra', 's ::= A;', 'err', post='fn f(p: parser::Parser) { p.⟦extra⟧(); }', code='E0599|E0616')
    case('no_into_extra', 's ::= A;', 'err', post='fn f(p: parser::Parser) { p.⟦into_extra⟧(); }', code='E0599')
    case('no_token_extra', 's ::= A;', 'err', post='fn f(p: parser::Token) { p.⟦extra⟧(); }', code='E0599')
    # attributes
    case('attr_tok', '%token #[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)] pub enum Token {}; %type B u8; s ::= A B;', 'ok',
         post='fn c<T: std::fmt::Debug + Clone + Copy + PartialEq + Eq + std::hash::Hash + PartialOrd + Ord>() {} fn f() { c::<parser::Token>(); }')
    case('attr_tok_not', '%token #[derive(Debug)] pub enum Token {}; s ::= A;', 'err', post='fn c<T: Clone>() {} fn f() { c::<⟦parser::Token⟧>(); }', code='E0277')
    case('attr_parser', '%parser #[must_use] pub struct Parser {}; s ::= A;', 'err', post='#[deny(unused_must_use)] fn f() { ⟦parser::Parser::new()⟧; }', code='unused_must_use', cap=False)
    case('attr_parser_twin', 's ::= A;', 'ok', post='#[deny(unused_must_use)] fn f() { parser::Parser::new(); }', cap=False)
    case('attr_repr', '%token #[repr(u8)] pub enum Token {}; s ::= A B;', 'ok', post='const X: u8 = parser::Token::B as u8;')
    case('attr_type', '%token #[derive(Default)] pub enum Token {}; %type #[default] B; s ::= A B;', 'ok', post='fn c<T: Default>() {} fn f() { c::<parser::Token>(); }')
    case('attr_type_not', '%token #[derive(⟦Default⟧)] pub enum Token {}; %type B; s ::= A B;', 'err', code='E0665')
    case('attr_type_two', '%token #[derive(Default)] pub enum Token {}; %type #[default] B; %type #[doc = "x"] #[allow(unused)] A u8; s ::= A B;', 'ok', post='fn c<T: Default>() {} fn f() { c::<parser::Token>(); }')
    case('attr_type_dep', '%type #[deprecated] B; s ::= A B;', 'err', post='#[deny(deprecated)] fn f() { let _ = parser::Token::⟦B⟧; }', code='deprecated', cap=False)
    case('attr_type_dep_other', '%type #[deprecated] B; s ::= A B;', 'ok', post='#[deny(deprecated)] fn f() { let _ = parser::Token::A; }', cap=False)
    # include
    case('include', '%include { pub fn h() -> u8 { 1 } } %include { pub const K: u8 = 1; use super::*; } %type A X; s ::= A { let _ = h() + K; }', 'ok',
         pre='pub struct X;\n', post='fn f() { let _ = parser::h() + parser::K; let _ = parser::Token::A(X); }')
    case('include_priv', '%include { fn h() {} } s ::= A { h() }', 'err', post='fn f() { parser::⟦h⟧(); }', code='E0603')
    case('include_late', 's ::= A { h() } %include { fn h() {} }', 'ok')
    # what the code blocks see
    case('blocks', """%extra_argument u8; %error u16; %type A i8;
        %syntax_error { let t: Option<Token> = token; let x: &mut u8 = extra;
            for e in expected { let e: ExpectedToken = e; let n: &'static str = e.name; let m: i32 = e.yy_major; let t: Option<Token> = e.token; }
            Err(4u16)?; Ok(()) }
        %parse_fail { let x: &mut u8 = extra; 7 } %stack_overflow { let x: &mut u8 = extra; let t: Option<Token> = token; 8 }
        %type s i64; s ::= A(a) B { let x: &mut u8 = extra; let a: i8 = a; if a == 0 { return Err(3); } Err(9u16)?; 1i64 }""", 'ok')
    case('blocks_token', '%syntax_error { let t: Option<i128> = ⟦token⟧; Ok(()) } s ::= A;', 'err', code='E0308')
    case('blocks_extra', '%extra_argument u8; s ::= A { let t: &mut i128 = ⟦extra⟧; }', 'err', code='E0308')
    case('blocks_ret', '%error u16; s ::= A { return Err(⟦"x"⟧); }', 'err', code='E0308')
    case('blocks_err_val', '%type error i8; %syntax_error { Ok(3i8) } s ::= A; s ::= error(e) B { let e: i8 = e; }', 'ok')
    case('blocks_err_val_bad', '%type error i8; %syntax_error { Ok(⟦()⟧) } s ::= A; s ::= error(e) B { let e: i8 = e; }', 'err', code='E0308')
    case('default_err_needs_default', '%error super::N; s ::= A;', 'err', pre='pub struct N;\n', code='E0277')
    case('default_err_blocks', '%error super::N; %syntax_error { Err(super::N) } %parse_fail { super::N } %stack_overflow { super::N } s ::= A;', 'ok', pre='pub struct N;\n')
    case('default_err_unlimited', '%error super::N; %syntax_error { Err(super::N) } %parse_fail { super::N } %stack_size 0; s ::= A;', 'ok', pre='pub struct N;\n')
    # type parameters with everything else
    for gn, dt, dp, ty, use in GENS:
        for fn, d, r in FEATS:
            case('gen_%s_%s' % (gn, fn), '%%token #[derive(Clone)] pub enum Token%s {}; %%parser pub struct Parser%s {}; %s %%type A %s; %%type s %s; s ::= A(x) C%s { let _ = &x; loop { } } %s' % (dt, dp, d, ty, 'V' if gn == 'more' else ty, 'F' if fn == 'fallback' else '', r), 'ok', pre=GENPRE, post=use)
    # aliases are patterns
    for n, ty, pat, code in ALIASES:
        for where, g in (('only', '%%type A %s; s ::= A(%s) { %s; }'), ('first', '%%type A %s; %%type B u64; s ::= A(%s) B(yyv0) { let _: u64 = yyv0; %s; }'),
                         ('last', '%%type A %s; %%type B u64; s ::= B(yyv1) C A(%s) { let _: u64 = yyv1; %s; }'), ('nt', '%%type n %s; s ::= n(%s) B { %s; } n ::= C { loop { } }')):
            case('alias_%s_%s' % (n, where), g % (ty, pat, code), 'ok')
    # an alias of Result in the crate of the user, as is usual
    for i, b in enumerate(MUT_BASES):
        out.append(gr('c17_result_%d' % i, '%include { use super::*; } ' + b.replace(' Ok(', ' core::result::Result::Ok('), 'ok', pre='pub struct Error; pub type Result<T> = core::result::Result<T, Error>;\n'))
        out.append(gr('c17_result_own_%d' % i, '%include { type Result<T> = core::result::Result<T, u8>; } ' + b, 'ok'))
    # grammars written by a macro: fragments stand for what they were
    for n, par, arg, g, post in MACROS:
        out.append(Case('c17_macro_' + n, HEAD + 'use pomelo::pomelo;\nmacro_rules! m { (%s) => { pomelo! { %s } } }\nm! { %s }\n%s' % (par, g, arg, post), 'ok'))
    # editions
    for ed in ('2018', '2021', '2024'):
        for i, b in enumerate(MUT_BASES):
            out.append(gr('c17_edition_%s_%d' % (ed, i), b, 'ok', edition=ed))
    return out


GENPRE = '''pub trait Tr: Clone { type X: Clone; }
impl Tr for u8 { type X = i8; }
'''
# (name, parameters of %token, of %parser, a type, a use)
_U = 'fn f%s(t: parser::Token%s) -> Result<(), ()>%s { let _: parser::Token%s = t.clone(); Ok(()) }'
GENS = [
    ('plain', '<T: Clone>', '<T: Clone>', 'T', _U % ('<T: Clone>', '<T>', '', '<T>')),
    ('where', '<T> where T: Clone', '<T> where T: Clone', 'T', _U % ('<T>', '<T>', ' where T: Clone', '<T>')),
    ('where_assoc', '<T> where T: super::Tr', '<T> where T: super::Tr', 'T::X', _U % ('<T>', '<T>', ' where T: Tr', '<T>')),
    ('bound_where', '<T: Clone, U> where U: super::Tr, T: From<U>', '<T: Clone, U> where U: super::Tr, T: From<U>', '(T, U)', _U % ('<T: Clone, U>', '<T, U>', ' where U: Tr, T: From<U>', '<T, U>')),
    ('life', "<'a>", "<'a>", "&'a str", _U % ("<'a>", "<'a>", '', "<'a>")),
    ('life_where', "<'a, 'b, T> where 'a: 'b, T: Clone + 'a", "<'a, 'b, T> where 'a: 'b, T: Clone + 'a", "(&'b &'a T, T)", _U % ("<'a, 'b, T>", "<'a, 'b, T>", " where 'a: 'b, T: Clone + 'a", "<'a, 'b, T>")),
    ('const', '<const N: usize>', '<const N: usize>', '[u8; N]', _U % ('<const N: usize>', '<N>', '', '<N>')),
    ('const_where', '<T, const N: usize> where [T; N]: Clone, T: Clone', '<T, const N: usize> where [T; N]: Clone, T: Clone', '[T; N]', _U % ('<T, const N: usize>', '<T, N>', ' where [T; N]: Clone, T: Clone', '<T, N>')),
    ('hrtb', "<F> where F: for<'x> Fn(&'x u8) -> &'x u8 + Clone", "<F> where F: for<'x> Fn(&'x u8) -> &'x u8 + Clone", 'F', _U % ('<F>', '<F>', " where F: for<'x> Fn(&'x u8) -> &'x u8 + Clone", '<F>')),
    ('more', '<T> where T: Clone', '<T, V> where T: Clone, V: super::Tr', 'T', _U % ('<T>', '<T>', ' where T: Clone', '<T>') + ' struct K<T: Clone, V: Tr>(parser::Parser<T, V>);'),
]
FEATS = [
    ('none', '', ''), ('xtok', '%extra_token u8;', ''), ('xarg', '%extra_argument u8;', ''), ('error', '%error u8; %syntax_error { Err(1) } %parse_fail { 2 } %stack_overflow { 3 }', ''),
    ('stack', '%stack_size 7;', ''), ('unbounded', '%stack_size 0;', ''), ('error_rule', '', 's ::= error D { loop { } }'), ('fallback', '%fallback C CF;', ''), ('class', '%token_class K C D;', 's ::= K { loop { } }'),
    ('compound', '', 's ::= C|D { loop { } }'), ('wild', '%wildcard W;', 's ::= W { loop { } }'), ('optional', '', 's ::= D? E? { loop { } }'), ('include', '%include { use core::fmt::Debug; }', ''), ('verbose_off', '%syntax_error { let _ = (&token, expected.count()); Ok(()) }', ''),
    ('start', '%start_symbol s;', ''), ('dflt', '%default_type i8;', ''), ('all', '%extra_token u8; %extra_argument u8; %error i8; %syntax_error { Err(1) } %parse_fail { 2 } %stack_overflow { 3 } %stack_size 9; %token_class W A G;', 's ::= error C|D E? W { loop { } }'),
]
# (name, type, pattern, code): the code uses what the pattern binds
ALIASES = [
    ('name', 'String', 'x', 'let _: String = x'), ('mut', 'String', 'mut x', 'x.push(\'a\'); let _: String = x'), ('ref', 'String', 'ref x', 'let _: &String = x'),
    ('ref_mut', 'String', 'ref mut x', 'x.push(\'a\'); let _: &mut String = x'), ('wild', 'String', '_', ''), ('under', 'String', '_x', ''), ('tuple', '(u8, String)', '(x, y)', 'let _: (u8, String) = (x, y)'),
    ('tuple_ref', '(u8, String)', '(x, ref mut y)', 'let _: (u8, &mut String) = (x, y)'), ('rest', '(u8, i8, String)', '(x, ..)', 'let _: u8 = x'), ('at', '(u8, i8)', 'w @ (x, _)', 'let _: ((u8, i8), u8) = (w, x)'),
    ('reference', "&'static u8", '&x', 'let _: u8 = x'), ('slice', '[u8; 2]', '[x, y]', 'let _: (u8, u8) = (x, y)'), ('struct', 'core::ops::Range<u8>', 'core::ops::Range { start, end: e }', 'let _: (u8, u8) = (start, e)'),
    ('newtype', 'core::num::Wrapping<u8>', 'core::num::Wrapping(x)', 'let _: u8 = x'), ('paren', 'u8', '(x)', 'let _: u8 = x'), ('or', 'bool', 'true | false', ''),
    ('result', 'Result<u8, u8>', 'Ok(x) | Err(x)', 'let _: u8 = x'), ('yyv', 'u8', 'yyv', 'let _: u8 = yyv'), ('yy', 'u8', 'yy', 'let _: u8 = yy'), ('yyres', 'u8', 'yyres', 'let _: u8 = yyres'), ('yyp0', 'u8', 'yyp0', 'let _: u8 = yyp0'),
    ('yygotominor', 'u8', 'yygotominor', 'let _: u8 = yygotominor'), ('yyruleno', 'u8', 'yyruleno', 'let _: u8 = yyruleno'), ('raw', 'u8', 'r#fn', 'let _: u8 = r#fn'), ('self_name', 'u8', 's', 'let _: u8 = s'),
    ('token', 'u8', 'token', 'let _: u8 = token'), ('unit', '()', '()', ''),
]


# ------------------------------------------------------------------ C21
def c21():
    out = []

    def ss(name, g, parser='parser::Parser', token='parser::Token', gen='', where='', **kw):
        out.append(gr('c21_' + name, g, 'ok', post='fn ss<T: Send + Sync>() {}\nfn f%s()%s { ss::<%s>(); ss::<%s>(); }' % (gen, where, parser, token), **kw))
    dirs = [('', ''), ('_x', '%extra_argument Vec<u8>; %include { use std::vec::Vec; }'), ('_e', '%error String; %include { use std::string::String; }'),
            ('_xt', '%extra_token u32;'), ('_s0', '%stack_size 0;'), ('_cs', '%include { type V<T> = std::vec::Vec<T>; } %stack_size 5 V;'),
            ('_err', '%type error i8; %syntax_error { Ok(1) }'), ('_wf', '%wildcard W; %fallback A F;')]
    for n, d in dirs:
        ss('plain' + n, d + '%type A i8; %type F i8; %type t i64; s ::= A t? B|C; t ::= D { 2 }' + (' s ::= error A;' if n == '_err' else '') + (' s ::= W;' if n == '_wf' else ''))
    ss('gen', '%token pub enum Token<T, U> {}; %type A T; %type B U; %type s (T, U); %error T; %syntax_error { panic!() } %parse_fail { panic!() } %stack_overflow { panic!() } s ::= A(a) B(b) { (a, b) }',
       'parser::Parser<T, U>', 'parser::Token<T, U>', '<T: Send + Sync, U: Send + Sync>')
    ss('lt', "%token pub enum Token<'a> {}; %type A &'a str; s ::= A;", "parser::Parser<'a>", "parser::Token<'a>", "<'a>")
    ss('extra_gen', '%parser pub struct Parser<X> {}; %extra_argument X; s ::= A;', 'parser::Parser<X>', 'parser::Token', '<X: Send + Sync>')
    for n, ty in (('tok', '%type A std::rc::Rc<u8>;'), ('nt', '%type t std::cell::Cell<*mut u8>;'), ('x', '%extra_argument std::rc::Rc<u8>;')):
        out.append(gr('c21_not_' + n, ty + ' s ::= A t; t ::= ' + ('{ todo!() }' if n == 'nt' else ';'), 'err', code='E0277',
                      post='fn ss<T: Send>() {}\nfn f() { ss::<⟦parser::Parser⟧>(); }'))
    for i, b in enumerate(MUT_BASES):
        out.append(Case('c21_forbid_%d' % i, '#![forbid(unsafe_code)]\n#![allow(warnings)]\nuse pomelo::pomelo;\npomelo! {\n' + b + '\n}\n', 'ok', cap=False))
    # two parsers, moved and shared between threads
    out.append(gr('c21_threads', '%type s i64; %type A i64; s ::= l(x) { x } %type l i64; l ::= A; l ::= l(x) A(y) { x + y }', 'ok', post='''
fn f() { let mut p = parser::Parser::new(); let mut q = parser::Parser::new();
    let _ = p.parse(parser::Token::A(1)); let _ = q.parse(parser::Token::A(2));
    std::thread::scope(|s| { s.spawn(|| p.parse(parser::Token::A(3))); s.spawn(|| q.parse(parser::Token::A(4))); });
    std::thread::spawn(move || p.end_of_input()); let _ = q.end_of_input(); }'''))
    return out


# ------------------------------------------------------------------ C24
NOSTD = """#![no_std]
#![allow(warnings)]
pub struct Stk<T>(core::option::Option<T>);
impl<T> Stk<T> {
    pub fn new() -> Self { Stk(None) }
    pub fn push(&mut self, t: T) { self.0 = Some(t); }
    pub fn pop(&mut self) -> Option<T> { self.0.take() }
    pub fn last(&self) -> Option<&T> { self.0.as_ref() }
    pub fn is_empty(&self) -> bool { self.0.is_none() }
    pub fn clear(&mut self) { self.0 = None; }
    pub fn len(&self) -> usize { 0 }
}
"""


def c24():
    """every pair of directives, in crates without std and without alloc"""
    out = []
    F = [('x', '%extra_argument u8;', ''), ('e', '%error u16;', ''), ('xt', '%extra_token u32;', ''), ('fb', '%fallback A F G; %type F u8; %type G u8;', ''),
         ('wc', '%wildcard W;', 's ::= D W D;'), ('cls', '%token_class K C D;', 's ::= E K;'), ('cmp', '', 's ::= E E|F2|G2;'), ('opt', '', 's ::= H t? A? H;'),
         ('prec', '%left P; %right Q; %nonassoc R;', 's ::= I e; e ::= e P e; e ::= e Q e; e ::= e R e [P]; e ::= I;'),
         ('err', '%type error u8;', 's ::= J error A;'), ('syn', '%syntax_error { let _ = (token, expected.count()); ERR }', ''),
         ('pf', '%parse_fail { Default::default() }', ''), ('ov', '%stack_overflow { let _ = token; Default::default() }', ''),
         ('tok', '%token #[derive(Debug, Clone, PartialEq)] pub enum Token {};', ''), ('par', '%parser #[must_use] pub struct Parser {};', ''),
         ('dt', '%default_type u8;', ''), ('inc', '%include { use core::fmt::Debug; }', ''), ('mod', '%module other;', ''), ('st', '%start_symbol z; ', 'z ::= s;'),
         ('act', '', 's ::= A(a) A(b) { let _ = (a, b); if false { return Err(Default::default()); } UNIT }'), ('ver', '%verbose;', '')]

    def mk(name, fs, size):
        ns = {f[0] for f in fs}
        d = ' '.join(f[1] for f in fs)
        r = ' '.join(f[2] for f in fs)
        unit = '0' if 'dt' in ns else '()'
        d = d.replace('ERR', 'Ok(0)' if ns & {'err', 'dt'} else 'Ok(())')
        if 'err' in ns and 'syn' not in ns:
            d += ' %syntax_error { Err(Default::default()) }'
        if 'dt' in ns:
            r = re.sub(r';(?= *$| +[a-z]+ ::=)', ' { 0 }', r)
        r = r.replace('UNIT', unit)
        base = 's ::= A E B t;  t ::= C;'
        if 'dt' in ns:
            base = base.replace(';', ' { 0 }')
        return Case(name, NOSTD + 'use pomelo::pomelo;\npomelo! { %type A u8; %stack_size ' + size + ' super::Stk; ' + d + ' ' + base + ' ' + r + ' }\n', 'ok')
    for i in range(len(F)):
        out.append(mk('c24_%s' % F[i][0], [F[i]], '7'))
        for j in range(i):
            if {F[i][0], F[j][0]} in ({'xt', 'wc'}, {'dt', 'wc'}):     # a wildcard has no type
                continue
            out.append(mk('c24_%s_%s' % (F[j][0], F[i][0]), [F[j], F[i]], '0' if (i + j) % 2 else '100'))
    out.append(mk('c24_all', [f for f in F if f[0] not in ('dt', 'mod', 'xt')], '9'))
    out.append(mk('c24_all_dt', [f for f in F if f[0] not in ('mod', 'wc')], '0'))
    out.append(Case('c24_alloc', '#![no_std]\n#![allow(warnings)]\nextern crate alloc;\nuse pomelo::pomelo;\npomelo! { %include { use super::alloc::vec::Vec; } '
                    '%type A alloc::string::String; %include { use super::alloc; } %stack_size 50 Vec; s ::= A; }\n', 'ok'))
    # the default stack is the only use of std: without std it is the one thing missing
    out.append(Case('c24_default_stack', '#![no_std]\n#![allow(warnings)]\nuse pomelo::pomelo;\npomelo! { s ::= A; }\n', 'err', code='E0433'))
    return out


# ------------------------------------------------------------------ C25
MIN = """
pub mod st {
    pub struct Min<T>%(where)s { x: core::marker::PhantomData<T>, v: std::vec::Vec<T> }
    impl<T> Min<T> {
        pub fn new() -> Self { Min { x: core::marker::PhantomData, v: std::vec::Vec::new() } }
        pub fn push(&mut self, t: T) { self.v.push(t) }
        pub fn pop(&mut self) -> Option<T> { self.v.pop() }
        pub fn last(&self) -> Option<&T> { self.v.last() }
        pub fn is_empty(&self) -> bool { self.v.is_empty() }
        pub fn clear(&mut self) { self.v.clear() }
        pub fn len(&self) -> usize { self.v.len() }
    }
    pub type Alias<T> = Min<T>;
    pub mod deep { pub use super::Min as Other; }
}
"""


def c25():
    out = []
    n = 0
    for path, inc in (('super::st::Min', ''), ('crate::st::Min', ''), ('Min', '%include { use super::st::Min; }'), ('super::st::Alias', ''),
                      ('Stack', '%include { type Stack<T> = super::st::Min<T>; }'), ('super::st::deep::Other', ''), ('Q', '%include { use super::st::Min as Q; }'),
                      ('::std::vec::Vec', ''), ('std::vec::Vec', ''), ('Vec', ''), ('self::st2::M', '%include { pub mod st2 { pub use crate::st::Min as M; } }')):
        for size in ('0', '1', '37'):
            for k, (g, ) in enumerate(((MUT_BASES[1],), (MUT_BASES[2],), (MUT_BASES[5],), (MUT_BASES[6],), (MUT_BASES[7],), (MUT_BASES[9],), (MUT_BASES[11],))):
                n += 1
                if n % 2 and size != '37':
                    continue
                out.append(gr('c25_%s_%s_%d' % (re.sub(r'\W+', '_', path), size, k), inc + ' %stack_size ' + size + ' ' + path + '; ' + g, 'ok', pre=MIN % {'where': ''}))
    # each of the documented functions is needed by the generated code or not, but none other is; no trait of the type is used
    for drop in ('Deref', 'IntoIterator', 'Default', 'Clone', 'Index', 'Extend', 'Debug'):
        pass
    return out


# ------------------------------------------------------------------ C30
# where a type, bound, attribute or item of the user stands: the unknown thing is marked
TYPES = {
    'type_token': '%type A ⟦Foo⟧;', 'type_nt': '%type t ⟦Foo⟧; s ::= t; t ::= D { x }', 'default_type': '%default_type ⟦Foo⟧; s ::= D { x }', 'extra_argument': '%extra_argument ⟦Foo⟧;',
    'extra_token': '%extra_token ⟦Foo⟧;', 'error': '%error ⟦Foo⟧;', 'stack': '%stack_size 3 ⟦Foo⟧;', 'type_error': '%type error ⟦Foo⟧;', 'type_start': '%type s ⟦Foo⟧; s ::= D { x }',
    'path': '%type A ⟦std::nothing⟧::Foo;', 'lifetime': "%type A &⟦'q⟧ str;", 'elided': '%type A ⟦&⟧str;', 'arity': '%type A ⟦Option<u8, u8>⟧;', 'extra_lifetime': "%extra_argument &⟦'q⟧ u8;",
    'unsized': '%type A ⟦str⟧;', 'bound': '%token pub enum Token<T: ⟦Nope⟧> {}; %type D T;', 'where': '%token pub enum Token<T> where T: ⟦Nope⟧ {}; %type D T;',
    'parser_bound': '%parser pub struct Parser<T: ⟦Nope⟧> {}; %extra_argument T;', 'derive': '%token #[derive(⟦Nope⟧)] pub enum Token {};', 'attr_token': '%token #[⟦nope⟧] pub enum Token {};',
    'attr_parser': '%parser #[⟦nope⟧] pub struct Parser {};', 'attr_type': '%type #[⟦nope⟧] A u8;', 'visibility': '%token pub(in ⟦nope⟧) enum Token {};',
    'include_type': '%include { fn f() -> u8 { ⟦"x"⟧ } }', 'include_use': '%include { use ⟦nope⟧::x; }', 'include_call': '%include { fn f() { ⟦g⟧(); } }', 'include_second': '%include { fn f() {} } %include { fn g() { ⟦f(1)⟧ } }',
}
# mistakes within a block of code
MISTAKES = [
    ('name', '⟦foo⟧', 'E0425'), ('macro', '⟦foo⟧!()', None), ('method', '1u8.⟦foo⟧()', 'E0599'), ('let', 'let z: u8 = ⟦"q"⟧', 'E0308'), ('moved', 'let v = vec![1]; drop(v); drop(⟦v⟧)', 'E0382'),
    ('arity', '⟦drop⟧()', 'E0061'), ('question', 'let z: Result<(), std::fmt::Error> = Ok(()); z⟦?⟧', 'E0277'), ('return', 'return ⟦3⟧', 'E0308'), ('match', 'match ⟦true⟧ { true => () }', 'E0004'),
    ('break', '⟦break⟧', 'E0268'), ('mut', 'let z = 1; ⟦z = 2⟧', 'E0384'), ('field', 'struct Z; Z.⟦f⟧', 'E0609'), ('private', 'std::vec::Vec::<u8>::new().⟦buf⟧', 'E0616'), ('trait', 'let z: u8 = ⟦Default::default⟧(1)', 'E0061'),
    ('unsafe', '⟦std::ptr::read(&1)⟧', 'E0133'), ('infer', 'let ⟦z⟧ = None', 'E0282'), ('borrow', 'let mut z = 1; let a = &mut z; let b = ⟦&mut z⟧; *a = 1; *b = 1', None), ('op', '⟦1u8 + "x"⟧', 'E0277'),
    ('assert', '⟦assert!(1u8)⟧', None), ('nested', 'if true { while false { let z: u8 = ⟦"q"⟧; } }', 'E0308'), ('closure', 'let z = |q: u8| { let w: i8 = ⟦q⟧; }', 'E0308'), ('path', '⟦nope⟧::g()', 'E0433'),
]
BLOCKS = {
    'action': 's ::= A { %s; }', 'inner_action': 's ::= t B; t ::= { } t ::= A { %s; }', 'second_line': 's ::= A\n    { let first = 1;\n %s; }', 'syntax_error': '%%syntax_error { %s; Ok(()) } s ::= A;',
    'parse_fail': '%%parse_fail { %s; } s ::= A;', 'stack_overflow': '%%stack_overflow { %s; } s ::= A;', 'include': '%%include { fn f() -> Result<(), ()> { %s; Ok(()) } } s ::= A;',
    'error_rule': 's ::= A; s ::= error { %s; }', 'aliases': '%%type A u8; s ::= A(a) t?(b) K|L { %s; } t ::= C;', 'optional': 's ::= A? t? { %s; } t ::= C;', 'typed': '%%type s u8; s ::= A { %s; 1 }',
    'generic': '%%token pub enum Token<T> {}; %%type A T; s ::= A { %s; }', 'extra': '%%extra_argument u8; %%extra_token i8; s ::= A { %s; }', 'prec': '%%left P; s ::= e; e ::= A; e ::= e P e [P] { %s; }',
}
# (name, grammar with the mistake marked, code)
VALUES = [
    ('alias_type', '%type A u8; s ::= A(x) { let y: i8 = ⟦x⟧; }', 'E0308'),
    ('alias_first', '%type A u8; %type B i8; s ::= A(x) B(y) { let z: i8 = y; let z: i8 = ⟦x⟧; }', 'E0308'),
    ('alias_moved', '%type A String; s ::= A(x) { drop(x); drop(⟦x⟧); }', 'E0382'),
    ('alias_immutable', '%type A u8; s ::= A(⟦x⟧) { ⟦x = 3⟧; }', 'E0384'),
    ('alias_pattern', '%type A (u8, u8); s ::= A(⟦(a, b, c)⟧) { }', 'E0308'),
    ('alias_refutable', '%type A Option<u8>; s ::= A(⟦Some(a)⟧) { }', 'E0005'),
    ('alias_refutable_2', '%type A u8; %type B Option<u8>; s ::= A(q) B(⟦Some(a)⟧) C { }', 'E0005'),
    ('alias_twice', '%type A u8; %type B u8; s ::= A(x) B(⟦x⟧) { let y: u8 = x; }', None),
    ('alias_twice_inner', '%type A u8; %type B (u8, u8); s ::= A(x) C B((_, ⟦x⟧)) { let y: u8 = x; }', None),
    ('alias_struct', '%type A u8; s ::= A(⟦Nope { x }⟧) { }', None),
    ('optional_type', '%type A u8; s ::= A?(x) B { let y: u8 = ⟦x⟧; }', 'E0308'),
    ('optional_pattern', '%type A u8; s ::= A?(⟦Some(x)⟧) B { }', 'E0005'),
    ('compound_type', '%type A u8; %type B u8; s ::= A|B(x) C { let y: i8 = ⟦x⟧; }', 'E0308'),
    ('class_type', '%token_class K A B; %type A u8; %type B u8; s ::= K(x) C { let y: i8 = ⟦x⟧; }', 'E0308'),
    ('class_mixed', '%type A u8; %type B i8; %token_class K A B; s ::= ⟦K(x)⟧ { }', None),
    ('compound_mixed', '%type A u8; %type B i8; s ::= ⟦A|B(x)⟧ { }', None),
    ('nonterminal_type', '%type s i8; s ::= t(x) { ⟦x⟧ } %type t u8; t ::= A { 1 }', 'E0308'),
    ('nonterminal_action', '%type s i8; s ::= t(x) { x } %type t i8; t ::= A { ⟦"x"⟧ }', 'E0308'),
    ('extra_token_type', '%extra_token u8; %type A i8; s ::= A((x, y)) { let z: i8 = ⟦x⟧; }', 'E0308'),
    ('extra_token_pattern', '%extra_token u8; %type A i8; s ::= A(⟦(x, y, z)⟧) { }', 'E0308'),
    ('extra_type', '%extra_argument u8; s ::= A { let y: u8 = ⟦extra⟧; }', 'E0308'),
    ('extra_handlers', '%extra_argument u8; %syntax_error { let y: u8 = ⟦extra⟧; Ok(()) } s ::= A;', 'E0308'),
    ('extra_absent', 's ::= A { let y: u8 = ⟦extra⟧; }', None),
    ('token_type', '%syntax_error { let t: Token = ⟦token⟧; Ok(()) } s ::= A;', 'E0308'),
    ('token_absent', '%parse_fail { ⟦token⟧; } s ::= A;', 'E0425'),
    ('token_absent_action', 's ::= A { ⟦token⟧; }', 'E0425'),
    ('expected_type', '%syntax_error { let t: u8 = ⟦expected⟧; Ok(()) } s ::= A;', 'E0308'),
    ('expected_absent', '%stack_overflow { ⟦expected⟧; } s ::= A;', 'E0425'),
    ('action_empty', '%type s u8; s ::= A ⟦{ }⟧', 'E0308'),
    ('action_semicolon', '%type s u8; s ::= A ⟦{ 1; }⟧', 'E0308'),
    ('action_untyped', 's ::= A { ⟦1⟧ }', 'E0308'),
    ('action_third', '%type s u8; s ::= A { 1 } s ::= B { 2 } s ::= C { ⟦"x"⟧ } s ::= D { 4 }', 'E0308'),
    ('forward', '%type t u8; %type s i8; s ::= ⟦t⟧; t ::= A { 1 }', 'E0308'),
    ('forward_untyped', '%type s i8; ⟦s ::= A⟧;', None),
    ('no_action', '%type s i8; ⟦s ::= A B⟧;', None),
    ('no_action_empty', '%type s i8; s ::= A { 1 } ⟦s ::= ⟧;', None),
    ('error_value', '%type error u8; s ::= A; s ::= error(x) B { let y: i8 = ⟦x⟧; }', 'E0308'),
    ('error_made', '%type error u8; %syntax_error { Ok(⟦"x"⟧) } s ::= A; s ::= error B;', 'E0308'),
    ('syntax_error_err', '%error u8; %syntax_error { Err(⟦"x"⟧) } s ::= A;', 'E0308'),
    ('syntax_error_value', '%syntax_error { ⟦3⟧ } s ::= A;', 'E0308'),
    ('parse_fail_value', '%error u8; %parse_fail { ⟦"x"⟧ } s ::= A;', 'E0308'),
    ('stack_overflow_value', '%error u8; %stack_overflow { ⟦"x"⟧ } s ::= A;', 'E0308'),
    ('parse_fail_nothing', '%error ⟦u8⟧; %parse_fail ⟦{ }⟧ s ::= A;', 'E0308'),
    ('action_err', '%error u8; s ::= A { return Err(⟦"x"⟧); }', 'E0308'),
    ('action_question', '%error u8; s ::= A { "x".parse::<u8>()⟦?⟧; }', 'E0277'),
    ('escape', "%extra_argument &'static str; s ::= A { let x = String::new(); *extra = ⟦&x⟧; }", 'E0597'),
    ('generic_bound', '%token pub enum Token<T> {}; %type A T; s ::= A(x) { x.⟦clone⟧(); }', 'E0599'),
]
# lints that a user denies: reported at the code of the user
LINTS = [
    ('must_use', 'unused_must_use', '⟦Ok::<u8, u8>(1)⟧'), ('deprecated', 'deprecated', '⟦old⟧()'), ('unused_mut_is_allowed', None, 'let mut z = 1; drop(z)'), ('unused_assign', 'unused_assignments', 'let mut z = 1; drop(z); ⟦z = 2⟧'),
    ('while_true', 'while_true', '⟦while true⟧ { break }'), ('unused_parens', 'unused_parens', 'let z = ⟦(⟧1⟦)⟧; drop(z)'), ('path_statement', 'path_statements', 'let z = 1; ⟦z;⟧'),
]


def c30(deep=False):
    out = []
    for n, d in TYPES.items():
        g = d + (' s ::= A B { x }' if '%default_type' in d or '%type s' in d else ' s ::= A B;')
        out.append(gr('c30_type_' + n, g, 'err'))
        out.append(gr('c30_type_%s_last' % n, ('%start_symbol s; ' + g.split(';', 1)[1] + ' ' + d.split(';', 1)[0] + ';') if '%include' not in d else 's ::= A B; ' + d, 'err'))
    for b, g in BLOCKS.items():
        for n, c, code in MISTAKES:
            if b == 'include' and n in ('question', 'return'):
                continue
            out.append(gr('c30_%s_%s' % (b, n), g % c, 'err', code=code))
        out.append(gr('c30_%s_good' % b, g % 'let z = 1', 'ok'))
    for n, g, code in VALUES:
        out.append(gr('c30_value_' + n, g, 'err', code=code))
    for b in ('action', 'syntax_error', 'parse_fail', 'stack_overflow', 'include', 'aliases', 'typed'):
        for n, lint, c in LINTS:
            out.append(gr('c30_lint_%s_%s' % (b, n), BLOCKS[b] % c + ' %include { #[deprecated] fn old() {} }', 'err' if lint else 'ok', code=lint, cap=False,
                          pre='#![deny(%s)]\n' % (lint or 'unused_mut')))
    # the code that is added raises no warning
    for ed in ('2018', '2021', '2024'):
        for i, b in enumerate(MUT_BASES):
            out.append(Case('c30_warn_%s_%d' % (ed, i), '#![deny(warnings)]\nuse pomelo::pomelo;\npomelo! {\n' + b + '\n}\n', 'ok', cap=False, edition=ed))
    # thorough: the mistakes in grammars of other editions
    more = []
    for c in out if deep else []:
        if c.want == 'err':
            for ed in ('2018', '2024'):
                k = Case('%s_%s' % (c.name, ed), '', 'err', code=c.code, cap=c.cap, edition=ed)
                k.src, k.marks = c.src, c.marks
                more.append(k)
    return out + more
