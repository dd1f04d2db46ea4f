#!/usr/bin/env python3
"""writes MANIFEST.json"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
E1T = 'abstract interpretation of the MIR of generated parsers to a fixpoint, product with an independent LALR(1) reference'
E1N = ('For each witness grammar (hand-written by feature plus seeded random families) the verdict covers every token sequence, '
       'stack and call history: the control state is explored to a fixpoint with opaque payloads. The quantification over grammars is by '
       'the witness set only. Trusts rustc, the interpreter of MIR in driver/, the models of Vec, Option, Result and slices in it, and the '
       'reference in wit/gram.py and wit/mon.py; user code is assumed to return without unwinding.')
CHECKS = {}
for p in ('C01 C02 C05 C06 C07 C08 C09 C10 C12 C13 C14 C15 C16 C26').split():
    CHECKS[p] = (E1T, 'translation_validation', E1N)
for p in ('C03', 'C04'):
    CHECKS[p] = (E1T + '; compile-fail witnesses for ambiguous grammars', 'translation_validation',
                 E1N + ' Grammars for which the reference finds a conflict must be rejected by the compiler.')
for p in ('C11', 'C17', 'C22', 'C25'):
    CHECKS[p] = (E1T, 'translation_validation', E1N)
E2T = 'compile-fail witnesses with compiling twins: programs given to the type checker'
CHECKS['C18'] = (E2T, 'other', 'Every kind of mistake in the list of witnesses is rejected at the marked construct and its corrected twin compiles; mutated valid '
                 'grammars never make the macro panic, hang or report an error without a place. Bounded by the witnesses.')
CHECKS['C21'] = (E2T, 'other', 'The type checker discharges Send and Sync for opaque payload types, for the listed combinations of directives.')
CHECKS['C24'] = (E2T, 'other', 'Every pair of directives in crates without std and alloc.')
CHECKS['C30'] = (E2T, 'other', 'Every kind of mistake in the list, in every kind of place where user code stands, is reported by the compiler at the marked tokens; '
                 'grammars without mistakes compile with all warnings denied. Bounded by the witnesses.')
E4T = 'rules over the resolved items and bodies of generated modules'
CHECKS['C19'] = ('translation validation of the printed automaton against an independent LALR(1) reference', 'translation_validation',
                 'For each witness grammar (hand-written, seeded random families, shapes of competition, ambiguous ones) the whole description is compared, '
                 'state by state and cell by cell, with the reference automaton. The quantification over grammars is by the witness set only.')
CHECKS['C20'] = ('dataflow and effect rules over the MIR of the macro crate', 'other',
                 'Every body of the macro crate is analysed: no function with an effect is named, no static can change, no address becomes a value, no '
                 'sequence in hash order reaches a result unsorted, no Debug output shows places, and every print is guarded by the flag of %verbose on all '
                 'paths. Functions of std, syn, quote and proc_macro2 outside the list of effects are trusted; a sort by the value of an entry of a map counts as total.')
CHECKS['C23'] = (E1T + '; narrowing rule over the generated code', 'translation_validation',
                 E1N + ' Sizes: every width boundary of 8 bits and the token count beyond 16 bits; tokens fed to large grammars are restricted to the ends and '
                 'to codes next to the boundaries. States and rules beyond 16 bits are not reached; fixed 16-bit conversions are found by a rule.')
CHECKS['C27'] = (E1T + '; compile-fail witnesses', 'translation_validation',
                 E1N + ' Each witness grammar is given with permuted declarations and renamed symbols and compared with the same reference; ill-formed '
                 'grammars must be rejected in every order.')
CHECKS['C28'] = ('bounds on the cycles and on the edges of the extracted transition systems; sizes of the generated tables', 'translation_validation',
                 E1N + ' For each witness grammar the reductions the parser takes, as a pushdown system, have no endless run, so that n tokens cost O(n) '
                 'reductions, and the work between two operations on the stack is bounded by a constant that does not grow with tokens or states. Elements of the '
                 'tables of 15 grammars are compared with budgets.')
for p in ('C21', 'C22', 'C24'):
    t, l, n = CHECKS[p]
    CHECKS[p] = (t + '; ' + E4T, l, n)
for p in ('C11', 'C17', 'C25'):
    t, l, n = CHECKS[p]
    CHECKS[p] = (t + '; ' + E2T, l, n)
NA = {
 'C29': 'termination and complexity of the macro over all token streams depend on worklists whose bounds are runtime quantities; the finite witness set of C18 shows only that those grammars terminate',
}
NA = {k: v for k, v in NA.items() if k not in CHECKS}
m = {'version': 1,
     'setup_cmd': 'python3 setup.py',
     'checks': [{'property': p, 'quick_cmd': 'python3 check.py --property %s' % p,
                 'thorough_cmd': 'python3 check.py --property %s --tier thorough' % p,
                 'technique': t, 'level': l, 'level_note': n} for p, (t, l, n) in sorted(CHECKS.items())],
     'not_applicable': [{'property': p, 'reason': r} for p, r in sorted(NA.items())],
     'notes': 'No hooks are needed in /repo: every check expands the macro of the current tree in witness crates under /verif/work.'}
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
