#!/usr/bin/env python3
"""writes known-findings.txt"""
import os
FIXED = [
 ('C18', '63c236b', 'a token declared as its own %fallback made the macro or the generated parser loop'),
 ('C23', 'fc203bb', 'the integer type of the offset tables was chosen from their maximum only, so negative offsets were truncated'),
 ('C06', '5cd23d3', 'a default reduction was taken where the wildcard can be reduced on'),
 ('C24', '0949f7f', 'generated code named std paths, so no_std crates could not use it'),
 ('C20', 'bc36e2a', 'the expansion depended on the iteration order of HashMap and so on the process hash seeds'),
 ('C11', '26d2b2b', 'an untyped start symbol next to a symbol of type () was rejected by the compiler or returned the wrong value (C11, C02)'),
 ('C04', 'd0ec735', 'a %nonassoc token still took the default reduction of its conflict instead of being an error'),
 ('C13', '5dc0777', 'the expected list contained %nonassoc tokens that are errors in that state'),
 ('C08', '351ce2b', 'X? was given a type before the type of X was known'),
 ('C08', 'aa5ee10', 'the ? after a compound token A|B was ignored'),
 ('C01', 'd15ef57', 'two states could share an offset into the packed action table and one took actions of the other'),
 ('C07', '9ad353f', 'a %token_class used inside another class or compound was not resolved to its members (also C18)'),
 ('C18', 'f9be27c', 'an empty %token_class panicked'),
 ('C05', 'e902c0e', 'an alias on an untyped token reached through a fallback did not compile'),
 ('C03', 'e3bce95', 'the same token in several compounds of one state was taken for a conflict (also C07)'),
 ('C08', '44f6f39', 'a rule without action code forwarded only the first symbol of its kind or none'),
 ('C18', '0057b7c', 'a duplicated %stack_size or %module was silently accepted'),
 ('C27', '69f15c7', 'a second %type of a token dropped the attributes of the first (also C17)'),
 ('C03', '927000b', 'reduce/reduce conflicts between rules of equal precedence were resolved silently by associativity'),
 ('C04', '0904035', 'rules other than the first were not compared with a %nonassoc token, hiding conflicts (also C03)'),
 ('C18', 'ff08f17', 'a refutable pattern in an alias was accepted and panicked in the parser'),
 ('C18', 'b36d2ea', 'the type mismatch of a rule without code had no place in the grammar (also C08)'),
 ('C18', 'db3e1e1', 'a %token or %parser with another name gave unlocated errors in the generated code (also C17)'),
]
FIND = []
p = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'known-findings.txt')
with open(p, 'w') as f:
    for a, b, c in FIXED:
        f.write('fixed: property=%s %s %s\n' % (a, b, c))
    for a, k, c in FIND:
        f.write('finding: property=%s key=%s %s\n' % (a, k, c))
