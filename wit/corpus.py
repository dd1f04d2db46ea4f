"""Hand-written witness grammars, by feature.  Each is a plain description; see gram.py for the format."""
from gram import Gram

HAND = []


def G(name, tags, text, **kw):
    g = Gram(name, text, **kw)
    g.tags = set(tags.split())
    HAND.append(g)
    return g


# ---------------------------------------------------------------- language
G('calc', 'lang prec', '''
%left Plus Minus
%left Star Slash
%types Num=1
input : expr
expr : expr Plus expr {try}
expr : expr Minus expr
expr : expr Star expr
expr : expr Slash expr {try}
expr : Num
expr : LP expr RP
''')
G('calc_strat', 'lang', '''
%types Num=1
input : expr
expr : expr Plus term
expr : expr Minus term
expr : term
term : term Star fact
term : term Slash fact
term : fact
fact : Num
fact : LP expr RP
fact : Minus fact
''')
G('json', 'lang', '''
%types Str=1 Num=2
start : value
value : Null
value : True
value : False
value : Num
value : Str
value : LB arr RB
value : LC obj RC
arr :
arr : arr1
arr1 : value
arr1 : arr1 Comma value
obj :
obj : obj1
obj1 : pair
obj1 : obj1 Comma pair
pair : Str Colon value
''')
G('lalr_lvalue', 'lang', '''
s : l Eq r
s : r
l : Star r
l : Id
r : l
''')
G('lalr_not_slr2', 'lang', '''
s : A a D
s : B a C
s : A C C
s : B C D
a : C
''')
G('eps_chain', 'lang', '''
s : a b c d End
a :
a : A
b :
b : B
c :
c : C
d :
d : D
''')
G('eps_nested', 'lang', '''
s : x
x : y z Q
y : w w
w : v
v :
z : y u
u :
u : U
''')
G('eps_list', 'lang', '''
s : list
list :
list : list item opt
item : A
item : B sub C
opt :
opt : Semi
sub :
sub : sub D
''')
G('right_rec', 'lang', '''
s : list
list : A Comma list
list : A
''')
G('right_rec_eps', 'lang', '''
s : list
list : A list
list :
''')
G('mid_rec', 'lang', '''
s : p
p : LP p RP
p : LB p RB
p :
''')
G('empty_only', 'lang', '''
s : x Dummy
s :
x :
''')
G('single', 'lang', '''
s : A
''')
G('unit_chain', 'lang', '''
s : a
a : b
b : c
c : d
d : e
e : F
e : G e
''')
G('dangling', 'lang prec', '''
%nonassoc Then
%nonassoc Else
prog : stmt
stmt : If Cond Then stmt
stmt : If Cond Then stmt Else stmt
stmt : Other
''')
G('pascal', 'lang', '''
%types Id=1
prog : decls blk
decls :
decls : decls decl
decl : Var ids Colon typ Semi
decl : Proc Id Semi blk
ids : Id
ids : ids Comma Id
typ : Int
typ : Arr LB Id RB Of typ
blk : Begin stmts End
stmts : stmt
stmts : stmts Semi stmt
stmt :
stmt : Id Assign ex
stmt : If ex Then stmt Fi
stmt : blk
ex : Id
ex : ex Plus Id
''')
G('two_ctx', 'lang', '''
s : A x B
s : C x D
s : A y D
s : C z B
x : E
y : E F
z : E F
''')
G('multi_start', 'lang', '''
s : a
s : b
s : s2 X
a : A
b : B
s2 : A B
''')
G('follow_prop', 'lang', '''
s : t L
s : K t M
t : u
u : v
v : w
w : X
w : X w
''')
G('nullable_mid', 'lang', '''
s : A n B
s : A n C
n : m m2
m :
m : M
m2 :
m2 : N
''')
G('nullable_tail', 'lang', '''
s : t
t : A p q
p :
p : P
q :
q : Q t
''')
G('la_via_nullable', 'lang', '''
s : x n1 n2 T
s : U x V
x : X
n1 :
n1 : N1
n2 :
n2 : N2
''')
G('start_explicit', 'lang', '''
%start top
inner : A
inner : inner B
top : inner C
top : D
''')
G('start_last', 'lang', '''
%start top
a : A
b : a B
top : b C
''')
G('deep_lookback', 'lang', '''
s : A x P
s : B x Q
s : C y P
x : x1
x1 : x2
x2 : Z
y : Z W
''')
G('long_rhs', 'lang', '''
%types A=1 B=2 C=3 D=4 E=5 F=6 G=7 H=8
s : A B C D E F G H
s : A B C D H
''')
G('noextra', 'lang api', '''
%noextra
%types A=1
s : A s2
s2 : B
s2 : A B {try}
''')
G('noerror', 'lang api err0', '''
%noerror
%noextra
%types A=1
s : A s2
s2 : B
s2 : A B s2
''')
G('noblocks', 'lang err0 deflt', '''
%nosyntax
%nofail
%types A=1
s : A s2
s2 : B
s2 : A B s2
''')
G('noblocks_noerror', 'lang err0 deflt', '''
%nosyntax
%nofail
%noerror
%types A=1
s : A s2
s2 : B
s2 : A B s2
''')
G('nofail', 'lang err0 deflt', '''
%nofail
%types A=1
s : A s2
s2 : B
s2 : A B s2
''')
G('nosyntax', 'lang err0 deflt', '''
%nosyntax
%types A=1
s : list End
list :
list : list A B
''')

# ---------------------------------------------------------------- precedence
G('prec_lrn', 'prec', '''
%nonassoc Lt Gt
%left Plus
%left Star
%right Pow
%right Not
%types Num=1
s : e
e : e Lt e
e : e Gt e
e : e Plus e
e : e Star e
e : e Pow e
e : Not e
e : Num
e : LP e RP
''')
G('prec_uminus', 'prec', '''
%left Plus Minus
%left Star
%right Um
%types Num=1
s : e
e : e Plus e
e : e Minus e
e : e Star e
e : Minus e [Um]
e : Num
''')
G('prec_uminus_low', 'prec', '''
%left Low
%left Plus Minus
%left Star
s : e
e : e Plus e
e : e Minus e
e : e Star e
e : Minus e [Low]
e : Num
''')
G('prec_override_none', 'prec', '''
%left Plus
%left Star
s : e
e : e Plus e [Star]
e : e Star e [Plus]
e : Num
''')
G('prec_ternary', 'prec', '''
%right Q Colon
%left Or
%left And
s : e
e : e Q e Colon e
e : e Or e
e : e And e
e : Id
''')
G('prec_nonassoc_same', 'prec', '''
%nonassoc Eq Ne
%nonassoc Lt
s : e
e : e Eq e
e : e Ne e
e : e Lt e
e : Id
''')
G('prec_right_only', 'prec', '''
%right Arrow
s : t
t : t Arrow t
t : Id
t : LP t RP
''')
G('prec_compound', 'prec class', '''
%left Plus Minus
%left Star Slash
%types Num=1
s : e
e : e Plus|Minus e
e : e Star|Slash e
e : Num
''')
G('prec_compound_mixed', 'prec class', '''
%left Plus
%left Star
s : e
e : e Plus|Star e
e : Num
''')
G('prec_class', 'prec class', '''
%left Plus Minus
%right Star Slash
%class KAdd Plus Minus
%class KMul Star Slash
s : e
e : e KAdd e
e : e KMul e
e : Num
''')
G('prec_rr', 'prec', '''
%left Lo
%left Hi
s : a X
s : b Y
s : a Z
s : b Z
a : T [Lo]
b : T [Hi]
''')
G('prec_rr2', 'prec', '''
%left Lo
%left Hi
s : a X
s : b Y
s : a Z
s : b Z
a : T [Hi]
b : T [Lo]
''')
G('prec_first_terminal', 'prec', '''
%left A
%left B
%left C
s : e
e : A e B e
e : e C e
e : A e
e : X
''')
G('prec_noconflict', 'prec', '''
%nonassoc A B
%left C
s : A A B l
l :
l : l C C
l : l A B
''')
G('prec_skip_unprec', 'prec', '''
%left Plus
%left Tail
s : e
e : LP e RP Plus e
e : e Tail e
e : Id
''')
G('prec_many', 'prec', '''
%right Assign
%right Q Colon
%left Or
%left And
%nonassoc EqEq Ne
%nonassoc Lt Gt
%left Plus Minus
%left Star Slash Mod
%right Not Um
%left Dot
%types Num=1 Id=2
s : e
e : Id Assign e
e : e Q e Colon e
e : e Or e
e : e And e
e : e EqEq e
e : e Ne e
e : e Lt e
e : e Gt e
e : e Plus e
e : e Minus e
e : e Star e
e : e Slash e
e : e Mod e
e : Not e
e : Minus e [Um]
e : e Dot Id
e : Num
e : Id
e : LP e RP
''')

# ---------------------------------------------------------------- fallback
G('fb_basic', 'fallback', '''
%fallback Id If Then Else
%types Id=1 If=1 Then=1 Else=1
prog : stmts
stmts :
stmts : stmts stmt Semi
stmt : If Id Then Id
stmt : Id Eq Id
''')
G('fb_chain', 'fallback', '''
%fallback B A
%fallback C B
%fallback D C
%types A=1 B=1 C=1 D=1
s : l
l :
l : l x
x : P D
x : Q C
x : R B
x : S A
x : U A D
x : V B D C
''')
G('fb_chain_mid_err', 'fallback', '''
%fallback B A
%fallback C B
s : P a Z
s : P b W
s : P C V
a : A
b : B
''')
G('fb_reduce', 'fallback', '''
%fallback Id Kw
%types Id=1 Kw=1
s : l
l : l it
l : it
it : n o
n : Id
o :
o : Kw Id
''')
G('fb_ops', 'fallback', '''
%fallback Mul Plus
s : e
e : t
e : e Plus t
t : f
t : t Mul f
f : Id
f : LP e RP
''')
G('fb_ops_chain', 'fallback', '''
%fallback Mul Mid
%fallback Mid Plus
s : e
e : t
e : e Plus t
t : Id
t : t Mul Id
''')
G('fb_ops_chain3', 'fallback', '''
%fallback Pow M1
%fallback M1 Mul
%fallback Mul M2
%fallback M2 Plus
s : e
e : t
e : e Plus t
t : f
t : t Mul f
f : a
f : a Pow f
a : Id
a : LP e RP
''')
G('fb_ops_chain_err', 'fallback errsym', '''
%errtype 8
%fallback Mul Mid
%fallback Mid Plus
s : l
l :
l : l e Semi
l : l error Semi
e : t
e : e Plus t
t : Id
t : t Mul Id
''')
G('fb_negofs', 'fallback', '''
%fallback Id Kw
s : Kw B C D
s : B p
p : C D E F G H I J Id
p : D C
p : Id
''')
G('fb_negofs2', 'fallback wildcard', '''
%fallback Id Kw
%fallback Kw Kx
%wildcard W
s : Kx B C D
s : B p
s : Kw Kx W E
p : C D E F G H I J Id
p : D C
p : Id
p : F G W
''')
G('fb_typeless', 'fallback', '''
%fallback Any A B
%types A=1 B=2
s : l
l :
l : l Any
l : l LP A B RP
''')
G('fb_typeless_opt', 'fallback optional', '''
%fallback Id One
%types One=1
s : Id? Two
s : Three One
''')
G('fb_default_red', 'fallback', '''
%fallback Id Kw
s : A x Id
s : B x Kw
s : B y Id Z
x : X
y : X
''')
G('fb_two', 'fallback', '''
%fallback Id K1 K2
%fallback Num N1
s : l
l :
l : l Id Num
l : l K1 N1 K2
''')
G('fb_nonassoc', 'fallback prec', '''
%nonassoc Eq
%fallback Eq EqAlt
s : e
e : e Eq e
e : Id
''')
G('fb_wild', 'fallback wildcard', '''
%fallback Id Kw Kw2
%wildcard Any
s : l
l :
l : l x Semi
x : Id Id
x : Kw Any
x : Any
x : Id Any
x : Num Any Id
''')
G('fb_err', 'fallback errsym', '''
%fallback Id Kw
%types Id=1 Kw=1
s : l
l :
l : l st Semi
st : Id Eq Id
st : Kw Id
st : error
''')

# ---------------------------------------------------------------- wildcard
G('wc_basic', 'wildcard', '''
%wildcard Any
prog : items
items :
items : items item
item : LP any RP
item : Num
any :
any : any Any
''')
G('wc_typed', 'wildcard', '''
%wildcard Any
%types Num=1 Str=2
s : l
l :
l : l At Any
l : l Num
l : l At Num Bang
l : l Str Any Any
''')
G('wc_reduce', 'wildcard', '''
%wildcard WC
s : a X
s : a Y
s : b WC
a : T
b : T
''')
G('wc_reduce2', 'wildcard', '''
%wildcard WC
s : P a X
s : P a Y
s : P a Z
s : P b WC
s : P c WC
a : T
b : T
c : U
''')
G('wc_end', 'wildcard', '''
%wildcard WC
s : A WC
s : A
''')
G('wc_follow', 'wildcard', '''
%wildcard WC
s : l Semi
l :
l : l x
x : A
x : A WC
''')
G('wc_unused', 'wildcard', '''
%wildcard WC
s : A B
s : C
''')
G('wc_compound', 'wildcard class', '''
%wildcard WC
%types A=1
s : P A|B Q
s : R WC S
''')
G('wc_tail', 'wildcard', '''
%wildcard WC
s : l
l : A
l : l WC
''')
G('wc_err', 'wildcard errsym', '''
%wildcard WC
%types A=1
s : l
l :
l : l A WC Semi
l : l error Semi
''')

# ---------------------------------------------------------------- compounds and classes
G('cls_compound', 'class', '''
%types A=1 B=1 C=1 D=2
s : l
l :
l : l A|B X
l : l C|D! Y
l : l P A|B|C Z
''')
G('cls_class', 'class', '''
%class KNum Int Flt Hex
%class KWord Id Kw
%types Int=1 Flt=1 Hex=1
s : l
l :
l : l KNum KWord
l : l Eq KNum
l : l KWord Colon
''')
G('cls_shared', 'class', '''
%class KAb A B
s : KAb C
s : KAb D E
s : X KAb KAb Y
''')
G('cls_same_twice', 'class', '''
s : A|B C
s : A|B D E
s : X A|B A|B Y
''')
G('cls_single', 'class', '''
%class KOne A
%types A=1
s : KOne B
s : C KOne
''')
G('cls_mixed', 'class', '''
%types A=1 B=2
s : A|B C
s : D A B
''')
G('cls_in_ctx', 'class', '''
%class KOp Plus Minus Star
%types Num=1
s : Num r
r :
r : KOp Num r
''')
G('cls_overlap_ctx', 'class', '''
%class KAb A B
%class KBc B C
s : P KAb X
s : Q KBc X
s : R A KAb KBc C
''')
G('cls_opt', 'class optional', '''
%class KSgn Plus Minus
%types Num=1 Plus=2 Minus=2
s : l
l : n
l : l Comma n
n : KSgn? Num
''')
G('cls_fallback', 'class fallback', '''
%class KWord Id Kw
%fallback Id Kw2
%types Id=1 Kw=1 Kw2=1
s : l
l :
l : l KWord Semi
l : l Kw2 Bang
''')
G('cls_nested', 'class', '''
%class KAb A B
%class KAbc KAb C
%types A=1 B=1 C=1
s : KAbc D
s : E KAb
''')
G('cls_nested_compound', 'class', '''
%class KAb A B
s : KAb|C D
s : E KAb
''')
G('cls_dup_member', 'class', '''
s : A|B|A C
s : D
''')
G('cls_la', 'class', '''
s : x A|B
s : y C|D
s : z E
x : T
y : T
z : T
''')
G('cls_first', 'class', '''
%class KAb A B
s : l End
l :
l : l o KAb
o :
o : Opt
''')

G('shared_alias', 'value', '''
%shared
%types Num=1 e=2 s=2
s : e
e : Num Minus Num!
e : Num! Plus Num
e : LP e RP
e : e! Comma e2 Bang
e2 : Num
e2 : LB e2 RB
e2 : e2 At Num!
e2 : e2! Hash Hash2 Num
''')
G('shared_types', 'value', '''
%shared
%types Num=1 Str=1 e=1 f=1 g=1 s=1
s : l
l :
l : l e {try}
l : l! B f {try}
e : Num
e : LP Str RP
f : Num! Str
f : Num C Str!
g : Num
f : D g
f : g! E g
''')
G('shared_unit', 'value', '''
%shared
%types s=- a=- b=- Num=1 Str=2
s : a b
a :
a : a Num
a : a Str
b : A
b : B Num
b : C! B Str
''')
# ---------------------------------------------------------------- optional, defaults
G('opt_typed', 'optional', '''
%types Num=1 Semi=2
s : l
l :
l : l Num? Comma x?
x : Id Semi?
''')
G('opt_untyped', 'optional', '''
s : A? B? C? End
''')
G('opt_nt', 'optional', '''
%types x=3 Id=1
s : Let x? In x?
x : Id
x : LP x RP
''')
G('opt_shared', 'optional', '''
%types Num=1
s : Num? A Num? B Num?
s : C Num?
''')
G('opt_noalias', 'optional', '''
%types Num=1
s : Num?! A
s : B Num?
''')
G('opt_compound', 'optional compound', '''
%types A=1 B=1 Num=2
s : l
l :
l : l A|B? Num
l : l Colon B|A? C|D? Semi
''')
G('opt_class', 'optional compound', '''
%class K A B
%types A=1 B=1
s : K? C K?
s : D A|B? D
''')
G('opt_fallback', 'optional fallback', '''
%fallback F A
%types A=1
s : l
l :
l : l F? C
l : l A D? E
''')
G('opt_wild', 'optional wildcard', '''
%wildcard W
s : l
l :
l : l A W? B
''')
G('dfl_class', 'default compound', '''
%class K A B
%types A=1 B=1 e=1 f=1 s=1
s : e {none}
e : K {none}
e : f Plus {none}
f : LP A|B RP {none}
''')
G('start_unit_class', 'default compound', '''
%types s=- a=- Num=1
s : a B
a : K! {none}
a : a Num Num {none}
%class K A Num
''')
G('first_chain', 'lang', '''
s : p z X
s : q Y
s : q Y2
s : q Y3
s : q Y4
p : P
q : P
z : n
n : m
m : k
m :
k : j
j : K
''')
G('first_chain2', 'lang', '''
s : p z X
s : q Y
s : q X2
s : q X3
p : P
q : P
z : n n2
n2 : z2
z2 : m
n : m2
m2 :
m2 : k
m : U
m :
k : k k2 V
k : j
k2 :
k2 : j
j : K
''')
G('opt_default', 'optional', '''
%default 7
%types Num=1
s : Num? A B?
''')
G('dfl_rules', 'default', '''
%types Num=1 e=1 f=1 g=1 s=1
s : e {none}
e : f {none}
e : e Plus f
f : Num {none}
f : LP e RP {none}
g : Num Bang
f : At g {none}
''')
G('dfl_unit', 'default', '''
%types s=- a=- b=- c=- Num=1 Str=2
s : a {none}
a : b Num {none}
a : a b Semi {none}
b : Str Num Str {none}
b : c Bang {none}
c : {none}
''')
G('dfl_default_type', 'default', '''
%default 5
%types Num=5 Str=6 x=6
s : a {none}
a : Num {none}
a : LP RP
a : a Plus
x : Str {none}
a : At x
''')
G('dfl_mixed', 'default', '''
%types Num=1 e=1 u=-
s : u e
u : A {none}
u : B u {none}
e : u Num {none}
e : C e D {none}
''')
G('xtok', 'xtoken', '''
%xtoken 9
%types Num=1 Str=2 Op=-
s : l
l :
l : l Num Op
l : l Str? Semi
l : l LP Num|Num2 RP
%types Num2=1
''')
G('xtok_plain', 'xtoken', '''
%xtoken 9
s : l
l :
l : l A B! {try}
l : l C
''')
G('xtok_err', 'xtoken errsym', '''
%xtoken 9
%types Num=1
s : l
l :
l : l Num Semi
l : l error Semi
''')
G('xtok_fb', 'xtoken fallback', '''
%xtoken 9
%fallback Id Kw
%types Id=1 Kw=1
s : l
l :
l : l Id Semi
l : l Kw Id Bang
''')
G('xtok_default', 'xtoken default', '''
%xtoken 9
%types e=9 s=9
s : e {none}
e : A {none}
e : A B
''')

# ---------------------------------------------------------------- error recovery
G('err_stmt', 'errsym', '''
%types Num=1
prog : stmts
stmts :
stmts : stmts stmt
stmt : expr Semi
stmt : error Semi
expr : expr Plus Num
expr : Num
''')
G('err_typed', 'errsym', '''
%errtype 8
%types Num=1
prog : stmts
stmts :
stmts : stmts stmt
stmt : expr Semi
stmt : error Semi
expr : expr Plus Num
expr : LP expr RP
expr : LP error RP
expr : Num
''')
G('err_nested', 'errsym', '''
%errtype 8
%types Id=1
prog : blk
blk : LC items RC
blk : LC error RC
items :
items : items item
item : Id Semi
item : error Semi
item : blk
''')
G('err_top', 'errsym', '''
s : A B C
s : error
''')
G('err_top2', 'errsym', '''
%errtype 8
%types A=1 B=2
s : l
l : A B
l : error! C
l : l D A
''')
G('err_none', 'errsym', '''
%types A=1 B=2
s : A x E
x : B C
x : B error D
''')
G('err_mid', 'errsym', '''
%errtype 8
%types A=1
s : l
l : x
l : l Comma x
x : A
x : A error
x : LP l RP
''')
G('err_try', 'errsym', '''
%errtype 8
%types A=1
s : l
l :
l : l A Semi {try}
l : l error Semi {try}
''')
G('err_reduce_first', 'errsym', '''
%types Num=1
s : l
l :
l : l st
st : a b Semi
st : error Semi
a : Num
b : Num
b : b Star Num
''')
G('err_nosyntax', 'errsym deflt', '''
%nosyntax
s : l
l :
l : l A Semi
l : l error Semi
''')
G('err_nofail', 'errsym deflt', '''
%nofail
%errtype 8
s : A x E
x : B C
x : B error D
''')
G('err_prec', 'errsym prec', '''
%left Plus
%left Star
%types Num=1
s : l
l :
l : l e Semi
l : l error Semi
e : e Plus e
e : e Star e
e : Num
e : LP error RP
''')
G('err_double', 'errsym', '''
%errtype 8
s : l
l :
l : l A error B error C
l : l D
''')

# ---------------------------------------------------------------- syntax errors without error symbol
G('se_list', 'err0', '''
%types A=1 B=2
s : l
l :
l : l A B
l : l C
''')
G('se_deep', 'err0', '''
%types Num=1
s : e
e : e Plus t
e : t
t : t Star f
t : f
f : Num
f : LP e RP
''')
G('se_default_chain', 'err0', '''
s : a End
a : b
b : c
c : D
a : b X
''')
G('se_nonassoc', 'err0 prec', '''
%nonassoc Eq
%types Num=1
s : e
e : e Eq e
e : Num
e : LP e RP
''')
G('se_try', 'err0', '''
%types A=1 B=2
s : l {try}
l : {try}
l : l A B {try}
l : l C A! {try}
''')

# ---------------------------------------------------------------- stack limits
for n in (1, 2, 3, 4, 5):
    G('lim%d_left' % n, 'limit', '''
%%stack %d - exact
%%types A=1
s : l
l :
l : l A
''' % n)
    G('lim%d_right' % n, 'limit', '''
%%stack %d - exact
%%types A=1 B=2
s : l
l : A l
l : B
''' % n)
    G('lim%d_paren' % n, 'limit', '''
%%stack %d - exact
%%types N=1
s : e
e : LP e RP
e : N
e : n0 e2
n0 :
e2 : Q
''' % n)
    G('lim%d_err' % n, 'limit errsym', '''
%%stack %d - exact
%%errtype 8
%%types A=1
s : l
l : st
l : l st
st : A B Semi
st : error Semi
''' % n)
G('lim3_silent', 'limit default', '''
%stack 3 - exact
%types A=1 l=1 s=1
s : l {none}
l : A {none}
l : LP l RP {none}
l : Z e l Y {none}
%types e=-
e : {none}
''')
G('lim3_xtok', 'limit xtoken', '''
%stack 3 - exact
%xtoken 9
%types A=1
s : l
l : A l
l : B
''')
G('lim_default', 'limit', '''
%nostack exact
%types A=1
s : l
l : A l
l : B
''')
G('lim_unlimited', 'limit', '''
%stack 0
%types A=1
s : l
l : A l
l : B
l :
''')
G('lim_nooverflow', 'limit deflt', '''
%nooverflow
%stack 3 - exact
%types A=1
s : l
l : A l
l : B
''')
G('lim_nooverflow_noerror', 'limit deflt', '''
%nooverflow
%noerror
%stack 3 - exact
%types A=1
s : l
l : A l
l : B
''')
G('lim_abs', 'limit', '''
%stack 50
%left Plus
%types Num=1
s : e
e : e Plus e {try}
e : Num
e : LP e RP
''')
G('lim_custom', 'limit cstack', '''
%stack 4 WStack exact
%types A=1
s : l
l : A l
l : B
''')
G('cst_calc', 'cstack', '''
%stack 0 WStack
%left Plus
%types Num=1
s : e
e : e Plus e {try}
e : Num
e : LP e RP
''')
G('cst_err', 'cstack errsym', '''
%stack 0 WStack
%errtype 8
%types Num=1
prog : stmts
stmts :
stmts : stmts stmt
stmt : expr Semi
stmt : error Semi
expr : expr Plus Num
expr : LP expr RP
expr : LP error RP
expr : Num
''')
G('cst_lim', 'cstack limit', '''
%stack 20 WStack
%types Num=1
s : l
l : LP l RP
l : Num? x
x :
x : X
''')


# ---------------------------------------------------------------- ambiguous grammars: must be rejected
G('cls_first_two_red', 'class', '''
s : m v
s : o W|X|Y|Z
m :
o :
v : A|B End
v : A|C Stop
''')
G('cls_first_three', 'class', '''
%class Kab A B
%class Kbc B C
s : m v
s : o w
m :
o :
v : Kab End
v : Kbc Stop
v : A|C|D n
n : E
n :
w : F w2
w : G|H|I|F2
w : F|J P w2
w2 : Kab
w2 :
''')
G('cls_follow_shared', 'class', '''
%class Kk A B
s : l A
l : l Kk
l :
''')
CONFLICT = []


def CF(name, text):
    g = Gram('cf_' + name, text)
    g.tags = {'conflict'}
    CONFLICT.append(g)


CF('expr', """
%types Num=1
s : e
e : e Plus e
e : Num
""")
CF('dangling', """
s : st
st : If st
st : If st Else st
st : X
""")
CF('rr', """
s : x Z
s : y Z
x : A
y : A
s : x W
s : y V
""")
CF('rr_prec_equal', """
%left A
s : x
s : y
x : A
y : A
s : x W
s : y V
""")
CF('rr_prec_equal_right', """
%right A
s : x
s : y
x : A
y : A
s : x W
s : y V
""")
CF('prec_partial', """
%left Plus
s : e
e : e Plus e
e : e Star e
e : Num
""")
CF('prec_rule_only', """
%left Neg
s : e
e : e Plus e [Neg]
e : Num
""")
CF('nonassoc_third', """
%nonassoc Op
s : e
e : e Op e
e : Op e
e : e Op e Op2 e
e : e Op2 e
e : Num
""")
CF('lr1_not_lalr', """
s : A a D
s : B b D
s : A b C
s : B a C
a : E
b : E
""")
CF('class_overlap', """
%class Kk A B
s : x Kk
s : y A
x : N
y : N
""")
CF('opt_twice', """
s : A? A? B
""")
CF('opt_nullable', """
s : x? B
x :
x : A
""")
CF('empty_list', """
s : l l
l :
l : l A
""")
CF('wild_shift', """
%wildcard W
s : x W
s : y W
x : A
y : A
""")
