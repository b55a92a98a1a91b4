------------------------------- MODULE Terms -------------------------------
(* Symbolic real-valued expressions.  TLC has no reals, so wherever a        *)
(* property fixes a real number the specification states it as an expression *)
(* tree over named quantities of the state; the trees are handed (as JSON)   *)
(* to a generic evaluator, which knows nothing about pyBBN.                  *)
EXTENDS Integers, Sequences

Num(i)      == <<"q", i, 1>>
Rat(n, d)   == <<"q", n, d>>
Dec(s)      == <<"dec", s>>            \* decimal literal, e.g. Dec("1.2209e22")
Var(name)   == <<"v", name>>
Pi          == <<"pi">>
Add(a, b)   == <<"+", a, b>>
Sub(a, b)   == <<"-", a, b>>
Mul(a, b)   == <<"*", a, b>>
Div(a, b)   == <<"/", a, b>>
Neg(a)      == <<"-", Num(0), a>>
Pow(a, b)   == <<"^", a, b>>
Sq(a)       == <<"^", a, Num(2)>>
Cube(a)     == <<"^", a, Num(3)>>
Sqrt(a)     == <<"sqrt", a>>
Exp(a)      == <<"exp", a>>
Log(a)      == <<"log", a>>
Abs(a)      == <<"abs", a>>
Sgn(a)      == <<"sign", a>>
Let(x, v, e) == <<"let", x, v, e>>   \* e with the variable x standing for v
Sin(a)      == <<"sin", a>>
Cos(a)      == <<"cos", a>>
Atan(a)     == <<"atan", a>>
Max2(a, b)  == <<"max", a, b>>
Min2(a, b)  == <<"min", a, b>>
If(c, a, b) == <<"if", c, a, b>>
Lt(a, b)    == <<"<", a, b>>
Le(a, b)    == <<"<=", a, b>>
Gt(a, b)    == <<"<", b, a>>
Ge(a, b)    == <<"<=", b, a>>
And(a, b)   == <<"and", a, b>>
Sum(s)      == <<"+">> \o s            \* n-ary
Prod(s)     == <<"*">> \o s
Integral(x, e, lo, hi) == <<"int", x, e, lo, hi>>   \* definite integral of e over the variable x
=============================================================================
