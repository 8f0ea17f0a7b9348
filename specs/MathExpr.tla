---- MODULE MathExpr ----
(***************************************************************************
 The expression nodes: which expressions may become a node, and the value of
 every accepted node under every assignment of its inputs.

 Expression trees
   [t |-> "num", n, d]            the constant n/d
   [t |-> "var", i]               the i-th declared input
   [t |-> "neg" | "pos", a]       unary minus, plus;  [t |-> "inv", n] bitwise complement of the integer n
   [t |-> "bin", op, l, r]        op in + - * / // % **
   [t |-> "call", f, args]        an exactly computable function
   [t |-> "id", k]                the k-th closed term of the table of identities (transcendental functions)
   [t |-> "comp", k, a]           the k-th composition of the table, applied to a
   [t |-> "bad", kind, a]         a construct that is not arithmetic, around a

 Values are rationals [n, d, ok, ex]: ok = FALSE when the value is undefined or
 left the modelled range, ex = FALSE when floating point cannot be expected to
 be exact (floor and % of such a value are not specified).

 State: the sequence of accepted nodes and the number of expressions tried.
 ***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS MCBad

LIM == 3000
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE GCD(_, _)
GCD(a, b) == IF b = 0 THEN a ELSE GCD(b, a % b)
Undef == [n |-> 0, d |-> 1, ok |-> FALSE, ex |-> FALSE]
IsPow2(d) == d \in {1, 2, 4, 8, 16, 32, 64, 128, 256, 512, 1024, 2048}
Q(n, d, ex) ==
  IF d = 0 THEN Undef
  ELSE LET s == IF d < 0 THEN -1 ELSE 1
           g == GCD(Abs(n), Abs(d))
           nn == (s * n) \div g
           dd == (s * d) \div g IN
       IF Abs(nn) > LIM \/ dd > LIM THEN Undef ELSE [n |-> nn, d |-> dd, ok |-> TRUE, ex |-> ex /\ IsPow2(dd)]
Floor(v) == IF v.n >= 0 THEN v.n \div v.d ELSE -((-v.n + v.d - 1) \div v.d)

(* Closed terms with a known rational value, exercising every transcendental function and constant *)
Identities == <<
  [e |-> "sin(pi / 6)", n |-> 1, d |-> 2], [e |-> "cos(pi / 3)", n |-> 1, d |-> 2], [e |-> "tan(pi / 4)", n |-> 1, d |-> 1],
  [e |-> "asin(0.5) * 6 / pi", n |-> 1, d |-> 1], [e |-> "acos(0.5) * 3 / pi", n |-> 1, d |-> 1], [e |-> "atan(1.0) * 4 / pi", n |-> 1, d |-> 1],
  [e |-> "atan2(1.0, -1.0) * 4 / pi", n |-> 3, d |-> 1], [e |-> "atan2(-1.0, 1.0) * 4 / pi", n |-> -1, d |-> 1],
  [e |-> "log(e)", n |-> 1, d |-> 1], [e |-> "log(e ** 2)", n |-> 2, d |-> 1], [e |-> "exp(1.0) / e", n |-> 1, d |-> 1],
  [e |-> "log10(1000.0)", n |-> 3, d |-> 1], [e |-> "log2(0.125)", n |-> -3, d |-> 1],
  [e |-> "sinh(log(2.0))", n |-> 3, d |-> 4], [e |-> "cosh(log(2.0))", n |-> 5, d |-> 4], [e |-> "tanh(log(2.0))", n |-> 3, d |-> 5],
  [e |-> "asinh(0.75) / log(2.0)", n |-> 1, d |-> 1], [e |-> "acosh(1.25) / log(2.0)", n |-> 1, d |-> 1],
  [e |-> "degrees(pi)", n |-> 180, d |-> 1], [e |-> "rad2deg(pi / 2)", n |-> 90, d |-> 1],
  [e |-> "radians(180.0) / pi", n |-> 1, d |-> 1], [e |-> "deg2rad(90.0) / pi", n |-> 1, d |-> 2],
  [e |-> "sqrt(2.0) ** 2", n |-> 2, d |-> 1] >>
(* f(f^-1(a)) = a on lo..hi;  val "a": the argument, "0": zero, "1": one *)
Comps == <<
  [e |-> "log(exp($))", lo |-> -4, hi |-> 4, val |-> "a"], [e |-> "exp(log($))", lo |-> 1, hi |-> 50, val |-> "a"],
  [e |-> "sin(asin($))", lo |-> -1, hi |-> 1, val |-> "a"], [e |-> "asin(sin($))", lo |-> -1, hi |-> 1, val |-> "a"],
  [e |-> "cos(acos($))", lo |-> -1, hi |-> 1, val |-> "a"], [e |-> "acos(cos($))", lo |-> 1, hi |-> 3, val |-> "a"],
  [e |-> "tan(atan($))", lo |-> -20, hi |-> 20, val |-> "a"], [e |-> "atan(tan($))", lo |-> -1, hi |-> 1, val |-> "a"],
  [e |-> "degrees(radians($))", lo |-> -400, hi |-> 400, val |-> "a"], [e |-> "deg2rad(rad2deg($))", lo |-> -400, hi |-> 400, val |-> "a"],
  [e |-> "radians($) - $ * pi / 180", lo |-> -400, hi |-> 400, val |-> "0"],
  [e |-> "asinh(sinh($))", lo |-> -4, hi |-> 4, val |-> "a"], [e |-> "acosh(cosh($))", lo |-> 1, hi |-> 4, val |-> "a"],
  [e |-> "tanh($) - sinh($) / cosh($)", lo |-> -4, hi |-> 4, val |-> "0"],
  [e |-> "log10(10.0 ** $)", lo |-> -6, hi |-> 6, val |-> "a"], [e |-> "log2(2.0 ** $)", lo |-> -8, hi |-> 8, val |-> "a"],
  [e |-> "log2($) - log($) / log(2.0)", lo |-> 1, hi |-> 100, val |-> "0"], [e |-> "atan2(sin($), cos($))", lo |-> -3, hi |-> 3, val |-> "a"],
  [e |-> "sin($) ** 2 + cos($) ** 2", lo |-> -50, hi |-> 50, val |-> "1"], [e |-> "sqrt($) ** 2", lo |-> 0, hi |-> 100, val |-> "a"] >>

Quot(a, b) == LET q == Q(a.n * b.d, a.d * b.n, TRUE) IN IF q.ok THEN Q(Floor(q), 1, TRUE) ELSE Undef
RECURSIVE PowNat(_, _)
PowNat(v, k) == IF k = 0 THEN Q(1, 1, TRUE) ELSE LET p == PowNat(v, k - 1) IN IF ~p.ok THEN Undef ELSE Q(p.n * v.n, p.d * v.d, p.ex /\ v.ex)
Power(a, b) ==
  IF b.d # 1 \/ Abs(b.n) > 4 \/ ~b.ex THEN Undef
  ELSE IF b.n >= 0 THEN PowNat(a, b.n)
  ELSE IF a.n = 0 THEN Undef
  ELSE LET p == PowNat(a, -b.n) IN IF p.ok THEN Q(p.d, p.n, p.ex) ELSE Undef
Bin(op, a, b) ==
  IF ~a.ok \/ ~b.ok THEN Undef
  ELSE LET x == a.ex /\ b.ex IN
  CASE op = "+" -> Q(a.n * b.d + b.n * a.d, a.d * b.d, x)
    [] op = "-" -> Q(a.n * b.d - b.n * a.d, a.d * b.d, x)
    [] op = "*" -> Q(a.n * b.n, a.d * b.d, x)
    [] op = "/" -> IF b.n = 0 THEN Undef ELSE Q(a.n * b.d, a.d * b.n, x)
    [] op = "//" -> IF b.n = 0 \/ ~x THEN Undef ELSE Quot(a, b)
    [] op = "%" -> IF b.n = 0 \/ ~x THEN Undef  \* a - (a // b) * b: has the sign of b
                   ELSE LET f == Quot(a, b) IN IF f.ok THEN Q(a.n * b.d - f.n * b.n * a.d, a.d * b.d, TRUE) ELSE Undef
    [] op = "**" -> Power(a, b)
Roots == {k * k : k \in 0..54}
Root(n) == CHOOSE k \in 0..54 : k * k = n
Call(f, v) ==
  CASE f \in {"abs", "fabs"} -> [v[1] EXCEPT !.n = Abs(@)]
    [] f = "floor" -> IF v[1].ex THEN Q(Floor(v[1]), 1, TRUE) ELSE Undef
    [] f = "ceil" -> IF v[1].ex THEN Q(-Floor([v[1] EXCEPT !.n = -@]), 1, TRUE) ELSE Undef
    [] f = "trunc" -> IF ~v[1].ex THEN Undef ELSE IF v[1].n >= 0 THEN Q(Floor(v[1]), 1, TRUE) ELSE Q(-Floor([v[1] EXCEPT !.n = -@]), 1, TRUE)
    [] f \in {"pow", "power"} -> Power(v[1], v[2])
    [] f = "sqrt" -> IF v[1].n \in Roots /\ v[1].d \in Roots THEN Q(Root(v[1].n), Root(v[1].d), v[1].ex) ELSE Undef
    [] OTHER -> Undef
(* An inexact value on the boundary may be outside *)
Within(v, c) == v.n >= c.lo * v.d + (IF v.ex THEN 0 ELSE 1) /\ v.n <= c.hi * v.d - (IF v.ex THEN 0 ELSE 1)

RECURSIVE Eval(_, _)
Eval(t, env) ==
  CASE t.t = "num" -> Q(t.n, t.d, TRUE)
    [] t.t = "var" -> Q(env[t.i].n, env[t.i].d, TRUE)
    [] t.t = "neg" -> LET v == Eval(t.a, env) IN [v EXCEPT !.n = -@]
    [] t.t = "pos" -> Eval(t.a, env)
    [] t.t = "inv" -> Q(-t.n - 1, 1, TRUE)
    [] t.t = "bin" -> Bin(t.op, Eval(t.l, env), Eval(t.r, env))
    [] t.t = "call" -> LET v == [k \in 1..Len(t.args) |-> Eval(t.args[k], env)] IN
                       IF \E k \in 1..Len(v) : ~v[k].ok THEN Undef ELSE Call(t.f, v)
    [] t.t = "id" -> Q(Identities[t.k].n, Identities[t.k].d, FALSE)
    [] t.t = "comp" -> LET v == Eval(t.a, env) c == Comps[t.k] IN
                       IF ~v.ok \/ ~Within(v, c) THEN Undef
                       ELSE CASE c.val = "a" -> [v EXCEPT !.ex = FALSE]
                              [] c.val = "0" -> Q(0, 1, FALSE)
                              [] c.val = "1" -> Q(1, 1, FALSE)
    [] t.t = "bad" -> Undef
RECURSIVE Valid(_)
Valid(t) ==
  CASE t.t = "bad" -> FALSE
    [] t.t \in {"neg", "pos", "comp"} -> Valid(t.a)
    [] t.t = "bin" -> Valid(t.l) /\ Valid(t.r)
    [] t.t = "call" -> \A k \in 1..Len(t.args) : Valid(t.args[k])
    [] OTHER -> TRUE

Init0 == [nodes |-> <<>>, tried |-> 0]
InitState(c) == Init0
Obs(s) == [count |-> Len(s.nodes)]
Strip(v) == [n |-> v.n, d |-> v.d, ok |-> v.ok]
Step(s, op) ==
  CASE op.k = "new" -> IF Valid(op.tree) THEN [s |-> [s EXCEPT !.nodes = Append(@, op.tree), !.tried = @ + 1], out |-> [r |-> "ok"]]
                       ELSE [s |-> [s EXCEPT !.tried = @ + 1], out |-> [r |-> "rejected"]]
    [] op.k = "eval" -> [s |-> s, out |-> [r |-> "values", vals |-> [i \in 1..Len(op.envs) |-> Strip(Eval(s.nodes[op.node], op.envs[i]))]]]
    [] op.k = "table" -> [s |-> s, out |-> [r |-> "table", ids |-> [i \in 1..Len(Identities) |-> Identities[i].e],
                                            comps |-> [i \in 1..Len(Comps) |-> Comps[i].e]]]
StateInv(s) == \A k \in 1..Len(s.nodes) : Valid(s.nodes[k])
StepInv(s, op, out, s2) ==
  /\ op.k = "eval" => s2 = s
  /\ \A k \in 1..Len(s.nodes) : s2.nodes[k] = s.nodes[k]

\* ---------------------------------------------------------------- small-scope exploration: all small trees
BinOps == {"+", "-", "*", "/", "//", "%", "**"}
V(i) == [t |-> "var", i |-> i]
N(n) == [t |-> "num", n |-> n, d |-> 1]
B(op, l, r) == [t |-> "bin", op |-> op, l |-> l, r |-> r]
U(u, a) == [t |-> u, a |-> a]
T2 == {B(o, V(1), V(2)) : o \in BinOps} \cup {B(o, V(1), N(2)) : o \in BinOps} \cup {B(o, U("neg", V(1)), N(3)) : o \in BinOps}
        \cup {U(u, V(1)) : u \in {"neg", "pos"}} \cup {U("neg", B(o, V(2), N(2))) : o \in BinOps}
T3 == T2 \cup {B(o, l, V(3)) : o \in BinOps, l \in T2} \cup {B(o, V(3), l) : o \in BinOps, l \in T2}
         \cup {B(o, l, r) : o \in BinOps, l \in {B(p, V(1), V(2)) : p \in BinOps}, r \in {B(p, V(3), N(2)) : p \in BinOps}}
         \cup {U(u, B(o, l, N(2))) : u \in {"neg", "pos"}, o \in BinOps, l \in {B(p, V(1), V(2)) : p \in BinOps}}
Bad(k) == [t |-> "bad", kind |-> k, a |-> V(1)]
TBad == UNION {{Bad(k), U("neg", Bad(k)), B("+", Bad(k), V(2)), B("*", V(2), Bad(k)), B("-", V(1), B("**", Bad(k), N(2))),
                [t |-> "call", f |-> "sqrt", args |-> <<Bad(k)>>], [t |-> "call", f |-> "pow", args |-> <<N(2), Bad(k)>>],
                [t |-> "call", f |-> "abs", args |-> <<B("/", N(1), Bad(k))>>]} : k \in MCBad}
MCConfigs == {[c |-> 0]}
Envs == <<[i \in 1..3 |-> [n |-> i + 1, d |-> 1]], <<[n |-> -3, d |-> 2], [n |-> 2, d |-> 1], [n |-> 3, d |-> 4]>>,
          <<[n |-> 5, d |-> 1], [n |-> 3, d |-> 1], [n |-> -2, d |-> 1]>>, <<[n |-> -7, d |-> 1], [n |-> 2, d |-> 1], [n |-> 2, d |-> 1]>>>>
MCOps(s) == IF s.tried = 0 THEN {[k |-> "new", tree |-> t] : t \in T3 \cup TBad}
            ELSE IF s.nodes = <<>> THEN {[k |-> "table"]}
            ELSE {[k |-> "eval", node |-> 1, envs |-> Envs], [k |-> "eval", node |-> 1, envs |-> <<Envs[2]>>]}
====
