----------------------------- MODULE DschSchema -----------------------------
(***************************************************************************)
(* Schema nodes of dsch, their canonical JSON text, and the constraints    *)
(* they put on single values.                                              *)
(*                                                                         *)
(* A schema is a record with field t (the node type) and, depending on it: *)
(*   Array       d dn u nd mxs mns mxv mnv dep                             *)
(*   Scalar      d dn u mxv mnv                                            *)
(*   Bytes,String mn mx          List   sub mn mx                          *)
(*   Date,DateTime,Time soc      Compilation  f opt        Bool  (nothing) *)
(* Optional parameters are sequences of length 0 (None) or 1.              *)
(*   d    JSON text of the dtype, dn the name of the dtype it denotes      *)
(*   u    JSON text of the unit                                            *)
(*   mxs, mns  shapes, -1 standing for None                                *)
(*   mxv, mnv  [r |-> rank of the number, j |-> its JSON text]             *)
(*   dep  sequence of [n |-> name, q |-> its JSON text], "" for None       *)
(*   f    the fields in the order of their names, [n, q, s]                *)
(*   opt  the optional fields, [n, q]                                      *)
(* Numbers are represented by their rank in the ordered set of all numbers *)
(* that occur in a batch (TLC has no reals and only 32-bit integers), NaN  *)
(* by -1.                                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

Opt(q) == IF q = <<>> THEN "null" ELSE ToString(q[1])

RECURSIVE JoinR(_, _, _)
JoinR(q, i, sep) == IF i > Len(q) THEN ""
                    ELSE IF i = 1 THEN q[1] \o JoinR(q, 2, sep)
                    ELSE sep \o q[i] \o JoinR(q, i + 1, sep)
Join(q, sep) == JoinR(q, 1, sep)

Seq2Set(q) == {q[i] : i \in 1..Len(q)}

IsLeaf(s) == s.t \notin {"Compilation", "List"}

EffNdim(s) == IF s.mxs # <<>> /\ Len(s.mxs[1]) > 0 THEN Len(s.mxs[1])
              ELSE IF s.mns # <<>> /\ Len(s.mns[1]) > 0 THEN Len(s.mns[1])
              ELSE s.nd

(* The constructor rejects contradictory array configurations. *)
CtorOK(s) ==
  \/ s.t # "Array"
  \/ /\ (s.mxs # <<>> /\ s.mns # <<>> /\ Len(s.mxs[1]) > 0 /\ Len(s.mns[1]) > 0)
           => Len(s.mxs[1]) = Len(s.mns[1])
     /\ (s.dep # <<>> /\ Len(s.dep[1]) > 0) => Len(s.dep[1]) = EffNdim(s)

----------------------------------------------------------------------------
(* Canonical JSON text: keys sorted, Python's default separators.          *)
Dim(n) == IF n = -1 THEN "null" ELSE ToString(n)
ShapeText(q) == IF q = <<>> THEN "null"
                ELSE "[" \o Join([i \in 1..Len(q[1]) |-> Dim(q[1][i])], ", ") \o "]"
NumText(q) == IF q = <<>> THEN "null" ELSE q[1].j
NamesText(q) == "[" \o Join([i \in 1..Len(q) |-> q[i].q], ", ") \o "]"
DepText(q) == IF q = <<>> THEN "null" ELSE NamesText(q[1])
BoolText(b) == IF b THEN "true" ELSE "false"

RECURSIVE Text(_)
Text(s) ==
  LET cfg ==
    CASE s.t = "Array" ->
           "\"depends_on\": " \o DepText(s.dep) \o ", \"dtype\": " \o s.d
           \o ", \"max_shape\": " \o ShapeText(s.mxs)
           \o ", \"max_value\": " \o NumText(s.mxv)
           \o ", \"min_shape\": " \o ShapeText(s.mns)
           \o ", \"min_value\": " \o NumText(s.mnv)
           \o ", \"ndim\": " \o ToString(EffNdim(s)) \o ", \"unit\": " \o s.u
      [] s.t = "Scalar" ->
           "\"dtype\": " \o s.d \o ", \"max_value\": " \o NumText(s.mxv)
           \o ", \"min_value\": " \o NumText(s.mnv) \o ", \"unit\": " \o s.u
      [] s.t \in {"Bytes", "String"} ->
           "\"max_length\": " \o Opt(s.mx) \o ", \"min_length\": " \o Opt(s.mn)
      [] s.t \in {"Date", "DateTime", "Time"} ->
           "\"set_on_create\": " \o BoolText(s.soc)
      [] s.t = "Bool" -> ""
      [] s.t = "List" ->
           "\"max_length\": " \o Opt(s.mx) \o ", \"min_length\": " \o Opt(s.mn)
           \o ", \"subnode\": " \o Text(s.sub)
      [] s.t = "Compilation" ->
           "\"optionals\": " \o NamesText(s.opt) \o ", \"subnodes\": {"
           \o Join([i \in 1..Len(s.f) |-> s.f[i].q \o ": " \o Text(s.f[i].s)], ", ")
           \o "}"
  IN "{\"config\": {" \o cfg \o "}, \"node_type\": \"" \o s.t \o "\"}"

SameSchema(s1, s2) == Text(s1) = Text(s2)

(* The schema with numbers in a uniform notation: 1 and 1.0 differ in the  *)
(* text, but whether they make schemas unequal is left open.               *)
RECURSIVE Uniform(_)
Uniform(s) ==
  LET u(q) == IF q = <<>> THEN q ELSE <<[q[1] EXCEPT !.j = ToString(q[1].r)]>>
  IN CASE s.t = "Compilation" ->
            [s EXCEPT !.f = [i \in 1..Len(s.f) |-> [s.f[i] EXCEPT !.s = Uniform(@)]]]
       [] s.t = "List" -> [s EXCEPT !.sub = Uniform(@)]
       [] s.t \in {"Array", "Scalar"} -> [s EXCEPT !.mxv = u(@), !.mnv = u(@)]
       [] OTHER -> s
Unclear(s1, s2) == ~SameSchema(s1, s2) /\ SameSchema(Uniform(s1), Uniform(s2))

----------------------------------------------------------------------------
(* Values.  A value is a record with field t:                              *)
(*   str, bytes   c: character codes       bool  c: <<0>> or <<1>>         *)
(*   date, datetime, time   c: the components as integers                  *)
(*   num   d: dtype name, c: <<rank>> (two ranks for complex numbers)      *)
(*   arr   d: dtype name, s: shape, c: elements in row-major order         *)
(*   py, other  anything else (never accepted by a node)                   *)
(***************************************************************************)
RightType(s, v) ==
  CASE s.t = "Array"    -> v.t = "arr"
    [] s.t = "Bool"     -> v.t = "bool"
    [] s.t = "Bytes"    -> v.t = "bytes"
    [] s.t = "Date"     -> v.t \in {"date", "now"}      \* now: see DschTree
    [] s.t = "DateTime" -> v.t \in {"datetime", "now"}
    [] s.t = "Time"     -> v.t \in {"time", "now"}
    [] s.t = "String"   -> v.t = "str"
    [] s.t = "Scalar"   -> v.t \in {"num", "py"} /\ (IF "x" \in DOMAIN v THEN v.x
                                       ELSE v.t = "num" /\ v.d = s.dn)

InRange(s, c) ==
  \A i \in 1..Len(c) : c[i] # -1 =>
     /\ s.mxv # <<>> => c[i] <= s.mxv[1].r
     /\ s.mnv # <<>> => c[i] >= s.mnv[1].r
InLength(s, n) == /\ s.mx # <<>> => n <= s.mx[1]
                  /\ s.mn # <<>> => n >= s.mn[1]
Min2(a, b) == IF a < b THEN a ELSE b
InShape(s, sh) ==
  /\ s.mxs # <<>> => \A i \in 1..Min2(Len(s.mxs[1]), Len(sh)) :
                        s.mxs[1][i] # -1 => sh[i] <= s.mxs[1][i]
  /\ s.mns # <<>> => \A i \in 1..Min2(Len(s.mns[1]), Len(sh)) :
                        s.mns[1][i] # -1 => sh[i] >= s.mns[1][i]

RECURSIVE Prod(_)
Prod(q) == IF q = <<>> THEN 1 ELSE Head(q) * Prod(Tail(q))

(* Verdict on a single value, without the independent variables of arrays. *)
ValidValue(s, v) ==
  CASE s.t = "Array" ->
         v.t = "arr" /\ v.d = s.dn /\ Len(v.s) = EffNdim(s)
         /\ InShape(s, v.s) /\ InRange(s, v.c)
    [] s.t = "Scalar" -> v.t = "num" /\ v.d = s.dn /\ InRange(s, v.c)
    [] s.t \in {"Bytes", "String"} -> RightType(s, v) /\ InLength(s, Len(v.c))
    [] s.t = "Date" -> v.t \in {"date", "datetime", "now"}
    [] OTHER -> RightType(s, v)

(* What a validation error tells: x is the constraint it names, y what was  *)
(* found instead (fields: t kind, w text, d dtype, k kind of type, i        *)
(* integer, r ranks, c sizes).  Explains: this value violates this          *)
(* constraint.                                                              *)
DocType(s) ==
  CASE s.t = "Array" -> "numpy.ndarray" [] s.t = "Scalar" -> "numpy.number" [] s.t = "Bytes" -> "bytes"
    [] s.t = "Bool" -> "bool" [] s.t = "Date" -> "datetime.date" [] s.t = "DateTime" -> "datetime.datetime"
    [] s.t = "Time" -> "datetime.time" [] s.t = "String" -> "str"
BaseType(s, v) ==
  CASE s.t = "Array" -> v.t = "arr" [] s.t = "Scalar" -> v.t = "num"
    [] s.t = "Date" -> v.t \in {"date", "datetime", "now"} [] OTHER -> RightType(s, v)
IsInt(x, n) == x.t = "num" /\ x.i = <<n>>
IsRanks(x, t, q) == x.t = t /\ x.r = q
IsSizes(x, q) == x.t = "tuple" /\ x.c = q
Above(q, m) == SelectSeq(q, LAMBDA c : c # -1 /\ c > m)
Below(q, m) == SelectSeq(q, LAMBDA c : c # -1 /\ c < m)
LengthExplains(s, n, x, y) ==
  /\ IsInt(y, n)
  /\ \/ s.mx # <<>> /\ n > s.mx[1] /\ IsInt(x, s.mx[1])
     \/ s.mn # <<>> /\ n < s.mn[1] /\ IsInt(x, s.mn[1])
Explains(s, v, ind, x, y) ==
  \/ /\ ~BaseType(s, v) \/ (s.t = "Scalar" /\ v.t = "num" /\ v.d = "bool")
     /\ x.t = "str" /\ x.w = DocType(s) /\ y.t = "type" /\ y.k = v.t
  \/ /\ BaseType(s, v)
     /\ \/ s.t \in {"Bytes", "String"} /\ LengthExplains(s, Len(v.c), x, y)
        \/ s.t \in {"Array", "Scalar"} /\ v.d # s.dn /\ x.d = s.dn /\ y.d = v.d
        \/ s.t = "Scalar" /\ IsRanks(y, "num", v.c)
             /\ \/ s.mxv # <<>> /\ Above(v.c, s.mxv[1].r) # <<>> /\ IsRanks(x, "num", <<s.mxv[1].r>>)
                \/ s.mnv # <<>> /\ Below(v.c, s.mnv[1].r) # <<>> /\ IsRanks(x, "num", <<s.mnv[1].r>>)
        \/ /\ s.t = "Array"
           /\ \/ Len(v.s) # EffNdim(s) /\ IsInt(x, EffNdim(s)) /\ IsInt(y, Len(v.s))
              \/ s.mxs # <<>> /\ IsSizes(x, s.mxs[1]) /\ IsSizes(y, v.s)
                 /\ \E i \in 1..Min2(Len(v.s), Len(x.c)) : x.c[i] # -1 /\ v.s[i] > x.c[i]
              \/ s.mns # <<>> /\ IsSizes(x, s.mns[1]) /\ IsSizes(y, v.s)
                 /\ \E i \in 1..Min2(Len(v.s), Len(x.c)) : x.c[i] # -1 /\ v.s[i] < x.c[i]
              \/ s.mxv # <<>> /\ IsRanks(x, "num", <<s.mxv[1].r>>)
                 /\ y.t = "arr" /\ y.r # <<>> /\ y.r = Above(v.c, s.mxv[1].r)
              \/ s.mnv # <<>> /\ IsRanks(x, "num", <<s.mnv[1].r>>)
                 /\ y.t = "arr" /\ y.r # <<>> /\ y.r = Below(v.c, s.mnv[1].r)
              \/ \E i \in 1..Min2(Len(v.s), Len(ind)) :
                   ind[i] # <<>> /\ Prod(ind[i][1].s) # v.s[i]
                   /\ IsInt(x, Prod(ind[i][1].s)) /\ IsInt(y, v.s[i])

(* ind: for each dimension the value of the independent variable, or <<>>. *)
DepFits(v, ind) ==
  \A i \in 1..Min2(Len(v.s), Len(ind)) :
     ind[i] # <<>> => Prod(ind[i][1].s) = v.s[i]
DepUsable(ind) ==
  \A i \in 1..Len(ind) : ind[i] # <<>> => (ind[i][1].t = "arr" /\ Len(ind[i][1].s) <= 1)
=============================================================================
