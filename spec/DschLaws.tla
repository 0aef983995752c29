------------------------------ MODULE DschLaws ------------------------------
(***************************************************************************)
(* Laws of the operators of the specification, checked for all cases of    *)
(* small domains: one initial state per case, no transitions.  The group   *)
(* of cases is named by the environment variable LAWS.                     *)
(*   schemas  canonical texts identify schemas (C06)                       *)
(*   values   a value is invalid exactly if some constraint explains it    *)
(*            (C03, C21)                                                   *)
(*   arrays   indexing, assignment by index, resizing (C18)                *)
(*   trees    laws of data trees (C01, C04, C08, C10, C16, C17)            *)
(***************************************************************************)
EXTENDS DschTreeLaws, IOUtils

Group == IOEnv.LAWS
Deep == IOEnv.DEEP = "1"
NotStrict == FALSE

Maybe(S) == {<<>>} \cup {<<x>> : x \in S}
Rank(r) == [r |-> r, j |-> ToString(r)]
NM(n) == [n |-> n, q |-> "\"" \o n \o "\""]
NoName == [n |-> "", q |-> "null"]

----------------------------------------------------------------------------
(* Schemas *)
DT == {[d |-> "\"int32\"", dn |-> "int32"], [d |-> "\"float64\"", dn |-> "float64"]}
Units == {"\"\"", "\"V\""}
ArraysOf(dts, us, nds, mxss, mnss, mxvs, mnvs, deps) ==
  {s \in {[t |-> "Array", d |-> dt.d, dn |-> dt.dn, u |-> u, un |-> u, nd |-> nd, mxs |-> mxs, mns |-> mns, mxv |-> mxv,
           mnv |-> mnv, dep |-> dep] :
          dt \in dts, u \in us, nd \in nds, mxs \in mxss, mns \in mnss, mxv \in mxvs, mnv \in mnvs, dep \in deps} : CtorOK(s)}
Shapes12 == {<<1>>, <<-1>>, <<0, 2>>, <<-1, 1>>}
ArraySchemas == ArraysOf(DT, Units, {1, 2}, Maybe(Shapes12), Maybe({<<1>>, <<0, 2>>}), Maybe({Rank(1)}), Maybe({Rank(0)}),
                         Maybe({<<NM("a")>>, <<NoName>>, <<NM("a"), NoName>>, <<NM("b"), NM("a")>>}))
ScalarSchemas == {[t |-> "Scalar", d |-> dt.d, dn |-> dt.dn, u |-> u, un |-> u, mxv |-> mxv, mnv |-> mnv] :
                  dt \in DT, u \in Units, mxv \in Maybe({Rank(0), Rank(1)}), mnv \in Maybe({Rank(0), Rank(1)})}
TextSchemas == {[t |-> t, mn |-> mn, mx |-> mx] : t \in {"String", "Bytes"}, mn \in Maybe(0..2), mx \in Maybe(0..2)}
DateSchemas == {[t |-> t, soc |-> b] : t \in {"Date", "DateTime", "Time"}, b \in BOOLEAN}
Plain == {[t |-> "Bool"]}
Leaves == ArraySchemas \cup ScalarSchemas \cup TextSchemas \cup DateSchemas \cup Plain
Fld(n, s) == [n |-> n, q |-> "\"" \o n \o "\"", e |-> n, s |-> s]
Lists(S, ns) == {[t |-> "List", sub |-> s, mn |-> mn, mx |-> mx] : s \in S, mn \in Maybe(ns), mx \in Maybe(ns)}
Comps(S) ==
  {[t |-> "Compilation", f |-> f, opt |-> o] :
     f \in {<<>>} \cup {<<Fld(n, s)>> : n \in {"a", "b", "ab"}, s \in S}
           \cup {<<Fld("a", x), Fld("b", y)>> : x \in S, y \in S},
     o \in {<<>>, <<NM("a")>>, <<NM("b")>>, <<NM("a"), NM("b")>>, <<NM("b"), NM("a")>>}}
FewLeaves == {[t |-> "Bool"], [t |-> "Date", soc |-> TRUE], [t |-> "String", mn |-> <<>>, mx |-> <<1>>]}
Level1 == FewLeaves \cup Lists(FewLeaves, {1}) \cup Comps(FewLeaves)
SomeSchemas == Leaves \cup Lists(Leaves, {}) \cup Level1 \cup Lists(Level1, {0, 1}) \cup Comps(Level1)
AllSchemas == IF Deep THEN SomeSchemas ELSE Leaves \cup Level1 \cup Lists(Level1, {1})
                                            \cup Comps(FewLeaves \cup Lists(FewLeaves, {1}))
(* the number of dimensions follows from the shapes, if there are any *)
RECURSIVE Norm(_)
Norm(s) == CASE s.t = "Array" -> [s EXCEPT !.nd = EffNdim(s), !.dn = ""]
             [] s.t = "List" -> [s EXCEPT !.sub = Norm(@)]
             [] s.t = "Compilation" -> [s EXCEPT !.f = [i \in 1..Len(s.f) |-> [s.f[i] EXCEPT !.s = Norm(@)]]]
             [] OTHER -> s
SchemaLaws == IF Cardinality({Text(s) : s \in AllSchemas}) = Cardinality({Norm(s) : s \in AllSchemas})
                 /\ Cardinality({<<Text(s), Norm(s)>> : s \in AllSchemas}) = Cardinality({Norm(s) : s \in AllSchemas})
              THEN {} ELSE {"C06 texts identify schemas"}

----------------------------------------------------------------------------
(* Values: ranks 0..2, -1 is NaN *)
Seqs(S, n) == UNION {[1..k -> S] : k \in 0..n}
ArrVals == UNION {{[t |-> "arr", d |-> d, s |-> sh, c |-> c] : d \in {"int32", "float64"}, c \in [1..Prod(sh) -> {-1, 0, 1, 2}]} :
                  sh \in {<<0>>, <<1>>, <<2>>, <<0, 1>>, <<1, 2>>, <<2, 1>>}}
LeafVals == {[t |-> "num", d |-> d, c |-> <<r>>] : d \in {"int32", "float64", "bool"}, r \in {-1, 0, 1, 2}}
            \cup {[t |-> t, c |-> c] : t \in {"str", "bytes"}, c \in Seqs({97}, 3)}
            \cup {[t |-> "bool", c |-> <<1>>], [t |-> "date", c |-> <<2000, 1, 1>>], [t |-> "time", c |-> <<0, 0, 0, 0>>],
                  [t |-> "datetime", c |-> <<2000, 1, 1, 0, 0, 0, 0>>], [t |-> "other", c |-> <<>>]}
ValueSchemas == ArraysOf(DT, {"\"\""}, {1, 2}, Maybe(Shapes12), Maybe({<<1>>, <<0, 2>>}), Maybe({Rank(1)}), Maybe({Rank(0), Rank(1)}), {<<>>})
                \cup ScalarSchemas \cup TextSchemas \cup DateSchemas \cup Plain
D0 == [t |-> "other", w |-> "", d |-> "", k |-> "", i |-> <<>>, r |-> <<>>, c |-> <<>>]
(* everything a message about this schema and value could name *)
Expected(s) ==
  {[D0 EXCEPT !.t = "str", !.w = DocType(s)]}
  \cup (IF s.t \in {"Array", "Scalar"} THEN {[D0 EXCEPT !.t = "str", !.d = s.dn]} ELSE {})
  \cup (IF s.t = "Array" THEN {[D0 EXCEPT !.t = "num", !.i = <<EffNdim(s)>>]} ELSE {})
  \cup (IF s.t \in {"Array", "Scalar"} THEN {[D0 EXCEPT !.t = "num", !.r = <<q[1].r>>] : q \in {s.mxv, s.mnv} \ {<<>>}} ELSE {})
  \cup (IF s.t \in {"String", "Bytes"} THEN {[D0 EXCEPT !.t = "num", !.i = q] : q \in {s.mx, s.mn} \ {<<>>}} ELSE {})
  \cup (IF s.t = "Array" THEN {[D0 EXCEPT !.t = "tuple", !.c = q[1]] : q \in {s.mxs, s.mns} \ {<<>>}} ELSE {})
Got(s, v) ==
  {[D0 EXCEPT !.t = "type", !.k = v.t]}
  \cup (IF v.t \in {"arr", "num"} THEN {[D0 EXCEPT !.t = "dtype", !.d = v.d], [D0 EXCEPT !.t = "num", !.r = v.c]} ELSE {})
  \cup (IF v.t = "arr" THEN {[D0 EXCEPT !.t = "num", !.i = <<Len(v.s)>>], [D0 EXCEPT !.t = "tuple", !.c = v.s]}
           \cup {[D0 EXCEPT !.t = "arr", !.r = q] : q \in {Above(v.c, 1), Above(v.c, 0), Below(v.c, 0), Below(v.c, 1)}}
        ELSE {[D0 EXCEPT !.t = "num", !.i = <<Len(v.c)>>]})
ValueLaws(s, v) ==
  (IF ValidValue(s, v) <=> ~\E x \in Expected(s), y \in Got(s, v) : Explains(s, v, <<>>, x, y) THEN {} ELSE {"C21 invalid values have an explanation, valid ones none"})
  \cup (IF ValidValue(s, v) => RightType(s, v) \/ s.t = "Date" THEN {} ELSE {"C03 type"})
  (* tightening a constraint never makes a value valid *)
  \cup (IF s.t \in {"String", "Bytes"} /\ ValidValue(s, v)
        THEN IF ValidValue([s EXCEPT !.mx = <<>>], v) /\ ValidValue([s EXCEPT !.mn = <<>>], v) THEN {} ELSE {"C03 lengths"} ELSE {})
  \cup (IF s.t \in {"Array", "Scalar"} /\ ValidValue(s, v)
        THEN IF ValidValue([s EXCEPT !.mxv = <<>>], v) /\ ValidValue([s EXCEPT !.mnv = <<>>], v) THEN {} ELSE {"C03 limits"} ELSE {})

----------------------------------------------------------------------------
(* Arrays *)
ArrayShapes == {<<0>>, <<1>>, <<2>>, <<3>>, <<4>>} \cup {<<n, m>> : n \in 0..2, m \in 1..3} \cup {<<2, 1, 2>>}
Counting(sh) == [t |-> "arr", d |-> "int32", s |-> sh, c |-> [i \in 1..Prod(sh) |-> i]]
IntKeys == {[k |-> "i", i |-> i] : i \in -4..4}
SliceKeys ==
  LET small == IF Deep THEN -4..5 ELSE {-3, -1, 0, 2, 4}
  IN {[k |-> "s"]} \cup {[k |-> "s", st |-> st] : st \in {1, 2, -1}} \cup {[k |-> "s", a |-> a] : a \in small} \cup {[k |-> "s", b |-> b] : b \in small}
     \cup {[k |-> "s", a |-> a, b |-> b] : a \in small, b \in small}
     \cup {[k |-> "s", a |-> a, b |-> b, st |-> st] : a \in small, b \in small, st \in {2, 3, -1, -2}}
     \cup {[k |-> "s", a |-> a, st |-> st] : a \in small, st \in {2, -1, -2}}
Keys(sh) == {<<>>} \cup {<<k>> : k \in IntKeys \cup SliceKeys}
            \cup (IF Len(sh) < 2 THEN {} ELSE {<<x, y>> : x \in IntKeys \cup {[k |-> "s"], [k |-> "s", a |-> 1], [k |-> "s", st |-> 2]},
                                                          y \in IntKeys \cup {[k |-> "s"], [k |-> "s", b |-> -1], [k |-> "s", a |-> 0, b |-> 2]}})
(* the positions a key selects in one dimension, by Python's definition of  *)
(* a slice: the positions first, first + step, ... before the end           *)
Selected(n, k) ==
  IF k.k = "i" THEN IF k.i \in -n..(n - 1) THEN {k.i % n} ELSE {}
  ELSE LET st == KStep(k)
           clip(x) == IF x < -n THEN -1 ELSE IF x < 0 THEN x + n ELSE IF x > n THEN n ELSE x
           a == IF "a" \in DOMAIN k THEN clip(k.a) ELSE IF st > 0 THEN 0 ELSE n - 1
           b == IF "b" \in DOMAIN k THEN clip(k.b) ELSE IF st > 0 THEN n ELSE -1
       IN {i \in 0..(n - 1) : \E m \in 0..n :
             LET first == IF st > 0 THEN (IF a < 0 THEN 0 ELSE a) ELSE (IF a > n - 1 THEN n - 1 ELSE a)
             IN i = first + m * st /\ (IF st > 0 THEN i < b ELSE i > b)}
SelectedAll(sh, key) ==
  {o \in 0..(Prod(sh) - 1) : LET ix == Unflat(o, sh)
                             IN \A d \in 1..Len(sh) : d > Len(key) \/ ix[d] \in Selected(sh[d], key[d])}
Neg(v) == [v EXCEPT !.c = [i \in 1..Len(v.c) |-> -v.c[i]]]
ArrayLaws(sh, key) ==
  LET v == Counting(sh)
      sel == Indexed(v, key)
      new == IndexAssigned(v, key, Neg(sel))
      one == IndexAssigned(v, key, [sel EXCEPT !.c = <<-9>>])
      off == SelectedAll(sh, key)
  IN IF ~KeyFits(sh, key)
     THEN IF \E d \in 1..Len(key) : key[d].k = "i" /\ Selected(sh[d], key[d]) = {} THEN {} ELSE {"C18 out of range"}
     ELSE (IF {sel.c[i] - 1 : i \in 1..Len(sel.c)} = off /\ Len(sel.c) = Cardinality(off) /\ Len(sel.c) = Prod(sel.s) THEN {} ELSE {"C18 selection"})
          \cup (IF Indexed(new, key) = Neg(sel) /\ new.s = sh
                   /\ \A o \in 0..(Prod(sh) - 1) : new.c[o + 1] = (IF o \in off THEN -(o + 1) ELSE o + 1) THEN {} ELSE {"C18 assignment"})
          \cup (IF \A o \in 0..(Prod(sh) - 1) : one.c[o + 1] = (IF o \in off THEN -9 ELSE o + 1) THEN {} ELSE {"C18 one value for all"})
ResizeLaws(sh, to) ==
  LET v == Counting(sh)
      w == Resized(v, to, 0)
      both(d) == Min2(sh[d], to[d])
  IN (IF Len(w.c) = Prod(to) /\ w.s = to THEN {} ELSE {"C18 new size"})
     \cup (IF Resized(v, sh, 0) = v THEN {} ELSE {"C18 same size"})
     \cup (IF (\A d \in 1..Len(sh) : to[d] >= sh[d]) => Resized(w, sh, 0) = v THEN {} ELSE {"C18 growing loses nothing"})
     \cup (IF Cardinality({i \in 1..Len(w.c) : w.c[i] # 0}) = Prod([d \in 1..Len(sh) |-> both(d)]) THEN {} ELSE {"C18 kept elements"})
     \cup (IF \A o \in 0..(Prod(to) - 1) : w.c[o + 1] # 0 => Unflat(o, to) = Unflat(w.c[o + 1] - 1, sh) THEN {} ELSE {"C18 positions"})

----------------------------------------------------------------------------
(* Trees *)
Bo == [t |-> "Bool"]
St == [t |-> "String", mn |-> <<>>, mx |-> <<1>>]
Ar(dep) == [t |-> "Array", d |-> "\"int32\"", dn |-> "int32", u |-> "\"\"", un |-> "", nd |-> 1, mxs |-> <<>>, mns |-> <<>>,
            mxv |-> <<>>, mnv |-> <<>>, dep |-> dep]
Li(s) == [t |-> "List", sub |-> s, mn |-> <<>>, mx |-> <<2>>]
Co(f, opt) == [t |-> "Compilation", f |-> f, opt |-> opt]
TreeSchemas ==
  LET two == Co(<<Fld("a", Bo), Fld("b", St)>>, <<NM("a")>>)
  IN {Bo, St, Li(St), Li(Li(Bo)), Li(two), Co(<<Fld("k", Li(two))>>, <<>>), Co(<<Fld("a", St), Fld("k", two)>>, <<NM("k")>>),
      Co(<<Fld("a", Ar(<<>>)), Fld("b", Ar(<<<<NM("a")>>>>)), Fld("c", Bo)>>, <<NM("b")>>),
      Co(<<>>, <<>>), Li(Co(<<>>, <<>>)), Co(<<Fld("x", Co(<<Fld("y", Li(Bo))>>, <<>>)), Fld("z", Co(<<>>, <<>>))>>, <<NM("z")>>)}
     \cup IF Deep THEN {Li(Li(two)), Li(Co(<<Fld("l", Li(St)), Fld("m", Bo)>>, <<NM("l")>>))} ELSE {}
LeafTrees(s) == {Leaf(<<>>)} \cup
  (CASE s.t = "Bool" -> {Leaf(<<[t |-> "bool", c |-> <<1>>]>>)}
     [] s.t = "String" -> {Leaf(<<[t |-> "str", c |-> c]>>) : c \in {<<>>, <<97, 98>>}}
     [] OTHER -> {Leaf(<<[t |-> "arr", d |-> "int32", s |-> <<n>>, c |-> [i \in 1..n |-> i]]>>) : n \in 0..2})
RECURSIVE TreesOf(_, _)
TreesOf(s, n) ==
  CASE s.t = "Compilation" ->
         {[k |-> "c", x |-> x] : x \in {y \in [1..Len(s.f) -> UNION {TreesOf(s.f[i].s, n) : i \in 1..Len(s.f)}] :
                                         \A i \in 1..Len(s.f) : y[i] \in TreesOf(s.f[i].s, n)}}
    [] s.t = "List" -> {[k |-> "l", x |-> x] : x \in Seqs(TreesOf(s.sub, n - 1), n)}
    [] OTHER -> LeafTrees(s)
MaxItems(s) == IF s.t = "List" /\ IsLeaf(s.sub) THEN 3 ELSE 2
MoreTreeLaws(s, t) ==
  (IF Cleared(s, t) = Blank(s) /\ Empty(Blank(s)) THEN {} ELSE {"C02 clear"})
  \cup (IF Match(t, t, <<>>, <<>>) /\ Diff(t, t, <<>>, <<>>, <<>>) = {} THEN {} ELSE {"C10 a tree equals itself"})
  \cup (IF \A q \in Paths(t) : Put(t, q, NodeAt(t, q)) = t THEN {} ELSE {"C02 put"})
  \cup (IF \A q \in Filled(t) : LET u == Put(t, q, Leaf(<<>>))
                                IN Diff(t, u, <<>>, <<>>, <<>>) = {q} /\ Filled(u) = Filled(t) \ {q} THEN {} ELSE {"C02 one node"})
  \cup (IF \A q \in Filled(t) : Encode(s, Put(t, q, Leaf(<<>>))) # Encode(s, t) THEN {} ELSE {"C17 every value is stored"})
  \cup (IF Export(s, t, TRUE) # Export(s, Blank(s), TRUE) \/ t = Blank(s) THEN {} ELSE {"C16 the full export shows everything"})

----------------------------------------------------------------------------
VARIABLES case, bad
Cases == CASE Group = "schemas" -> {[g |-> "schemas"]}
           [] Group = "values" -> {[g |-> "values", s |-> s] : s \in ValueSchemas}
           [] Group = "arrays" -> {[g |-> "arrays", sh |-> sh, key |-> key] : sh \in ArrayShapes, key \in UNION {Keys(x) : x \in ArrayShapes}}
                                  \cup UNION {{[g |-> "resize", sh |-> sh, to |-> to] : to \in {x \in ArrayShapes : Len(x) = Len(sh)}} : sh \in ArrayShapes}
           [] Group = "trees" -> UNION {{[g |-> "trees", s |-> s, t |-> t] : t \in TreesOf(s, MaxItems(s))} : s \in TreeSchemas}
Laws(c) == CASE c.g = "schemas" -> SchemaLaws
             [] c.g = "values" -> UNION {ValueLaws(c.s, v) : v \in (IF c.s.t = "Array" THEN ArrVals ELSE LeafVals \cup {CHOOSE v \in ArrVals : TRUE})}
             [] c.g = "arrays" -> IF Len(c.key) > Len(c.sh) THEN {} ELSE ArrayLaws(c.sh, c.key)
             [] c.g = "resize" -> ResizeLaws(c.sh, c.to)
             [] c.g = "trees" -> TreeLaws(c.s, c.t) \cup MoreTreeLaws(c.s, c.t)
Init == case \in Cases /\ bad = {"unchecked"}
Next == /\ bad = {"unchecked"}
        /\ bad' = Laws(case)
        /\ UNCHANGED case
Spec == Init /\ [][Next]_<<case, bad>>
LawsHold == bad \in {{}, {"unchecked"}}
=============================================================================
