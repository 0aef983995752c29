------------------------------ MODULE DschTree ------------------------------
(***************************************************************************)
(* Data trees: the data a storage holds for a schema.                      *)
(*   [k |-> "i", v |-> <<>>]      leaf without a value                     *)
(*   [k |-> "i", v |-> <<val>>]   leaf with a value                        *)
(*   [k |-> "c", x |-> <<...>>]   Compilation, one child per field         *)
(*   [k |-> "l", x |-> <<...>>]   List, one child per item                 *)
(* Predicted trees may contain two kinds of holes: the value               *)
(* [t |-> "now"] for an automatic timestamp, and the node [k |-> "any"]    *)
(* where the specification leaves the result open.                         *)
(* Node paths are sequences of positions (fields in the order of names).   *)
(***************************************************************************)
EXTENDS DschSchema

(* Some known findings are modelled as deviations of the implementation    *)
(* from the properties (see DESIGN.md).  Strict switches them off, so that *)
(* the executions that show the findings are rejected.                     *)
CONSTANT Strict

Leaf(q) == [k |-> "i", v |-> q]
Hole == [k |-> "any"]
Now(s) == [t |-> "now", y |-> s.t]

SubSchema(s, i) == IF s.t = "Compilation" THEN s.f[i].s ELSE s.sub

RECURSIVE SchemaAt(_, _)
SchemaAt(s, p) == IF p = <<>> THEN s ELSE SchemaAt(SubSchema(s, Head(p)), Tail(p))
RECURSIVE HasNode(_, _)
HasNode(t, p) == \/ p = <<>>
                 \/ /\ t.k \in {"c", "l"}
                    /\ Head(p) \in 1..Len(t.x)
                    /\ HasNode(t.x[Head(p)], Tail(p))
RECURSIVE NodeAt(_, _)
NodeAt(t, p) == IF p = <<>> THEN t ELSE NodeAt(t.x[Head(p)], Tail(p))
RECURSIVE Put(_, _, _)
Put(t, p, n) == IF p = <<>> THEN n
                ELSE [t EXCEPT !.x[Head(p)] = Put(@, Tail(p), n)]

(* A newly created node. *)
RECURSIVE New(_)
New(s) ==
  CASE s.t = "Compilation" -> [k |-> "c", x |-> [i \in 1..Len(s.f) |-> New(s.f[i].s)]]
    [] s.t = "List" -> [k |-> "l", x |-> <<>>]
    [] s.t \in {"Date", "DateTime", "Time"} -> Leaf(IF s.soc THEN <<Now(s)>> ELSE <<>>)
    [] OTHER -> Leaf(<<>>)

RECURSIVE Cleared(_, _)
Cleared(s, t) ==
  CASE s.t = "Compilation" -> [k |-> "c", x |-> [i \in 1..Len(s.f) |-> Cleared(s.f[i].s, t.x[i])]]
    [] s.t = "List" -> [k |-> "l", x |-> <<>>]
    [] OTHER -> Leaf(<<>>)

RECURSIVE Blank(_)
Blank(s) ==
  CASE s.t = "Compilation" -> [k |-> "c", x |-> [i \in 1..Len(s.f) |-> Blank(s.f[i].s)]]
    [] s.t = "List" -> [k |-> "l", x |-> <<>>]
    [] OTHER -> Leaf(<<>>)

RECURSIVE Empty(_)
Empty(t) == IF t.k = "i" THEN t.v = <<>> ELSE \A i \in 1..Len(t.x) : Empty(t.x[i])

OptNames(s) == {s.opt[i].n : i \in 1..Len(s.opt)}
RECURSIVE Complete(_, _)
Complete(s, t) ==
  CASE s.t = "Compilation" ->
         \A i \in 1..Len(s.f) : s.f[i].n \in OptNames(s) \/ Complete(s.f[i].s, t.x[i])
    [] s.t = "List" -> \A i \in 1..Len(t.x) : Complete(s.sub, t.x[i])
    [] OTHER -> t.v # <<>>

(* The structure of a tree follows its schema. *)
RECURSIVE Conforms(_, _)
Conforms(s, t) ==
  CASE s.t = "Compilation" ->
         t.k = "c" /\ Len(t.x) = Len(s.f) /\ \A i \in 1..Len(s.f) : Conforms(s.f[i].s, t.x[i])
    [] s.t = "List" -> t.k = "l" /\ \A i \in 1..Len(t.x) : Conforms(s.sub, t.x[i])
    [] OTHER -> t.k = "i"

----------------------------------------------------------------------------
(* Assigning values.  Exact(be, s, v): backend be stores v unchanged.      *)
(* In memory, values are stored as given; files convert values of other    *)
(* types (or reject them), which is left open here.  HDF5 datasets are     *)
(* created with the dtype and the maximum shape of the schema.             *)
Exact(be, s, v) ==
  IF be = "inmem" /\ s.t # "Scalar" THEN TRUE
  ELSE /\ RightType(s, v)
       /\ (be = "hdf5" /\ s.t = "Array") =>
            /\ v.d = s.dn
            /\ Len(v.s) = EffNdim(s)
            /\ s.mxs # <<>> => \A i \in 1..Len(v.s) :
                  s.mxs[1][i] # -1 => v.s[i] <= s.mxs[1][i]
(* What a file of backend be can hold at all: MATLAB files know neither    *)
(* one-dimensional nor scalar arrays nor logicals, so that the number of   *)
(* dimensions and logical values are restored by means of the schema.      *)
Storable(be, s, v) ==
  (~Strict /\ be = "mat" /\ s.t = "Array" /\ v.t = "arr") =>
     Len(v.s) = EffNdim(s) /\ (v.d = "bool" <=> s.dn = "bool")
Stored(s, v) == IF s.t = "Scalar" THEN [t |-> "num", d |-> s.dn, c |-> v.c] ELSE v

(* Arguments of replace: a value for a leaf, [t |-> "map", m |-> pairs]    *)
(* for a Compilation and [t |-> "seq", x |-> items] for a List.            *)
RECURSIVE ArgExact(_, _, _)
ArgExact(be, s, a) ==
  CASE s.t = "Compilation" ->
         a.t = "map" /\ \A i \in 1..Len(a.m) :
             a.m[i].i \in 1..Len(s.f) /\ ArgExact(be, s.f[a.m[i].i].s, a.m[i].v)
    [] s.t = "List" -> a.t = "seq" /\ \A i \in 1..Len(a.x) : ArgExact(be, s.sub, a.x[i])
    [] OTHER -> a.t \notin {"map", "seq"} /\ Exact(be, s, a)

RECURSIVE Replaced(_, _, _), ReplFields(_, _, _, _)
ReplFields(s, t, m, i) ==
  IF i > Len(m) THEN t
  ELSE ReplFields(s, [t EXCEPT !.x[m[i].i] = Replaced(s.f[m[i].i].s, @, m[i].v)], m, i + 1)
Replaced(s, t, a) ==
  CASE s.t = "Compilation" -> ReplFields(s, t, a.m, 1)
    [] s.t = "List" -> [k |-> "l", x |-> [i \in 1..Len(a.x) |-> Replaced(s.sub, New(s.sub), a.x[i])]]
    [] OTHER -> Leaf(<<Stored(s, a)>>)

RECURSIVE TreeExact(_, _, _)
TreeExact(be, s, t) ==
  IF t.k = "i" THEN t.v = <<>> \/ Exact(be, s, t.v[1])
  ELSE \A i \in 1..Len(t.x) : TreeExact(be, SubSchema(s, i), t.x[i])

RECURSIVE TreeStorable(_, _, _)
TreeStorable(be, s, t) ==
  IF t.k = "i" THEN t.v = <<>> \/ (Exact(be, s, t.v[1]) /\ Storable(be, s, t.v[1]))
  ELSE \A i \in 1..Len(t.x) : TreeStorable(be, SubSchema(s, i), t.x[i])

----------------------------------------------------------------------------
(* Validation.  Problems(s, t) is the set of all faults below a node:      *)
(* p is the printed path of the faulty node; c = "inv" for a violated      *)
(* constraint and c = "dep" for an array whose independent variable is     *)
(* missing or unusable (rejected, but the kind of error is left open).     *)
Step(s, i) == IF s.t = "Compilation" THEN s.f[i].n ELSE "[" \o ToString(i - 1) \o "]"
RECURSIVE PathText(_, _)
PathText(s, p) ==
  IF p = <<>> THEN ""
  ELSE LET rest == PathText(SubSchema(s, Head(p)), Tail(p))
           dot  == IF Len(p) > 1 /\ SubSchema(s, Head(p)).t = "Compilation" THEN "." ELSE ""
       IN Step(s, Head(p)) \o dot \o rest

FieldIndex(s, n) == CHOOSE i \in 1..Len(s.f) : s.f[i].n = n
HasField(s, n) == \E i \in 1..Len(s.f) : s.f[i].n = n

(* par: <<>> or <<schema, tree>> of the containing Compilation *)
LeafProblems(s, t, path, par) ==
  IF t.v = <<>> THEN {}
  ELSE IF s.t # "Array" \/ s.dep = <<>>
       THEN IF ValidValue(s, t.v[1]) THEN {} ELSE {[p |-> path, c |-> "inv"]}
  ELSE LET dep == s.dep[1]
           names == {dep[i].n : i \in 1..Len(dep)} \ {""}
           ok == names = {} \/
                 (par # <<>> /\ par[1].t = "Compilation"
                  /\ \A n \in names : HasField(par[1], n)
                       /\ par[1].f[FieldIndex(par[1], n)].s.t = "Array"
                       /\ par[2].x[FieldIndex(par[1], n)].v # <<>>)
           ind == [i \in 1..Len(dep) |->
                     IF dep[i].n = "" THEN <<>>
                     ELSE par[2].x[FieldIndex(par[1], dep[i].n)].v]
       IN IF ~ok THEN {[p |-> path, c |-> "dep"]}
          ELSE IF ~ValidValue(s, t.v[1]) THEN {[p |-> path, c |-> "inv"]}
          ELSE IF ~DepUsable(ind) THEN {[p |-> path, c |-> "dep"]}
          ELSE IF ~DepFits(t.v[1], ind) THEN {[p |-> path, c |-> "inv"]}
          ELSE {}

RECURSIVE ProblemsR(_, _, _, _)
ProblemsR(s, t, path, par) ==
  IF IsLeaf(s) THEN LeafProblems(s, t, path, par)
  ELSE UNION { ProblemsR(SubSchema(s, i), t.x[i], Append(path, i),
                         IF s.t = "Compilation" THEN <<s, t>> ELSE <<>>)
               : i \in 1..Len(t.x) }
       \cup IF s.t = "List" /\ ~InLength(s, Len(t.x))
            THEN {[p |-> path, c |-> "inv"]} ELSE {}

Problems(s, t) == { [p |-> PathText(s, q.p), c |-> q.c] : q \in ProblemsR(s, t, <<>>, <<>>) }

(* Problems of the node at path p of a tree (dependencies need its parent) *)
ProblemsAt(s, t, p) ==
  LET par == IF p = <<>> THEN <<>>
             ELSE LET pp == SubSeq(p, 1, Len(p) - 1) IN <<SchemaAt(s, pp), NodeAt(t, pp)>>
      sub == SchemaAt(s, p)
      qs  == IF par # <<>> /\ par[1].t = "Compilation"
             THEN ProblemsR(sub, NodeAt(t, p), <<>>, par)
             ELSE ProblemsR(sub, NodeAt(t, p), <<>>, <<>>)
  IN { [p |-> PathText(sub, q.p), c |-> q.c] : q \in qs }

Valid(s, t) == Problems(s, t) = {}

(* Whether an outcome of validation is right for a set of problems. *)
VerdictOK(pr, out) ==
  IF pr = {} THEN out.o = "ok"
  ELSE /\ out.o # "ok"
       /\ \/ out.o = "ValidationError" /\ \E q \in pr : q.p = ""
          \/ /\ out.o = "SubnodeValidationError"
             /\ out.cause = "ValidationError"
             /\ \E q \in pr : q.p = out.p /\ q.p # ""
          \/ /\ out.o \notin {"ValidationError", "SubnodeValidationError"}
             /\ \E q \in pr : q.c = "dep"
VerdictKindOK(pr, out) ==
  IF pr = {} THEN out.o = "ok"
  ELSE \/ out.o \in {"ValidationError", "SubnodeValidationError"}
       \/ out.o # "ok" /\ \E q \in pr : q.c = "dep"

(* A validation error (p the path it names, x, y the constraint and what    *)
(* was found) tells the truth about the tree t of schema s.                 *)
Independent(ss, par) ==
  [i \in 1..Len(ss.dep[1]) |-> IF ss.dep[1][i].n = "" THEN <<>>
                               ELSE par[2].x[FieldIndex(par[1], ss.dep[1][i].n)].v]
NodeExplains(ss, tt, par, x, y) ==
  IF ss.t = "List" THEN LengthExplains(ss, Len(tt.x), x, y)
  ELSE Explains(ss, tt.v[1], IF ss.t = "Array" /\ ss.dep # <<>> THEN Independent(ss, par) ELSE <<>>, x, y)
TellsTruth(s, t, top, p, x, y) ==
  \E q \in ProblemsR(s, t, <<>>, top) :
     /\ q.c = "inv" /\ PathText(s, q.p) = p
     /\ LET up == SubSeq(q.p, 1, Len(q.p) - 1)
            par == IF q.p = <<>> THEN top ELSE <<SchemaAt(s, up), NodeAt(t, up)>>
        IN NodeExplains(SchemaAt(s, q.p), NodeAt(t, q.p), par, x, y)

----------------------------------------------------------------------------
(* The printed tree: [l |-> label, x |-> subtrees], tx the ways to write the *)
(* values.  Fields may come in any order.                                   *)
Elems(q) == {q[i] : i \in 1..Len(q)}
LeafLabels(s, t, tx) ==
  LET text ==
        IF t.v = <<>> THEN {"<empty>"}
        ELSE IF s.t = "Array" /\ t.v[1].t = "arr"
             THEN {Join([i \in 1..Len(t.v[1].s) |-> ToString(t.v[1].s[i])], "x") \o " array"}
        ELSE IF s.t = "Scalar" THEN {w \o " " \o s.un : w \in Elems(tx.t)} \cup (IF s.un = "" THEN Elems(tx.t) ELSE {})
        ELSE Elems(tx.t)
  IN {"(" \o s.t \o "): " \o x : x \in text}
RECURSIVE PrintedOK(_, _, _, _, _)
PrintedOK(s, t, tx, pre, r) ==
  CASE s.t = "Compilation" ->
         /\ r.l = pre \o "(Compilation)" /\ Len(r.x) = Len(s.f)
         /\ \A i \in 1..Len(s.f) : \E j \in 1..Len(r.x) :
              PrintedOK(s.f[i].s, t.x[i], tx.x[i], s.f[i].e \o " ", r.x[j])
    [] s.t = "List" ->
         /\ r.l = pre \o "(List)" /\ Len(r.x) = Len(t.x)
         /\ \A i \in 1..Len(t.x) :
              PrintedOK(s.sub, t.x[i], tx.x[i], "[" \o ToString(i - 1) \o "] ", r.x[i])
    [] OTHER -> r.x = <<>> /\ \E l \in LeafLabels(s, t, tx) : r.l = pre \o l
(* Lines of the printout: the labels from top to bottom, deeper nodes are   *)
(* indented more.                                                           *)
LinesOK(res) ==
  /\ res.rep = res.lab
  /\ \A i, j \in 1..Len(res.rep) :
       /\ res.dep[i] = res.dep[j] <=> res.ind[i] = res.ind[j]
       /\ res.dep[i] < res.dep[j] <=> res.ind[i] < res.ind[j]

(* Nodes know the containing node and their schema: o = [p, j, x].          *)
RECURSIVE LinksOK(_, _, _)
LinksOK(s, t, o) ==
  /\ o.p /\ o.j = Text(s)
  /\ ~IsLeaf(s) => /\ Len(o.x) = Len(t.x)
                   /\ \A i \in 1..Len(t.x) : LinksOK(SubSchema(s, i), t.x[i], o.x[i])

----------------------------------------------------------------------------
(* The exported data tree. *)
None == [r |-> "none"]
RECURSIVE Export(_, _, _)
Export(s, t, inc) ==
  CASE s.t = "Compilation" ->
         LET sub == [i \in 1..Len(s.f) |-> [i |-> i, v |-> Export(s.f[i].s, t.x[i], inc)]]
         IN [r |-> "map", m |-> SelectSeq(sub, LAMBDA e : inc \/ e.v # None)]
    [] s.t = "List" ->
         LET sub == [i \in 1..Len(t.x) |-> Export(s.sub, t.x[i], inc)]
         IN [r |-> "seq", x |-> SelectSeq(sub, LAMBDA e : inc \/ e # None)]
    [] OTHER -> IF t.v = <<>> THEN None ELSE [r |-> "val", v |-> t.v[1]]

----------------------------------------------------------------------------
(* Arrays: selection by index.  A key has one entry per dimension,         *)
(* [k |-> "i", i |-> n] or a slice [k |-> "s", a |-> start, b |-> stop,    *)
(* st |-> step] with Python's meaning; each of a, b, st may be missing.    *)
KeyFits(sh, key) ==
  /\ Len(key) <= Len(sh)
  /\ \A i \in 1..Len(key) : key[i].k = "i" => key[i].i < sh[i] /\ -key[i].i <= sh[i]
FullKey(sh, key) == [i \in 1..Len(sh) |->
   IF i <= Len(key) THEN key[i] ELSE [k |-> "s", a |-> 0, b |-> sh[i], st |-> 1]]
KStep(k) == IF ("st" \in DOMAIN k) THEN k.st ELSE 1
KBound(n, x, lo, hi) == LET y == IF x < 0 THEN x + n ELSE x IN IF y < lo THEN lo ELSE IF y > hi THEN hi ELSE y
KFirst(n, k) == IF KStep(k) > 0 THEN (IF ("a" \in DOMAIN k) THEN KBound(n, k.a, 0, n) ELSE 0)
               ELSE (IF ("a" \in DOMAIN k) THEN KBound(n, k.a, -1, n - 1) ELSE n - 1)
KLast(n, k) == IF KStep(k) > 0 THEN (IF ("b" \in DOMAIN k) THEN KBound(n, k.b, 0, n) ELSE n)
              ELSE (IF ("b" \in DOMAIN k) THEN KBound(n, k.b, -1, n - 1) ELSE -1)
SelCount(n, k) == IF k.k = "i" THEN 1
                  ELSE LET d == IF KStep(k) > 0 THEN KLast(n, k) - KFirst(n, k) ELSE KFirst(n, k) - KLast(n, k)
                           st == IF KStep(k) > 0 THEN KStep(k) ELSE -KStep(k)
                       IN IF d <= 0 THEN 0 ELSE (d + st - 1) \div st
SelPos(n, k, j) == IF k.k = "i" THEN (IF k.i < 0 THEN k.i + n ELSE k.i) ELSE KFirst(n, k) + (j - 1) * KStep(k)
SelShape(sh, key) ==
  LET fk == FullKey(sh, key)
      dims == SelectSeq([i \in 1..Len(sh) |-> <<fk[i].k, SelCount(sh[i], fk[i])>>], LAMBDA d : d[1] = "s")
  IN [i \in 1..Len(dims) |-> dims[i][2]]
(* flat offsets (0-based) of the selected elements, in row-major order *)
RECURSIVE Offsets(_, _)
Offsets(sh, key) ==
  IF sh = <<>> THEN <<0>>
  ELSE LET n == SelCount(sh[1], key[1])
           rest == Offsets(Tail(sh), Tail(key))
           stride == Prod(Tail(sh))
           m == Len(rest)
       IN [j \in 1..(n * m) |->
             SelPos(sh[1], key[1], ((j - 1) \div m) + 1) * stride + rest[((j - 1) % m) + 1]]
SelOffsets(sh, key) == Offsets(sh, FullKey(sh, key))

Indexed(v, key) ==
  LET off == SelOffsets(v.s, key)
  IN [t |-> "arr", d |-> v.d, s |-> SelShape(v.s, key), c |-> [i \in 1..Len(off) |-> v.c[off[i] + 1]]]

IndexAssigned(v, key, w) ==
  LET off == SelOffsets(v.s, key)
      src(o) == CHOOSE i \in 1..Len(off) : off[i] = o
      sel == {off[i] : i \in 1..Len(off)}
  IN [v EXCEPT !.c = [i \in 1..Len(v.c) |->
        IF (i - 1) \in sel THEN (IF Len(w.c) = 1 THEN w.c[1] ELSE w.c[src(i - 1)]) ELSE v.c[i]]]

(* multi-index of a flat offset *)
RECURSIVE Unflat(_, _)
Unflat(o, sh) == IF sh = <<>> THEN <<>>
                 ELSE LET st == Prod(Tail(sh)) IN <<o \div st>> \o Unflat(o % st, Tail(sh))
RECURSIVE Flat(_, _)
Flat(ix, sh) == IF sh = <<>> THEN 0 ELSE Head(ix) * Prod(Tail(sh)) + Flat(Tail(ix), Tail(sh))
Resized(v, sh, zero) ==
  [v EXCEPT !.s = sh, !.c = [i \in 1..Prod(sh) |->
     LET ix == Unflat(i - 1, sh)
     IN IF \A d \in 1..Len(sh) : ix[d] < v.s[d] THEN v.c[Flat(ix, v.s) + 1] ELSE zero]]

----------------------------------------------------------------------------
(* Matching a predicted tree with an observed one (holes in the former).   *)
RECURSIVE LexLeq(_, _)
LexLeq(a, b) == \/ a = <<>>
                \/ Head(a) < Head(b)
                \/ Head(a) = Head(b) /\ LexLeq(Tail(a), Tail(b))
InWindow(y, v, t0, t1) ==
  CASE y = "Date" -> v.t = "date" /\ LexLeq(SubSeq(t0, 1, 3), v.c) /\ LexLeq(v.c, SubSeq(t1, 1, 3))
    [] y = "DateTime" -> v.t = "datetime" /\ LexLeq(t0, v.c) /\ LexLeq(v.c, t1)
    [] y = "Time" -> /\ v.t = "time"
                     /\ SubSeq(t0, 1, 3) = SubSeq(t1, 1, 3) =>
                          LexLeq(SubSeq(t0, 4, 7), v.c) /\ LexLeq(v.c, SubSeq(t1, 4, 7))

MatchLeaf(p, o, t0, t1) ==
  \/ p = o
  \/ /\ p.v # <<>> /\ o.v # <<>>
     /\ p.v[1].t = "now"
     /\ \/ InWindow(p.v[1].y, o.v[1], t0, t1)
        \/ o.v[1] = p.v[1]

RECURSIVE Match(_, _, _, _)
Match(p, o, t0, t1) ==
  \/ p.k = "any"
  \/ /\ p.k = o.k
     /\ IF p.k = "i" THEN MatchLeaf(p, o, t0, t1)
        ELSE Len(p.x) = Len(o.x) /\ \A i \in 1..Len(p.x) : Match(p.x[i], o.x[i], t0, t1)

(* Paths of the nodes at which two trees differ. *)
RECURSIVE Diff(_, _, _, _, _)
Diff(p, o, path, t0, t1) ==
  IF p.k = "any" THEN {}
  ELSE IF p.k # o.k THEN {path}
  ELSE IF p.k = "i" THEN (IF MatchLeaf(p, o, t0, t1) THEN {} ELSE {path})
  ELSE (IF Len(p.x) # Len(o.x) THEN {path} ELSE {})
       \cup UNION { Diff(p.x[i], o.x[i], Append(path, i), t0, t1)
                    : i \in 1..Min2(Len(p.x), Len(o.x)) }

IsPrefix2(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
=============================================================================
