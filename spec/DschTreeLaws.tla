---------------------------- MODULE DschTreeLaws ----------------------------
(***************************************************************************)
(* Properties of single data trees, stated independently of the operators  *)
(* of DschTree (by means of paths instead of recursion over the tree).     *)
(* Dsch checks them in all states it reaches, DschLaws on all small trees. *)
(***************************************************************************)
EXTENDS DschLayout

RECURSIVE Paths(_)
Paths(t) == {<<>>} \cup (IF t.k = "i" THEN {}
             ELSE UNION {{<<i>> \o q : q \in Paths(t.x[i])} : i \in 1..Len(t.x)})
LeafPaths(t) == {q \in Paths(t) : NodeAt(t, q).k = "i"}
Filled(t) == {q \in LeafPaths(t) : NodeAt(t, q).v # <<>>}
(* q lies below an optional field *)
OptionalAbove(s, q) ==
  \E n \in 1..Len(q) :
    LET c == SchemaAt(s, SubSeq(q, 1, n - 1))
    IN c.t = "Compilation" /\ c.f[q[n]].n \in OptNames(c)
IsNow(n) == n.k = "i" /\ n.v # <<>> /\ n.v[1].t = "now"
Soc(s) == s.t \in {"Date", "DateTime", "Time"} /\ s.soc
EmptyItem(s, t) == \E q \in Paths(t) : q # <<>> /\ Empty(NodeAt(t, q))
                     /\ SchemaAt(s, SubSeq(q, 1, Len(q) - 1)).t = "List"

RECURSIVE ToArg(_)
ToArg(r) == CASE r.r = "map" -> [t |-> "map", m |-> [i \in 1..Len(r.m) |->
                                     [i |-> r.m[i].i, v |-> ToArg(r.m[i].v)]]]
              [] r.r = "seq" -> [t |-> "seq", x |-> [i \in 1..Len(r.x) |-> ToArg(r.x[i])]]
              [] OTHER -> r.v

TreeLaws(s, t) ==
  (IF Conforms(s, t) THEN {} ELSE {"C15 conforms"})
  \cup (IF \A q \in Paths(t) : Empty(NodeAt(t, q)) <=> Filled(NodeAt(t, q)) = {} THEN {} ELSE {"C08 empty"})
  \cup (IF \A q \in Paths(t) : Complete(SchemaAt(s, q), NodeAt(t, q)) <=>
             \A r \in LeafPaths(NodeAt(t, q)) :
                r \in Filled(NodeAt(t, q)) \/ OptionalAbove(SchemaAt(s, q), r)
        THEN {} ELSE {"C08 complete"})
  \cup (IF Valid(s, t) <=> \A q \in Paths(t) : \A x \in ProblemsAt(s, t, q) : x.p # ""
        THEN {} ELSE {"C04 every node"})
  \cup (IF \A x \in ProblemsR(s, t, <<>>, <<>>) : HasNode(t, x.p) /\ \E y \in ProblemsAt(s, t, x.p) : y.p = ""
        THEN {} ELSE {"C04 names a faulty node"})
  \cup (IF \A q, r \in Paths(t) : PathText(s, q) = PathText(s, r) => q = r THEN {} ELSE {"C04 paths"})
  \cup (IF \A be \in FileBackends : /\ Cardinality(Layout(be, s, t)) = Cardinality(Filled(t))
                                    /\ Cardinality({x.k : x \in Layout(be, s, t)}) = Cardinality(Filled(t))
        THEN {} ELSE {"C17 names"})
  \cup (IF Decode(s, Encode(s, t)) = t THEN {} ELSE {"C01 layout"})
  \cup (IF EmptyItem(s, t) \/ Export(s, t, FALSE) = None
           \/ Replaced(s, Blank(s), ToArg(Export(s, t, FALSE))) = t
        THEN {} ELSE {"C16 export and replace"})
=============================================================================
