----------------------------- MODULE DschLayout -----------------------------
(***************************************************************************)
(* The layout of the file formats: which value is found under which name.  *)
(* Layout(be, s, t) is the set of all [k |-> name, v |-> value] pairs a    *)
(* plain reader of the format finds in a file with data tree t.            *)
(*                                                                         *)
(* Encode/Decode model how a tree with empty nodes is represented at all:  *)
(* only non-empty leaves are stored by name, so the position of empty list *)
(* items needs a marker.  Decode(s, Encode(s, t)) = t is checked for all   *)
(* small trees by MCLayout; DecodeOld is the layout without markers.       *)
(***************************************************************************)
EXTENDS DschTree

FileBackends == {"npz", "hdf5", "mat"}
Sep(be) == IF be = "hdf5" THEN "/" ELSE "."
Top(be, s) == CASE be = "mat" -> "data"
                [] s.t = "Compilation" -> ""
                [] be = "npz" -> "data"
                [] OTHER -> "dsch_data"
Under(be, pre, name) == IF pre = "" THEN name ELSE pre \o Sep(be) \o name
ChildName(s, i) == IF s.t = "Compilation" THEN s.f[i].n ELSE "item_" \o ToString(i - 1)

RECURSIVE LayoutR(_, _, _, _)
LayoutR(be, s, t, pre) ==
  IF t.k = "i" THEN (IF t.v = <<>> THEN {} ELSE {[k |-> pre, v |-> t.v[1]]})
  ELSE UNION {LayoutR(be, SubSchema(s, i), t.x[i], Under(be, pre, ChildName(s, i))) : i \in 1..Len(t.x)}
Layout(be, s, t) == LayoutR(be, s, t, Top(be, s))

----------------------------------------------------------------------------
(* Abstract storage objects: a leaf value, "nothing", a struct (set of     *)
(* named members) or a marker for an empty list item.                      *)
Nothing == [o |-> "nothing"]
Marker  == [o |-> "marker"]
RECURSIVE Encode(_, _)
Encode(s, t) ==
  CASE s.t = "Compilation" ->
         LET mem == {[n |-> s.f[i].n, e |-> Encode(s.f[i].s, t.x[i])] : i \in 1..Len(s.f)}
             kept == {m \in mem : m.e # Nothing}
         IN IF kept = {} THEN Nothing ELSE [o |-> "struct", m |-> kept]
    [] s.t = "List" ->
         IF t.x = <<>> THEN Nothing
         ELSE [o |-> "struct", m |->
                {[n |-> "item_" \o ToString(i - 1),
                  e |-> LET c == Encode(s.sub, t.x[i]) IN IF c = Nothing THEN Marker ELSE c]
                 : i \in 1..Len(t.x)}]
    [] OTHER -> IF t.v = <<>> THEN Nothing ELSE [o |-> "leaf", v |-> t.v[1]]

RECURSIVE Decode(_, _)
Decode(s, e) ==
  CASE s.t = "Compilation" ->
         IF e.o \in {"nothing", "marker"} THEN Blank(s)
         ELSE [k |-> "c", x |-> [i \in 1..Len(s.f) |->
                 LET ms == {m \in e.m : m.n = s.f[i].n}
                 IN IF ms = {} THEN Blank(s.f[i].s)
                    ELSE Decode(s.f[i].s, (CHOOSE m \in ms : TRUE).e)]]
    [] s.t = "List" ->
         IF e.o \in {"nothing", "marker"} THEN Blank(s)
         ELSE [k |-> "l", x |-> [i \in 1..Cardinality(e.m) |->
                 LET ms == {m \in e.m : m.n = "item_" \o ToString(i - 1)}
                 IN IF ms = {} THEN Blank(s.sub)
                    ELSE Decode(s.sub, (CHOOSE m \in ms : TRUE).e)]]
    [] OTHER -> IF e.o \in {"nothing", "marker"} THEN Leaf(<<>>) ELSE Leaf(<<e.v>>)

(* The layout of the original code: empty items are simply not stored.     *)
RECURSIVE EncodeOld(_, _)
EncodeOld(s, t) ==
  CASE s.t = "Compilation" ->
         LET kept == {m \in {[n |-> s.f[i].n, e |-> EncodeOld(s.f[i].s, t.x[i])] : i \in 1..Len(s.f)} : m.e # Nothing}
         IN IF kept = {} THEN Nothing ELSE [o |-> "struct", m |-> kept]
    [] s.t = "List" ->
         LET kept == {m \in {[n |-> "item_" \o ToString(i - 1), e |-> EncodeOld(s.sub, t.x[i])] : i \in 1..Len(t.x)} : m.e # Nothing}
         IN IF kept = {} THEN Nothing ELSE [o |-> "struct", m |-> kept]
    [] OTHER -> IF t.v = <<>> THEN Nothing ELSE [o |-> "leaf", v |-> t.v[1]]
=============================================================================
