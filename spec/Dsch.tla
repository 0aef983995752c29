-------------------------------- MODULE Dsch --------------------------------
(***************************************************************************)
(* The bounded model: all sequences of operations of a scenario.           *)
(*                                                                         *)
(* A scenario (a JSON file named by the environment variable SCENARIO)     *)
(* holds schemas, the events that may happen (in the form of DschTrace,    *)
(* with concrete arguments), and bounds.  TLC explores all states that are *)
(* reachable by up to depth events and checks the properties C01..C19 on   *)
(* every transition.  Every transition is also printed, and the harness    *)
(* replays a cover of the transition graph on the real library.            *)
(***************************************************************************)
EXTENDS DschOps, DschTreeLaws, Json, IOUtils, TLCExt

Scenario == JsonDeserialize(IOEnv.SCENARIO)
StrictScenario == Scenario.strict
Schemas == Scenario.schemas
SC(i) == Schemas[i].sc
HashTab == [j \in {Schemas[i].j : i \in 1..Len(Schemas)} |->
              Schemas[CHOOSE i \in 1..Len(Schemas) : Schemas[i].j = j].h]
HashOf(s) == LET j == Text(s) IN IF j \in DOMAIN HashTab THEN HashTab[j] ELSE ""
Resolve(e) ==
  LET e1 == IF Has(e, "s") THEN [e EXCEPT !.s = SC(e.s)] ELSE e
  IN IF Has(e1, "rs") /\ e1.rs # <<>> THEN [e1 EXCEPT !.rs = <<SC(e.rs[1])>>] ELSE e1
Events == [i \in 1..Len(Scenario.events) |-> Resolve(Scenario.events[i])]
MaxList == Scenario.maxlist
AllBackends == FileBackends \cup {"inmem"}

VARIABLES st,    \* state of DschOps
          g,     \* ghost: [saved, sch: path -> tree, schema of the last save; loose: paths]
          bad    \* properties violated by the last transition
vars == <<st, g, bad>>

----------------------------------------------------------------------------
NodeOps == {"set", "rep", "clr", "app", "lfrom", "repunk", "setattr", "setitem", "idxset", "rsz"}
Hdf5Open(s0, path) == \E h \in DOMAIN s0.hs : s0.hs[h].be = "hdf5" /\ s0.hs[h].path = path
NodeThere(s0, e) == Has(s0.hs, e.h) /\ s0.hs[e.h].s = SC(e.on) /\ HasNode(s0.hs[e.h].t, e.p)

Enabled(s0, e) ==
  CASE e.op = "create" -> ~Has(s0.hs, e.h)
    [] e.op = "cfrom" -> Has(s0.hs, e.src) /\ ~Has(s0.hs, e.h)
    [] e.op = "load" -> ~Has(s0.hs, e.h) /\ ~Hdf5Open(s0, e.path)
    [] e.op = "save" -> Has(s0.hs, e.h) /\ s0.hs[e.h].be # "inmem"
    [] e.op = "drop" -> Has(s0.hs, e.h)
                        /\ \A i \in DOMAIN s0.ps : s0.ps[i].tgt.k = "node" => s0.ps[i].tgt.h # e.h
    [] e.op = "app" -> NodeThere(s0, e) /\ Len(NodeAt(s0.hs[e.h].t, e.p).x) < MaxList
    [] e.op = "lfrom" -> /\ NodeThere(s0, e) /\ Has(s0.hs, e.src)
                         /\ HasNode(s0.hs[e.src].t, e.sp) /\ <<e.h, e.p>> # <<e.src, e.sp>>
    [] e.op \in NodeOps -> NodeThere(s0, e)
    [] e.op = "pnew" -> /\ ~Has(s0.ps, e.id)
                        /\ IF e.tgt.k = "path" THEN e.defer \/ ~Hdf5Open(s0, e.tgt.path)
                           ELSE Has(s0.hs, e.tgt.h) /\ HasNode(s0.hs[e.tgt.h].t, e.tgt.p)
    [] e.op \in {"popen", "penter"} ->
          Has(s0.ps, e.id) /\ (s0.ps[e.id].open \/ s0.ps[e.id].tgt.k = "node"
                               \/ ~Hdf5Open(s0, s0.ps[e.id].tgt.path))
    [] e.op \in {"pclose", "pexit"} -> Has(s0.ps, e.id)
    [] e.op = "foreign" -> ~Has(s0.disk, e.path)
    [] e.op = "rm" -> Has(s0.disk, e.path) /\ ~Hdf5Open(s0, e.path)

----------------------------------------------------------------------------
(* Properties of a transition from s0 by event e with allowed outcomes o   *)
(* to s1; g0 ghost state before.                                           *)
Broken(s0, g0, e, o, s1) ==
  LET bad1(b, name) == IF b THEN {} ELSE {name}
      ok == o = {"ok"}
      fails == "ok" \notin o
      h0 == s0.hs[e.h].t
      h1 == s1.hs[e.h].t
      at0 == NodeAt(h0, e.p)
      at1 == NodeAt(h1, e.p)
      sc == SchemaAt(s0.hs[e.h].s, e.p)
      PsOps == {"pnew", "popen", "penter", "pclose", "pexit"}
      Opening == {"create", "cfrom", "load", "pnew", "popen", "penter"}
      newh == DOMAIN s1.hs \ DOMAIN s0.hs
      content(s, p) == <<s.disk[p].be, s.disk[p].s, s.disk[p].alts>>
      kept == \A p \in DOMAIN s0.disk : Has(s1.disk, p) /\ content(s1, p) = content(s0, p)
  IN
  (* C01, C13: what is loaded is what was saved *)
  bad1((e.op = "load" /\ ok /\ e.path \notin g0.loose) =>
         h1 = g0.saved[e.path] /\ s1.hs[e.h].s = g0.sch[e.path], "C01 round trip")
  \cup bad1((e.op = "save" /\ ok) => s1.disk[s0.hs[e.h].path].alts = <<h0>> /\ h1 = h0, "C01 saved state")
  (* C02 *)
  \cup bad1(e.op \in NodeOps =>
         /\ DOMAIN s1.hs = DOMAIN s0.hs
         /\ \A h \in DOMAIN s0.hs : h # e.h => s1.hs[h] = s0.hs[h]
         /\ h1 = Put(h0, e.p, at1), "C02 touches only its node")
  \cup bad1((e.op = "set" /\ ok) => at1 = Leaf(<<Stored(sc, e.v)>>), "C02 read")
  \cup bad1((e.op = "clr" /\ ok) => Empty(at1) /\ (sc.t = "List" => at1.x = <<>>), "C02 clear")
  \cup bad1((e.op = "rep" /\ ok /\ sc.t = "Compilation") =>
         \A i \in 1..Len(sc.f) : (\A j \in 1..Len(e.v.m) : e.v.m[j].i # i) => at1.x[i] = at0.x[i],
         "C02 listed fields only")
  (* C05 *)
  \cup bad1(e.op = "save" => (ok <=> (e.force \/ Valid(s0.hs[e.h].s, h0))), "C05 save gate")
  \cup bad1((e.op = "save" /\ fails) => s1.disk = s0.disk, "C05 rejected save")
  \cup bad1((e.op \in Opening /\ ok) =>
         \A h \in newh : (e.op = "load" /\ e.force) \/ e.op \in {"create", "cfrom"}
                         \/ Valid(s1.hs[h].s, s1.hs[h].t) \/ ~Has(s0.disk, s1.hs[h].path), "C05 load gate")
  \cup bad1(Strict => (e.op \notin {"save", "pclose", "pexit", "rm"} => kept), "C05 only saving changes stored data")
  (* C07 *)
  \cup bad1((e.op = "load" /\ Has(s0.disk, e.path) /\ (e.rs # <<>> \/ e.rh # <<>>)
             /\ s0.disk[e.path].org # "garbage" /\ Backend(e) = s0.disk[e.path].be) =>
         ("InvalidSchemaError" \in o <=> \/ e.rs # <<>> /\ e.rs[1] # s0.disk[e.path].s
                                         \/ e.rh # <<>> /\ e.rh[1] # HashOf(s0.disk[e.path].s)),
         "C07 required schema")
  \cup bad1((e.op \in {"pnew", "popen", "penter"} /\ ok /\ Has(s1.ps, e.id) /\ s1.ps[e.id].open) =>
         Accepts(s1.ps[e.id], PsSchema(s1, s1.ps[e.id]), HashOf), "C07 alternatives")
  (* C09 *)
  \cup bad1((e.op = "app" /\ ok) => /\ Len(at1.x) = Len(at0.x) + 1
                                    /\ SubSeq(at1.x, 1, Len(at0.x)) = at0.x, "C09 append")
  \cup bad1((e.op = "rep" /\ ok /\ sc.t = "List") => Len(at1.x) = Len(e.v.x), "C09 replace")
  \cup bad1((e.op \in NodeOps /\ ok) => \A q \in Paths(h0) :
         (NodeAt(h0, q).k = "l" /\ ~IsPrefix2(e.p, q) /\ HasNode(h1, q)) =>
            Len(NodeAt(h1, q).x) = Len(NodeAt(h0, q).x), "C09 lengths")
  (* C10 *)
  \cup bad1((e.op = "lfrom" /\ ok) => at1 = NodeAt(s0.hs[e.src].t, e.sp), "C10 copy")
  \cup bad1(e.op = "lfrom" => (fails <=> sc # SchemaAt(s0.hs[e.src].s, e.sp)) /\ (fails => s1 = s0),
            "C10 incompatible")
  \cup bad1((e.op = "cfrom" /\ ok) => h1 = s0.hs[e.src].t /\ s1.hs[e.h].s = s0.hs[e.src].s
                                      /\ s1.hs[e.src] = s0.hs[e.src], "C10 create from")
  (* C11 *)
  \cup bad1(e.op \in NodeOps => \A be \in AllBackends :
         LET q == Alts([s0 EXCEPT !.hs[e.h].be = be], e, HashOf)
         IN \E i \in 1..Len(q) : q[i].outs = o /\ (q[i].st.hs[e.h].t = h1), "C11 backends agree")
  (* C12 *)
  \cup bad1((IF e.op = "rm" THEN DOMAIN s0.disk \ {e.path} ELSE DOMAIN s0.disk) \subseteq DOMAIN s1.disk, "C12 files stay")
  \cup bad1(e.op = "rm" => s1.hs = s0.hs /\ s1.ps = s0.ps, "C12 data outlives its file")
  \cup bad1((e.op \in {"create", "cfrom"} /\ Backend(e) \in FileBackends /\ Has(s0.disk, e.path)) =>
         o = {"FileExistsError"} /\ s1 = s0, "C12 no overwriting")
  \cup bad1((e.op = "load" /\ Backend(e) \in FileBackends /\ ~Has(s0.disk, e.path)) =>
         o = {"FileNotFoundError"} /\ s1 = s0, "C12 missing file")
  \cup bad1(DOMAIN s1.disk # DOMAIN s0.disk =>
         \/ e.op \in {"create", "cfrom", "pnew", "popen", "penter"} /\ ok
            /\ DOMAIN s1.disk \ DOMAIN s0.disk = {s1.hs[h].path : h \in newh}
            /\ \A h \in newh : s1.hs[h].be = "hdf5"
         \/ e.op \in {"save"} /\ ok /\ DOMAIN s1.disk \ DOMAIN s0.disk = {s0.hs[e.h].path}
         \/ e.op \in {"pclose", "pexit"} /\ ok
            /\ DOMAIN s1.disk \ DOMAIN s0.disk = {s0.ps[e.id].tgt.path}
         \/ e.op \in {"foreign", "rm"}, "C12 new files")
  \cup bad1((fails /\ e.op # "repunk") => s1.hs = s0.hs /\ s1.ps = s0.ps, "C12 failing operations do nothing")
  (* C13 *)
  \cup bad1(\A i \in DOMAIN s1.ps : s1.ps[i].tgt.k = "path" =>
              (s1.ps[i].open <=> Has(s1.hs, s1.ps[i].h)), "C13 open or closed")
  \cup bad1((e.op = "popen" /\ s0.ps[e.id].open) => o = {"RuntimeError"} /\ s1 = s0, "C13 open twice")
  \cup bad1((e.op = "pnew" /\ e.defer) => s1.hs = s0.hs /\ s1.disk = s0.disk, "C13 deferred")
  \cup bad1((e.op \in PsOps /\ Has(s0.ps, e.id) /\ s0.ps[e.id].tgt.k = "node") =>
              s1.hs = s0.hs /\ s1.disk = s0.disk, "C13 data node")
  \cup bad1((e.op \in {"pclose", "pexit"} /\ ok /\ s0.ps[e.id].open /\ s0.ps[e.id].tgt.k = "path"
             /\ s0.hs[s0.ps[e.id].h].be # "inmem") =>
              /\ s1.disk[s0.ps[e.id].tgt.path].alts = <<s0.hs[s0.ps[e.id].h].t>>
              /\ ~s1.ps[e.id].open, "C13 saves on closing")
  \cup bad1((e.op \in {"pnew", "popen", "penter"} /\ ok) => \A h \in newh :
              LET p == s1.hs[h].path
              IN IF Has(s0.disk, p) /\ p \notin g0.loose THEN s1.hs[h].t = g0.saved[p]
                 ELSE ~Has(s0.disk, p) => s1.hs[h].t = New(s1.hs[h].s), "C13 shows the file")
  (* C14 *)
  \cup bad1((e.op \in {"create", "pnew", "popen", "penter"} /\ ok) => \A h \in newh :
              Has(s0.disk, s1.hs[h].path) \/ \A q \in LeafPaths(s1.hs[h].t) :
                 NodeAt(s1.hs[h].t, q) = (IF Soc(SchemaAt(s1.hs[h].s, q))
                                          THEN Leaf(<<Now(SchemaAt(s1.hs[h].s, q))>>) ELSE Leaf(<<>>)),
              "C14 set on creation")
  \cup bad1((e.op \in {"set", "clr", "save", "drop", "idxset", "rsz", "setattr", "setitem", "pclose", "pexit"}) =>
              \A h \in DOMAIN s1.hs : \A q \in LeafPaths(s1.hs[h].t) :
                 IsNow(NodeAt(s1.hs[h].t, q)) => IsNow(NodeAt(s0.hs[h].t, q)), "C14 only on creation")
  (* C15 *)
  \cup bad1(e.op \in {"setattr", "setitem"} => o = {"ResetSubnodeError"} /\ s1 = s0, "C15 direct assignment")
  \cup bad1(e.op = "repunk" => fails, "C15 undeclared field")
  (* C18 *)
  \cup bad1((e.op = "idxset" /\ ok) =>
              /\ at1.v[1].s = at0.v[1].s
              /\ LET off == Seq2Set(SelOffsets(at0.v[1].s, e.key))
                 IN \A i \in 1..Len(at0.v[1].c) : (i - 1) \notin off => at1.v[1].c[i] = at0.v[1].c[i]
              /\ LET sel == Indexed(at1.v[1], e.key)
                 IN \A i \in 1..Len(sel.c) : sel.c[i] = (IF Len(e.v.c) = 1 THEN e.v.c[1] ELSE e.v.c[i]),
              "C18 index assignment")
  \cup bad1((e.op = "rsz" /\ ok) =>
              /\ at1.v[1].s = e.size /\ Len(at1.v[1].c) = Prod(e.size)
              /\ \A i \in 1..Len(at1.v[1].c) :
                   LET ix == Unflat(i - 1, e.size)
                       key == [d \in 1..Len(ix) |-> [k |-> "i", i |-> ix[d]]]
                   IN at1.v[1].c[i] = (IF KeyFits(at0.v[1].s, key) THEN Indexed(at0.v[1], key).c[1] ELSE e.zero),
              "C18 resizing")
  (* C19 *)
  \cup bad1(e.op \in {"create", "cfrom", "load"} =>
              (o = {"AutodetectBackendError"} <=> e.be = "" /\ Detect(e.pc) = ""), "C19 detection")
  \cup bad1((e.op \in {"create", "cfrom", "load"} /\ ok) =>
              s1.hs[e.h].be = (IF e.be = "" THEN Detect(e.pc) ELSE e.be), "C19 backend")
  \cup UNION {TreeLaws(s1.hs[h].s, s1.hs[h].t) : h \in {x \in DOMAIN s1.hs :
                 ~Has(s0.hs, x) \/ s0.hs[x].t # s1.hs[x].t}}

----------------------------------------------------------------------------
Ghost(s0, g0, e, o, s1) ==
  LET ok == o = {"ok"}
      mine == CASE e.op = "save" /\ ok -> {<<s0.hs[e.h].path, e.h>>}
                [] e.op \in {"pclose", "pexit"} /\ ok /\ s0.ps[e.id].open /\ s0.ps[e.id].tgt.k = "path"
                   /\ s0.hs[s0.ps[e.id].h].be # "inmem" -> {<<s0.ps[e.id].tgt.path, s0.ps[e.id].h>>}
                [] OTHER -> {}
      made == DOMAIN s1.disk \ (DOMAIN s0.disk \cup {x[1] : x \in mine})
      tree(p) == IF \E x \in mine : x[1] = p THEN s0.hs[(CHOOSE x \in mine : x[1] = p)[2]].t
                 ELSE IF p \in made THEN s1.disk[p].alts[1] ELSE g0.saved[p]
      schema(p) == IF \E x \in mine : x[1] = p THEN s0.hs[(CHOOSE x \in mine : x[1] = p)[2]].s
                   ELSE IF p \in made THEN s1.disk[p].s ELSE g0.sch[p]
      dom == DOMAIN s1.disk
  IN [saved |-> [p \in dom |-> tree(p)], sch |-> [p \in dom |-> schema(p)],
      loose |-> (g0.loose \ {x[1] : x \in mine}) \cup {p \in dom : Len(s1.disk[p].alts) # 1}
                \cup {p \in dom : Has(s0.disk, p) /\ s0.disk[p].alts # s1.disk[p].alts
                                  /\ p \notin {x[1] : x \in mine}}]

Init == /\ st = InitState
        /\ g = [saved |-> NoFun, sch |-> NoFun, loose |-> {}]
        /\ bad = {}

FP(s) == <<TLCFP(s), TLCFP(<<s, 1>>)>>

Do(i) ==
  LET e == Events[i]
  IN /\ Enabled(st, e) = TRUE    \* a value, not an action
     /\ LET q == Alts(st, e, HashOf)
        IN \E k \in 1..Len(q) :
             /\ ~q[k].wild
             /\ LET s1 == SettleFiles(st, q[k].st)
                IN /\ st' = s1
                   /\ bad' = Broken(st, g, e, q[k].outs, s1)
                   /\ g' = Ghost(st, g, e, q[k].outs, s1)
                   /\ PrintT("@E " \o ToString(FP(st)) \o " " \o ToString(i) \o " " \o ToString(FP(s1)))

Next == \E i \in 1..Len(Events) : Do(i)
Spec == Init /\ [][Next]_vars
Bound == TLCGet("level") <= Scenario.depth
PropertiesHold == bad = {}
=============================================================================
