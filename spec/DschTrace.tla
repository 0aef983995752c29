------------------------------ MODULE DschTrace -----------------------------
(***************************************************************************)
(* Trace validation: are recorded executions of dsch behaviours of the     *)
(* specification?                                                          *)
(*                                                                         *)
(* The batch (a JSON file named by the environment variable BATCH) holds   *)
(*   schemas  [sc |-> schema, j |-> canonical text, h |-> SHA-256 of j]    *)
(*   traces   [id, tags, ev]                                               *)
(* An event holds the operation with its arguments (see DschOps) and       *)
(*   out   [o, p, cause]  outcome: "ok" or the exception                   *)
(*   obs   the storages that changed or were opened: [h, o |-> tree]; each *)
(*         node of the tree with its emptiness e and completeness c        *)
(*   open  names of all open storages                                      *)
(*   ls, dch   files in the directory; files whose content changed         *)
(*   pso   state of the PseudoStorages                                     *)
(*   res   results of observers                                            *)
(*   t0,t1 time before and after the operation                             *)
(* Every initial state is one trace.  Each step applies Alts to the state  *)
(* before, compares the result with the observation, reports each          *)
(* violated clause together with the properties it belongs to, and goes on *)
(* from the observed state, so that later events are judged as well.       *)
(***************************************************************************)
EXTENDS DschOps, DschLayout, Json, IOUtils

Batch == JsonDeserialize(IOEnv.BATCH)
StrictBatch == Batch.strict
Schemas == Batch.schemas
Traces == Batch.traces

HashTab == [j \in {Schemas[i].j : i \in 1..Len(Schemas)} |->
              Schemas[CHOOSE i \in 1..Len(Schemas) : Schemas[i].j = j].h]
HashOf(s) == LET j == Text(s) IN IF j \in DOMAIN HashTab THEN HashTab[j] ELSE ""
(* the harness describes schemas correctly (checked once) *)
ASSUME TextsAgree == \A i \in 1..Len(Schemas) :
         \/ Text(Schemas[i].sc) = Schemas[i].j
         \/ PrintT(<<"HARNESS-SCHEMA", i, Text(Schemas[i].sc), Schemas[i].j>>) /\ FALSE

VARIABLES tr, l, st, halt,
          mem       \* content of files when it was looked at last, until an operation that may change it
vars == <<tr, l, st, halt, mem>>

----------------------------------------------------------------------------
Resolve(e) ==
  LET e1 == IF Has(e, "s") THEN [e EXCEPT !.s = Schemas[e.s].sc] ELSE e
  IN IF Has(e1, "rs") /\ e1.rs # <<>> THEN [e1 EXCEPT !.rs = <<Schemas[e.rs[1]].sc>>] ELSE e1

RECURSIVE ToTree(_)
ToTree(o) == CASE o.k = "i" -> [k |-> "i", v |-> o.v]
               [] o.k \in {"c", "l"} -> [k |-> o.k, x |-> [i \in 1..Len(o.x) |-> ToTree(o.x[i])]]
               [] OTHER -> [k |-> o.k]

ObsIdx(e, h) == {i \in 1..Len(e.obs) : e.obs[i].h = h}
ObsTree(e, s0, h) ==
  IF ObsIdx(e, h) # {} THEN ToTree(e.obs[CHOOSE i \in ObsIdx(e, h) : TRUE].o)
  ELSE IF Has(s0.hs, h) THEN s0.hs[h].t ELSE [k |-> "x"]

OutIn(outs, o) ==
  \/ o \in outs
  \/ "ERR" \in outs /\ o \notin {"ok", "Timeout"}
  \/ "VERR" \in outs /\ o \in {"ValidationError", "SubnodeValidationError"}

(* emptiness and completeness as reported by the nodes *)
RECURSIVE FlagsOK(_, _)
FlagsOK(s, o) ==
  /\ o.e = Empty(ToTree(o))
  /\ o.c = Complete(s, ToTree(o))
  /\ o.k # "i" => \A i \in 1..Len(o.x) : FlagsOK(SubSchema(s, i), o.x[i])
RECURSIVE ExtraFields(_)
ExtraFields(o) == \/ o.k = "c" /\ o.n # <<>>
                  \/ o.k \in {"c", "l"} /\ \E i \in 1..Len(o.x) : ExtraFields(o.x[i])

(* description of a node for the report *)
RECURSIVE PathIn(_, _)
PathIn(s, q) == \/ q = <<>>
                \/ /\ ~IsLeaf(s)
                   /\ (s.t = "Compilation" => Head(q) \in 1..Len(s.f))
                   /\ PathIn(SubSchema(s, Head(q)), Tail(q))
RECURSIVE InList(_, _)
InList(s, q) == s.t = "List" \/ (q # <<>> /\ InList(SubSchema(s, Head(q)), Tail(q)))
RECURSIVE HasSoc(_)
HasSoc(s) == CASE s.t = "Compilation" -> \E i \in 1..Len(s.f) : HasSoc(s.f[i].s)
               [] s.t = "List" -> HasSoc(s.sub)
               [] s.t \in {"Date", "DateTime", "Time"} -> s.soc
               [] OTHER -> FALSE

If(b, set) == IF b THEN set ELSE {}

----------------------------------------------------------------------------
(* Which properties a violated clause belongs to.                          *)
ValErr == {"ValidationError", "SubnodeValidationError"}

IsPs(s0, h) == \E id \in DOMAIN s0.ps : s0.ps[id].h = h /\ s0.ps[id].tgt.k = "path"

DschErrors == {"AutodetectBackendError", "IncompatibleNodesError", "InvalidSchemaError", "NodeEmptyError",
               "ResetSubnodeError", "SubnodeValidationError", "ValidationError", "DschError"}

OutProps(s0, e, exp, tags) ==
  LET got == e.out.o
      any(o) == o \in exp \/ got = o
      f == IF Has(e, "path") /\ Has(s0.disk, e.path) THEN s0.disk[e.path]
           ELSE [org |-> "none", alts |-> <<>>, s |-> [t |-> "Bool"]]
      inv == \E i \in 1..Len(f.alts) : Problems(f.s, f.alts[i]) # {}
      node == IF Has(e, "p") /\ Has(e, "h") THEN SchemaAt(s0.hs[e.h].s, e.p) ELSE [t |-> ""]
  IN If(exp \cap DschErrors # {} /\ got \notin DschErrors \cup {"ok", "Timeout"}, {"C21"}) \cup
     If("VERR" \in exp /\ got \notin DschErrors \cup {"ok", "Timeout"}, {"C21"}) \cup
     CASE e.op \in {"create", "cfrom"} ->
            If(any("FileExistsError") \/ e.nod, {"C12"})
            \cup If(any("AutodetectBackendError") \/ e.be # "" \/ any("ValueError"), {"C19"})
            \cup If(e.op = "cfrom", {"C10"})
            \cup If(e.op = "create" /\ exp = {"ok"} /\ got # "FileExistsError", {"C01", "C11", "C19"})
            \cup If(e.op = "create" /\ exp = {"ok"} /\ HasSoc(e.s), {"C14"})
       [] e.op = "load" ->
            If(any("FileNotFoundError"), {"C12"})
            \cup If(any("AutodetectBackendError") \/ e.be # "", {"C19"})
            \cup If(any("InvalidSchemaError"), {"C07"})
            \cup If(got \in ValErr \/ inv, {"C05"})
            \cup If("VERR" \in exp, {"C05", "C04"})
            \cup If(exp = {"ok"}, {"C01", "C11"} \cup If(f.org # "dsch", {"C17"})
                                    \cup If(HasSoc(f.s), {"C14"}) \cup If(inv, {"C05"})
                                    \cup If(InList(f.s, <<>>), {"C09"})
                                    \cup If("select" \in tags, {"C19"}))
       [] e.op = "save" ->
            If(e.nod \/ exp = {"ERR"}, {"C12"})
            \cup If(exp = {"ok"}, {"C01", "C11"} \cup If(InList(s0.hs[e.h].s, <<>>), {"C09"}))
            \cup If(got \in ValErr \/ exp \notin {{"ok"}, {"ERR"}}, {"C05", "C04"})
       [] e.op \in {"set", "rep"} ->
            {"C02", "C11"} \cup If(node.t = "List" \/ InList(node, <<>>), {"C09"})
            \cup If(Has(e, "via") /\ e.via = "dtree", {"C16"})
       [] e.op = "clr" -> {"C02", "C11"} \cup If(node.t = "List", {"C09"})
       [] e.op = "app" -> {"C09", "C11"} \cup If(HasSoc(node), {"C14"})
       [] e.op = "lfrom" -> {"C10"}
       [] e.op \in {"setattr", "setitem", "repunk"} -> {"C15"}
       [] e.op \in {"idxset", "rsz"} -> {"C18", "C11"}
       [] e.op \in {"pnew", "popen", "penter"} ->
            {"C13"} \cup If(any("InvalidSchemaError"), {"C07"}) \cup If(any("AutodetectBackendError"), {"C19"})
                    \cup If(got \in ValErr \/ "VERR" \in exp, {"C05"}) \cup If(exp = {"ERR"}, {"C12"})
       [] e.op \in {"pclose", "pexit"} -> {"C13"} \cup If(exp # {"ok"} \/ got \in ValErr, {"C05"})
       [] OTHER -> {"C11"}

Mutators == {"set", "rep", "clr", "app", "lfrom", "repunk", "setattr", "setitem", "idxset", "rsz"}

(* a difference at path q of storage h (schema s) *)
TreeProps(s0, e, s, h, q, tags) ==
  LET ok == PathIn(s, q)
      ty == IF ok THEN SchemaAt(s, q).t ELSE ""
      soc == ok /\ HasSoc(SchemaAt(s, q))
      inl == ok /\ InList(s, q)
      date == ty \in {"Date", "DateTime", "Time"}
      target == Has(e, "h") /\ e.h = h
      f == IF Has(e, "path") /\ Has(s0.disk, e.path) THEN s0.disk[e.path]
           ELSE [org |-> "none", alts |-> <<>>, s |-> [t |-> "Bool"]]
      inv == \E i \in 1..Len(f.alts) : Problems(f.s, f.alts[i]) # {}
      below == Has(e, "p") /\ IsPrefix2(e.p, q)
  IN CASE e.op = "create" /\ target -> {"C14", "C11"}
       [] e.op = "cfrom" -> {"C10"} \cup If(soc, {"C14"}) \cup If(~target, {"C02"})
       [] e.op = "load" /\ target ->
            {"C01", "C11"} \cup If(inl, {"C09"}) \cup If(soc \/ date, {"C14"}) \cup If(inv, {"C05"})
            \cup If(ty = "Array" /\ "arrops" \in tags, {"C18"})
            \cup If("noevents" \in tags, {"C12"})
            \cup If(f.org \notin {"dsch", "none"}, {"C17"}) \cup If("strict" \in tags, {"C05"})
            \cup If("ps" \in tags, {"C13"})
       [] e.op \in {"pnew", "popen", "penter"} -> {"C13", "C01", "C11"} \cup If(soc, {"C14"})
       [] e.op \in {"pclose", "pexit"} -> {"C13"}
       [] e.op \in Mutators /\ ~target -> {"C02", "C10"}
       [] e.op \in Mutators /\ ~below -> {"C02"} \cup If(inl, {"C09"}) \cup If(soc, {"C14"})
                                         \cup If(e.op = "lfrom", {"C10"})
                                         \cup If(e.op \in {"idxset", "rsz"}, {"C18"})
                                         \cup If(e.op \in {"setattr", "setitem", "repunk"}, {"C15"})
       [] e.op = "set" -> {"C02", "C11"}
       [] e.op = "rep" -> {"C02", "C11"} \cup If(inl, {"C09"}) \cup If(soc, {"C14"})
                          \cup If(Has(e, "via") /\ e.via = "dtree", {"C16"})
       [] e.op = "clr" -> {"C02", "C11"} \cup If(inl, {"C09"}) \cup If(soc, {"C14"})
       [] e.op = "app" -> {"C09", "C11"} \cup If(soc, {"C14"})
       [] e.op = "lfrom" -> {"C10"} \cup If(inl, {"C09"}) \cup If(soc, {"C14"})
       [] e.op \in {"setattr", "setitem", "repunk"} -> {"C15"}
       [] e.op \in {"idxset", "rsz"} -> {"C18", "C11"}
       [] e.op = "save" -> {"C01", "C02"} \cup If(soc, {"C14"}) \cup If(inl, {"C09"})
       [] e.op = "val" -> {"C02", "C04"} \cup If(soc, {"C14"})
       [] e.op = "dtree" -> {"C16", "C02"} \cup If(soc, {"C14"})
       [] e.op = "idx" -> {"C18", "C02"} \cup If(soc, {"C14"})
       [] e.op = "ptree" -> {"C20", "C02"} \cup If(soc, {"C14"})
       [] e.op = "len" -> {"C09", "C02"} \cup If(soc, {"C14"})
       [] OTHER -> {"C02"} \cup If(soc, {"C14"})

----------------------------------------------------------------------------
(* Results of observers: the set of violated clauses [c, ps].              *)
(* positions of the items that an index or a slice selects *)
ItemsAt(n, k) == IF ~KeyFits(<<n>>, <<k>>) THEN <<-1>>
                 ELSE [j \in 1..SelCount(n, k) |-> SelPos(n, k, j) + 1]

RECURSIVE MatchSome(_, _, _)
MatchSome(alts, t, i) == i <= Len(alts) /\ (Match(alts[i], t, <<>>, <<>>) \/ MatchSome(alts, t, i + 1))

ResClauses(s0, e) ==
  LET out == e.out
      hd == s0.hs[e.h]
      bad(b, c, ps) == If(b, {[c |-> c, ps |-> ps]})
  IN CASE e.op = "val" ->
            LET pr == ProblemsAt(hd.s, hd.t, e.p)
            IN bad(~VerdictOK(pr, out), "validate",
                   {"C04", "C11"} \cup If(IsLeaf(SchemaAt(hd.s, e.p)), {"C03"})
                   \cup If(out.o \notin DschErrors \cup {"ok", "Timeout"}, {"C21"})
                   \cup If(out.o \in ValErr /\ pr # {}, {"C21"}))
       [] e.op = "chk" ->
            IF out.o # "ok" THEN {[c |-> "check", ps |-> {"C08", "C06"}]}
            ELSE bad(e.res.c # Complete(hd.s, hd.t), "storage-complete", {"C08"})
                 \cup bad(e.res.h # HashOf(hd.s), "storage-hash", {"C06", "C01"})
                 \cup bad(e.res.j # Text(hd.s), "storage-schema", {"C06", "C01"})
       [] e.op = "dtree" ->
            bad(out.o # "ok" \/ e.res # Export(SchemaAt(hd.s, e.p), NodeAt(hd.t, e.p), e.inc),
                "export", {"C16", "C11"})
       [] e.op = "idx" ->
            LET n == NodeAt(hd.t, e.p)
            IN IF n.v = <<>> \/ n.v[1].t # "arr" THEN bad(out.o = "ok", "index-empty", {"C18"})
               ELSE IF ~KeyFits(n.v[1].s, e.key) THEN bad(out.o \in {"ok", "Timeout"}, "index-range", {"C18"})
               ELSE bad(out.o # "ok" \/ e.res # Indexed(n.v[1], e.key), "index", {"C18", "C11"})
       [] e.op = "len" ->
            LET n == NodeAt(hd.t, e.p)
            IN bad(out.o # "ok" \/ e.res.n # Len(n.x)
                   \/ [i \in 1..Len(e.res.it) |-> ToTree(e.res.it[i])] # n.x, "length", {"C09", "C11"})
               \cup bad(out.o = "ok" /\ e.res.sel # [i \in 1..Len(e.keys) |-> ItemsAt(Len(n.x), e.keys[i])],
                        "items", {"C09"})
       [] e.op = "ptree" ->
            LET s == SchemaAt(hd.s, e.p)
            IN IF out.o # "ok" THEN {[c |-> "printing", ps |-> {"C20"}]}
               ELSE bad(Len(e.res.tree) # 1 \/ ~PrintedOK(s, NodeAt(hd.t, e.p), e.tx, "", e.res.tree[1]),
                        "printed-tree", {"C20"})
                    \cup bad(~LinesOK(e.res), "printed-lines", {"C20"})
       [] e.op = "links" ->
            bad(out.o # "ok" \/ ~LinksOK(SchemaAt(hd.s, e.p), NodeAt(hd.t, e.p), e.res), "links", {"C15"})
       [] e.op = "svalid" ->
            LET ok == IF e.s.t = "List" THEN InLength(e.s, e.v.n)
                      ELSE ValidValue(e.s, e.v) /\ (e.s.t = "Array" => DepFits(e.v, e.ind))
            IN bad(out.o # (IF ok THEN "ok" ELSE "ValidationError"), "verdict", {"C03"}
                   \cup If(e.s.t = "Array" /\ e.ind # <<>>, {"C04"})
                   \cup If(~ok /\ out.o \notin DschErrors \cup {"ok", "Timeout"}, {"C21"}))
       [] e.op = "sch" ->
            IF out.o # "ok" THEN {[c |-> "schema-json", ps |-> {"C06"}]}
            ELSE bad(e.res.j # Text(e.s), "schema-text", {"C06"})
                 \cup bad(e.res.h # HashOf(e.s), "schema-hash", {"C06"})
                 \cup bad(e.res.rj # Text(e.s) \/ e.res.rh # HashOf(e.s), "schema-restored", {"C06"})
                 \cup bad(~e.res.req \/ ~e.res.rqe \/ e.res.oth, "schema-equality", {"C06"})
       [] e.op = "scheq" ->
            LET same == SameSchema(e.s, Schemas[e.s2].sc)
            IN bad(out.o # "ok" \/ e.res.ne = e.res.eq \/ e.res.heq # same
                   \/ (e.res.eq # same /\ ~Unclear(e.s, Schemas[e.s2].sc)),
                   "schema-compare", {"C06"})
       [] e.op = "sctor" ->
            bad(out.o # (IF CtorOK(e.sr) THEN "ok" ELSE "ValueError"), "constructor", {"C06"})
       [] e.op = "probe" ->
            LET f == s0.disk[e.path]
            IN IF f.dirty \/ f.alts = <<>> THEN {}
               ELSE bad(out.o # "ok", "saved-unreadable", {"C01", "C05", "C13"})
                    \cup If(out.o = "ok",
                         bad(e.res.j # Text(f.s), "saved-schema", {"C01", "C06"})
                         \cup bad(e.res.o.k \in {"c", "l", "i"} /\ Conforms(f.s, ToTree(e.res.o)) /\ ~FlagsOK(f.s, e.res.o),
                                  "saved-flags", {"C08"})
                         \cup bad(~MatchSome(f.alts, ToTree(e.res.o), 1), "saved-data",
                                  {"C01", "C05"} \cup If("ps" \in Seq2Set(e.why), {"C13"})
                                  \cup If("fail" \in Seq2Set(e.why), {"C12"})
                                  \cup If("arr" \in Seq2Set(e.why), {"C18"})
                                  \cup If(InList(f.s, <<>>), {"C09"})
                                  \cup If(HasSoc(f.s), {"C14"})))
       [] e.op = "raw" ->
            LET f == s0.disk[e.path]
            IN IF f.dirty \/ Len(f.alts) # 1 THEN {}
               ELSE bad(out.o # "ok", "raw-unreadable", {"C17"})
                    \cup If(out.o = "ok",
                         bad(e.res.j # Text(f.s), "raw-schema", {"C17", "C06"})
                         \cup bad(Seq2Set(e.res.kv) # Layout(f.be, f.s, f.alts[1]), "raw-layout", {"C17"}))
       [] e.op = "sig" ->
            bad(e.res.g # (IF Has(s0.disk, e.path) THEN s0.disk[e.path].be ELSE "none"), "signature", {"C19", "C12"})
       [] e.op = "prep" -> {[c |-> "preparation", ps |-> {"C06", "C03", "C01", "C11"}]}
       [] e.op = "sync" ->
            bad(\E i \in 2..Len(e.hs) : s0.hs[e.hs[i]].t # s0.hs[e.hs[1]].t, "sync-data", {"C11"})
            \cup bad(\E i \in 2..Len(e.outs) : e.outs[i] # e.outs[1], "sync-outcome", {"C11"})
            \cup bad(\E i \in 2..Len(e.fl) : e.fl[i] # e.fl[1], "sync-flags", {"C11"})
       [] OTHER -> {}

----------------------------------------------------------------------------
(* What errors tell.                                                       *)
ProblemsR2(v) == {[p |-> PathText(v.s, q.p), c |-> q.c] : q \in ProblemsR(v.s, v.t, <<>>, v.top)}

(* the trees that an operation validates: [s, t, top] *)
Validated(s0, e) ==
  LET of(h, p) ==
        LET hd == s0.hs[h]
            up == SubSeq(p, 1, Len(p) - 1)
        IN [s |-> SchemaAt(hd.s, p), t |-> NodeAt(hd.t, p),
            top |-> IF p # <<>> /\ SchemaAt(hd.s, up).t = "Compilation"
                    THEN <<SchemaAt(hd.s, up), NodeAt(hd.t, up)>> ELSE <<>>]
  IN CASE e.op = "val" -> {of(e.h, e.p)}
       [] e.op = "save" -> {of(e.h, <<>>)}
       [] e.op \in {"pclose", "pexit"} /\ Has(s0.hs, s0.ps[e.id].h) -> {of(s0.ps[e.id].h, <<>>)}
       [] e.op \in {"load", "pnew", "popen", "penter"} /\ Has(e, "path") /\ Has(s0.disk, e.path) ->
            LET f == s0.disk[e.path]
            IN {[s |-> f.s, t |-> f.alts[i], top |-> <<>>] : i \in 1..Len(f.alts)}
       [] OTHER -> {}

Telling(s0, e) ==
  LET out == e.out
      x == out.x
      want == CASE e.op = "load" ->
                     {<<HashOf(e.rs[i]), HashOf(s0.disk[e.path].s)>> : i \in 1..Len(e.rs)}
                     \cup {<<e.rh[i], HashOf(s0.disk[e.path].s)>> : i \in 1..Len(e.rh)}
                [] e.op = "lfrom" ->
                     LET a == HashOf(SchemaAt(s0.hs[e.h].s, e.p))
                         b == HashOf(SchemaAt(s0.hs[e.src].s, e.sp))
                     IN {<<a, b>>, <<b, a>>}
                [] e.op \in {"pnew", "popen", "penter"} ->
                     LET main == IF e.op = "pnew" THEN e.s ELSE s0.ps[e.id].s
                         tgt == IF e.op = "pnew" THEN e.tgt ELSE s0.ps[e.id].tgt
                         got == IF tgt.k = "node" THEN SchemaAt(s0.hs[tgt.h].s, tgt.p) ELSE s0.disk[tgt.path].s
                     IN {<<HashOf(main), HashOf(got)>>}
                [] OTHER -> {}
      trees == Validated(s0, e)
      bad(b, c, ps) == If(b, {[c |-> c, ps |-> ps]})
  IN IF out.o \notin DschErrors THEN {}
     ELSE bad(~Has(out, "x") \/ ~out.x.dsch, "error-class", {"C21"})
          \cup (IF ~Has(out, "x") THEN {} ELSE
               bad(~x.msg, "error-text", {"C21"})
               \cup bad(out.o \in {"InvalidSchemaError", "IncompatibleNodesError"} /\ want # {} /\ x.hs \notin want,
                        "error-hashes", {"C21"} \cup If(out.o = "InvalidSchemaError", {"C07"}))
               \cup (IF out.o \notin ValErr \/ ~Has(x, "exp") THEN {} ELSE
                    bad(e.op = "svalid" /\ ~(IF e.s.t = "List" THEN LengthExplains(e.s, e.v.n, x.exp, x.got)
                                             ELSE Explains(e.s, e.v, e.ind, x.exp, x.got)),
                        "explanation", {"C21"})
                    \cup bad(e.op # "val" /\ trees # {} /\ \A v \in trees : ~VerdictOK(ProblemsR2(v), out),
                             "named-node", {"C04", "C21"})
                    \cup bad(trees # {} /\ \A v \in trees : ~TellsTruth(v.s, v.t, v.top, out.p, x.exp, x.got),
                             "explanation", {"C21"})))

----------------------------------------------------------------------------
PsClauses(s1, e) ==
  UNION { LET o == e.pso[i]
          IN IF ~Has(s1.ps, o.id) THEN {[c |-> "ps-exists", ps |-> {"C13"}]}
             ELSE LET p == s1.ps[o.id]
                      isopen == p.open
                      sn == IF isopen THEN Text(PsSchema(s1, p)) ELSE ""
                  IN If(o.d # isopen \/ o.st # (isopen /\ p.tgt.k = "path"),
                        {[c |-> "ps-data", ps |-> {"C13"}]})
                     \cup If(o.sn # sn, {[c |-> "ps-schema", ps |-> {"C07", "C13"}]})
                     \cup If(isopen /\ ~o.same, {[c |-> "ps-node", ps |-> {"C13"}]})
        : i \in 1..Len(e.pso) }

(* Files an operation may change. *)
MayChange(s0, s1, e) ==
  {s0.hs[h].path : h \in {x \in DOMAIN s0.hs : s0.hs[x].be = "hdf5"}}
  \cup {s1.hs[h].path : h \in {x \in DOMAIN s1.hs : s1.hs[x].be = "hdf5"}}
  \cup {p \in DOMAIN s1.disk : s1.disk[p].from # ""}
  \cup If(e.op = "load" /\ Has(s0.disk, e.path) /\ s0.disk[e.path].be = "hdf5", {e.path})
  \cup If(e.op \in {"pnew", "popen", "penter"} /\ Has(e, "path") /\ Has(s0.disk, e.path)
          /\ s0.disk[e.path].be = "hdf5", {e.path})
  \cup If(e.op \in {"pclose", "pexit"} /\ e.out.o = "ok",
          {s0.hs[h].path : h \in DOMAIN s0.hs \ DOMAIN s1.hs})
  \cup If(e.op = "foreign", {e.path})

Settle(s0, s1, e) ==
  SettleFiles(s0, [s1 EXCEPT !.hs = [h \in DOMAIN s1.hs |-> [s1.hs[h] EXCEPT !.t = ObsTree(e, s0, h)]]])

Report(t, n, e, m) == PrintT("@MM " \o ToJson([tr |-> Traces[t].id, n |-> n, op |-> e.op, c |-> m.c,
                                              ps |-> m.ps, info |-> m.info]))

Judge(s0, e, tags) ==
  LET q == Alts(s0, e, HashOf)
      wild == \E i \in 1..Len(q) : q[i].wild
      openset == Seq2Set(e.open)
      trees == [h \in openset |-> ObsTree(e, s0, h)]
      outok == {i \in 1..Len(q) : OutIn(q[i].outs, e.out.o)}
      hsok == {i \in outok : DOMAIN q[i].st.hs = openset}
      full == {i \in hsok : \A h \in openset : Match(q[i].st.hs[h].t, trees[h], e.t0, e.t1)}
      pick(S) == CHOOSE i \in S : \A j \in S : i <= j
      exp == UNION {q[i].outs : i \in 1..Len(q)}
      mm0 ==
        IF wild \/ full # {} THEN {}
        ELSE IF outok = {}
             THEN {[c |-> "outcome", ps |-> OutProps(s0, e, exp, tags), info |-> <<e.out.o, exp>>]}
        ELSE IF hsok = {} THEN {[c |-> "open-storages", ps |-> {"C13"}, info |-> <<>>]}
        ELSE LET a == q[pick(hsok)].st
             IN { [c |-> "data", ps |-> TreeProps(s0, e, a.hs[d[1]].s, d[1], d[2], tags),
                   info |-> <<d[1], d[2]>>]
                  : d \in UNION { {<<h, x>> : x \in Diff(a.hs[h].t, trees[h], <<>>, e.t0, e.t1)}
                                  : h \in openset } }
      base == IF full # {} THEN q[pick(full)].st
              ELSE IF hsok # {} THEN q[pick(hsok)].st
              ELSE s0
      conf == DOMAIN base.hs = openset
              /\ \A h \in openset : Conforms(base.hs[h].s, trees[h])
      stop == wild \/ ~conf
      s1 == IF stop THEN s0 ELSE Settle(s0, base, e)
      may == MayChange(s0, base, e)
      lsset == Seq2Set(e.ls)
      lsdiff == ~stop /\ lsset # DOMAIN base.disk
      lsbad == lsdiff /\ outok # {}
      mm ==
        mm0
        \cup (IF ~wild /\ ~conf /\ outok # {} /\ DOMAIN base.hs = openset
              THEN {[c |-> "structure", ps |-> {"C15"} \cup If(e.op = "load", {"C01"})
                      \cup If(e.op \in {"pnew", "popen", "penter"}, {"C13", "C07"}), info |-> <<>>]} ELSE {})
        \cup (IF stop THEN {} ELSE
               { [c |-> "empty-complete", ps |-> {"C08"}, info |-> <<e.obs[i].h>>]
                 : i \in {j \in 1..Len(e.obs) : ~FlagsOK(base.hs[e.obs[j].h].s, e.obs[j].o)} }
               \cup { [c |-> "extra-fields", ps |-> {"C15"}, info |-> <<e.obs[i].h>>]
                 : i \in {j \in 1..Len(e.obs) : ExtraFields(e.obs[j].o)} }
               \cup { [c |-> m.c, ps |-> m.ps, info |-> <<e.out.o>>] : m \in ResClauses(s0, e) \cup Telling(s0, e) }
               \cup { [c |-> m.c, ps |-> m.ps, info |-> <<>>] : m \in PsClauses(s1, e) }
               \cup { [c |-> "file-changed", ps |-> {"C12"} \cup If(e.op = "save", {"C05"}) \cup If(e.op = "ptree", {"C20"}), info |-> <<p>>]
                      : p \in {x \in Seq2Set(e.dch) : x \notin may} })
        \cup (IF lsbad THEN {[c |-> "files", ps |-> {"C12"}
                                \cup If(e.op \in {"create", "load", "cfrom"}, {"C19"})
                                \cup If(e.op \in {"pnew", "popen", "penter", "pclose", "pexit"}, {"C13"})
                                \cup If(e.op = "save", {"C05", "C01"}),
                              info |-> <<lsset, DOMAIN base.disk>>]} ELSE {})
  IN [mm |-> mm, st |-> s1, halt |-> stop \/ lsdiff]

----------------------------------------------------------------------------
(* Files whose content an operation is meant to change (if it succeeds).    *)
Writers == {"set", "rep", "clr", "app", "lfrom", "repunk", "setattr", "setitem", "idxset", "rsz", "save"}
Rewritten(s0, e) ==
  If(e.op \in Writers /\ Has(s0.hs, e.h), {s0.hs[e.h].path})
  \cup If(e.op \in {"pclose", "pexit", "foreign", "rm"} /\ Has(e, "path"), {e.path})
  \cup If(e.op \in {"pclose", "pexit"} /\ Has(s0.ps, e.id) /\ s0.ps[e.id].tgt.k = "node" /\ Has(s0.hs, s0.ps[e.id].tgt.h),
          {s0.hs[s0.ps[e.id].tgt.h].path})
Looked(s0, e, m) ==
  IF e.op = "stored"
  THEN IF e.out.o = "ok" THEN [p \in DOMAIN m \cup {e.path} |-> IF p = e.path THEN e.res.d ELSE m[p]]
       ELSE Without(m, e.path)
  ELSE [p \in DOMAIN m \ Rewritten(s0, e) |-> m[p]]

Init == /\ tr \in 1..Len(Traces)
        /\ l = 1 /\ st = InitState /\ halt = FALSE
        /\ mem = <<>>

Next == /\ l <= Len(Traces[tr].ev)
        /\ ~halt
        /\ LET e == Resolve(Traces[tr].ev[l])
               j == Judge(st, e, Seq2Set(Traces[tr].tags))
           IN /\ \A m \in j.mm : Report(tr, l, e, m)
              /\ (e.op = "stored" /\ Has(mem, e.path) /\ (e.out.o # "ok" \/ e.res.d # mem[e.path]))
                   => Report(tr, l, e, [c |-> "content-changed", ps |-> {"C12"}, info |-> <<e.path>>])
              /\ mem' = Looked(st, e, mem)
              /\ st' = j.st
              /\ halt' = j.halt
              /\ (j.halt /\ l < Len(Traces[tr].ev)) => PrintT("@HALT " \o ToJson([tr |-> Traces[tr].id, n |-> l]))
        /\ l' = l + 1
        /\ UNCHANGED tr

Spec == Init /\ [][Next]_vars
StateView == <<tr, l, halt>>
=============================================================================
