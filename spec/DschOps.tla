------------------------------ MODULE DschOps -------------------------------
(***************************************************************************)
(* The public operations of dsch as transitions of an abstract state       *)
(*   hs    open storages: name -> [be, path, s, t]                         *)
(*   disk  files: path -> [be, s, alts, from, dirty, org]                  *)
(*           alts   the possible contents (data trees); more than one only *)
(*                  after the deviation Hdf5WriteThrough, see below        *)
(*           from   storage that is just writing the file ("" otherwise):  *)
(*                  the content is that storage's tree after the step      *)
(*           dirty  an open HDF5 storage is new or was changed since the   *)
(*                  last save                                              *)
(*           org    how the file came about (dsch, raw, golden, garbage)   *)
(*           be     "dir" for a directory (with org garbage)               *)
(*   ps    PseudoStorages: id -> [tgt, s, acc, open, h]                    *)
(*                                                                         *)
(* Alts(st, e) is the sequence of allowed results of operation e in state  *)
(* st, each [outs, st]: the set of allowed outcomes ("ok" or exception     *)
(* names) and the next state.  "ERR" stands for any exception, "VERR" for  *)
(* the errors of a failed validation.  [wild |-> TRUE] leaves the result   *)
(* open.  The operators are used by the bounded model (Dsch), to generate  *)
(* behaviours, and by the trace specification (DschTrace).                 *)
(***************************************************************************)
EXTENDS DschLayout

NoFun == [x \in {} |-> {}]
Has(f, k) == k \in DOMAIN f
With(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Without(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
InitState == [hs |-> NoFun, disk |-> NoFun, ps |-> NoFun]


(* Backend selection by the ending of the path (character codes).          *)
EndsWith(q, s) == Len(q) >= Len(s) /\ SubSeq(q, Len(q) - Len(s) + 1, Len(q)) = s
DotNpz  == <<46, 110, 112, 122>>
DotH5   == <<46, 104, 53>>
DotHdf5 == <<46, 104, 100, 102, 53>>
DotMat  == <<46, 109, 97, 116>>
InmemPath == <<58, 58, 105, 110, 109, 101, 109, 58, 58>>
Detect(pc) == CASE pc = InmemPath -> "inmem"
                [] EndsWith(pc, DotNpz) -> "npz"
                [] EndsWith(pc, DotH5) \/ EndsWith(pc, DotHdf5) -> "hdf5"
                [] EndsWith(pc, DotMat) -> "mat"
                [] OTHER -> ""
Backend(e) == IF e.be = "" THEN Detect(e.pc) ELSE e.be

Handle(be, path, s, t) == [be |-> be, path |-> path, s |-> s, t |-> t]
SetTree(st, h, t) == [st EXCEPT !.hs[h].t = t]
SetNode(st, h, p, n) == [st EXCEPT !.hs[h].t = Put(@, p, n)]
One(outs, st) == <<[outs |-> outs, st |-> st, wild |-> FALSE]>>
Fail(outs, st) == One(outs, st)
Wild(st) == <<[outs |-> {"ok", "ERR"}, st |-> st, wild |-> TRUE]>>

(* outcomes of a failing validation *)
VOut(pr) == IF \E q \in pr : q.c = "dep" THEN {"ERR"} ELSE {"VERR"}

File(be, s, h, org) == [be |-> be, s |-> s, alts |-> <<>>, from |-> h, dirty |-> FALSE, org |-> org]

(* The environment may refuse to write: the directory of the path is       *)
(* missing (told by the event), or the path is that of a directory.        *)
Nod(e) == Has(e, "nod") /\ e.nod

(* ---- creating ---------------------------------------------------------- *)
(* t: initial tree *)
CreateAlts(st, e, h, s, t) ==
  LET be == Backend(e)
  IN CASE be = "" -> Fail({"AutodetectBackendError"}, st)
       [] be = "inmem" -> IF e.pc = InmemPath
                          THEN One({"ok"}, [st EXCEPT !.hs = With(@, h, Handle(be, e.path, s, t))])
                          ELSE Fail({"ValueError"}, st)
       [] be \in FileBackends ->
            IF Has(st.disk, e.path) THEN Fail({"FileExistsError"}, st)
            ELSE IF be = "hdf5" /\ Nod(e) THEN Fail({"ERR"}, st)
            ELSE LET st1 == [st EXCEPT !.hs = With(@, h, Handle(be, e.path, s, t))]
                 IN One({"ok"}, IF be = "hdf5"
                                THEN [st1 EXCEPT !.disk = With(@, e.path, [File(be, s, h, "dsch") EXCEPT !.dirty = TRUE])]
                                ELSE st1)
       [] OTHER -> Fail({"ERR"}, st)

Create(st, e) == CreateAlts(st, e, e.h, e.s, New(e.s))

CreateFrom(st, e) ==
  LET src == st.hs[e.src]
      be == Backend(e)
  IN IF be # "" /\ ~TreeExact(be, src.s, src.t) THEN Wild(st)
     ELSE CreateAlts(st, e, e.h, src.s, src.t)

(* ---- loading ----------------------------------------------------------- *)
(* Each possible content that is valid (or any, with force) may be loaded;  *)
(* a failed validation leaves the invalid ones possible.                   *)
LoadContents(st, e, h, f) ==
  LET ok(t) == e.force \/ Problems(f.s, t) = {}
      good == SelectSeq(f.alts, ok)
      evil == SelectSeq(f.alts, LAMBDA t : ~ok(t))
      only(x) == [st EXCEPT !.disk[e.path].alts = x]
  IN [i \in 1..Len(good) |->
        [outs |-> {"ok"}, wild |-> FALSE,
         st |-> [only(<<good[i]>>) EXCEPT !.hs = With(@, h, Handle(f.be, e.path, f.s, good[i]))]]]
     \o IF evil = <<>> THEN <<>>
        ELSE Fail(UNION {VOut(Problems(f.s, evil[i])) : i \in 1..Len(evil)}, only(evil))

(* e: path pc be force rs (<<>> or <<schema>>) rh (<<>> or <<hash>>);      *)
(* hash(s) gives the hash of a schema (known for the schemas in use)       *)
LoadAlts(st, e, h, hash(_)) ==
  LET be == Backend(e)
      f == st.disk[e.path]
  IN CASE be = "" -> Fail({"AutodetectBackendError"}, st)
       [] be = "inmem" -> Fail({"ERR"}, st)
       [] be \notin FileBackends -> Fail({"ERR"}, st)
       [] ~Has(st.disk, e.path) -> Fail({"FileNotFoundError"}, st)
       [] f.org = "garbage" \/ be # f.be -> Fail({"ERR"}, st)
       [] e.rs # <<>> /\ ~SameSchema(e.rs[1], f.s) -> Fail({"InvalidSchemaError"}, st)
       [] e.rh # <<>> /\ e.rh[1] # hash(f.s) -> Fail({"InvalidSchemaError"}, st)
       [] f.dirty \/ f.alts = <<>> -> Wild(st)
       [] OTHER -> LoadContents(st, e, h, f)

(* ---- saving and dropping ----------------------------------------------- *)
Written(st, h) ==
  LET hd == st.hs[h]
  IN [st EXCEPT !.disk = With(@, hd.path, File(hd.be, hd.s, h, "dsch"))]
SaveAlts(st, h, force, nod) ==
  LET hd == st.hs[h]
  IN IF hd.be = "inmem" THEN Fail({"ERR"}, st)
     ELSE IF ~force /\ Problems(hd.s, hd.t) # {} THEN Fail(VOut(Problems(hd.s, hd.t)), st)
     ELSE IF ~TreeStorable(hd.be, hd.s, hd.t) THEN Wild(st)
     ELSE IF nod \/ (Has(st.disk, hd.path) /\ st.disk[hd.path].be = "dir") THEN Fail({"ERR"}, st)
     ELSE One({"ok"}, Written(st, h))

(* Deviation Hdf5WriteThrough: an HDF5 storage works on its file, so that  *)
(* unsaved changes may reach the file when the storage is closed.          *)
Dropped(st, h) ==
  LET hd == st.hs[h]
      st1 == [st EXCEPT !.hs = Without(@, h)]
  IN IF ~Strict /\ hd.be = "hdf5" /\ Has(st.disk, hd.path) /\ st.disk[hd.path].dirty
        /\ st.disk[hd.path].alts # <<hd.t>>
     THEN [st1 EXCEPT !.disk[hd.path].alts = Append(@, hd.t), !.disk[hd.path].dirty = FALSE]
     ELSE IF hd.be = "hdf5" /\ Has(st.disk, hd.path)
     THEN [st1 EXCEPT !.disk[hd.path].dirty = FALSE]
     ELSE st1

(* ---- data nodes --------------------------------------------------------- *)
Assign(st, e) ==       \* value = v, replace(v) of a leaf, Compilation or List
  LET hd == st.hs[e.h]
      s == SchemaAt(hd.s, e.p)
  IN IF ArgExact(hd.be, s, e.v)
     THEN One({"ok"}, SetNode(st, e.h, e.p, Replaced(s, NodeAt(hd.t, e.p), e.v)))
     ELSE <<[outs |-> {"ok", "ERR"}, st |-> SetNode(st, e.h, e.p, Hole), wild |-> FALSE]>>

ClearNode(st, e) ==
  LET hd == st.hs[e.h]
  IN One({"ok"}, SetNode(st, e.h, e.p, Cleared(SchemaAt(hd.s, e.p), NodeAt(hd.t, e.p))))

AppendItem(st, e) ==   \* e.v: <<>> or <<value>>
  LET hd == st.hs[e.h]
      s == SchemaAt(hd.s, e.p)
      l == NodeAt(hd.t, e.p)
      add(n) == [l EXCEPT !.x = Append(@, n)]
  IN IF e.v = <<>> THEN One({"ok"}, SetNode(st, e.h, e.p, add(New(s.sub))))
     ELSE IF ArgExact(hd.be, s.sub, e.v[1])
          THEN One({"ok"}, SetNode(st, e.h, e.p, add(Replaced(s.sub, New(s.sub), e.v[1]))))
          ELSE <<[outs |-> {"ok", "ERR"}, st |-> SetNode(st, e.h, e.p, add(Hole)), wild |-> FALSE],
                 [outs |-> {"ERR"}, st |-> st, wild |-> FALSE]>>

LoadFrom(st, e) ==
  LET hd == st.hs[e.h]  sd == st.hs[e.src]
      s == SchemaAt(hd.s, e.p)  s2 == SchemaAt(sd.s, e.sp)
      n == NodeAt(sd.t, e.sp)
  IN IF ~SameSchema(s, s2) THEN Fail({"IncompatibleNodesError"}, st)
     ELSE IF TreeExact(hd.be, s, n) THEN One({"ok"}, SetNode(st, e.h, e.p, n))
     ELSE <<[outs |-> {"ok", "ERR"}, st |-> SetNode(st, e.h, e.p, Hole), wild |-> FALSE]>>

(* An error in the middle of an assignment leaves the node open, but       *)
(* nothing else.  Undeclared fields are rejected.                          *)
AssignUnknown(st, e) ==
  <<[outs |-> {"ERR"}, st |-> SetNode(st, e.h, e.p, Hole), wild |-> FALSE]>>
DirectAssign(st, e) == Fail({"ResetSubnodeError"}, st)

IndexSet(st, e) ==
  LET hd == st.hs[e.h]
      n == NodeAt(hd.t, e.p)
  IN IF n.v = <<>> \/ n.v[1].t # "arr" THEN Fail({"ERR"}, st)
     ELSE IF ~KeyFits(n.v[1].s, e.key) THEN Fail({"ERR"}, st)
     ELSE One({"ok"}, SetNode(st, e.h, e.p, Leaf(<<IndexAssigned(n.v[1], e.key, e.v)>>)))

Resizable(be, s, size) ==
  be # "hdf5" \/ s.mxs = <<>> \/ Len(s.mxs[1]) = 0
  \/ (s.mxs # s.mns /\ \A i \in 1..Len(size) : s.mxs[1][i] # -1 => size[i] <= s.mxs[1][i])
Resize(st, e) ==
  LET hd == st.hs[e.h]
      s == SchemaAt(hd.s, e.p)
      n == NodeAt(hd.t, e.p)
  IN IF n.v = <<>> \/ n.v[1].t # "arr" THEN Fail({"ERR"}, st)
     ELSE IF Len(e.size) # Len(n.v[1].s) \/ \E i \in 1..Len(e.size) : e.size[i] < 0 THEN Fail({"ERR"}, st)
     ELSE IF ~Resizable(hd.be, s, e.size) THEN Fail({"ERR"}, st)
     ELSE One({"ok"}, SetNode(st, e.h, e.p, Leaf(<<Resized(n.v[1], e.size, e.zero)>>)))

(* ---- PseudoStorage ------------------------------------------------------ *)
(* tgt: [k |-> "path", path, pc] or [k |-> "node", h, p]; acc: hashes of   *)
(* the accepted alternatives; h: name of the storage it opens.             *)
Accepts(p, s, hash(_)) == SameSchema(p.s, s) \/ hash(s) \in p.acc

PsSchema(st, p) == IF p.tgt.k = "node" THEN SchemaAt(st.hs[p.tgt.h].s, p.tgt.p)
                   ELSE st.hs[p.h].s

RECURSIVE Guard(_, _, _)
(* a loaded file is only accepted with the right schema *)
Guard(q, i, bad) == IF i > Len(q) THEN <<>>
  ELSE (IF "ok" \in q[i].outs THEN <<[q[i] EXCEPT !.outs = {"InvalidSchemaError"}, !.st = bad]>>
        ELSE <<[q[i] EXCEPT !.outs = @ \cup {"InvalidSchemaError"}]>>) \o Guard(q, i + 1, bad)

OpenAlts(st, id, p, nod, hash(_)) ==    \* p: the record, st.ps[id] = p on success
  LET st1 == [st EXCEPT !.ps = With(@, id, [p EXCEPT !.open = TRUE])]
      le == [path |-> p.tgt.path, pc |-> p.tgt.pc, be |-> "", force |-> FALSE, rs |-> <<>>, rh |-> <<>>, nod |-> nod]
  IN IF p.tgt.k = "node"
     THEN IF Accepts(p, SchemaAt(st.hs[p.tgt.h].s, p.tgt.p), hash)
          THEN One({"ok"}, st1) ELSE Fail({"InvalidSchemaError"}, st)
     ELSE LET fix(q) == [i \in 1..Len(q) |->
                 IF "ok" \in q[i].outs /\ ~q[i].wild THEN q[i]
                 ELSE [q[i] EXCEPT !.st = [st EXCEPT !.disk = q[i].st.disk]]]
          IN IF Has(st.disk, p.tgt.path)
             THEN LET q == LoadAlts(st1, le, p.h, hash)
                  IN IF st.disk[p.tgt.path].org # "garbage"
                        /\ Detect(p.tgt.pc) = st.disk[p.tgt.path].be
                        /\ ~Accepts(p, st.disk[p.tgt.path].s, hash)
                     THEN fix(Guard(q, 1, st))
                     ELSE fix(q)
             ELSE fix(CreateAlts(st1, le, p.h, p.s, New(p.s)))

PsNew(st, e, hash(_)) ==
  LET p == [tgt |-> e.tgt, s |-> e.s, acc |-> Seq2Set(e.acc), open |-> FALSE, h |-> e.hh]
  IN IF e.defer THEN One({"ok"}, [st EXCEPT !.ps = With(@, e.id, p)])
     ELSE OpenAlts(st, e.id, p, Nod(e), hash)

PsOpen(st, e, hash(_)) ==
  IF st.ps[e.id].open THEN Fail({"RuntimeError"}, st)
  ELSE OpenAlts(st, e.id, st.ps[e.id], Nod(e), hash)

PsEnter(st, e, hash(_)) ==
  IF st.ps[e.id].open THEN One({"ok"}, st)
  ELSE OpenAlts(st, e.id, st.ps[e.id], Nod(e), hash)

PsClose(st, e) ==
  LET p == st.ps[e.id]
      shut(x) == [x EXCEPT !.ps[e.id].open = FALSE]
  IN IF ~p.open \/ p.tgt.k = "node" THEN One({"ok"}, IF p.open THEN shut(st) ELSE st)
     ELSE IF st.hs[p.h].be = "inmem"
          THEN One({"ok"}, shut(Dropped(st, p.h)))
          ELSE LET q == SaveAlts(st, p.h, FALSE, Nod(e))
               IN [i \in 1..Len(q) |->
                     IF "ok" \in q[i].outs /\ ~q[i].wild
                     THEN [q[i] EXCEPT !.st = shut([q[i].st EXCEPT
                              !.hs = Without(@, p.h),
                              !.disk[st.hs[p.h].path].from = "",
                              !.disk[st.hs[p.h].path].alts = <<st.hs[p.h].t>>])]
                     ELSE q[i]]

(* ---- files made by others ----------------------------------------------- *)
Foreign(st, e) ==      \* a file with data tree e.t written without dsch
  One({"ok"}, [st EXCEPT !.disk = With(@, e.path,
       [be |-> e.be, s |-> e.s, alts |-> <<e.t>>, from |-> "", dirty |-> FALSE, org |-> e.org])])

(* Settle the files that were just written (with the data of the storage   *)
(* that wrote them) and those of changed HDF5 storages.                    *)
SettleFiles(s0, s1) ==
  LET file(p) ==
        LET f == s1.disk[p]
        IN IF f.from # ""
           THEN [f EXCEPT !.alts = <<s1.hs[f.from].t>>, !.from = ""]
           ELSE IF \E h \in DOMAIN s1.hs : s1.hs[h].be = "hdf5" /\ s1.hs[h].path = p
                     /\ Has(s0.hs, h) /\ s0.hs[h].t # s1.hs[h].t
                THEN [f EXCEPT !.dirty = TRUE] ELSE f
  IN [s1 EXCEPT !.disk = [p \in DOMAIN s1.disk |-> file(p)]]

Removed(st, e) ==      \* somebody else removes a file
  One({"ok"}, [st EXCEPT !.disk = Without(@, e.path)])

----------------------------------------------------------------------------
Observers == {"val", "chk", "dtree", "idx", "len", "svalid", "sch", "scheq", "sctor",
              "probe", "raw", "sig", "sync", "prep", "ptree", "links", "stored"}

Alts(st, e, hash(_)) ==
  CASE e.op = "create" -> Create(st, e)
    [] e.op = "cfrom" -> CreateFrom(st, e)
    [] e.op = "load" -> LoadAlts(st, e, e.h, hash)
    [] e.op = "save" -> SaveAlts(st, e.h, e.force, Nod(e))
    [] e.op = "drop" -> One({"ok"}, Dropped(st, e.h))
    [] e.op = "set" -> Assign(st, e)
    [] e.op = "rep" -> Assign(st, e)
    [] e.op = "clr" -> ClearNode(st, e)
    [] e.op = "app" -> AppendItem(st, e)
    [] e.op = "lfrom" -> LoadFrom(st, e)
    [] e.op = "repunk" -> AssignUnknown(st, e)
    [] e.op \in {"setattr", "setitem"} -> DirectAssign(st, e)
    [] e.op = "idxset" -> IndexSet(st, e)
    [] e.op = "rsz" -> Resize(st, e)
    [] e.op = "pnew" -> PsNew(st, e, hash)
    [] e.op = "popen" -> PsOpen(st, e, hash)
    [] e.op = "penter" -> PsEnter(st, e, hash)
    [] e.op \in {"pclose", "pexit"} -> PsClose(st, e)
    [] e.op = "foreign" -> Foreign(st, e)
    [] e.op = "rm" -> Removed(st, e)
    [] e.op \in Observers -> One({"ok", "ERR"}, st)    \* judged by their result
=============================================================================
