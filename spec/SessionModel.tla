---------------------------- MODULE SessionModel -----------------------------
(* Exhaustive: an implementation in meent's style next to Session.  It keeps
   derived state between calls: the modeling type (set by the cell setter),
   the formulation (derived when a solve starts), and the layer data and
   amplitudes of the last solve (used by the field calculation).  Refinement:
   every answer carries exactly the settings it should depend on. *)
EXTENDS Session
VARIABLES mtype, gtype, cache, ans
mvars == <<set, clean, mtype, gtype, cache, ans>>
MMenu == [cell |-> {"r1", "r2", "v"}, fy |-> {"0", "1"}, phi |-> {"none", "x"}, pol |-> {"te", "mix"}, rest |-> {"p", "q"}]
Default == [cell |-> "r1", fy |-> "0", phi |-> "none", pol |-> "te", rest |-> "p"]
MType(c) == IF c = "v" THEN "vector" ELSE "raster"
Route(m, s) == IF m = "raster" /\ s.cell = "r1" /\ s.fy = "0" THEN IF s.phi = "none" /\ s.pol = "te" THEN "1d" ELSE "conical" ELSE "2d"
Nil == [kind |-> "nil"]
Init == /\ set = [o \in Objs |-> Default] /\ clean = [o \in Objs |-> FALSE] /\ mtype = [o \in Objs |-> "raster"]
        /\ gtype = [o \in Objs |-> "none"] /\ cache = [o \in Objs |-> Nil] /\ ans = Nil
DoAssign(o) == \E f \in Fields : \E v \in Menu[f] :
  /\ Assign(o, f, v)
  /\ mtype' = IF f = "cell" THEN [mtype EXCEPT ![o] = MType(v)] ELSE mtype
  /\ ans' = Nil /\ UNCHANGED <<gtype, cache>>
DoSolve(o) ==
  /\ Solve(o)
  /\ gtype' = [gtype EXCEPT ![o] = Route(mtype[o], set[o])]          \* re-derived, then used
  /\ cache' = [cache EXCEPT ![o] = [kind |-> "layers", of |-> set[o], g |-> gtype'[o]]]
  /\ ans' = [kind |-> "solve", obj |-> o, of |-> set[o], g |-> gtype'[o], m |-> mtype[o]]
  /\ UNCHANGED mtype
DoField(o) ==
  /\ Field(o)
  /\ ans' = [kind |-> "field", obj |-> o, of |-> cache[o].of, g |-> gtype[o], lay |-> cache[o].g]
  /\ UNCHANGED <<mtype, gtype, cache>>
Next == \E o \in Objs : DoAssign(o) \/ DoSolve(o) \/ DoField(o)
Spec == Init /\ [][Next]_mvars
AnswerOfSettings == ans.kind # "nil" => /\ ans.of = set[ans.obj]
                                        /\ ans.g = Route(MType(set[ans.obj].cell), set[ans.obj])
                                        /\ (ans.kind = "field" => ans.lay = ans.g)
=============================================================================
