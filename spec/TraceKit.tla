------------------------------ MODULE TraceKit ------------------------------
(* Reading recorded traces and giving total verdicts.

   A trace file is a sequence of lines.  `scenario' opens the replay of one
   generated behaviour (scn), the lines after it are the events recorded from
   the real code (obs collects them), `end' closes the file.  `exception' and
   `noreturn' record that the code did not produce a result where the
   specification expects one.

   A trace specification supplies
     Judge(e)  [bad |-> set of names of violated clauses, why |-> text]
               for event e, given scn and the events obs seen before it;
     Missing   names of clauses violated by the absence of events when a
               scenario is closed.
   Every line is consumed by exactly one action, whatever it contains. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES l, sid, scn, obs
tvars == <<l, sid, scn, obs>>
Trace == ndJsonDeserialize(IOEnv.TRACE)
Line == Trace[l]
Has(r, f) == f \in DOMAIN r
Report(clauses, why) ==
  IF clauses = {} THEN TRUE
  ELSE PrintT("@BAD " \o ToJson([id |-> sid, line |-> l, clauses |-> SetToSeq(clauses), why |-> why]))
(* the set of names whose condition is FALSE, from a set of <<name, condition>> *)
Failing(checks) == {c[1] : c \in {x \in checks : ~x[2]}}
Verdict(checks, why) == [bad |-> Failing(checks), why |-> why]
Fine == [bad |-> {}, why |-> ""]
Failed == \E i \in DOMAIN obs : obs[i].ev \in {"exception", "noreturn"}
Seen(name) == \E i \in DOMAIN obs : obs[i].ev = name
Count(name) == Cardinality({i \in DOMAIN obs : obs[i].ev = name})
FirstEv(name) == obs[CHOOSE i \in DOMAIN obs : obs[i].ev = name /\ \A j \in DOMAIN obs : obs[j].ev = name => i <= j]
LastEv(name) == obs[CHOOSE i \in DOMAIN obs : obs[i].ev = name /\ \A j \in DOMAIN obs : obs[j].ev = name => i >= j]

TInit == l = 1 /\ sid = -1 /\ scn = [none |-> TRUE] /\ obs = <<>>
TClose(Missing(_)) == (sid >= 0 /\ ~Failed) => Report(Missing(scn), "the recorded behaviour stops early")
TOpen(Missing(_)) ==
  /\ Line.ev = "scenario" /\ TClose(Missing)
  /\ sid' = Line.id /\ scn' = Line.scn /\ obs' = <<>>
TEnd(Missing(_)) ==
  /\ Line.ev = "end" /\ TClose(Missing)
  /\ sid' = -1 /\ UNCHANGED scn /\ obs' = <<>>
TFail == /\ Line.ev \in {"exception", "noreturn"}
         /\ Report({"Returns"}, Line.why)
         /\ obs' = Append(obs, Line) /\ UNCHANGED <<sid, scn>>
TStep(Judge(_)) ==
  /\ Line.ev \notin {"scenario", "end", "exception", "noreturn"}
  /\ LET v == Judge(Line) IN Report(v.bad, v.why)
  /\ obs' = Append(obs, Line) /\ UNCHANGED <<sid, scn>>
TNext(Judge(_), Missing(_)) ==
  l <= Len(Trace) /\ l' = l + 1 /\ (TOpen(Missing) \/ TEnd(Missing) \/ TFail \/ TStep(Judge))
Accepted == TLCGet("stats").diameter = Len(Trace) + 1
=============================================================================
