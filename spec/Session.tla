------------------------------- MODULE Session -------------------------------
(* Sessions of a user with several solver objects.  The observable state of an
   object is its settings, and whether the last solve saw them (clean).  A
   solve or field calculation is a function of the settings alone; nothing
   else is carried over. *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Objs, Menu     \* Menu: field name -> set of value names
VARIABLES set,           \* object -> settings record (field -> value name)
          clean          \* object -> did the last solve see these settings?
Fields == DOMAIN Menu
Assign(o, f, v) == set' = [set EXCEPT ![o][f] = v] /\ clean' = [clean EXCEPT ![o] = FALSE]
Assign2(o, f, v, g, w) == set' = [set EXCEPT ![o][f] = v, ![o][g] = w] /\ clean' = [clean EXCEPT ![o] = FALSE]
AssignSolve(o, f, v) == set' = [set EXCEPT ![o][f] = v] /\ clean' = [clean EXCEPT ![o] = TRUE]   \* solve with a setting passed along
Solve(o) == clean' = [clean EXCEPT ![o] = TRUE] /\ UNCHANGED set
Field(o) == clean[o] /\ UNCHANGED <<set, clean>>
=============================================================================
