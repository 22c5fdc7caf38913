---------------------------- MODULE Independence ----------------------------
(* Several objects (graph caches), each with its own state, used by several   *)
(* threads, next to functions without state.  A call works with a scratch     *)
(* place: it puts its arguments there and later answers from it.  A changed   *)
(* object notifies while it is held, and the notified party may look at the   *)
(* next object.                                                               *)
(* With scratch places of the calls' own and one lock per object every call   *)
(* answers what it answers alone, and nobody waits forever.  One scratch      *)
(* place for all (SharedScratch) or one lock for all (OneLock) must be        *)
(* refuted: the check makes sure it is.                                       *)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Threads, Objects, Args, MaxCalls, SharedScratch, OneLock

VARIABLES val,      \* object -> its state: the sequence of arguments applied to it
          lock,     \* object -> thread holding it, 0 if free
          place,    \* scratch places: of every thread, and one (0) of nobody's
          pc,       \* thread -> [at, k, o, a, saw, len]
          calls,    \* calls begun
          wrong     \* an answer that is not the one of the call alone
vars == <<val, lock, place, pc, calls, wrong>>

Idle == [at |-> "idle", k |-> "none", o |-> 0, a |-> 0, seen |-> <<>>]
Place(t) == IF SharedScratch THEN 0 ELSE t
Lock(o) == IF OneLock THEN 1 ELSE o
F(a) == a + 100                       \* any function of the argument
(* each object is changed by one thread; every thread may call functions *)
Mine(t, o) == o = t

Init ==
  /\ val = [o \in Objects |-> <<>>] /\ lock = [o \in Objects |-> 0]
  /\ place = [p \in Threads \cup {0} |-> 0]
  /\ pc = [t \in Threads |-> Idle] /\ calls = 0 /\ wrong = FALSE

Begin(t) ==
  /\ pc[t].at = "idle" /\ calls < MaxCalls
  /\ \E a \in Args :
       \/ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.at = "put", !.k = "free", !.a = a]]
       \/ \E o \in Objects :
            /\ Mine(t, o)
            /\ pc' = [pc EXCEPT ![t] = [Idle EXCEPT !.at = "want", !.k = "change", !.o = o, !.a = a]]
  /\ calls' = calls + 1
  /\ UNCHANGED <<val, lock, place, wrong>>
Take(t) ==
  /\ pc[t].at = "want" /\ lock[Lock(pc[t].o)] = 0
  /\ lock' = [lock EXCEPT ![Lock(pc[t].o)] = t]
  /\ pc' = [pc EXCEPT ![t].at = "put"]
  /\ UNCHANGED <<val, place, calls, wrong>>
Put(t) ==
  /\ pc[t].at = "put"
  /\ place' = [place EXCEPT ![Place(t)] = pc[t].a]
  /\ pc' = [pc EXCEPT ![t].at = "use"]
  /\ UNCHANGED <<val, lock, calls, wrong>>
Use(t) ==
  /\ pc[t].at = "use"
  /\ LET p == place[Place(t)] IN
       IF pc[t].k = "free"
       THEN /\ wrong' = (wrong \/ F(p) # F(pc[t].a))
            /\ pc' = [pc EXCEPT ![t] = Idle] /\ UNCHANGED val
       ELSE /\ val' = [val EXCEPT ![pc[t].o] = Append(@, p)]
            /\ wrong' = (wrong \/ p # pc[t].a)
            /\ pc' = [pc EXCEPT ![t].at = IF pc[t].o + 1 \in Objects THEN "notify" ELSE "leave"]
  /\ UNCHANGED <<lock, place, calls>>
(* the notified party looks at the next object: takes its lock, reads, releases *)
Notify(t) ==
  /\ pc[t].at = "notify" /\ lock[Lock(pc[t].o + 1)] = 0
  /\ lock' = [lock EXCEPT ![Lock(pc[t].o + 1)] = t]
  /\ pc' = [pc EXCEPT ![t].at = "look", ![t].seen = val[pc[t].o + 1]]
  /\ UNCHANGED <<val, place, calls, wrong>>
Looked(t) ==
  /\ pc[t].at = "look"
  /\ wrong' = (wrong \/ val[pc[t].o + 1] # pc[t].seen)
  /\ lock' = [lock EXCEPT ![Lock(pc[t].o + 1)] = 0]
  /\ pc' = [pc EXCEPT ![t].at = "leave"]
  /\ UNCHANGED <<val, place, calls>>
Leave(t) ==
  /\ pc[t].at = "leave"
  /\ lock' = [lock EXCEPT ![Lock(pc[t].o)] = 0]
  /\ pc' = [pc EXCEPT ![t] = Idle]
  /\ UNCHANGED <<val, place, calls, wrong>>

Next == \E t \in Threads : Begin(t) \/ Take(t) \/ Put(t) \/ Use(t) \/ Notify(t) \/ Looked(t) \/ Leave(t)
Spec == Init /\ [][Next]_vars
FairSpec == Spec /\ \A t \in Threads : WF_vars(Take(t) \/ Put(t) \/ Use(t) \/ Notify(t) \/ Looked(t) \/ Leave(t))

AnswersAlone == ~wrong
(* somebody in a call can always go on *)
NoDeadlock ==
  (\E t \in Threads : pc[t].at # "idle") =>
    \E t \in Threads : \/ pc[t].at \in {"put", "use", "look", "leave"}
                       \/ pc[t].at = "want" /\ lock[Lock(pc[t].o)] = 0
                       \/ pc[t].at = "notify" /\ lock[Lock(pc[t].o + 1)] = 0
(* an object is changed by the calls made on it and nothing else *)
OthersUntouched == [][\A o \in Objects : val'[o] # val[o] => \E t \in Threads : Mine(t, o) /\ pc[t].at = "use" /\ pc[t].o = o]_vars
EveryCallReturns == \A t \in Threads : pc[t].at # "idle" ~> pc[t].at = "idle"
=============================================================================
