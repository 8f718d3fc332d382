------------------------------ MODULE CallModel ------------------------------
(***************************************************************************)
(* C21: clients calling functions from several threads.  A call starts and *)
(* finishes; others may start and finish in between.  The implementation   *)
(* may remember what it likes (memo: answers of finished calls) and may    *)
(* answer from it, and a call may fail - nothing of this shows in a        *)
(* result: it is Answer(c), what the call returns on its own.              *)
(* Explored exhaustively on a small universe; with GenSpec the generator   *)
(* of behaviours that are replayed on the real functions.                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANTS Threads, Depth, Answer(_)
NCalls == IF "NCALLS" \in DOMAIN IOEnv THEN atoi(IOEnv.NCALLS) ELSE 3
CallSet == 1..NCalls

VARIABLES running, memo, last, hist
vars == <<running, memo, last, hist>>

Idle == 0
Init == running = [t \in Threads |-> Idle] /\ memo = {} /\ last = <<0, "">> /\ hist = <<>>
Start(t, c) == running[t] = Idle /\ running' = [running EXCEPT ![t] = c] /\ UNCHANGED <<memo, last>>
\* answered afresh (and perhaps remembered), or from memory
Finish(t) ==
    /\ running[t] # Idle
    /\ \/ last' = <<running[t], Answer(running[t])>> /\ memo' \in {memo, memo \cup {last'}}
       \/ \E m \in memo : m[1] = running[t] /\ last' = m /\ memo' = memo
    /\ running' = [running EXCEPT ![t] = Idle]
Next == /\ \E t \in Threads : Finish(t) \/ (\E c \in CallSet : Start(t, c))
        /\ UNCHANGED hist
Spec == Init /\ [][Next]_vars

ResultsRight == last[1] # 0 => last[2] = Answer(last[1])
MemoRight == \A m \in memo : m[2] = Answer(m[1])

\* a recorded history: steps <<t, c>> start c, <<t, 0>> finish; [running, res] gives the calls in the order they finished
HStep(acc, s) == IF s.c = 0 THEN [running |-> [acc.running EXCEPT ![s.t] = Idle],
                                  bad |-> IF acc.bad # 0 \/ s.r = Answer(acc.running[s.t]) THEN acc.bad ELSE acc.running[s.t]]
                 ELSE [acc EXCEPT !.running[s.t] = s.c]

\* generator (choices bound by \E over a singleton: a LET would draw again at each use)
GenStep == \E t \in {RandomElement(Threads)}, c \in {RandomElement(CallSet)} :
    IF running[t] = Idle THEN Start(t, c) /\ hist' = Append(hist, [t |-> t, c |-> c])
    ELSE Finish(t) /\ memo' = {} /\ hist' = Append(hist, [t |-> t, c |-> 0])
GenNext == Len(hist) < Depth /\ GenStep
GenSpec == Init /\ [][GenNext]_vars
Emit == Len(hist) = Depth => PrintT(<<"BEHAVIOUR", ToJson(hist)>>)
MAnswer(c) == c % 2
=============================================================================
