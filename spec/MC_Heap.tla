------------------------------- MODULE MC_Heap -------------------------------
(* The heap of the state machine, explored exhaustively with a few          *)
(* operations: calls, and changes of the system timezone in between (C21,   *)
(* C22, C14).                                                               *)
EXTENDS Whenever
CONSTANTS Width, Steps
VARIABLES k, made      \* ghosts: steps made; for each entry the timezone of the system when it was made

all == <<vars, k, made>>
Tzs == {"UTC", "E", "L"}
Firsts == {MkZoned(<<730002, 3599, 0>>, "E"), V("Instant", <<730003, 36000, 1>>), V("Local", <<1999, 9, 5, 2, 30, 0, 0>>)}
Td == V("TD", <<0, 3600, 0>>)
Calls ==   \* <<op, arguments>>: with handles of the heap for the first one or two
  LET Exact == {i \in 1..Len(heap) : IsExact(heap[i].v)}
      Sysd == {i \in 1..Len(heap) : heap[i].v.t = "System"}
      Loc == {i \in 1..Len(heap) : heap[i].v.t = "Local"}
  IN {<<"to_system", <<heap[i].v>>>> : i \in Exact}
     \cup {<<"to_tz", <<heap[i].v, Sym("L")>>>> : i \in Exact}
     \cup {<<"plus", <<heap[i].v, Td>>>> : i \in {j \in Exact : heap[j].v.t # "Offset"}}
     \cup {<<"minus", <<heap[i].v, heap[j].v>>>> : i \in Exact, j \in Exact}
     \cup {<<"assume_system", <<heap[i].v, Sym("compatible")>>>> : i \in Loc}
     \cup {<<"addd", <<heap[i].v, V("DD", <<0, 1>>), Sym(""), Bool(TRUE)>>>> : i \in Sysd}
     \cup {<<"get", <<Sym("local"), heap[i].v>>>> : i \in Sysd}

MCInit == Initial /\ k = 0 /\ made = <<>>
First == heap = <<>> /\ \E v \in Firsts : Call("same", <<v>>, v, 1, <<>>) /\ made' = <<sysTz>>
CallSome ==
  \E c \in Calls : \E r \in Results(c[1], c[2], sysTz) :
    \E i \in IF IsErr(r) THEN {0} ELSE 1..Min2(Width, Len(heap) + 1) :
      /\ Call(c[1], c[2], r, i, <<>>)
      /\ made' = (IF i = 0 THEN made ELSE IF i <= Len(made) THEN [made EXCEPT ![i] = sysTz] ELSE Append(made, sysTz))
Change == \E z \in Tzs \ {sysTz} : SetTz(z) /\ made' = made
MCNext == k < Steps /\ k' = k + 1 /\ (First \/ CallSome \/ Change)
Spec == MCInit /\ [][MCNext]_all

\* every value is a valid one of its kind, whenever it was made
Values1 == \A i \in 1..Len(heap) : Valid(heap[i].v)
\* a system value shows the offset that the timezone of the system had for it when it was made
MadeThen == \A i \in 1..Len(heap) :
  heap[i].v.t = "System" => LET m == Moment(heap[i].v) IN heap[i].v.n[8] = OffsetAt(made[i], <<m[1], m[2]>>)
\* entries stay as they are: at most one is written at a time, and a change of the timezone writes none
Immutable == [][/\ Cardinality({i \in 1..Len(heap) : heap'[i] # heap[i]}) <= 1
                /\ Len(heap') >= Len(heap)
                /\ (sysTz' # sysTz => heap' = heap)]_all
=============================================================================
