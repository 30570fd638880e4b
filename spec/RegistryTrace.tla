---------------------------- MODULE RegistryTrace ----------------------------
(***************************************************************************)
(* Recorded histories of the real tables and of real mapping passes as     *)
(* behaviours of Registry.                                                 *)
(* steps: [k "reg", dom, ops, v, h]                                        *)
(*        [k "map", q, obs : <<[op, h]>>, find : <<[op, dom, h]>>]         *)
(*        [k "conv", q, tfl, go (continue on error), nodes, calls, end]    *)
(* node:  [n name, op, owner ("" = main graph), ok (its handler succeeds), *)
(*         tflok, skip, adds : <<[n, op, asks]>>]                          *)
(* call:  [n, h, cust, type (of the node when handed over), src (operator name   *)
(*         the handler was told), tables, deq, stage]                      *)
(* end:   [raised, reported : names in error messages, tables, deq]        *)
(***************************************************************************)
EXTENDS Registry, Json
CONSTANT File
Cases == JsonDeserialize(File).cases  \* [id, init, steps, rename : handler (as a string) -> operator name it declares]
ToFn(s) == [k \in {s[i][1] : i \in DOMAIN s} |-> LET i == MaxOf({j \in DOMAIN s : s[j][1] = k}) IN s[i][2]]
Req(q) == [onnx |-> q.onnx, extra |-> ToFn(q.extra), cust |-> ToFn(q.cust)]

VARIABLES c, k, reg, pc, calls, stage, nodes, handed, failed
vars == <<c, k, reg, pc, calls, stage, nodes, handed, failed>>
Steps == Cases[c].steps
Renames(h) == IF ToString(h) \in DOMAIN Cases[c].rename THEN Cases[c].rename[ToString(h)] ELSE ""
S == Steps[k]

Init == /\ c \in 1..Len(Cases) /\ k = 1 /\ pc = "step" /\ calls = 0 /\ stage = 0 /\ nodes = <<>> /\ handed = {} /\ failed = {}
        /\ LET I == Cases[c].init
           IN reg = [x \in {<<I[i].dom, I[i].op, I[i].v>> : i \in DOMAIN I} |-> LET i == CHOOSE i \in DOMAIN I : x = <<I[i].dom, I[i].op, I[i].v>> IN I[i].h]

Say(what) == PrintT("BAD|" \o ToString(Cases[c].id) \o "|" \o ToString(k) \o "|" \o what)
Stop(what) == Say(what) /\ pc' = "bad" /\ UNCHANGED <<c, k, reg, calls, stage, nodes, handed, failed>>

DoReg == /\ pc = "step" /\ k <= Len(Steps) /\ S.k = "reg"
         /\ reg' = RegisterIn(reg, S.dom, Range(S.ops), S.v, S.h)
         /\ k' = k + 1 /\ UNCHANGED <<c, pc, calls, stage, nodes, handed, failed>>

DoMap == /\ pc = "step" /\ k <= Len(Steps) /\ S.k = "map"
         /\ LET q == Req(S.q)
                W == {i \in DOMAIN S.obs : S.obs[i].h \notin Choices(reg, q, S.obs[i].op)}
                F == {i \in DOMAIN S.find : S.find[i].h # InDomain(reg, q, S.find[i].dom, S.find[i].op)}
            IN IF W # {} THEN LET i == CHOOSE i \in W : TRUE
                              IN Stop("wrong handler|" \o S.obs[i].op \o ": " \o ToString(S.obs[i].h) \o " instead of " \o ToString(Choices(reg, q, S.obs[i].op)))
               ELSE IF F # {} THEN LET i == CHOOSE i \in F : TRUE
                              IN Stop("wrong handler of a domain|" \o S.find[i].dom \o " " \o S.find[i].op \o ": " \o ToString(S.find[i].h) \o " instead of "
                                      \o ToString(InDomain(reg, q, S.find[i].dom, S.find[i].op)))
               ELSE k' = k + 1 /\ UNCHANGED <<c, reg, pc, calls, stage, nodes, handed, failed>>

(* ---------------- the mapping pass ---------------- *)
StartConv == /\ pc = "step" /\ k <= Len(Steps) /\ S.k = "conv"
             /\ pc' = "conv" /\ calls' = 1 /\ stage' = (IF S.tfl THEN 1 ELSE 2) /\ handed' = {} /\ failed' = {}
             /\ nodes' = [m \in {S.nodes[i].n : i \in DOMAIN S.nodes} |-> LET i == CHOOSE i \in DOMAIN S.nodes : S.nodes[i].n = m
                            IN [op |-> S.nodes[i].op, owner |-> S.nodes[i].owner, plan |-> i, skip |-> S.nodes[i].skip]]
             /\ UNCHANGED <<c, k, reg>>

Allowed(m) == IF stage = 1 THEN {TflHandler(reg, nodes[m].op)} ELSE Choices(reg, Req(S.q), nodes[m].op)
Mapped(m) == Allowed(m) # {None}
\* bodies of nodes that cannot be converted need not be looked at
RECURSIVE Reachable(_)
Reachable(m) == nodes[m].owner = "" \/ (LET w == nodes[m].owner IN ~nodes[w].skip /\ (w \in handed \/ Mapped(w)) /\ Reachable(w))
Due == {m \in DOMAIN nodes : ~nodes[m].skip /\ Mapped(m) /\ Reachable(m)}

Call == /\ pc = "conv" /\ calls <= Len(S.calls) /\ S.calls[calls].stage = stage
        /\ LET e == S.calls[calls] m == e.n
           IN IF m \notin DOMAIN nodes \/ nodes[m].skip THEN Stop("a node that does not ask for conversion is converted|" \o m)
              ELSE IF m \in handed THEN Stop("a node is converted twice|" \o m)
              ELSE IF e.h \notin Allowed(m) \/ e.h = None THEN Stop("wrong handler called|" \o nodes[m].op \o ": " \o ToString(e.h) \o " instead of " \o ToString(Allowed(m)))
              ELSE LET t == IF Renames(e.h) # "" THEN Renames(e.h) ELSE nodes[m].op
                   IN IF e.type # t THEN Stop("the node has the wrong type when handed over|" \o e.type \o " instead of " \o t)
                      ELSE IF ~e.cust /\ Renames(e.h) # "" /\ e.src # nodes[m].op THEN Stop("the handler is told the wrong operator|" \o e.src \o " instead of " \o nodes[m].op)
                      ELSE IF ~e.cust /\ stage = 2 /\ ~e.tables THEN Stop("the handler does not get the conversion's tables|" \o m)
                      ELSE IF ~e.cust /\ stage = 2 /\ e.deq # S.deq THEN Stop("the handler does not get the conversion's options|" \o m)
                      ELSE /\ handed' = handed \cup {m}
                           /\ LET p == nodes[m].plan
                                  good == IF p = 0 THEN TRUE ELSE IF stage = 1 THEN S.nodes[p].tflok ELSE S.nodes[p].ok
                                  add == IF p = 0 \/ stage # (IF S.tfl THEN 1 ELSE 2) THEN <<>> ELSE S.nodes[p].adds
                              IN /\ failed' = IF good THEN failed ELSE failed \cup {m}
                                 /\ nodes' = [x \in {add[i].n : i \in DOMAIN add} |-> LET i == CHOOSE i \in DOMAIN add : add[i].n = x
                                               IN [op |-> add[i].op, owner |-> nodes[m].owner, plan |-> 0, skip |-> ~(add[i].asks /\ stage = 1 /\ good) ]]
                                             @@ [nodes EXCEPT ![m].op = t]
                           /\ calls' = calls + 1 /\ UNCHANGED <<c, k, reg, pc, stage>>

\* nodes added in this stage are not due in it
AddedNow == {m \in DOMAIN nodes : nodes[m].plan = 0}
StageEnd == /\ pc = "conv" /\ (IF calls > Len(S.calls) THEN TRUE ELSE S.calls[calls].stage # stage)
            /\ LET due == IF stage = 1 THEN Due \ AddedNow ELSE Due
                   lost == due \ handed
                   raises == failed # {} /\ ~S.go
               IN IF lost # {} THEN Stop("a node is not converted|" \o (CHOOSE m \in lost : TRUE))
                  ELSE IF stage = 1 /\ ~raises
                  THEN stage' = 2 /\ handed' = {} /\ UNCHANGED <<c, k, reg, pc, calls, nodes, failed>>
                  ELSE LET unm == {m \in DOMAIN nodes : m \notin handed /\ ~nodes[m].skip /\ ~Mapped(m) /\ (nodes[m].owner = "" \/ Reachable(m)) /\ stage = 2}
                           must == unm \cup failed
                           rep == Range(S.end.reported)
                       IN IF S.end.raised # raises THEN Stop((IF raises THEN "failures do not make the call raise|" ELSE "the call raises|") \o ToString(failed))
                          ELSE IF ~(must \subseteq rep) THEN Stop("not reported|" \o (CHOOSE m \in must \ rep : TRUE))
                          ELSE IF rep \cap (handed \ must) # {} THEN Stop("reported although converted|" \o (CHOOSE m \in rep \cap (handed \ must) : TRUE))
                          ELSE IF calls <= Len(S.calls) THEN Stop("calls after the end|" \o S.calls[calls].n)
                          ELSE pc' = "step" /\ k' = k + 1 /\ UNCHANGED <<c, reg, calls, stage, nodes, handed, failed>>

Done == /\ pc = "step" /\ k > Len(Steps) /\ PrintT("OK|" \o ToString(Cases[c].id)) /\ pc' = "done" /\ UNCHANGED <<c, k, reg, calls, stage, nodes, handed, failed>>
Next == DoReg \/ DoMap \/ StartConv \/ Call \/ StageEnd \/ Done
=============================================================================
