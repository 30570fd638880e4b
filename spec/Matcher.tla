------------------------------ MODULE Matcher ------------------------------
(***************************************************************************)
(* Which subgraphs fit a pattern, and which roles their nodes may play.    *)
(* graph:   node -> [type, ins : <<tensor>>];  prod: tensor -> node or ""  *)
(* pattern: id -> [alts : operator types ("*" = any), none : matches any   *)
(*          input and records nothing, ins : <<id>>, re : "t"/"f"/"" ]     *)
(* A case: [id, graph, prod, pats, root, re, runs], a run (one listing of  *)
(* the nodes): the matches in the order they were reported, each           *)
(* [root, roles : <<[p, n, t]>>, nodes : <<name>>, byname : <<[p, n, t]>>].*)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT File
Cases == JsonDeserialize(File)
VARIABLES c, r, pc
vars == <<c, r, pc>>
K == Cases[c]
Nodes == DOMAIN K.graph
Range(f) == {f[x] : x \in DOMAIN f}
Perms(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
TypeOk(p, n) == "*" \in Range(K.pats[p].alts) \/ (n # "" /\ K.graph[n].type \in Range(K.pats[p].alts))
Free(p) == IF K.pats[p].re = "" THEN K.re ELSE K.pats[p].re = "t"
Orders(p) == LET k == Len(K.pats[p].ins) IN IF Free(p) THEN Perms(k) ELSE {[i \in 1..k |-> i]}
Prod(t) == IF t \in DOMAIN K.prod THEN K.prod[t] ELSE ""

\* the tree of producers below n fits pattern p
RECURSIVE Fits(_, _)
Fits(p, n) ==
  \/ K.pats[p].none
  \/ /\ TypeOk(p, n)
     /\ \/ Len(K.pats[p].ins) = 0
        \/ /\ n # ""
           /\ Len(K.graph[n].ins) = Len(K.pats[p].ins)
           /\ \E o \in Orders(p) : \A i \in DOMAIN K.pats[p].ins : Fits(K.pats[p].ins[o[i]], Prod(K.graph[n].ins[i]))

\* the roles (pattern -> <<node, tensor>>) are those of one way the tree fits
RECURSIVE Plays(_, _, _, _)
Plays(R, p, n, t) ==
  \/ K.pats[p].none
  \/ /\ p \in DOMAIN R /\ R[p] = <<n, t>>
     /\ TypeOk(p, n)
     /\ \/ Len(K.pats[p].ins) = 0
        \/ /\ n # ""
           /\ Len(K.graph[n].ins) = Len(K.pats[p].ins)
           /\ \E o \in Orders(p) : \A i \in DOMAIN K.pats[p].ins : Plays(R, K.pats[p].ins[o[i]], Prod(K.graph[n].ins[i]), K.graph[n].ins[i])

Roles(s) == [p \in {s[i].p : i \in DOMAIN s} |-> LET i == CHOOSE i \in DOMAIN s : s[i].p = p IN <<s[i].n, s[i].t>>]
Named(p) == K.pats[p].name # "" /\ \A q \in DOMAIN K.pats : q # p => K.pats[q].name # K.pats[p].name
Recorded == {p \in DOMAIN K.pats : ~K.pats[p].none}

Wrong ==
  LET run == K.runs[r]
      roots == {run.found[i].root : i \in DOMAIN run.found}
      want == {n \in Nodes : Fits(K.root, n)}
  IN IF run.err # "" THEN "raises " \o run.err
     ELSE IF want \ roots # {} THEN "no match at " \o (CHOOSE n \in want \ roots : TRUE)
     ELSE IF roots \ want # {} THEN "match at " \o (CHOOSE n \in roots \ want : TRUE)
     ELSE IF Len(run.found) # Cardinality(roots) THEN "a match is reported twice"
     ELSE IF \E i \in DOMAIN run.found : ~Plays(Roles(run.found[i].roles), K.root, run.found[i].root, "") THEN "a node does not play the role assigned to it"
     ELSE IF \E i \in DOMAIN run.found : Range(run.found[i].nodes) # {Roles(run.found[i].roles)[p][1] : p \in DOMAIN Roles(run.found[i].roles)} THEN "the list of matched nodes is wrong"
     ELSE IF \E i \in DOMAIN run.found : LET R == Roles(run.found[i].roles) B == Roles(run.found[i].byname)
                                         IN \E p \in DOMAIN B : Named(p) /\ (p \notin DOMAIN R \/ B[p] # R[p]) THEN "looking a role up by name gives another node"
     ELSE ""

Init == c \in 1..Len(Cases) /\ r = 1 /\ pc = "run"
Next == /\ pc = "run"
        /\ IF r > Len(K.runs) THEN PrintT("OK|" \o K.id) /\ pc' = "done" /\ UNCHANGED <<c, r>>
           ELSE LET w == Wrong IN IF w = "" THEN r' = r + 1 /\ UNCHANGED <<c, pc>>
                ELSE PrintT("BAD|" \o K.id \o "|" \o w) /\ pc' = "bad" /\ UNCHANGED <<c, r>>
=============================================================================
