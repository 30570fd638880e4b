----------------------------- MODULE GraphTopo -----------------------------
(***************************************************************************)
(* Ordering the nodes of a graph.  A case holds a family of graphs (as in  *)
(* GraphIR: nodes with inputs, outputs and nested bodies) and what the     *)
(* real code answered when asked, for several listings of the same nodes,  *)
(* to sort them or to export the model:                                    *)
(*   runs[r] = [how, g, err, order]   order = node names, front to back    *)
(* Required: an order exactly when the graph has no cycle; every node once *)
(* and after the producers of everything it Uses; one order per graph.     *)
(* Also dependency tables (utils.topological_sort): table[x] = items that  *)
(* x depends on.                                                           *)
(***************************************************************************)
EXTENDS GraphIR, Json
CONSTANT File
Cases == JsonDeserialize(File)
VARIABLES c
Init == c \in 1..Len(Cases)

\* x before y is required
Deps(gs, g, n) == UNION {Producers(gs, g, t) : t \in Uses(gs, n) \ {""}}
RECURSIVE Strip(_, _, _)
\* repeatedly take away the nodes that depend on nothing that is left: what stays is on or behind a cycle
Strip(gs, g, S) == LET R == {n \in S : Deps(gs, g, n) \cap S = {}} IN IF R = {} THEN S ELSE Strip(gs, g, S \ R)
Acyclic(gs, g) == Strip(gs, g, gs[g].nodes) = {}

At(order, nm) == CHOOSE k \in DOMAIN order : order[k] = nm
ValidOrder(gs, g, order) ==
  /\ Range(order) = {n.n : n \in gs[g].nodes}
  /\ Len(order) = Cardinality(Range(order))
  /\ \A n \in gs[g].nodes : \A m \in Deps(gs, g, n) : At(order, m.n) < At(order, n.n)

ToGraphs(c0) == [g \in DOMAIN c0.graphs |-> [NewGraph EXCEPT !.nodes = Range(c0.graphs[g].nodes)]]
Fault(c0) ==
  LET gs == ToGraphs(c0)
      Bad(r) == IF Acyclic(gs, r.g) THEN (IF r.err THEN "no order for an acyclic graph"
                                          ELSE IF ~ValidOrder(gs, r.g, r.order) THEN "not a valid order" ELSE "")
                ELSE IF ~r.err THEN "an order for a cyclic graph" ELSE ""
      bad == {k \in DOMAIN c0.runs : Bad(c0.runs[k]) # ""}
      two == {<<j, k>> \in (DOMAIN c0.runs) \X (DOMAIN c0.runs) :
                 c0.runs[j].g = c0.runs[k].g /\ c0.runs[j].how = c0.runs[k].how /\ ~c0.runs[j].err /\ ~c0.runs[k].err
                 /\ c0.runs[j].order # c0.runs[k].order}
  IN IF bad # {} THEN LET k == CHOOSE k \in bad : \A j \in bad : k <= j IN Bad(c0.runs[k]) \o "|" \o c0.runs[k].how
     ELSE IF two # {} THEN "order depends on the listing|" \o c0.runs[(CHOOSE p \in two : TRUE)[1]].how ELSE ""

\* dependency tables
RECURSIVE StripT(_, _)
StripT(t, S) == LET R == {x \in S : Range(t[x]) \cap S = {}} IN IF R = {} THEN S ELSE StripT(t, S \ R)
FaultT(c0) ==
  LET t == c0.table
      ok == StripT(t, DOMAIN t) = {}
      r == c0.run
  IN IF ok THEN (IF r.err THEN "no order for an acyclic table|table"
                 ELSE IF ~(/\ Range(r.order) = DOMAIN t /\ Len(r.order) = Cardinality(DOMAIN t)
                           /\ \A x \in DOMAIN t : \A y \in Range(t[x]) : At(r.order, y) < At(r.order, x))
                      THEN "not a valid order|table" ELSE "")
     ELSE IF ~r.err THEN "an order for a cyclic table|table" ELSE ""

Verdict == LET f == IF Cases[c].kind = "graph" THEN Fault(Cases[c]) ELSE FaultT(Cases[c])
           IN PrintT((IF f = "" THEN "OK|" ELSE "BAD|") \o Cases[c].id \o "|" \o f)
Next == c > 0 /\ Verdict /\ c' = 0
=============================================================================
