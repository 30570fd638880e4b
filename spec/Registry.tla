------------------------------ MODULE Registry ------------------------------
(***************************************************************************)
(* The table of handlers, the choice of a handler for an operator, and the *)
(* mapping pass that hands every node to the chosen handler.               *)
(*                                                                         *)
(* reg      <<domain, operator, version>> -> handler (a number)            *)
(* pending  nodes not handed over yet in the current stage                 *)
(* A conversion has one stage (TensorFlow operators) or two (TFLite        *)
(* operators are first turned into TensorFlow operators).                  *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC

Onnx == ""
TflDomain == "com.google.tensorflow"
None == 0

MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
Range(f) == {f[x] : x \in DOMAIN f}

(* later registrations for the same operator, domain and version replace earlier ones *)
RegisterIn(reg, dom, ops, v, h) == [k \in {<<dom, o, v>> : o \in ops} |-> h] @@ reg

(* newest handler of the operator in the domain that is not newer than m *)
Best(reg, dom, op, m) == LET V == {v \in 0..m : <<dom, op, v>> \in DOMAIN reg}
                         IN IF V = {} THEN None ELSE reg[<<dom, op, MaxOf(V)>>]

(* a request: [onnx : version, extra : domain -> version, cust : operator -> handler].
   The handlers that may serve the operator: the caller's own one, else one from a requested additional
   domain, else the one of the standard domain *)
Choices(reg, q, op) ==
  IF op \in DOMAIN q.cust THEN {q.cust[op]}
  ELSE LET X == {Best(reg, d, op, q.extra[d]) : d \in DOMAIN q.extra} \ {None}
       IN IF X # {} THEN X ELSE {Best(reg, Onnx, op, q.onnx)}

(* the handler a single domain offers under the request *)
InDomain(reg, q, dom, op) == IF dom = Onnx THEN Best(reg, Onnx, op, q.onnx)
                             ELSE IF dom \in DOMAIN q.extra THEN Best(reg, dom, op, q.extra[dom]) ELSE None
TflHandler(reg, op) == IF <<TflDomain, op, 0>> \in DOMAIN reg THEN reg[<<TflDomain, op, 0>>] ELSE None
=============================================================================
