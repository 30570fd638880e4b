---------------------------- MODULE ArchiveTrace ----------------------------
(***************************************************************************)
(* Real exports judged by Archive.tla's conditions.  Per export:           *)
(*   src   constants of the model before export   [n, size, str, v, of]      *)
(*   res   the same constants in the archive's model                       *)
(*         [n, ext, at, v]  (v: fingerprint of type, shape and value as    *)
(*         read back), files: names in the archive besides the model       *)
(* of names the constant itself: an input's default that is also used    *)
(* elsewhere is one constant with two names.                               *)
(* Constants are named by their graph and tensor, unused ones may be gone. *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json
CONSTANT File
Cases == JsonDeserialize(File)
Elems(s) == {s[j] : j \in DOMAIN s}
Large(x, limit) == x.size > limit /\ ~x.str
Verdict(c) ==
  LET src == Elems(c.src)
      res == Elems(c.res)
      Of(y) == CHOOSE x \in src : x.n = y.n
      refs == [j \in {j \in DOMAIN c.res : c.res[j].ext} |-> c.res[j].at]
  IN IF c.err # "" THEN c.err
     ELSE IF \E x \in src : x.needed /\ ~\E y \in res : y.n = x.n THEN "a constant is lost"
     ELSE IF \E y \in res : ~\E x \in src : x.n = y.n THEN "a constant from nowhere"
     ELSE IF \E y \in res : y.ext # Large(Of(y), c.limit) THEN "inline or external against the threshold"
     ELSE IF \E y \in res : y.v # Of(y).v THEN "a constant read back differs"
     ELSE IF \E j, k \in DOMAIN refs : j # k /\ refs[j] = refs[k] /\ Of(c.res[j]).of # Of(c.res[k]).of THEN "two constants in one file"
     ELSE IF {refs[j] : j \in DOMAIN refs} # Elems(c.files) THEN "files and references differ"
     ELSE IF Cardinality(Elems(c.files)) # Len(c.files) THEN "a file twice"
     ELSE ""
VARIABLES c, done
vars == <<c, done>>
Init == c \in 1..Len(Cases) /\ done = FALSE
Next == /\ ~done /\ done' = TRUE /\ UNCHANGED c
        /\ LET v == Verdict(Cases[c]) IN IF v = "" THEN PrintT("OK|" \o Cases[c].id) ELSE PrintT("BAD|" \o Cases[c].id \o "|" \o v)
=============================================================================
