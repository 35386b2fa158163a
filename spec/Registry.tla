------------------------------ MODULE Registry -----------------------------
(* The registry of backends: a function from names (texts) to backends     *)
(* (numbers, 0 is no backend).                                              *)
EXTENDS Integers, Sequences, Text

Empty == [n \in {} |-> 0]

\* ledger, txtdb, postgres: what opens a source without a scheme, in order
Defaults == << <<108, 101, 100, 103, 101, 114>>, <<116, 120, 116, 100, 98>>, <<112, 111, 115, 116, 103, 114, 101, 115>> >>

Found(reg, name) == IF name \in DOMAIN reg THEN reg[name] ELSE 0

IsLetter(b) == b \in 65..90 \cup 97..122
SchemeByte(b) == IsLetter(b) \/ b \in 48..57 \/ b \in {43, 45, 46}

\* The scheme of a source: what there is before the first ':', if it can be a scheme
Scheme(source) ==
  LET i == Find(source, 58, 1) IN
  IF i > 1 /\ IsLetter(source[1]) /\ \A j \in 1..(i - 1) : SchemeByte(source[j]) THEN Lower(Upto(source, i - 1)) ELSE <<>>

\* The backend that opens a source with this scheme
RECURSIVE FirstDefault(_, _)
FirstDefault(reg, i) == IF i > Len(Defaults) THEN 0 ELSE IF Found(reg, Defaults[i]) # 0 THEN Found(reg, Defaults[i]) ELSE FirstDefault(reg, i + 1)
Opener(reg, scheme) == IF scheme = <<>> THEN LET d == FirstDefault(reg, 1) IN IF d # 0 THEN d ELSE Found(reg, <<>>) ELSE Found(reg, scheme)

\* Registering: the result, and the registry afterwards
Accepts(reg, name, backend) == backend # 0 /\ name \notin DOMAIN reg
Registered(reg, name, backend) ==
  IF Accepts(reg, name, backend) THEN [n \in DOMAIN reg \cup {name} |-> IF n = name THEN backend ELSE reg[n]] ELSE reg
=============================================================================
