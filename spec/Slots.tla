------------------------------- MODULE Slots ------------------------------
(* Several ledgers in one process.  What a ledger contains is identified   *)
(* by a number: two ledgers with the same content have the same number.    *)
EXTENDS Integers, Sequences

CONSTANTS Slot, Content, NoLedger

VARIABLES
  content,   \* of every slot: its content, or NoLedger
  computed   \* the slots that nobody has changed since everything in them was computed

slotVars == <<content, computed>>

SlotsInit == content = [s \in Slot |-> NoLedger] /\ computed = {}

\* Opening a source that has some content when nothing else happens
OpenAs(s, c) == content' = [content EXCEPT ![s] = c] /\ computed' = computed \cup {s}
\* ... which can fail
OpenFails(s) == UNCHANGED slotVars

Clone(s, t) ==
  /\ content[s] # NoLedger
  /\ content' = [content EXCEPT ![t] = content[s]]
  /\ computed' = IF s \in computed THEN computed \cup {t} ELSE computed \ {t}

\* Somebody changes something in a ledger
Change(s, c) ==
  /\ content[s] # NoLedger
  /\ content' = [content EXCEPT ![s] = c]
  /\ computed' = computed \ {s}

\* Computing what was computed changes nothing
Fill(s, c) ==
  /\ content[s] # NoLedger
  /\ s \in computed => c = content[s]
  /\ content' = [content EXCEPT ![s] = c]
  /\ UNCHANGED computed

\* Any question, and closing, refreshing, flushing or exporting
Ask(s) == content[s] # NoLedger /\ UNCHANGED slotVars

SlotsNext == \E s \in Slot :
  \/ \E c \in Content : OpenAs(s, c) \/ Change(s, c) \/ Fill(s, c)
  \/ OpenFails(s) \/ Ask(s)
  \/ \E t \in Slot \ {s} : Clone(s, t)

\* Nothing done to a slot is seen in another one
Independent == [][\A s, t \in Slot : (s # t /\ content'[s] # content[s] /\ content'[t] # content[t]) => FALSE]_slotVars
=============================================================================
