------------------------------ MODULE MCSlots -----------------------------
(* Three slots and two contents: a slot changes only by what is done to it *)
EXTENDS Slots
TypeOK == content \in [Slot -> Content \cup {NoLedger}] /\ computed \subseteq Slot
Spec == SlotsInit /\ [][SlotsNext]_slotVars
=============================================================================
