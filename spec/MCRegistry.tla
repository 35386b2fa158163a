----------------------------- MODULE MCRegistry ----------------------------
(* The registry as several goroutines use it, step by step: a table        *)
(* protected by a lock for readers and writers.  Whatever each of them does *)
(* takes effect at once, as in Registry, and every one ends, even when a    *)
(* backend registers others, or opens something, while it opens a source.  *)
EXTENDS Integers, Sequences, FiniteSets, Text, Registry, TLC, Json

CONSTANTS First, Second,  \* how many operations each goroutine does, at most
          Held            \* whether the lock is held while a backend opens a source (and then, some never end)

Proc == 1..2
LOCAL A == <<97>>
LOCAL L == Defaults[1]
LOCAL P == Defaults[3]
LOCAL Colon == <<58>>
LOCAL X == <<120>>

Reg(n, d) == [op |-> "register", name |-> n, driver |-> d, source |-> <<>>]
Open(s) == [op |-> "open", name |-> <<>>, driver |-> 0, source |-> s]
Tasks == {Reg(A, 1), Reg(A, 2), Reg(L, 1), Reg(P, 3), Reg(<<>>, 1), Reg(A, 0), Open(X), Open(A \o Colon), Open(L \o Colon \o X)}
\* what backends do while they open a source: nothing, register another one, open something
Inner(d) == CASE d = 2 -> << Reg(L, 1) >> [] d = 3 -> << Open(A \o Colon), Reg(A, 1) >> [] OTHER -> <<>>

Programs(n) == UNION {[1..k -> Tasks] : k \in 1..n}

VARIABLES prog,     \* what every goroutine has to do
          stack,    \* its operations under way, the innermost one first: [task, pc, at, found, dup]
          todo,     \* of every one of them, what is still to be done after it: a sequence of sequences
          table,    \* the memory
          readers, writer, waiting,   \* the lock: nobody begins to read while somebody waits to write
          reg,      \* the registry, as Registry has it
          wrong
vars == <<prog, stack, todo, table, readers, writer, waiting, reg, wrong>>

Frame(t) == [task |-> t, pc |-> "begin", at |-> 1, found |-> 0, dup |-> FALSE]

Init == /\ prog \in [Proc -> Programs(First)] /\ Len(prog[2]) <= Second
        /\ stack = [p \in Proc |-> <<>>]
        /\ todo = [p \in Proc |-> << prog[p] >>]
        /\ table = Empty /\ reg = Empty /\ readers = 0 /\ writer = 0 /\ waiting = {} /\ wrong = FALSE

Top(p) == stack[p][1]
Go(p, f) == stack' = [stack EXCEPT ![p] = <<f>> \o Tail(stack[p])]
At(p, op, pc) == IF stack[p] = <<>> THEN FALSE ELSE Top(p).task.op = op /\ Top(p).pc = pc

\* the next operation of what a goroutine, or the backend that it is in, has to do
Begin(p) == /\ todo[p] # <<>> /\ todo[p][1] # <<>> /\ (IF stack[p] = <<>> THEN TRUE ELSE Top(p).pc = "inside")
            /\ stack' = [stack EXCEPT ![p] = << Frame(todo[p][1][1]) >> \o stack[p]]
            /\ todo' = [todo EXCEPT ![p] = << Tail(todo[p][1]) >> \o Tail(todo[p])]
            /\ UNCHANGED <<prog, table, readers, writer, waiting, reg, wrong>>
End(p) == stack' = [stack EXCEPT ![p] = Tail(stack[p])]

\* Register
Wait(p) == /\ At(p, "register", "begin") /\ waiting' = waiting \cup {p} /\ Go(p, [Top(p) EXCEPT !.pc = "wait"])
           /\ UNCHANGED <<prog, todo, table, readers, writer, reg, wrong>>
Lock(p) == /\ At(p, "register", "wait") /\ readers = 0 /\ writer = 0
           /\ writer' = p /\ waiting' = waiting \ {p} /\ Go(p, [Top(p) EXCEPT !.pc = "look"])
           /\ UNCHANGED <<prog, todo, table, readers, reg, wrong>>
LookFor(p) == /\ At(p, "register", "look")
              /\ Go(p, [Top(p) EXCEPT !.pc = "store", !.dup = Top(p).task.driver = 0 \/ Top(p).task.name \in DOMAIN table])
              /\ UNCHANGED <<prog, todo, table, readers, writer, waiting, reg, wrong>>
Store(p) == /\ At(p, "register", "store")
            /\ LET t == Top(p).task IN
               /\ table' = IF Top(p).dup THEN table ELSE [n \in DOMAIN table \cup {t.name} |-> IF n = t.name THEN t.driver ELSE table[n]]
               /\ reg' = Registered(reg, t.name, t.driver)
               /\ wrong' = (wrong \/ Top(p).dup = Accepts(reg, t.name, t.driver))
            /\ Go(p, [Top(p) EXCEPT !.pc = "unlock"])
            /\ UNCHANGED <<prog, todo, readers, writer, waiting>>
Unlock(p) == /\ At(p, "register", "unlock") /\ writer' = 0 /\ End(p) /\ UNCHANGED <<prog, todo, table, readers, waiting, reg, wrong>>

\* Open
RLock(p) == /\ At(p, "open", "begin") /\ writer = 0 /\ waiting = {}
            /\ readers' = readers + 1
            /\ Go(p, [Top(p) EXCEPT !.pc = IF Scheme(Top(p).task.source) = <<>> THEN "scan" ELSE "find", !.found = 0])
            /\ UNCHANGED <<prog, todo, table, writer, waiting, reg, wrong>>
Scan(p) == /\ At(p, "open", "scan")     \* the default ones, one by one
           /\ LET f == Top(p) d == IF f.at <= Len(Defaults) THEN Found(table, Defaults[f.at]) ELSE Found(table, <<>>) IN
              Go(p, IF d # 0 \/ f.at > Len(Defaults) THEN [f EXCEPT !.pc = "release", !.found = d] ELSE [f EXCEPT !.at = f.at + 1])
           /\ UNCHANGED <<prog, todo, table, readers, writer, waiting, reg, wrong>>
Find1(p) == /\ At(p, "open", "find")
            /\ Go(p, [Top(p) EXCEPT !.pc = "release", !.found = Found(table, Scheme(Top(p).task.source))])
            /\ UNCHANGED <<prog, todo, table, readers, writer, waiting, reg, wrong>>
RUnlock(p) == /\ At(p, "open", "release") /\ readers' = IF Held THEN readers ELSE readers - 1
              /\ LET f == Top(p) IN
                 /\ wrong' = (wrong \/ f.found # Opener(reg, Scheme(f.task.source)))
                 /\ Go(p, [f EXCEPT !.pc = "inside"])
                 /\ todo' = [todo EXCEPT ![p] = << Inner(f.found) >> \o todo[p]]
              /\ UNCHANGED <<prog, table, writer, waiting, reg>>
Return(p) == /\ At(p, "open", "inside") /\ todo[p][1] = <<>> /\ End(p) /\ todo' = [todo EXCEPT ![p] = Tail(todo[p])]
             /\ readers' = IF Held THEN readers - 1 ELSE readers
             /\ UNCHANGED <<prog, table, writer, waiting, reg, wrong>>

Step(p) == Begin(p) \/ Wait(p) \/ Lock(p) \/ LookFor(p) \/ Store(p) \/ Unlock(p) \/ RLock(p) \/ Scan(p) \/ Find1(p) \/ RUnlock(p) \/ Return(p)
Ended == \A p \in Proc : stack[p] = <<>> /\ todo[p] = << <<>> >>
Done == Ended /\ PrintT(<<"@@", ToJson(prog)>>) /\ UNCHANGED vars
Next == (\E p \in Proc : Step(p)) \/ Done
Spec == Init /\ [][Next]_vars /\ \A p \in Proc : WF_vars(Step(p))

Right == ~wrong
Same == writer = 0 => table = reg
Locks == (writer # 0 => readers = 0) /\ readers >= 0
Termination == <>Ended
\* what has been registered stays as it is
Forever == [][\A n \in DOMAIN reg : n \in DOMAIN reg' /\ reg'[n] = reg[n]]_vars
=============================================================================
