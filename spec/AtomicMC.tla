------------------------------ MODULE AtomicMC -----------------------------
(* Main code accesses a value of SIZE bytes byte by byte; an interrupt       *)
(* service routine reads and replaces the whole value at any point at which  *)
(* interrupts are enabled. GUARD: main disables interrupts around the        *)
(* access. Invariant: outcomes are those of some order of the two as         *)
(* indivisible steps. Without guard, or with a guard that opens too late or  *)
(* closes too early, TLC finds a torn value. HW: two-byte access to a 16-bit *)
(* timer register, the bytes of which share a hidden TEMP byte with other    *)
(* 16-bit registers.                                                         *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS SIZE, GUARD, WRITE, HW
VARIABLES mem, temp, i, pc, acc, isr, saw, other
vars == <<mem, temp, i, pc, acc, isr, saw, other>>
Old == [k \in 1..SIZE |-> "old"]
New == [k \in 1..SIZE |-> "new"]
Put == [k \in 1..SIZE |-> "isr"]
Init == /\ mem = Old /\ temp = "junk" /\ i = 1 /\ pc = 0 /\ acc = [k \in 1..SIZE |-> "none"]
        /\ isr = "idle" /\ saw = <<>> /\ other = "junk"
\* steps of main: 0 enter, 1..SIZE the bytes, SIZE+1 leave
\* the guard's cli comes before byte From, its sei after byte To
From == CASE GUARD = "late" -> 3 [] GUARD = "none" -> 99 [] OTHER -> 1
To == CASE GUARD = "early" -> SIZE - 1 [] OTHER -> SIZE
Byte(k) == SIZE + 1 - k             \* high byte first; the order does not matter for memory
Main == /\ pc <= SIZE
        /\ pc' = pc + 1
        /\ IF pc = 0 THEN UNCHANGED <<mem, temp, acc>>
           ELSE IF WRITE THEN
                  /\ IF HW THEN (IF pc = 1 THEN temp' = "new" /\ mem' = mem
                                 ELSE mem' = [mem EXCEPT ![1] = "new", ![2] = temp] /\ temp' = temp)
                     ELSE mem' = [mem EXCEPT ![Byte(pc)] = "new"] /\ temp' = temp
                  /\ acc' = acc
           ELSE acc' = [acc EXCEPT ![Byte(pc)] = mem[Byte(pc)]] /\ UNCHANGED <<mem, temp>>
        /\ i' = IF GUARD = "none" THEN i ELSE IF pc + 1 = From THEN 0 ELSE IF pc = To THEN 1 ELSE i
        /\ UNCHANGED <<isr, saw, other>>
Isr == /\ isr = "idle" /\ i = 1 /\ isr' = "done" /\ saw' = mem
       /\ IF HW THEN temp' = "isr" /\ other' = "isr" /\ mem' = mem ELSE mem' = Put /\ UNCHANGED <<temp, other>>
       /\ UNCHANGED <<i, pc, acc>>
Next == Main \/ Isr
Spec == Init /\ [][Next]_vars /\ WF_vars(Main)
Done == pc = SIZE + 1
Whole == /\ saw # <<>> => saw \in {Old, New, Put}
         /\ Done /\ ~WRITE => acc \in {Old, Put}
         /\ Done /\ WRITE => mem \in (IF HW THEN {New} ELSE {New, Put})
Enabled == (pc = 0 \/ Done) /\ GUARD # "none" /\ GUARD # "late" => (Done => i = 1)
Finishes == <>(Done /\ i = 1)
=============================================================================
