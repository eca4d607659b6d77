----------------------------- MODULE BuildTrace -----------------------------
(* The build scripts as a pipeline over files. The state is what each file   *)
(* has been made from: a compilation makes an object from a source with      *)
(* options, a link a program from objects, a conversion a memory image from  *)
(* a program. A tool may only use what exists. When an invocation ends, the  *)
(* files it was asked for have been made from exactly what it was given.     *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt
VARIABLES l, s
Trace == ndJsonDeserialize(IOEnv.TRACE)
Rng(q) == {q[i] : i \in DOMAIN q}
Starts(x, p) == Len(x) >= Len(p) /\ SubSeq(x, 1, Len(p)) = p
\* the values given for an option
Of(c, p) == {SubSeq(x, Len(p) + 1, Len(x)) : x \in {y \in Rng(c.opts) : Starts(y, p)}}
Clock(d) == Starts(d, "F_CPU_HZ=")
NotClock(d) == ~Clock(d)
--------------------------------------------------------------------------------
(* What a run of a tool makes                                                 *)
Compile(c) == [src |-> c.in[1], std |-> Of(c, "-std="), O |-> Of(c, "-O"), mcu |-> Of(c, "-mmcu="),
               clock |-> Rng(SelectSeq(c.D, Clock)), D |-> SelectSeq(c.D, NotClock), I |-> c.I]
Made(c) ==
    CASE c.tool = "avr-g++" /\ {"-S", "-c"} \cap Rng(c.opts) # {} ->
            IF Len(c.in) = 1 /\ c.in[1] \in Rng(c.have)
            THEN {[kind |-> IF "-S" \in Rng(c.opts) THEN "assembly" ELSE "object", of |-> Compile(c)]} ELSE {}
      [] c.tool = "avr-g++" /\ Len(c.in) > 0 ->
            IF Rng(c.in) \subseteq DOMAIN s.file /\ \A f \in Rng(c.in) : s.file[f].kind = "object"
            THEN {[kind |-> "program", of |-> [objects |-> {s.file[f].of : f \in Rng(c.in)}, n |-> Len(c.in), O |-> Of(c, "-O"), mcu |-> Of(c, "-mmcu="),
                   libs |-> Of(c, "-l")]]} ELSE {}
      [] c.tool = "avr-objcopy" ->
            IF Len(c.in) = 2 /\ c.in[1] \in DOMAIN s.file /\ s.file[c.in[1]].kind = "program" /\ c.format = "ihex" /\ c.o = c.in[2]
            THEN {[kind |-> IF c.only = ".eeprom" /\ c.without = "" THEN "eeprom" ELSE IF c.only = "" /\ c.without = ".eeprom" THEN "flash" ELSE "other",
                   of |-> s.file[c.in[1]].of]} ELSE {}
      [] OTHER -> {}
--------------------------------------------------------------------------------
(* What an invocation has to make                                             *)
Asked(w, f) == [src |-> f.name, std |-> {w.std}, O |-> {w.O}, mcu |-> {w.mcu}, clock |-> {"F_CPU_HZ=" \o w.fcpu}, D |-> w.D, I |-> w.I]
Program(w) == [objects |-> {Asked(w, f) : f \in Rng(w.files)}, n |-> Len(w.files), O |-> {w.O}, mcu |-> {w.mcu}, libs |-> {"m"}]
Wanted(w) == {<<f.base \o ".s", [kind |-> "assembly", of |-> Asked(w, f)]>> : f \in Rng(w.files)}
             \cup {<<f.base \o ".o", [kind |-> "object", of |-> Asked(w, f)]>> : f \in Rng(w.files)}
             \cup {<<w.out \o ".elf", [kind |-> "program", of |-> Program(w)]>>,
                   <<w.out \o ".hex", [kind |-> "flash", of |-> Program(w)]>>, <<w.out \o ".eep", [kind |-> "eeprom", of |-> Program(w)]>>}
Files == {<<f, s.file[f]>> : f \in DOMAIN s.file}
\* programs of a make script: each has been compiled with the options its name stands for
Variants == {[nt |-> n, upd |-> u, O |-> o] : n \in {"double", "fp32_t"}, u \in {"0", "1"}, o \in {"s", "2"}}
Variant(v) == [D |-> <<"KE_NUMERIC_TYPE=" \o v.nt, "KE_UPDATE_KALMAN_GAIN=" \o v.upd>>, O |-> {v.O}]
Flashes == {s.file[f] : f \in {x \in DOMAIN s.file : s.file[x].kind = "flash"}}
Single(p) == p.of.n = 1 /\ \A x \in p.of.objects : x.mcu = {"atmega328p"} /\ x.clock # {} /\ Cardinality(x.O) = 1 /\ x.O = p.of.O
Ends(w, said) ==
    CASE w.kind = "build" -> said = Len(w.files) /\ Files = (IF w.files = <<>> THEN {} ELSE Wanted(w)) /\ (w.verbose > 1 /\ w.files # <<>> => s.shown > 0)
      [] w.kind = "make" -> Cardinality(Flashes) = 1 /\ \A p \in Flashes : Single(p)
      [] w.kind = "time" -> /\ \A p \in Flashes : Single(p)
                            /\ {[D |-> x.D, O |-> x.O] : x \in UNION {p.of.objects : p \in Flashes}} = {Variant(v) : v \in Variants}
      [] OTHER -> s.shown = 1
Step(e) ==
    CASE e.ev = "session" -> s' = [want |-> e.want, file |-> <<>>, shown |-> 0]
      [] e.ev = "run" /\ s.want.kind \in {"build", "make", "time"} ->
            \/ e.tool = "avr-size" /\ Len(e.in) = 1 /\ e.in[1] \in DOMAIN s.file /\ s' = [s EXCEPT !.shown = @ + 1]
            \/ e.made = <<e.o>> /\ \E m \in Made(e) : s' = [s EXCEPT !.file = (e.o :> m) @@ @]
      [] e.ev = "run" /\ s.want.kind = "macros" ->
            /\ e.tool = "avr-g++" /\ {"-E", "-dM"} \subseteq Rng(e.opts) /\ Of(e, "-mmcu=") = {s.want.mcu}
            /\ (s.want.std # "" => Of(e, "-std=") = {s.want.std} /\ Of(e, "-O") = {s.want.O} /\ "-xc++" \in Rng(e.opts))
            /\ s' = [s EXCEPT !.shown = @ + 1]
      [] e.ev = "run" /\ s.want.kind = "upload" ->
            /\ e.tool = "avrdude" /\ "-p" \o s.want.mcu \in Rng(e.opts) /\ Of(e, "-Uflash:w:") = {s.want.out \o ":i"}
            /\ s' = [s EXCEPT !.shown = @ + 1]
      [] e.ev = "end" -> Ends(s.want, e.said) /\ UNCHANGED s
      [] OTHER -> FALSE
TraceInit == l = 1 /\ s = <<>>
TraceNext == l <= Len(Trace) /\ Step(Trace[l]) /\ l' = l + 1
TraceSpec == TraceInit /\ [][TraceNext]_<<l, s>>
TraceAccepted == LET d == TLCGet("stats").diameter IN d = Len(Trace) + 1 \/ (PrintT(<<"REJECT", d, Trace[d]>>) /\ FALSE)
=============================================================================
