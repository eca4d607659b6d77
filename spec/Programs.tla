------------------------------ MODULE Programs ------------------------------
(* The AVR programs of the repository as reactive systems: an interrupt or a *)
(* change of an input pin moves the program, and the program moves its pins, *)
(* compare registers and converters. Hardware interrupts and the main loop   *)
(* interleave freely; what the main loop does between two accesses of the    *)
(* hardware is an internal step.                                             *)
EXTENDS Integers, Sequences, FiniteSets
CONSTANT Ten                       \* ticks per box of the heartbeat: 10 in the programs, less in models

Bit(v, b) == (v \div 2^b) % 2
With(v, b, x) == v + (x - Bit(v, b)) * 2^b
Fields(v, lo, n) == (v \div 2^lo) % 2^n
Clamp(v, lo, hi) == IF v < lo THEN lo ELSE IF hi < v THEN hi ELSE v

\* what a program has after reset
Reset == [PORTB |-> 0, DDRB |-> 0, DDRD |-> 0, PORTD |-> 0, TCCR0A |-> 0, TCCR0B |-> 0, OCR0A |-> 0, TIMSK0 |-> 0,
          TCCR1A |-> 0, TCCR1B |-> 0, OCR1A |-> 0, OCR1B |-> 0, ICR1 |-> 0, ADMUX |-> 0, ADCSRA |-> 0, ADCSRB |-> 0]
LED == 5

Start(prog) == [prog |-> prog, pc |-> "init", reg |-> Reset, on |-> FALSE,
                b |-> <<Ten, Ten, Ten>>, box |-> <<FALSE, FALSE, FALSE>>, \* counters and boxes of 10, 100, 1000 ms
                adc |-> 0, smp |-> 0, n |-> 0, up |-> TRUE, pin |-> 0, owe |-> 0]

--------------------------------------------------------------------------------
(* Configurations: what the registers must hold before the program runs       *)
LedOut(r) == Bit(r.DDRB, LED) = 1
\* timer 0 clears on compare match, and matches every millisecond of a 16 MHz clock
Prescale(r) == CASE Fields(r.TCCR0B, 0, 3) = 1 -> 1 [] Fields(r.TCCR0B, 0, 3) = 2 -> 8 [] Fields(r.TCCR0B, 0, 3) = 3 -> 64
                 [] Fields(r.TCCR0B, 0, 3) = 4 -> 256 [] Fields(r.TCCR0B, 0, 3) = 5 -> 1024 [] OTHER -> 0
Millisecond(r) == /\ Fields(r.TCCR0A, 0, 2) = 2 /\ Bit(r.TCCR0B, 3) = 0
                  /\ Prescale(r) * (r.OCR0A + 1) = 16000
                  /\ r.TIMSK0 = 2
\* the converter runs freely on channel 0 against AVcc, right adjusted, at 125 kHz, with its interrupt
Sampling(r) == /\ Fields(r.ADMUX, 6, 2) = 1 /\ Bit(r.ADMUX, 5) = 0 /\ Fields(r.ADMUX, 0, 4) = 0
               /\ Fields(r.ADCSRA, 0, 3) = 7 /\ Bit(r.ADCSRA, 3) = 1 /\ Fields(r.ADCSRA, 5, 3) = 7
               /\ Fields(r.ADCSRB, 0, 3) = 0
\* timer 1: 10-bit pulse width modulation without prescaling, on a (and b); phase: the phase correct one
Pulse(r, b, phase) == /\ Fields(r.TCCR1A, 6, 2) = 2 /\ (b => Fields(r.TCCR1A, 4, 2) = 2)
                      /\ Fields(r.TCCR1A, 0, 2) = 3 /\ Fields(r.TCCR1B, 3, 2) = (IF phase THEN 0 ELSE 1) /\ Fields(r.TCCR1B, 0, 3) = 1
                      /\ Bit(r.DDRB, 1) = 1 /\ (b => Bit(r.DDRB, 2) = 1)
Config(prog, r) ==
    CASE prog = "blinkisr" -> LedOut(r) /\ Millisecond(r)
      [] prog = "adcisr" -> LedOut(r) /\ Sampling(r)
      [] prog = "dac" -> /\ LedOut(r) /\ Millisecond(r) /\ Sampling(r)
                         /\ Pulse(r, FALSE, TRUE) \/ Pulse(r, FALSE, FALSE)
      [] prog = "fade" -> /\ LedOut(r) /\ Pulse(r, TRUE, FALSE) /\ Bit(r.DDRD, 0) = 0 /\ Bit(r.DDRD, 6) = 1
                          /\ Fields(r.TCCR0A, 6, 2) = 2 /\ Fields(r.TCCR0A, 0, 2) = 3 /\ Fields(r.TCCR0B, 0, 4) = 3
      [] prog \in {"blink", "time"} -> LedOut(r)
      [] OTHER -> TRUE

--------------------------------------------------------------------------------
(* Interrupts                                                                  *)
\* heartbeat: one of ten ticks passes on to the next box
Beat(s) ==
    IF s.b[1] > 1 THEN [s EXCEPT !.b[1] = @ - 1]
    ELSE IF s.b[2] > 1 THEN [s EXCEPT !.b = <<Ten, s.b[2] - 1, s.b[3]>>, !.box[1] = TRUE]
    ELSE IF s.b[3] > 1 THEN [s EXCEPT !.b = <<Ten, Ten, s.b[3] - 1>>, !.box[1] = TRUE, !.box[2] = TRUE]
    ELSE [s EXCEPT !.b = <<Ten, Ten, Ten>>, !.box = <<TRUE, TRUE, TRUE>>]
Tick(s) ==
    LET t == Beat(s)
    IN  CASE s.prog = "blinkisr" -> {[t EXCEPT !.owe = IF t.box[3] THEN @ + 1 ELSE @, !.box = <<FALSE, FALSE, FALSE>>]}
          [] s.prog = "dac" -> {t}
          [] OTHER -> {}
Converted(s, v) == IF s.prog \in {"dac", "adcisr"} THEN {[s EXCEPT !.adc = v]} ELSE {}

--------------------------------------------------------------------------------
(* The main loops                                                              *)
Led(s) == Bit(s.reg.PORTB, LED)
AdcMax == 1023
FadeTop == 1023
\* internal steps
Steps(s) ==
    CASE s.prog = "dac" /\ s.pc \in {"blink", "loop1"} /\ s.box[2] -> {[s EXCEPT !.pc = IF s.pc = "blink" THEN "blinkt" ELSE "loop1t"]}
      [] s.prog = "dac" /\ s.pc = "blinkt" -> {[s EXCEPT !.pc = "blinkw", !.box[2] = FALSE]}
      [] s.prog = "dac" /\ s.pc = "loop1t" -> {[s EXCEPT !.pc = "loop1r", !.box[2] = FALSE]}
      [] s.prog = "dac" /\ s.pc = "loop1r" -> {[s EXCEPT !.pc = IF s.adc > AdcMax \div 2 THEN "loop1w" ELSE "loop2"]}
      [] s.prog = "dac" /\ s.pc = "loop1w" -> IF Led(s) = 1 THEN {[s EXCEPT !.pc = "loop2"]} ELSE {}
      [] s.prog = "dac" /\ s.pc = "loop1" -> {[s EXCEPT !.pc = "loop2"]}
      [] s.prog = "dac" /\ s.pc = "loop2" -> {[s EXCEPT !.pc = IF s.box[3] THEN "loop2t" ELSE "loop1"]}
      [] s.prog = "dac" /\ s.pc = "loop2t" -> {[s EXCEPT !.pc = "loop2w", !.box[3] = FALSE]}
      [] s.prog = "dac" /\ s.pc = "loop2w" -> IF Led(s) = 0 THEN {[s EXCEPT !.pc = "loop2r"]} ELSE {}
      [] s.prog = "dac" /\ s.pc = "loop2r" -> {[s EXCEPT !.pc = "loop2o", !.smp = Clamp(s.adc, 3, 1023)]}
      [] s.prog = "adcisr" /\ s.pc = "r1" -> {[s EXCEPT !.pc = "w1", !.smp = IF s.adc > 512 THEN 1 ELSE 0]}
      [] s.prog = "adcisr" /\ s.pc = "r2" -> {[s EXCEPT !.pc = "w2", !.smp = IF s.adc \div 4 > 128 THEN 1 ELSE 0]}
      [] s.prog = "adcisr" /\ s.pc \in {"w1", "w2"} -> IF Led(s) = s.smp THEN {[s EXCEPT !.pc = IF s.pc = "w1" THEN "r2" ELSE "r1"]} ELSE {}
      [] s.prog = "fade" /\ s.pc = "delay" -> {[s EXCEPT !.pc = "delayw", !.smp = s.pin], [s EXCEPT !.pc = "oc0"]}
      [] s.prog = "fade" /\ s.pc = "delayw" -> IF Led(s) = s.smp THEN {[s EXCEPT !.pc = "delay"]} ELSE {}
      [] OTHER -> {}

\* the next duty cycle: up from 0 to below the top, down from the top to 1
FadeNext(s) == IF s.up THEN (IF s.n + 1 < FadeTop THEN [s EXCEPT !.n = @ + 1] ELSE [s EXCEPT !.n = FadeTop, !.up = FALSE])
               ELSE IF s.n > 1 THEN [s EXCEPT !.n = @ - 1] ELSE [s EXCEPT !.n = 0, !.up = TRUE]
\* the program changes (or, for compare registers, stores) a register
OnlyLed(s, r, v) == r = "PORTB" /\ v = With(s.reg.PORTB, LED, 1 - Led(s))
Put(s, r, v) == [s EXCEPT !.reg[r] = v]
Write(s, r, v) ==
    CASE s.pc = "init" /\ ~(s.prog = "fade" /\ r \in {"OCR0A", "OCR1A", "OCR1B"}) /\ ~(s.prog \in {"blink", "time"} /\ r = "PORTB" /\ LedOut(s.reg)) ->
            IF r \in DOMAIN s.reg THEN {Put(s, r, v)} ELSE {}
      [] s.prog \in {"blink", "time"} /\ OnlyLed(s, r, v) -> {[Put(s, r, v) EXCEPT !.pc = "run"]}
      [] s.prog = "blinkisr" /\ OnlyLed(s, r, v) /\ s.owe > 0 -> {[Put(s, r, v) EXCEPT !.owe = @ - 1]}
      [] s.prog = "adcisr" /\ s.pc \in {"w1", "w2"} /\ OnlyLed(s, r, v) /\ Led(s) # s.smp -> {[Put(s, r, v) EXCEPT !.pc = IF s.pc = "w1" THEN "r2" ELSE "r1"]}
      [] s.prog = "dac" /\ s.pc = "blinkw" /\ OnlyLed(s, r, v) ->
            {[Put(s, r, v) EXCEPT !.n = @ - 1, !.pc = IF s.n = 1 THEN "loop1" ELSE "blink"]}
      [] s.prog = "dac" /\ s.pc = "loop1w" /\ OnlyLed(s, r, v) /\ Led(s) = 0 -> {[Put(s, r, v) EXCEPT !.pc = "loop2"]}
      [] s.prog = "dac" /\ s.pc = "loop2w" /\ OnlyLed(s, r, v) /\ Led(s) = 1 -> {[Put(s, r, v) EXCEPT !.pc = "loop2r"]}
      [] s.prog = "dac" /\ s.pc = "loop2o" /\ r = "OCR1A" /\ v = s.smp -> {[Put(s, r, v) EXCEPT !.pc = "loop1"]}
      [] s.prog = "fade" /\ s.pc \in {"init", "oc0", "delay"} /\ r = "OCR0A" ->
            LET t == IF s.pc = "init" THEN s ELSE FadeNext(s)
            IN  IF (s.pc = "init" => Config("fade", s.reg)) /\ v = t.n \div 4 THEN {[Put(t, r, v) EXCEPT !.pc = "oc1a"]} ELSE {}
      [] s.prog = "fade" /\ s.pc = "oc1a" /\ r = "OCR1A" /\ v = s.n -> {[Put(s, r, v) EXCEPT !.pc = "oc1b"]}
      [] s.prog = "fade" /\ s.pc = "oc1b" /\ r = "OCR1B" /\ v = FadeTop - s.n -> {[Put(s, r, v) EXCEPT !.pc = "delay"]}
      [] s.prog = "fade" /\ s.pc = "delayw" /\ OnlyLed(s, r, v) /\ Led(s) # s.smp -> {[Put(s, r, v) EXCEPT !.pc = "delay"]}
      [] OTHER -> {}

\* interrupts are enabled by the main program, once, when everything is configured
Enable(s) == IF s.pc # "init" THEN {s}
             ELSE IF s.prog \in {"blinkisr", "adcisr", "dac"} /\ Config(s.prog, s.reg)
             THEN {[s EXCEPT !.on = TRUE, !.n = 6, !.pc = CASE s.prog = "dac" -> "blink" [] s.prog = "adcisr" -> "r1" [] OTHER -> "run"]}
             ELSE {}
Pin(s, v) == {[s EXCEPT !.pin = v]}

\* the program has been left alone for long enough to have done everything it has to do
Settled(s) ==
    CASE s.pc = "init" -> s.prog = "none" \/ ~s.on
      [] s.prog = "blinkisr" -> s.owe = 0
      [] s.prog = "adcisr" -> LET a == IF s.adc > 512 THEN 1 ELSE 0
                                  b == IF s.adc \div 4 > 128 THEN 1 ELSE 0
                              IN  a = b => Led(s) = a
      [] s.prog = "dac" -> s.pc \in {"blink", "loop1", "loop2"} /\ ~s.box[2] /\ (s.pc # "blink" => ~s.box[3])
      [] s.prog = "fade" -> s.pc \in {"delay", "delayw", "oc0", "oc1a", "oc1b"} => Led(s) = s.pin
      [] OTHER -> TRUE
=============================================================================
