------------------------------- MODULE ProgMC -------------------------------
(* The programs in an arbitrary environment that obeys the hardware: ticks,  *)
(* conversions and pin changes at any moment (FAST: a tick only after the    *)
(* program has settled). Ghost counters record what reached the pins.        *)
EXTENDS Programs, TLC, IOUtils
CONSTANTS Fast, MaxSec, Levels
Prog == IOEnv.PROG
VARIABLES s, sec, out, lit
vars == <<s, sec, out, lit>>
\* a configuration that satisfies what the program has to configure
Ready == [Reset EXCEPT !.DDRB = 34, !.TCCR0A = 2, !.TCCR0B = 3, !.OCR0A = 249, !.TIMSK0 = 2, !.ADMUX = 64, !.ADCSRA = 239,
          !.TCCR1A = 131, !.TCCR1B = 1]
Init == /\ s \in Enable([Start(Prog) EXCEPT !.reg = Ready])
        /\ sec = 0 /\ out = 0 /\ lit = 0
DoTick == /\ sec < MaxSec /\ (Fast => Settled(s))
          /\ s' \in Tick(s)
          /\ sec' = IF s'.b = <<Ten, Ten, Ten>> THEN sec + 1 ELSE sec
          /\ UNCHANGED <<out, lit>>
DoAdc == \E v \in Levels : v # s.adc /\ s' \in Converted(s, v) /\ UNCHANGED <<sec, out, lit>>
DoStep == s' \in Steps(s) /\ UNCHANGED <<sec, out, lit>>
DoWrite == \/ \E v \in {With(s.reg.PORTB, LED, 0), With(s.reg.PORTB, LED, 1)} :
                /\ s' \in Write(s, "PORTB", v)
                /\ lit' = Bit(v, LED) /\ out' = (IF Prog = "blinkisr" THEN out + 1 ELSE out) /\ UNCHANGED sec
           \/ \E v \in {Clamp(a, 3, 1023) : a \in Levels \cup {0}} :
                /\ s' \in Write(s, "OCR1A", v) /\ out' = out + 1 /\ UNCHANGED <<sec, lit>>
Next == DoTick \/ DoAdc \/ DoStep \/ DoWrite
Spec == Init /\ [][Next]_vars /\ WF_vars(DoStep) /\ WF_vars(DoWrite)
--------------------------------------------------------------------------------
DacRange == s.reg.OCR1A \in {0} \cup 3..1023
OnlyTheLed == s.reg = [Ready EXCEPT !.PORTB = lit * 32, !.OCR1A = s.reg.OCR1A]
NeverMore == out <= sec                                      \* one output per second at most
\* and exactly one, when the main loop keeps up
EverySecond == Fast /\ Settled(s) => CASE Prog = "dac" -> s.pc # "blink" => out = sec - (6 * Ten) \div (Ten * Ten) + 1
                                       [] OTHER -> out = sec
\* a converted level above the middle lights the LED at the next tenth of a second, and only such a level does
Lights == [][Prog = "dac" /\ s.pc # "blinkw" /\ lit = 0 /\ lit' = 1 => s.pc = "loop1w"]_vars
Lossless == [][Prog = "dac" /\ Fast /\ s'.box[3] /\ s'.b = <<Ten, Ten, Ten>> /\ s.b # s'.b /\ s.pc # "blink" => ~s.box[3]]_vars
Responds == Prog = "dac" => (s.box[3] /\ s.pc \in {"loop1", "loop2"}) ~> (s.pc \in {"loop2o"} )
Follows == Prog = "adcisr" => \A v \in {1023, 0} : s.adc = v ~> (s.adc # v \/ Led(s) = (IF v > 512 THEN 1 ELSE 0))
=============================================================================
