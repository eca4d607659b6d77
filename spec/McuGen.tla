------------------------------- MODULE McuGen ------------------------------
(* Commands of the register layer, for replay into the compiled code: every  *)
(* operation with every (for wide fields: selected) value, in an arbitrary   *)
(* order of registers, and random histories of them with hardware events in  *)
(* between. PART = 1: named registers and fields; 2: settings, flags; 3:     *)
(* joined settings; 4, 5: flags of 2 and 1 with all register contents.       *)
EXTENDS Mcu, SequencesExt, IOUtils
VARIABLES n, hist
PART == IOEnv.PART
LEN == atoi(IOEnv.LEN)
DEEP == IOEnv.DEEP = "1"
ReadRegs == {"tws", "twint", "twwc", "aco", "adc", "adchl", "adcl", "adch", "adsc", "ocr1al", "ocr1ah", "ocr1bl", "ocr1bh", "tcnt1l", "icr1l", "pinb", "pinc", "pind"}
            \cup {"pin" \o p \o ToString(i) : p \in {"b", "c", "d"}, i \in 0..7}
FlagRegs == {"eifr_int0", "eifr_int1", "pcifr_0", "pcifr_1", "pcifr_2", "ocf0b", "ocf0a", "tov0", "icf1", "ocf1b", "ocf1a", "tov1", "twintc", "aci", "adif"}
StrobeRegs == {"foc0a", "foc0b", "foc1a", "foc1b"}
Bits == {r \in DOMAIN Registers \ (ReadRegs \cup FlagRegs \cup StrobeRegs) : Width(Registers[r]) = 1}
\* values tried for a field of w bits
Some(w) == IF w <= 4 THEN 0..(2 ^ w - 1) ELSE IF DEEP /\ w <= 8 THEN 0..(2 ^ w - 1) ELSE {0, 1, 2 ^ w - 1, 2 ^ (w - 1)} \cup {2 ^ i : i \in 0..(w - 1)} \cup {(k * 37 + 11) % 2 ^ w : k \in 1..12} \cup {(k * 7919 + 85) % 2 ^ w : k \in 1..12}
\* a value wider than a field of w bits is reduced to it
Over(w) == IF w \in 2..6 THEN {255, 2 ^ w, 129} ELSE {}
C(o, nm, args) == <<o, nm, args>>
Cmd1 == {C("rd", r, <<>>) : r \in DOMAIN Registers \ StrobeRegs}
        \cup UNION {{C("wr", r, <<v>>) : v \in Some(Width(Registers[r])) \cup Over(Width(Registers[r]))} : r \in DOMAIN Registers \ (ReadRegs \cup FlagRegs \cup StrobeRegs \cup Bits)}
        \cup {C(o, r, <<>>) : o \in {"on", "off", "tgl"}, r \in Bits} \cup {C("wr", r, <<v>>) : v \in {0, 1, 2, 128}, r \in Bits}
        \cup {C("clr", r, <<>>) : r \in FlagRegs} \cup {C("stb", r, <<>>) : r \in StrobeRegs} \cup {C("on", "adsc", <<>>)}
        \cup {C("adr", r, <<>>) : r \in DOMAIN Addresses} \cup {C("rd", r, <<>>) : r \in DOMAIN CpuBytes}
        \cup {C(o, r, <<>>) : o \in {"rd", "on", "off", "tgl"}, r \in DOMAIN SregBits} \cup {C("wr", r, <<v>>) : v \in {0, 1, 64}, r \in DOMAIN SregBits}
        \cup {C("rd", "sreg", <<>>)} \cup {C("wr", "sreg", <<v>>) : v \in {0, 255, 128, 64, 85, 170, 3}} \cup {C("scoped", "sreg", <<v>>) : v \in {0, 1, 2, 200, 255}}
Tuples(ns) == LET dom(i) == 0..(IF ns[i] = "twi_address" THEN 127 ELSE Values(ns[i]) - 1) IN
    CASE Len(ns) = 2 -> {<<a, b>> : a \in dom(1), b \in dom(2)}
      [] Len(ns) = 3 -> {<<a, b, c>> : a \in dom(1), b \in dom(2), c \in dom(3)}
      [] Len(ns) = 4 -> {<<a, b, c, d>> : a \in dom(1), b \in dom(2), c \in dom(3), d \in dom(4)}
Single == DOMAIN Settings \ {"pwm"}
Cmd2 == UNION {{C("set", r, <<v>>) : v \in (IF Width(Settings[r]) <= 4 THEN 0..(Values(r) - 1) ELSE Some(Width(Settings[r])))} : r \in DOMAIN Settings}
        \cup {C("get", r, <<>>) : r \in Single \ {"eeprom_mode"}} \cup {C("get", r, <<>>) : r \in DOMAIN ReadOnly} \cup {C("one", r, <<>>) : r \in DOMAIN Ones}
        \cup {C("clr", r, <<>>) : r \in {f \in DOMAIN Flags : f \notin FlagRegs}} \cup {C("flg", r, <<>>) : r \in FlagReads}
        \cup {C("stb", r, <<>>) : r \in DOMAIN Strobes \ StrobeRegs} \cup {C("val", "twi_status", <<i>>) : i \in 0..6}
        \cup {C(o, r, <<>>) : o \in {"on", "off", "tgl"}, r \in {"led_b5", "led_c0", "led_d7"}} \cup {C("on", r \o "_dir", <<>>) : r \in {"led_b5", "led_c0", "led_d7"}}
        \cup {C("pwm", "init", <<>>)}
Cmd3 == UNION {{C("cmb", r, t) : t \in Tuples(Joined[r])} : r \in DOMAIN Joined}
        \cup {C("cmk", r, <<>>) : r \in DOMAIN JoinedConst} \cup {C("cmd", r, <<v>>) : r \in {"mark_before", "mark_after", "discard", "named"}, v \in 0..7}
\* every flag with every content of its register: pending flags (and control bits, where the register has any)
Contents(a) == IF RO(a) = 255 - W1C(a) THEN {v \in 0..255 : v & (255 - W1C(a)) = 0} ELSE IF DEEP THEN 0..255 ELSE {v \in 0..255 : v % 3 = 0 \/ v % 7 = 1 \/ v \in {255, 254, 127, 128, 64, 16, 8, 4, 2}}
Poked(f, o) == UNION {{<<C("poke", Flags[f][1], <<v>>), C(o, f, <<>>)>> : v \in Contents(Flags[f][1])}}
Pairs4 == UNION ({Poked(f, "clr") : f \in {f \in DOMAIN Flags : f \notin FlagRegs}} \cup {Poked(f, "flg") : f \in FlagReads})
Pairs5 == UNION {Poked(f, "clr") : f \in FlagRegs}
ASSUME PART \in {"4", "5"} => \A p \in (IF PART = "4" THEN Pairs4 ELSE Pairs5) : \A k \in 1..2 : PrintT(<<"CMD", p[k][1], p[k][2], p[k][3]>>)
Pool == CASE PART = "1" -> Cmd1 [] PART = "2" -> Cmd2 [] PART = "3" -> Cmd3 [] OTHER -> {}
PoolSeq == TLCEval(SetToSeq(Pool))
ASSUME LEN > 0 \/ \A c \in Pool : PrintT(<<"CMD", c[1], c[2], c[3]>>)
\* random histories
Init == n = 0 /\ hist = <<>>
Poke == C("poke", RandomElement(IO), <<RandomElement(0..255)>>)
Next == /\ n < LEN /\ n' = n + 1
        /\ hist' = Append(hist, IF RandomElement(1..6) = 1 THEN Poke ELSE PoolSeq[RandomElement(1..Len(PoolSeq))])
Spec == Init /\ [][Next]_<<n, hist>>
Shown == n = LEN => \A i \in DOMAIN hist : PrintT(<<"CMD", hist[i][1], hist[i][2], hist[i][3]>>)
=============================================================================
