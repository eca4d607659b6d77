-------------------------------- MODULE McuMC ------------------------------
(* The register model itself: every setting reads back what was set and      *)
(* touches only its bits, clearing a flag touches that flag only, from every *)
(* content of the registers concerned, and so after every sequence of two    *)
(* operations; names denote disjoint bits where they are different things.   *)
EXTENDS Mcu
CONSTANTS Focus
VARIABLES h, at, n
Zero == [a \in IO |-> 0]
Start(a, x) == [m |-> [Zero EXCEPT ![a] = x], t |-> 0, f |-> {}]
Init == /\ at \in Focus /\ \E x \in 0..255 : h = Start(at, IF Strobe(at) = 0 THEN x ELSE x & (255 - Strobe(at)))
        /\ n = 0
RegsOf(ps) == {ps[k].a : k \in DOMAIN ps}
Ops == {<<"set", s, x>> : s \in {s \in DOMAIN Settings : at \in RegsOf(Settings[s])}, x \in {0, 1, 2, 3, 5, 7, 10, 15, 128, 255}}
       \cup {<<"clr", f, 0>> : f \in {f \in DOMAIN Flags : Flags[f][1] = at}} \cup {<<"one", s, 1>> : s \in {s \in DOMAIN Ones : at \in RegsOf(Ones[s])}}
Bits(ps) == UNION {{<<ps[k].a, b>> : b \in ps[k].lo..ps[k].hi} : k \in DOMAIN ps}
BitOf(m, p) == Field(m[p[1]], p[2], p[2])
OnlyParts(g, g1, ps) == \A a \in IO : g.m[a] = g1.m[a] \/ \E k \in DOMAIN ps : ps[k].a = a /\ (g.m[a] ^^ g1.m[a]) & (255 - Mask(ps[k].hi, ps[k].lo)) = 0
Apply(o) == CASE o[1] = "set" -> Set(h, Settings[o[2]], o[3] % Values(o[2])) [] o[1] = "one" -> Set(h, Ones[o[2]], 1) [] o[1] = "clr" -> Clear(h, Flags[o[2]])
Post(o, g) ==
    CASE o[1] = "set" -> Get(g, Settings[o[2]]) = o[3] % Values(o[2]) /\ OnlyParts(h, g, Settings[o[2]])
      [] o[1] = "one" -> Get(g, Ones[o[2]]) = 1 /\ OnlyParts(h, g, Ones[o[2]])
      [] o[1] = "clr" -> BitOf(g.m, Flags[o[2]]) = 0 /\ OnlyParts(h, g, B(Flags[o[2]][1], Flags[o[2]][2]))
Next == /\ n < 2 /\ n' = n + 1 /\ at' = at
        /\ \E o \in Ops : LET g == Apply(o) IN Assert(Post(o, g), <<"operation", o, h.m[at]>>) /\ h' = g
Spec == Init /\ [][Next]_<<h, at, n>>
\* a store of a read value changes nothing but write-one-to-clear flags (read-modify-write is safe elsewhere)
ReadBack == \A b \in {at} : LET g == BusPut(h, b, 255, h.m[b]) IN Pin(b) \/ TempHigh(b) \/ TempHigh(b + 1) \/ g.m[b] = h.m[b] & (255 - W1C(b))
\* tables
ASSUME \A r \in DOMAIN Registers : \A k \in DOMAIN Registers[r] : LET p == Registers[r][k] IN p.a \in IO /\ p.hi \in 0..7 /\ p.lo \in 0..p.hi
ASSUME \A s \in DOMAIN Settings : \A k \in DOMAIN Settings[s] : Settings[s][k].a \in IO
ASSUME \A s, t \in DOMAIN Settings \ {"pwm", "tc1_compare_a"} : s = t \/ Bits(Settings[s]) \cap Bits(Settings[t]) = {}
ASSUME \A s \in DOMAIN Settings : \A f \in DOMAIN Flags : Flags[f] \notin Bits(Settings[s])
ASSUME \A f \in DOMAIN Flags : W1C(Flags[f][1]) & (2 ^ Flags[f][2]) # 0
ASSUME \A j \in DOMAIN Joined : \A k \in DOMAIN Joined[j] : Joined[j][k] \in DOMAIN Settings
ASSUME \A f \in DOMAIN Strobes : Strobe(Strobes[f][1]) & (2 ^ Strobes[f][2]) # 0
=============================================================================
