------------------------------- MODULE Mcu ---------------------------------
(* The microcontroller's I/O registers as a state machine, and what each     *)
(* register, bit field, setting and flag of the software names denotes.      *)
(* Tables from the ATmega328P data sheet (register summary, section 36, and  *)
(* the register descriptions), not from the code.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Bitwise

\* ---- hardware ------------------------------------------------------------
IO == \h20..\hff
\* flags cleared by writing one; read-only bits; strobes (read as zero); bits only set by writing
W1C(a) == CASE a = \h35 -> 7 [] a = \h36 -> \h27 [] a = \h37 -> 7 [] a = \h3b -> 7 [] a = \h3c -> 3
            [] a = \h7a -> \h10 [] a = \h50 -> \h10 [] a = \hbc -> \h80 [] OTHER -> 0
RO(a) == CASE a = \h50 -> \h20 [] a = \hb9 -> \hf8 [] a = \hbc -> 8 [] a \in {\h35, \h36, \h37, \h3b, \h3c} -> 255 - W1C(a) [] a = \h78 -> 255 [] a = \h79 -> 255 [] OTHER -> 0
Strobe(a) == CASE a = \h45 -> \hc0 [] a = \h82 -> \hc0 [] OTHER -> 0
W1S(a) == IF a = \h7a THEN \h40 ELSE 0
Pin(a) == a \in {\h23, \h26, \h29}
TempHigh(a) == a \in {\h85, \h87, \h89, \h8b}       \* high bytes of timer 1: pass through TEMP when written
LatchLow(a) == a \in {\h84, \h86}                   \* reading these latches the high byte in TEMP
Cpu(a) == a \in {\h5d, \h5e, \h5f}                  \* stack pointer and status register

\* a byte after its bits in mask are written with those of val
Put(old, a, mask, val) ==
    LET v == val & mask
        n0 == ((old & (255 - mask)) | v)
        n1 == ((n0 & (255 - RO(a))) | (old & RO(a)))
        n2 == ((n1 & (255 - W1C(a))) | (old & (255 - v) & W1C(a)))
        n3 == ((n2 & (255 - W1S(a))) | ((old | v) & W1S(a)))
    IN n3 & (255 - Strobe(a))

\* hardware state: m memory of the I/O space, t TEMP, f strobes fired
BusRead(h, a) == [v |-> IF a \in {\h85, \h87} THEN h.t ELSE h.m[a],
                  h |-> IF LatchLow(a) THEN [h EXCEPT !.t = h.m[a + 1]] ELSE h]
\* write the masked bits
BusPut(h, a, mask, val) ==
    IF Pin(a) THEN [h EXCEPT !.m[a + 2] = @ ^^ (val & mask)]
    ELSE IF TempHigh(a) THEN [h EXCEPT !.t = val]
    ELSE LET f == val & mask & Strobe(a)
             m1 == [h.m EXCEPT ![a] = Put(@, a, mask, val)]
         IN [h EXCEPT !.m = IF TempHigh(a + 1) THEN [m1 EXCEPT ![a + 1] = h.t] ELSE m1,
                      !.f = IF f = 0 THEN @ ELSE @ \cup {<<a, f>>}]
BusBit(h, a, b, one) == BusPut(h, a, 2 ^ b, IF one THEN 255 ELSE 0)

\* ---- names ----------------------------------------------------------------
\* part: bits hi..lo of the register at a hold the bits from v on of the value
P(a, hi, lo) == <<[a |-> a, hi |-> hi, lo |-> lo, v |-> 0]>>
B(a, b) == P(a, b, b)
Reg(a) == P(a, 7, 0)
W(a) == <<[a |-> a, hi |-> 7, lo |-> 0, v |-> 0], [a |-> a + 1, hi |-> 7, lo |-> 0, v |-> 8]>>
\* low bits in one register, high bits in another
Split(a, hi, lo, a2, hi2, lo2) == <<[a |-> a, hi |-> hi, lo |-> lo, v |-> 0], [a |-> a2, hi |-> hi2, lo |-> lo2, v |-> hi - lo + 1]>>
Names2(f, g) == f @@ g
Pins(pre, a) == [n \in {pre \o ToString(i) : i \in 0..7} |-> B(a, CHOOSE i \in 0..7 : n = pre \o ToString(i))]

Registers ==
 [ eear |-> W(\h41), eedr |-> Reg(\h40), eecr |-> Reg(\h3f), eepm |-> P(\h3f, 5, 4), eerie |-> B(\h3f, 3), eempe |-> B(\h3f, 2), eepe |-> B(\h3f, 1), eere |-> B(\h3f, 0),
   gpior0 |-> Reg(\h3e), gpior1 |-> Reg(\h4a), gpior2 |-> Reg(\h4b), gpior0_2 |-> B(\h3e, 2), gpior1_7 |-> B(\h4a, 7), gpior2_0 |-> B(\h4b, 0),
   eicra |-> Reg(\h69), ics1 |-> P(\h69, 3, 2), ics0 |-> P(\h69, 1, 0), eimsk_int0 |-> B(\h3d, 0), eimsk_int1 |-> B(\h3d, 1),
   eifr_int0 |-> B(\h3c, 0), eifr_int1 |-> B(\h3c, 1), pcicr_0 |-> B(\h68, 0), pcicr_1 |-> B(\h68, 1), pcicr_2 |-> B(\h68, 2),
   pcifr_0 |-> B(\h3b, 0), pcifr_1 |-> B(\h3b, 1), pcifr_2 |-> B(\h3b, 2), pcmsk0 |-> Reg(\h6b), pcmsk1 |-> Reg(\h6c), pcmsk2 |-> Reg(\h6d),
   pcmsk0_3 |-> B(\h6b, 3), pcmsk1_6 |-> B(\h6c, 6), pcmsk2_7 |-> B(\h6d, 7),
   pinb |-> Reg(\h23), ddrb |-> Reg(\h24), portb |-> Reg(\h25), pinc |-> Reg(\h26), ddrc |-> Reg(\h27), portc |-> Reg(\h28), pind |-> Reg(\h29), ddrd |-> Reg(\h2a), portd |-> Reg(\h2b),
   tccr0a |-> Reg(\h44), com0a |-> P(\h44, 7, 6), com0b |-> P(\h44, 5, 4), wgm0 |-> P(\h44, 1, 0), tccr0b |-> Reg(\h45), foc0a |-> B(\h45, 7), foc0b |-> B(\h45, 6), wgm02 |-> B(\h45, 3), cs0 |-> P(\h45, 2, 0),
   timsk0 |-> Reg(\h6e), ocie0b |-> B(\h6e, 2), ocie0a |-> B(\h6e, 1), toie0 |-> B(\h6e, 0), tcnt0 |-> Reg(\h46), ocr0a |-> Reg(\h47), ocr0b |-> Reg(\h48),
   tifr0 |-> Reg(\h35), ocf0b |-> B(\h35, 2), ocf0a |-> B(\h35, 1), tov0 |-> B(\h35, 0),
   tccr1a |-> Reg(\h80), com1a |-> P(\h80, 7, 6), com1b |-> P(\h80, 5, 4), wgm1a |-> P(\h80, 1, 0), tccr1b |-> Reg(\h81), icnc1 |-> B(\h81, 7), ices1 |-> B(\h81, 6), wgm1b |-> P(\h81, 4, 3), cs1 |-> P(\h81, 2, 0),
   tccr1c |-> Reg(\h82), foc1a |-> B(\h82, 7), foc1b |-> B(\h82, 6), tcnt1 |-> W(\h84), icr1 |-> W(\h86), ocr1a |-> W(\h88), ocr1b |-> W(\h8a),
   tcnt1l |-> Reg(\h84), icr1l |-> Reg(\h86), ocr1al |-> Reg(\h88), ocr1ah |-> Reg(\h89), ocr1bl |-> Reg(\h8a), ocr1bh |-> Reg(\h8b),
   timsk1 |-> Reg(\h6f), icie1 |-> B(\h6f, 5), ocie1b |-> B(\h6f, 2), ocie1a |-> B(\h6f, 1), toie1 |-> B(\h6f, 0), icf1 |-> B(\h36, 5), ocf1b |-> B(\h36, 2), ocf1a |-> B(\h36, 1), tov1 |-> B(\h36, 0),
   gtccr |-> Reg(\h43), tsm |-> B(\h43, 7), psrasy |-> B(\h43, 1), psrsync |-> B(\h43, 0),
   twbr |-> Reg(\hb8), twsr |-> Reg(\hb9), tws |-> P(\hb9, 7, 3), twps |-> P(\hb9, 1, 0), twar |-> Reg(\hba), twa |-> P(\hba, 7, 1), twgce |-> B(\hba, 0), twdr |-> Reg(\hbb),
   twcr |-> Reg(\hbc), twint |-> B(\hbc, 7), twintc |-> B(\hbc, 7), twea |-> B(\hbc, 6), twsta |-> B(\hbc, 5), twsto |-> B(\hbc, 4), twwc |-> B(\hbc, 3), twen |-> B(\hbc, 2), twie |-> B(\hbc, 0), twamr |-> Reg(\hbd), twam |-> P(\hbd, 7, 1),
   acsr |-> Reg(\h50), acd |-> B(\h50, 7), acbg |-> B(\h50, 6), aco |-> B(\h50, 5), aci |-> B(\h50, 4), acie |-> B(\h50, 3), acic |-> B(\h50, 2), acis |-> P(\h50, 1, 0), didr1 |-> P(\h7f, 1, 0),
   adc |-> W(\h78), adchl |-> W(\h78), adcl |-> Reg(\h78), adch |-> Reg(\h79), admux |-> Reg(\h7c), refs |-> P(\h7c, 7, 6), adlar |-> B(\h7c, 5), mux |-> P(\h7c, 3, 0),
   adcsra |-> Reg(\h7a), aden |-> B(\h7a, 7), adsc |-> B(\h7a, 6), adate |-> B(\h7a, 5), adif |-> B(\h7a, 4), adie |-> B(\h7a, 3), adps |-> P(\h7a, 2, 0),
   adcsrb |-> Reg(\h7b), acme |-> B(\h7b, 6), adts |-> P(\h7b, 2, 0), didr0 |-> P(\h7e, 5, 0)
 ] @@ Pins("pinb", \h23) @@ Pins("ddb", \h24) @@ Pins("portb", \h25) @@ Pins("pinc", \h26) @@ Pins("ddc", \h27) @@ Pins("portc", \h28)
   @@ Pins("pind", \h29) @@ Pins("ddd", \h2a) @@ Pins("portd", \h2b)

\* fields of the status register, registers of the processor, addresses of registers without fields
SregBits == [sreg_I |-> 7, sreg_T |-> 6, sreg_H |-> 5, sreg_S |-> 4, sreg_V |-> 3, sreg_N |-> 2, sreg_Z |-> 1, sreg_C |-> 0]
CpuBytes == [n \in {"r" \o ToString(i) : i \in 0..31} |-> <<CHOOSE i \in 0..31 : n = "r" \o ToString(i)>>]
            @@ [x |-> <<26, 27>>, y |-> <<28, 29>>, z |-> <<30, 31>>, sp |-> <<\h5d, \h5e>>, spl |-> <<\h5d>>, sph |-> <<\h5e>>]
Addresses == [osccal |-> \h66, clkpr |-> \h61, smcr |-> \h53, mcusr |-> \h54, prr |-> \h64, mcucr |-> \h55, wdtcsr |-> \h60, tccr2a |-> \hb0, tccr2b |-> \hb1, tcnt2 |-> \hb2,
              ocr2a |-> \hb3, ocr2b |-> \hb4, timsk2 |-> \h70, tifr2 |-> \h37, assr |-> \hb6, gtccr_tc0 |-> \h43, gtccr_tc2 |-> \h43, didr1_adc |-> \h7f, tifr1 |-> \h36,
              spl_c |-> \h5d, sph_c |-> \h5e, sreg_c |-> \h5f, tcnt1h |-> \h85, icr1h |-> \h87, adch |-> \h79,
              tcnt1l |-> \h84, icr1l |-> \h86, ocr1al |-> \h88, ocr1ah |-> \h89, ocr1bl |-> \h8a, ocr1bh |-> \h8b, adcl |-> \h78, gpreg_base |-> 0,
              r0_c |-> \h3e, r1_c |-> \h4a, r2_c |-> \h4b, pcmsk0_c |-> \h6b, pcmsk1_c |-> \h6c, pcmsk2_c |-> \h6d,
              pinB |-> \h23, ddrB |-> \h24, portB |-> \h25, pinC |-> \h26, ddrC |-> \h27, portC |-> \h28, pinD |-> \h29, ddrD |-> \h2a, portD |-> \h2b,
              \* not addresses: the bus is on PC4 and PC5 (port number 1), conversions have 10 bits, the duty register takes 3 to 1023
              twi_port |-> 1, sda_pin |-> 4, scl_pin |-> 5, adc_result_min |-> 0, adc_result_max |-> 1023, pwm_value_min |-> 3, pwm_value_max |-> 1023]

\* ---- settings: bits and number of values ----------------------------------
Settings ==
 [ eeprom_address |-> W(\h41), eeprom_data |-> Reg(\h40), eeprom_mode |-> P(\h3f, 5, 4), eeprom_read |-> B(\h3f, 0), eeprom_write |-> B(\h3f, 1), eeprom_master_write |-> B(\h3f, 2), eeprom_on_ready |-> B(\h3f, 3),
   sense_int0 |-> P(\h69, 1, 0), sense_int1 |-> P(\h69, 3, 2), external_int0 |-> B(\h3d, 0), external_int1 |-> B(\h3d, 1),
   pin_change_int0 |-> B(\h68, 0), pin_change_int1 |-> B(\h68, 1), pin_change_int2 |-> B(\h68, 2), pin_change_mask0 |-> Reg(\h6b), pin_change_mask1 |-> Reg(\h6c), pin_change_mask2 |-> Reg(\h6d),
   tc0_clock |-> P(\h45, 2, 0), tc0_output_a |-> P(\h44, 7, 6), tc0_output_b |-> P(\h44, 5, 4), tc0_waveform |-> Split(\h44, 1, 0, \h45, 3, 3), tc0_timer |-> Reg(\h46), tc0_compare_a |-> Reg(\h47), tc0_compare_b |-> Reg(\h48),
   tc0_on_match_a |-> B(\h6e, 1), tc0_on_match_b |-> B(\h6e, 2), tc0_on_overflow |-> B(\h6e, 0),
   tc1_clock |-> P(\h81, 2, 0), tc1_edge |-> B(\h81, 6), tc1_output_a |-> P(\h80, 7, 6), tc1_output_b |-> P(\h80, 5, 4), tc1_waveform |-> Split(\h80, 1, 0, \h81, 4, 3), tc1_timer |-> W(\h84), tc1_compare_a |-> W(\h88), tc1_compare_b |-> W(\h8a),
   tc1_noise_canceler |-> B(\h81, 7), tc1_on_capture |-> B(\h6f, 5), tc1_on_match_a |-> B(\h6f, 1), tc1_on_match_b |-> B(\h6f, 2), tc1_on_overflow |-> B(\h6f, 0),
   tcp_synchronization |-> B(\h43, 7), tcp_reset_tc2 |-> B(\h43, 1), tcp_reset_tc01 |-> B(\h43, 0),
   twi_data |-> Reg(\hbb), twi_address |-> P(\hba, 7, 1), twi_rate |-> Reg(\hb8), twi_prescale |-> P(\hb9, 1, 0), twi_interface |-> B(\hbc, 2), twi_interrupt |-> B(\hbc, 0), twi_general_call |-> B(\hba, 0),
   ac_bandgap |-> B(\h50, 6), ac_on |-> P(\h50, 1, 0), ac_interrupt |-> B(\h50, 3), ac_capture |-> B(\h50, 2), ac_disable |-> B(\h50, 7),
   adc_adjustment |-> B(\h7c, 5), adc_reference |-> P(\h7c, 7, 6), adc_channel |-> P(\h7c, 3, 0), adc_enable |-> B(\h7a, 7), adc_interrupt |-> B(\h7a, 3), adc_comparator |-> B(\h7b, 6), adc_auto_trigger |-> B(\h7a, 5),
   adc_trigger |-> P(\h7b, 2, 0), adc_prescale |-> P(\h7a, 2, 0), pwm |-> W(\h88) ]
\* settings that can only be made (to one), and values that can only be read
Ones == [twi_start |-> B(\hbc, 5), twi_stop |-> B(\hbc, 4), twi_ack |-> B(\hbc, 6), adc_start |-> B(\h7a, 6)]
ReadOnly == [twi_start |-> B(\hbc, 5), twi_stop |-> B(\hbc, 4), twi_ack |-> B(\hbc, 6), twi_wcoll |-> B(\hbc, 3), twi_status |-> P(\hb9, 7, 3), ac_state |-> B(\h50, 5),
             adc_result |-> W(\h78), adc_lsb |-> Reg(\h78), adc_msb |-> Reg(\h79)]
Strobes == [foc0a |-> <<\h45, 7>>, foc0b |-> <<\h45, 6>>, foc1a |-> <<\h82, 7>>, foc1b |-> <<\h82, 6>>, tc0_force_a |-> <<\h45, 7>>, tc0_force_b |-> <<\h45, 6>>, tc1_force_a |-> <<\h82, 7>>, tc1_force_b |-> <<\h82, 6>>]
Leds == [led_b5 |-> B(\h25, 5), led_c0 |-> B(\h28, 0), led_d7 |-> B(\h2b, 7), led_b5_dir |-> B(\h24, 5), led_c0_dir |-> B(\h27, 0), led_d7_dir |-> B(\h2a, 7)]
\* status codes of the two-wire interface (upper five bits): start, repeated start, SLA+W ack, nack, data ack, nack, arbitration lost
TwiStatus == <<1, 2, 3, 4, 5, 6, 7>>

Flags ==
 [ eifr_int0 |-> <<\h3c, 0>>, eifr_int1 |-> <<\h3c, 1>>, external_int0 |-> <<\h3c, 0>>, external_int1 |-> <<\h3c, 1>>,
   pcifr_0 |-> <<\h3b, 0>>, pcifr_1 |-> <<\h3b, 1>>, pcifr_2 |-> <<\h3b, 2>>, pin_change_int0 |-> <<\h3b, 0>>, pin_change_int1 |-> <<\h3b, 1>>, pin_change_int2 |-> <<\h3b, 2>>,
   ocf0b |-> <<\h35, 2>>, ocf0a |-> <<\h35, 1>>, tov0 |-> <<\h35, 0>>, tc0_compare_a |-> <<\h35, 1>>, tc0_compare_b |-> <<\h35, 2>>, tc0_overflow |-> <<\h35, 0>>,
   icf1 |-> <<\h36, 5>>, ocf1b |-> <<\h36, 2>>, ocf1a |-> <<\h36, 1>>, tov1 |-> <<\h36, 0>>, tc1_capture |-> <<\h36, 5>>, tc1_compare_a |-> <<\h36, 1>>, tc1_compare_b |-> <<\h36, 2>>, tc1_overflow |-> <<\h36, 0>>,
   twintc |-> <<\hbc, 7>>, twi |-> <<\hbc, 7>>, twi_by_set |-> <<\hbc, 7>>, aci |-> <<\h50, 4>>, ac |-> <<\h50, 4>>, adif |-> <<\h7a, 4>>, adc |-> <<\h7a, 4>> ]
\* flags with a function that reports them
FlagReads == DOMAIN Flags \ {"eifr_int0", "eifr_int1", "pcifr_0", "pcifr_1", "pcifr_2", "ocf0b", "ocf0a", "tov0", "icf1", "ocf1b", "ocf1a", "tov1", "twintc", "twi_by_set", "aci", "adif"}

\* settings joined in one expression, by argument
Joined == [eeprom2 |-> <<"eeprom_mode", "eeprom_on_ready">>, eeprom2r |-> <<"eeprom_mode", "eeprom_on_ready">>, eeprom4 |-> <<"eeprom_mode", "eeprom_on_ready", "eeprom_master_write", "eeprom_read">>,
   sense |-> <<"sense_int0", "sense_int1">>, tc0_outputs |-> <<"tc0_output_a", "tc0_output_b">>, tc0_wave_clock |-> <<"tc0_waveform", "tc0_clock">>, tc0_ints |-> <<"tc0_on_match_a", "tc0_on_match_b", "tc0_on_overflow">>,
   tc1_wave_clock |-> <<"tc1_waveform", "tc1_clock">>, tc1_b4 |-> <<"tc1_waveform", "tc1_clock", "tc1_edge", "tc1_noise_canceler">>, tc1_outputs |-> <<"tc1_output_a", "tc1_output_b">>,
   tc1_ints |-> <<"tc1_on_capture", "tc1_on_match_a", "tc1_on_match_b", "tc1_on_overflow">>, tcp |-> <<"tcp_synchronization", "tcp_reset_tc2", "tcp_reset_tc01">>, twar |-> <<"twi_address", "twi_general_call">>,
   twcr |-> <<"twi_interface", "twi_interrupt">>, ac3 |-> <<"ac_on", "ac_bandgap", "ac_interrupt">>, ac4 |-> <<"ac_capture", "ac_disable", "ac_interrupt", "ac_on">>,
   admux |-> <<"adc_reference", "adc_channel", "adc_adjustment">>, admuxr |-> <<"adc_reference", "adc_channel", "adc_adjustment">>, adcsra |-> <<"adc_enable", "adc_prescale", "adc_interrupt", "adc_auto_trigger">>,
   adcsrb |-> <<"adc_comparator", "adc_trigger">>,
   eeprom_w |-> <<"eeprom_write", "eeprom_master_write", "eeprom_mode">>]
JoinedConst == [admux |-> <<<<"adc_reference", 1>>, <<"adc_channel", 5>>, <<"adc_adjustment", 1>>>>, adcsra |-> <<<<"adc_enable", 1>>, <<"adc_prescale", 7>>, <<"adc_interrupt", 1>>>>,
                eecr |-> <<<<"eeprom_read", 1>>, <<"eeprom_on_ready", 0>>>>,
                twi_start |-> <<<<"twi_start", 1>>, <<"twi_interface", 1>>, <<"twi_interrupt", 0>>>>, twi_stop |-> <<<<"twi_interface", 1>>, <<"twi_stop", 1>>>>,
                twi_ack |-> <<<<"twi_interrupt", 1>>, <<"twi_ack", 1>>, <<"twi_interface", 1>>>>, twi_all |-> <<<<"twi_ack", 1>>, <<"twi_stop", 1>>, <<"twi_start", 1>>>>,
                adc_start |-> <<<<"adc_start", 1>>, <<"adc_enable", 1>>, <<"adc_auto_trigger", 0>>>>, adc_start2 |-> <<<<"adc_interrupt", 0>>, <<"adc_start", 1>>>>]
\* raw joined fields: register, width, fields by argument
JoinedRaw == [x8_76_50 |-> [a |-> \hb3, f |-> <<<<7, 6>>, <<5, 0>>>>], x8_30_74 |-> [a |-> \hb3, f |-> <<<<3, 0>>, <<7, 4>>>>], x8_44_22 |-> [a |-> \hb3, f |-> <<<<4, 4>>, <<2, 2>>>>],
   x8_53_11_77 |-> [a |-> \hb3, f |-> <<<<5, 3>>, <<1, 1>>, <<7, 7>>>>], x8_66_54_21_00 |-> [a |-> \hb3, f |-> <<<<6, 6>>, <<5, 4>>, <<2, 1>>, <<0, 0>>>>],
   i8_00_77 |-> [a |-> \h3e, f |-> <<<<0, 0>>, <<7, 7>>>>], i8_63_20 |-> [a |-> \h3e, f |-> <<<<6, 3>>, <<2, 0>>>>], i8_11_42_65_77 |-> [a |-> \h3e, f |-> <<<<1, 1>>, <<4, 2>>, <<6, 5>>, <<7, 7>>>>],
   x16_158_70 |-> [a |-> \hc4, f |-> <<<<15, 8>>, <<7, 0>>>>], x16_96_1515_20 |-> [a |-> \hc4, f |-> <<<<9, 6>>, <<15, 15>>, <<2, 0>>>>]]

\* ---- effect of an operation on the state ------------------------------------
Mask(hi, lo) == 2 ^ (hi + 1) - 2 ^ lo
Field(x, hi, lo) == (x \div 2 ^ lo) % (2 ^ (hi - lo + 1))
PartVal(p, x) == Field(x, p.v + p.hi - p.lo, p.v)
RECURSIVE SetParts(_, _, _, _)
SetPart(h, p, x) == LET q == PartVal(p, x) * 2 ^ p.lo
                        fire == q & Strobe(p.a)
                    IN [h EXCEPT !.m[p.a] = Put(@, p.a, Mask(p.hi, p.lo), q), !.f = IF fire = 0 THEN @ ELSE @ \cup {<<p.a, fire>>}]
SetParts(h, ps, x, i) == IF i > Len(ps) THEN h ELSE SetParts(SetPart(h, ps[i], x), ps, x, i + 1)
Set(h, ps, x) == SetParts(h, ps, x, 1)
RECURSIVE GetParts(_, _, _)
GetParts(m, ps, i) == IF i > Len(ps) THEN 0 ELSE Field(m[ps[i].a], ps[i].hi, ps[i].lo) * 2 ^ ps[i].v + GetParts(m, ps, i + 1)
Get(h, ps) == GetParts(h.m, ps, 1)
Clear(h, fl) == Set(h, B(fl[1], fl[2]), 1)
Width(ps) == LET p == ps[Len(ps)] IN p.v + p.hi - p.lo + 1
\* number of values of a setting
Values(n) == IF n = "eeprom_mode" THEN 3 ELSE 2 ^ Width(Settings[n])
=============================================================================
