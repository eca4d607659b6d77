// Driver for the register layer and the ATmega328P description, compiled by
// avr-g++ and run in the instruction-level simulator. Each function is called
// by name: rd_/wr_ for a named register or bit field, get_/set_ for a setting
// (enumerators by their position in the data sheet), flg_/clr_ for flags.
#include "mcu/atmega328.hpp"
using namespace mcu::atmega328;
typedef uint8_t u8; typedef uint16_t u16; typedef uint32_t u32;

#define FN extern "C" __attribute__((noinline, used))

// ---- named registers and bit fields ----------------------------------------
template< class T > u16 num(T v) { return (u16)v; }
#define RD(id, ...)      FN u16 rd_##id() { return num( __VA_ARGS__::read() ); }
#define RW(id, ...)      RD(id, __VA_ARGS__) FN void wr_##id(u16 v) { __VA_ARGS__::write( static_cast< typename __VA_ARGS__::value_type >(v) ); }
#define BIT(id, ...)     RW(id, __VA_ARGS__) FN void on_##id() { __VA_ARGS__::set(); } FN void off_##id() { __VA_ARGS__::clear(); } \
                         FN void tgl_##id() { __VA_ARGS__::toggle(); }
#define W1C(id, ...)     RD(id, __VA_ARGS__) FN void clr_##id() { __VA_ARGS__::clear(); }

#if KV_PART == 1
namespace sr = core::sreg;
RW(sreg, sr::whole) BIT(sreg_I, sr::I) BIT(sreg_T, sr::T) BIT(sreg_H, sr::H) BIT(sreg_S, sr::S) BIT(sreg_V, sr::V) BIT(sreg_N, sr::N) BIT(sreg_Z, sr::Z) BIT(sreg_C, sr::C)
namespace gp = core::gpwr;
#define G(n) RD(r##n, gp::r##n)
G(0) G(1) G(2) G(3) G(4) G(5) G(6) G(7) G(8) G(9) G(10) G(11) G(12) G(13) G(14) G(15) G(16) G(17) G(18) G(19) G(20) G(21) G(22) G(23) G(24) G(25) G(26) G(27) G(28) G(29) G(30) G(31)
RD(x, gp::x) RD(y, gp::y) RD(z, gp::z)
RD(sp, core::sp::whole) RD(spl, core::sp::lo) RD(sph, core::sp::hi)

namespace mr = mem::reg;
RW(eear, mr::eear) RW(eedr, mr::eedr) RW(eecr, mr::eecr::whole) RW(eepm, mr::eecr::eepm) BIT(eerie, mr::eecr::eerie) BIT(eempe, mr::eecr::eempe) BIT(eepe, mr::eecr::eepe) BIT(eere, mr::eecr::eere)
RW(gpior0, mem::gpio<mem::r0>::whole) RW(gpior1, mem::gpio<mem::r1>::whole) RW(gpior2, mem::gpio<mem::r2>::whole)
BIT(gpior0_2, mem::gpio<mem::r0>::bit<2>) BIT(gpior1_7, mem::gpio<mem::r1>::bit<7>) BIT(gpior2_0, mem::gpio<mem::r2>::bit<0>)

RW(eicra, ei::eicra::whole) RW(ics1, ei::eicra::ics1) RW(ics0, ei::eicra::ics0)
BIT(eimsk_int0, ei::eimsk<eint::int0>) BIT(eimsk_int1, ei::eimsk<eint::int1>)
W1C(eifr_int0, ei::eifr<eint::int0>) W1C(eifr_int1, ei::eifr<eint::int1>)
BIT(pcicr_0, ei::pcicr<pcint::int0>) BIT(pcicr_1, ei::pcicr<pcint::int1>) BIT(pcicr_2, ei::pcicr<pcint::int2>)
W1C(pcifr_0, ei::pcifr<pcint::int0>) W1C(pcifr_1, ei::pcifr<pcint::int1>) W1C(pcifr_2, ei::pcifr<pcint::int2>)
RW(pcmsk0, ei::pcmsk<ei::pcmsk0>::whole) RW(pcmsk1, ei::pcmsk<ei::pcmsk1>::whole) RW(pcmsk2, ei::pcmsk<ei::pcmsk2>::whole)
BIT(pcmsk0_3, ei::pcmsk<ei::pcmsk0>::bit<3>) BIT(pcmsk1_6, ei::pcmsk<ei::pcmsk1>::bit<6>) BIT(pcmsk2_7, ei::pcmsk<ei::pcmsk2>::bit<7>)

typedef gpio<port::B> gB; typedef gpio<port::C> gC; typedef gpio<port::D> gD;
RD(pinb, gB::pin) RW(ddrb, gB::ddr) RW(portb, gB::port)
RD(pinc, gC::pin) RW(ddrc, gC::ddr) RW(portc, gC::port)
RD(pind, gD::pin) RW(ddrd, gD::ddr) RW(portd, gD::port)
#define PIN(L, l, n) BIT(dd##l##n, g##L::p<n>::dir) RD(pin##l##n, g##L::p<n>::inp) BIT(port##l##n, g##L::p<n>::out)
#define PINS(L, l) PIN(L,l,0) PIN(L,l,1) PIN(L,l,2) PIN(L,l,3) PIN(L,l,4) PIN(L,l,5) PIN(L,l,6) PIN(L,l,7)
PINS(B, b) PINS(C, c) PINS(D, d)

namespace t0 = tc0::reg;
RW(tccr0a, t0::tccr0a::whole) RW(com0a, t0::tccr0a::com0a) RW(com0b, t0::tccr0a::com0b) RW(wgm0, t0::tccr0a::wgm0)
RW(tccr0b, t0::tccr0b::whole) BIT(wgm02, t0::tccr0b::wgm02) RW(cs0, t0::tccr0b::cs0)
FN void stb_foc0a() { t0::tccr0b::foc0a::set(); } FN void stb_foc0b() { t0::tccr0b::foc0b::set(); }
RW(timsk0, t0::timsk0::whole) BIT(ocie0b, t0::timsk0::ocie0b) BIT(ocie0a, t0::timsk0::ocie0a) BIT(toie0, t0::timsk0::toie0)
RW(tcnt0, t0::tcnt0::whole) RW(ocr0a, t0::ocr0a::whole) RW(ocr0b, t0::ocr0b::whole)
RW(tifr0, t0::tifr0::whole) W1C(ocf0b, t0::tifr0::ocf0b) W1C(ocf0a, t0::tifr0::ocf0a) W1C(tov0, t0::tifr0::tov0)

namespace t1 = tc1::reg;
RW(tccr1a, t1::tccr1a::whole) RW(com1a, t1::tccr1a::com1a) RW(com1b, t1::tccr1a::com1b) RW(wgm1a, t1::tccr1a::wgm1)
RW(tccr1b, t1::tccr1b::whole) BIT(icnc1, t1::tccr1b::icnc1) BIT(ices1, t1::tccr1b::ices1) RW(wgm1b, t1::tccr1b::wgm1) RW(cs1, t1::tccr1b::cs1)
RW(tccr1c, t1::tccr1c::whole)
FN void stb_foc1a() { t1::tccr1c::foc1a::set(); } FN void stb_foc1b() { t1::tccr1c::foc1b::set(); }
RW(tcnt1, t1::tcnt1::whole) RW(icr1, t1::icr1::whole) RW(ocr1a, t1::ocr1a::whole) RW(ocr1b, t1::ocr1b::whole)
RD(ocr1al, t1::ocr1a::lo) RD(ocr1ah, t1::ocr1a::hi) RD(ocr1bl, t1::ocr1b::lo) RD(ocr1bh, t1::ocr1b::hi) RD(tcnt1l, t1::tcnt1::lo) RD(icr1l, t1::icr1::lo)
FN u16 adr_tcnt1h() { return t1::tcnt1h_addr; } FN u16 adr_icr1h() { return t1::icr1h_addr; }
RW(timsk1, t1::timsk1::whole) BIT(icie1, t1::timsk1::icie1) BIT(ocie1b, t1::timsk1::ocie1b) BIT(ocie1a, t1::timsk1::ocie1a) BIT(toie1, t1::timsk1::toie1)
W1C(icf1, t1::tifr1::icf1) W1C(ocf1b, t1::tifr1::ocf1b) W1C(ocf1a, t1::tifr1::ocf1a) W1C(tov1, t1::tifr1::tov1)

namespace tp = tcp::reg::gtccr;
RW(gtccr, tp::whole) BIT(tsm, tp::tsm) BIT(psrasy, tp::psrasy) BIT(psrsync, tp::psrsync)

namespace tw = twi::reg;
RW(twbr, tw::twbr) RW(twdr, tw::twdr) RW(twsr, tw::twsr::whole) RD(tws, tw::twsr::tws) RW(twps, tw::twsr::twps)
RW(twar, tw::twar::whole) RW(twa, tw::twar::twa) BIT(twgce, tw::twar::twgce)
RW(twcr, tw::twcr::whole) RD(twint, tw::twcr::twint) BIT(twea, tw::twcr::twea) BIT(twsta, tw::twcr::twsta) BIT(twsto, tw::twcr::twsto) RD(twwc, tw::twcr::twwc) BIT(twen, tw::twcr::twen) BIT(twie, tw::twcr::twie)
W1C(twintc, tw::twcr::twintc)
RW(twamr, tw::twamr::whole) RW(twam, tw::twamr::twam)

namespace acr = ac::reg;
RW(acsr, acr::acsr::whole) BIT(acd, acr::acsr::acd) BIT(acbg, acr::acsr::acbg) RD(aco, acr::acsr::aco) W1C(aci, acr::acsr::aci) BIT(acie, acr::acsr::acie) BIT(acic, acr::acsr::acic) RW(acis, acr::acsr::acis)
RW(didr1, acr::didr1)

namespace ad = adc::reg;
RD(adc, ad::adc::whole) RD(adchl, ad::adc::adchl) RD(adcl, ad::adc::adcl)
FN u16 adr_adch() { return ad::addr_adch; }
FN u16 rd_adch() { return ad::adc::adch::read(); }
RW(admux, ad::admux::whole) RW(refs, ad::admux::refs) BIT(adlar, ad::admux::adlar) RW(mux, ad::admux::mux)
RW(adcsra, ad::adcsra::whole) BIT(aden, ad::adcsra::aden) RD(adsc, ad::adcsra::adsc) FN void on_adsc() { ad::adcsra::adsc::set(); } BIT(adate, ad::adcsra::adate) W1C(adif, ad::adcsra::adif) BIT(adie, ad::adcsra::adie) RW(adps, ad::adcsra::adps)
RW(adcsrb, ad::adcsrb::whole) BIT(acme, ad::adcsrb::acme) RW(adts, ad::adcsrb::adts)
RW(didr0, ad::didr0)

#define ADR(id, e) FN u16 adr_##id() { return e; }
ADR(osccal, mcu::atmega328::clock::reg::osccal_addr) ADR(clkpr, mcu::atmega328::clock::reg::clkpr_addr) ADR(smcr, power::reg::smcr_addr) ADR(mcusr, power::reg::mcusr_addr) ADR(prr, power::reg::prr_addr)
ADR(mcucr, reset::reg::mcucr_addr) ADR(wdtcsr, reset::reg::wdtcsr_addr)
namespace t2 = tc2::reg;
ADR(tccr2a, t2::tccr2a_addr) ADR(tccr2b, t2::tccr2b_addr) ADR(tcnt2, t2::tcnt2_addr) ADR(ocr2a, t2::ocr2a_addr) ADR(ocr2b, t2::ocr2b_addr) ADR(timsk2, t2::timsk2_addr) ADR(tifr2, t2::tifr2_addr) ADR(assr, t2::assr_addr)
ADR(gtccr_tc0, t0::gtccr_addr) ADR(gtccr_tc2, t2::gtccr_addr) ADR(didr1_adc, ad::addr_didr1) ADR(tifr1, t1::tifr1_addr) ADR(spl_c, core::spl_addr) ADR(sph_c, core::sph_addr) ADR(sreg_c, core::sreg_addr)
ADR(tcnt1l, t1::tcnt1l_addr) ADR(icr1l, t1::icr1l_addr) ADR(ocr1al, t1::ocr1al_addr) ADR(ocr1ah, t1::ocr1ah_addr) ADR(ocr1bl, t1::ocr1bl_addr) ADR(ocr1bh, t1::ocr1bh_addr) ADR(adcl, ad::addr_adcl)
ADR(gpreg_base, core::gpreg_base) ADR(r0_c, mem::r0) ADR(r1_c, mem::r1) ADR(r2_c, mem::r2) ADR(pcmsk0_c, ei::pcmsk0) ADR(pcmsk1_c, ei::pcmsk1) ADR(pcmsk2_c, ei::pcmsk2)
#define IOP(l) ADR(pin##l, gpio<port::l>::pin_addr) ADR(ddr##l, gpio<port::l>::ddr_addr) ADR(port##l, gpio<port::l>::port_addr)
IOP(B) IOP(C) IOP(D)
ADR(twi_port, to_integral( twi::config::twi_port )) ADR(sda_pin, twi::config::sda_pin) ADR(scl_pin, twi::config::scl_pin)
ADR(adc_result_min, adc::conversion::result_min) ADR(adc_result_max, adc::conversion::result_max) ADR(pwm_value_min, tc1_pwm_on_a_pb1::value_min) ADR(pwm_value_max, tc1_pwm_on_a_pb1::value_max)

FN u8 scoped_sreg(u8 v) { core::scoped_sreg s; asm volatile( "sei\n\tset\n\tlsr %0" : "+r"(v) ); u8 r = v; asm volatile( "" : "+r"(r) ); return r; }
#endif

// ---- settings ----------------------------------------------------------------
#if KV_PART == 2
// a setting with named values: set and get by the position of the name in the data sheet's table
#define SETTING(id, type, ...) \
    static const type tab_##id[] = { __VA_ARGS__ }; \
    FN void set_##id(u8 i) { set( tab_##id[i] ); } \
    FN u16 get_##id() { auto c = current( type{} ); for (u8 i = 0; i < sizeof tab_##id / sizeof tab_##id[0]; ++i) if (tab_##id[i] == c) return i; return 0xffff; }
#define ONOFF(id, type) SETTING(id, type, type::off, type::on)
#define NUMBER(id, type, U) FN void set_##id(U v) { set( static_cast<type>(v) ); } FN u16 get_##id() { return (u16)current( type{} ); }
#define FLAG(id, type) FN u16 flg_##id() { return current( type{} ); } FN void clr_##id() { clear( type{} ); }

namespace ee = mem::eeprom;
FN void set_eeprom_address(u16 v) { ee::set( static_cast<ee::address>(v) ); } FN u16 get_eeprom_address() { return (u16)ee::current( ee::address{} ); }
FN void set_eeprom_data(u8 v) { ee::set( static_cast<ee::data>(v) ); } FN u16 get_eeprom_data() { return (u16)ee::current( ee::data{} ); }
typedef ee::program::mode eemode;
SETTING(eeprom_mode, eemode, eemode::erase_write, eemode::erase_only, eemode::write_only)
ONOFF(eeprom_read, ee::enable::read) ONOFF(eeprom_write, ee::enable::write) ONOFF(eeprom_master_write, ee::enable::master_write) ONOFF(eeprom_on_ready, ee::interrupt::on_ready)

static const ei::sense senses[] = { ei::sense::low, ei::sense::change, ei::sense::falling_edge, ei::sense::rising_edge };
static u16 sense_index(ei::sense s) { for (u8 i = 0; i < 4; ++i) if (senses[i] == s) return i; return 99; }
FN void set_sense_int0(u8 i) { ei::interrupt_sense<eint::int0>( senses[i] ); } FN u16 get_sense_int0() { return sense_index( ei::interrupt_sense<eint::int0>() ); }
FN void set_sense_int1(u8 i) { ei::interrupt_sense<eint::int1>( senses[i] ); } FN u16 get_sense_int1() { return sense_index( ei::interrupt_sense<eint::int1>() ); }
#define EI(id, g, s) FN void set_##id(u8 i) { ei::s( i != 0 ); } FN u16 get_##id() { return ei::g(); }
EI(external_int0, enabled_external_int0, enable_external_int0) EI(external_int1, enabled_external_int1, enable_external_int1)
EI(pin_change_int0, enabled_pin_change_int0, enable_pin_change_int0) EI(pin_change_int1, enabled_pin_change_int1, enable_pin_change_int1) EI(pin_change_int2, enabled_pin_change_int2, enable_pin_change_int2)
#define EF(id) FN u16 flg_##id() { return ei::id##_flag(); } FN void clr_##id() { ei::clear_##id##_flag(); }
EF(external_int0) EF(external_int1) EF(pin_change_int0) EF(pin_change_int1) EF(pin_change_int2)
#define PM(n) FN void set_pin_change_mask##n(u8 v) { ei::pin_change_interrupt_mask##n( v ); } FN u16 get_pin_change_mask##n() { return ei::pin_change_interrupt_mask##n(); }
PM(0) PM(1) PM(2)

typedef tc0::input::clock ck0; typedef tc0::output::a::mode m0a; typedef tc0::output::b::mode m0b; typedef tc0::output::waveform wf0;
SETTING(tc0_clock, ck0, ck0::none, ck0::x1, ck0::x8, ck0::x64, ck0::x256, ck0::x1024, ck0::ext1_falling_adge, ck0::ext1_rising_adge)
SETTING(tc0_output_a, m0a, m0a::none, m0a::toggle, m0a::clear, m0a::set)
SETTING(tc0_output_b, m0b, m0b::none, m0b::toggle, m0b::clear, m0b::set)
SETTING(tc0_waveform, wf0, wf0::normal, wf0::pwm_phase_correct, wf0::ctc_ocr0a, wf0::fast_pwm, wf0::reserved4, wf0::pwm_phase_correct_ocr0a, wf0::reserved6, wf0::fast_pwm_ocr0a)
FN void stb_tc0_force_a() { set( tc0::control::compare::force::a{} ); } FN void stb_tc0_force_b() { set( tc0::control::compare::force::b{} ); }
NUMBER(tc0_timer, tc0::value::timer, u8) NUMBER(tc0_compare_a, tc0::value::compare::a, u8) NUMBER(tc0_compare_b, tc0::value::compare::b, u8)
ONOFF(tc0_on_match_a, tc0::enable::interrupt::on::match_a) ONOFF(tc0_on_match_b, tc0::enable::interrupt::on::match_b) ONOFF(tc0_on_overflow, tc0::enable::interrupt::on::overflow)
FLAG(tc0_compare_a, tc0::interrupt::compare::flag::a) FLAG(tc0_compare_b, tc0::interrupt::compare::flag::b) FLAG(tc0_overflow, tc0::interrupt::overflow::flag)

typedef tc1::input::clock ck1; typedef tc1::output::a::mode m1a; typedef tc1::output::b::mode m1b; typedef tc1::output::waveform wf1; typedef tc1::input::capture::edge edge;
SETTING(tc1_clock, ck1, ck1::none, ck1::x1, ck1::x8, ck1::x64, ck1::x256, ck1::x1024, ck1::ext1_falling_adge, ck1::ext1_rising_adge)
SETTING(tc1_edge, edge, edge::falling, edge::rising)
SETTING(tc1_output_a, m1a, m1a::none, m1a::toggle, m1a::clear, m1a::set)
SETTING(tc1_output_b, m1b, m1b::none, m1b::toggle, m1b::clear, m1b::set)
SETTING(tc1_waveform, wf1, wf1::normal, wf1::pwm_phase_correct_8bit, wf1::pwm_phase_correct_9bit, wf1::pwm_phase_correct_10bit, wf1::ctc_ocr1a,
    wf1::fast_pwm_phase_correct_8bit, wf1::fast_pwm_phase_correct_9bit, wf1::fast_pwm_phase_correct_10bit, wf1::pwm_phase_frequency_correct_icr1, wf1::pwm_phase_frequency_correct_ocr1a,
    wf1::pwm_phase_correct_icr1, wf1::pwm_phase_correct_ocr1a, wf1::ctc_icr1, wf1::reserved13, wf1::fast_pwm_icr1, wf1::fast_pwm_ocr1a)
FN void stb_tc1_force_a() { set( tc1::control::compare::force::a{} ); } FN void stb_tc1_force_b() { set( tc1::control::compare::force::b{} ); }
NUMBER(tc1_timer, tc1::value::timer, u16) NUMBER(tc1_compare_a, tc1::value::compare::a, u16) NUMBER(tc1_compare_b, tc1::value::compare::b, u16)
FN void set_tc1_noise_canceler(u8 i) { tc1::enable::capture::input_capture_noise_canceler( i != 0 ); } FN u16 get_tc1_noise_canceler() { return tc1::enable::capture::input_capture_noise_canceler(); }
ONOFF(tc1_on_capture, tc1::enable::interrupt::on::capture) ONOFF(tc1_on_match_a, tc1::enable::interrupt::on::match_a) ONOFF(tc1_on_match_b, tc1::enable::interrupt::on::match_b) ONOFF(tc1_on_overflow, tc1::enable::interrupt::on::overflow)
FLAG(tc1_capture, tc1::interrupt::capture::flag) FLAG(tc1_compare_a, tc1::interrupt::compare::flag::a) FLAG(tc1_compare_b, tc1::interrupt::compare::flag::b) FLAG(tc1_overflow, tc1::interrupt::overflow::flag)

ONOFF(tcp_synchronization, tcp::synchronization) ONOFF(tcp_reset_tc2, tcp::reset::prescaler::tc2) ONOFF(tcp_reset_tc01, tcp::reset::prescaler::tc01)

typedef twi::control::prescale::factor twf;
NUMBER(twi_data, twi::protocol::data, u8) NUMBER(twi_address, twi::protocol::address, u8) NUMBER(twi_rate, twi::control::rate, u8)
SETTING(twi_prescale, twf, twf::x1, twf::x4, twf::x16, twf::x64)
ONOFF(twi_interface, twi::enable::interface) ONOFF(twi_interrupt, twi::enable::interrupt) ONOFF(twi_general_call, twi::enable::general_call)
FLAG(twi, twi::interrupt::flag)
FN void clr_twi_by_set() { set( twi::interrupt::flag{} ); }
#define SETONLY(id, type) FN void one_##id() { set( type{} ); } FN u16 get_##id() { return current( type{} ); }
SETONLY(twi_start, twi::protocol::start) SETONLY(twi_stop, twi::protocol::stop) SETONLY(twi_ack, twi::protocol::ack)
FN u16 get_twi_wcoll() { return current( twi::protocol::wcoll{} ); }
typedef twi::protocol::status st;
static const st statuses[] = { st::S_transmitted, st::RS_transmitted, st::SLAW_transmitted_ACK, st::SLAW_transmitted_NACK, st::Data_transmitted_ACK, st::Data_transmitted_NACK, st::Arbitration_lost };
FN u16 get_twi_status() { return (u16)current( st{} ); }
FN u16 val_twi_status(u8 i) { return (u16)statuses[i]; }

typedef ac::output::interrupt::on acon;
ONOFF(ac_bandgap, ac::input::select::bandgap_ref) SETTING(ac_on, acon, acon::toggle, acon::reserved1, acon::falling_edge, acon::rising_edge)
ONOFF(ac_interrupt, ac::enable::interrupt) ONOFF(ac_capture, ac::enable::input::capture) ONOFF(ac_disable, ac::disable::analog::comparator)
FN u16 get_ac_state() { return ac::output::current( ac::output::state{} ); }
FLAG(ac, ac::interrupt::flag)

typedef adc::conversion::adjustment adj; typedef adc::input::reference aref; typedef adc::input::channel ach; typedef adc::trigger::on trg; typedef adc::prescale::factor apf;
FN void one_adc_start() { adc::conversion::start(); }
FN u16 get_adc_result() { return adc::conversion::result(); } FN u16 get_adc_lsb() { return adc::conversion::lsb(); } FN u16 get_adc_msb() { return adc::conversion::msb(); }
SETTING(adc_adjustment, adj, adj::right, adj::left)
SETTING(adc_reference, aref, aref::aref, aref::avcc, aref::reserved, aref::intern_1v1)
SETTING(adc_channel, ach, ach::ch0, ach::ch1, ach::ch2, ach::ch3, ach::ch4, ach::ch5, ach::ch6, ach::ch7, ach::ch8, ach::reserved9, ach::reserved10, ach::reserved11, ach::reserved12, ach::reserved13, ach::internal_1v1, ach::gnd)
ONOFF(adc_enable, adc::enable::adc) ONOFF(adc_interrupt, adc::enable::interrupt) ONOFF(adc_comparator, adc::enable::comparator) ONOFF(adc_auto_trigger, adc::enable::auto_trigger)
FLAG(adc, adc::interrupt::flag)
SETTING(adc_trigger, trg, trg::free_run, trg::ac, trg::ei0, trg::tc0_match_a, trg::tc0_overflow, trg::tc1_match_b, trg::tc1_overflow, trg::tc1_capture_event)
SETTING(adc_prescale, apf, apf::x02, apf::x2, apf::x4, apf::x8, apf::x16, apf::x32, apf::x64, apf::x128)

#define LED(id, P, n) FN void on_led_##id() { led<port::P, n>::on(); } FN void off_led_##id() { led<port::P, n>::off(); } FN void tgl_led_##id() { led<port::P, n>::toggle(); } FN void on_led_##id##_dir() { led<port::P, n>::enable(); }
LED(b5, B, 5) LED(c0, C, 0) LED(d7, D, 7)
FN void pwm_init() { tc1_pwm_on_a_pb1::init(); }
FN void set_pwm(u16 v) { tc1_pwm_on_a_pb1::write( v ); }

// joined deferred writes; the store to GPIOR1 (0x4a) marks a point of the program
#define MARK (*(volatile u8 *)0x4a = 0x5a)
#define CMB extern "C" __attribute__((noinline, used)) void
CMB cmb_eeprom2(u8 a, u8 b)             { set( tab_eeprom_mode[a] ), set( tab_eeprom_on_ready[b] ); MARK; }
CMB cmb_eeprom2r(u8 a, u8 b)            { set( tab_eeprom_on_ready[b] ), set( tab_eeprom_mode[a] ); MARK; }
CMB cmb_eeprom4(u8 a, u8 b, u8 c, u8 d) { set( tab_eeprom_mode[a] ), set( tab_eeprom_on_ready[b] ), set( tab_eeprom_master_write[c] ), set( tab_eeprom_read[d] ); MARK; }
CMB cmb_sense(u8 a, u8 b)               { ei::interrupt_sense<eint::int0>( senses[a] ), ei::interrupt_sense<eint::int1>( senses[b] ); MARK; }
CMB cmb_tc0_outputs(u8 a, u8 b)         { set( tab_tc0_output_a[a] ), set( tab_tc0_output_b[b] ); MARK; }
CMB cmb_tc0_wave_clock(u8 a, u8 b)      { set( tab_tc0_waveform[a] ), set( tab_tc0_clock[b] ); MARK; }
CMB cmb_tc0_ints(u8 a, u8 b, u8 c)      { set( tab_tc0_on_match_a[a] ), set( tab_tc0_on_match_b[b] ), set( tab_tc0_on_overflow[c] ); MARK; }
CMB cmb_tc1_wave_clock(u8 a, u8 b)      { set( tab_tc1_waveform[a] ), set( tab_tc1_clock[b] ); MARK; }
CMB cmb_tc1_b4(u8 a, u8 b, u8 c, u8 d)  { set( tab_tc1_waveform[a] ), set( tab_tc1_clock[b] ), set( tab_tc1_edge[c] ), tc1::enable::capture::input_capture_noise_canceler( d != 0 ); MARK; }
CMB cmb_tc1_outputs(u8 a, u8 b)         { set( tab_tc1_output_b[b] ), set( tab_tc1_output_a[a] ); MARK; }
CMB cmb_tc1_ints(u8 a, u8 b, u8 c, u8 d) { set( tab_tc1_on_capture[a] ), set( tab_tc1_on_match_a[b] ), set( tab_tc1_on_match_b[c] ), set( tab_tc1_on_overflow[d] ); MARK; }
CMB cmb_tcp(u8 a, u8 b, u8 c)           { set( tab_tcp_synchronization[a] ), set( tab_tcp_reset_tc2[b] ), set( tab_tcp_reset_tc01[c] ); MARK; }
CMB cmb_twar(u8 a, u8 b)                { set( static_cast<twi::protocol::address>(a) ), set( tab_twi_general_call[b] ); MARK; }
CMB cmb_twcr(u8 a, u8 b)                { set( tab_twi_interface[a] ), set( tab_twi_interrupt[b] ); MARK; }
CMB cmb_ac3(u8 a, u8 b, u8 c)           { set( tab_ac_on[a] ), set( tab_ac_bandgap[b] ), set( tab_ac_interrupt[c] ); MARK; }
CMB cmb_ac4(u8 a, u8 b, u8 c, u8 d)     { set( tab_ac_capture[a] ), set( tab_ac_disable[b] ), set( tab_ac_interrupt[c] ), set( tab_ac_on[d] ); MARK; }
CMB cmb_admux(u8 a, u8 b, u8 c)         { set( tab_adc_reference[a] ), set( tab_adc_channel[b] ), set( tab_adc_adjustment[c] ); MARK; }
CMB cmb_admuxr(u8 a, u8 b, u8 c)        { set( tab_adc_adjustment[c] ), set( tab_adc_channel[b] ), set( tab_adc_reference[a] ); MARK; }
CMB cmb_adcsra(u8 a, u8 b, u8 c, u8 d)  { set( tab_adc_enable[a] ), set( tab_adc_prescale[b] ), set( tab_adc_interrupt[c] ), set( tab_adc_auto_trigger[d] ); MARK; }
CMB cmb_adcsrb(u8 a, u8 b)              { set( tab_adc_comparator[a] ), set( tab_adc_trigger[b] ); MARK; }
// constants, known to the compiler
CMB cmk_admux()  { set( aref::avcc ), set( ach::ch5 ), set( adj::left ); MARK; }
CMB cmk_adcsra() { set( adc::enable::adc::on ), set( apf::x128 ), set( adc::enable::interrupt::on ); MARK; }
CMB cmk_eecr()   { set( ee::enable::read::on ), set( ee::interrupt::on_ready::off ); MARK; }
CMB cmb_eeprom_w(u8 a, u8 b, u8 c) { set( tab_eeprom_write[a] ), set( tab_eeprom_master_write[b] ), set( tab_eeprom_mode[c] ); MARK; }
CMB cmk_twi_start() { set( twi::protocol::start{} ), set( twi::enable::interface::on ), set( twi::enable::interrupt::off ); MARK; }
CMB cmk_twi_stop()  { set( twi::enable::interface::on ), set( twi::protocol::stop{} ); MARK; }
CMB cmk_twi_ack()   { set( twi::enable::interrupt::on ), set( twi::protocol::ack{} ), set( twi::enable::interface::on ); MARK; }
CMB cmk_twi_all()   { set( twi::protocol::ack{} ), set( twi::protocol::stop{} ), set( twi::protocol::start{} ); MARK; }
CMB cmk_adc_start() { adc::conversion::start(), set( adc::enable::adc::on ), set( adc::enable::auto_trigger::off ); MARK; }
CMB cmk_adc_start2() { set( adc::enable::interrupt::off ), adc::conversion::start(); MARK; }
// deferred to the end of the expression; discarded
CMB cmd_mark_before(u8 a) { set( tab_tc0_clock[a] ), (void)MARK; }
CMB cmd_mark_after(u8 a)  { set( tab_tc0_clock[a] ); MARK; }
CMB cmd_discard(u8 a)     { auto p = set( tab_tc0_clock[a] ); p.discard(); MARK; }
CMB cmd_named(u8 a)       { { auto p = set( tab_tc0_clock[a] ); MARK; (void)p; } }
#endif

// ---- fields of any position and width -----------------------------------------
#if KV_PART == 3
using namespace mcu;
template< u8 A, u8 H, u8 L > struct F8 { typedef bitfield8_t< rw_t, A, H, L > f;
    static u16 rd() { return f::read(); }
    static void wr(u16 v) { f::write( (u8)v ); }
    static void lz(u16 v) { f::write_lazy( (u8)v ); } };
template< u8 A, u8 H, u8 L > struct F16 { typedef bitfield16_t< rw_t, A, H, L > f;
    static u16 rd() { return f::read(); }
    static void wr(u16 v) { f::write( v ); }
    static void lz(u16 v) { f::write_lazy( v ); } };
typedef u16 (*rd_t)(); typedef void (*wr_t)(u16); typedef void (*op_t)();
#define ROW(M, H) M(H,0) M(H,1) M(H,2) M(H,3) M(H,4) M(H,5) M(H,6) M(H,7)
#define TRI(M) M(0,0) M(1,0) M(1,1) M(2,0) M(2,1) M(2,2) M(3,0) M(3,1) M(3,2) M(3,3) M(4,0) M(4,1) M(4,2) M(4,3) M(4,4) M(5,0) M(5,1) M(5,2) M(5,3) M(5,4) M(5,5) \
  M(6,0) M(6,1) M(6,2) M(6,3) M(6,4) M(6,5) M(6,6) M(7,0) M(7,1) M(7,2) M(7,3) M(7,4) M(7,5) M(7,6) M(7,7)
#define SIX(M) M(0,0) M(7,7) M(8,8) M(15,15) M(3,0) M(7,0) M(8,0) M(15,0) M(15,8) M(11,4) M(8,7) M(9,6) M(15,1) M(14,0) M(12,12) M(13,9) M(15,12) M(2,1) M(10,3) M(5,5)
#define ADDR 0x3e
#define M1(H,L) F8<ADDR,H,L>::rd,
#define M2(H,L) F8<ADDR,H,L>::wr,
#define M3(H,L) F8<ADDR,H,L>::lz,
extern "C" { rd_t f8io_rd[] = { TRI(M1) }; wr_t f8io_wr[] = { TRI(M2) }; wr_t f8io_lz[] = { TRI(M3) }; }
#undef ADDR
#define ADDR 0xb3
extern "C" { rd_t f8xt_rd[] = { TRI(M1) }; wr_t f8xt_wr[] = { TRI(M2) }; wr_t f8xt_lz[] = { TRI(M3) }; }
#undef ADDR
#define ADDR 0x4b
extern "C" { rd_t f8mi_rd[] = { TRI(M1) }; wr_t f8mi_wr[] = { TRI(M2) }; wr_t f8mi_lz[] = { TRI(M3) }; }
#define N1(H,L) F16<0xc4,H,L>::rd,
#define N2(H,L) F16<0xc4,H,L>::wr,
#define N3(H,L) F16<0xc4,H,L>::lz,
extern "C" { rd_t f16_rd[] = { SIX(N1) }; wr_t f16_wr[] = { SIX(N2) }; wr_t f16_lz[] = { SIX(N3) }; }
template< u8 A, u8 B > struct B8 { typedef bitfield8_t< rw_t, A, B > f; static void s() { f::set(); } static void c() { f::clear(); } static void t() { f::toggle(); }
    typedef bitfield8_t< rc_w0_t, A, B > w0; static void w0c() { w0::clear(); } static u16 w0g() { return w0::read(); }
    typedef bitfield8_t< rs_t, A, B > rs; static void rss() { rs::set(); } static u16 rsg() { return rs::read(); }
    typedef bitfield8_t< rt_w, A, B > rt; static void rtt() { rt::trigger(); } static u16 rtg() { return rt::read(); }
    typedef bitfield8_t< rc_r_t, A, B > rr; static u16 rrg() { return rr::read(); }
    typedef bitfield8_t< w_t, A, B > w; static void ws() { w::set(); } static void wc() { w::clear(); } };
template< u8 A, u8 B > struct B16 { typedef bitfield16_t< rw_t, A, B > f; static void s() { f::set(); } static void c() { f::clear(); } static void t() { f::toggle(); } };
#define EIGHT(A, m) B8<A,0>::m, B8<A,1>::m, B8<A,2>::m, B8<A,3>::m, B8<A,4>::m, B8<A,5>::m, B8<A,6>::m, B8<A,7>::m
#define SIXTN(A, m) B16<A,0>::m, B16<A,1>::m, B16<A,2>::m, B16<A,3>::m, B16<A,4>::m, B16<A,5>::m, B16<A,6>::m, B16<A,7>::m, B16<A,8>::m, B16<A,9>::m, B16<A,10>::m, B16<A,11>::m, B16<A,12>::m, B16<A,13>::m, B16<A,14>::m, B16<A,15>::m
extern "C" {
op_t b8io_set[] = { EIGHT(0x3e, s) }, b8io_clear[] = { EIGHT(0x3e, c) }, b8io_toggle[] = { EIGHT(0x3e, t) };
op_t b8xt_set[] = { EIGHT(0xb3, s) }, b8xt_clear[] = { EIGHT(0xb3, c) }, b8xt_toggle[] = { EIGHT(0xb3, t) };
op_t b8xt_w0clear[] = { EIGHT(0xb3, w0c) }, b8xt_rsset[] = { EIGHT(0xb3, rss) }, b8xt_trigger[] = { EIGHT(0xb3, rtt) }, b8xt_wset[] = { EIGHT(0xb3, ws) }, b8xt_wclear[] = { EIGHT(0xb3, wc) };
rd_t b8xt_w0rd[] = { EIGHT(0xb3, w0g) }, b8xt_rsrd[] = { EIGHT(0xb3, rsg) }, b8xt_rtrd[] = { EIGHT(0xb3, rtg) }, b8xt_rcrd[] = { EIGHT(0xb3, rrg) };
op_t b16_set[] = { SIXTN(0xc4, s) }, b16_clear[] = { SIXTN(0xc4, c) }, b16_toggle[] = { SIXTN(0xc4, t) };
}
// joined deferred writes of arbitrary fields of one register, also with values wider than their field
template< u8 H, u8 L > using x8 = bitfield8_t< rw_t, 0xb3, H, L >;
template< u8 H, u8 L > using i8 = bitfield8_t< rw_t, 0x3e, H, L >;
template< u8 H, u8 L > using x16 = bitfield16_t< rw_t, 0xc4, H, L >;
extern "C" {
__attribute__((noinline, used)) void j_x8_76_50(u8 a, u8 b) { x8<7,6>::write_lazy(a), x8<5,0>::write_lazy(b); }
__attribute__((noinline, used)) void j_x8_30_74(u8 a, u8 b) { x8<3,0>::write_lazy(a), x8<7,4>::write_lazy(b); }
__attribute__((noinline, used)) void j_x8_44_22(u8 a, u8 b) { x8<4,4>::write_lazy(a), x8<2,2>::write_lazy(b); }
__attribute__((noinline, used)) void j_x8_53_11_77(u8 a, u8 b, u8 c) { x8<5,3>::write_lazy(a), x8<1,1>::write_lazy(b), x8<7,7>::write_lazy(c); }
__attribute__((noinline, used)) void j_x8_66_54_21_00(u8 a, u8 b, u8 c, u8 d) { x8<6,6>::write_lazy(a), x8<5,4>::write_lazy(b), x8<2,1>::write_lazy(c), x8<0,0>::write_lazy(d); }
__attribute__((noinline, used)) void j_i8_00_77(u8 a, u8 b) { i8<0,0>::write_lazy(a), i8<7,7>::write_lazy(b); }
__attribute__((noinline, used)) void j_i8_63_20(u8 a, u8 b) { i8<6,3>::write_lazy(a), i8<2,0>::write_lazy(b); }
__attribute__((noinline, used)) void j_i8_11_42_65_77(u8 a, u8 b, u8 c, u8 d) { i8<1,1>::write_lazy(a), i8<4,2>::write_lazy(b), i8<6,5>::write_lazy(c), i8<7,7>::write_lazy(d); }
__attribute__((noinline, used)) void j_x16_158_70(u16 a, u16 b) { x16<15,8>::write_lazy(a), x16<7,0>::write_lazy(b); }
__attribute__((noinline, used)) void j_x16_96_1515_20(u16 a, u16 b, u16 c) { x16<9,6>::write_lazy(a), x16<15,15>::write_lazy(b), x16<2,0>::write_lazy(c); }
}
#endif

// ---- atomic access ---------------------------------------------------------------
#if KV_PART == 4
#include "mcu/register.hpp"
extern "C" { volatile u8 v8; volatile u16 v16; volatile u32 v32; u16 p16; u32 p32; volatile float vf; }
FN u8  aread_v8()  { return mcu::atomic( v8 ); }
FN u16 aread_v16() { return mcu::atomic( v16 ); }
FN u32 aread_v32() { return mcu::atomic( v32 ); }
FN u16 aread_p16() { return mcu::atomic( p16 ); }
FN u32 aread_p32() { return mcu::atomic( p32 ); }
FN void awrite_v8(u8 x)   { mcu::atomic( v8, x ); }
FN void awrite_v16(u16 x) { mcu::atomic( v16, x ); }
FN void awrite_v32(u32 x) { mcu::atomic( v32, x ); }
FN void awrite_p16(u16 x) { mcu::atomic( p16, x ); }
FN void awrite_p32(u32 x) { mcu::atomic( p32, x ); }
FN void awrite_w16(u8 x)  { mcu::atomic( v16, x ); }
FN void awrite_hw(u16 x)  { tc1_pwm_on_a_pb1::write( x ); }
FN void guard(u8 n) {
    volatile u8 * m = (volatile u8 *)0x4a;
    *m = 1;
    { mcu::scoped_interrupt_guard g; *m = 2; for (u8 i = 0; i < n; ++i) *m = 3; *m = 4; }
    *m = 5; *m = 6;
}
FN u8 guard_return(u8 n) {
    volatile u8 * m = (volatile u8 *)0x4a;
    *m = 1;
    for (u8 i = 0; i < 3; ++i) { mcu::scoped_interrupt_guard g; *m = 2; if (i == n) return i; *m = 3; }
    *m = 5;
    return 7;
}
FN void guard_call(u8 n);
__attribute__((noinline)) static void inner(u8 n) { volatile u8 * m = (volatile u8 *)0x4a; *m = 3; if (n) *m = 4; }
FN void guard_call(u8 n) { volatile u8 * m = (volatile u8 *)0x4a; *m = 1; { mcu::scoped_interrupt_guard g; inner(n); *m = 2; } *m = 5; }
#endif

// ---- two-wire ----------------------------------------------------------------------
#if KV_PART == 5
FN u8 twi_write(u8 address, u8 byte) { return twi::sync::write( address, byte ); }
FN void twi_init() { twi::sync::init(); }
FN void twi_init_with(u8 br, u8 ps) { twi::sync::init( static_cast<twi::control::rate>(br), static_cast<twi::control::prescale::factor>(ps) ); }
#endif

int main() { for (;;) ; }
