//! Entry points of the static analysis.  Every public function is a thin, non
//! generic wrapper naming one anchor of bae_rs through its public interface;
//! nothing here is ever run.  The MIR reachable from them is what is analysed.
#![allow(missing_docs)]
use bae_rs::channels::*;
use bae_rs::debug::*;
use bae_rs::generators::*;
use bae_rs::modifiers::*;
use bae_rs::sounds::*;
use bae_rs::utils::*;
use bae_rs::*;
use std::convert::TryFrom;
use std::sync::Arc;
use std::time::Duration;

type SoundSP = Arc<dyn Sound>;

/// Stand-ins for "any" implementation: the analysis treats their methods as
/// unknown functions of their state and arguments.
pub struct OpaqueGen(pub u64);
pub struct OpaqueMod(pub u64);
pub struct OpaqueBlock(pub u64);
pub struct OpaqueSound(pub u64);
impl Generator for OpaqueGen {
    fn process(&mut self) -> SampleT { unimplemented!() }
}
impl Modifier for OpaqueMod {
    fn process(&mut self, _: SampleT) -> SampleT { unimplemented!() }
}
impl Block for OpaqueBlock {
    fn prime_input(&mut self, _: SampleT) { unimplemented!() }
    fn process(&mut self) -> SampleT { unimplemented!() }
}

macro_rules! osc {
    ($t:ident, $new:ident, $clone:ident, $process:ident, $set:ident, $get:ident) => {
        pub fn $new(f: f64) -> $t { $t::new(f) }
        pub fn $clone(s: &$t) -> $t { s.clone() }
        pub fn $process(s: &mut $t) -> f32 { s.process() }
        pub fn $set(s: &mut $t, f: f64) { s.set_frequency(f) }
        pub fn $get(s: &$t) -> f64 { s.get_frequency() }
    };
}
osc!(Sawtooth, sawtooth_new, sawtooth_clone, sawtooth_process, sawtooth_set, sawtooth_get);
osc!(Sine, sine_new, sine_clone, sine_process, sine_set, sine_get);
osc!(Square, square_new, square_clone, square_process, square_set, square_get);
osc!(Triangle, triangle_new, triangle_clone, triangle_process, triangle_set, triangle_get);

pub fn zero_new() -> Zero { Zero::new() }
pub fn zero_clone(s: &Zero) -> Zero { s.clone() }
pub fn zero_process(s: &mut Zero) -> f32 { s.process() }
pub fn noise_new() -> Noise { Noise::new() }
pub fn noise_process(s: &mut Noise) -> f32 { s.process() }
pub fn wav_from_track(r: f64, t: MonoTrackT) -> MonoWav { MonoWav::from_track(r, t) }
pub fn wav_from_source(s: &mut dyn std::io::Read) -> MonoWav { MonoWav::from_source(s) }
pub fn wav_clone(s: &MonoWav) -> MonoWav { s.clone() }
pub fn wav_process(s: &mut MonoWav) -> f32 { s.process() }
pub fn wav_speed(s: &MonoWav) -> f64 { s.get().get_playback_speed() }
pub fn wav_set_speed(s: &mut MonoWav, v: f64) { s.get_mut().set_playback_speed(v) }
pub fn wav_get(s: &MonoWav) -> &MonoResampler { s.get() }
pub fn wav_get_mut(s: &mut MonoWav) -> &mut MonoResampler { s.get_mut() }

macro_rules! modi {
    ($t:ident, $clone:ident, $process:ident) => {
        pub fn $clone(s: &$t) -> $t { s.clone() }
        pub fn $process(s: &mut $t, x: f32) -> f32 { s.process(x) }
    };
}
modi!(ADSR, adsr_clone, adsr_process);
modi!(BandPass, bandpass_clone, bandpass_process);
modi!(Delay, delay_clone, delay_process);
modi!(Echo, echo_clone, echo_process);
modi!(Envelope, envelope_clone, envelope_process);
modi!(Gain, gain_clone, gain_process);
modi!(Generic, generic_clone, generic_process);
modi!(HighPass, highpass_clone, highpass_process);
modi!(LowPass, lowpass_clone, lowpass_process);
modi!(Passthrough, passthrough_clone, passthrough_process);
pub fn adsr_new(a: Duration, d: Duration, s: f64, r: Duration) -> ADSR { ADSR::new(a, d, s, r) }
pub fn adsr_release(s: &mut ADSR) { s.release() }
pub fn bandpass_new(f: f64, q: f64) -> BandPass { BandPass::new(f, q) }
pub fn bandpass_from_corners(f: (f64, f64)) -> BandPass { BandPass::from_corners(f) }
pub fn bandpass_get_cf(s: &BandPass) -> f64 { s.get_central_frequency() }
pub fn bandpass_set_cf(s: &mut BandPass, f: f64) { s.set_central_frequency(f) }
pub fn bandpass_get_q(s: &BandPass) -> f64 { s.get_quality() }
pub fn bandpass_set_q(s: &mut BandPass, q: f64) { s.set_quality(q) }
pub fn bandpass_get_corners(s: &BandPass) -> (f64, f64) { s.get_corner_frequencies() }
pub fn bandpass_set_corners(s: &mut BandPass, f: (f64, f64)) { s.set_corner_frequencies(f) }
pub fn delay_new(d: Duration) -> Delay { Delay::new(d) }
pub fn delay_get(s: &Delay) -> Duration { s.get_delay() }
pub fn echo_new(d: Duration, g: f64) -> Echo { Echo::new(d, g) }
pub fn envelope_new(l: f32, u: f32) -> Envelope { Envelope::new(l, u) }
pub fn gain_new(a: f32) -> Gain { Gain::new(a) }
pub fn generic_new(z: Zeros, p: Poles) -> Generic { Generic::new(z, p) }
pub fn passthrough_new() -> Passthrough { Passthrough::new() }
macro_rules! hl {
    ($t:ident, $new:ident, $getf:ident, $setf:ident, $getr:ident, $setr:ident) => {
        pub fn $new(f: f64, r: f64) -> $t { $t::new(f, r) }
        pub fn $getf(s: &$t) -> f64 { s.get_central_frequency() }
        pub fn $setf(s: &mut $t, f: f64) { s.set_central_frequency(f) }
        pub fn $getr(s: &$t) -> f64 { s.get_resonance() }
        pub fn $setr(s: &mut $t, r: f64) { s.set_resonance(r) }
    };
}
hl!(HighPass, highpass_new, highpass_get_cf, highpass_set_cf, highpass_get_r, highpass_set_r);
hl!(LowPass, lowpass_new, lowpass_get_cf, lowpass_set_cf, lowpass_get_r, lowpass_set_r);

pub fn resam_new(d: MonoTrackT, r: f64, s: usize, e: usize) -> MonoResampler { MonoResampler::new(d, r, s, e) }
pub fn resam_clone(s: &MonoResampler) -> MonoResampler { s.clone() }
pub fn resam_process(s: &mut MonoResampler) -> f32 { s.process() }
pub fn resam_set_speed(s: &mut MonoResampler, v: f64) { s.set_playback_speed(v) }
pub fn resam_get_speed(s: &MonoResampler) -> f64 { s.get_playback_speed() }

macro_rules! snd {
    ($t:ident, $tp:ident, $ip:ident, $tm:ident, $im:ident, $reg:ident, $unreg:ident, $id:ident, $process:ident) => {
        pub fn $tp(s: &mut $t) { s.toggle_pause() }
        pub fn $ip(s: &$t) -> bool { s.is_paused() }
        pub fn $tm(s: &mut $t) { s.toggle_mute() }
        pub fn $im(s: &$t) -> bool { s.is_muted() }
        pub fn $reg(s: &mut $t, id: usize) { s.register(id) }
        pub fn $unreg(s: &mut $t) { s.unregister() }
        pub fn $id(s: &$t) -> Option<usize> { s.get_id() }
        pub fn $process(s: &mut $t, x: f32) -> f32 { s.process(x) }
    };
}
snd!(SimpleSound, ss_tp, ss_ip, ss_tm, ss_im, ss_reg, ss_unreg, ss_id, ss_process);
snd!(ComplexSound, cs_tp, cs_ip, cs_tm, cs_im, cs_reg, cs_unreg, cs_id, cs_process);
pub fn ss_clone(s: &SimpleSound) -> SimpleSound { s.clone() }
pub fn cs_clone(s: &ComplexSound) -> ComplexSound { s.clone() }
pub fn ss_new(i: f64, o: f64, g: BlockSP) -> SimpleSound { SimpleSound::new(i, o, g) }
pub fn ss_add(s: &mut SimpleSound, m: BlockSP) { s.add_modifier::<Gain>(m) }
pub fn ss_extend(s: &mut SimpleSound, m: Vec<BlockSP>) { s.extend_modifiers(m) }
pub fn ss_get_ig(s: &SimpleSound) -> f64 { s.get_input_gain() }
pub fn ss_get_og(s: &SimpleSound) -> f64 { s.get_output_gain() }
pub fn ss_set_ig(s: &mut SimpleSound, g: f64) { s.set_input_gain(g) }
pub fn ss_set_og(s: &mut SimpleSound, g: f64) { s.set_output_gain(g) }
pub fn cs_new(i: f64, o: f64) -> ComplexSound { ComplexSound::new(i, o) }
pub fn cs_get_ig(s: &ComplexSound) -> GraphNode { s.get_input_gain() }
pub fn cs_get_og(s: &ComplexSound) -> GraphNode { s.get_output_gain() }
pub fn cs_add(s: &mut ComplexSound, b: BlockSP) -> GraphNode { s.add_block(b) }
pub fn cs_conn(s: &mut ComplexSound, a: GraphNode, b: GraphNode) { s.add_connection(a, b) }
pub fn cs_disc(s: &mut ComplexSound, a: GraphNode, b: GraphNode) { s.remove_connection(a, b) }
pub fn cs_nodes(s: &ComplexSound) -> ProcessOrder { s.get_nodes() }

pub fn sb_new(g: OpaqueGen, m: OpaqueMod, i: Inter) -> StandardBlock { StandardBlock::new(g, m, i) }
pub fn sb_from_gen(g: OpaqueGen) -> StandardBlock { StandardBlock::from_generator(g) }
pub fn sb_from_mod(m: OpaqueMod) -> StandardBlock { StandardBlock::from_modifier(m) }
pub fn sb_default_inter() -> Inter { StandardBlock::default_interactor() }
pub fn sb_gen_inter() -> Inter { StandardBlock::generator_passthrough() }
pub fn sb_mod_inter() -> Inter { StandardBlock::modifier_passthrough() }
pub fn sb_prime(s: &mut StandardBlock, x: f32) { s.prime_input(x) }
pub fn sb_process(s: &mut StandardBlock) -> f32 { s.process() }
pub fn sb_get_g(s: &StandardBlock) -> &Arc<dyn Generator> { s.get_g() }
pub fn sb_get_m(s: &StandardBlock) -> &Arc<dyn Modifier> { s.get_m() }
pub fn sb_get_g_mut(s: &mut StandardBlock) -> &mut Arc<dyn Generator> { s.get_g_mut() }
pub fn sb_get_m_mut(s: &mut StandardBlock) -> &mut Arc<dyn Modifier> { s.get_m_mut() }
pub fn sb_run_g(s: &mut StandardBlock) -> f32 { Arc::get_mut(s.get_g_mut()).unwrap().process() }
pub fn sb_run_m(s: &mut StandardBlock, x: f32) -> f32 { Arc::get_mut(s.get_m_mut()).unwrap().process(x) }
pub fn sb_default_process(g: OpaqueGen, m: OpaqueMod, x: f32) -> f32 {
    let mut b = StandardBlock::new(g, m, StandardBlock::default_interactor());
    b.prime_input(x);
    b.process()
}
pub fn sb_gen_process(g: OpaqueGen, x: f32) -> f32 {
    let mut b = StandardBlock::from_generator(g);
    b.prime_input(x);
    b.process()
}
pub fn sb_mod_process(m: OpaqueMod, x: f32) -> f32 {
    let mut b = StandardBlock::from_modifier(m);
    b.prime_input(x);
    b.process()
}

macro_rules! chan {
    ($sf:ident, $new:ident, $time:ident, $out:ident, $outv:ident, $gain:ident, $process:ident, $add:ident, $rem:ident) => {
        pub fn $new(g: f64) -> StandardChannel<$sf> { StandardChannel::new(g) }
        pub fn $time(s: &mut StandardChannel<$sf>, d: Duration) { s.set_process_time(d) }
        pub fn $out(s: &StandardChannel<$sf>) -> &Vec<$sf> { s.get_output() }
        pub fn $outv(s: &StandardChannel<$sf>) -> Vec<$sf> { s.get_output().clone() }
        pub fn $gain(s: &mut StandardChannel<$sf>, g: f64) { s.set_gain(g) }
        pub fn $process(s: &mut StandardChannel<$sf>) { s.process() }
        pub fn $add(s: &mut StandardChannel<$sf>, x: &mut SoundSP) { s.add_sound(x) }
        pub fn $rem(s: &mut StandardChannel<$sf>, id: usize) { s.remove_sound(id) }
    };
}
chan!(Mono, chm_new, chm_time, chm_out, chm_outv, chm_gain, chm_process, chm_add, chm_remove);
pub fn chm_clone(s: &StandardChannel<Mono>) -> StandardChannel<Mono> { s.clone() }
pub fn chs_clone(s: &StandardChannel<Stereo>) -> StandardChannel<Stereo> { s.clone() }
chan!(Stereo, chs_new, chs_time, chs_out, chs_outv, chs_gain, chs_process, chs_add, chs_remove);

pub fn from_u8(v: u8) -> f32 { sample_from_u8(v) }
pub fn from_u8_bytes(v: [u8; 1]) -> f32 { sample_from_u8_bytes(v) }
pub fn to_u8(s: f32) -> u8 { sample_to_u8(s) }
pub fn to_u8_bytes(s: f32) -> [u8; 1] { sample_to_u8_bytes(s) }
pub fn from_i16(v: i16) -> f32 { sample_from_i16(v) }
pub fn from_i16_bytes(v: [u8; 2]) -> f32 { sample_from_i16_bytes(v) }
pub fn to_i16(s: f32) -> i16 { sample_to_i16(s) }
pub fn to_i16_bytes(s: f32) -> [u8; 2] { sample_to_i16_bytes(s) }
pub fn from_i24(v: i32) -> f32 { sample_from_i24(v) }
pub fn from_i24_bytes(v: [u8; 3]) -> f32 { sample_from_i24_bytes(v) }
pub fn to_i24(s: f32) -> i32 { sample_to_i24(s) }
pub fn to_i24_bytes(s: f32) -> [u8; 3] { sample_to_i24_bytes(s) }

macro_rules! fmt {
    ($t:ident; $($n:ident)*) => { fmt!(@ $t; $($n)*); };
    (@ $t:ident; $neg:ident $add:ident $sub:ident $mul:ident $mulf:ident $muld:ident
       $adda:ident $suba:ident $mula:ident $mulaf:ident $mulad:ident
       $fs:ident $is:ident $ns:ident $ff:ident $if:ident $def:ident $new:ident
       $t8:ident $t16:ident $t32:ident $i8:ident $i16:ident $i32:ident) => {
        pub fn $neg(a: $t) -> $t { -a }
        pub fn $add(a: $t, b: $t) -> $t { a + b }
        pub fn $sub(a: $t, b: $t) -> $t { a - b }
        pub fn $mul(a: $t, b: $t) -> $t { a * b }
        pub fn $mulf(a: $t, b: f32) -> $t { a * b }
        pub fn $muld(a: $t, b: f64) -> $t { a * b }
        pub fn $adda(mut a: $t, b: $t) -> $t { a += b; a }
        pub fn $suba(mut a: $t, b: $t) -> $t { a -= b; a }
        pub fn $mula(mut a: $t, b: $t) -> $t { a *= b; a }
        pub fn $mulaf(mut a: $t, b: f32) -> $t { a *= b; a }
        pub fn $mulad(mut a: $t, b: f64) -> $t { a *= b; a }
        pub fn $fs(x: f32) -> $t { $t::from_sample(x) }
        pub fn $is(a: $t) -> f32 { a.into_sample() }
        pub fn $ns() -> usize { $t::num_samples() }
        pub fn $ff(x: f32) -> $t { <$t as From<f32>>::from(x) }
        pub fn $if(a: $t) -> f32 { Into::<f32>::into(a) }
        pub fn $def() -> $t { $t::default() }
        pub fn $new() -> $t { $t::new() }
        pub fn $t8(v: Vec<u8>) -> Result<$t, String> { $t::try_from(v) }
        pub fn $t16(v: Vec<i16>) -> Result<$t, String> { $t::try_from(v) }
        pub fn $t32(v: Vec<i32>) -> Result<$t, String> { $t::try_from(v) }
        pub fn $i8(a: $t) -> Vec<u8> { a.into() }
        pub fn $i16(a: $t) -> Vec<i16> { a.into() }
        pub fn $i32(a: $t) -> Vec<i32> { a.into() }
    };
}
fmt!(Mono; mono_neg mono_add mono_sub mono_mul mono_mulf mono_muld mono_adda mono_suba mono_mula mono_mulaf mono_mulad
     mono_from_sample mono_into_sample mono_num mono_from mono_into mono_default mono_new
     mono_try8 mono_try16 mono_try32 mono_into8 mono_into16 mono_into32);
fmt!(Stereo; stereo_neg stereo_add stereo_sub stereo_mul stereo_mulf stereo_muld stereo_adda stereo_suba stereo_mula stereo_mulaf stereo_mulad
     stereo_from_sample stereo_into_sample stereo_num stereo_from stereo_into stereo_default stereo_new
     stereo_try8 stereo_try16 stereo_try32 stereo_into8 stereo_into16 stereo_into32);
pub fn mono_ctor(s: f32) -> Mono { Mono::from(s) }
pub fn stereo_ctor(l: f32, r: f32) -> Stereo { Stereo::from(l, r) }
pub fn pan_stereo_f32(s: f32, g: f32) -> Stereo { <Stereo as Panner<f32>>::to_sample_format(s, g) }
pub fn pan_stereo_f64(s: f32, g: f64) -> Stereo { <Stereo as Panner<f64>>::to_sample_format(s, g) }
pub fn pan_mono_f32(s: f32, g: f32) -> Mono { <Mono as Panner<f32>>::to_sample_format(s, g) }
pub fn pan_mono_f64(s: f32, g: f64) -> Mono { <Mono as Panner<f64>>::to_sample_format(s, g) }
pub fn mono_trip(x: f32) -> f32 { Mono::from_sample(x).into_sample() }
pub fn stereo_trip(x: f32) -> f32 { Stereo::from_sample(x).into_sample() }

pub fn write(t: Vec<SampleTrackT>, bps: u16, d: &mut dyn std::io::Write, clip: bool) -> std::io::Result<()> { write_wav(t, bps, d, clip) }
pub fn read(s: &mut dyn std::io::Read) -> std::io::Result<(wav::Header, Vec<SampleTrackT>)> { read_wav(s) }
pub fn u_samples_to_seconds(s: usize) -> Duration { samples_to_seconds(s) }
pub fn u_seconds_to_samples(s: Duration) -> usize { seconds_to_samples(s) }
pub fn u_linear_to_db(g: f64) -> f64 { linear_to_db(g) }
pub fn u_db_to_linear(g: f64) -> f64 { db_to_linear(g) }
pub fn u_normalize(db: f64, t: &mut SampleTrackT) { normalize(db, t) }
pub fn lerp_f64(x: f64, x1: f64, x2: f64, y1: f64, y2: f64) -> f64 { lerp(x, x1, x2, y1, y2) }
pub fn clerp_f64(x: f64, x1: f64, x2: f64, y1: f64, y2: f64) -> f64 { clerp(x, x1, x2, y1, y2) }
pub fn lerp_f32(x: f32, x1: f32, x2: f32, y1: f32, y2: f32) -> f32 { lerp(x, x1, x2, y1, y2) }
pub fn clerp_f32(x: f32, x1: f32, x2: f32, y1: f32, y2: f32) -> f32 { clerp(x, x1, x2, y1, y2) }
pub fn vecreader_new(v: Vec<u8>) -> VecReader { VecReader::new(v) }
pub fn vecreader_read(r: &mut VecReader, b: &mut [u8]) -> std::io::Result<usize> { std::io::Read::read(r, b) }
pub fn float_equal32(a: f32, b: f32, e: f32) -> bool { float_equal(a, b, e, f32::abs) }
pub fn float_equal64(a: f64, b: f64, e: f64) -> bool { float_equal(a, b, e, f64::abs) }
