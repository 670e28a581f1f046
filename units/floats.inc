#@verbatim
// ---- floats: reading a decimal gives the nearest float (std's FromStr)
use vstd::float::FloatBitsProperties;
pub assume_specification [ f64::is_infinite ] (x: f64) -> (r: bool) ensures r == x.is_infinite_spec();
pub assume_specification [ f32::is_infinite ] (x: f32) -> (r: bool) ensures r == x.is_infinite_spec();
pub assume_specification [ f64::to_bits ] (x: f64) -> (r: u64) ensures r == x.to_bits_spec();
pub assume_specification [ f32::to_bits ] (x: f32) -> (r: u32) ensures r == x.to_bits_spec();
/// The float of these bits is the nearest to the number (an infinity beyond the range).
pub uninterp spec fn near32(x: real, bits: u32) -> bool;
pub uninterp spec fn near64(x: real, bits: u64) -> bool;
/// Beyond the range: the largest float and half a unit of its last place.
pub open spec fn over32(x: real) -> bool { absr(x) >= p2(128) - p2(103) }
pub open spec fn over64(x: real) -> bool { absr(x) >= p2(1024) - p2(970) }
pub open spec fn p2(n: nat) -> real decreases n { if n == 0 { 1real } else { 2real * p2((n - 1) as nat) } }
pub broadcast axiom fn near32_range(x: real, f: f32) ensures #[trigger] near32(x, f.to_bits_spec()) ==> if over32(x) { f.is_infinite_spec() } else { f.is_finite_spec() && !f.is_infinite_spec() };
pub broadcast axiom fn near64_range(x: real, f: f64) ensures #[trigger] near64(x, f.to_bits_spec()) ==> if over64(x) { f.is_infinite_spec() } else { f.is_finite_spec() && !f.is_infinite_spec() };
pub broadcast group float_facts { near32_range, near64_range }
impl VNum for f32 { open spec fn reads(l: Lit, x: f32) -> bool { near32(lit_val(l), x.to_bits_spec()) } open spec fn readable(l: Lit) -> bool { true } }
impl VNum for f64 { open spec fn reads(l: Lit, x: f64) -> bool { near64(lit_val(l), x.to_bits_spec()) } open spec fn readable(l: Lit) -> bool { true } }
#[verifier::external]
impl From<SynError> for Error { fn from(_: SynError) -> Error { unimplemented!() } }
