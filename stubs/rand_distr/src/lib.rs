//! Type-level stand-in for rand_distr 0.4.3 over rand 0.9 (only its signatures matter: the analysed
//! crate is type-checked against it, never run). The real 0.4.3 is built on rand 0.8 and the pinned
//! pair does not type-check, which would hide two modules from the analysis.
pub use rand::distr::Distribution;
use rand::Rng;

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum NormalError { MeanTooSmall, BadVariance }
pub type Error = NormalError;

#[derive(Debug, Clone, Copy, PartialEq)]
pub struct Normal<F> { mean: F, std_dev: F }
impl Normal<f64> {
    pub fn new(mean: f64, std_dev: f64) -> Result<Self, NormalError> { Ok(Normal { mean, std_dev }) }
    pub fn mean(&self) -> f64 { self.mean }
    pub fn std_dev(&self) -> f64 { self.std_dev }
}
impl Distribution<f64> for Normal<f64> {
    fn sample<R: Rng + ?Sized>(&self, _rng: &mut R) -> f64 { self.mean }
}
#[derive(Debug, Clone, Copy, PartialEq)]
pub struct StandardNormal;
impl Distribution<f64> for StandardNormal {
    fn sample<R: Rng + ?Sized>(&self, _rng: &mut R) -> f64 { 0.0 }
}
