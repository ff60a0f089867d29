//! `rand` as the shell sees it inside the harness: the real crate, except that `thread_rng`
//! hands out numbers chosen by the harness while a script is installed.
pub use real::*;

#[derive(Clone, Debug)]
pub struct ThreadRng(real::rngs::ThreadRng);

pub fn thread_rng() -> ThreadRng {
    ThreadRng(real::thread_rng())
}

impl real::RngCore for ThreadRng {
    fn next_u32(&mut self) -> u32 {
        match vshim::rng::next() {
            Some(x) => (x >> 32) as u32,
            None => self.0.next_u32(),
        }
    }
    fn next_u64(&mut self) -> u64 {
        match vshim::rng::next() {
            Some(x) => x,
            None => self.0.next_u64(),
        }
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        self.0.fill_bytes(dest)
    }
    fn try_fill_bytes(&mut self, dest: &mut [u8]) -> Result<(), real::Error> {
        self.0.try_fill_bytes(dest)
    }
}

pub mod prelude {
    pub use super::{thread_rng, ThreadRng};
    pub use real::prelude::{
        random, CryptoRng, Distribution, IteratorRandom, Rng, RngCore, SeedableRng, SliceRandom,
        StdRng,
    };
}
pub mod rngs {
    pub use super::ThreadRng;
    pub use real::rngs::{adapter, mock, OsRng, StdRng};
}

pub fn random<T>() -> T
where
    real::distributions::Standard: real::distributions::Distribution<T>,
{
    use real::Rng;
    thread_rng().gen()
}
