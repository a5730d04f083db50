//! The choice tape: every choice of a run, as four named streams of small integers.
use crate::interpose::splitmix;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Stream { Gen = 0, Sched = 1, Net = 2, Fault = 3 }
pub const STREAMS: [&str; 4] = ["gen", "sched", "net", "fault"];

#[derive(Clone)]
struct Rng(u64);
impl Rng { fn next(&mut self) -> u64 { self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15); splitmix(self.0) } }

pub struct Tape {
    pub vals: [Vec<u32>; 4],
    pos: [usize; 4],
    rng: Option<[Rng; 4]>,
}

impl Tape {
    pub fn random(seed: u64) -> Self {
        let r = |i: u64| Rng(splitmix(seed ^ splitmix(i.wrapping_mul(0xA5A5_5A5A_1234_4321))));
        Tape { vals: Default::default(), pos: [0; 4], rng: Some([r(1), r(2), r(3), r(4)]) }
    }
    pub fn replay(vals: [Vec<u32>; 4]) -> Self { Tape { vals, pos: [0; 4], rng: None } }
    /// Positions consumed, by stream.
    pub fn used(&self) -> [usize; 4] { self.pos }

    /// A choice in `[0, n)`, uniformly when exploring; 0 past the end of a replayed tape.
    pub fn draw(&mut self, s: Stream, n: u64) -> u64 {
        debug_assert!(n > 0 && n <= u32::MAX as u64);
        let i = s as usize;
        let v = match &mut self.rng {
            Some(r) => { let v = r[i].next() % n; self.vals[i].push(v as u32); v }
            None => self.vals[i].get(self.pos[i]).map(|v| (*v as u64).min(n - 1)).unwrap_or(0),
        };
        self.pos[i] += 1;
        v
    }
    /// A choice among `weights.len()` with the given weights when exploring.
    pub fn weighted(&mut self, s: Stream, weights: &[u32]) -> u64 {
        let i = s as usize;
        let n = weights.len() as u64;
        let v = match &mut self.rng {
            Some(r) => {
                let total: u64 = weights.iter().map(|w| *w as u64).sum();
                let mut x = r[i].next() % total.max(1);
                let mut pick = 0;
                for (j, w) in weights.iter().enumerate() {
                    if x < *w as u64 { pick = j; break; }
                    x -= *w as u64;
                }
                self.vals[i].push(pick as u32);
                pick as u64
            }
            None => self.vals[i].get(self.pos[i]).map(|v| (*v as u64).min(n - 1)).unwrap_or(0),
        };
        self.pos[i] += 1;
        v
    }
}
