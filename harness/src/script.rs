//! A transcript that says what it is told to and remembers what happened on it.
use crate::rng::Rng;
use lambdaworks_crypto::fiat_shamir::transcript::Transcript;
use std::collections::VecDeque;

#[derive(Clone, Debug, PartialEq)]
pub enum Ev {
    Absorbed(Vec<u8>),
    Drawn([u8; 32]),
}

pub struct Scripted {
    pub next: VecDeque<[u8; 32]>,
    pub log: Vec<Ev>,
    rng: Rng,
}

impl Scripted {
    /// Answers with `script`, and with random bytes after that.
    pub fn new(script: Vec<[u8; 32]>, rng: &mut Rng) -> Self {
        Scripted { next: script.into(), log: vec![], rng: Rng::new(rng.u64(), "script") }
    }
    pub fn drawn(&self) -> Vec<[u8; 32]> {
        self.log.iter().filter_map(|e| if let Ev::Drawn(c) = e { Some(*c) } else { None }).collect()
    }
    /// Bytes absorbed before each draw, and after the last.
    pub fn absorbed(&self) -> Vec<Vec<u8>> {
        let mut out = vec![vec![]];
        for e in &self.log {
            match e {
                Ev::Absorbed(b) => out.last_mut().unwrap().extend(b),
                Ev::Drawn(_) => out.push(vec![]),
            }
        }
        out
    }
}

impl Transcript for Scripted {
    fn append(&mut self, b: &[u8]) {
        self.log.push(Ev::Absorbed(b.to_vec()));
    }
    fn challenge(&mut self) -> [u8; 32] {
        let c = match self.next.pop_front() {
            Some(c) => c,
            None => self.rng.bytes32(),
        };
        self.log.push(Ev::Drawn(c));
        c
    }
}
