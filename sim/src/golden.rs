//! Keys and ciphertexts an earlier release (the tree this work started from)
//! produced: what is already on its users' disks.
use crate::node::unhex;
use crate::prng::mix_bytes;
use std::sync::OnceLock;

pub struct GKey {
    pub pk: Vec<u8>,
    pub sk: Vec<u8>,
    pub cts: Vec<(String, Vec<u8>)>,
    /// further messages, with only a hash of their ciphertext on record
    pub hcts: Vec<(String, u64)>,
}
pub struct Golden {
    pub keys: Vec<GKey>,
}

#[cfg(feature = "toy")]
const TXT: &str = include_str!("../../golden/toy.txt");
#[cfg(not(feature = "toy"))]
const TXT: &str = include_str!("../../golden/real.txt");

impl GKey {
    pub fn pairs(&self) -> usize {
        self.cts.len() + self.hcts.len()
    }
    pub fn message(&self, i: usize) -> &str {
        match self.cts.get(i) {
            Some(c) => &c.0,
            None => &self.hcts[i - self.cts.len()].0,
        }
    }
    /// is this the ciphertext on record?
    pub fn matches(&self, i: usize, ct: &[u8]) -> bool {
        match self.cts.get(i) {
            Some(c) => c.1 == ct,
            None => self.hcts[i - self.cts.len()].1 == digest(ct),
        }
    }
}

pub fn digest(b: &[u8]) -> u64 {
    mix_bytes(0x601D, b)
}

pub fn golden() -> &'static Golden {
    static G: OnceLock<Golden> = OnceLock::new();
    G.get_or_init(|| {
        let mut keys: Vec<GKey> = vec![];
        for l in TXT.lines() {
            let t: Vec<&str> = l.split(' ').collect();
            match t[0] {
                "key" => keys.push(GKey { pk: unhex(t[1]), sk: unhex(t[2]), cts: vec![], hcts: vec![] }),
                "ct" => keys.last_mut().unwrap().cts.push((t[1].into(), unhex(t[2]))),
                "hct" => {
                    let h = u64::from_str_radix(t[2], 16).unwrap();
                    keys.last_mut().unwrap().hcts.push((t[1].into(), h))
                }
                _ => {}
            }
        }
        Golden { keys }
    })
}
