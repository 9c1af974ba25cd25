//! The choice tape: every generated value is drawn from it, so shrinking the tape shrinks the value.

pub struct Src {
    tape: Vec<u64>,
    pos: usize,
    rng: Option<Rng>,
}

#[derive(Clone)]
pub struct Rng([u64; 2]);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e3779b97f4a7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58476d1ce4e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d049bb133111eb);
    z ^ (z >> 31)
}

pub fn hash_bytes(bytes: &[u8]) -> u64 {
    let mut h = 0xcbf29ce484222325u64;
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    mix(h)
}

pub fn hash_tape(tape: &[u64]) -> u64 {
    tape.iter().fold(17, |h, v| mix(h ^ v.wrapping_mul(0x9e3779b97f4a7c15)))
}

impl Rng {
    pub fn new(seed: u64) -> Rng {
        Rng([mix(seed), mix(seed ^ 0xabcdef1234567890) | 1])
    }
    pub fn next(&mut self) -> u64 {
        let [s0, mut s1] = self.0;
        let r = s0.wrapping_add(s1);
        s1 ^= s0;
        self.0 = [s0.rotate_left(24) ^ s1 ^ (s1 << 16), s1.rotate_left(37)];
        mix(r)
    }
}

impl Src {
    pub fn random(seed: u64) -> Src {
        Src { tape: Vec::new(), pos: 0, rng: Some(Rng::new(seed)) }
    }
    pub fn replay(tape: &[u64]) -> Src {
        Src { tape: tape.to_vec(), pos: 0, rng: None }
    }
    /// The given tape, and random numbers after its end.
    pub fn prefixed(tape: Vec<u64>, seed: u64) -> Src {
        Src { tape, pos: 0, rng: Some(Rng::new(seed)) }
    }
    /// What makes up the values, as bytes: length, tape and the state of the generator.
    pub fn state(&self) -> Vec<u8> {
        let mut res = (self.tape.len() as u64).to_le_bytes().to_vec();
        let rng = self.rng.as_ref().map_or([0, 0], |it| it.0);
        for v in self.tape.iter().chain(&rng) {
            res.extend(v.to_le_bytes());
        }
        res
    }
    /// A tape for the values of a recorded state, longer than any case.
    pub fn restore(state: &[u8]) -> Vec<u64> {
        let mut words = state.chunks_exact(8).map(|it| u64::from_le_bytes(it.try_into().unwrap()));
        let n = words.next().unwrap_or(0) as usize;
        let mut tape: Vec<u64> = words.by_ref().take(n).collect();
        let mut rng = Rng([words.next().unwrap_or(0), words.next().unwrap_or(1)]);
        tape.extend((0..20_000).map(|_| rng.next()));
        tape
    }
    /// The part of the tape that was used.
    pub fn used(self) -> Vec<u64> {
        let mut tape = self.tape;
        tape.truncate(self.pos);
        tape
    }
    pub fn used_hash(&self) -> u64 {
        hash_tape(&self.tape[..self.pos.min(self.tape.len())])
    }

    /// A number below `n` (`n` > 0); 0 is the simplest one.
    pub fn below(&mut self, n: u64) -> u64 {
        let v = if self.pos < self.tape.len() {
            self.tape[self.pos] % n
        } else {
            match &mut self.rng {
                Some(rng) => {
                    let v = rng.next() % n;
                    self.tape.push(v);
                    v
                }
                None => 0,
            }
        };
        self.pos += 1;
        v
    }
    pub fn upto(&mut self, n: usize) -> usize {
        self.below(n as u64 + 1) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below((hi - lo) as u64 + 1) as usize
    }
    pub fn bool(&mut self) -> bool {
        self.below(2) == 1
    }
    /// True with probability `num / den`; false is simpler.
    pub fn chance(&mut self, num: u64, den: u64) -> bool {
        self.below(den) >= den - num
    }
    /// Whether a list goes on, for lists of `avg` elements on average.
    pub fn more(&mut self, avg: u64) -> bool {
        self.below(avg + 1) != 0
    }
    pub fn pick<'a, T>(&mut self, items: &'a [T]) -> &'a T {
        &items[self.below(items.len() as u64) as usize]
    }
    pub fn index(&mut self, len: usize) -> usize {
        self.below(len as u64) as usize
    }
    /// An index, with the given weights; the first is the simplest.
    pub fn weighted(&mut self, weights: &[u64]) -> usize {
        let mut v = self.below(weights.iter().sum());
        for (i, w) in weights.iter().enumerate() {
            if v < *w {
                return i;
            }
            v -= w;
        }
        unreachable!()
    }
    pub fn list<T>(&mut self, avg: u64, max: usize, mut f: impl FnMut(&mut Src) -> T) -> Vec<T> {
        let mut res = Vec::new();
        while res.len() < max && self.more(avg) {
            res.push(f(self));
        }
        res
    }
    pub fn shuffle<T>(&mut self, items: &mut [T]) {
        for i in (1..items.len()).rev() {
            let j = i - self.upto(i);
            items.swap(i, j);
        }
    }
}
