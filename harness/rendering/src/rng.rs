//! Controlled random numbers: seeds of the code's own generator (xoshiro256++) whose first
//! draws fall in chosen cells, so that a check can enumerate every outcome of the draws.
use rand::{rngs::SmallRng, Rng, SeedableRng};

fn seed(s: [u64; 4]) -> SmallRng {
    let mut b = [0u8; 32];
    for (i, v) in s.iter().enumerate() {
        b[8 * i..8 * i + 8].copy_from_slice(&v.to_le_bytes());
    }
    SmallRng::from_seed(b)
}
fn f(y: u64) -> u64 {
    y.wrapping_add(y.rotate_left(45)).rotate_left(23).wrapping_add(y)
}
pub struct Table {
    n: usize,
    /// y such that the second (or third) output falls in cell k
    y: Vec<u64>,
}
impl Table {
    pub fn new(n: usize) -> Self {
        let mut y = vec![0u64; n];
        let mut left = n;
        let mut z = 0x9e3779b97f4a7c15u64;
        while left > 0 {
            z = z.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            // aim for the middle of the cell
            let v = (f(z) >> 11) as f64 / (1u64 << 53) as f64 * n as f64;
            let c = v as usize;
            if y[c] == 0 && (v.fract() - 0.5).abs() < 0.1 {
                y[c] = z;
                left -= 1;
            }
        }
        Self { n, y }
    }
    fn get(&self, u: f64) -> u64 {
        self.y[((u * self.n as f64) as usize).min(self.n - 1)]
    }
    /// first draw = u0 (exactly), second draw in the cell of u1
    pub fn rng2(&self, u0: f64, u1: f64) -> SmallRng {
        let s3 = ((u0 * (1u64 << 53) as f64) as u64).wrapping_shl(11).rotate_right(23);
        let r = seed([0, self.get(u1) ^ s3, 1, s3]);
        debug_assert!({
            let (a, b): (f64, f64) = r.clone().gen();
            (a - u0).abs() < 1e-9 && (b - u1).abs() < 2. / self.n as f64
        });
        r
    }
    /// first draw = u0, second in the cell of u1, third in the cell of u2
    pub fn rng3(&self, u0: f64, u1: f64, u2: f64) -> SmallRng {
        seed(self.state3(u0, u1, u2))
    }
    fn state3(&self, u0: f64, u1: f64, u2: f64) -> [u64; 4] {
        let s3 = ((u0 * (1u64 << 53) as f64) as u64).wrapping_shl(11).rotate_right(23);
        let s1 = self.get(u1) ^ s3;
        let y = s3 ^ s1; // state word 0 after one step
        let s3b = y.rotate_left(45);
        // third output is f(z): choose s2 so that s1' ^ s3' ^ s0' = word 0 after two steps gives it
        // after step two: word0 = y ^ s3b ^ s1', word3 = rotl(s3b ^ s1', 45)
        let want = (u2 * self.n as f64) as usize;
        let mut k = 1u64;
        loop {
            let s1b = k.wrapping_mul(0x9e3779b97f4a7c15);
            let w0 = y ^ s3b ^ s1b;
            let w3 = (s3b ^ s1b).rotate_left(45);
            let out = w0.wrapping_add(w3).rotate_left(23).wrapping_add(w0);
            if ((out >> 11) as f64 / (1u64 << 53) as f64 * self.n as f64) as usize == want.min(self.n - 1) {
                // s1' = s1 ^ s2 (s0 = 0)
                return [0, s1, s1 ^ s1b, s3];
            }
            k += 1;
        }
    }
    /// draws 2, 3, 4 in cells of u (the first is whatever comes)
    pub fn rng_back(&self, u: &[f64; 3]) -> SmallRng {
        seed(back(self.state3(u[0], u[1], u[2])))
    }
    /// draws 3 and 4 near (u0, u1): step the generator back twice
    pub fn rng_skip2(&self, u0: f64, u1: f64) -> SmallRng {
        let s3 = ((u0 * (1u64 << 53) as f64) as u64).wrapping_shl(11).rotate_right(23);
        let mut s = [0, self.get(u1) ^ s3, 1, s3];
        for _ in 0..2 {
            s = back(s);
        }
        seed(s)
    }
}
/// inverse of one xoshiro256 step
fn back(s: [u64; 4]) -> [u64; 4] {
    // forward: t=s1<<17; s2^=s0; s3^=s1; s1^=s2; s0^=s3; s2^=t; s3=rotl(s3,45)
    let [s0, s1, s2, s3] = s;
    let s3 = s3.rotate_right(45);
    let s0 = s0 ^ s3; // original s0
    // s2 = a2 ^ a0 ^ (a1 << 17), s1 = a1 ^ a2 ^ a0, s3 = a3 ^ a1  =>  s1 ^ s2 = a1 ^ (a1 << 17)
    let m = s1 ^ s2;
    let mut a1 = m;
    for _ in 0..3 {
        a1 = m ^ (a1 << 17);
    }
    let a2 = s1 ^ a1 ^ s0;
    [s0, a1, a2, s3 ^ a1]
}
pub fn selftest() -> bool {
    let t = Table::new(64);
    let near = |a: f64, b: f64| (a - b).abs() < 2. / 64.;
    let mut ok = true;
    for (a, b, c) in [(0.1, 0.9, 0.4), (0.77, 0.02, 0.98), (0.5, 0.5, 0.01)] {
        let mut r = t.rng2(a, b);
        let (x, y): (f64, f64) = r.gen();
        ok &= near(x, a) && near(y, b);
        let mut r = t.rng3(a, b, c);
        let (x, y): (f64, f64) = r.gen();
        let z: f64 = r.gen();
        ok &= near(x, a) && near(y, b) && near(z, c);
        let mut r = t.rng_skip2(a, b);
        let _: (f64, f64) = r.gen();
        let (x, y): (f64, f64) = r.gen();
        ok &= near(x, a) && near(y, b);
    }
    ok
}
