//! The only source of randomness: one stream per run, derived from (seed, property, run index).

#[derive(Clone)]
pub struct Rng {
    s: [u64; 4],
}

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9e37_79b9_7f4a_7c15);
    z = (z ^ (z >> 30)).wrapping_mul(0xbf58_476d_1ce4_e5b9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94d0_49bb_1331_11eb);
    z ^ (z >> 31)
}

impl Rng {
    pub fn new(parts: &[u64]) -> Self {
        let mut h = 0x1234_5678_9abc_def0u64;
        for p in parts {
            h = mix(h ^ mix(*p));
        }
        let mut s = [0u64; 4];
        for v in s.iter_mut() {
            h = mix(h);
            *v = h;
        }
        Rng { s }
    }

    pub fn u64(&mut self) -> u64 {
        let r = self.s[0].wrapping_add(self.s[3]).rotate_left(23).wrapping_add(self.s[0]);
        let t = self.s[1] << 17;
        self.s[2] ^= self.s[0];
        self.s[3] ^= self.s[1];
        self.s[1] ^= self.s[2];
        self.s[0] ^= self.s[3];
        self.s[2] ^= t;
        self.s[3] = self.s[3].rotate_left(45);
        r
    }

    pub fn below(&mut self, n: u64) -> u64 {
        if n == 0 {
            return 0;
        }
        ((self.u64() as u128 * n as u128) >> 64) as u64
    }

    pub fn range(&mut self, lo: i64, hi: i64) -> i64 {
        lo + self.below((hi - lo + 1) as u64) as i64
    }

    pub fn f(&mut self) -> f64 {
        (self.u64() >> 11) as f64 / (1u64 << 53) as f64
    }

    pub fn uni(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.f()
    }

    /// Log-uniform in [lo, hi], both positive.
    pub fn log(&mut self, lo: f64, hi: f64) -> f64 {
        (self.uni(lo.ln(), hi.ln())).exp()
    }

    pub fn p(&mut self, prob: f64) -> bool {
        self.f() < prob
    }

    pub fn gauss(&mut self) -> f64 {
        let mut s = 0.0;
        for _ in 0..6 {
            s += self.f();
        }
        (s - 3.0) * std::f64::consts::SQRT_2
    }

    pub fn pick<T: Copy>(&mut self, xs: &[T]) -> T {
        xs[self.below(xs.len() as u64) as usize]
    }

    pub fn shuffle<T>(&mut self, xs: &mut [T]) {
        for i in (1..xs.len()).rev() {
            let j = self.below(i as u64 + 1) as usize;
            xs.swap(i, j);
        }
    }

    /// A uniformly distributed unit vector.
    pub fn dir(&mut self) -> [f64; 3] {
        loop {
            let v = [self.uni(-1.0, 1.0), self.uni(-1.0, 1.0), self.uni(-1.0, 1.0)];
            let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2]).sqrt();
            if n > 0.05 && n <= 1.0 {
                return [v[0] / n, v[1] / n, v[2] / n];
            }
        }
    }

    pub fn quat(&mut self) -> [f64; 4] {
        loop {
            let v = [self.uni(-1.0, 1.0), self.uni(-1.0, 1.0), self.uni(-1.0, 1.0), self.uni(-1.0, 1.0)];
            let n = (v[0] * v[0] + v[1] * v[1] + v[2] * v[2] + v[3] * v[3]).sqrt();
            if n > 0.05 && n <= 1.0 {
                return [v[0] / n, v[1] / n, v[2] / n, v[3] / n];
            }
        }
    }

    /// A float from anywhere: plain values, boundaries of the type and of the library's tolerance,
    /// not-a-number, infinities and random bit patterns.
    pub fn wild(&mut self) -> f32 {
        match self.below(12) {
            0 => self.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 9.81, -9.81]),
            1 => self.pick(&[f32::NAN, -f32::NAN, f32::from_bits(0x7f80_0001), f32::INFINITY, f32::NEG_INFINITY]),
            2 => self.pick(&[f32::MAX, f32::MIN, f32::MIN_POSITIVE, f32::from_bits(1), -f32::from_bits(1), f32::EPSILON]),
            3 => self.pick(&[1e-4f32, 9.9e-5, 1.01e-4, -1e-4, 1e-20, 1e-30, 1e10, 1e15]),
            4 => self.pick(&[1e18f32, 1.8e19, 2e19, 1e20, -1e20, 1e25, 1e30, 1e37, 3e38, -3e38]),
            5 | 6 => f32::from_bits(self.u64() as u32),
            7 => self.finite_bits(),
            8 => (self.gauss() * 10.0) as f32,
            9 => self.gauss() as f32,
            10 => (self.gauss() * 0.01) as f32,
            _ => self.range(-4, 4) as f32,
        }
    }

    pub fn finite_bits(&mut self) -> f32 {
        loop {
            let x = f32::from_bits(self.u64() as u32);
            if x.is_finite() {
                return x;
            }
        }
    }

    pub fn wild_finite(&mut self) -> f32 {
        loop {
            let x = self.wild();
            if x.is_finite() {
                return x;
            }
        }
    }
}
