//! Elementary functions on fixed-point integers with many guard digits: the oracle for the
//! functions of bdmath.rs, written independently of them.
use bigdecimal::BigDecimal;
use num_bigint::{BigInt, Sign};
use num_traits::{One, Signed, ToPrimitive, Zero};

fn p10(k: i64) -> BigInt { BigInt::from(10).pow(k as u32) }
/// Numbers are integers times 10^-w.
pub struct Fix { pub w: i64, one: BigInt }
impl Fix {
    pub fn new(w: i64) -> Fix { Fix { w, one: p10(w) } }
    pub fn from(&self, x: &BigDecimal) -> BigInt {
        let (i, s) = x.as_bigint_and_exponent();
        if s <= self.w { i * p10(self.w - s) } else { let m = p10(s - self.w); (i * 2 + &m) / (m * 2) }
    }
    pub fn to(&self, x: &BigInt) -> BigDecimal { BigDecimal::new(x.clone(), self.w) }
    pub fn int(&self, i: i64) -> BigInt { &self.one * i }
    pub fn mul(&self, a: &BigInt, b: &BigInt) -> BigInt { a * b / &self.one }
    pub fn div(&self, a: &BigInt, b: &BigInt) -> BigInt { a * &self.one / b }
    pub fn sqrt(&self, a: &BigInt) -> BigInt { (a * &self.one).sqrt() }
    fn atan_inv(&self, k: i64) -> BigInt {
        let (mut t, mut s, mut i) = (&self.one / k, BigInt::zero(), 1i64);
        while !t.is_zero() { if (i / 2) % 2 == 0 { s += &t / i } else { s -= &t / i } t = t / (k * k); i += 2; }
        s
    }
    pub fn pi(&self) -> BigInt { let g = Fix::new(self.w + 10); ((g.atan_inv(5) * 4 - g.atan_inv(239)) * 4) / p10(10) }
    fn atanh_inv(&self, k: i64) -> BigInt {
        let (mut t, mut s, mut i) = (&self.one / k, BigInt::zero(), 1i64);
        while !t.is_zero() { s += &t / i; t = t / (k * k); i += 2; }
        s
    }
    fn ln2(&self) -> BigInt { let g = Fix::new(self.w + 10); (g.atanh_inv(26) * 18 - g.atanh_inv(4801) * 2 + g.atanh_inv(8749) * 8) / p10(10) }
    /// Relative precision: w digits lost to the size of the result.
    pub fn exp(&self, x: &BigInt) -> BigInt {
        if x.is_negative() {
            // reciprocal with more digits, so that small results keep some
            let d = self.div(&self.int(1), &self.exp(&-x));
            return d;
        }
        let size = (x / &self.one).to_i64().unwrap_or(i64::MAX);
        let halves = 8 + (64 - (size as u64).leading_zeros()) as u64;
        let g = Fix::new(self.w + 15 + size * 44 / 100);
        let r = (x * p10(g.w - self.w)) >> halves;
        let (mut t, mut s, mut i) = (g.one.clone(), BigInt::zero(), 1i64);
        while !t.is_zero() { s += &t; t = g.mul(&t, &r) / i; i += 1; }
        for _ in 0..halves { s = g.mul(&s, &s); }
        s / p10(g.w - self.w)
    }
    /// x as a decimal, so that small arguments keep their digits.
    pub fn ln(&self, x: &BigDecimal) -> BigInt {
        let g = Fix::new(self.w + 15);
        let (i, s) = x.as_bigint_and_exponent();
        // x = m * 2^k with m in 0.7 .. 1.5
        let bits = i.bits() as i64;
        let mut k = bits - (s as f64 * std::f64::consts::LOG2_10) as i64;
        let m = loop {
            // m = i * 10^-s * 2^-k
            let (mut num, mut den) = (i.clone() * &g.one, BigInt::one());
            if s >= 0 { den = den * p10(s) } else { num = num * p10(-s) }
            if k >= 0 { den = den << k as u64 } else { num = num << (-k) as u64 }
            let m = num / den;
            if &m * 10 < &g.one * 7 { k -= 1 } else if &m * 10 > &g.one * 15 { k += 1 } else { break m }
        };
        let t = g.div(&(&m - &g.one), &(&m + &g.one));
        let t2 = g.mul(&t, &t);
        let (mut p, mut r, mut j) = (t, BigInt::zero(), 1i64);
        while !p.is_zero() { r += &p / j; p = g.mul(&p, &t2); j += 2; }
        (r * 2 + g.ln2() * k) / p10(15)
    }
    /// (sin, cos)
    pub fn sincos(&self, x: &BigInt) -> (BigInt, BigInt) {
        let size = x.to_string().len() as i64 - self.w;
        let g = Fix::new(self.w + 20 + size.max(0));
        let up = p10(g.w - self.w);
        let pi2 = g.pi() * 2;
        let mut r = (x * &up) % &pi2;
        let q = { let h: BigInt = &pi2 / 4; let q: BigInt = &r * 2 / &h; let q = q.to_i64().unwrap(); let q = if q >= 0 { (q + 1) / 2 } else { (q - 1) / 2 }; r -= h * q; q };
        let r2 = g.mul(&r, &r);
        let series = |first: BigInt, mut i: i64| { let (mut t, mut s) = (first, BigInt::zero()); while !t.is_zero() { s += &t; t = -g.mul(&t, &r2) / (i * (i + 1)); i += 2; } s };
        let (s, c) = (series(r.clone(), 2), series(g.one.clone(), 1));
        let (s, c) = match q.rem_euclid(4) { 0 => (s, c), 1 => (c, -s), 2 => (-s, -c), _ => (-c, s) };
        (s / &up, c / &up)
    }
    pub fn atan(&self, x: &BigInt) -> BigInt {
        let g = Fix::new(self.w + 15);
        let mut r = x * p10(15);
        let big = r.abs() > g.one;
        if big { r = g.div(&g.one.clone(), &r) }
        for _ in 0..6 { let d = &g.one + g.sqrt(&(&g.one + g.mul(&r, &r))); r = g.div(&r, &d); }
        let r2 = g.mul(&r, &r);
        let (mut t, mut s, mut i) = (r, BigInt::zero(), 1i64);
        while !t.is_zero() { s += &t / i; t = -g.mul(&t, &r2); i += 2; }
        s = s * 64;
        if big { let h: BigInt = g.pi() / 2; s = if x.is_negative() { -h - s } else { h - s } }
        s / p10(15)
    }
    pub fn asin(&self, x: &BigDecimal) -> BigInt {
        // 1 - x*x exactly
        let d = BigDecimal::from(1) - x * x;
        let g = Fix::new(self.w * 2 + 30);
        let c = Fix::new(g.w).sqrt(&g.from(&d));
        let xx = g.from(x);
        let r = if c.is_zero() { let h: BigInt = g.pi() / 2; if xx.is_negative() { -h } else { h } } else { g.atan(&g.div(&xx, &c)) };
        r / p10(g.w - self.w)
    }
    pub fn erf(&self, x: &BigInt) -> BigInt {
        let x2 = self.mul(x, x);
        if x2 > self.int(self.w * 3 + 20) { return if x.is_negative() { -&self.one } else { self.one.clone() } }
        // 2x/sqrt(pi) e^-x^2 sum (2x^2)^n / (1 3 5 ..)
        let size = (&x2 / &self.one).to_i64().unwrap();
        let g = Fix::new(self.w + 15 + size);
        let up = p10(g.w - self.w);
        let x = x * &up;
        let x2 = g.mul(&x, &x);
        let (mut t, mut s, mut i) = (g.one.clone(), BigInt::zero(), 3i64);
        while !t.is_zero() { s += &t; t = g.mul(&t, &x2) * 2 / i; i += 2; }
        let e = g.exp(&-x2);
        let r = g.mul(&g.mul(&s, &e), &(x * 2));
        g.div(&r, &g.sqrt(&g.pi())) / up
    }
    /// Density of the standard normal distribution.
    pub fn dnorm(&self, z: &BigInt) -> BigInt {
        let e = self.exp(&(-self.mul(z, z) / 2));
        self.div(&e, &self.sqrt(&(self.pi() * 2)))
    }
    pub fn pnorm(&self, z: &BigInt) -> BigInt { (self.erf(&self.div(z, &self.sqrt(&self.int(2)))) + &self.one) / 2 }
    /// x^y for x > 0
    pub fn pow(&self, x: &BigDecimal, y: &BigDecimal) -> BigInt {
        let (yi, ys) = y.as_bigint_and_exponent();
        let size = (yi.to_string().len() as i64 - ys).max(0) + 5;
        let g = Fix::new(self.w + size + 15);
        let l = g.ln(x) * yi;
        let e = if ys >= 0 { l / p10(ys) } else { l * p10(-ys) };
        g.exp(&e) / p10(g.w - self.w)
    }
}
pub fn neg(x: &BigDecimal) -> bool { x.as_bigint_and_exponent().0.sign() == Sign::Minus }
