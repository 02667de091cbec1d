//! Specifications, written for clarity (every product and sum spelled out).
use zkhash::ark_ff::PrimeField;

pub fn pow<F: PrimeField>(x: F, d: usize) -> F {
    let mut r = x;
    let mut i = 1;
    while i < d {
        r = r * x;
        i += 1;
    }
    r
}
pub fn small<F: PrimeField>(k: usize) -> F {
    let mut r = F::zero();
    let mut i = 0;
    while i < k {
        r = r + F::one();
        i += 1;
    }
    r
}
pub fn mul<F: PrimeField>(m: &[Vec<F>], x: &[F]) -> Vec<F> {
    let mut out = Vec::new();
    for row in m {
        let mut s = F::zero();
        for j in 0..x.len() {
            s = s + row[j] * x[j];
        }
        out.push(s);
    }
    out
}
pub fn matmul<F: PrimeField>(a: &[Vec<F>], b: &[Vec<F>]) -> Vec<Vec<F>> {
    let n = a.len();
    let m = b[0].len();
    let mut out = Vec::new();
    for i in 0..n {
        let mut r = Vec::new();
        for j in 0..m {
            let mut s = F::zero();
            for k in 0..b.len() {
                s = s + a[i][k] * b[k][j];
            }
            r.push(s);
        }
        out.push(r);
    }
    out
}
const M4: [[usize; 4]; 4] = [[5, 7, 1, 3], [4, 6, 1, 1], [1, 3, 5, 7], [1, 1, 4, 6]];

/// External matrix of Poseidon2.
pub fn p2_external<F: PrimeField>(t: usize) -> Vec<Vec<F>> {
    let mut m = Vec::new();
    for i in 0..t {
        let mut row = Vec::new();
        for j in 0..t {
            let k = if t < 4 {
                if i == j { 2 } else { 1 }
            } else if t == 4 {
                M4[i][j]
            } else {
                M4[i % 4][j % 4] * if i / 4 == j / 4 { 2 } else { 1 }
            };
            row.push(small::<F>(k));
        }
        m.push(row);
    }
    m
}
/// Internal matrix of Poseidon2: all ones plus the given diagonal.
pub fn p2_internal<F: PrimeField>(t: usize, diag: &[F]) -> Vec<Vec<F>> {
    let mut m = Vec::new();
    for i in 0..t {
        let mut row = Vec::new();
        for j in 0..t {
            let e = if i != j {
                F::one()
            } else if t == 2 || t == 3 {
                small::<F>(if i == t - 1 { 3 } else { 2 })
            } else {
                diag[i] + F::one()
            };
            row.push(e);
        }
        m.push(row);
    }
    m
}
pub fn p2<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, diag: &[F], rc: &[Vec<F>], input: &[F]) -> Vec<F> {
    let me = p2_external::<F>(t);
    let mut s = mul(&me, input);
    for r in 0..rf + rp {
        if r < rf / 2 || r >= rf / 2 + rp {
            for i in 0..t {
                s[i] = pow(s[i] + rc[r][i], d);
            }
            s = mul(&me, &s);
        } else {
            s[0] = pow(s[0] + rc[r][0], d);
            s = p2_internal_mul(t, diag, &s);
        }
    }
    s
}
/// Multiplication by p2_internal, as (all ones) * x + diag .* x.
pub fn p2_internal_mul<F: PrimeField>(t: usize, diag: &[F], x: &[F]) -> Vec<F> {
    let mut o = Vec::new();
    for i in 0..t {
        let mut s = F::zero();
        for j in 0..t {
            s = s + x[j];
        }
        let d = if t == 2 || t == 3 { small::<F>(if i == t - 1 { 2 } else { 1 }) } else { diag[i] };
        o.push(s + d * x[i]);
    }
    o
}
pub fn poseidon<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, mds: &[Vec<F>], rc: &[Vec<F>], input: &[F]) -> Vec<F> {
    let mut s = input.to_vec();
    for r in 0..rf + rp {
        for i in 0..t {
            s[i] = s[i] + rc[r][i];
        }
        s[0] = pow(s[0], d);
        if r < rf / 2 || r >= rf / 2 + rp {
            for i in 1..t {
                s[i] = pow(s[i], d);
            }
        }
        s = mul(mds, &s);
    }
    s
}
pub fn gmimc<F: PrimeField>(t: usize, d: usize, rounds: usize, rc: &[F], input: &[F]) -> Vec<F> {
    let mut s = input.to_vec();
    for r in 0..rounds {
        let p = pow(s[0] + rc[r], d);
        for i in 1..t {
            s[i] = s[i] + p;
        }
        if r + 1 < rounds {
            let mut n = Vec::new();
            for i in 0..t {
                n.push(s[(i + t - 1) % t]);
            }
            s = n;
        }
    }
    s
}
/// External matrix of Neptune for sizes 4 and 8.
pub fn neptune_ext<F: PrimeField>(t: usize) -> Vec<Vec<F>> {
    let h = t / 2;
    let even: &[usize] = if t == 4 { &[2, 1] } else { &[3, 2, 1, 1] };
    let odd: &[usize] = if t == 4 { &[1, 2] } else { &[1, 1, 2, 3] };
    let mut m = Vec::new();
    for i in 0..t {
        let mut row = Vec::new();
        for j in 0..t {
            let e = if i % 2 != j % 2 {
                0
            } else if i % 2 == 0 {
                even[(j / 2 + h - i / 2) % h]
            } else {
                odd[(j / 2 + h - i / 2) % h]
            };
            row.push(small::<F>(e));
        }
        m.push(row);
    }
    m
}
pub fn neptune<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize, me: &[Vec<F>], mu: &[F], gamma: F, rc: &[Vec<F>], input: &[F]) -> Vec<F> {
    let two = small::<F>(2);
    let three = small::<F>(3);
    let four = small::<F>(4);
    let mut s = mul(me, input);
    for r in 0..rf + rp {
        if r < rf / 2 || r >= rf / 2 + rp {
            for i in 0..t / 2 {
                let x1 = s[2 * i];
                let x2 = s[2 * i + 1];
                // Lai-Massey: z = x1 - x2, alpha = beta = 1
                let z = (x1 - x2) * (x1 - x2);
                let w = x1 - two * x2 - z + gamma;
                let w = w * w;
                s[2 * i] = two * x1 + x2 + three * z + w;
                s[2 * i + 1] = x1 + three * x2 + four * z + w;
            }
            s = mul(me, &s);
        } else {
            s[0] = pow(s[0], d);
            s = neptune_internal_mul(t, mu, &s);
        }
        for i in 0..t {
            s[i] = s[i] + rc[r][i];
        }
    }
    s
}

/// All ones with diagonal mu + 1: (all ones) * x + mu .* x.
pub fn neptune_internal_mul<F: PrimeField>(t: usize, mu: &[F], x: &[F]) -> Vec<F> {
    let mut o = Vec::new();
    for i in 0..t {
        let mut s = F::zero();
        for j in 0..t {
            s = s + x[j];
        }
        o.push(s + mu[i] * x[i]);
    }
    o
}

/// Inverse of a matrix of known numbers (Gauss-Jordan with pivoting).
pub fn inverse<F: PrimeField>(m: &[Vec<F>]) -> Vec<Vec<F>> {
    let n = m.len();
    let mut a = Vec::new();
    for i in 0..n {
        let mut r = m[i].clone();
        for j in 0..n {
            r.push(if i == j { F::one() } else { F::zero() });
        }
        a.push(r);
    }
    for c in 0..n {
        let mut p = c;
        while a[p][c].is_zero() {
            p += 1;
        }
        a.swap(c, p);
        let iv = a[c][c].inverse().unwrap();
        for j in 0..2 * n {
            a[c][j] = a[c][j] * iv;
        }
        for i in 0..n {
            if i != c {
                let q = a[i][c];
                for j in 0..2 * n {
                    a[i][j] = a[i][j] - q * a[c][j];
                }
            }
        }
    }
    let mut o = Vec::new();
    for i in 0..n {
        let mut r = Vec::new();
        for j in 0..n {
            r.push(a[i][n + j]);
        }
        o.push(r);
    }
    o
}
