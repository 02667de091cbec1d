use crate::p2::{vec1, vecs};
use crate::{spec, vx};
use std::sync::Arc;
use zkhash::ark_ff::PrimeField;
use zkhash::fields::utils as fu;
use zkhash::gmimc::{gmimc::Gmimc, gmimc_params::GmimcParams};
use zkhash::merkle_tree::merkle_tree_fp::MerkleTreeHash;
use zkhash::neptune::{neptune::Neptune, neptune_params::NeptuneParams};
use zkhash::poseidon::{poseidon::Poseidon, poseidon_params::PoseidonParams};
use zkhash::poseidon2::{poseidon2::Poseidon2, poseidon2_params::Poseidon2Params};
use zkhash::utils;

// ---- C14 -------------------------------------------------------------------
fn dep<F: PrimeField>(c: &F) {
    vx::depends("depends on the first input", c, "x[0][0]");
    vx::depends("depends on the second input", c, "x[1][0]");
}
pub fn compress_p2<F: PrimeField>(d: usize, rf: usize, rp: usize) {
    let t = 3;
    let diag = vec1::<F>("diag", t);
    let rc = vecs::<F>("rc", rf + rp, t);
    let mi = spec::p2_internal::<F>(t, &diag);
    let h = Poseidon2::new(&Arc::new(Poseidon2Params::<F>::new(t, d, rf, rp, &diag, &mi, &rc)));
    let x = vec1::<F>("x", 2);
    vx::begin();
    let c = h.compress(&[&x[0], &x[1]]);
    vx::end();
    let z = spec::p2(t, d, rf, rp, &diag, &rc, &[x[0], x[1], F::zero()]);
    vx::eq("compress", 0, &c, &z[0]);
    let p = h.permutation(&[x[0], x[1], F::zero()]);
    vx::eq("compress = first output element", 0, &c, &p[0]);
    // the same element twice, by the same reference
    let c2 = h.compress(&[&x[0], &x[0]]);
    let z2 = spec::p2(t, d, rf, rp, &diag, &rc, &[x[0], x[0], F::zero()]);
    vx::eq("compress of twice the same element", 0, &c2, &z2[0]);
    dep(&c);
}
pub fn compress_poseidon<F: PrimeField>(d: usize, rf: usize, rp: usize) {
    compress_poseidon_m(d, rf, rp, vecs::<F>("mds", 3, 3));
}
pub fn compress_poseidon_k<F: PrimeField>(d: usize, rf: usize, rp: usize) {
    compress_poseidon_m(d, rf, rp, crate::p2::given2::<F>("mat1", 3, 3));
}
fn compress_poseidon_m<F: PrimeField>(d: usize, rf: usize, rp: usize, mds: Vec<Vec<F>>) {
    let t = 3;
    let rc = vecs::<F>("rc", rf + rp, t);
    let h = Poseidon::new(&Arc::new(PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc)));
    let x = vec1::<F>("x", 2);
    vx::begin();
    let c = h.compress(&[&x[0], &x[1]]);
    vx::end();
    let z = spec::poseidon(t, d, rf, rp, &mds, &rc, &[x[0], x[1], F::zero()]);
    vx::eq("compress", 0, &c, &z[0]);
    let p = h.permutation(&[x[0], x[1], F::zero()]);
    vx::eq("compress = first output element", 0, &c, &p[0]);
    // the same element twice, by the same reference
    let c2 = h.compress(&[&x[0], &x[0]]);
    let z2 = spec::poseidon(t, d, rf, rp, &mds, &rc, &[x[0], x[0], F::zero()]);
    vx::eq("compress of twice the same element", 0, &c2, &z2[0]);
    dep(&c);
}
pub fn compress_gmimc<F: PrimeField>(d: usize, rounds: usize) {
    let t = 3;
    let p = Arc::new(GmimcParams::<F>::new(t, d, rounds));
    let h = Gmimc::new(&p);
    let x = vec1::<F>("x", 2);
    vx::begin();
    let c = h.compress(&[&x[0], &x[1]]);
    vx::end();
    let rc: &Vec<F> = vx::field(&*p, "round_constants");
    let z = spec::gmimc(t, d, rounds, rc, &[x[0], x[1], F::zero()]);
    vx::eq("compress", 0, &c, &z[0]);
    let q = h.permutation(&[x[0], x[1], F::zero()]);
    vx::eq("compress = first output element", 0, &c, &q[0]);
    // the same element twice, by the same reference
    let c2 = h.compress(&[&x[0], &x[0]]);
    let z2 = spec::gmimc(t, d, rounds, rc, &[x[0], x[0], F::zero()]);
    vx::eq("compress of twice the same element", 0, &c2, &z2[0]);
    dep(&c);
}
pub fn compress_neptune<F: PrimeField>(d: usize, rf: usize, rp: usize) {
    let t = 4;
    let p = Arc::new(NeptuneParams::<F>::new(t, d, rf, rp));
    let h = Neptune::new(&p);
    let x = vec1::<F>("x", 2);
    vx::begin();
    let c = h.compress(&[&x[0], &x[1]]);
    vx::end();
    let rc: &Vec<Vec<F>> = vx::field(&*p, "round_constants");
    let mu: &Vec<F> = vx::field(&*p, "mu");
    let abc: &[F; 3] = vx::field(&*p, "abc");
    let me = spec::neptune_ext::<F>(t);
    let z = spec::neptune(t, d, rf, rp, &me, mu, abc[2], rc, &[x[0], x[1], F::zero(), F::zero()]);
    vx::eq("compress", 0, &c, &z[0]);
    let q = h.permutation(&[x[0], x[1], F::zero(), F::zero()]);
    vx::eq("compress = first output element", 0, &c, &q[0]);
    // the same element twice, by the same reference
    let c2 = h.compress(&[&x[0], &x[0]]);
    let z2 = spec::neptune(t, d, rf, rp, &me, mu, abc[2], rc, &[x[0], x[0], F::zero(), F::zero()]);
    vx::eq("compress of twice the same element", 0, &c2, &z2[0]);
    dep(&c);
}

// ---- C17 -------------------------------------------------------------------
fn bad_degree(p2: usize) -> usize {
    let d = vx::int("d", 0, usize::MAX);
    vx::assume(d != 3);
    vx::assume(d != 5);
    vx::assume(d != 7);
    if p2 == 1 {
        vx::assume(d != 11);
    }
    d
}
fn odd(name: &str) -> usize {
    let r = vx::int(name, 0, usize::MAX);
    vx::assume(r % 2 == 1);
    r
}
/// kind: 0 = unsupported degree, 1 = odd number of full rounds
pub fn reject_p2<F: PrimeField>(kind: usize, t: usize) {
    let d = if kind == 0 { bad_degree(1) } else { 5 };
    let rf = if kind == 1 { odd("rounds_f") } else { 2 };
    let z = vec![F::zero(); t];
    Poseidon2Params::<F>::new(t, d, rf, 1, &z, &vec![z.clone(); t], &vec![z.clone(); 3]);
    vx::ok("invalid parameters are rejected", false);
}
pub fn reject_poseidon<F: PrimeField>(kind: usize, t: usize, rows: usize) {
    let d = if kind == 0 { bad_degree(0) } else { 5 };
    let rf = if kind == 1 { odd("rounds_f") } else { 2 };
    let mds = vecs::<F>("mds", rows, t);
    let rc = vecs::<F>("rc", 3, t);
    PoseidonParams::<F>::new(t, d, rf, 1, &mds, &rc);
    vx::ok("invalid parameters are rejected", false);
}
pub fn reject_gmimc<F: PrimeField>(t: usize) {
    let d = bad_degree(0);
    GmimcParams::<F>::new(t, d, 2);
    vx::ok("invalid parameters are rejected", false);
}
pub fn reject_neptune<F: PrimeField>(kind: usize) {
    let d = if kind == 0 { bad_degree(0) } else { 5 };
    let rf = if kind == 1 { odd("rounds_f") } else { 2 };
    let t = if kind == 2 { odd("t") } else { 4 };
    NeptuneParams::<F>::new(t, d, rf, 1);
    vx::ok("invalid parameters are rejected", false);
}
/// concrete variants, for constructors whose control flow needs numbers
pub fn reject_p2_k<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    let z = vec1::<F>("diag", t);
    Poseidon2Params::<F>::new(t, d, rf, rp, &z, &spec::p2_internal::<F>(t, &z), &vecs::<F>("rc", rf + rp, t));
    vx::ok("invalid parameters are rejected", false);
}
pub fn reject_poseidon_k<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    let mds = crate::p2::given2::<F>("mat0", t, t);
    let rc = vecs::<F>("rc", rf + rp, t);
    PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc);
    vx::ok("invalid parameters are rejected", false);
}
pub fn reject_rows_k<F: PrimeField>(t: usize, rows: usize, rf: usize, rp: usize) {
    let mds = crate::p2::given2::<F>("mat0", rows, t);
    let rc = vecs::<F>("rc", rf + rp, t);
    PoseidonParams::<F>::new(t, 5, rf, rp, &mds, &rc);
    vx::ok("a matrix with another number of rows is rejected", false);
}
pub fn reject_gmimc_k<F: PrimeField>(t: usize, d: usize, rounds: usize) {
    GmimcParams::<F>::new(t, d, rounds);
    vx::ok("invalid parameters are rejected", false);
}
pub fn reject_neptune_k<F: PrimeField>(t: usize, d: usize, rf: usize, rp: usize) {
    NeptuneParams::<F>::new(t, d, rf, rp);
    vx::ok("invalid parameters are rejected", false);
}
/// An input slice of every length but t.
fn other_length<'a, F: PrimeField>(x: &'a [F], t: usize) -> &'a [F] {
    let n = vx::int("n", 0, 1 << 40);
    vx::assume(n != t);
    unsafe { std::slice::from_raw_parts(x.as_ptr(), n) }
}
pub fn anylen_p2<F: PrimeField>(t: usize) {
    let diag = vec1::<F>("diag", t);
    let rc = vecs::<F>("rc", 3, t);
    let mi = spec::p2_internal::<F>(t, &diag);
    let h = Poseidon2::new(&Arc::new(Poseidon2Params::<F>::new(t, 5, 2, 1, &diag, &mi, &rc)));
    h.permutation(other_length(&vec1::<F>("x", t), t));
    vx::ok("every other input length is rejected", false);
}
pub fn anylen_poseidon<F: PrimeField>(t: usize, plain: usize) {
    let mds = crate::p2::given2::<F>("mat0", t, t);
    let rc = vecs::<F>("rc", 3, t);
    let h = Poseidon::new(&Arc::new(PoseidonParams::<F>::new(t, 5, 2, 1, &mds, &rc)));
    let x = vec1::<F>("x", t);
    let x = other_length(&x, t);
    if plain == 1 {
        h.permutation_not_opt(x);
    } else {
        h.permutation(x);
    }
    vx::ok("every other input length is rejected", false);
}
pub fn anylen_gmimc<F: PrimeField>(t: usize, plain: usize) {
    let h = Gmimc::new(&Arc::new(GmimcParams::<F>::new(t, 5, 3)));
    let x = vec1::<F>("x", t);
    let x = other_length(&x, t);
    if plain == 1 {
        h.permutation_not_opt(x);
    } else {
        h.permutation(x);
    }
    vx::ok("every other input length is rejected", false);
}
pub fn anylen_neptune<F: PrimeField>(t: usize) {
    let h = Neptune::new(&Arc::new(NeptuneParams::<F>::new(t, 5, 2, 1)));
    h.permutation(other_length(&vec1::<F>("x", t), t));
    vx::ok("every other input length is rejected", false);
}
pub fn length_p2<F: PrimeField>(t: usize, n: usize) {
    let diag = vec1::<F>("diag", t);
    let rc = vecs::<F>("rc", 3, t);
    let mi = spec::p2_internal::<F>(t, &diag);
    let h = Poseidon2::new(&Arc::new(Poseidon2Params::<F>::new(t, 5, 2, 1, &diag, &mi, &rc)));
    let x = vec1::<F>("x", n);
    h.permutation(&x);
    vx::ok("wrong input length or unsupported size is rejected", false);
}
pub fn length_poseidon<F: PrimeField>(t: usize, n: usize, plain: usize) {
    let mds = crate::p2::given2::<F>("mat0", t, t);
    let rc = vecs::<F>("rc", 3, t);
    let h = Poseidon::new(&Arc::new(PoseidonParams::<F>::new(t, 5, 2, 1, &mds, &rc)));
    let x = vec1::<F>("x", n);
    if plain == 1 {
        h.permutation_not_opt(&x);
    } else {
        h.permutation(&x);
    }
    vx::ok("wrong input length is rejected", false);
}
pub fn length_gmimc<F: PrimeField>(t: usize, n: usize, plain: usize) {
    let h = Gmimc::new(&Arc::new(GmimcParams::<F>::new(t, 5, 3)));
    let x = vec1::<F>("x", n);
    if plain == 1 {
        h.permutation_not_opt(&x);
    } else {
        h.permutation(&x);
    }
    vx::ok("wrong input length is rejected", false);
}
pub fn length_neptune<F: PrimeField>(t: usize, n: usize) {
    let h = Neptune::new(&Arc::new(NeptuneParams::<F>::new(t, 5, 2, 1)));
    let x = vec1::<F>("x", n);
    h.permutation(&x);
    vx::ok("wrong input length is rejected", false);
}

// ---- C19 -------------------------------------------------------------------
fn ident<F: PrimeField>(n: usize, i: usize, j: usize) -> F {
    let _ = n;
    if i == j { F::one() } else { F::zero() }
}
fn minor<F: PrimeField>(m: &[Vec<F>], k: usize) -> F {
    // determinant of the leading k x k block, by expansion along the last row
    fn det<F: PrimeField>(m: &[Vec<F>], row: usize, cols: &[usize]) -> F {
        if cols.len() == 0 {
            return F::one();
        }
        let mut s = F::zero();
        let mut neg = cols.len() % 2 == 0;
        for c in 0..cols.len() {
            let mut rest = Vec::new();
            for j in 0..cols.len() {
                if j != c {
                    rest.push(cols[j]);
                }
            }
            let e = m[row - 1][cols[c]] * det(m, row - 1, &rest);
            s = if neg { s - e } else { s + e };
            neg = !neg;
        }
        s
    }
    let mut cols = Vec::new();
    for j in 0..k {
        cols.push(j);
    }
    det(m, k, &cols)
}
/// All matrices with non-zero leading principal minors: the inverse exists and is returned.
pub fn inverse_good<F: PrimeField>(n: usize) {
    let m = vecs::<F>("m", n, n);
    for k in 1..n + 1 {
        vx::assume(!minor(&m, k).is_zero());
    }
    vx::begin();
    let v = utils::mat_inverse(&m);
    vx::end();
    let a = spec::matmul(&m, &v);
    for i in 0..n {
        for j in 0..n {
            vx::eq("m * inverse", i * n + j, &a[i][j], &ident::<F>(n, i, j));
        }
    }
}
pub fn inverse<F: PrimeField>(n: usize) {
    let m = vecs::<F>("m", n, n);
    let v = utils::mat_inverse(&m);
    vx::int_eq("rows", v.len(), n);
    let a = spec::matmul(&m, &v);
    let b = spec::matmul(&v, &m);
    for i in 0..n {
        vx::int_eq("columns", v[i].len(), n);
        for j in 0..n {
            vx::eq("m * inverse", i * n + j, &a[i][j], &ident::<F>(n, i, j));
            vx::eq("inverse * m", i * n + j, &b[i][j], &ident::<F>(n, i, j));
        }
    }
}
/// Matrices with small integer entries taken from the digits of `code` (base 3).
pub fn inverse_k<F: PrimeField>(n: usize, code: usize) {
    let mut c = code;
    let mut m = Vec::new();
    for _ in 0..n {
        let mut r = Vec::new();
        for _ in 0..n {
            r.push(spec::small::<F>(c % 3));
            c /= 3;
        }
        m.push(r);
    }
    let v = utils::mat_inverse(&m);
    let a = spec::matmul(&m, &v);
    let b = spec::matmul(&v, &m);
    for i in 0..n {
        for j in 0..n {
            vx::eq("m * inverse", i * n + j, &a[i][j], &ident::<F>(n, i, j));
            vx::eq("inverse * m", i * n + j, &b[i][j], &ident::<F>(n, i, j));
        }
    }
}
pub fn transpose<F: PrimeField>(n: usize, m: usize) {
    let a = vecs::<F>("m", n, m);
    let b = utils::mat_transpose(&a);
    vx::int_eq("rows", b.len(), m);
    for j in 0..m {
        vx::int_eq("columns", b[j].len(), n);
        for i in 0..n {
            vx::eq("transpose", i * m + j, &b[j][i], &a[i][j]);
        }
    }
}
pub fn products<F: PrimeField>(n: usize) {
    let a = vecs::<F>("a", n, n);
    let b = vecs::<F>("b", n, n);
    let x = vec1::<F>("x", n);
    let y = spec::mul(&a, &x);
    let p = PoseidonParams::<F>::mat_vec_mul(&a, &x);
    let q = Poseidon2Params::<F>::mat_vec_mul(&a, &x);
    vx::int_eq("length", p.len(), n);
    vx::int_eq("length", q.len(), n);
    for i in 0..n {
        vx::eq("Poseidon mat_vec_mul", i, &p[i], &y[i]);
        vx::eq("Poseidon2 mat_vec_mul", i, &q[i], &y[i]);
    }
    let c = PoseidonParams::<F>::mat_mat_mul(&a, &b);
    let d = spec::matmul(&a, &b);
    vx::int_eq("rows", c.len(), n);
    for i in 0..n {
        vx::int_eq("columns", c[i].len(), n);
        for j in 0..n {
            vx::eq("Poseidon mat_mat_mul", i * n + j, &c[i][j], &d[i][j]);
        }
    }
}

// ---- C21 -------------------------------------------------------------------
const DIGITS: &[u8; 22] = b"0123456789abcdefABCDEF";
fn value(c: u8) -> usize {
    if c <= b'9' {
        (c - b'0') as usize
    } else if c >= b'a' {
        (c - b'a') as usize + 10
    } else {
        (c - b'A') as usize + 10
    }
}
/// String of n digits chosen by a small generator from `seed`.
fn digits(n: usize, seed: usize) -> Vec<u8> {
    let mut s = Vec::new();
    let mut k = seed;
    for _ in 0..n {
        k = (k * 1103515245 + 12345) % 2147483648;
        let c = match seed {
            0 => b'0',
            1 => b'f',
            2 => b'F',
            _ => DIGITS[(k / 65536) % 22],
        };
        s.push(c);
    }
    s
}
pub fn hex<F: PrimeField>(n: usize, seed: usize) {
    let ds = digits(n, seed);
    let mut s = String::from("0x");
    let mut v = F::zero();
    let b = spec::small::<F>(16);
    for c in ds {
        s.push(c as char);
        v = v * b + spec::small::<F>(value(c));
    }
    let r = fu::from_hex::<F>(&s);
    vx::eq("from_hex", n, &r, &v);
}
/// unknown digits: every digit string of length n
pub fn hex_sym<F: PrimeField>(n: usize) {
    let mut s = Vec::new();
    s.push(b'0');
    s.push(b'x');
    let mut v = F::zero();
    let b = spec::small::<F>(16);
    for i in 0..n {
        let c = vx::hexchar(i);
        s.push(c);
        v = v * b + F::from(vx::hexval(c));
    }
    let s = unsafe { String::from_utf8_unchecked(s) };
    let r = fu::from_hex::<F>(&s);
    vx::eq("from_hex", n, &r, &v);
}
/// one bad character at position k of n
pub fn hex_bad<F: PrimeField>(n: usize, k: usize, c: usize) {
    let mut ds = digits(n, 7);
    ds[k] = c as u8;
    let mut s = String::from("0x");
    for c in ds {
        s.push(c as char);
    }
    let _r = fu::from_hex::<F>(&s);
    vx::ok("non-hexadecimal digit is rejected", false);
}
/// two bad characters
pub fn hex_bad2<F: PrimeField>(n: usize, j: usize, k: usize, c: usize) {
    let mut ds = digits(n, 7);
    ds[j] = c as u8;
    ds[k] = c as u8;
    let mut s = String::from("0x");
    for c in ds {
        s.push(c as char);
    }
    let _r = fu::from_hex::<F>(&s);
    vx::ok("non-hexadecimal digit is rejected", false);
}
pub fn samplers<F: PrimeField>() {
    let a = fu::random_scalar::<F>();
    vx::is_draw("random_scalar", &a);
    let b = fu::random_scalar_without_0::<F>();
    vx::is_draw("random_scalar_without_0", &b);
    vx::ok("random_scalar_without_0 is not zero", !b.is_zero());
}
/// A draw is handed on unchanged, whatever its value; k zero draws in a row
/// are skipped by the non-zero sampler.
pub fn sampler_draw<F: PrimeField>(k: usize, v: usize) {
    let d = match v {
        0 => vx::sym::<F>("draw", 0, 0),
        1 => F::one(),
        2 => -F::one(),
        3 => F::zero(),
        4 => spec::small::<F>(2),
        5 => F::GENERATOR,
        6 => F::from(2u64).inverse().unwrap(),
        _ => F::from(1u64 << 63).square(),
    };
    if k == 0 {
        vx::feed(&[d]);
        let a = fu::random_scalar::<F>();
        vx::eq("random_scalar returns the draw", v, &a, &d);
    }
    if v == 3 {
        return;
    }
    vx::assume(!d.is_zero());
    let mut q = Vec::new();
    for _ in 0..k {
        q.push(F::zero());
    }
    q.push(d);
    vx::feed(&q);
    let b = fu::random_scalar_without_0::<F>();
    vx::eq("random_scalar_without_0 returns the first non-zero draw", k, &b, &d);
}
/// byte b at byte position k of n, the other digits fixed
pub fn hex_byte<F: PrimeField>(n: usize, k: usize, b: usize) {
    let mut ds = digits(2 * n, 7);
    let h = b"0123456789abcdef";
    ds[2 * k] = h[b / 16];
    ds[2 * k + 1] = h[b % 16];
    let mut s = String::from("0x");
    let mut v = F::zero();
    let x = spec::small::<F>(16);
    for c in ds {
        s.push(c as char);
        v = v * x + spec::small::<F>(value(c));
    }
    let r = fu::from_hex::<F>(&s);
    vx::eq("from_hex", n, &r, &v);
}

// ---- C10 -------------------------------------------------------------------
pub fn consts<F: PrimeField + zkhash::ark_ff::FftField>() {
    vx::dump("modulus", &F::MODULUS);
    vx::dump("generator", &F::GENERATOR);
    vx::dump("root", &F::TWO_ADIC_ROOT_OF_UNITY);
    vx::note("adicity", F::TWO_ADICITY as usize);
    vx::note("bits", F::MODULUS_BIT_SIZE as usize);
    vx::dump("one", &F::one());
    vx::dump("trace", &F::TRACE);
}
// ---- C09: linear layers actually applied ------------------------------------
pub fn linear_p2<F: PrimeField>(t: usize) {
    let diag = vec1::<F>("diag", t);
    let mi = spec::p2_internal::<F>(t, &diag);
    let none: Vec<Vec<F>> = Vec::new();
    let h = Poseidon2::new(&Arc::new(Poseidon2Params::<F>::new(t, 3, 0, 0, &diag, &mi, &none)));
    let x = vec1::<F>("x", t);
    let y = h.permutation(&x);
    vx::dump("external", &y);
}

/// The power map applied for degree d is x^e (kind 0: full rounds, 1: partial round).
pub fn sbox_p2<F: PrimeField>(t: usize, d: usize, e: usize, kind: usize) {
    let (rf, rp) = if kind == 0 { (2, 0) } else { (0, 1) };
    let diag = vec1::<F>("diag", t);
    let rc = vecs::<F>("rc", rf + rp, t);
    let mi = spec::p2_internal::<F>(t, &diag);
    let h = Poseidon2::new(&Arc::new(Poseidon2Params::<F>::new(t, d, rf, rp, &diag, &mi, &rc)));
    let x = vec1::<F>("x", t);
    let y = h.permutation(&x);
    let z = spec::p2(t, e, rf, rp, &diag, &rc, &x);
    for i in 0..t {
        vx::eq("power map", i, &y[i], &z[i]);
    }
}
pub fn sbox_poseidon<F: PrimeField>(t: usize, d: usize, e: usize, kind: usize) {
    let (rf, rp) = if kind == 0 { (2, 1) } else { (0, 1) };
    let mds = crate::p2::given2::<F>("mat0", t, t);
    let rc = vecs::<F>("rc", rf + rp, t);
    let h = Poseidon::new(&Arc::new(PoseidonParams::<F>::new(t, d, rf, rp, &mds, &rc)));
    let x = vec1::<F>("x", t);
    let y = h.permutation(&x);
    let z = spec::poseidon(t, e, rf, rp, &mds, &rc, &x);
    for i in 0..t {
        vx::eq("power map", i, &y[i], &z[i]);
    }
}

/// A larger matrix of known numbers.
pub fn inverse_given<F: PrimeField>(n: usize) {
    let m = crate::p2::given2::<F>("mat1", n, n);
    let v = utils::mat_inverse(&m);
    let a = spec::matmul(&m, &v);
    for i in 0..n {
        for j in 0..n {
            vx::eq("m * inverse", i * n + j, &a[i][j], &ident::<F>(n, i, j));
        }
    }
}
/// Structured matrices of any size: permutations, equal rows, zero rows,
/// triangular ones with a zero on the diagonal, rank one, diagonal.
pub fn inverse_pat<F: PrimeField>(n: usize, kind: usize) {
    let g = crate::p2::given2::<F>("mat1", n, n);
    let mut m = Vec::new();
    for i in 0..n {
        let mut r = Vec::new();
        for j in 0..n {
            r.push(match kind {
                0 => ident::<F>(n, i, j),
                1 => ident::<F>(n, i, n - 1 - j),
                2 => ident::<F>(n, i, (j + 1) % n),
                3 => g[if i + 1 == n { 0 } else { i }][j],
                4 => if i + 1 == n { F::zero() } else { g[i][j] },
                5 => if j < i || (i + 1 == n && j == i) { F::zero() } else { g[i][j] },
                6 => g[0][j] * g[i][0],
                7 => if i == j { g[i][j] } else { F::zero() },
                8 => if j < i { F::zero() } else { g[i][j] },
                9 => if j > i { F::zero() } else { g[i][j] },
                10 => g[n - 1 - i][j],
                11 => if j == n / 2 { F::zero() } else { g[i][j] },
                12 => F::one(),
                13 => if i == j { F::zero() } else { F::one() },
                14 => if i == j { -F::one() } else { F::one() },
                _ => g[i][if j + 1 == n { 0 } else { j }],
            });
        }
        m.push(r);
    }
    let v = utils::mat_inverse(&m);
    vx::int_eq("rows", v.len(), n);
    let a = spec::matmul(&m, &v);
    let b = spec::matmul(&v, &m);
    for i in 0..n {
        vx::int_eq("columns", v[i].len(), n);
        for j in 0..n {
            vx::eq("m * inverse", i * n + j, &a[i][j], &ident::<F>(n, i, j));
            vx::eq("inverse * m", i * n + j, &b[i][j], &ident::<F>(n, i, j));
        }
    }
}
/// Products of larger given matrices with symbolic vectors.
pub fn products_k<F: PrimeField>(n: usize) {
    let a = crate::p2::given2::<F>("mat0", n, n);
    let b = crate::p2::given2::<F>("mat1", n, n);
    let x = vec1::<F>("x", n);
    let y = spec::mul(&a, &x);
    let p = PoseidonParams::<F>::mat_vec_mul(&a, &x);
    let q = Poseidon2Params::<F>::mat_vec_mul(&a, &x);
    vx::int_eq("length", p.len(), n);
    vx::int_eq("length", q.len(), n);
    for i in 0..n {
        vx::eq("Poseidon mat_vec_mul", i, &p[i], &y[i]);
        vx::eq("Poseidon2 mat_vec_mul", i, &q[i], &y[i]);
    }
    let c = PoseidonParams::<F>::mat_mat_mul(&a, &b);
    let d = spec::matmul(&a, &b);
    vx::int_eq("rows", c.len(), n);
    for i in 0..n {
        vx::int_eq("columns", c[i].len(), n);
        for j in 0..n {
            vx::eq("mat_mat_mul", i * n + j, &c[i][j], &d[i][j]);
        }
    }
}
