//! Reference meaning of the external numeric kernels.  Calls to the external
//! functions are analysed as calls to these.
use num_complex::Complex;

/// matrixmultiply::sgemm: c = alpha a b + beta c with explicit strides
pub unsafe fn sgemm(
    m: usize, k: usize, n: usize, alpha: f32,
    a: *const f32, rsa: isize, csa: isize,
    b: *const f32, rsb: isize, csb: isize,
    beta: f32, c: *mut f32, rsc: isize, csc: isize,
) {
    for i in 0..m {
        for j in 0..n {
            let mut s = 0.;
            for p in 0..k {
                s += *a.offset(i as isize * rsa + p as isize * csa) * *b.offset(p as isize * rsb + j as isize * csb);
            }
            let o = c.offset(i as isize * rsc + j as isize * csc);
            let s = if alpha == 1. { s } else { alpha * s };
            if beta == 0. { *o = s } else { *o = beta * *o + s }
        }
    }
}

/// forward DFT in place
pub fn fft(n: usize, buf: &mut [Complex<f32>]) {
    if buf.len() == n { return fft1(n, buf); }
    if n > 0 {
        assert!(buf.len() >= n && buf.len() % n == 0);
        for b in 0..buf.len() / n { fft1(n, &mut buf[b * n..(b + 1) * n]); }
    }
}

fn fft1(n: usize, c: &mut [Complex<f32>]) {
    let x = c.to_vec();
    for k in 0..n {
        let mut re = 0.;
        let mut im = 0.;
        for j in 0..n {
            re += x[j].re * crate::uf::cosn(j, k, n) + x[j].im * crate::uf::sinn(j, k, n);
            im += x[j].im * crate::uf::cosn(j, k, n) - x[j].re * crate::uf::sinn(j, k, n);
        }
        c[k] = Complex { re, im };
    }
}

// the published generator: linear congruential state, xorshift-multiply output
pub fn step32(s: u64) -> u64 { s.wrapping_mul(0x4822581B885237D5).wrapping_add(0x6ED29E641A5F9CE5) }
pub fn out32(s: u64) -> u32 { let r = (s >> 32) as u32; (r ^ (r >> 16)).wrapping_mul(0x8A53002D) }
pub fn unit32(s: u64) -> f32 { out32(s) as f32 / u32::MAX as f32 }
pub fn normal32(a: u64, b: u64) -> f32 { (-2. * unit32(a).ln()).sqrt() * (std::f32::consts::TAU * unit32(b)).cos() }
pub fn step64(s: u128) -> u128 { s.wrapping_mul(0xACAEAEFB4BF4A6A78B6E278B66409E7D).wrapping_add(0x351402A3544A25016AEE39FBBADBB38D) }
pub fn out64(s: u128) -> u64 { let r = (s >> 32) as u64; (r ^ (r >> 32)).wrapping_mul(0xA18E4C689403AE2D) }
pub fn unit64(s: u128) -> f64 { out64(s) as f64 / u64::MAX as f64 }
pub fn normal64(a: u128, b: u128) -> f64 { (-2. * unit64(a).ln()).sqrt() * (std::f64::consts::TAU * unit64(b)).cos() }
pub fn str32(s: u64, v: u8) -> u64 { step32(s).wrapping_add(v as u64) }
pub fn str64(s: u128, v: u8) -> u128 { step64(s).wrapping_add(v as u128) }
