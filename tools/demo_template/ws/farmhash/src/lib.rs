//! FarmHash `Fingerprint64` (farmhashna::Hash64), standing in for the unreachable git dependency.
const K0: u64 = 0xc3a5c85c97cb3127;
const K1: u64 = 0xb492b66fbe98f273;
const K2: u64 = 0x9ae16a3b2f90404f;
fn f64_(s: &[u8]) -> u64 {
    u64::from_le_bytes(s[..8].try_into().unwrap())
}
fn f32_(s: &[u8]) -> u64 {
    u32::from_le_bytes(s[..4].try_into().unwrap()) as u64
}
fn rot(v: u64, n: u32) -> u64 {
    v.rotate_right(n)
}
fn shift_mix(v: u64) -> u64 {
    v ^ (v >> 47)
}
fn len16(u: u64, v: u64, mul: u64) -> u64 {
    let mut a = (u ^ v).wrapping_mul(mul);
    a ^= a >> 47;
    let mut b = (v ^ a).wrapping_mul(mul);
    b ^= b >> 47;
    b.wrapping_mul(mul)
}
fn weak(s: &[u8], a: u64, b: u64) -> (u64, u64) {
    let (w, x, y, z) = (f64_(s), f64_(&s[8..]), f64_(&s[16..]), f64_(&s[24..]));
    let mut a = a.wrapping_add(w);
    let mut b = rot(b.wrapping_add(a).wrapping_add(z), 21);
    let c = a;
    a = a.wrapping_add(x).wrapping_add(y);
    b = b.wrapping_add(rot(a, 44));
    (a.wrapping_add(z), b.wrapping_add(c))
}
pub fn fingerprint64(s: &[u8]) -> u64 {
    let len = s.len();
    let mul = K2.wrapping_add(len as u64 * 2);
    let w = |a: u64, b: u64| a.wrapping_add(b);
    let m = |a: u64, b: u64| a.wrapping_mul(b);
    if len <= 16 {
        if len >= 8 {
            let a = w(f64_(s), K2);
            let b = f64_(&s[len - 8..]);
            let c = w(m(rot(b, 37), mul), a);
            let d = m(w(rot(a, 25), b), mul);
            return len16(c, d, mul);
        }
        if len >= 4 {
            let a = f32_(s);
            return len16(w(len as u64, a << 3), f32_(&s[len - 4..]), mul);
        }
        if len > 0 {
            let y = s[0] as u32 + ((s[len >> 1] as u32) << 8);
            let z = len as u32 + ((s[len - 1] as u32) << 2);
            return m(shift_mix(m(y as u64, K2) ^ m(z as u64, K0)), K2);
        }
        return K2;
    }
    if len <= 32 {
        let a = m(f64_(s), K1);
        let b = f64_(&s[8..]);
        let c = m(f64_(&s[len - 8..]), mul);
        let d = m(f64_(&s[len - 16..]), K2);
        return len16(
            w(w(rot(w(a, b), 43), rot(c, 30)), d),
            w(w(a, rot(w(b, K2), 18)), c),
            mul,
        );
    }
    if len <= 64 {
        let a = m(f64_(s), K2);
        let b = f64_(&s[8..]);
        let c = m(f64_(&s[len - 8..]), mul);
        let d = m(f64_(&s[len - 16..]), K2);
        let y = w(w(rot(w(a, b), 43), rot(c, 30)), d);
        let z = len16(y, w(w(a, rot(w(b, K2), 18)), c), mul);
        let e = m(f64_(&s[16..]), mul);
        let f = f64_(&s[24..]);
        let g = m(w(y, f64_(&s[len - 32..])), mul);
        let h = m(w(z, f64_(&s[len - 24..])), mul);
        return len16(
            w(w(rot(w(e, f), 43), rot(g, 30)), h),
            w(w(e, rot(w(f, a), 18)), g),
            mul,
        );
    }
    let seed: u64 = 81;
    let mut x = seed;
    let mut y = w(m(seed, K1), 113);
    let mut z = m(shift_mix(w(m(y, K2), 113)), K2);
    let (mut v, mut ww) = ((0u64, 0u64), (0u64, 0u64));
    x = w(m(x, K2), f64_(s));
    let end = ((len - 1) / 64) * 64;
    let last64 = end + ((len - 1) & 63) - 63;
    let mut p = 0;
    loop {
        let t = &s[p..];
        x = m(rot(w(w(w(x, y), v.0), f64_(&t[8..])), 37), K1);
        y = m(rot(w(w(y, v.1), f64_(&t[48..])), 42), K1);
        x ^= ww.1;
        y = w(y, w(v.0, f64_(&t[40..])));
        z = m(rot(w(z, ww.0), 33), K1);
        v = weak(t, m(v.1, K1), w(x, ww.0));
        ww = weak(&t[32..], w(z, ww.1), w(y, f64_(&t[16..])));
        std::mem::swap(&mut z, &mut x);
        p += 64;
        if p == end {
            break;
        }
    }
    let mul = w(K1, (z & 0xff) << 1);
    let t = &s[last64..];
    ww.0 = w(ww.0, ((len - 1) & 63) as u64);
    v.0 = w(v.0, ww.0);
    ww.0 = w(ww.0, v.0);
    x = m(rot(w(w(w(x, y), v.0), f64_(&t[8..])), 37), mul);
    y = m(rot(w(w(y, v.1), f64_(&t[48..])), 42), mul);
    x ^= m(ww.1, 9);
    y = w(y, w(m(v.0, 9), f64_(&t[40..])));
    z = m(rot(w(z, ww.0), 33), mul);
    v = weak(t, m(v.1, mul), w(x, ww.0));
    ww = weak(&t[32..], w(z, ww.1), w(y, f64_(&t[16..])));
    std::mem::swap(&mut z, &mut x);
    len16(
        w(w(len16(v.0, ww.0, mul), m(shift_mix(y), K0)), z),
        w(len16(v.1, ww.1, mul), x),
        mul,
    )
}
#[cfg(test)]
mod test {
    use super::*;
    #[test]
    fn vectors() {
        let t = |s: &str| format!("{:x}", fingerprint64(s.as_bytes()));
        assert_eq!(t("coty"), "fdf7528ad7f83901");
        assert_eq!(t("rene"), "51a2842f626aaaec");
        assert_eq!(t("😊"), "6ce17744696c2107");
        assert_eq!(t(&"x".repeat(128)), "5170af09fd870c17");
        let u = |s: &str| {
            let b: Vec<u8> = s.encode_utf16().flat_map(u16::to_le_bytes).collect();
            format!("{:x}", fingerprint64(&b))
        };
        assert_eq!(u("coty"), "d6bf038129a9eb52");
        assert_eq!(u("rene"), "8627c79c79ff4b8b");
        assert_eq!(u("😊"), "268a21f211fdbc0a");
    }
}
