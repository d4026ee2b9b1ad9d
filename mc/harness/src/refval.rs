//! Reference implementations of the secondary validators, from their published definitions.
use dd_sds::SecondaryValidator;

pub fn digits(s: &str) -> Vec<u32> {
    s.chars()
        .filter(|c| c.is_ascii_digit())
        .map(|c| c as u32 - 48)
        .collect()
}
pub fn luhn(s: &str) -> bool {
    let d = digits(s);
    let mut sum = 0;
    for (i, x) in d.iter().rev().enumerate() {
        let y = if i % 2 == 1 { x * 2 } else { *x };
        sum += y / 10 + y % 10;
    }
    !d.is_empty() && sum % 10 == 0
}
pub fn chinese(s: &str) -> bool {
    let c: Vec<char> = s.chars().collect();
    if c.len() != 18 || !c[..17].iter().all(|x| x.is_ascii_digit()) {
        return false;
    }
    // ISO 7064 MOD 11-2: sum of a_i * 2^(i-1) over all positions is 1 mod 11, X stands for 10
    let last = match c[17] {
        'x' | 'X' => 10,
        x if x.is_ascii_digit() => x as u32 - 48,
        _ => return false,
    };
    let mut p = 0u32;
    for x in &c[..17] {
        p = (p + (*x as u32 - 48)) * 2 % 11;
    }
    (p + last) % 11 == 1
}
pub fn nhs(s: &str) -> bool {
    let d = digits(s);
    if d.len() != 10 {
        return false;
    }
    let t: u32 = d[..9].iter().zip((2..=10).rev()).map(|(a, b)| a * b).sum();
    let c = 11 - t % 11;
    (c != 10) && d[9] == c % 11
}
pub fn nir(s: &str) -> bool {
    let d = digits(s);
    if d.len() != 15 {
        return false;
    }
    let n = d[..13].iter().fold(0u64, |a, x| a * 10 + *x as u64);
    let k = (d[13] * 10 + d[14]) as u64;
    97 - n % 97 == k
}
pub fn crc32(b: &[u8]) -> u32 {
    let mut c = !0u32;
    for x in b {
        c ^= *x as u32;
        for _ in 0..8 {
            c = if c & 1 == 1 { c >> 1 ^ 0xEDB8_8320 } else { c >> 1 };
        }
    }
    !c
}
pub fn base62(mut v: u32) -> String {
    let a = b"0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz";
    let mut o = vec![];
    for _ in 0..6 {
        o.push(a[(v % 62) as usize]);
        v /= 62;
    }
    o.reverse();
    String::from_utf8(o).unwrap()
}
pub fn github(s: &str) -> bool {
    let Some(i) = s.rfind('_') else { return false };
    let t = &s[i + 1..];
    if t.len() <= 6 || !t.bytes().all(|b| b.is_ascii_alphanumeric()) {
        return false;
    }
    let (p, c) = t.split_at(t.len() - 6);
    base62(crc32(p.as_bytes())) == c
}
pub const IBAN: &[(&str, &str)] = &[
    ("AD", "4n4n12c"),
    ("AE", "3n16n"),
    ("AL", "8n16c"),
    ("AT", "5n11n"),
    ("AZ", "4a20c"),
    ("BA", "3n3n8n2n"),
    ("BE", "3n7n2n"),
    ("BG", "4a4n2n8c"),
    ("BH", "4a14c"),
    ("BI", "5n5n11n2n"),
    ("BR", "8n5n10n1a1c"),
    ("BY", "4c4n16c"),
    ("CH", "5n12c"),
    ("CR", "4n14n"),
    ("CY", "3n5n16c"),
    ("CZ", "4n6n10n"),
    ("DE", "8n10n"),
    ("DK", "4n9n1n"),
    ("DO", "4c20n"),
    ("EE", "2n2n11n1n"),
    ("EG", "4n4n17n"),
    ("ES", "4n4n1n1n10n"),
    ("FI", "3n11n"),
    ("FO", "4n9n1n"),
    ("FR", "5n5n11c2n"),
    ("GB", "4a6n8n"),
    ("GE", "2a16n"),
    ("GI", "4a15c"),
    ("GL", "4n9n1n"),
    ("GR", "3n4n16c"),
    ("GT", "4c20c"),
    ("HR", "7n10n"),
    ("HU", "3n4n1n15n1n"),
    ("IE", "4a6n8n"),
    ("IL", "3n3n13n"),
    ("IQ", "4a3n12n"),
    ("IS", "4n2n6n10n"),
    ("IT", "1a5n5n12c"),
    ("JO", "4a4n18c"),
    ("KW", "4a22c"),
    ("KZ", "3n13c"),
    ("LB", "4n20c"),
    ("LC", "4a24c"),
    ("LI", "5n12c"),
    ("LT", "5n11n"),
    ("LU", "3n13c"),
    ("LV", "4a13c"),
    ("LY", "3n3n15n"),
    ("MC", "5n5n11c2n"),
    ("MD", "2c18c"),
    ("ME", "3n13n2n"),
    ("MK", "3n10c2n"),
    ("MR", "5n5n11n2n"),
    ("MT", "4a5n18c"),
    ("MU", "4a2n2n12n3n3a"),
    ("NL", "4a10n"),
    ("NO", "4n6n1n"),
    ("PK", "4a16c"),
    ("PL", "8n16n"),
    ("PS", "4a21c"),
    ("PT", "4n4n11n2n"),
    ("QA", "4a21c"),
    ("RO", "4a16c"),
    ("RS", "3n13n2n"),
    ("SA", "2n18c"),
    ("SC", "4a2n2n16n3a"),
    ("SD", "2n12n"),
    ("SE", "3n16n1n"),
    ("SI", "5n8n2n"),
    ("SK", "4n6n10n"),
    ("SM", "1a5n5n12c"),
    ("ST", "4n4n11n2n"),
    ("SV", "4a20n"),
    ("TL", "3n14n2n"),
    ("TN", "2n3n13n2n"),
    ("TR", "5n1n16c"),
    ("UA", "6n19c"),
    ("VA", "3n15n"),
    ("VG", "4a16n"),
    ("XK", "4n10n2n")
];
pub fn iban_spec(s: &str) -> Vec<char> {
    let mut v = vec![];
    let mut n = 0;
    for c in s.chars() {
        if let Some(d) = c.to_digit(10) {
            n = n * 10 + d;
        } else {
            for _ in 0..n {
                v.push(c)
            }
            n = 0;
        }
    }
    v
}
/// value of the IBAN number modulo 97 (letters are 10..35, first four characters moved to the end)
pub fn iban_mod(t: &str) -> u32 {
    let (a, b) = t.split_at(4);
    let mut r: u64 = 0;
    for c in format!("{b}{a}").chars() {
        let v = c.to_digit(36).unwrap() as u64;
        r = if v >= 10 { (r * 100 + v) % 97 } else { (r * 10 + v) % 97 };
    }
    r as u32
}
pub fn iban(s: &str) -> bool {
    let t: String = s.chars().filter(|c| c.is_alphanumeric()).collect();
    if !t.is_ascii() || t.len() < 4 {
        return false;
    }
    let b = t.as_bytes();
    if !(b[0].is_ascii_uppercase() && b[1].is_ascii_uppercase() && b[2].is_ascii_digit() && b[3].is_ascii_digit()) {
        return false;
    }
    let u = t.to_ascii_uppercase();
    let Some((_, spec)) = IBAN.iter().find(|(c, _)| *c == &u[..2]) else {
        return false;
    };
    let spec = iban_spec(spec);
    u.len() == spec.len() + 4
        && u[4..].chars().zip(spec).all(|(c, k)| match k {
            'n' => c.is_ascii_digit(),
            'a' => c.is_ascii_alphabetic(),
            _ => true,
        })
        && (2..=99).contains(&u[2..4].parse::<u32>().unwrap())
        && iban_mod(&u) == 1
}
pub fn b64url(s: &str) -> Option<Vec<u8>> {
    let mut bits = 0u32;
    let mut n = 0;
    let mut o = vec![];
    for c in s.bytes() {
        let v = match c {
            b'A'..=b'Z' => c - b'A',
            b'a'..=b'z' => c - b'a' + 26,
            b'0'..=b'9' => c - b'0' + 52,
            b'-' => 62,
            b'_' => 63,
            _ => return None,
        };
        bits = (bits << 6 | v as u32) & 0xffff;
        n += 6;
        if n >= 8 {
            n -= 8;
            o.push((bits >> n) as u8);
        }
    }
    // an incomplete group of one symbol, or stray bits in the last symbol, are malformed
    if s.len() % 4 == 1 || bits & ((1 << n) - 1) != 0 {
        return None;
    }
    Some(o)
}
pub fn b64url_enc(b: &[u8]) -> String {
    let a = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-_";
    let mut o = String::new();
    for ch in b.chunks(3) {
        let v = (ch[0] as u32) << 16 | (*ch.get(1).unwrap_or(&0) as u32) << 8 | *ch.get(2).unwrap_or(&0) as u32;
        for k in 0..ch.len() + 1 {
            o.push(a[(v >> (18 - 6 * k) & 63) as usize] as char);
        }
    }
    o
}
pub fn jwt(s: &str, now: i64) -> bool {
    let p: Vec<&str> = s.split('.').collect();
    if p.len() != 3 {
        return false;
    }
    let json = |x: &str| -> Option<serde_json::Value> { serde_json::from_slice(&b64url(x)?).ok() };
    let (Some(_), Some(pl)) = (json(p[0]), json(p[1])) else {
        return false;
    };
    match pl.as_object().and_then(|o| o.get("exp")) {
        None => true,
        Some(serde_json::Value::Number(n)) => n.is_i64() && n.as_i64().unwrap() > now,
        Some(_) => false,
    }
}
pub fn valid(v: &SecondaryValidator, s: &str, now: i64) -> bool {
    match v {
        SecondaryValidator::LuhnChecksum => luhn(s),
        SecondaryValidator::ChineseIdChecksum => chinese(s),
        SecondaryValidator::GithubTokenChecksum => github(s),
        SecondaryValidator::NhsCheckDigit => nhs(s),
        SecondaryValidator::IbanChecker => iban(s),
        SecondaryValidator::NirChecksum => nir(s),
        SecondaryValidator::JwtExpirationChecker => jwt(s, now),
    }
}
