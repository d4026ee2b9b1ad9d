//! C11 (match actions), C12 / C13 (secondary validators)
use crate::common::*;
use crate::core::*;
use crate::refscan::*;
use crate::refval::*;
use dd_sds::*;
use serde_json::json;
use std::cell::Cell;

// ---------------------------------------------------------------- controlled wall clock
thread_local! {
    static FAKE: Cell<Option<(i64, i64)>> = const { Cell::new(None) };
}
/// The wall clock seen by this thread while `f` runs.
pub fn at_time<T>(sec: i64, nsec: i64, f: impl FnOnce() -> T) -> T {
    FAKE.with(|x| x.set(Some((sec, nsec))));
    let r = f();
    FAKE.with(|x| x.set(None));
    r
}
/// # Safety
/// called by libc users; overrides the symbol for this binary
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: libc::clockid_t, ts: *mut libc::timespec) -> libc::c_int {
    if clk == libc::CLOCK_REALTIME {
        if let Ok(Some((s, n))) = FAKE.try_with(|x| x.get()) {
            (*ts).tv_sec = s;
            (*ts).tv_nsec = n;
            return 0;
        }
    }
    libc::syscall(libc::SYS_clock_gettime, clk, ts) as libc::c_int
}

// ---------------------------------------------------------------- C11
pub fn c11(c: &Ctx) {
    let mut acts: Vec<MatchAction> = vec![redact(""), redact("x"), redact("[REDACTED]"), redact("é€𝄞"), redact("*"), MatchAction::Hash, MatchAction::None];
    #[allow(deprecated)]
    acts.push(MatchAction::Utf16Hash);
    for n in (1..=9).chain([16, 17, 63, 64, 255, 256, 1000]) {
        acts.push(partial(true, n));
        acts.push(partial(false, n));
    }
    let al: Vec<char> = "aé€𝄞*\n".chars().collect();
    let l = c.q(6, 8);
    c.space("texts", &format!("every matched text over a é € 𝄞 * newline up to length {l} x redact / hash / UTF-16 hash / partial redaction of 1..9 and larger counts in both directions"), &acts, |w, a| {
        let Some(p) = pair(w, &[rule("(?s).+").match_action(a.clone())], Opts::default()) else { return };
        let l = if matches!(a, MatchAction::PartialRedact { character_count, .. } if *character_count > 9) { l - 1 } else { l };
        strings(&al, 1, l, &mut |t| check(w, &p, &one(t), &[], Enc::Utf8, Cmp::All) && !w.stopped());
    });
    // length sweep: hash code paths change with the number of bytes
    let ns: Vec<usize> = (0..=c.q(300, 700)).chain([1023, 1024, 1025, 4095, 4096, 4097, 65535, 65536, 65537]).collect();
    c.space("lengths", "matched texts of n characters, n = 1..300 (thorough 700) and around powers of two, 1-4 byte characters: hash, UTF-16 hash, partial redaction of n-1, n, n+1", &ns, |w, n| {
        for (k, ch) in ["a", "é", "€", "𝄞", "ab1", "é-𝄞"].iter().enumerate() {
            let t: String = ch.chars().cycle().take(*n).enumerate().map(|(i, c)| if c == 'a' { (b'a' + (i * 7 % 26) as u8) as char } else { c }).collect();
            if t.is_empty() {
                continue;
            }
            #[allow(deprecated)]
            let mut acts = vec![MatchAction::Hash, MatchAction::Utf16Hash];
            for d in [n.saturating_sub(1), *n, n + 1] {
                if d > 0 && (*n < 5000 || k == 0) {
                    acts.push(partial(true, d));
                    acts.push(partial(false, d));
                }
            }
            for a in acts {
                let Some(p) = pair(w, &[rule("(?s).+").match_action(a)], Opts::default()) else { return };
                if !check(w, &p, &one(&t), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                    return;
                }
            }
        }
    });
    // only the matched text matters: same match in different contexts
    let ctx = all_strings(&['x', 'é', '*'], 0, 2);
    c.space("contexts", "the same match between every pair of contexts over x é * up to length 2, all actions", &acts, |w, a| {
        let Some(p) = pair(w, &[rule("[a𝄞]+").match_action(a.clone())], Opts::default()) else { return };
        for m in ["a", "𝄞", "aa𝄞", "𝄞a𝄞a"] {
            for x in &ctx {
                for y in &ctx {
                    if !check(w, &p, &one(&format!("{x}{m}{y}")), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // the hash of every scalar value on its own
    let blocks: Vec<u32> = (0..0x11).collect();
    c.space("scalars", "hash, UTF-16 hash and partial redaction of every Unicode scalar value (quick: the first two planes)", &blocks, |w, b| {
        if *b > w.ctx.q(1, 16) {
            return;
        }
        #[allow(deprecated)]
        for a in [MatchAction::Hash, MatchAction::Utf16Hash, partial(true, 1), partial(false, 2)] {
            let Some(p) = pair(w, &[rule("(?s).+").match_action(a)], Opts::default()) else { return };
            for v in b * 0x10000..(b + 1) * 0x10000 {
                if let Some(ch) = char::from_u32(v) {
                    if !check(w, &p, &one(&ch.to_string()), &[], Enc::Utf8, Cmp::All) || w.stopped() {
                        return;
                    }
                }
            }
        }
    });
    // zero counts are rejected
    c.space("zero-count", "partial redaction of zero characters, alone and after valid rules", &[true, false], |w, first| {
        for pre in 0..4 {
            let mut r: Vec<_> = (0..pre).map(|_| rule("a").match_action(partial(true, 1))).collect();
            r.push(rule("b").match_action(partial(*first, 0)));
            w.config(rules_text(&r, &Opts::default()));
            let Some(b) = w.run("(build)", 1, || build(&r, Opts::default()).err()) else { return };
            w.outcome(&format!("{b:?}"), true);
            if !matches!(b, Some(CreateScannerError::InvalidMatchAction(_))) {
                w.violate("accepted", json!({"case": "(build)", "observed": format!("{b:?}")}));
            }
        }
    });
}

// ---------------------------------------------------------------- C12
fn vcheck(w: &mut Worker, v: &SecondaryValidator, s: &str, now: (i64, i64)) -> bool {
    let Some(got) = w.run(s, s.len() as u64, || at_time(now.0, now.1, || v.is_valid_match(s))) else { return false };
    let want = valid(v, s, now.0);
    w.outcome(&(want, s), want);
    if got != want {
        w.violate("verdict", json!({"case": s, "time": now.0, "expected": want, "observed": got}));
        return false;
    }
    if want && w.want_sample() {
        w.ctx.sample(json!({"space": w.space, "validator": format!("{v:?}"), "text": s, "accepted": got}));
    }
    !w.stopped()
}
const T0: (i64, i64) = (1_700_000_000, 0);

pub fn c12(c: &Ctx) {
    use SecondaryValidator::*;
    let ds: Vec<char> = "0123456789".chars().collect();
    let vs = [LuhnChecksum, NhsCheckDigit, NirChecksum, ChineseIdChecksum];
    // all short digit strings
    let mut items = vec![];
    for v in &vs {
        for d in 0..10u8 {
            items.push((v.clone(), d));
        }
    }
    let l = c.q(5, 7);
    c.space("short", &format!("every digit string up to length {l}, every validator"), &items, |w, (v, d)| {
        w.config(format!("{v:?}"));
        if *d == 0 && !vcheck(w, v, "", T0) {
            return;
        }
        strings(&ds, 0, l - 1, &mut |t| vcheck(w, v, &format!("{d}{t}"), T0));
    });
    // the last digits exhaustively on identifiers of the right length
    let bases: Vec<(SecondaryValidator, usize, Vec<&str>)> = vec![
        (LuhnChecksum, 16, vec!["000000000000000000", "411111111111111111", "999999999999999999", "123456789012345678"]),
        (NhsCheckDigit, 10, vec!["0000000000", "9434765919", "9999999999", "1234567890"]),
        (NirChecksum, 15, vec!["000000000000000", "255081416802538", "999999999999999", "123456789012345"]),
        (ChineseIdChecksum, 18, vec!["000000000000000000", "110102199003078654", "999999999999999999", "513231200012121657"]),
    ];
    let mut items = vec![];
    for (v, n, bs) in &bases {
        for b in bs {
            for i in 0..*n {
                items.push((v.clone(), *n, b[..*n].to_string(), i));
            }
        }
    }
    let checks: Vec<String> = (0..100).map(|i| format!("{i:02}")).collect();
    c.space("pairs", "4 base identifiers of the right length x every pair of positions x all 100 digit pairs x all final check digits / characters", &items, |w, (v, n, b, i)| {
        w.config(format!("{v:?} base {b}"));
        let tails: Vec<String> = match v {
            NirChecksum => checks.clone(),
            ChineseIdChecksum => "0123456789xXaZ:/ ".chars().map(|c| c.to_string()).collect(),
            _ => ds.iter().map(|c| c.to_string()).collect(),
        };
        let t = tails[0].len();
        if *i >= n - t {
            return;
        }
        let js: Vec<usize> = if *v == NirChecksum && !w.ctx.thorough { vec![i + 1, i + 2] } else { (i + 1..n - t).collect() };
        for j in js {
            if j >= n - t {
                continue;
            }
            for x in 0..10u8 {
                for y in 0..10u8 {
                    let mut s = b.clone().into_bytes();
                    s[*i] = b'0' + x;
                    s[j] = b'0' + y;
                    s.truncate(n - t);
                    let s = String::from_utf8(s).unwrap();
                    for tl in &tails {
                        if !vcheck(w, v, &format!("{s}{tl}"), T0) {
                            return;
                        }
                    }
                }
            }
        }
    });
    // lengths, with every final check digit
    let ns: Vec<usize> = (0..=c.q(60, 200)).collect();
    c.space("lengths", "digit strings of every length 0..60 (thorough 200), 4 fillers, every last three characters", &ns, |w, n| {
        for v in &vs {
            w.config(format!("{v:?}"));
            for f in ["0", "9", "1234567890", "80"] {
                let b: String = f.chars().cycle().take(*n).collect();
                for k in 0..1000 {
                    if !vcheck(w, v, &format!("{b}{k:03}"), T0) {
                        return;
                    }
                }
                if *n == 15 {
                    for x in ["X", "x", "00X", "00x", "é", "0é", "X0"] {
                        if !vcheck(w, v, &format!("{b}{x}"), T0) {
                            return;
                        }
                    }
                }
            }
        }
    });
    // separators and other characters: one or two inserted at every position of valid and invalid identifiers
    let ins = [" ", "-", ".", "é", "٣", "３", "x", "X", "\n", "²", "a", "\u{200b}", "+", "𝟙", "_"];
    let ids = ["4111111111111111", "18", "0", "9434765919", "9434765918", "255081416802538", "255081416802539", "110102199003078654", "11010219900307867X", "53010219200508011X", "44030819990110512x", "00000000000000", "59"];
    let mut items = vec![];
    for v in &vs {
        for s in ids {
            items.push((v.clone(), s.to_string()));
        }
    }
    c.space("separators", "15 foreign characters (separators, letters, non-ASCII digits) inserted at every pair of positions, replacing each position, of 13 identifiers", &items, |w, (v, s)| {
        w.config(format!("{v:?}"));
        for a in ins {
            for i in 0..=s.len() {
                let one = format!("{}{a}{}", &s[..i], &s[i..]);
                if !vcheck(w, v, &one, T0) || (i < s.len() && !vcheck(w, v, &format!("{}{a}{}", &s[..i], &s[i + 1..]), T0)) {
                    return;
                }
                for b in ins {
                    for j in i..=s.len() {
                        if !vcheck(w, v, &format!("{}{a}{}{b}{}", &s[..i], &s[i..j], &s[j..]), T0) {
                            return;
                        }
                    }
                }
                // drop a neighbour to keep the byte length
                for k in 1..=3 {
                    if i + k <= s.len() && !vcheck(w, v, &format!("{}{a}{}", &s[..i], &s[i + k..]), T0) {
                        return;
                    }
                }
            }
        }
    });
    // every Unicode scalar as the check character and as an inner character
    let blocks: Vec<u32> = (0..=c.q(1, 16)).collect();
    c.space("scalars", "every scalar value (quick: first two planes) appended to / inserted in a valid identifier", &blocks, |w, b| {
        for v in &vs {
            w.config(format!("{v:?}"));
            let s = match v {
                LuhnChecksum => "411111111111111",
                NhsCheckDigit => "943476591",
                NirChecksum => "25508141680253",
                _ => "53010219200508011",
            };
            for x in b * 0x10000..(b + 1) * 0x10000 {
                if let Some(ch) = char::from_u32(x) {
                    if !vcheck(w, v, &format!("{s}{ch}"), T0) || !vcheck(w, v, &format!("{}{ch}{}", &s[..3], &s[3..]), T0) || !vcheck(w, v, &format!("{s}{ch}8"), T0) {
                        return;
                    }
                }
            }
        }
    });
    // through the scanner
    c.space("scanner", "each validator as a rule's secondary validator: every last 3 digits", &vs.to_vec(), |w, v| {
        let Some(p) = pair(w, &[rule("[0-9X]+").validator(v.clone()).match_action(redact("#"))], Opts::default()) else { return };
        let b = match v {
            LuhnChecksum => "4111111111111",
            NhsCheckDigit => "9434765",
            NirChecksum => "255081416802",
            _ => "530102192005080",
        };
        for k in 0..1000 {
            if !check(w, &p, &one(&format!("id={b}{k:03} {b}{k:02}X")), &[], Enc::Utf8, Cmp::All) {
                return;
            }
        }
    });
}

// ---------------------------------------------------------------- C13
pub fn c13(c: &Ctx) {
    use SecondaryValidator::*;
    let al: Vec<char> = "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz".chars().collect();
    // GitHub: every short payload with the right checksum, and each position of it wrong
    let l = c.q(2, 3);
    c.space("github-payloads", &format!("every alphanumeric payload of length 1..{} with the correct checksum, 4 prefixes; checksum wrong at each position, unpadded, lower-cased", l + 1), &al, |w, first| {
        w.config("GithubTokenChecksum");
        strings(&al, 0, l, &mut |t| {
            let p = format!("{first}{t}");
            let s = base62(crc32(p.as_bytes()));
            if !vcheck(w, &GithubTokenChecksum, &format!("ghp_{p}{s}"), T0) {
                return false;
            }
            if t.len() < 2 || w.ctx.thorough {
                let mut v = vec![format!("_{p}{s}"), format!("a_b__{p}{s}"), format!("{p}{s}"), format!("ghp_{s}"), format!("ghp_{p}{}", s.trim_start_matches('0')), format!("ghp_{p}0{s}"), format!("ghp_{p}{}", s.to_ascii_lowercase()), format!("ghp_{p}-{s}"), format!("ghp_{p}_{s}"), format!("ghp_é{p}{s}"), format!("ghé_{p}{s}"), format!("ghp_{p}{s} "), format!("ghp_{p}{s}_")];
                for i in 0..6 {
                    for ch in ["0", "1", "z", "é", "-"] {
                        v.push(format!("ghp_{p}{}{ch}{}", &s[..i], &s[i + 1..]));
                    }
                }
                for x in v {
                    if !vcheck(w, &GithubTokenChecksum, &x, T0) {
                        return false;
                    }
                }
            }
            true
        });
    });
    let ns: Vec<usize> = (0..c.q(120, 400)).collect();
    c.space("github-lengths", "payloads of n characters, n = 0..120 (thorough 400), with right, shifted and wrong checksums", &ns, |w, n| {
        w.config("GithubTokenChecksum");
        for seed in 0..62 {
            let p: String = (0..*n).map(|i| al[(i * 17 + seed * 31 + i * i) % 62]).collect();
            let s = base62(crc32(p.as_bytes()));
            for x in [format!("ghp_{p}{s}"), format!("ghs_{p}{}", &s[1..]), format!("x_{p}{s}{}", &s[5..]), format!("github_pat_{p}_{p}{s}")] {
                if !vcheck(w, &GithubTokenChecksum, &x, T0) {
                    return;
                }
            }
        }
    });
    c.space("github-short", "every string over _ 0 A b - é up to length 7", &["_", "0", "A", "b", "-", "é"], |w, f| {
        w.config("GithubTokenChecksum");
        let a: Vec<char> = "_0Ab-é".chars().collect();
        strings(&a, 0, w.ctx.q(6, 8), &mut |t| vcheck(w, &GithubTokenChecksum, &format!("{f}{t}"), T0));
    });
    // IBAN
    let fix = |cc: &str, bban: &str| {
        let r = iban_mod(&format!("{cc}00{bban}").to_ascii_uppercase());
        format!("{cc}{:02}{bban}", 98 - r)
    };
    let countries: Vec<usize> = (0..IBAN.len()).collect();
    c.space("iban-countries", "every registered country: all 100 check digits; every position replaced by every alphanumeric character (check digits recomputed and not); one character more or less; separators; lower case", &countries, |w, k| {
        let (cc, spec) = IBAN[*k];
        w.config(format!("IbanChecker {cc}"));
        let spec = iban_spec(spec);
        for style in 0..3 {
            let b: String = spec.iter().enumerate().map(|(i, s)| match (s, style) {
                ('n', 0) => '0',
                ('n', 1) => '9',
                ('n', _) => (b'0' + (i * 3 % 10) as u8) as char,
                ('a', 0) => 'A',
                ('a', _) => 'Z',
                (_, 0) => '0',
                (_, 1) => 'Z',
                _ => if i % 2 == 0 { 'K' } else { '7' },
            }).collect();
            let good = fix(cc, &b);
            let mut v: Vec<String> = (0..100).map(|i| format!("{cc}{i:02}{b}")).collect();
            v.push(good.clone());
            for i in 0..b.len() {
                for ch in al.iter().chain(['é', ' ', '٣'].iter()) {
                    let x = format!("{}{ch}{}", &b[..i], &b[i + 1..]);
                    v.push(format!("{}{x}", &good[..4]));
                    if x.is_ascii() && ch.is_ascii_alphanumeric() {
                        v.push(fix(cc, &x));
                    }
                }
                v.push(fix(cc, &format!("{}{}", &b[..i], &b[i + 1..])));
                v.push(fix(cc, &format!("{}0{}", &b[..i], &b[i..])));
                v.push(fix(cc, &format!("{}A{}", &b[..i], &b[i..])));
            }
            for i in 0..=good.len() {
                for sep in [" ", "-", ".", "é", "  ", "\n", "0", "Ａ"] {
                    v.push(format!("{}{sep}{}", &good[..i], &good[i..]));
                }
            }
            v.push(good.to_ascii_lowercase());
            v.push(format!("{}{}", &good[..4], good[4..].to_ascii_lowercase()));
            v.push(format!("{}{}", good[..2].to_ascii_lowercase(), &good[2..]));
            v.push(format!("{good}{good}"));
            for x in v {
                if !vcheck(w, &IbanChecker, &x, T0) {
                    return;
                }
            }
        }
    });
    let letters: Vec<char> = ('A'..='Z').collect();
    c.space("iban-unknown", "all 676 two-letter codes with correct checksum x lengths 5..34, numeric and alphanumeric account parts", &letters, |w, a| {
        w.config("IbanChecker unknown country");
        for b in 'A'..='Z' {
            for n in 1..=30 {
                for f in ["0", "7K", "A"] {
                    let bb: String = f.chars().cycle().take(n).collect();
                    if !vcheck(w, &IbanChecker, &fix(&format!("{a}{b}"), &bb), T0) {
                        return;
                    }
                }
            }
        }
    });
    c.space("iban-short", "every string over D E 2 0 space é up to length 6", &["D", "E", "2", "0", " ", "é", "d"], |w, f| {
        w.config("IbanChecker");
        let a: Vec<char> = "DE20 éd".chars().collect();
        strings(&a, 0, w.ctx.q(5, 6), &mut |t| vcheck(w, &IbanChecker, &format!("{f}{t}"), T0));
    });
    // JWT
    let times: Vec<(i64, i64)> = [0i64, 1, 59, 1_700_000_000, 1_700_000_001, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, 10_000_000_000, 253_402_300_799]
        .into_iter()
        .flat_map(|s| [(s, 0), (s, 1), (s, 500_000_000), (s, 999_999_999)])
        .collect();
    c.space("jwt", "44 clock readings x headers x payloads (exp absent, at every small offset from now, at integer limits, of every JSON type, duplicated, nested) x signatures x segment counts x malformed base64", &times, |w, t| {
        w.config(format!("JwtExpirationChecker now={t:?}"));
        let e = |s: &str| b64url_enc(s.as_bytes());
        let mut pls: Vec<String> = vec![];
        let mut exps: Vec<String> = vec![];
        for d in [-1000, -61, -60, -59, -3, -2, -1, 0, 1, 2, 3, 59, 60, 61, 1000, 3600, 86400] {
            exps.push((t.0 + d).to_string());
        }
        for x in [i64::MIN, i64::MIN + 1, -1, 0, 1, i32::MAX as i64, i32::MAX as i64 + 1, u32::MAX as i64, u32::MAX as i64 + 1, i64::MAX - 1, i64::MAX, t.0 * 1000, t.0 * 1000 + 1] {
            exps.push(x.to_string());
        }
        for x in ["9223372036854775808", "18446744073709551615", "18446744073709551616", "1e30", "null", "true", "false", "[]", "{}", "\"\"", "[9999999999]", "\"9999999999\""] {
            exps.push(x.to_string());
        }
        exps.push(format!("{}.0", t.0 + 5));
        exps.push(format!("{}.5", t.0));
        exps.push(format!("{}e0", t.0 + 5));
        exps.push(format!("\"{}\"", t.0 + 5));
        for x in &exps {
            pls.push(format!("{{\"exp\":{x}}}"));
            pls.push(format!("{{\"iat\":1,\"exp\":{x},\"nbf\":9999999999999}}"));
            pls.push(format!(" {{ \"sub\" : \"é\", \"exp\" : {x} }} "));
        }
        let (past, fut) = (t.0 - 1, t.0 + 1);
        pls.extend([
            format!("{{\"exp\":{past},\"exp\":{fut}}}"),
            format!("{{\"exp\":{fut},\"exp\":{past}}}"),
            format!("{{\"a\":{{\"exp\":{past}}}}}"),
            format!("{{\"Exp\":{past}}}"),
            format!("{{\"exp \":{past}}}"),
            format!("{{\"expiry\":{past}}}"),
            format!("[{{\"exp\":{past}}}]"),
            format!("{{\"\\u0065xp\":{past}}}"),
            "{}".into(), "[]".into(), "null".into(), "1".into(), "\"exp\"".into(), "".into(), "{".into(), "{}{}".into(), "x".into(), "{\"exp\":}".into(),
        ]);
        let good_h = e("{\"alg\":\"HS256\",\"typ\":\"JWT\"}");
        for p in &pls {
            let pe = e(p);
            for h in [&good_h, &e("{}"), &e("[]"), &e("1"), &e(""), &e("{"), &e("{\"exp\":0}"), &"!".to_string(), &"e30=".to_string(), &"e31".to_string()] {
                for sg in ["", "sig", "!", "a.b"] {
                    if !vcheck(w, &JwtExpirationChecker, &format!("{h}.{pe}.{sg}"), *t) {
                        return;
                    }
                }
            }
            let mut odd = vec![format!("{good_h}.{pe}"), pe.clone(), format!(".{good_h}.{pe}.x"), format!("{good_h}.{pe}=.x"), format!("{good_h}.{pe}==.x"), format!("{good_h}. {pe}.x"), format!("{good_h}..{pe}"), format!("{pe}.{good_h}.x"), format!("{good_h}.{pe}.x."), format!(" {good_h}.{pe}.x"), format!("{good_h}.{pe}A.x"), format!("{good_h}.{}.x", pe.replace('-', "+").replace('_', "/")), format!("é.{pe}.x")];
            if pe.len() > 1 {
                odd.push(format!("{good_h}.{}.x", &pe[..pe.len() - 1]));
                odd.push(format!("{good_h}.{}.x", &pe[1..]));
            }
            for x in odd {
                if !vcheck(w, &JwtExpirationChecker, &x, *t) {
                    return;
                }
            }
        }
    });
    // base64 details: every byte value in the payload at each of the three positions
    let bytes: Vec<u32> = (0..=255).collect();
    c.space("jwt-base64", "every byte and every symbol at each position of a group in header and payload, strings of . e3 } A - _ up to length 6", &bytes, |w, b| {
        w.config("JwtExpirationChecker base64");
        for pre in ["\"", "\"a", "\"ab"] {
            let mut v = pre.as_bytes().to_vec();
            v.push(*b as u8);
            v.push(b'"');
            let s = b64url_enc(&v);
            if !vcheck(w, &JwtExpirationChecker, &format!("{s}.e30.x"), T0) || !vcheck(w, &JwtExpirationChecker, &format!("e30.{s}.x"), T0) {
                return;
            }
        }
        if let Some(ch) = char::from_u32(*b) {
            for (x, y) in [("", "30"), ("e", "0"), ("e3", ""), ("e30", "")] {
                if !vcheck(w, &JwtExpirationChecker, &format!("{x}{ch}{y}.e30.x"), T0) || !vcheck(w, &JwtExpirationChecker, &format!("e30.{x}{ch}{y}.x"), T0) {
                    return;
                }
            }
        }
        if *b < 6 {
            let a = ['.', 'e', '3', '0', 'A', 'M'];
            strings(&a, 0, w.ctx.q(7, 8), &mut |t| vcheck(w, &JwtExpirationChecker, &format!("{}{t}", a[*b as usize]), T0));
        }
    });
    // through the scanner
    c.space("scanner", "each token validator as a rule's secondary validator", &[0, 1, 2], |w, k| {
        let (v, good, bad) = match k {
            0 => (GithubTokenChecksum, "ghp_a".to_string() + &base62(crc32(b"a")), "ghp_aaaaaaaa".to_string()),
            1 => (IbanChecker, fix("DE", "370400440532013000"), "DE00370400440532013000".to_string()),
            _ => (JwtExpirationChecker, "e30.e30.x".to_string(), format!("e30.{}.x", b64url_enc(b"{\"exp\":1}"))),
        };
        let Some(p) = pair(w, &[rule(r"[\w.]+").validator(v).match_action(redact("#"))], Opts { now: 1_700_000_000, ..Default::default() }) else { return };
        for s in [good.clone(), bad.clone(), format!("{good} {bad}"), format!("{bad} {good} {good}")] {
            if !check(w, &p, &one(&s), &[], Enc::Utf8, Cmp::All) {
                return;
            }
        }
    });
}
