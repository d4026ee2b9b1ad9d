//! C22: match validation against a loopback server whose answers (and their order) are enumerated.
use crate::common::*;
use crate::core::*;
use crate::refscan::*;
use dd_sds::*;
use serde_json::json;
use std::collections::{BTreeMap, HashMap};
use std::io::{Read, Write};
use std::net::{TcpListener, TcpStream};
use std::sync::{Condvar, Mutex, OnceLock};
use std::time::{Duration, Instant};

// ------------------------------------------------------------------ SHA-256 / HMAC (for SigV4)
fn sha256(data: &[u8]) -> [u8; 32] {
    let primes = |n: usize| (2u64..).filter(|p| (2..*p).take_while(|d| d * d <= *p).all(|d| p % d != 0)).take(n).collect::<Vec<_>>();
    static K: OnceLock<(Vec<u32>, Vec<u32>)> = OnceLock::new();
    let (k, h0) = K.get_or_init(|| {
        // fractional bits of the cube and square roots of the first primes, by integer root search
        let root = |p: u64, e: u32| -> u32 {
            // floor(p^(1/e) * 2^32) mod 2^32
            let (mut lo, mut hi) = (0u128, 1u128 << 37);
            while lo + 1 < hi {
                let m = (lo + hi) / 2;
                let ok = if e == 2 { m * m <= (p as u128) << 64 } else { cube_le(m, p) };
                if ok {
                    lo = m
                } else {
                    hi = m
                }
            }
            lo as u32
        };
        let p = primes(64);
        (p.iter().map(|p| root(*p, 3)).collect(), p[..8].iter().map(|p| root(*p, 2)).collect())
    });
    let mut m = data.to_vec();
    m.push(0x80);
    while m.len() % 64 != 56 {
        m.push(0)
    }
    m.extend_from_slice(&((data.len() as u64) * 8).to_be_bytes());
    let mut h: Vec<u32> = h0.clone();
    for b in m.chunks(64) {
        let mut w = [0u32; 64];
        for i in 0..16 {
            w[i] = u32::from_be_bytes(b[i * 4..i * 4 + 4].try_into().unwrap());
        }
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w[i] = w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1);
        }
        let mut v = h.clone();
        for i in 0..64 {
            let s1 = v[4].rotate_right(6) ^ v[4].rotate_right(11) ^ v[4].rotate_right(25);
            let ch = (v[4] & v[5]) ^ (!v[4] & v[6]);
            let t1 = v[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k[i]).wrapping_add(w[i]);
            let s0 = v[0].rotate_right(2) ^ v[0].rotate_right(13) ^ v[0].rotate_right(22);
            let mj = (v[0] & v[1]) ^ (v[0] & v[2]) ^ (v[1] & v[2]);
            let t2 = s0.wrapping_add(mj);
            v = vec![t1.wrapping_add(t2), v[0], v[1], v[2], v[3].wrapping_add(t1), v[4], v[5], v[6]];
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(v[i]);
        }
    }
    let mut o = [0u8; 32];
    for i in 0..8 {
        o[i * 4..i * 4 + 4].copy_from_slice(&h[i].to_be_bytes());
    }
    o
}
fn cube_le(m: u128, p: u64) -> bool {
    // m^3 <= p * 2^96 with m < 2^37: m^3 < 2^111
    m * m * m <= (p as u128) << 96
}
fn hmac(key: &[u8], data: &[u8]) -> [u8; 32] {
    let mut k = if key.len() > 64 { sha256(key).to_vec() } else { key.to_vec() };
    k.resize(64, 0);
    let mut a: Vec<u8> = k.iter().map(|b| b ^ 0x36).collect();
    a.extend_from_slice(data);
    let mut b: Vec<u8> = k.iter().map(|b| b ^ 0x5c).collect();
    b.extend_from_slice(&sha256(&a));
    sha256(&b)
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

// ------------------------------------------------------------------ the server
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Ans {
    Code(u16),
    /// the connection is closed without an answer
    Drop,
    /// bytes that are no HTTP answer
    Garbage,
    /// no answer within the validator's timeout
    Stall,
}
use Ans::*;
#[derive(Clone, Debug)]
struct Req {
    method: String,
    headers: Vec<(String, Vec<u8>)>,
    body: Vec<u8>,
    /// the answer that was given
    ans: Ans,
    /// AWS: the (id, secret) pair whose signature the request carries
    pair: Option<(String, String)>,
}
impl Req {
    fn all(&self, k: &str) -> Vec<&[u8]> {
        self.headers.iter().filter(|(n, _)| n.eq_ignore_ascii_case(k)).map(|(_, v)| v.as_slice()).collect()
    }
    fn one(&self, k: &str) -> Option<String> {
        match self.all(k).as_slice() {
            [v] => Some(String::from_utf8_lossy(v).into_owned()),
            _ => None,
        }
    }
}
/// What the server does for one path.
#[derive(Clone, Default)]
struct Route {
    /// answer by the value of the `x-key` header, "" for any
    by_key: HashMap<String, Ans>,
    /// AWS: the secrets in play and the answer per pair
    secrets: Vec<String>,
    by_pair: HashMap<(String, String), Ans>,
    /// position in the enumerated order of answers of its group
    rank: Option<(usize, usize)>,
}
#[derive(Default)]
struct State {
    routes: HashMap<String, Route>,
    log: HashMap<String, Vec<Req>>,
    /// answered ranks per group
    turns: HashMap<usize, usize>,
}
struct Server {
    port: u16,
    /// a port nobody listens on
    dead: u16,
    st: Mutex<State>,
    cv: Condvar,
}
fn server() -> &'static Server {
    static S: OnceLock<Server> = OnceLock::new();
    let mut l = None;
    let s = S.get_or_init(|| {
        let li = TcpListener::bind("127.0.0.1:0").expect("loopback");
        let port = li.local_addr().unwrap().port();
        l = Some(li);
        let dead = unsafe {
            // bound but not listening: connections are refused and nobody else can take the port
            let fd = libc::socket(libc::AF_INET, libc::SOCK_STREAM, 0);
            let mut a: libc::sockaddr_in = std::mem::zeroed();
            a.sin_family = libc::AF_INET as u16;
            a.sin_addr.s_addr = u32::from_ne_bytes([127, 0, 0, 1]);
            let mut n = std::mem::size_of::<libc::sockaddr_in>() as u32;
            assert_eq!(libc::bind(fd, &a as *const _ as *const _, n), 0);
            assert_eq!(libc::getsockname(fd, &mut a as *mut _ as *mut _, &mut n), 0);
            u16::from_be(a.sin_port)
        };
        Server { port, dead, st: Default::default(), cv: Condvar::new() }
    });
    if let Some(l) = l {
        std::thread::spawn(move || {
            for c in l.incoming().flatten() {
                std::thread::Builder::new()
                    .stack_size(256 << 10)
                    .spawn(move || {
                        let _ = c.set_nodelay(true);
                        let _ = serve(s, c);
                    })
                    .unwrap();
            }
        });
    }
    s
}
fn serve(s: &'static Server, mut c: TcpStream) -> std::io::Result<()> {
    let mut buf: Vec<u8> = vec![];
    let mut tmp = [0u8; 4096];
    loop {
        let end = loop {
            if let Some(i) = buf.windows(4).position(|w| w == b"\r\n\r\n") {
                break i + 4;
            }
            let n = c.read(&mut tmp)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&tmp[..n]);
        };
        let head: Vec<Vec<u8>> = buf[..end - 4].split(|b| *b == b'\n').map(|l| l.strip_suffix(b"\r").unwrap_or(l).to_vec()).collect();
        let first = String::from_utf8_lossy(&head[0]).into_owned();
        let mut it = first.split(' ');
        let (method, target) = (it.next().unwrap_or("").to_string(), it.next().unwrap_or("").to_string());
        let headers: Vec<(String, Vec<u8>)> = head[1..]
            .iter()
            .map(|l| {
                let i = l.iter().position(|b| *b == b':').unwrap_or(l.len());
                let v = if i < l.len() { l[i + 1..].trim_ascii().to_vec() } else { vec![] };
                (String::from_utf8_lossy(&l[..i]).into_owned(), v)
            })
            .collect();
        let len: usize = headers
            .iter()
            .find(|(k, _)| k.eq_ignore_ascii_case("content-length"))
            .and_then(|(_, v)| String::from_utf8_lossy(v).parse().ok())
            .unwrap_or(0);
        while buf.len() < end + len {
            let n = c.read(&mut tmp)?;
            if n == 0 {
                return Ok(());
            }
            buf.extend_from_slice(&tmp[..n]);
        }
        let body = buf[end..end + len].to_vec();
        buf.drain(..end + len);
        let mut rq = Req { method, headers, body, ans: Drop, pair: None };
        let mut st = s.st.lock().unwrap();
        let r = st.routes.get(&target).cloned().unwrap_or_default();
        drop(st);
        let mut ans = Code(599);
        if !r.secrets.is_empty() {
            rq.pair = signer(&rq, &target, &r.secrets);
            if let Some(p) = &rq.pair {
                ans = *r.by_pair.get(p).unwrap_or(&Code(599));
            }
        } else {
            let key = rq.one("x-key").unwrap_or_default();
            if let Some(a) = r.by_key.get(&key).or(r.by_key.get("")) {
                ans = *a;
            }
        }
        rq.ans = ans;
        st = s.st.lock().unwrap();
        st.log.entry(target.clone()).or_default().push(rq);
        if let Some((group, rank)) = r.rank {
            // wait for the requests ranked before; a validator that works one by one is not held up
            let until = Instant::now() + Duration::from_millis(60);
            while *st.turns.entry(group).or_default() < rank {
                let left = until.saturating_duration_since(Instant::now());
                if left.is_zero() {
                    break;
                }
                st = s.cv.wait_timeout(st, left).unwrap().0;
            }
        }
        drop(st);
        let reply = match ans {
            Code(n) => format!("HTTP/1.1 {n} X\r\nContent-Length: 0\r\n\r\n").into_bytes(),
            Garbage => b"\x00\x01 no http\r\n\r\n".to_vec(),
            // far too late
            Stall => b"HTTP/1.1 200 X\r\nContent-Length: 0\r\n\r\n".to_vec(),
            Drop => vec![],
        };
        if ans == Stall {
            std::thread::sleep(Duration::from_millis(8000));
        }
        let res = c.write_all(&reply);
        if r.rank.is_some() {
            // give the client the time to see this answer before the next one is sent
            std::thread::sleep(Duration::from_millis(2));
            let mut st = s.st.lock().unwrap();
            *st.turns.entry(r.rank.unwrap().0).or_default() += 1;
            s.cv.notify_all();
        }
        res?;
        if !matches!(ans, Code(_)) {
            let _ = c.shutdown(std::net::Shutdown::Both);
            return Ok(());
        }
    }
}
/// The pair of id and secret that signed the request (AWS signature version 4, from the documentation).
fn signer(rq: &Req, path: &str, secrets: &[String]) -> Option<(String, String)> {
    let auth = rq.one("authorization")?;
    let rest = auth.strip_prefix("AWS4-HMAC-SHA256 ")?;
    let mut f = BTreeMap::new();
    for kv in rest.split(',') {
        let (k, v) = kv.trim().split_once('=')?;
        f.insert(k.to_string(), v.to_string());
    }
    let cred = f.get("Credential")?;
    // id/date/region/service/aws4_request; the id may hold slashes
    let parts: Vec<&str> = cred.rsplitn(5, '/').collect();
    if parts.len() != 5 || parts[0] != "aws4_request" {
        return None;
    }
    let (service, region, date, id) = (parts[1], parts[2], parts[3], parts[4]);
    let signed = f.get("SignedHeaders")?;
    let mut canon = String::new();
    for h in signed.split(';') {
        canon.push_str(&format!("{h}:{}\n", rq.one(h)?.trim()));
    }
    for must in ["host", "x-amz-date"] {
        if !signed.split(';').any(|h| h == must) {
            return None;
        }
    }
    let stamp = rq.one("x-amz-date")?;
    if !stamp.starts_with(date) {
        return None;
    }
    let canonical = format!("{}\n{path}\n\n{canon}\n{signed}\n{}", rq.method, hex(&sha256(&rq.body)));
    let scope = format!("{date}/{region}/{service}/aws4_request");
    let sts = format!("AWS4-HMAC-SHA256\n{stamp}\n{scope}\n{}", hex(&sha256(canonical.as_bytes())));
    let sig = f.get("Signature")?;
    secrets
        .iter()
        .find(|s| {
            let mut k = hmac(format!("AWS4{s}").as_bytes(), date.as_bytes());
            for p in [region, service, "aws4_request"] {
                k = hmac(&k, p.as_bytes());
            }
            hex(&hmac(&k, sts.as_bytes())) == *sig
        })
        .map(|s| (id.to_string(), s.clone()))
}

// ------------------------------------------------------------------ helpers
#[derive(Clone, Copy, Debug, PartialEq, PartialOrd, Eq, Ord, Hash)]
enum S {
    NotChecked,
    NotAvailable,
    Invalid,
    Error,
    Valid,
}
fn st(m: &MatchStatus) -> S {
    match m {
        MatchStatus::NotChecked => S::NotChecked,
        MatchStatus::NotAvailable => S::NotAvailable,
        MatchStatus::Invalid => S::Invalid,
        MatchStatus::Error(_) => S::Error,
        MatchStatus::Valid => S::Valid,
    }
}
/// Everything of a match but its status.
fn body(m: &RuleMatch) -> String {
    format!(
        "{}|{}|{:?}|{}|{}|{}|{:?}",
        m.rule_index, m.path, m.replacement_type, m.start_index, m.end_index_exclusive, m.shift_offset, m.match_value
    )
}
fn outcome(a: Ans, valid: &[std::ops::Range<u16>], invalid: &[std::ops::Range<u16>]) -> S {
    match a {
        Code(n) if valid.iter().any(|r| r.contains(&n)) => S::Valid,
        Code(n) if invalid.iter().any(|r| r.contains(&n)) => S::Invalid,
        _ => S::Error,
    }
}
fn method_name(m: &HttpMethod) -> &'static str {
    match m {
        HttpMethod::Get => "GET",
        HttpMethod::Post => "POST",
        HttpMethod::Put => "PUT",
        HttpMethod::Delete => "DELETE",
        HttpMethod::Patch => "PATCH",
    }
}
fn hdr(k: &str, v: &str) -> RequestHeader {
    RequestHeader { key: k.into(), value: v.into() }
}
#[derive(Clone)]
struct Http {
    /// the endpoint of the dead port is written `dead`
    hosts: Vec<String>,
    method: HttpMethod,
    headers: Vec<(String, String)>,
    valid: Vec<std::ops::Range<u16>>,
    invalid: Vec<std::ops::Range<u16>>,
    timeout_ms: u64,
}
impl Http {
    fn new(hosts: &[String]) -> Http {
        Http {
            hosts: hosts.to_vec(),
            method: HttpMethod::Get,
            headers: vec![("x-key".into(), "$MATCH".into())],
            valid: vec![200..300],
            invalid: vec![400..500],
            timeout_ms: 60_000,
        }
    }
    fn endpoint(&self, i: usize) -> String {
        let s = server();
        if self.hosts[i] == "dead" {
            format!("http://127.0.0.1:{}/dead{i}", s.dead)
        } else {
            format!("http://127.0.0.1:{}{}", s.port, self.hosts[i])
        }
    }
    fn build(&self) -> MatchValidationType {
        let ends: Vec<String> = (0..self.hosts.len()).map(|i| self.endpoint(i)).collect();
        let mut b = if ends.len() == 1 {
            HttpValidatorConfigBuilder::new(ends[0].clone())
        } else {
            let mut b = HttpValidatorConfigBuilder::new("http://$HOST".into());
            b.set_hosts(ends.iter().map(|e| e.strip_prefix("http://").unwrap().to_string()).collect());
            b
        };
        b.set_method(self.method.clone())
            .set_request_header(self.headers.iter().map(|(k, v)| hdr(k, v)).collect())
            .set_valid_http_status_code(self.valid.clone())
            .set_invalid_http_status_code(self.invalid.clone())
            .set_timeout(Duration::from_millis(self.timeout_ms));
        MatchValidationType::CustomHttp(b.build().unwrap())
    }
    fn text(&self) -> String {
        format!("{:?} {:?} headers {:?} valid {:?} invalid {:?}", self.hosts, self.method, self.headers, self.valid, self.invalid)
    }
}
fn validated(p: &str, v: MatchValidationType) -> RegexRuleConfig {
    rule(p).match_validation_type(v)
}
fn route(path: &str, r: Route) {
    server().st.lock().unwrap().routes.insert(path.into(), r);
}
fn by_key(m: &[(&str, Ans)]) -> Route {
    Route { by_key: m.iter().map(|(k, a)| (k.to_string(), *a)).collect(), ..Default::default() }
}
fn take_log(paths: &[String]) -> Vec<(String, Req)> {
    let mut s = server().st.lock().unwrap();
    let mut v = vec![];
    for p in paths {
        for r in s.log.remove(p).unwrap_or_default() {
            v.push((p.clone(), r));
        }
    }
    v
}
/// Validates the matches; what is not allowed to change is compared here. None after a violation.
fn validate(w: &mut Worker, sc: &Scanner, m: &mut Vec<RuleMatch>, case: &str, steps: u64) -> Option<Vec<S>> {
    let before: Vec<String> = m.iter().map(body).collect();
    let r = w.run(case, steps, || sc.validate_matches(m))?;
    if r.is_err() {
        w.violate("result", json!({"case": case, "observed": format!("{r:?}"), "expected": "Ok"}));
        return None;
    }
    let after: Vec<String> = m.iter().map(body).collect();
    let (mut a, mut b) = (before.clone(), after.clone());
    a.sort();
    b.sort();
    if a != b {
        w.violate("matches", json!({"case": case, "before": before, "after": after, "expected": "the same matches"}));
        return None;
    }
    if m.windows(2).any(|p| p[0].start_index > p[1].start_index) {
        w.violate("order", json!({"case": case, "after": after, "expected": "sorted by start index"}));
        return None;
    }
    Some(m.iter().map(|m| st(&m.match_status)).collect())
}
fn built(w: &mut Worker, rules: &[RegexRuleConfig], text: String) -> Option<Scanner> {
    w.config(text);
    match w.run("(build)", 1, || build(rules, Opts::default()))? {
        Ok(s) => Some(s),
        Err(e) => {
            w.violate("build", json!({"case": "(build)", "error": format!("{e:?}")}));
            None
        }
    }
}
fn expect(w: &mut Worker, case: &str, got: &[S], want: &[S]) -> bool {
    w.outcome(&(case.len(), want), !want.is_empty());
    if got != want {
        w.violate("status", json!({"case": case, "observed": format!("{got:?}"), "expected": format!("{want:?}")}));
        return false;
    }
    if w.want_sample() {
        let c = w.cfg_text().to_string();
        w.ctx.sample(json!({"space": w.space, "config": c, "case": case, "statuses": format!("{got:?}")}));
    }
    true
}
fn scan_str(sc: &Scanner, s: &str) -> Vec<RuleMatch> {
    let mut e = s.to_string();
    sc.scan(&mut e, vec![])
}
fn tuples<T: Clone>(alpha: &[T], n: usize) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = vec![vec![]];
    for _ in 0..n {
        v = v.into_iter().flat_map(|p| alpha.iter().map(move |a| [p.clone(), vec![a.clone()]].concat())).collect();
    }
    v
}
fn perms(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut v = vec![];
    for p in perms(n - 1) {
        for i in 0..n {
            let mut q = p.clone();
            q.insert(i, n - 1);
            v.push(q);
        }
    }
    v
}

pub fn c22(c: &Ctx) {
    for k in ["http_proxy", "https_proxy", "all_proxy", "HTTP_PROXY", "HTTPS_PROXY", "ALL_PROXY"] {
        std::env::remove_var(k);
    }
    std::env::set_var("RAYON_NUM_THREADS", "64");
    server();
    c.assume("the HTTP client library, TCP and the loopback interface deliver requests and answers; redirects are not part of the property");
    if hex(&sha256(b"abc")) != "ba7816bf8f01cfea414140de5dae2223b00361a396177a9cb410ff61f20015ad" {
        panic!("sha256");
    }
    merges(c);
    builders(c);
    settings(c);
    answers(c);
    orders(c);
    several(c);
    headers(c);
    mixed(c);
    aws(c);
    counts(c);
    aws_text(c);
    twice(c);
    timeouts(c);
    refused(c);
}

fn merges(c: &Ctx) {
    let all = |i: usize| match i {
        0 => MatchStatus::NotChecked,
        1 => MatchStatus::NotAvailable,
        2 => MatchStatus::Invalid,
        3 => MatchStatus::Error("a".into()),
        4 => MatchStatus::Error("b".into()),
        _ => MatchStatus::Valid,
    };
    let items: Vec<usize> = (0..6).collect();
    let n = c.q(4, 6);
    c.space("merge", &format!("every sequence of up to {n} statuses merged in order"), &items, |w, first| {
        w.config(format!("start {:?}", all(*first)));
        for len in 0..=n {
            for seq in tuples(&[0usize, 1, 2, 3, 4, 5], len) {
                let case = format!("{seq:?}");
                let Some(got) = w.run(&case, len as u64, || {
                    let mut s = all(*first);
                    for i in &seq {
                        s.merge(all(*i));
                    }
                    st(&s)
                }) else { return };
                let want = seq.iter().map(|i| st(&all(*i))).chain([st(&all(*first))]).max().unwrap();
                if !expect(w, &case, &[got], &[want]) {
                    return;
                }
            }
        }
    });
}
fn builders(c: &Ctx) {
    let items: Vec<usize> = (0..1).collect();
    c.space("endpoints", "endpoint templates x host lists: one endpoint per host, in order; refused when hosts and $HOST do not go together", &items, |w, _| {
        w.config("HttpValidatorConfigBuilder");
        let hs = ["a", "b.c", "$HOST"];
        for ep in ["http://x/y", "http://$HOST/y", "http://$HOST/$HOST", "$HOST", "", "http://HOST", "$HOS"] {
            for n in 0..=3 {
                for hosts in tuples(&hs, n) {
                    let case = format!("{ep:?} {hosts:?}");
                    let hosts: Vec<String> = hosts.iter().map(|s| s.to_string()).collect();
                    let Some(got) = w.run(&case, n as u64, || {
                        HttpValidatorConfigBuilder::new(ep.to_string()).set_hosts(hosts.clone()).build().map(|c| c.endpoints).ok()
                    }) else { return };
                    let want = match (ep.contains("$HOST"), hosts.is_empty()) {
                        (true, true) | (false, false) => None,
                        (false, true) => Some(vec![ep.to_string()]),
                        (true, false) => Some(hosts.iter().map(|h| ep.split("$HOST").collect::<Vec<_>>().join(h)).collect()),
                    };
                    w.outcome(&want, want.is_some());
                    if got != want {
                        w.violate("endpoints", json!({"case": case, "observed": got, "expected": want}));
                        return;
                    }
                }
            }
        }
    });
}
/// Every history of up to 3 settings (two values each): the last value of each setting counts, the others keep their defaults.
fn settings(c: &Ctx) {
    let items: Vec<usize> = (0..12).collect();
    let n = c.q(3, 4);
    c.space("settings", &format!("every sequence of up to {n} calls of the six setters with two values each; the two ready-made configurations"), &items, |w, first| {
        w.config("HttpValidatorConfigBuilder");
        type Cfg = (Vec<String>, HttpMethod, Vec<(String, String)>, Vec<Rg>, Vec<Rg>, Duration);
        for len in 0..n {
            for rest in tuples(&(0..12).collect::<Vec<usize>>(), len) {
                let seq: Vec<usize> = [vec![*first], rest].concat();
                let case = format!("{seq:?}");
                let mut want: Cfg = (vec!["h".into()], HttpMethod::Get, vec![("Authorization".into(), "Bearer $MATCH".into())], vec![200..300], vec![400..500], Duration::from_secs(3));
                let Some(got) = w.run(&case, seq.len() as u64, || {
                    let mut b = HttpValidatorConfigBuilder::new("$HOST".into());
                    b.set_hosts(vec!["h".into()]);
                    for s in &seq {
                        let v = s % 2;
                        match s / 2 {
                            0 => b.set_hosts(vec![format!("h{v}"), "x".into()]),
                            1 => b.set_method([HttpMethod::Post, HttpMethod::Delete][v].clone()),
                            2 => b.set_request_header((0..2 * v).map(|i| hdr(&format!("k{i}"), "v$MATCH")).collect()),
                            3 => b.set_valid_http_status_code(vec![201 + v as u16..204]),
                            4 => b.set_invalid_http_status_code(vec![401..402 + v as u16]),
                            _ => b.set_timeout(Duration::from_millis(7 + v as u64)),
                        };
                    }
                    b.build().ok().map(|c| -> Cfg {
                        (c.endpoints, c.method, c.request_header.into_iter().map(|h| (h.key, h.value)).collect(), c.valid_http_status_code, c.invalid_http_status_code, c.options.timeout)
                    })
                }) else { return };
                for s in &seq {
                    let v = s % 2;
                    match s / 2 {
                        0 => want.0 = vec![format!("h{v}"), "x".into()],
                        1 => want.1 = [HttpMethod::Post, HttpMethod::Delete][v].clone(),
                        2 => want.2 = (0..2 * v).map(|i| (format!("k{i}"), "v$MATCH".into())).collect(),
                        3 => want.3 = vec![201 + v as u16..204],
                        4 => want.4 = vec![401..402 + v as u16],
                        _ => want.5 = Duration::from_millis(7 + v as u64),
                    }
                }
                w.outcome(&case, true);
                if got.as_ref() != Some(&want) {
                    w.violate("settings", json!({"case": case, "observed": format!("{got:?}"), "expected": format!("{want:?}")}));
                    return;
                }
            }
        }
        if *first == 0 {
            for (name, b, ends, key, invalid) in [
                ("github", HttpValidatorHelper::new_github_config_builder(), vec!["https://api.github.com/octocat".to_string()], ("Authorization", "Bearer $MATCH"), vec![400..500]),
                (
                    "datadog",
                    HttpValidatorHelper::new_datadog_config_builder(),
                    ["api.datadoghq.com", "api.datadoghq.eu", "api.us3.datadoghq.com", "api.us5.datadoghq.com", "api.ddog-gov.com", "api.ap1.datadoghq.com"].iter().map(|h| format!("https://{h}/api/v1/validate")).collect(),
                    ("DD-API-KEY", "$MATCH"),
                    vec![403..404],
                ),
            ] {
                let Some(c) = w.run(name, 1, || b.build().ok()) else { return };
                w.outcome(&name, true);
                let ok = c.as_ref().is_some_and(|c| {
                    c.endpoints == ends
                        && c.method == HttpMethod::Get
                        && c.request_header.iter().filter(|h| h.value.contains("$MATCH")).map(|h| (h.key.as_str(), h.value.as_str())).collect::<Vec<_>>() == [key]
                        && c.valid_http_status_code == [200..300]
                        && c.invalid_http_status_code == invalid
                });
                if !ok {
                    w.violate("ready-made", json!({"case": name, "observed": format!("{c:?}"), "expected": format!("{ends:?} {key:?} valid 200..300 invalid {invalid:?}")}));
                    return;
                }
            }
        }
    });
}
type Rg = std::ops::Range<u16>;
fn ranges() -> Vec<(Vec<Rg>, Vec<Rg>)> {
    vec![
        (vec![200..300], vec![400..500]),
        (vec![200..300], vec![403..404]),
        (vec![200..201, 299..300], vec![400..401, 499..501]),
        (vec![200..500], vec![400..600]),
        (vec![], vec![200..600]),
        (vec![204..205], vec![]),
        (vec![500..600, 403..404], vec![200..300]),
        (vec![503..1000], vec![200..503]),
        (vec![200..300], vec![599..1000]),
        (vec![200..201, 299..300, 304..305, 204..205], vec![499..500, 400..401, 403..404, 503..504, 404..405]),
    ]
}
const METHODS: [HttpMethod; 5] = [HttpMethod::Get, HttpMethod::Post, HttpMethod::Put, HttpMethod::Delete, HttpMethod::Patch];

/// One match: every combination of answers over the endpoints.
fn answers(c: &Ctx) {
    let codes = [200u16, 204, 299, 304, 400, 403, 404, 499, 500, 503, 599, 600, 999];
    let mut one: Vec<Ans> = codes.iter().map(|n| Code(*n)).collect();
    one.extend([Drop, Garbage]);
    let three: Vec<Ans> = if c.thorough { vec![Code(200), Code(299), Code(400), Code(403), Code(404), Code(500), Code(304), Drop] } else { vec![Code(200), Code(400), Code(403), Code(500), Drop] };
    // (ranges, method, number of endpoints, which endpoint is on a dead port)
    let mut items = vec![];
    for r in 0..ranges().len() {
        for m in 0..METHODS.len() {
            for n in 1..=3usize {
                if n == 3 && m != r % 5 {
                    continue;
                }
                for dead in 0..=n {
                    items.push((r, m, n, dead));
                }
            }
        }
    }
    c.space("answers", "status ranges x methods x 1-3 endpoints (one of them possibly unreachable) x every combination of answers", &items, |w, (r, m, n, dead)| {
        let paths: Vec<String> = (0..*n).map(|i| if i == *dead { "dead".into() } else { format!("/a{}/{i}", w.item) }).collect();
        let mut h = Http::new(&paths);
        (h.valid, h.invalid) = ranges()[*r].clone();
        h.method = METHODS[*m].clone();
        let Some(sc) = built(w, &[validated("k[0-9]", h.build())], h.text()) else { return };
        let live: Vec<&String> = paths.iter().filter(|p| *p != "dead").collect();
        let alpha = if *n == 3 { &three } else { &one };
        for t in tuples(alpha, live.len()) {
            for (p, a) in live.iter().zip(&t) {
                route(p, by_key(&[("", *a)]));
            }
            let case = format!("{t:?}");
            let mut ms = scan_str(&sc, "x k1 y");
            let Some(got) = validate(w, &sc, &mut ms, &case, *n as u64) else { return };
            let want = t
                .iter()
                .map(|a| outcome(*a, &h.valid, &h.invalid))
                .chain((live.len() < *n).then_some(S::Error))
                .max()
                .unwrap();
            if !expect(w, &case, &got, &[want]) {
                return;
            }
            let log = take_log(&paths);
            for p in &live {
                let rs: Vec<&Req> = log.iter().filter(|(q, _)| q == *p).map(|x| &x.1).collect();
                let once = rs.len() == 1 || (rs.len() > 1 && !matches!(rs[0].ans, Code(_)));
                if !once || rs.iter().any(|r| r.method != method_name(&h.method) || r.one("x-key").as_deref() != Some("k1")) {
                    w.violate("requests", json!({"case": case, "endpoint": p, "expected": format!("one {} request with x-key: k1", method_name(&h.method)), "observed": format!("{rs:?}")}));
                    return;
                }
            }
            if w.stopped() {
                return;
            }
        }
    });
}
/// The result does not depend on the order in which the endpoints answer.
fn orders(c: &Ctx) {
    let alpha = [Code(200), Code(403), Code(500)];
    let items: Vec<Vec<Ans>> = (2..=c.q(3, 4)).flat_map(|n| tuples(&alpha, n)).collect();
    c.space("answer-orders", "2-3 (thorough: 4) endpoints x every combination of answers x every order in which the answers arrive", &items, |w, t| {
        let n = t.len();
        let paths: Vec<String> = (0..n).map(|i| format!("/o{}/{i}", w.item)).collect();
        let h = Http::new(&paths);
        let Some(sc) = built(w, &[validated("k[0-9]", h.build())], h.text()) else { return };
        let want = t.iter().map(|a| outcome(*a, &h.valid, &h.invalid)).max().unwrap();
        for o in perms(n) {
            let group = w.item;
            server().st.lock().unwrap().turns.insert(group, 0);
            for i in 0..n {
                let mut r = by_key(&[("", t[i])]);
                r.rank = Some((group, o[i]));
                route(&paths[i], r);
            }
            let case = format!("{t:?} arriving in order {o:?}");
            let mut ms = scan_str(&sc, "k1");
            let Some(got) = validate(w, &sc, &mut ms, &case, n as u64) else { return };
            if !expect(w, &case, &got, &[want]) {
                return;
            }
            take_log(&paths);
        }
    });
}
/// Several matches of one rule: each has its own answers.
fn several(c: &Ctx) {
    let alpha = [Code(200), Code(403), Code(500)];
    let mut items: Vec<Vec<Ans>> = tuples(&alpha, 4);
    items.extend(tuples(&alpha, 6));
    if c.thorough {
        items.extend(tuples(&[Code(200), Code(403)], 8));
    }
    c.space("several-matches", "2-4 matches x 2 endpoints x every combination of answers", &items, |w, t| {
        let n = t.len() / 2;
        let paths: Vec<String> = (0..2).map(|i| format!("/s{}/{i}", w.item)).collect();
        let h = Http::new(&paths);
        let Some(sc) = built(w, &[validated("k[0-9]", h.build()).match_action(redact("[R]"))], h.text()) else { return };
        let keys: Vec<String> = (0..n).map(|i| format!("k{i}")).collect();
        for (e, p) in paths.iter().enumerate() {
            let m: Vec<(&str, Ans)> = keys.iter().enumerate().map(|(i, k)| (k.as_str(), t[i * 2 + e])).collect();
            route(p, by_key(&m));
        }
        let want: Vec<S> = (0..n).map(|i| (0..2).map(|e| outcome(t[i * 2 + e], &h.valid, &h.invalid)).max().unwrap()).collect();
        let case = format!("{t:?}");
        let mut ms = scan_str(&sc, &keys.join(" "));
        let Some(got) = validate(w, &sc, &mut ms, &case, t.len() as u64) else { return };
        if !expect(w, &case, &got, &want) {
            return;
        }
        let mut log: Vec<(String, String)> = take_log(&paths).into_iter().map(|(p, r)| (p, r.one("x-key").unwrap_or_default())).collect();
        log.sort();
        let mut wl: Vec<(String, String)> = paths.iter().flat_map(|p| keys.iter().map(move |k| (p.clone(), k.clone()))).collect();
        wl.sort();
        if log != wl {
            w.violate("requests", json!({"case": case, "observed": log, "expected": wl}));
        }
    });
}
/// The request carries the match in place of every $MATCH.
fn headers(c: &Ctx) {
    let frag = ["$MATCH", "$", "MATCH", "b ", "$MATC"];
    let mut vals: Vec<String> = vec![];
    for n in 0..=c.q(2, 3) {
        vals.extend(tuples(&frag, n).into_iter().map(|v| v.concat()));
    }
    vals.push("Bearer $MATCH".into());
    vals.push("$MATCH$MATCH$MATCH".into());
    let mut toks: Vec<String> = all_strings(&['a', '$', ' ', '"', ':', '~'], 1, 2).into_iter().map(|s| format!("<{s}>")).collect();
    toks.extend(["<$MATCH>", "<é>", "<€𝄞>", "<\n>", "<\0>", "<\u{7f}>", "<a\tb>", "<\r\nx-evil: 1>"].map(|s| s.to_string()));
    toks.push(format!("<{}>", "a".repeat(3000)));
    toks.extend(all_strings(&['a', '$', ' ', '\t', '='], 1, 2));
    c.space("headers", "header values built from $MATCH and near misses x match contents (spaces, $MATCH itself, non-ASCII, control characters, long)", &vals, |w, v| {
        let path = format!("/h{}", w.item);
        let mut h = Http::new(&[path.clone()]);
        h.headers = vec![("x-one".into(), v.clone()), ("x-two".into(), "plain".into()), ("X-Three".into(), format!("3 {v}"))];
        let Some(sc) = built(w, &[validated("(?s).+", h.build())], h.text()) else { return };
        route(&path, by_key(&[("", Code(200))]));
        for t in &toks {
            let mut ms = scan_str(&sc, t);
            let Some(got) = validate(w, &sc, &mut ms, t, 1) else { return };
            let fill = |v: &str| v.replace("$MATCH", t);
            let log = take_log(&[path.clone()]);
            let carries = v.contains("$MATCH");
            // a match with control characters cannot be sent: the request fails
            let bad = carries && t.chars().any(|c| c != '\t' && (c as u32) < 32 || c == '\u{7f}');
            if bad {
                if !expect(w, t, &got, &[S::Error]) {
                    return;
                }
                if !log.is_empty() {
                    w.violate("requests", json!({"case": t, "expected": "no request", "observed": format!("{log:?}")}));
                    return;
                }
                continue;
            }
            if carries && !t.is_ascii() && got == [S::Error] && log.is_empty() {
                // refusing to send non-ASCII header content counts as a failed request
                continue;
            }
            if !expect(w, t, &got, &[S::Valid]) {
                return;
            }
            let ok = log.len() == 1
                && [("x-one", fill(v)), ("x-two", "plain".into()), ("x-three", fill(&format!("3 {v}")))]
                    .iter()
                    .all(|(k, x)| log[0].1.all(k) == [x.as_bytes().trim_ascii()]);
            if !ok {
                w.violate("requests", json!({"case": t, "expected": "every $MATCH replaced by the match", "observed": format!("{log:?}")}));
                return;
            }
        }
    });
}
/// Rules with and without validation together; rules that share endpoints but nothing else.
fn mixed(c: &Ctx) {
    // rule kinds: 0 none, 1 http A, 2 http A with other ranges, header and method, 3 http B, 4 http A again,
    // 5 none with redaction, 6 AWS id without a secret rule
    let n = 7usize;
    let maxlen = c.q(3, 4);
    let mut items: Vec<Vec<usize>> = vec![];
    for len in 1..=maxlen {
        items.extend(tuples(&(0..n).collect::<Vec<_>>(), len));
    }
    c.space("mixed-rules", &format!("every list of up to {maxlen} rules of 7 kinds x orders of their matches in 1 and 2 strings x answers of the shared endpoint"), &items, |w, kinds| {
        let pa = format!("/m{}/a", w.item);
        let pb = format!("/m{}/b", w.item);
        let a = Http::new(&[pa.clone()]);
        let mut a2 = a.clone();
        a2.valid = vec![403..404];
        a2.invalid = vec![200..201];
        a2.method = HttpMethod::Post;
        a2.headers = vec![("x-key".into(), "$MATCH".into()), ("x-other".into(), "<$MATCH>".into())];
        let b = Http::new(&[pb.clone()]);
        let conf = |k: usize| match k {
            1 | 4 => Some(&a),
            2 => Some(&a2),
            3 => Some(&b),
            _ => None,
        };
        let rules: Vec<RegexRuleConfig> = kinds
            .iter()
            .enumerate()
            .map(|(i, k)| {
                let p = format!("{}[0-9]", (b'a' + i as u8) as char);
                match k {
                    0 => rule(&p),
                    5 => rule(&p).match_action(redact("REDACTED")),
                    6 => validated(&p, MatchValidationType::Aws(AwsType::AwsId)),
                    1 | 4 => validated(&p, a.build()).match_action(redact("")),
                    k => validated(&p, conf(*k).unwrap().build()),
                }
            })
            .collect();
        let Some(sc) = built(w, &rules, format!("rules {kinds:?} (0 none, 1/4 http A, 2 http A other config, 3 http B, 5 none+redact, 6 aws id)")) else { return };
        let any = kinds.iter().any(|k| conf(*k).is_some());
        // every order of the rules' matches, in one string or spread over two
        for o in perms(kinds.len()) {
            for split in 0..=1usize {
                let toks: Vec<String> = o.iter().enumerate().map(|(j, i)| format!("{}{j}", (b'a' + *i as u8) as char)).collect();
                let ev: Strs = if split == 0 {
                    vec![(Path::root(), toks.join(" "))]
                } else {
                    let h = toks.len() / 2;
                    strs(&[("p", &toks[..h].join(" ")), ("q", &toks[h..].join(" "))])
                };
                for (xa, xb) in [(200u16, 403u16), (403, 200), (500, 200)] {
                    route(&pa, by_key(&[("", Code(xa))]));
                    route(&pb, by_key(&[("", Code(xb))]));
                    let case = format!("{toks:?} split {split} answers {xa} {xb}");
                    let mut ms = scan_event(&sc, &ev);
                    if !any {
                        let before: Vec<String> = ms.iter().map(body).collect();
                        let Some(r) = w.run(&case, 1, || sc.validate_matches(&mut ms)) else { return };
                        let after: Vec<String> = ms.iter().map(body).collect();
                        if !matches!(r, Err(MatchValidationError::NoMatchValidationType)) || before != after {
                            w.violate("no-validator", json!({"case": case, "observed": format!("{r:?}"), "before": before, "after": after}));
                            return;
                        }
                        continue;
                    }
                    let Some(got) = validate(w, &sc, &mut ms, &case, kinds.len() as u64) else { return };
                    let want: Vec<S> = ms
                        .iter()
                        .map(|m| match kinds[m.rule_index] {
                            0 | 5 => S::NotAvailable,
                            6 => S::NotChecked,
                            k => {
                                let h = conf(k).unwrap();
                                outcome(Code(if k == 3 { xb } else { xa }), &h.valid, &h.invalid)
                            }
                        })
                        .collect();
                    if ms.len() != kinds.len() {
                        w.violate("matches", json!({"case": case, "expected": kinds.len(), "observed": ms.iter().map(body).collect::<Vec<_>>()}));
                        return;
                    }
                    if !expect(w, &case, &got, &want) {
                        return;
                    }
                    let mut log: Vec<(String, String, String, String)> = take_log(&[pa.clone(), pb.clone()])
                        .into_iter()
                        .map(|(p, r)| (p, r.method.clone(), r.one("x-key").unwrap_or_default(), r.one("x-other").unwrap_or_default()))
                        .collect();
                    log.sort();
                    let mut wl: Vec<_> = o
                        .iter()
                        .enumerate()
                        .filter_map(|(j, i)| {
                            let t = &toks[j];
                            let h = conf(kinds[*i])?;
                            let other = if kinds[*i] == 2 { format!("<{t}>") } else { String::new() };
                            Some((if kinds[*i] == 3 { pb.clone() } else { pa.clone() }, method_name(&h.method).to_string(), t.clone(), other))
                        })
                        .collect();
                    wl.sort();
                    if log != wl {
                        w.violate("requests", json!({"case": case, "observed": log, "expected": wl}));
                        return;
                    }
                }
                if w.stopped() {
                    return;
                }
            }
        }
    });
}
fn scan_event(sc: &Scanner, ev: &Strs) -> Vec<RuleMatch> {
    let mut e: dd_sds::SimpleEvent = if ev.len() == 1 && ev[0].0.segments.is_empty() {
        SimpleEvent::String(ev[0].1.clone())
    } else {
        let mut m = BTreeMap::new();
        for (p, t) in ev {
            let k = match &p.segments[0] {
                PathSegment::Field(f) => f.to_string(),
                _ => unreachable!(),
            };
            m.insert(k, SimpleEvent::String(t.clone()));
        }
        SimpleEvent::Map(m)
    };
    sc.scan(&mut e, vec![])
}
fn secret(i: usize) -> String {
    format!("SECRET{i}/{}", "abcDEF+123".repeat(4)[..32].to_string())
}
const FORCED: &str = "2021-03-04T05:06:07Z";
const FORCED_STAMP: &str = "20210304T050607Z";
fn odd(path: &str) -> bool {
    path.bytes().last().is_some_and(|b| b % 2 == 1)
}
/// the time a request was signed for is the configured one, or now
fn stamp_ok(path: &str, r: &Req) -> bool {
    match r.one("x-amz-date") {
        Some(s) => (s == FORCED_STAMP) == odd(path),
        None => false,
    }
}
fn aws_conf(path: &str) -> AwsConfig {
    AwsConfig {
        aws_sts_endpoint: format!("http://127.0.0.1:{}{path}", server().port),
        // endpoints whose number is odd pretend a fixed time
        forced_datetime_utc: odd(path).then(|| FORCED.parse().unwrap()),
        timeout: Duration::from_secs(60),
    }
}
fn best_aws(a: Ans) -> S {
    outcome(a, &[200..300], &[400..500])
}
/// AWS ids and secrets: every pair is tried, each side takes its best pair.
fn aws(c: &Ctx) {
    let mut items: Vec<(usize, usize, usize, Vec<Ans>)> = vec![];
    let a4 = [Code(200), Code(403), Code(500), Drop];
    for (i, s) in [(0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)] {
        for t in tuples(&a4, i * s) {
            for lay in 0..2 {
                items.push((i, s, lay, t.clone()));
            }
        }
    }
    for (i, s) in [(3, 1), (1, 3), (3, 2), (2, 3)] {
        for t in tuples(&[Code(200), Code(403), Code(500)], i * s) {
            items.push((i, s, 0, t));
        }
    }
    for t in tuples(&[Code(200), Code(403)], 9) {
        items.push((3, 3, 1, t));
    }
    c.space("aws-pairs", "0-3 ids x 0-3 secrets x every combination of answers per pair, with another rule between; two layouts", &items, |w, (ni, ns, lay, t)| {
        let path = format!("/w{}", w.item);
        let rules = [
            validated("ID[0-9]X", MatchValidationType::Aws(AwsType::AwsId)),
            rule("other"),
            validated("aws=[A-Za-z0-9/+]+", MatchValidationType::Aws(AwsType::AwsSecret(aws_conf(&path)))),
            validated("session", MatchValidationType::Aws(AwsType::AwsSession)),
        ];
        let Some(sc) = built(w, &rules, "aws id, no validation, aws secret, aws session".into()) else { return };
        let ids: Vec<String> = (0..*ni).map(|i| format!("ID{i}X")).collect();
        let secrets: Vec<String> = (0..*ns).map(secret).collect();
        let ans = |i: usize, s: usize| t[i * ns + s];
        let mut r = Route { secrets: secrets.clone(), ..Default::default() };
        for i in 0..*ni {
            for s in 0..*ns {
                r.by_pair.insert((ids[i].clone(), secrets[s].clone()), ans(i, s));
            }
        }
        if r.secrets.is_empty() {
            r.secrets.push("none".into());
        }
        route(&path, r);
        let mut words: Vec<String> = ids.clone();
        let sw: Vec<String> = secrets.iter().map(|s| format!("aws={s}")).collect();
        if *lay == 0 {
            words.extend(sw);
        } else {
            words = sw.into_iter().rev().chain(words).collect();
        }
        words.insert(words.len() / 2, "other".into());
        words.push("session".into());
        let case = format!("{words:?} {t:?}");
        let mut ms = scan_str(&sc, &words.join(" "));
        let Some(got) = validate(w, &sc, &mut ms, &case, t.len() as u64 + 1) else { return };
        let want: Vec<S> = ms
            .iter()
            .map(|m| {
                let v = m.match_value.clone().unwrap_or_default();
                match m.rule_index {
                    0 => {
                        let i = ids.iter().position(|x| *x == v).unwrap();
                        (0..*ns).map(|s| best_aws(ans(i, s))).max().unwrap_or(S::NotChecked)
                    }
                    2 => {
                        let s = secrets.iter().position(|x| v == format!("aws={x}")).unwrap();
                        (0..*ni).map(|i| best_aws(ans(i, s))).max().unwrap_or(S::NotChecked)
                    }
                    1 => S::NotAvailable,
                    _ => S::NotChecked,
                }
            })
            .collect();
        if ms.len() != ni + ns + 2 {
            w.violate("matches", json!({"case": case, "observed": ms.iter().map(body).collect::<Vec<_>>()}));
            return;
        }
        if !expect(w, &case, &got, &want) {
            return;
        }
        let log = take_log(&[path.clone()]);
        let mut seen: Vec<_> = log.iter().map(|(_, r)| r.pair.clone()).collect();
        seen.sort();
        seen.dedup();
        let mut wl: Vec<_> = ids.iter().flat_map(|i| secrets.iter().map(move |s| Some((i.clone(), s.clone())))).collect();
        wl.sort();
        if seen != wl || log.iter().any(|(_, r)| !stamp_ok(&path, r) || r.method != "POST" || r.body != b"Action=GetCallerIdentity&Version=2011-06-15") {
            w.violate("requests", json!({"case": case, "observed": format!("{log:?}"), "expected": format!("one signed request for each of {wl:?}")}));
        }
    });
}
/// Many matches, endpoints, ids and secrets.
fn counts(c: &Ctx) {
    let mut items: Vec<(usize, usize, usize)> = vec![];
    for n in (5..=c.q(20, 40)).chain([31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 130]) {
        items.push((0, n, 1));
        if n < 70 {
            items.push((0, 3, n));
        }
    }
    for (i, s) in [(4, 4), (5, 5), (9, 9), (12, 12), (1, 20), (20, 1), (2, 17), (17, 2), (1, 40), (40, 1), (1, 70), (70, 1)] {
        items.push((1, i, s));
    }
    let ans = |i: usize| [Code(403), Code(500), Code(403), Code(200), Code(403)][i * 7 / 3 % 5];
    c.space("counts", "5-130 matches of one rule; 3 matches with 5-66 endpoints; up to 70 ids and secrets (12 x 12 together): every match has its own status", &items, |w, (kind, n, m)| {
        let path = format!("/n{}", w.item);
        if *kind == 0 {
            let paths: Vec<String> = (0..*m).map(|i| format!("{path}/{i}")).collect();
            let mut h = Http::new(&paths);
            h.timeout_ms = 20000;
            let Some(sc) = built(w, &[validated("k[0-9]+", h.build()), rule("n")], h.text()) else { return };
            let keys: Vec<String> = (0..*n).map(|i| format!("k{i}")).collect();
            let at = |i: usize, e: usize| if e + 1 == *m || *m == 1 { ans(i + e) } else { [Code(500), Code(403)][(i + e) % 2] };
            for (e, p) in paths.iter().enumerate() {
                let r: Vec<(&str, Ans)> = keys.iter().enumerate().map(|(i, k)| (k.as_str(), at(i, e))).collect();
                route(p, by_key(&r));
            }
            let case = format!("{n} matches, {m} endpoints");
            let mut ms = scan_str(&sc, &format!("n {} n", keys.join(" ")));
            let Some(got) = validate(w, &sc, &mut ms, &case, (n * m) as u64) else { return };
            let mut want = vec![S::NotAvailable];
            want.extend((0..*n).map(|i| (0..*m).map(|e| outcome(at(i, e), &h.valid, &h.invalid)).max().unwrap()));
            want.push(S::NotAvailable);
            let log = take_log(&paths);
            if expect(w, &case, &got, &want) && log.len() != n * m {
                w.violate("requests", json!({"case": case, "observed": log.len(), "expected": n * m}));
            }
            return;
        }
        let mut cf = aws_conf(&path);
        cf.timeout = Duration::from_secs(20);
        let rules = [
            validated("ID[0-9]+X", MatchValidationType::Aws(AwsType::AwsId)),
            validated("aws=[A-Za-z0-9/+]+", MatchValidationType::Aws(AwsType::AwsSecret(cf))),
        ];
        let Some(sc) = built(w, &rules, "aws id, aws secret".into()) else { return };
        let ids: Vec<String> = (0..*n).map(|i| format!("ID{i}X")).collect();
        let secrets: Vec<String> = (0..*m).map(|i| format!("SECRT{i:02}/{}", &"abcDEF+123".repeat(4)[..32])).collect();
        // few pairs are valid, so that each row and column depends on all its pairs
        let at = |i: usize, s: usize| if (i * 5 + s * 3) % 11 == 10 { Code(200) } else { [Code(500), Code(403), Code(403)][(i + s) % 3] };
        let mut r = Route { secrets: secrets.clone(), ..Default::default() };
        for i in 0..*n {
            for s in 0..*m {
                r.by_pair.insert((ids[i].clone(), secrets[s].clone()), at(i, s));
            }
        }
        route(&path, r);
        let text = format!("{} {}", ids.join(" "), secrets.iter().map(|s| format!("aws={s}")).collect::<Vec<_>>().join(" "));
        let case = format!("{n} ids, {m} secrets");
        let mut ms = scan_str(&sc, &text);
        let Some(got) = validate(w, &sc, &mut ms, &case, (n * m) as u64) else { return };
        let mut want: Vec<S> = (0..*n).map(|i| (0..*m).map(|s| best_aws(at(i, s))).max().unwrap()).collect();
        want.extend((0..*m).map(|s| (0..*n).map(|i| best_aws(at(i, s))).max().unwrap()));
        take_log(&[path.clone()]);
        expect(w, &case, &got, &want);
    });
}
/// The 40 characters of the secret within a longer match; ids that cannot be sent.
fn aws_text(c: &Ctx) {
    let core = secret(7);
    let mut items: Vec<(String, String, String)> = vec![];
    for pre in ["", "=", "key: ", "a=", "\"", "é"] {
        for post in ["", "\"", " ", "=", "-x", ".", " tail"] {
            items.push(("ID0X".into(), format!("{pre}{core}{post}"), core.clone()));
        }
    }
    for sep in [" ", ",", "\" \""] {
        items.push(("ID0X".into(), format!("key{sep}{core}{sep}{}", secret(8)), core.clone()));
    }
    for id in ["ID\u{e9}X", "IDa bX", "IDa/bX", "IDa,bX", "IDa\nbX", "IDa\u{7f}X", "ID\"X", "IDa=bX", "ID\u{1d11e}X", "ID", "IDX=", "IDX==", "IDX ", "ID X", "IDX.", "ID/X/", "IDX+", "IDid", "ID%20", "ID0IDX"] {
        items.push((id.into(), core.clone(), core.clone()));
    }
    // what the secret itself looks like
    for s in [format!("/{}", &core[1..]), format!("//{}", &core[2..]), format!("+{}", &core[1..]), format!("AWS4{}", &core[4..]), "A".repeat(40), "0".repeat(40), format!("{}z", "/".repeat(39)), format!("{}/+9", &core[3..]), format!("0{}", &core[1..]), core.to_lowercase()] {
        items.push(("ID0X".into(), s.clone(), s.clone()));
        items.push(("ID0X".into(), format!("key = {s};"), s));
    }
    c.space("aws-text", "texts around the secret in the match; secrets and ids of every shape, ids with separators, non-ASCII and control characters", &items, |w, (id, sec, core)| {
        let path = format!("/x{}", w.item);
        let rules = [
            validated("(?s)ID[^<]*", MatchValidationType::Aws(AwsType::AwsId)),
            validated("(?s)<.+>", MatchValidationType::Aws(AwsType::AwsSecret(aws_conf(&path)))),
        ];
        let Some(sc) = built(w, &rules, "aws id, aws secret".into()) else { return };
        route(&path, Route { secrets: vec![core.clone(), secret(8)], by_pair: [((id.clone(), core.clone()), Code(200)), ((id.clone(), secret(8)), Code(403))].into(), ..Default::default() });
        let text = format!("{id}<{sec}>");
        let mut ms = scan_str(&sc, &text);
        let Some(got) = validate(w, &sc, &mut ms, &text, 1) else { return };
        // an id that no header can carry makes the request fail
        let sendable = id.chars().all(|c| (' '..='~').contains(&c));
        let want = if sendable { S::Valid } else { S::Error };
        take_log(&[path.clone()]);
        if id.contains(',') || !id.is_ascii() {
            // the separator of the header's own fields, or bytes outside ASCII: servers differ in what
            // they read; any answer of theirs is fine
            return;
        }
        expect(w, &text, &got, &[want, want]);
    });
}
/// Validating again merges: a status is never lowered.
fn twice(c: &Ctx) {
    let alpha = [Code(200), Code(403), Code(500), Drop];
    let items: Vec<Vec<Ans>> = (1..=c.q(3, 4)).flat_map(|n| tuples(&alpha, n)).collect();
    c.space("repeated", "every history of up to 3 (thorough: 4) validations of the same matches with changing answers", &items, |w, t| {
        let path = format!("/t{}", w.item);
        let h = Http::new(&[path.clone()]);
        let Some(sc) = built(w, &[validated("k[0-9]", h.build()), rule("n")], h.text()) else { return };
        let mut ms = scan_str(&sc, "n k1 n");
        let mut best = S::NotChecked;
        for (i, a) in t.iter().enumerate() {
            route(&path, by_key(&[("", *a)]));
            let case = format!("{:?}", &t[..=i]);
            let Some(got) = validate(w, &sc, &mut ms, &case, 1) else { return };
            best = best.max(outcome(*a, &h.valid, &h.invalid));
            if !expect(w, &case, &got, &[S::NotAvailable, best, S::NotAvailable]) {
                return;
            }
        }
        take_log(&[path]);
    });
}
fn timeouts(c: &Ctx) {
    let mut items: Vec<(bool, usize)> = vec![];
    for n in 1..=2 {
        items.push((false, n));
        items.push((true, n));
    }
    c.space("timeouts", "endpoints (or the AWS service) that do not answer within the timeout", &items, |w, (aws, n)| {
        let path = format!("/z{}", w.item);
        if *aws {
            let mut cf = aws_conf(&path);
            cf.timeout = Duration::from_millis(300);
            let rules = [
                validated("ID[0-9]X", MatchValidationType::Aws(AwsType::AwsId)),
                validated("aws=[A-Za-z0-9/+]+", MatchValidationType::Aws(AwsType::AwsSecret(cf))),
            ];
            let Some(sc) = built(w, &rules, "aws".into()) else { return };
            let by: HashMap<_, _> = (0..*n).map(|i| ((format!("ID{i}X"), secret(0)), Stall)).collect();
            route(&path, Route { secrets: vec![secret(0)], by_pair: by, ..Default::default() });
            let ids: Vec<String> = (0..*n).map(|i| format!("ID{i}X")).collect();
            let mut ms = scan_str(&sc, &format!("{} aws={}", ids.join(" "), secret(0)));
            let Some(got) = validate(w, &sc, &mut ms, "stall", 1) else { return };
            expect(w, "stall", &got, &vec![S::Error; n + 1]);
        } else {
            let paths: Vec<String> = (0..*n).map(|i| format!("{path}/{i}")).collect();
            let mut h = Http::new(&paths);
            h.timeout_ms = 300;
            let Some(sc) = built(w, &[validated("k[0-9]", h.build())], h.text()) else { return };
            for p in &paths {
                route(p, by_key(&[("", Stall)]));
            }
            let mut ms = scan_str(&sc, "k1 k2");
            let Some(got) = validate(w, &sc, &mut ms, "stall", 1) else { return };
            expect(w, "stall", &got, &[S::Error, S::Error]);
        }
    });
}
/// Without a validator the call is refused and changes nothing.
fn refused(c: &Ctx) {
    let items: Vec<usize> = (0..8).collect();
    c.space("no-validator", "scanners without a validator: refused, matches untouched, whatever their statuses; empty lists", &items, |w, mask| {
        let mut rules = vec![];
        if mask & 1 != 0 {
            rules.push(rule("a"));
        }
        if mask & 2 != 0 {
            rules.push(validated("b", MatchValidationType::Aws(AwsType::AwsId)));
        }
        if mask & 4 != 0 {
            rules.push(validated("c", MatchValidationType::Aws(AwsType::AwsSession)));
        }
        let Some(sc) = built(w, &rules, format!("mask {mask}")) else { return };
        for text in ["", "a", "ab", "cba abc"] {
            let mut ms = scan_str(&sc, text);
            let before: Vec<_> = ms.iter().map(|m| (body(m), st(&m.match_status))).collect();
            let Some(r) = w.run(text, 1, || sc.validate_matches(&mut ms)) else { return };
            let after: Vec<_> = ms.iter().map(|m| (body(m), st(&m.match_status))).collect();
            w.outcome(&after.len(), !after.is_empty());
            if !matches!(r, Err(MatchValidationError::NoMatchValidationType)) || before != after {
                w.violate("no-validator", json!({"case": text, "observed": format!("{r:?}"), "before": format!("{before:?}"), "after": format!("{after:?}")}));
                return;
            }
        }
    });
}
