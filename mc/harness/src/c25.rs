//! C25: the Go API, executed by a Go program linked with the native library.
use crate::c26::{path_text, tree_spaces, trees, T};
use crate::common::*;
use crate::core::*;
use crate::refscan::*;
use dd_sds::*;
use serde_json::{json, Value};
use std::io::{BufRead, BufReader, Write};
use std::path::PathBuf;
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};

const GO_SRC: &str = "/repo/sds-go/go";
/// Copies the binding's sources (no tests) next to the driver and builds both.
fn go_build() -> Result<PathBuf, String> {
    let target = PathBuf::from(std::env::var("CARGO_TARGET_DIR").unwrap_or("/verif/mc/target".into()));
    let verif = std::env::var("VERIF_DIR").unwrap_or("/verif".into());
    let e = |x: std::io::Error| x.to_string();
    let dir = target.join(format!("go.{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(dir.join("sds")).map_err(e)?;
    for f in std::fs::read_dir(GO_SRC).map_err(e)? {
        let f = f.map_err(e)?.path();
        let n = f.file_name().unwrap().to_string_lossy().into_owned();
        if (n.ends_with(".go") && !n.ends_with("_test.go")) || n.ends_with(".h") || n == "go.mod" || n == "go.sum" {
            std::fs::copy(&f, dir.join("sds").join(&n)).map_err(e)?;
        }
    }
    std::fs::copy(format!("{verif}/mc/gomain/main.go.txt"), dir.join("main.go")).map_err(e)?;
    let m = "github.com/DataDog/dd-sensitive-data-scanner/sds-go/go";
    std::fs::write(dir.join("go.mod"), format!("module mcgo\ngo 1.19\nrequire {m} v0.0.0\nreplace {m} => ./sds\n")).map_err(e)?;
    // the library under a name of its own: the go command does not notice changes of libraries
    let lib = dir.join("lib");
    std::fs::create_dir_all(&lib).map_err(e)?;
    std::os::unix::fs::symlink(target.join("debug/libdd_sds_go.a"), lib.join("libdd_sds_go.a")).map_err(e)?;
    let o = Command::new("go")
        .args(["build", "-o", "mcgo", "."])
        .current_dir(&dir)
        .env("GOTOOLCHAIN", "local")
        .env("GOPROXY", "off")
        .env("GOFLAGS", "-mod=mod")
        .env("GOCACHE", target.join("gocache"))
        .env("GOTMPDIR", &dir)
        .env("CGO_ENABLED", "1")
        .env("CGO_LDFLAGS", format!("-L{} -lm -ldl -lpthread", lib.display()))
        .output()
        .map_err(e)?;
    if !o.status.success() {
        return Err(String::from_utf8_lossy(&o.stderr).into_owned());
    }
    Ok(dir)
}
struct Go {
    p: Child,
    i: ChildStdin,
    o: BufReader<ChildStdout>,
}
impl Go {
    fn start(dir: &PathBuf) -> Go {
        let mut p = Command::new(dir.join("mcgo")).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null()).env("GOMAXPROCS", "2").spawn().unwrap();
        let i = p.stdin.take().unwrap();
        let o = BufReader::new(p.stdout.take().unwrap());
        Go { p, i, o }
    }
    fn call(&mut self, v: &Value) -> Result<Value, String> {
        let mut l = v.to_string();
        l.push('\n');
        self.i.write_all(l.as_bytes()).map_err(|e| format!("the Go program died: {e}"))?;
        let mut r = String::new();
        self.o.read_line(&mut r).map_err(|e| format!("the Go program died: {e}"))?;
        if r.is_empty() {
            return Err(format!("the Go program died: {:?}", self.p.wait()));
        }
        serde_json::from_str(&r).map_err(|e| e.to_string())
    }
}
impl Drop for Go {
    fn drop(&mut self) {
        let _ = self.p.kill();
        let _ = self.p.wait();
    }
}
/// A rule as the Go constructors take it.
#[derive(Clone, Debug)]
struct G {
    ctor: &'static str,
    pattern: String,
    value: String,
    count: u32,
    first: bool,
    kw: Option<(u32, Vec<String>, Option<Vec<String>>)>,
    validator: &'static str,
}
fn g(ctor: &'static str, pattern: &str) -> G {
    G { ctor, pattern: pattern.into(), value: "[R]".into(), count: 2, first: true, kw: None, validator: "" }
}
impl G {
    fn json(&self, i: usize) -> Value {
        json!({"Ctor": self.ctor, "Id": format!("rule {i} \"é\""), "Pattern": self.pattern, "Value": self.value, "Count": self.count, "First": self.first, "Validator": self.validator,
            "Kw": self.kw.as_ref().map(|k| json!({"Look": k.0, "Inc": k.1, "Exc": k.2}))})
    }
    fn native(&self) -> RegexRuleConfig {
        let a = match self.ctor {
            "redact" => MatchAction::Redact { replacement: self.value.clone() },
            "hash" => MatchAction::Hash,
            "partial" => partial(self.first, self.count as usize),
            _ => MatchAction::None,
        };
        let mut r = rule(&self.pattern).match_action(a);
        if let Some((n, inc, exc)) = &self.kw {
            let v = |x: &[String]| x.iter().map(|s| s.as_str()).collect::<Vec<_>>().into_iter().map(String::from).collect::<Vec<_>>();
            let (i, e) = (v(inc), v(exc.as_deref().unwrap_or(&[])));
            r = r.proximity_keywords(kw(*n as usize, &i.iter().map(|s| s.as_str()).collect::<Vec<_>>(), &e.iter().map(|s| s.as_str()).collect::<Vec<_>>()));
        }
        match self.validator {
            "LuhnChecksum" => r.validator(SecondaryValidator::LuhnChecksum),
            "ChineseIdChecksum" => r.validator(SecondaryValidator::ChineseIdChecksum),
            _ => r,
        }
    }
    fn rtype(&self) -> &'static str {
        match self.ctor {
            "redact" => "placeholder",
            "hash" => "hash",
            "partial" if self.first => "partial_beginning",
            "partial" => "partial_end",
            _ => "none",
        }
    }
}
fn b64(b: &[u8]) -> String {
    const A: &[u8] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
    let mut o = String::new();
    for c in b.chunks(3) {
        let n = (c[0] as u32) << 16 | (*c.get(1).unwrap_or(&0) as u32) << 8 | *c.get(2).unwrap_or(&0) as u32;
        for i in 0..4 {
            o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] as char } else { '=' });
        }
    }
    o
}
struct Sut {
    go: Go,
    rules: Vec<G>,
    rf: RefScanner,
}
fn create(w: &mut Worker, dir: &PathBuf, rules: &[G]) -> Option<Sut> {
    w.config(&format!("{rules:?}"));
    let mut go = Go::start(dir);
    let v = json!({"Op": "create", "Rules": rules.iter().enumerate().map(|(i, r)| r.json(i)).collect::<Vec<_>>()});
    match go.call(&v) {
        Ok(r) if r["Err"] == "" && r["Rules"] == rules.len() => {
            let native: Vec<_> = rules.iter().map(|r| r.native()).collect();
            Some(Sut { go, rules: rules.to_vec(), rf: RefScanner::new(&native, Opts::default()) })
        }
        r => {
            w.violate("create", json!({"rules": format!("{rules:?}"), "observed": format!("{r:?}")}));
            None
        }
    }
}
fn want_matches(s: &[G], out: &Out, strs: &Strs) -> Vec<String> {
    let texts: std::collections::HashMap<String, String> = strs.iter().map(|(p, _)| (path_key(p), path_text(p))).collect();
    let mut v: Vec<String> = out.matches.iter().map(|m| json!([m.rule, texts[&m.path], s[m.rule as usize].rtype(), m.start, m.end, m.shift]).to_string()).collect();
    v.sort();
    v
}
fn got_matches(r: &Value) -> Vec<String> {
    let mut v: Vec<String> = r["Matches"].as_array().map(|a| a.iter().map(|m| m.to_string()).collect()).unwrap_or_default();
    v.sort();
    v
}
/// One map event: matches, redaction in place, flag.
fn check_map(w: &mut Worker, s: &mut Sut, t: &T) -> bool {
    let T::M(_) = t else { return true };
    let case = t.json().to_string();
    let strs = t.flat();
    let cmd = json!({"Op": "map", "S": 0, "Map": t.json()});
    let Some(r) = w.run(&case, strs.len() as u64, || s.go.call(&cmd)) else { return false };
    let want = s.rf.scan(&strs, &[], Enc::Utf8);
    w.outcome(&want, !want.matches.is_empty());
    let mut t2 = t.clone();
    let mut muts = vec![];
    for (((p, _), s), m) in strs.iter().zip(&want.strs).zip(&want.mutated) {
        if *m {
            *t2.get_mut(&p.segments).unwrap() = T::S(s.clone());
            muts.push(b64(s.as_bytes()));
        }
    }
    let ok = match &r {
        Ok(r) => {
            r["Err"] == ""
                && r["Mutated"] == !muts.is_empty()
                && got_matches(r) == want_matches(&s.rules, &want, &strs)
                && r["Map"] == t2.json()
                && if muts.is_empty() { r["Event"] == "" } else { muts.iter().any(|m| r["Event"] == *m) }
        }
        Err(_) => false,
    };
    if w.want_sample() && !muts.is_empty() {
        w.ctx.sample(json!({"event": t.json(), "result": format!("{r:?}")}));
    }
    if !ok {
        w.violate("map", json!({"case": case, "rules": format!("{:?}", s.rules), "observed": format!("{r:?}"),
            "expected": {"map": t2.json(), "matches": want_matches(&s.rules, &want, &strs), "mutated": !muts.is_empty()}}));
    }
    ok
}
fn check_bytes(w: &mut Worker, s: &mut Sut, b: &[u8]) -> bool {
    let case = format!("{:?}", String::from_utf8_lossy(b));
    let text = String::from_utf8_lossy(b).into_owned();
    let strs: Strs = vec![(Path::from(vec![]), text)];
    let cmd = json!({"Op": "bytes", "S": 0, "Bytes": b64(b)});
    let Some(r) = w.run(&case, b.len() as u64, || s.go.call(&cmd)) else { return false };
    let want = s.rf.scan(&strs, &[], Enc::Utf8);
    w.outcome(&want, !want.matches.is_empty());
    let ev = if want.mutated[0] { b64(want.strs[0].as_bytes()) } else { b64(b) };
    let ok = match &r {
        Ok(r) => r["Err"] == "" && r["Mutated"] == want.mutated[0] && got_matches(r) == want_matches(&s.rules, &want, &strs) && r["Event"] == ev,
        Err(_) => false,
    };
    if !ok {
        w.violate("bytes", json!({"case": case, "bytes": b, "rules": format!("{:?}", s.rules), "observed": format!("{r:?}"),
            "expected": {"event": ev, "matches": want_matches(&s.rules, &want, &strs), "mutated": want.mutated[0]}}));
    }
    ok
}
fn s(x: &str) -> T {
    T::S(x.into())
}
pub fn c25(c: &Ctx) {
    let dir = match go_build() {
        Ok(d) => d,
        Err(e) => {
            println!("{e}\nBUILD-ERROR (Go)");
            std::process::exit(2)
        }
    };
    spaces(c, &dir);
    let _ = std::fs::remove_dir_all(&dir);
}
fn spaces(c: &Ctx, dir: &PathBuf) {
    let sets: Vec<Vec<G>> = vec![
        vec![G { value: "###".into(), ..g("redact", "[0-9]") }, g("match", "x")],
        vec![g("hash", "[x1]+"), G { kw: Some((10, vec!["k".into()], None)), ..g("redact", "é") }],
        vec![G { count: 1, first: false, ..g("partial", "1é?|x") }, G { value: "".into(), ..g("redact", "é") }],
    ];
    for (name, txt, v) in tree_spaces(c) {
        if name == "json scalars" {
            continue;
        }
        let v: Vec<T> = v.into_iter().filter(|t| t.json().to_string().matches(|c| c == '[' || c == '{').count() < 100 || name != "scale").map(|t| if let T::M(_) = t { t } else { T::M(vec![("a".into(), t.clone()), ("z".into(), t)]) }).collect();
        let chunks: Vec<&[T]> = v.chunks(c.q(400, 2000)).collect();
        for (i, rules) in sets.iter().enumerate() {
            c.space(&format!("maps: {name} {i}"), txt, &chunks, |w, ts| {
                let Some(mut s) = create(w, dir, rules) else { return };
                for t in ts.iter() {
                    if !check_map(w, &mut s, t) || w.stopped() {
                        return;
                    }
                }
            });
        }
    }
    // texts that shrink, grow and stay, several per event
    let texts = ["", "1", "11", "1é1", "x", "é", "1x\u{1F600}1", "\u{0}1\"\\\n"];
    let mut evs = vec![];
    for a in texts {
        for b in texts {
            for d in texts {
                evs.push(T::M(vec![("b".into(), s(a)), ("a".into(), T::L(vec![s(b), T::M(vec![("c".into(), s(d)), ("".into(), s(a))])]))]));
            }
        }
    }
    let items: Vec<usize> = (0..sets.len()).collect();
    c.space("several mutations", "every assignment of eight texts to the strings of a nested event", &items, |w, i| {
        let Some(mut sut) = create(w, dir, &sets[*i]) else { return };
        for t in &evs {
            if !check_map(w, &mut sut, t) {
                return;
            }
        }
    });
    // values the binding does not know
    let mut un = trees(2, &[T::J(json!(1)), T::J(json!(null)), T::J(json!(true)), s("1")], &["a", "b"], c.q(1, 2), 2);
    un.retain(|t| matches!(t, T::M(_)));
    let chunks: Vec<&[T]> = un.chunks(500).collect();
    c.space("unsupported values", "every nested event with numbers, booleans or null: refused with an error and left as it was", &chunks, |w, ts| {
        let Some(mut sut) = create(w, dir, &sets[0]) else { return };
        fn bad(t: &T) -> bool {
            match t {
                T::J(_) => true,
                T::S(_) => false,
                T::L(v) => v.iter().any(bad),
                T::M(v) => v.iter().any(|x| bad(&x.1)),
            }
        }
        for t in ts.iter() {
            if !bad(t) {
                if !check_map(w, &mut sut, t) {
                    return;
                }
                continue;
            }
            let case = t.json().to_string();
            let cmd = json!({"Op": "map", "S": 0, "Map": t.json()});
            let Some(r) = w.run(&case, 1, || sut.go.call(&cmd)) else { return };
            w.outcome(&"refused", true);
            if !matches!(&r, Ok(r) if r["Err"] != "" && r["Map"] == t.json() && r["Mutated"] == false) {
                w.violate("unsupported", json!({"case": case, "expected": "an error and the event unchanged", "observed": format!("{r:?}")}));
                return;
            }
        }
    });
    // byte events
    let txts = all_strings(&['a', 'f', 'é', '😀', '-'], 0, c.q(5, 6));
    let mut acts = vec![g("match", "a+"), g("redact", "a+"), G { value: "".into(), ..g("redact", "a+") }, g("hash", "a+")];
    for first in [true, false] {
        for n in [1, 2, 5] {
            acts.push(G { first, count: n, ..g("partial", "a+") });
        }
    }
    let mut items = vec![];
    for a in &acts {
        for b in [g("match", "é|-a"), G { value: "zz".into(), ..g("redact", "[é😀]") }] {
            items.push(vec![a.clone(), b]);
        }
    }
    c.space("bytes", "every text up to length 5 (6) over 1-4 byte characters with every constructor", &items, |w, rules| {
        let Some(mut sut) = create(w, dir, rules) else { return };
        for t in &txts {
            if !check_bytes(w, &mut sut, t.as_bytes()) || w.stopped() {
                return;
            }
        }
    });
    let alpha: Vec<char> = "a1\u{80}\u{ff}\u{c3}\u{a9}\u{f0}\u{9f}".chars().collect();
    let bs: Vec<Vec<u8>> = all_strings(&alpha, 0, c.q(4, 5)).into_iter().map(|s| s.chars().map(|c| c as u32 as u8).collect()).collect();
    let chunks: Vec<&[Vec<u8>]> = bs.chunks(1000).collect();
    c.space("invalid UTF-8", "every byte string up to length 4 (5) over stray and truncated bytes: scanned as its lossy text, returned unchanged unless redacted", &chunks, |w, bs| {
        let Some(mut sut) = create(w, dir, &[G { value: "##".into(), ..g("redact", "1") }, g("match", "\u{fffd}|é")]) else { return };
        for b in bs.iter() {
            if !check_bytes(w, &mut sut, b) {
                return;
            }
        }
    });
    // lengths around the byte boundaries
    let ns: Vec<usize> = vec![0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 1 << 20];
    c.space("sizes", "texts, keys and lists around 2^7, 2^8, 2^15, 2^16 and 2^20", &ns, |w, n| {
        let Some(mut sut) = create(w, dir, &[G { value: "yes".into(), ..g("redact", "1") }, G { value: "".into(), ..g("redact", "z+") }]) else { return };
        let t = format!("{}1", "x".repeat(*n));
        let _ = check_bytes(w, &mut sut, t.as_bytes())
            && check_bytes(w, &mut sut, format!("1{}1", "z".repeat(*n)).as_bytes())
            && check_map(w, &mut sut, &T::M(vec![("k".repeat(*n), s("1")), ("q".into(), s(&t))]))
            && check_map(w, &mut sut, &T::M(vec![("l".into(), T::L((0..(*n).min(70000) + 1).map(|i| s(if i + 1 >= *n { "1" } else { "" })).collect()))]));
    });
    let ns: Vec<usize> = (1..=c.q(40, 140)).chain([63, 64, 65, 127, 128, 129, 255, 256, 257, 300, 513]).collect();
    c.space("counts", "n matches in one text of which one or all redact, n fields or elements of which one or all but one are redacted, n rules: n = 1..40 (140) and around powers of two", &ns, |w, n| {
        let Some(mut sut) = create(w, dir, &[g("match", "a"), G { value: "##".into(), ..g("redact", "k") }, g("hash", "é+")]) else { return };
        for j in [0, n / 2, n - 1] {
            let text: String = (0..*n).map(|i| if i == j { "k " } else { "a " }).collect();
            let ok = check_bytes(w, &mut sut, text.as_bytes())
                && check_bytes(w, &mut sut, "ké".repeat(*n).as_bytes())
                && check_map(w, &mut sut, &T::M(vec![("x".into(), T::S(text)), ("y".into(), s("k"))]))
                && check_map(w, &mut sut, &T::M(vec![("l".into(), T::L((0..*n).map(|i| s(if i == j { "k" } else { "a" })).collect()))]))
                && check_map(w, &mut sut, &T::M(vec![("l".into(), T::L((0..*n).map(|i| T::M(vec![("v".into(), s(if i == j { "a" } else { "k" }))])).collect()))]))
                && check_map(w, &mut sut, &T::M((0..*n).map(|i| (format!("f{i}"), s(if i == j { "a" } else { "éé" }))).collect()));
            if !ok {
                return;
            }
        }
        let many: Vec<G> = (0..*n).map(|i| G { value: format!("<{i}>"), ..g(if i % 3 == 1 { "match" } else { "redact" }, &format!("r{i};")) }).collect();
        let Some(mut sut) = create(w, dir, &many) else { return };
        let _ = check_bytes(w, &mut sut, (0..*n).map(|i| format!("r{i};")).collect::<String>().as_bytes());
    });
    configurations(c, dir);
    histories(c, dir);
}
fn configurations(c: &Ctx, dir: &PathBuf) {
    let st = |v: &[&str]| v.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    let kws: Vec<Option<(u32, Vec<String>, Option<Vec<String>>)>> = vec![
        None,
        Some((10, st(&["card"]), None)),
        Some((10, st(&[]), Some(st(&["x-1"])))),
        Some((1, st(&[]), None)),
        Some((50, st(&["card", "é"]), Some(st(&["id"])))),
        Some((0, st(&["a"]), None)),
        Some((51, st(&["a"]), None)),
        Some((5, st(&["toolong"]), None)),
        Some((5, st(&[" "]), None)),
        Some((u32::MAX, st(&["a"]), None)),
    ];
    let pats: Vec<(&str, bool)> = vec![("[0-9]{16}", true), ("1", true), ("(", false), ("", false), ("\\bcard\\b", true), ("<b>&\"1\"", true), ("[\\x00-\\x1f]1", true), ("\u{2028}", true), ("(?i)É", true)];
    let vals = ["", "LuhnChecksum", "ChineseIdChecksum", "Bogus"];
    let mut items = vec![];
    for ctor in ["match", "redact", "hash", "partial"] {
        for v in vals {
            for (p, ok) in &pats {
                items.push((ctor, v, *p, *ok));
            }
        }
    }
    let evs: Vec<T> = [
        "4242424242424242 card 4242424242424242",
        "4242424242424241",
        "513231200012121657 1",
        "card: 1 x-1 1 id 1",
        "<b>&\"1\" \u{1}1",
        "\u{2028}é É card",
    ]
    .iter()
    .map(|t| T::M(vec![("m".into(), s(t))]))
    .collect();
    c.space("configurations", "every constructor x validator x pattern x keyword setting x action argument: creation verdict and error, then results as the native equivalent", &items, |w, (ctor, v, p, ok)| {
        for k in &kws {
            for (value, count, first) in [("[R]", 1u32, true), ("", 3, false), ("<\"&\u{1}é\u{2029}>", 0, true), ("$1", 300, false), ("\u{e9}", 65_539, true)] {
                let rule = G { ctor, pattern: p.to_string(), value: value.into(), count, first, kw: k.clone(), validator: v };
                let kok = k.as_ref().map_or(true, |k| (1..=50).contains(&k.0) && k.1.iter().all(|x| !x.trim().is_empty() && x.chars().count() <= k.0 as usize));
                let aok = *ctor != "partial" || count > 0;
                let rules = [g("match", "card"), rule, g("redact", "zzz")];
                let case = format!("{:?}", rules[1]);
                w.config(&case);
                let mut go = Go::start(dir);
                let cmd = json!({"Op": "create", "Rules": rules.iter().enumerate().map(|(i, r)| r.json(i)).collect::<Vec<_>>()});
                let Some(r) = w.run(&case, 1, || go.call(&cmd)) else { return };
                let err = r.as_ref().map(|r| r["Err"].as_str().unwrap_or("?").to_string()).unwrap_or_else(|e| e.clone());
                // one fault decides; with several, any of their errors
                let mut want = vec![];
                if !*ok {
                    want.push("ErrInvalidRegex")
                }
                if !kok {
                    want.push("ErrInvalidKeywords")
                }
                if !aok {
                    want.push("ErrInvalidMatchAction")
                }
                if *v == "Bogus" {
                    want = vec!["other: Failed to create regex rule"];
                }
                w.outcome(&(&err, ctor, v), !want.is_empty());
                let good = if want.is_empty() { err.is_empty() } else { want.contains(&err.as_str()) };
                if !good {
                    w.violate("creation", json!({"case": case, "expected": want, "observed": err}));
                    return;
                }
                if want.is_empty() {
                    let native: Vec<_> = rules.iter().map(|r| r.native()).collect();
                    let mut sut = Sut { go, rules: rules.to_vec(), rf: RefScanner::new(&native, Opts::default()) };
                    for e in &evs {
                        if !check_map(w, &mut sut, e) {
                            return;
                        }
                    }
                }
            }
        }
    });
    // every character in the texts that cross the boundary as JSON
    let chars: Vec<char> = (1u32..0x180).chain([0x2028, 0x2029, 0xfeff, 0xfffd, 0xffff, 0x10000, 0x1f600, 0x10ffff, 0]).filter_map(char::from_u32).collect();
    let chunks: Vec<&[char]> = chars.chunks(16).collect();
    c.space("characters", "every character up to U+017F and special ones in pattern, replacement and keyword", &chunks, |w, cs| {
        for ch in cs.iter() {
            let pat = format!("\\x{{{:x}}}1", *ch as u32);
            let lit = if ch.is_ascii_punctuation() { format!("\\{ch}1") } else { format!("{ch}1") };
            let mut rules = vec![G { value: format!("a{ch}b"), ..g("redact", &pat) }];
            if !ch.is_whitespace() && !ch.is_control() || *ch == '\u{1}' {
                rules.push(g("match", &lit));
            }
            let k = format!("k{ch}k");
            rules.push(G { kw: Some((10, vec![k.clone()], None)), ..g("match", "2") });
            let Some(mut sut) = create(w, dir, &rules) else { return };
            for t in [format!("{ch}1"), format!("{k} 2"), format!("x{ch}1{ch}1")] {
                if !check_map(w, &mut sut, &T::M(vec![(format!("f{ch}"), s(&t))])) || !check_bytes(w, &mut sut, t.as_bytes()) {
                    return;
                }
            }
        }
    });
}
fn histories(c: &Ctx, dir: &PathBuf) {
    let cfgs: Vec<Vec<G>> = vec![vec![g("redact", "1+")], vec![g("hash", "x"), g("match", "1")], vec![g("match", "1"), g("match", "(")], vec![]];
    let ev = T::M(vec![("a".into(), T::L(vec![s("x1"), s("1")])), ("b".into(), s("x"))]);
    let strs = ev.flat();
    #[derive(Clone, Copy, Debug)]
    enum O {
        C(usize),
        D(usize),
        S(usize),
    }
    fn seqs(depth: usize, live: usize, ok: &[bool], cur: &mut Vec<O>, out: &mut Vec<Vec<O>>) {
        if depth == 0 {
            out.push(cur.clone());
            return;
        }
        let mut ops = vec![];
        if live < 3 {
            ops.extend((0..ok.len()).map(O::C));
        }
        ops.extend((0..live).map(O::D));
        ops.extend((0..live).map(O::S));
        for o in ops {
            cur.push(o);
            let l = match o {
                O::C(k) => live + ok[k] as usize,
                O::D(_) => live - 1,
                O::S(_) => live,
            };
            seqs(depth - 1, l, ok, cur, out);
            cur.pop();
        }
    }
    let mut all = vec![];
    seqs(c.q(5, 6), 0, &[true, true, false, true], &mut vec![], &mut all);
    let chunks: Vec<&[Vec<O>]> = all.chunks(c.q(200, 1000)).collect();
    c.space("histories", "every sequence of 5 (6) creations (one failing, one without rules), scans and deletions with up to three scanners", &chunks, |w, ss| {
        let mut go = Go::start(dir);
        w.config("histories");
        for seq in ss.iter() {
            let case = format!("{seq:?}");
            let r = w.run(&case, seq.len() as u64, || -> Result<(), String> {
                let mut live: Vec<usize> = vec![];
                for o in seq {
                    match o {
                        O::C(k) => {
                            let r = go.call(&json!({"Op": "create", "Rules": cfgs[*k].iter().enumerate().map(|(i, r)| r.json(i)).collect::<Vec<_>>()}))?;
                            let want = if *k == 2 { "ErrInvalidRegex" } else { "" };
                            if r["Err"] != want {
                                return Err(format!("creation of {k}: {r}"));
                            }
                            if *k != 2 {
                                live.push(*k);
                            }
                        }
                        O::D(i) => {
                            go.call(&json!({"Op": "delete", "S": i}))?;
                            live.remove(*i);
                        }
                        O::S(i) => {
                            let rules = &cfgs[live[*i]];
                            let r = go.call(&json!({"Op": "map", "S": i, "Map": ev.json()}))?;
                            let native: Vec<_> = rules.iter().map(|r| r.native()).collect();
                            let want = RefScanner::new(&native, Opts::default()).scan(&strs, &[], Enc::Utf8);
                            if got_matches(&r) != want_matches(rules, &want, &strs) || r["Mutated"] != want.mutated.iter().any(|m| *m) || r["Err"] != "" {
                                return Err(format!("scan with {rules:?}: {r}"));
                            }
                        }
                    }
                }
                while live.pop().is_some() {
                    go.call(&json!({"Op": "delete", "S": 0}))?;
                }
                Ok(())
            });
            match r {
                None => return,
                Some(Ok(())) => w.outcome(&case, true),
                Some(Err(e)) => {
                    w.violate("history", json!({"case": case, "observed": e}));
                    return;
                }
            }
            if w.stopped() {
                return;
            }
        }
    });
}
