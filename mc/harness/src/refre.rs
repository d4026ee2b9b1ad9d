//! Reference model of the pattern dialect: parser, semantics and a leftmost-first (Perl priority)
//! matcher, written from the dialect's description and sharing no code with the implementation.
//! The only thing taken from the regex engine are the Unicode property tables.
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

pub const MAX_DEPTH: usize = 50;
pub const MAX_QUANT: u64 = 3000;

#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    R(char, char),
    Perl(char),          // d s w h v, lower case = positive, upper case = negated
    Posix(bool, String), // negated
    Prop(bool, String),  // negated
}
#[derive(Clone, Debug, PartialEq)]
pub enum Node {
    Empty,
    Lit(char, bool), // escaped
    Dot,
    Class(bool, Vec<Item>),
    Cat(Vec<Node>),
    Alt(Vec<Node>),
    Rep(Box<Node>, u32, Option<u32>, bool), // lazy
    Group(Box<Node>, Option<String>),
    FlagGroup(Vec<char>, Vec<char>, Box<Node>),
    Flags(Vec<char>, Vec<char>),
    Assert(char), // b B ^ $ A z Z
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum PErr {
    Syntax,
    Depth,
    Quant,
}
enum F {
    No,         // this alternative does not apply
    Fail(PErr), // fatal
}
type R<T> = Result<T, F>;

pub struct Parsed {
    pub node: Node,
    /// constructs whose meaning depends on how the pattern is handed on textually
    pub quirk: bool,
}

struct P<'a> {
    s: Vec<char>,
    props: &'a [&'a str],
    quirk: bool,
    quant: bool,
    names: Vec<String>,
}

const DENY: &str = "0123456789cgklopuxzABCEGKLNPQRUXZ";
pub const POSIX: [&str; 14] = [
    "alnum", "alpha", "ascii", "blank", "cntrl", "digit", "graph", "lower", "print", "punct",
    "space", "upper", "word", "xdigit",
];

/// Parses `pattern`; `Err` tells which limit or rule it breaks before reaching the engine.
pub fn parse(pattern: &str, props: &[&str]) -> Result<Parsed, PErr> {
    let mut p = P {
        s: pattern.chars().collect(),
        props,
        quirk: false,
        quant: false,
        names: vec![],
    };
    let (i, node) = match p.alt(0, 0) {
        Ok(x) => x,
        Err(F::No) => return Err(PErr::Syntax),
        Err(F::Fail(e)) => return Err(e),
    };
    if i != p.s.len() {
        return Err(PErr::Syntax);
    }
    // quantifier limits are enforced after a successful parse
    if p.quant {
        return Err(PErr::Quant);
    }
    let quirk = p.quirk;
    check(&node)?;
    let mut n = vec![];
    names(&node, &mut n);
    let total = n.len();
    n.sort();
    n.dedup();
    if n.len() != total {
        return Err(PErr::Syntax);
    }
    Ok(Parsed { node, quirk })
}
fn names(n: &Node, out: &mut Vec<String>) {
    match n {
        Node::Group(i, nm) => {
            if let Some(nm) = nm {
                out.push(nm.clone());
            }
            names(i, out)
        }
        Node::Cat(v) | Node::Alt(v) => v.iter().for_each(|x| names(x, out)),
        Node::Rep(i, ..) | Node::FlagGroup(_, _, i) => names(i, out),
        _ => {}
    }
}
fn check(n: &Node) -> Result<(), PErr> {
    match n {
        Node::Cat(v) | Node::Alt(v) => {
            for x in v {
                check(x)?
            }
        }
        Node::Rep(i, min, max, _) => {
            if max.map_or(false, |m| m < *min) {
                return Err(PErr::Syntax);
            }
            if matches!(**i, Node::Flags(..)) {
                return Err(PErr::Syntax);
            }
            check(i)?
        }
        Node::Group(i, _) | Node::FlagGroup(_, _, i) => check(i)?,
        Node::Flags(a, r) => {
            if a.is_empty() && r.is_empty() {
                return Err(PErr::Syntax);
            }
        }
        Node::Class(_, items) => {
            for it in items {
                if let Item::R(a, b) = it {
                    if a > b {
                        return Err(PErr::Syntax);
                    }
                }
            }
        }
        _ => {}
    }
    Ok(())
}

impl<'a> P<'a> {
    fn at(&self, i: usize) -> Option<char> {
        self.s.get(i).copied()
    }
    fn lit(&self, i: usize, t: &str) -> Option<usize> {
        let mut j = i;
        for c in t.chars() {
            if self.at(j) != Some(c) {
                return None;
            }
            j += 1;
        }
        Some(j)
    }
    fn alt(&mut self, i: usize, d: usize) -> R<(usize, Node)> {
        let mut out = vec![];
        let (mut i, n) = self.cat(i, d)?;
        out.push(n);
        while self.at(i) == Some('|') {
            let (j, n) = self.cat(i + 1, d)?;
            out.push(n);
            i = j;
        }
        Ok((i, if out.len() == 1 { out.pop().unwrap() } else { Node::Alt(out) }))
    }
    fn cat(&mut self, mut i: usize, d: usize) -> R<(usize, Node)> {
        let mut out = vec![];
        loop {
            match self.atom(i, d) {
                Ok((j, n)) => {
                    out.push(n);
                    i = j;
                }
                Err(F::No) => break,
                Err(e) => return Err(e),
            }
        }
        Ok((
            i,
            match out.len() {
                0 => Node::Empty,
                1 => out.pop().unwrap(),
                _ => Node::Cat(out),
            },
        ))
    }
    fn atom(&mut self, i: usize, d: usize) -> R<(usize, Node)> {
        let (j, n) = self.atom0(i, d)?;
        if let Some((k, min, max, lazy)) = self.quantifier(j) {
            match &n {
                Node::Empty => self.quirk = true,
                Node::Assert('$') | Node::Assert('Z') => self.quirk = true,
                Node::Lit(c, false) if c.is_ascii_whitespace() || *c == '\x0b' => self.quirk = true,
                _ => {}
            }
            // a quoted run: only its last character repeats
            if let Node::Cat(mut v) = n {
                let l = v.pop().unwrap();
                v.push(Node::Rep(Box::new(l), min, max, lazy));
                return Ok((k, Node::Cat(v)));
            }
            return Ok((k, Node::Rep(Box::new(n), min, max, lazy)));
        }
        Ok((j, n))
    }
    fn int(&self, mut i: usize) -> Option<(usize, u64)> {
        let s = i;
        let mut v: u64 = 0;
        while let Some(c) = self.at(i).filter(|c| c.is_ascii_digit()) {
            v = v.saturating_mul(10).saturating_add(c as u64 - 48);
            i += 1;
        }
        (i > s).then_some((i, v))
    }
    fn quantifier(&mut self, i: usize) -> Option<(usize, u32, Option<u32>, bool)> {
        let (j, min, max) = match self.at(i)? {
            '*' => (i + 1, 0, None),
            '+' => (i + 1, 1, None),
            '?' => (i + 1, 0, Some(1)),
            '{' => {
                let (j, a) = self.int(i + 1)?;
                if self.at(j) == Some('}') {
                    (j + 1, a, Some(a))
                } else if self.at(j) == Some(',') {
                    if self.at(j + 1) == Some('}') {
                        (j + 2, a, None)
                    } else {
                        let (k, b) = self.int(j + 1)?;
                        if self.at(k) != Some('}') {
                            return None;
                        }
                        (k + 1, a, Some(b))
                    }
                } else {
                    return None;
                }
            }
            _ => return None,
        };
        if min > MAX_QUANT || max.unwrap_or(0) > MAX_QUANT {
            self.quant = true;
        }
        let lazy = self.at(j) == Some('?');
        Some((
            j + lazy as usize,
            min.min(u32::MAX as u64) as u32,
            max.map(|m| m.min(u32::MAX as u64) as u32),
            lazy,
        ))
    }
    fn quoted(&self, i: usize) -> Option<(usize, Vec<char>)> {
        let j = self.lit(i, "\\Q")?;
        let mut k = j;
        while k < self.s.len() {
            if self.lit(k, "\\E").is_some() {
                return Some((k + 2, self.s[j..k].to_vec()));
            }
            k += 1;
        }
        None
    }
    fn flagset(&self, mut i: usize) -> (usize, Vec<char>, Vec<char>) {
        let (mut a, mut r) = (vec![], vec![]);
        while let Some(c) = self.at(i).filter(|c| "imsx".contains(*c)) {
            a.push(c);
            i += 1;
        }
        if self.at(i) == Some('-') {
            i += 1;
            while let Some(c) = self.at(i).filter(|c| "imsx".contains(*c)) {
                r.push(c);
                i += 1;
            }
        }
        (i, a, r)
    }
    fn atom0(&mut self, i: usize, d: usize) -> R<(usize, Node)> {
        if let Some((j, cs)) = self.quoted(i) {
            let mut v: Vec<Node> = cs.into_iter().map(|c| Node::Lit(c, true)).collect();
            return Ok((
                j,
                match v.len() {
                    0 => Node::Empty,
                    1 => v.pop().unwrap(),
                    _ => Node::Cat(v),
                },
            ));
        }
        if let Some(j) = self.lit(i, "(?") {
            let (k, a, r) = self.flagset(j);
            if self.at(k) == Some(')') {
                return Ok((k + 1, Node::Flags(a, r)));
            }
        }
        if d + 1 > MAX_DEPTH {
            return Err(F::Fail(PErr::Depth));
        }
        if self.at(i) == Some('(') {
            if let Some(j) = self.lit(i, "(?") {
                let (k, a, r) = self.flagset(j);
                if self.at(k) == Some(':') {
                    let (k, n) = self.alt(k + 1, d + 1)?;
                    if self.at(k) == Some(')') {
                        return Ok((k + 1, Node::FlagGroup(a, r, Box::new(n))));
                    }
                    return Err(F::No);
                }
                for (open, close) in [("(?<", '>'), ("(?P<", '>'), ("(?'", '\'')] {
                    if let Some(mut k) = self.lit(i, open) {
                        let s = k;
                        while let Some(c) = self.at(k) {
                            if c == '_' || c.is_ascii_alphabetic() || (k > s && c.is_ascii_digit())
                            {
                                k += 1
                            } else {
                                break;
                            }
                        }
                        if k == s || self.at(k) != Some(close) {
                            return Err(F::No);
                        }
                        let name: String = self.s[s..k].iter().collect();
                        self.names.push(name.clone());
                        let (k, n) = self.alt(k + 1, d + 1)?;
                        if self.at(k) == Some(')') {
                            return Ok((k + 1, Node::Group(Box::new(n), Some(name))));
                        }
                        return Err(F::No);
                    }
                }
                return Err(F::No);
            }
            let (k, n) = self.alt(i + 1, d + 1)?;
            if self.at(k) == Some(')') {
                return Ok((k + 1, Node::Group(Box::new(n), None)));
            }
            return Err(F::No);
        }
        for a in ['b', 'B', 'A', 'z', 'Z'] {
            if self.at(i) == Some('\\') && self.at(i + 1) == Some(a) {
                return Ok((i + 2, Node::Assert(a)));
            }
        }
        match self.at(i) {
            Some('^') => return Ok((i + 1, Node::Assert('^'))),
            Some('$') => return Ok((i + 1, Node::Assert('$'))),
            Some('.') => return Ok((i + 1, Node::Dot)),
            Some('[') => return self.bracket(i),
            Some('\\') => {
                if let Some(c) = self.at(i + 1).filter(|c| "hHvVdDsSwW".contains(*c)) {
                    return Ok((i + 2, Node::Class(false, vec![Item::Perl(c)])));
                }
                if let Some((j, it)) = self.prop(i) {
                    return Ok((j, Node::Class(false, vec![it])));
                }
            }
            _ => {}
        }
        let (j, c, esc) = self.literal(i, false)?;
        Ok((j, Node::Lit(c, esc)))
    }
    fn prop(&self, i: usize) -> Option<(usize, Item)> {
        let (neg, j) = if let Some(j) = self.lit(i, "\\p{") {
            (false, j)
        } else {
            (true, self.lit(i, "\\P{")?)
        };
        let mut k = j;
        while self.at(k).map_or(false, |c| c == '_' || c.is_ascii_alphabetic()) {
            k += 1;
        }
        let name: String = self.s[j..k].iter().collect();
        if self.at(k) != Some('}') || !self.props.contains(&name.as_str()) {
            return None;
        }
        Some((k + 1, Item::Prop(neg, name)))
    }
    fn literal(&mut self, i: usize, bracket: bool) -> R<(usize, char, bool)> {
        let c = self.at(i).ok_or(F::No)?;
        if c != '\\' {
            let deny = if bracket { "]" } else { "|[().+?*^$" };
            return if deny.contains(c) {
                Err(F::No)
            } else {
                Ok((i + 1, c, false))
            };
        }
        let c = self.at(i + 1).ok_or(F::No)?;
        let simple = match c {
            'a' => Some('\x07'),
            'b' => Some('\x08'),
            'e' => Some('\x1b'),
            'f' => Some('\x0c'),
            'n' => Some('\n'),
            'r' => Some('\r'),
            't' => Some('\t'),
            'v' => Some('\x0b'),
            _ => None,
        };
        if let Some(x) = simple {
            return Ok((i + 2, x, true));
        }
        if c == 'c' {
            if let Some(l) = self.at(i + 2).filter(|l| l.is_ascii_alphabetic()) {
                return Ok((
                    i + 3,
                    char::from_u32(l.to_ascii_lowercase() as u32 - 96).unwrap(),
                    true,
                ));
            }
        }
        if c == 'x' {
            if self.at(i + 2) == Some('{') {
                if let Some(e) = (i + 3..self.s.len()).find(|k| self.s[*k] == '}') {
                    let h = &self.s[i + 3..e];
                    let mut v: u64 = 0;
                    if h.is_empty() {
                        return Err(F::Fail(PErr::Syntax));
                    }
                    let mut h = h;
                    if h.len() > 1 && h[0] == '+' {
                        h = &h[1..];
                        self.quirk = true;
                    }
                    for x in h {
                        match x.to_digit(16) {
                            Some(dg) => v = (v << 4 | dg as u64).min(1 << 40),
                            None => return Err(F::Fail(PErr::Syntax)),
                        }
                    }
                    return match u32::try_from(v).ok().and_then(char::from_u32) {
                        Some(x) => Ok((e + 1, x, true)),
                        None => Err(F::Fail(PErr::Syntax)),
                    };
                }
            }
            let mut k = i + 2;
            let mut v = 0;
            while k < i + 4 {
                match self.at(k).and_then(|x| if x.is_ascii() { x.to_digit(16) } else { None }) {
                    Some(dg) => {
                        v = v * 16 + dg;
                        k += 1
                    }
                    None => break,
                }
            }
            return Ok((k, char::from_u32(v).unwrap(), true));
        }
        if DENY.contains(c) {
            return Err(F::No);
        }
        Ok((i + 2, c, true))
    }
    fn bracket(&mut self, i: usize) -> R<(usize, Node)> {
        let mut i = i + 1;
        let neg = self.at(i) == Some('^');
        i += neg as usize;
        let mut items = vec![];
        if self.at(i) == Some(']') {
            items.push(Item::R(']', ']'));
            i += 1;
            if self.at(i) == Some('-') && self.at(i + 1) != Some(']') {
                self.quirk = true;
            }
        }
        'next: loop {
            if self.at(i) == Some('\\') {
                if let Some(c) = self.at(i + 1).filter(|c| "dswDSWhHvV".contains(*c)) {
                    items.push(Item::Perl(c));
                    i += 2;
                    continue;
                }
            }
            if let Some((j, cs)) = self.quoted(i) {
                items.extend(cs.into_iter().map(|c| Item::R(c, c)));
                i = j;
                continue;
            }
            if let Some(mut j) = self.lit(i, "[:") {
                let n = self.at(j) == Some('^');
                j += n as usize;
                for name in POSIX {
                    if let Some(k) = self.lit(j, name).and_then(|k| self.lit(k, ":]")) {
                        items.push(Item::Posix(n, name.into()));
                        i = k;
                        continue 'next;
                    }
                }
            }
            match self.literal(i, true) {
                Ok((j, a, _)) => {
                    if self.at(j) == Some('-') {
                        let esc_class = self.at(j + 1) == Some('\\')
                            && self.at(j + 2).map_or(false, |c| "dswDSWhHV".contains(c));
                        match self.literal(j + 1, true) {
                            Ok((k, b, _)) => {
                                if esc_class {
                                    self.quirk = true;
                                }
                                items.push(Item::R(a, b));
                                i = k;
                                continue;
                            }
                            Err(F::No) => {}
                            Err(e) => return Err(e),
                        }
                    }
                    items.push(Item::R(a, a));
                    i = j;
                }
                Err(F::No) => {
                    if let Some((j, it)) = self.prop(i) {
                        items.push(it);
                        i = j;
                        continue;
                    }
                    break;
                }
                Err(e) => return Err(e),
            }
        }
        if self.at(i) != Some(']') || items.is_empty() {
            return Err(F::No);
        }
        Ok((i + 1, Node::Class(neg, items)))
    }
}

// ---------------------------------------------------------------- semantics
pub fn perl(c: char, x: char) -> bool {
    let y = match c.to_ascii_lowercase() {
        'd' => x.is_ascii_digit(),
        'w' => x.is_ascii_alphanumeric() || x == '_',
        's' => matches!(x, ' ' | '\t' | '\n' | '\r' | '\x0b' | '\x0c'),
        'h' => matches!(x, ' ' | '\t'),
        'v' => matches!(x, '\n' | '\r' | '\x0b' | '\x0c'),
        _ => unreachable!(),
    };
    y != c.is_ascii_uppercase()
}
pub fn posix(n: &str, x: char) -> bool {
    if !x.is_ascii() {
        return false;
    }
    let o = x as u32;
    match n {
        "alnum" => x.is_ascii_alphanumeric(),
        "alpha" => x.is_ascii_alphabetic(),
        "ascii" => true,
        "blank" => o == 32 || o == 9,
        "cntrl" => o < 32 || o == 127,
        "digit" => (48..58).contains(&o),
        "graph" => (33..127).contains(&o),
        "lower" => (97..123).contains(&o),
        "print" => (32..127).contains(&o),
        "punct" => (33..127).contains(&o) && !x.is_ascii_alphanumeric(),
        "space" => o == 32 || (9..14).contains(&o),
        "upper" => (65..91).contains(&o),
        "word" => x.is_ascii_alphanumeric() || o == 95,
        "xdigit" => x.is_ascii_hexdigit(),
        _ => unreachable!(),
    }
}
type Table = Arc<Vec<(u32, u32)>>;
/// Code points of a Unicode property, from the engine's own tables (trusted).
pub fn prop_table(name: &str) -> Table {
    static T: OnceLock<Mutex<HashMap<String, Table>>> = OnceLock::new();
    let m = T.get_or_init(Default::default);
    if let Some(t) = m.lock().unwrap().get(name) {
        return t.clone();
    }
    let hir = regex_syntax::parse(&format!("\\p{{{name}}}")).expect("property");
    let mut v = vec![];
    match hir.kind() {
        regex_syntax::hir::HirKind::Class(regex_syntax::hir::Class::Unicode(c)) => {
            for r in c.ranges() {
                v.push((r.start() as u32, r.end() as u32));
            }
        }
        regex_syntax::hir::HirKind::Literal(l) => {
            for c in std::str::from_utf8(&l.0).unwrap().chars() {
                v.push((c as u32, c as u32));
            }
        }
        _ => {}
    }
    let t = Arc::new(v);
    m.lock().unwrap().insert(name.into(), t.clone());
    t
}
pub fn in_table(t: &[(u32, u32)], c: char) -> bool {
    let c = c as u32;
    t.binary_search_by(|(a, b)| {
        if *b < c {
            std::cmp::Ordering::Less
        } else if *a > c {
            std::cmp::Ordering::Greater
        } else {
            std::cmp::Ordering::Equal
        }
    })
    .is_ok()
}
pub fn folds(c: char) -> Vec<char> {
    let mut v = vec![c];
    let mut l = c.to_lowercase();
    if l.len() == 1 {
        v.push(l.next().unwrap())
    }
    let mut u = c.to_uppercase();
    if u.len() == 1 {
        v.push(u.next().unwrap())
    }
    match c {
        'k' | 'K' => v.push('\u{212a}'),
        's' | 'S' => v.push('\u{17f}'),
        '\u{212a}' | '\u{17f}' => {
            let b = if c == '\u{212a}' { 'k' } else { 's' };
            v.push(b);
            v.push(b.to_ascii_uppercase())
        }
        _ => {}
    }
    v
}
enum It {
    R(char, char),
    Perl(char),
    Posix(bool, String),
    Prop(bool, Table),
}
impl It {
    fn has(&self, c: char, icase: bool) -> bool {
        let raw = |x: char| match self {
            It::R(a, b) => *a <= x && x <= *b,
            It::Perl(p) => perl(p.to_ascii_lowercase(), x),
            It::Posix(_, n) => posix(n, x),
            It::Prop(_, t) => in_table(t, x),
        };
        let pos = if icase {
            folds(c).into_iter().any(raw)
        } else {
            raw(c)
        };
        let neg = match self {
            It::Perl(p) => p.is_ascii_uppercase(),
            It::Posix(n, _) | It::Prop(n, _) => *n,
            _ => false,
        };
        pos != neg
    }
}
pub struct Pred {
    items: Vec<It>,
    neg: bool,
    icase: bool,
}
impl Pred {
    fn has(&self, c: char) -> bool {
        let h = if self.icase {
            folds(c)
                .into_iter()
                .any(|x| self.items.iter().any(|i| i.has(x, true)))
        } else {
            self.items.iter().any(|i| i.has(c, false))
        };
        h != self.neg
    }
}
enum Ins {
    P(Pred),
    Any(bool), // newline too
    Split(Vec<usize>),
    Look(char, bool), // multi-line
    Match,
}
#[derive(Clone, Copy, Default)]
struct Fl {
    i: bool,
    m: bool,
    s: bool,
    x: bool,
}
impl Fl {
    fn apply(mut self, a: &[char], r: &[char]) -> Fl {
        for (l, v) in [(a, true), (r, false)] {
            for c in l {
                match c {
                    'i' => self.i = v,
                    'm' => self.m = v,
                    's' => self.s = v,
                    'x' => self.x = v,
                    _ => unreachable!(),
                }
            }
        }
        self
    }
}
pub struct Re {
    prog: Vec<Ins>,
    start: usize,
}

/// Minimum length in characters of a match (assertions count as satisfiable).
pub fn min_len(n: &Node) -> u64 {
    min_len_fl(n, &mut Fl::default())
}
fn min_len_fl(n: &Node, f: &mut Fl) -> u64 {
    match n {
        Node::Empty | Node::Flags(..) | Node::Assert(_) => {
            if let Node::Flags(a, r) = n {
                *f = f.apply(a, r)
            }
            0
        }
        Node::Lit(c, e) => !(f.x && !e && perl('s', *c)) as u64,
        Node::Dot | Node::Class(..) => 1,
        Node::Cat(v) => v.iter().map(|x| min_len_fl(x, f)).fold(0, u64::saturating_add),
        Node::Alt(v) => {
            let l: Vec<u64> = v.iter().map(|x| min_len_fl(x, f)).collect();
            l.into_iter().min().unwrap()
        }
        Node::Rep(i, min, _, _) => min_len_fl(i, f).saturating_mul(*min as u64),
        Node::Group(i, _) => min_len_fl(i, &mut f.clone()),
        Node::FlagGroup(a, r, i) => min_len_fl(i, &mut f.apply(a, r)),
    }
}

impl Re {
    pub fn new(node: &Node) -> Re {
        let mut c = C { prog: vec![] };
        let m = c.push(Ins::Match);
        let mut f = Fl::default();
        let start = c.comp(node, &mut f, m);
        Re {
            prog: c.prog,
            start,
        }
    }
    pub fn parse(pattern: &str) -> Re {
        let props: Vec<&str> = vec![];
        Re::new(&parse(pattern, &props).unwrap_or_else(|e| panic!("{pattern}: {e:?}")).node)
    }
    /// Leftmost-first match starting at or after byte `from`.
    pub fn find(&self, t: &str, from: usize) -> Option<(usize, usize)> {
        let mut cur: Vec<(usize, usize)> = vec![]; // (pc, start)
        let mut best = None;
        let mut seen = vec![usize::MAX; self.prog.len()];
        let mut next = vec![];
        let mut pos = from;
        loop {
            if best.is_none() {
                self.add(&mut cur, &mut seen, self.start, pos, t, pos);
            }
            if cur.is_empty() && best.is_some() {
                return best;
            }
            let ch = t[pos..].chars().next();
            let np = pos + ch.map_or(0, |c| c.len_utf8());
            next.clear();
            for &(pc, st) in &cur {
                match &self.prog[pc] {
                    Ins::Match => {
                        best = Some((st, pos));
                        break;
                    }
                    Ins::P(p) => {
                        if ch.map_or(false, |c| p.has(c)) {
                            self.add(&mut next, &mut seen, pc + 0, st, t, np | NEXT);
                        }
                    }
                    Ins::Any(nl) => {
                        if ch.map_or(false, |c| *nl || c != '\n') {
                            self.add(&mut next, &mut seen, pc + 0, st, t, np | NEXT);
                        }
                    }
                    _ => {}
                }
            }
            if ch.is_none() {
                return best;
            }
            std::mem::swap(&mut cur, &mut next);
            pos = np;
        }
    }
    fn add(
        &self,
        list: &mut Vec<(usize, usize)>,
        seen: &mut [usize],
        pc: usize,
        st: usize,
        t: &str,
        pos: usize,
    ) {
        // a consuming instruction continues at the following instruction slot
        let (pc, pos) = if pos & NEXT != 0 {
            match &self.prog[pc + 1] {
                Ins::Split(v) => (v[0], pos & !NEXT),
                _ => unreachable!(),
            }
        } else {
            (pc, pos)
        };
        if seen[pc] == pos {
            return;
        }
        seen[pc] = pos;
        match &self.prog[pc] {
            Ins::Split(v) => {
                for x in v {
                    self.add(list, seen, *x, st, t, pos);
                }
            }
            Ins::Look(k, m) => {
                let prev = t[..pos].chars().next_back();
                let nx = t[pos..].chars().next();
                let w = |c: Option<char>| c.map_or(false, |c| perl('w', c));
                let ok = match k {
                    'b' => w(prev) != w(nx),
                    'B' => w(prev) == w(nx),
                    'A' => prev.is_none(),
                    'z' => nx.is_none(),
                    '^' => prev.is_none() || (*m && prev == Some('\n')),
                    'e' => nx.is_none() || (*m && nx == Some('\n')),
                    _ => unreachable!(),
                };
                if ok {
                    match &self.prog[pc + 1] {
                        Ins::Split(v) => self.add(list, seen, v[0], st, t, pos),
                        _ => unreachable!(),
                    }
                }
            }
            _ => list.push((pc, st)),
        }
    }
}
const NEXT: usize = 1 << 62;

struct C {
    prog: Vec<Ins>,
}
impl C {
    fn push(&mut self, i: Ins) -> usize {
        self.prog.push(i);
        self.prog.len() - 1
    }
    // an instruction with one continuation, stored in the slot behind it
    fn one(&mut self, i: Ins, next: usize) -> usize {
        let a = self.push(i);
        self.push(Ins::Split(vec![next]));
        a
    }
    /// Compiles `n` so that it continues at `next`; returns its entry.
    fn comp(&mut self, n: &Node, f: &mut Fl, next: usize) -> usize {
        match n {
            Node::Empty => next,
            Node::Lit(c, e) => {
                if f.x && !e && perl('s', *c) {
                    return next;
                }
                let p = Pred {
                    items: vec![It::R(*c, *c)],
                    neg: false,
                    icase: f.i,
                };
                self.one(Ins::P(p), next)
            }
            Node::Dot => {
                let s = f.s;
                self.one(Ins::Any(s), next)
            }
            Node::Class(neg, items) => {
                let p = Pred {
                    neg: *neg,
                    icase: f.i,
                    items: items
                        .iter()
                        .map(|i| match i {
                            Item::R(a, b) => It::R(*a, *b),
                            Item::Perl(c) => It::Perl(*c),
                            Item::Posix(n, s) => It::Posix(*n, s.clone()),
                            Item::Prop(n, s) => It::Prop(*n, prop_table(s)),
                        })
                        .collect(),
                };
                self.one(Ins::P(p), next)
            }
            Node::Assert('$') | Node::Assert('Z') => {
                let l = if *n == Node::Assert('Z') {
                    self.one(Ins::Look('z', false), next)
                } else {
                    self.one(Ins::Look('e', f.m), next)
                };
                let p = Pred {
                    items: vec![It::R('\n', '\n')],
                    neg: false,
                    icase: false,
                };
                let nl = self.one(Ins::P(p), l);
                self.push(Ins::Split(vec![nl, l]))
            }
            Node::Assert(k) => {
                let m = f.m;
                self.one(Ins::Look(*k, m), next)
            }
            Node::Flags(a, r) => {
                *f = f.apply(a, r);
                next
            }
            Node::Group(i, _) => self.comp(i, &mut f.clone(), next),
            Node::FlagGroup(a, r, i) => self.comp(i, &mut f.apply(a, r), next),
            Node::Alt(v) => {
                let mut e = vec![];
                for x in v {
                    e.push(self.comp(x, f, next));
                }
                self.push(Ins::Split(e))
            }
            Node::Cat(v) => {
                // flags flow left to right, code is laid out right to left
                let mut fl = vec![];
                for x in v {
                    fl.push(*f);
                    if let Node::Flags(a, r) = x {
                        *f = f.apply(a, r);
                    } else {
                        leak_flags(x, f);
                    }
                }
                let mut nx = next;
                for (x, mut g) in v.iter().zip(fl).rev() {
                    nx = self.comp(x, &mut g, nx);
                }
                nx
            }
            Node::Rep(i, min, max, lazy) => self.rep(i, *min, *max, *lazy, f, next),
        }
    }
    fn split(&mut self, a: usize, b: usize, lazy: bool) -> usize {
        self.push(Ins::Split(if lazy { vec![b, a] } else { vec![a, b] }))
    }
    fn rep(
        &mut self,
        i: &Node,
        min: u32,
        max: Option<u32>,
        lazy: bool,
        f: &mut Fl,
        next: usize,
    ) -> usize {
        let g = *f;
        let mut nx = next;
        match max {
            Some(m) => {
                // optional copies, innermost last, all leaving to `next`
                for _ in min..m {
                    let b = self.comp(i, &mut g.clone(), nx);
                    nx = self.split(b, next, lazy);
                }
                for _ in 0..min {
                    nx = self.comp(i, &mut g.clone(), nx);
                }
                nx
            }
            None => {
                let lp = self.push(Ins::Split(vec![])); // after an iteration: again or leave
                let body = self.comp(i, &mut g.clone(), lp);
                self.prog[lp] = Ins::Split(if lazy { vec![next, body] } else { vec![body, next] });
                let nullable = min_len_fl(i, &mut g.clone()) == 0;
                if min == 0 {
                    if nullable {
                        self.split(body, next, lazy)
                    } else {
                        lp
                    }
                } else {
                    nx = body;
                    for _ in 1..min {
                        nx = self.comp(i, &mut g.clone(), nx);
                    }
                    nx
                }
            }
        }
    }
}
// flags set inside an alternation that is not in a group of its own flow on; inside groups they do not
fn leak_flags(n: &Node, f: &mut Fl) {
    if let Node::Cat(v) = n {
        for x in v {
            if let Node::Flags(a, r) = x {
                *f = f.apply(a, r)
            } else {
                leak_flags(x, f)
            }
        }
    }
}

/// Prints a node in the dialect's syntax.
pub fn print(n: &Node, o: &mut String) {
    match n {
        Node::Empty => {}
        Node::Lit(c, e) => {
            if *e || "|[().+?*^$\\{".contains(*c) {
                o.push('\\')
            }
            o.push(*c)
        }
        Node::Dot => o.push('.'),
        Node::Class(neg, items) => {
            if items.len() == 1 && !neg {
                match &items[0] {
                    Item::Perl(c) => {
                        o.push('\\');
                        o.push(*c);
                        return;
                    }
                    Item::Prop(n, s) => {
                        o.push_str(&format!("\\{}{{{s}}}", if *n { 'P' } else { 'p' }));
                        return;
                    }
                    _ => {}
                }
            }
            o.push('[');
            if *neg {
                o.push('^')
            }
            for i in items {
                match i {
                    Item::R(a, b) => {
                        for (k, c) in [a, b].into_iter().enumerate() {
                            if k == 1 && a == b {
                                break;
                            }
                            if k == 1 {
                                o.push('-')
                            }
                            if "]\\[^-".contains(*c) {
                                o.push('\\')
                            }
                            o.push(*c)
                        }
                    }
                    Item::Perl(c) => {
                        o.push('\\');
                        o.push(*c)
                    }
                    Item::Posix(n, s) => o.push_str(&format!("[:{}{s}:]", if *n { "^" } else { "" })),
                    Item::Prop(n, s) => o.push_str(&format!("\\{}{{{s}}}", if *n { 'P' } else { 'p' })),
                }
            }
            o.push(']')
        }
        Node::Cat(v) => v.iter().for_each(|x| print(x, o)),
        Node::Alt(v) => {
            for (i, x) in v.iter().enumerate() {
                if i > 0 {
                    o.push('|')
                }
                print(x, o)
            }
        }
        Node::Rep(i, min, max, lazy) => {
            print(i, o);
            match (min, max) {
                (0, None) => o.push('*'),
                (1, None) => o.push('+'),
                (0, Some(1)) => o.push('?'),
                (a, Some(b)) if a == b => o.push_str(&format!("{{{a}}}")),
                (a, Some(b)) => o.push_str(&format!("{{{a},{b}}}")),
                (a, None) => o.push_str(&format!("{{{a},}}")),
            }
            if *lazy {
                o.push('?')
            }
        }
        Node::Group(i, nm) => {
            o.push('(');
            if let Some(n) = nm {
                o.push_str(&format!("?<{n}>"))
            }
            print(i, o);
            o.push(')')
        }
        Node::FlagGroup(a, r, i) => {
            o.push_str("(?");
            o.extend(a);
            if !r.is_empty() {
                o.push('-');
                o.extend(r)
            }
            o.push(':');
            print(i, o);
            o.push(')')
        }
        Node::Flags(a, r) => {
            o.push_str("(?");
            o.extend(a);
            if !r.is_empty() {
                o.push('-');
                o.extend(r)
            }
            o.push(')')
        }
        Node::Assert(c) => {
            if "bBAzZ".contains(*c) {
                o.push('\\')
            }
            o.push(*c)
        }
    }
}
