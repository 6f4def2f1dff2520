//! Generators. All randomness comes from proptest's TestRng.
use crate::env::Env;
use crate::model::{self, F, Model};
use crate::num::*;
use crate::xmlmeta::*;
pub use proptest::prelude::Rng;
pub use proptest::test_runner::TestRng;
use regex_syntax::hir::{Class, Hir, HirKind};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

pub type R = TestRng;
/// The seed of this run, for cases that name an instance prepared from a seed.
/// A generator of its own for a seed.
pub fn rng_of(seed: u64) -> R {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    R::from_seed(proptest::test_runner::RngAlgorithm::ChaCha, &b)
}
pub fn run_seed() -> i64 {
    std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1)
}
pub fn below(r: &mut R, n: usize) -> usize {
    debug_assert!(n > 0);
    (r.next_u64() % n as u64) as usize
}
pub fn range(r: &mut R, a: usize, b: usize) -> usize {
    a + below(r, b - a + 1)
}
pub fn chance(r: &mut R, pct: u32) -> bool {
    r.next_u64() % 100 < pct as u64
}
pub fn pick<'a, T>(r: &mut R, v: &'a [T]) -> &'a T {
    &v[below(r, v.len())]
}
/// index chosen by weights
pub fn weighted(r: &mut R, w: &[u32]) -> usize {
    let t: u32 = w.iter().sum();
    let mut x = (r.next_u64() % t as u64) as u32;
    for (i, k) in w.iter().enumerate() {
        if x < *k {
            return i;
        }
        x -= k;
    }
    unreachable!()
}
pub fn digit(r: &mut R) -> char {
    (b'0' + below(r, 10) as u8) as char
}
pub fn digits(r: &mut R, n: usize) -> String {
    (0..n).map(|_| digit(r)).collect()
}

// ---------- strings from regular expressions ----------
thread_local! {
    static HIR: RefCell<HashMap<String, Rc<Hir>>> = RefCell::new(HashMap::new());
}
pub fn hir(p: &str) -> Rc<Hir> {
    HIR.with(|c| {
        if let Some(h) = c.borrow().get(p) {
            return h.clone();
        }
        let h = Rc::new(regex_syntax::ParserBuilder::new().unicode(true).build().parse(p).unwrap_or_else(|e| panic!("pattern {p}: {e}")));
        c.borrow_mut().insert(p.to_string(), h.clone());
        h
    })
}
fn gen_hir(r: &mut R, h: &Hir, out: &mut String) {
    match h.kind() {
        HirKind::Empty | HirKind::Look(_) => {}
        HirKind::Literal(l) => out.push_str(std::str::from_utf8(&l.0).unwrap()),
        HirKind::Class(Class::Unicode(c)) => {
            // \d is Unicode-aware: stay with the ASCII digits if there are any
            let ascii: Vec<char> = c
                .ranges()
                .iter()
                .flat_map(|x| (x.start() as u32..=(x.end() as u32).min(127)).filter_map(char::from_u32))
                .collect();
            if ascii.is_empty() {
                let x = pick(r, c.ranges());
                out.push(x.start());
            } else {
                out.push(*pick(r, &ascii));
            }
        }
        HirKind::Class(Class::Bytes(_)) => unreachable!(),
        HirKind::Repetition(x) => {
            let max = x.max.unwrap_or(x.min + 6);
            let n = range(r, x.min as usize, max as usize);
            for _ in 0..n {
                gen_hir(r, &x.sub, out);
            }
        }
        HirKind::Capture(c) => gen_hir(r, &c.sub, out),
        HirKind::Concat(v) => {
            for x in v {
                gen_hir(r, x, out);
            }
        }
        HirKind::Alternation(v) => {
            let x = pick(r, v);
            gen_hir(r, x, out);
        }
    }
}
pub fn from_pattern(r: &mut R, p: &str) -> String {
    let h = hir(p);
    let mut s = String::new();
    gen_hir(r, &h, &mut s);
    s
}

// ---------- regions ----------
pub const ODD_REGIONS: [&str; 18] =
    ["ZZ", "001", "", "us", "gB", "USA", "XX", "AN", "EU", "U", "1", " US", "US ", "\u{DC}S", "CS", "0", "+1", "US\0"];
pub fn any_region(env: &Env, r: &mut R) -> String {
    match weighted(r, &[80, 12, 8]) {
        0 => pick(r, &env.regions).clone(),
        1 => pick(r, &ODD_REGIONS).to_string(),
        _ => pick(r, &["US", "CA", "GB", "DE", "BR", "AR", "MX", "IT", "JP", "CN", "CL", "UZ", "RU", "KZ", "AU", "AG", "FR", "IN"]).to_string(),
    }
}
/// a region likely to matter for calling code cc
pub fn region_for(env: &Env, r: &mut R, cc: i32) -> String {
    let own = env.model.regions_of(cc);
    if !own.is_empty() && chance(r, 55) {
        return if chance(r, 50) { own[0].clone() } else { pick(r, own).clone() };
    }
    any_region(env, r)
}
pub fn any_cc(env: &Env, r: &mut R) -> i32 {
    match weighted(r, &[70, 20, 10]) {
        0 => *pick(r, &env.ccs),
        1 => *pick(r, &env.shared_ccs),
        _ => odd_cc(r),
    }
}
pub fn odd_cc(r: &mut R) -> i32 {
    match below(r, 4) {
        0 => *pick(r, &[0, -1, i32::MIN, i32::MAX, 999, 210, 1000, 10, 2, 3, 1242, 801, 884, 100000, -44]),
        1 => below(r, 1000) as i32,
        2 => r.next_u64() as u32 as i32,
        _ => below(r, 12000) as i32,
    }
}

// ---------- numbers ----------
pub const TYPES: [usize; 10] = [FIXED, MOBILE, TOLLFREE, PREMIUM, SHARED, PERSONAL, VOIP, PAGER, UAN, VOICEMAIL];
/// digits matching the pattern of a description (length respected when possible)
pub fn desc_nsn(r: &mut R, t: &Terr, d: usize) -> Option<String> {
    let desc = t.d(d);
    let p = desc.pattern.as_deref().filter(|p| !p.is_empty())?;
    let mut s = String::new();
    for _ in 0..12 {
        s = from_pattern(r, p);
        if desc.lens.is_empty() || desc.lens.contains(&(s.len() as i32)) {
            break;
        }
    }
    Some(s)
}
pub fn any_terr<'a>(env: &'a Env, r: &mut R) -> &'a Terr {
    match weighted(r, &[60, 30, 10]) {
        0 => pick(r, env.terrs()),
        1 => {
            let cc = *pick(r, &env.shared_ccs);
            let reg = pick(r, env.model.regions_of(cc)).clone();
            env.model.region(&reg).unwrap()
        }
        _ => {
            let reg = *pick(r, &["US", "AR", "BR", "MX", "IT", "CL", "UZ", "CN", "DE", "GB", "AU", "JP", "CA", "ID", "CO", "RU", "KZ", "FR", "VA", "SM"]);
            env.model.region(reg).unwrap_or(&env.terrs()[0])
        }
    }
}
pub fn valid_nsn(r: &mut R, t: &Terr) -> String {
    for _ in 0..6 {
        let d = *pick(r, &TYPES);
        if let Some(s) = desc_nsn(r, t, d) {
            return s;
        }
    }
    for d in TYPES {
        if let Some(s) = desc_nsn(r, t, d) {
            return s;
        }
    }
    digits(r, 8)
}
pub fn tweak_digits(r: &mut R, s: &str) -> String {
    let mut b: Vec<char> = s.chars().collect();
    for _ in 0..range(r, 1, 2) {
        let n = b.len();
        match weighted(r, &[35, 15, 15, 15, 10, 10]) {
            0 if n > 0 => {
                let i = below(r, n);
                b[i] = digit(r);
            }
            1 => {
                let i = below(r, n + 1);
                b.insert(i, digit(r));
            }
            2 if n > 1 => {
                let i = below(r, n);
                b.remove(i);
            }
            3 => {
                for _ in 0..range(r, 1, 4) {
                    b.push(digit(r));
                }
            }
            4 => b.insert(0, '0'),
            5 if n > 2 => {
                let k = range(r, 1, 3.min(n - 1));
                b.truncate(n - k);
            }
            _ => {}
        }
    }
    b.into_iter().collect()
}
/// National digits for a territory; classes from fully valid to arbitrary.
pub fn nsn_for(env: &Env, r: &mut R, t: &Terr) -> (String, &'static str) {
    match weighted(r, &[46, 22, 8, 8, 6, 4, 6]) {
        0 => (valid_nsn(r, t), "valid"),
        1 => {
            let s = valid_nsn(r, t);
            (tweak_digits(r, &s), "near-valid")
        }
        2 => {
            let lens = &t.d(GENERAL).lens;
            let n = if lens.is_empty() { 8 } else { *pick(r, lens) };
            (digits(r, n.max(1) as usize), "possible-length")
        }
        3 => {
            let n = range(r, 1, 19);
            (digits(r, n), "random")
        }
        4 => {
            // from a leading-digits or format pattern
            let fs = if chance(r, 30) && !t.intl_formats.is_empty() { &t.intl_formats } else { &t.formats };
            if fs.is_empty() {
                (valid_nsn(r, t), "valid")
            } else {
                let f = pick(r, fs);
                let p = if !f.leading.is_empty() && chance(r, 50) {
                    let l = pick(r, &f.leading);
                    let mut s = from_pattern(r, l);
                    let want = *pick(r, &t.d(GENERAL).lens.iter().map(|x| *x as usize).chain([9]).collect::<Vec<_>>());
                    while s.len() < want {
                        s.push(digit(r));
                    }
                    s
                } else {
                    from_pattern(r, &f.pattern)
                };
                (p, "format-pattern")
            }
        }
        5 => {
            let z = range(r, 1, 4);
            let s = valid_nsn(r, t);
            (format!("{}{}", "0".repeat(z), s), "zeros")
        }
        _ => {
            // number of another territory, same digits
            let o = pick(r, env.terrs());
            (valid_nsn(r, o), "foreign")
        }
    }
}
pub const LONG: [usize; 16] = [64, 100, 127, 128, 129, 200, 249, 250, 251, 254, 255, 256, 257, 500, 512, 1025];
/// `unit` repeated up to a length (in bytes, about) where a limit might sit
pub fn stretch(r: &mut R, unit: &str) -> String {
    let l = *pick(r, &LONG) + below(r, 3);
    unit.repeat(l / unit.len().max(1))
}
/// a separator run, leading or trailing text put into s that makes it long
pub fn lengthen(r: &mut R, s: &str) -> String {
    let c: Vec<char> = s.chars().collect();
    let i = range(r, 1, c.len().max(1)).min(c.len());
    let (a, b): (String, String) = (c[..i].iter().collect(), c[i..].iter().collect());
    match below(r, 6) {
        0 | 1 => {
            let x = { let u = *pick(r, &SEP); stretch(r, u) };
            format!("{a}{x}{b}")
        }
        2 => {
            let x = { let u = *pick(r, &["call ", " ", "a", "\u{E9}", ":", "(", "+", "\u{FF0B}"]); stretch(r, u) };
            format!("{x}{s}")
        }
        3 => {
            let x = { let u = *pick(r, &[" ", ".", " abc", "/x1", "-", "\u{E9}", ")", "0", "1"]); stretch(r, u) };
            format!("{s}{x}")
        }
        4 => {
            let x = { let u = *pick(r, &[";a=b", ";isub=1", "a", ".a", "1", "a-"]); stretch(r, u) };
            format!("{s}{}{x}", pick(r, &["", ";phone-context=a", ";phone-context=+1", ";isub=", ";ext=1;b=c"]))
        }
        _ => {
            let mut x = String::new();
            while x.len() < 260 {
                x.push_str(pick(r, &SEP));
            }
            format!("{a}{x}{b}")
        }
    }
}
pub fn ext_digits(r: &mut R) -> String {
    let n = match weighted(r, &[60, 30, 10]) {
        0 => range(r, 1, 6),
        1 => range(r, 7, 20),
        _ => *pick(r, &[1, 6, 7, 9, 10, 15, 16, 20]),
    };
    digits(r, n)
}
/// Well-formed numbers (as parsing could produce them), of every class.
pub fn number(env: &Env, r: &mut R) -> (Num, &'static str) {
    let t = any_terr(env, r);
    let (mut nsn, class) = nsn_for(env, r, t);
    if nsn.len() > 19 {
        nsn.truncate(19);
    }
    let mut n = Num::from_nsn(t.cc, &nsn);
    if chance(r, 25) {
        n.ext = Some(ext_digits(r));
    }
    (n, class)
}
pub fn valid_number(env: &Env, r: &mut R) -> Num {
    for _ in 0..8 {
        let t = any_terr(env, r);
        let s = valid_nsn(r, t);
        let n = Num::from_nsn(t.cc, &s);
        if env.model.valid(&n) {
            return n;
        }
    }
    Num::from_nsn(41, "446681800")
}
/// Arbitrary field values, consistent or not.
pub fn wild_number(env: &Env, r: &mut R) -> Num {
    let mut n = if chance(r, 60) { number(env, r).0 } else { Num::default() };
    if chance(r, 40) {
        n.cc = any_cc(env, r);
    }
    if chance(r, 40) {
        n.nn = match below(r, 6) {
            0 => 0,
            1 => below(r, 100) as u64,
            2 => r.next_u64(),
            3 => u64::MAX - below(r, 3) as u64,
            4 => 10u64.pow(range(r, 0, 19) as u32),
            _ => {
                let k = range(r, 1, 18);
                digits(r, k).parse().unwrap()
            }
        };
    }
    if chance(r, 30) {
        n.ilz = Some(chance(r, 70));
    }
    if chance(r, 30) {
        n.nlz = Some(if chance(r, 30) { range(r, 0, 20) as i32 } else { *pick(r, &[0, 1, 2, 3, 5, 16, 17, 60, 300, -1, -5, i32::MIN]) });
    }
    if chance(r, 30) {
        n.ext = Some(match below(r, 4) {
            0 => String::new(),
            1 => ext_digits(r),
            2 => "\u{661}\u{662}".into(),
            _ => soup(env, r, 3),
        });
    }
    if chance(r, 45) {
        n.raw = Some(match below(r, 6) {
            0 => String::new(),
            1 | 2 => {
                let (t, _) = spelled(env, r, &n);
                t
            }
            3 => "\u{FF0B}\u{FF11}\u{661}\u{1F600}".into(),
            _ => soup(env, r, 6),
        });
    }
    if chance(r, 45) {
        n.src = Some(*pick(r, &ALL_SRC));
    }
    if chance(r, 25) {
        n.carrier = Some(carrier(env, r));
    }
    if chance(r, 3) {
        match below(r, 3) {
            0 => {
                let x = { let u = *pick(r, &["1", "0", "a", "\u{661}", "12 "]); stretch(r, u) };
                n.ext = Some(x)
            }
            1 => {
                let x = n.raw.clone().filter(|x| !x.is_empty()).unwrap_or("020 7031 3000".into());
                n.raw = Some(lengthen(r, &x))
            }
            _ => {
                let x = { let u = *pick(r, &["1", "$1", " ", "\u{E9}"]); stretch(r, u) };
                n.carrier = Some(x)
            }
        }
    }
    n
}
pub fn carrier(env: &Env, r: &mut R) -> String {
    match below(r, 8) {
        0 => String::new(),
        1 => "15".into(),
        2 => "$1".into(),
        3 => "a b".into(),
        4 => "$CC".into(),
        5 => soup(env, r, 2),
        6 => "0\\1{$0}".into(),
        _ => {
            let n = range(r, 1, 4);
            digits(r, n)
        }
    }
}

// ---------- texts ----------
pub const SCRIPTS: [u32; 12] = [0xFF10, 0x660, 0x6F0, 0x966, 0x9E6, 0xE50, 0x1040, 0x17E0, 0x1810, 0x1D7CE, 0x104A0, 0x7C0];
pub fn script_digit(c: char, base: u32) -> char {
    char::from_u32(base + (c as u32 - '0' as u32)).unwrap()
}
/// punctuation accepted inside numbers
pub const SEP: [&str; 31] = [
    " ", "-", ".", "(", ")", "/", "~", "\u{2010}", "\u{2011}", "\u{2013}", "\u{2015}", "\u{2212}", "\u{30FC}", "\u{FF0D}", "\u{FF0E}",
    "\u{FF0F}", "\u{A0}", "\u{AD}", "\u{200B}", "\u{2060}", "\u{3000}", "\u{FF08}", "\u{FF09}", "[", "]", "\u{2053}", "\u{223C}",
    "\u{2012}", "\u{2014}", "\u{FF3B}", "\u{FF3D}",
];
pub const TOKENS: [&str; 92] = [
    "+", "\u{FF0B}", "++", "0", "1", "2", "00", "011", "5", "7", "44", "1-800", "650", "2530000", "12", "123", "1234567", "99999999999", "tel:",
    ";phone-context=", ";ext=", ";isub=", ";phone-context=+1", ";phone-context=example.com", ";phone-context=+", ";phone-context=a-", ";phone",
    "ext", "ext.", " extn", "x", "X", "#", "*", "~", "int", "anexo", "extensi\u{F3}n", "extensio\u{301}n", "\u{434}\u{43E}\u{431}", "\u{FF58}", "\u{FF45}\u{FF58}\u{FF54}",
    ",", ",,", ";", ",,,", " ", "-", "(", ")", "[", "]", ".", "/", "/x", "\\", "\\ x", "/ x", "\u{A0}", "\u{3000}", "\u{2013}", "\u{200B}",
    "\u{661}\u{662}\u{663}", "\u{FF11}\u{FF12}", "\u{1D7CE}", "\u{96A}", "a", "A", "abc", "FLOWERS", "\u{E9}", "\u{DF}", "\u{1F600}", "\u{301}", "\0", "\n", "\t", "\r\n", "\u{B2}",
    "\u{2460}", "\u{216B}", "$", "$1", "_", "=", "&", "%20", ":", "\u{FF1A}", "\u{202E}", "\u{3007}", "1",
];
pub fn soup(env: &Env, r: &mut R, max: usize) -> String {
    let n = range(r, 0, max);
    let mut s = String::new();
    for _ in 0..n {
        match weighted(r, &[60, 25, 5, 10]) {
            0 => s.push_str(pick(r, &TOKENS)),
            1 => {
                let k = range(r, 1, 5);
                s.push_str(&digits(r, k))
            }
            2 => s.push(any_char(r)),
            _ => {
                let cc = *pick(r, &env.ccs);
                s.push_str(&cc.to_string())
            }
        }
    }
    s
}
pub fn any_char(r: &mut R) -> char {
    loop {
        let u = match below(r, 5) {
            0 => below(r, 128) as u32,
            1 => below(r, 0x3000) as u32,
            2 => 0xFF00 + below(r, 256) as u32,
            3 => below(r, 0x110000) as u32,
            _ => {
                let (a, b) = *pick(r, &model::ND);
                a + below(r, (b - a + 1) as usize) as u32
            }
        };
        if let Some(c) = char::from_u32(u) {
            return c;
        }
    }
}
pub fn mutate_text(env: &Env, r: &mut R, s: &str) -> String {
    let mut c: Vec<char> = s.chars().collect();
    for _ in 0..range(r, 1, 3) {
        let n = c.len();
        match weighted(r, &[25, 20, 20, 10, 10, 15]) {
            0 if n > 0 => {
                c.remove(below(r, n));
            }
            1 => {
                let i = below(r, n + 1);
                let t: Vec<char> = pick(r, &TOKENS).chars().collect();
                c.splice(i..i, t);
            }
            2 => {
                let i = below(r, n + 1);
                c.insert(i, digit(r));
            }
            3 if n > 0 => {
                let i = below(r, n);
                c[i] = any_char(r);
            }
            4 if n > 1 => {
                let i = below(r, n);
                let j = range(r, i, (i + 4).min(n - 1));
                let seg: Vec<char> = c[i..=j].to_vec();
                let k = below(r, n + 1);
                c.splice(k..k, seg);
            }
            5 if n > 1 => {
                let i = below(r, n);
                let j = below(r, n);
                c.swap(i, j);
            }
            _ => {
                let t = soup(env, r, 2);
                c.extend(t.chars());
            }
        }
    }
    c.into_iter().collect()
}
/// insert separators between characters
pub fn punctuate(r: &mut R, s: &str, pct: u32) -> String {
    let mut o = String::new();
    for (i, ch) in s.chars().enumerate() {
        if i > 0 && chance(r, pct) {
            o.push_str(pick(r, &SEP));
            if chance(r, 10) {
                o.push_str(pick(r, &SEP));
            }
        }
        o.push(ch);
    }
    o
}
pub fn any_script(r: &mut R) -> u32 {
    if chance(r, 50) {
        return *pick(r, &SCRIPTS);
    }
    let (a, b) = *pick(r, &model::ND);
    a + 10 * below(r, (b - a + 1) as usize / 10) as u32
}
pub fn rescript(r: &mut R, s: &str) -> String {
    let all = chance(r, 50);
    let base = any_script(r);
    s.chars()
        .map(|c| {
            if c.is_ascii_digit() && (all || chance(r, 30)) {
                script_digit(c, base)
            } else {
                c
            }
        })
        .collect()
}
pub fn vanity(r: &mut R, s: &str, keep: usize) -> String {
    let mut k = 0;
    s.chars()
        .map(|c| {
            if c.is_ascii_digit() {
                k += 1;
            }
            if k > keep && ('2'..='9').contains(&c) && chance(r, 70) {
                let l = match c {
                    '2' => "ABC",
                    '3' => "DEF",
                    '4' => "GHI",
                    '5' => "JKL",
                    '6' => "MNO",
                    '7' => "PQRS",
                    '8' => "TUV",
                    _ => "WXYZ",
                };
                let b = l.as_bytes()[below(r, l.len())] as char;
                if chance(r, 40) { b.to_ascii_lowercase() } else { b }
            } else {
                c
            }
        })
        .collect()
}
pub const EXT_LABELS: [&str; 40] = [
    ";ext=", " ext. ", " ext ", "ext", "EXT:", " x", "x", " X ", " xt ", " extn ", " extension ", " extensi\u{F3}n ", " extensio\u{301}n: ",
    " \u{FF45}\u{FF58}\u{FF54}\u{FF4E} ", "\u{FF58}\u{FF54}", " \u{434}\u{43E}\u{431} ", " \u{414}\u{41E}\u{411}. ", " anexo ", "#", " # ", "\u{FF03}", "~",
    "\u{FF5E}", " int ", "int. ", "\u{FF49}\u{FF4E}\u{FF54} ", ",,", ", , ", ";", " ; ", ",", ",,,,", " - ", "-", " ", "--", ",ext=", " extn:", "\u{A0}x\u{FF0E}", "\tx, ",
];
pub fn idd_of(r: &mut R, t: &Terr) -> Option<String> {
    let p = t.intl_prefix.as_deref()?;
    if let Some(f) = t.pref_intl.as_deref().filter(|_| chance(r, 30)) {
        return Some(f.chars().filter(|c| c.is_ascii_digit()).collect());
    }
    Some(from_pattern(r, p))
}
pub fn nat_prefix_of(r: &mut R, t: &Terr) -> String {
    match (t.np_parsing.as_deref(), t.nat_prefix.as_deref()) {
        (Some(p), Some(n)) => {
            if chance(r, 50) {
                from_pattern(r, p)
            } else {
                n.to_string()
            }
        }
        (Some(p), None) => from_pattern(r, p),
        (None, Some(n)) => n.to_string(),
        _ => pick(r, &["0", "1", "8", "", "00"]).to_string(),
    }
}
/// A textual spelling of a number together with a default region under which it makes sense.
pub fn spelled(env: &Env, r: &mut R, n: &Num) -> (String, String) {
    let m = &env.model;
    let nsn = n.nsn();
    let own = region_for(env, r, n.cc);
    let main = m.main_region(n.cc).to_string();
    let plain = n.plain();
    match weighted(r, &[10, 10, 14, 6, 12, 10, 14, 10, 6, 4, 4]) {
        0 => (format!("+{}{}", n.cc, nsn), any_region(env, r)),
        1 => (m.format(&plain, F::Intl), any_region(env, r)),
        2 => (m.format(&plain, F::Nat), if chance(r, 70) { main } else { own }),
        3 => (m.format(&plain, F::Rfc), any_region(env, r)),
        4 => {
            let reg = any_region(env, r);
            let idd = m.region(&reg).and_then(|t| idd_of(r, t)).unwrap_or("00".into());
            (format!("{idd}{}{}{}", pick(r, &["", " ", "-", "~"]), n.cc, nsn), reg)
        }
        5 => (format!("{}{}{}", n.cc, pick(r, &["", " ", "-"]), nsn), own),
        6 => {
            let reg = if chance(r, 60) { own } else { main };
            let np = m.region(&reg).map(|t| nat_prefix_of(r, t)).unwrap_or_default();
            (format!("{np}{nsn}"), reg)
        }
        7 => (nsn, own),
        8 => {
            let reg = any_region(env, r);
            (m.out_of_country(&plain, &reg), reg)
        }
        9 => {
            let reg = if chance(r, 60) { own } else { main };
            let np = m.region(&reg).map(|t| nat_prefix_of(r, t)).unwrap_or_default();
            (format!("{}{np}{nsn}", n.cc), reg)
        }
        _ => {
            let reg = any_region(env, r);
            let idd = m.region(&reg).and_then(|t| idd_of(r, t)).unwrap_or("00".into());
            let np = m.region(&main).map(|t| nat_prefix_of(r, t)).unwrap_or_default();
            (
                match below(r, 4) {
                    0 => format!("+{idd}{}{}", n.cc, nsn),
                    1 => format!("+{} ({np}) {}", n.cc, nsn),
                    2 => format!("{idd}{}({np}){}", n.cc, nsn),
                    _ => format!("+{}{}", n.cc, tweak_digits(r, &nsn)),
                },
                reg,
            )
        }
    }
}
pub const DOMAINS: [&str; 14] = [
    "example.com", "a", "www.PHONE-a.b1.com.", "3phone.J.A.", "phone-context", "x--y", "a1", "domain.a", "1a.b", "\u{661}.a", "host", "A.b-c", "a.1b", "b-",
];
pub fn phone_context(env: &Env, r: &mut R) -> String {
    match weighted(r, &[35, 10, 25, 15, 15]) {
        0 => format!("+{}", pick(r, &env.ccs)),
        1 => {
            let k = range(r, 1, 8);
            let d = digits(r, k);
            format!("+{}", punctuate_ascii(r, &d))
        }
        2 => pick(r, &DOMAINS).to_string(),
        3 => pick(r, &["", "+", "+-", "+(", "64", "a.", "-a", "a-", ".a", "a..b", "1", "a.1", "\u{FF0B}1", "+1a", " +1", "+ 1", "+\u{FF11}", "+1 ", "a_b", "\u{E9}.fr"]).to_string(),
        _ => soup(env, r, 3),
    }
}
pub fn punctuate_ascii(r: &mut R, s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        if chance(r, 20) {
            o.push(*pick(r, &['-', '.', '(', ')']));
        }
        o.push(c);
    }
    o
}
pub fn rfc3966(env: &Env, r: &mut R, n: &Num) -> (String, String) {
    let nsn = n.nsn();
    let reg = region_for(env, r, n.cc);
    let mut s = String::new();
    if chance(r, 15) {
        s.push_str(pick(r, &["  ", "call ", "+1 ", "x", "Tel:", "TEL:"]));
    }
    if chance(r, 80) {
        s.push_str("tel:");
    }
    let local = match below(r, 4) {
        0 => format!("+{}{}", n.cc, nsn),
        1 => format!("{}{}", env.model.region(&reg).map(|t| nat_prefix_of(r, t)).unwrap_or_default(), nsn),
        2 => punctuate_ascii(r, &nsn),
        _ => nsn,
    };
    s.push_str(&local);
    let mut params: Vec<String> = vec![];
    if chance(r, 75) {
        params.push(if chance(r, 50) { format!(";phone-context=+{}", n.cc) } else { format!(";phone-context={}", phone_context(env, r)) });
    }
    if chance(r, 30) {
        let k = range(r, 1, 8);
        params.push(format!(";ext={}", digits(r, k)));
    }
    if chance(r, 25) {
        params.push(format!(";isub={}", pick(r, &["1", "12345", "abc", "", "1;x=2"])));
    }
    if chance(r, 25) {
        params.push(pick(r, &[";a=b", ";x", ";phone-context=+1", ";tsp=a.b", ";tel:", ";phone-context=a.b", ";ext=12", ";"]).to_string());
    }
    // any order
    for i in (1..params.len()).rev() {
        let j = below(r, i + 1);
        params.swap(i, j);
    }
    for p in params {
        s.push_str(&p);
    }
    (s, reg)
}
/// Text and default region, biased towards almost-numbers. Returns class too.
pub fn text_case(env: &Env, r: &mut R) -> (String, String, &'static str) {
    match weighted(r, &[52, 14, 12, 8, 10, 4]) {
        0 => {
            let (n, _) = number(env, r);
            let (mut s, reg) = spelled(env, r, &n);
            if chance(r, 25) {
                s = punctuate(r, &s, 20);
            }
            if chance(r, 12) {
                s = rescript(r, &s);
            }
            if chance(r, 10) {
                let k = range(r, 2, 6);
                s = vanity(r, &s, k);
            }
            if chance(r, 15) {
                s = format!("{s}{}{}{}", pick(r, &EXT_LABELS), ext_digits(r), pick(r, &["", "", "#"]));
            }
            if chance(r, 6) {
                s = format!("{}{s}", pick(r, &["call ", "(", "  ", "T: ", "\u{FF0B}", "+", "+ "]));
            }
            if chance(r, 8) {
                s = format!("{s}{}", pick(r, &[" ", ".", ")", "/x23", " / x2", " abc", "*", "#", "\n", "\u{301}", "_"]));
            }
            if chance(r, 3) {
                s = lengthen(r, &s);
            }
            (s, reg, "spelled")
        }
        1 => {
            let (n, _) = number(env, r);
            let (s, reg) = spelled(env, r, &n);
            let s = if chance(r, 30) { punctuate(r, &s, 15) } else { s };
            (mutate_text(env, r, &s), reg, "mutated")
        }
        2 => {
            let (n, _) = number(env, r);
            let (s, reg) = rfc3966(env, r, &n);
            if chance(r, 5) {
                return (lengthen(r, &s), reg, "rfc3966-long");
            }
            if chance(r, 15) { (mutate_text(env, r, &s), reg, "rfc3966-mutated") } else { (s, reg, "rfc3966") }
        }
        3 => (soup(env, r, 9), any_region(env, r), "soup"),
        4 => {
            // digit strings near the decision boundaries of one region
            let t = any_terr(env, r);
            let reg = if t.id == "001" { any_region(env, r) } else { t.id.clone() };
            let t = env.model.region(&reg).unwrap_or(t);
            let mut s = String::new();
            if chance(r, 30) {
                s.push_str(&t.cc.to_string());
            }
            if chance(r, 60) {
                s.push_str(&nat_prefix_of(r, t));
            }
            let (n, _) = nsn_for(env, r, t);
            s.push_str(&n);
            if chance(r, 20) {
                s = tweak_digits(r, &s);
            }
            (s, reg, "digits")
        }
        _ => {
            let n = range(r, 1, 12);
            let s: String = (0..n).map(|_| any_char(r)).collect();
            (s, any_region(env, r), "unicode")
        }
    }
}
pub fn fill_source(r: &mut R, n: &mut Num) {
    n.src = Some(*pick(r, &ALL_SRC));
}
pub fn possible(env: &Env, n: &Num) -> bool {
    env.model.possible(n) == model::L::Possible
}
#[allow(dead_code)]
pub fn touch(_: &Model) {}
