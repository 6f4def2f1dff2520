//! C30: memory held after calls.
use crate::call;
use crate::case::Case;
use crate::env::Env;
use crate::props_num::related;
use crate::gens::*;
use crate::run::*;
use rlibphonenumber::PhoneNumberUtil;
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;

/// Counts what a thread has allocated and not given back.
pub struct Counting;
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static BLOCKS: Cell<i64> = const { Cell::new(0) };
}
fn add(n: i64, k: i64) {
    let _ = BLOCKS.try_with(|l| l.set(l.get() + k));
    let _ = LIVE.try_with(|l| l.set(l.get() + n));
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        unsafe { System.alloc(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        add(-(l.size() as i64), -1);
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        add(l.size() as i64, 1);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        add(n as i64 - l.size() as i64, 0);
        unsafe { System.realloc(p, l, n) }
    }
}
fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// bytes and blocks that a call leaves allocated
fn left_by(f: impl FnOnce()) -> (i64, i64) {
    let (a, b) = (live(), BLOCKS.with(|l| l.get()));
    f();
    (live() - a, BLOCKS.with(|l| l.get()) - b)
}

pub const KINDS: [&str; 6] = ["text", "uri", "bad", "raw", "num", "tables"];
fn one(env: &Env, u: &PhoneNumberUtil, regions: &[String], kind: &str, r: &mut R) -> (i64, i64) {
    // inputs are made, and dropped, outside the measured part
    let reg = pick(r, regions).clone();
    let ts: Vec<_> = env.terrs().iter().filter(|t| t.key() == reg || t.id == reg).collect();
    let t = *pick(r, &ts);
    let (s, _) = nsn_for(env, r, t);
    let mut n = crate::num::Num::from_nsn(t.cc, &s);
    let k = 10u64.pow(if chance(r, 50) { below(r, 5) } else { 9 } as u32);
    n.nn = n.nn - n.nn % k + below(r, k as usize) as u64;
    if chance(r, 30) {
        n.ext = Some(digits(r, 7));
    }
    match kind {
        "text" => {
            let (s, reg) = spelled(env, r, &n);
            let s = if chance(r, 30) { punctuate(r, &s, 15) } else { s };
            // never the same text again: the last digits are drawn anew
            let mut last = if chance(r, 50) { 5 } else { 12 };
            let s: Vec<char> = s.chars().rev().map(|c| if c.is_ascii_digit() && last > 0 { last -= 1; (b'0' + below(r, 10) as u8) as char } else { c }).collect();
            let s: String = s.into_iter().rev().collect();
            left_by(|| drop((u.parse(&s, &reg).is_ok(), u.parse_and_keep_raw_input(&s, &reg).is_ok(), u.is_alpha_number(&s), u.convert_alpha_characters_in_number(&s))))
        }
        // what only some texts reach, and nothing else
        "uri" => {
            let word = |r: &mut R| (0..range(r, 1, 9)).map(|_| (b'a' + below(r, 26) as u8) as char).collect::<String>();
            let ctx = match below(r, 4) {
                0 => format!("+{}", t.cc),
                1 => format!("{}.{}", word(r), word(r)),
                2 => format!("+{}-{}", t.cc, digits(r, 3)),
                _ => format!("{}..{}", word(r), digits(r, 4)),
            };
            let sub = if chance(r, 50) { format!(";isub={}", digits(r, 5)) } else { format!(";ext={}", digits(r, 5)) };
            let s = if chance(r, 50) { format!("tel:{};phone-context={ctx}{sub}", n.nsn()) } else { format!("tel:{}{sub};phone-context={ctx}", n.nsn()) };
            left_by(|| drop((u.parse(&s, &reg).is_ok(), u.parse_and_keep_raw_input(&s, &reg).is_ok())))
        }
        "bad" => {
            let k = range(r, 1, 6);
            let s = match below(r, 6) {
                0 => digits(r, 2),
                1 => format!("+{}{}", t.cc, digits(r, 1)),
                2 => format!("{}{}{}", n.nsn(), digits(r, 9), digits(r, 9)),
                3 => format!("+{}{}", pick(r, &["0", "999", "210", "384", "80"]), n.nsn()),
                4 => (0..k).map(|_| char::from_u32(range(r, 0x20, 0x2FF) as u32).unwrap_or('x')).collect(),
                _ => n.nsn(),
            };
            let other: String = if chance(r, 50) { reg.clone() } else { (0..k).map(|_| (b'A' + below(r, 26) as u8) as char).collect() };
            left_by(|| drop((u.parse(&s, &other).is_ok(), u.parse_and_keep_raw_input(&s, &other).is_ok(), u.is_alpha_number(&s))))
        }
        "raw" => {
            let home = pick(r, regions).split('/').next().unwrap().to_string();
            let from = pick(r, regions).split('/').next().unwrap().to_string();
            let (s, reg) = spelled(env, r, &n);
            // under the case's regions only: there is more to meet than in the other kinds
            let (s, reg) = if regions.iter().any(|k| k.split('/').next() == Some(reg.as_str())) { (s, reg) } else { (format!("+{}{}", n.cc, n.nsn()), home) };
            let s = if chance(r, 50) { punctuate(r, &s, 15) } else { s };
            left_by(|| {
                if let Ok(p) = u.parse_and_keep_raw_input(&s, &reg) {
                    drop((u.format_in_original_format(&p, &from).to_string(), u.format_out_of_country_keeping_alpha_chars(&p, &from).to_string()));
                    drop((u.format_number_for_mobile_dialing(&p, &from, true).to_string(), u.is_number_match(&p, &p.clone())));
                }
            })
        }
        "num" => {
            let c = digits(r, 3);
            let o = related(env, r, &n);
            left_by(|| drop(call::profile(u, &n, &reg, &c, &o)))
        }
        _ => {
            let s: String = if chance(r, 5) { reg.split('/').next().unwrap().to_string() } else { (0..range(r, 3, 8)).map(|_| (b'A' + below(r, 26) as u8) as char).collect() };
            let cc = below(r, 1 << 20) as i32;
            left_by(|| {
                drop((u.get_country_code_for_region(&s), u.get_region_code_for_country_code(cc).to_string(), u.is_nanpa_country(&s)));
                drop((u.get_example_number(&s).is_ok(), u.is_alpha_number(&s), u.convert_alpha_characters_in_number(&s)));
                drop(u.get_region_codes_for_country_code(cc).map(|i| i.count()));
            })
        }
    }
}
/// Calls per stretch. A calm stretch adds less than so many bytes and blocks (thousandths) a call;
/// regular expressions keep the automaton states they have met, which ebbs away.
fn calls_of(kind: &str) -> usize {
    if matches!(kind, "text" | "uri" | "bad" | "raw") { 40_000 } else { 8_000 }
}
fn calm(kind: &str) -> (i64, i64) {
    if kind == "raw" { (300, 250) } else { (100, 80) }
}
fn c30_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let has = |k: &str| env.terrs().iter().any(|t| t.key() == k);
    let regions: Vec<String> = c.region.split_whitespace().filter(|k| has(k)).map(str::to_string).collect();
    if regions.is_empty() || !KINDS.contains(&c.s.as_str()) {
        return Ok(());
    }
    let kind = c.s.as_str();
    match c.k.as_str() {
        "grow" => {
            st.hit();
            st.class(&format!("grow {kind}"));
            let (per, (bytes, blocks)) = (calls_of(kind), calm(kind));
            let r = &mut rng_of(c.i as u64);
            let u = PhoneNumberUtil::new();
            let mut win = vec![];
            for _ in 0..16 {
                let (mut g, mut k) = (0, 0);
                for _ in 0..per {
                    let x = one(env, &u, &regions, kind, r);
                    g += x.0;
                    k += x.1;
                    if g > 400_000_000 {
                        break;
                    }
                }
                // nothing is held on to in this stretch
                if win.len() > 1 && g <= bytes * per as i64 && k * 1000 <= blocks * per as i64 {
                    st.class(&format!("{kind} calm in stretch {}", win.len() + 1));
                    return Ok(());
                }
                win.push((g, k));
                if g > 400_000_000 {
                    break;
                }
            }
            fail("grows", format!("stretches of {per} {kind} calls on {} leave an instance with ever more memory: {win:?} bytes, blocks", c.region))
        }
        "drop" => {
            st.hit();
            st.class(&format!("drop {kind}"));
            let mut left = vec![];
            for _ in 0..4 {
                // the same calls each time: what is shared between instances is there after the first
                let r = &mut rng_of(c.i as u64);
                let a = live();
                let u = PhoneNumberUtil::new();
                let mut g = live() - a;
                for _ in 0..40 {
                    g += one(env, &u, &regions, kind, r).0;
                }
                let a = live();
                drop(u);
                g += live() - a;
                if !left.is_empty() && g < 4096 {
                    return Ok(());
                }
                left.push(g);
            }
            fail("dropped", format!("new instances used for {kind} calls on {} and dropped leave memory behind: {left:?} bytes", c.region))
        }
        _ => Ok(()),
    }
}
fn regions(env: &Env, r: &mut R) -> String {
    let k = range(r, 1, 3);
    (0..k).map(|_| any_terr(env, r).key()).collect::<Vec<_>>().join(" ")
}
fn c30_gen(env: &Env, r: &mut R) -> Case {
    let (k, s) = (*pick(r, &["grow", "drop", "drop"]), *pick(r, &["num", "num", "tables"]));
    Case::new(k).i(below(r, 1 << 40) as i64).s(if k == "drop" { *pick(r, &KINDS) } else { s }).region(regions(env, r))
}
fn c30_sys(env: &Env, th: bool) -> Vec<Case> {
    let r = &mut rng_of(run_seed() as u64 ^ 0xC30);
    let mut v = vec![];
    for _ in 0..if th { 40 } else { 2 } {
        for k in ["text", "uri", "bad", "raw"] {
            v.push(Case::new("grow").i(below(r, 1 << 40) as i64).s(k).region(regions(env, r)));
        }
    }
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C30",
        rule: "instances of their own, asked about ever new generated texts, numbers and names of one to three territories in stretches of 8 or 40 thousand calls, with the bytes and blocks each call leaves allocated added up by a counting allocator; and instances made, used and dropped again and again; non-trivial: all",
        assumptions: &["memory is what the thread has allocated through Rust's global allocator and not given back; a stretch of calls which adds less than 0.08 blocks and 100 bytes a call, with raw input 0.25 and 300 (regular expressions keep the automaton states they have met, ever fewer) shows there is no growth, one instance dropped without a trace that nothing leaks"],
        quick: 150,
        thorough: 3_000,
        systematic: c30_sys,
        exhaustive: false,
        generate: Some(c30_gen),
        check: c30_check,
        threads: 8,
    }]
}
