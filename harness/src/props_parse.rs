//! C01, C03-C08, C22: parsing.
use crate::call;
use crate::case::Case;
use crate::env::Env;
use crate::gens::*;
use crate::model::{self, F, PErr};
use crate::num::*;
use crate::run::*;
use crate::xmlmeta::*;

pub fn none(_: &Env, _: bool) -> Vec<Case> {
    vec![]
}
pub fn q(s: &str) -> String {
    format!("{s:?}")
}

/// All characters of Unicode, in blocks.
pub fn char_blocks(k: &str, thorough: bool) -> Vec<Case> {
    let mut v = vec![];
    for b in 0..(0x110000 / 256) {
        // planes 4..13 are unassigned and 15, 16 private use: a sample of them is enough in quick runs
        if !thorough && b >= 0x400 && b % 64 != 0 && !(0xE00..0xE10).contains(&b) {
            continue;
        }
        v.push(Case::new(k).i(b));
    }
    v
}
pub fn block_chars(c: &Case) -> impl Iterator<Item = char> + use<> {
    let b = c.i as u32 * 256;
    // shrunk cases carry the single character in `text`
    let one: Vec<char> = c.text.chars().collect();
    let all: Vec<char> = if one.is_empty() { (b..b + 256).filter_map(char::from_u32).collect() } else { one };
    all.into_iter()
}

// ---------------------------------------------------------------- C01
fn c01_text(env: &Env, text: &str, region: &str, st: &mut Stats) -> Res {
    let u = &env.lib;
    let a = u.parse(text, region);
    let b = u.parse(text, region);
    if a != b {
        return fail("repeat", format!("parse({text:?},{region:?}) gave {a:?} then {b:?}"));
    }
    let k = u.parse_and_keep_raw_input(text, region);
    let k2 = u.parse_and_keep_raw_input(text, region);
    if k != k2 {
        return fail("repeat-keep", format!("parse_and_keep_raw_input({text:?},{region:?}) gave {k:?} then {k2:?}"));
    }
    match &a {
        Ok(_) => st.class("ok"),
        Err(e) => st.class(&format!("err {:?}", call::perr(e))),
    }
    if !matches!(&a, Err(e) if call::perr(e) == PErr::NotANumber) {
        st.hit();
    }
    for (which, r) in [("parse", &a), ("keep", &k)] {
        let Ok(p) = r else { continue };
        let n = Num::from_lib(p);
        let ctx = || format!("{which}({text:?},{region:?}) = {n:?}");
        if !env.model.known_cc(n.cc) {
            return fail("cc-unsupported", ctx());
        }
        let nsn = n.nsn();
        if nsn.len() < 2 || nsn.len() > 17 {
            return fail("nsn-length", ctx());
        }
        if n.nlz.is_some_and(|z| z < 1 || z as usize >= nsn.len()) || (n.nlz.is_some() && n.ilz != Some(true)) {
            return fail("leading-zeros", ctx());
        }
        if u.get_national_significant_number(p) != nsn {
            return fail("nsn-differs", ctx());
        }
        if let Some(e) = &n.ext {
            let l = e.chars().count();
            if l < 1 || l > 20 || !e.chars().all(|c| model::dec(c).is_some()) {
                return fail("extension", ctx());
            }
            st.class("with extension");
        }
        if which == "parse" && (n.raw.is_some() || n.src.is_some() || n.carrier.is_some()) {
            return fail("raw-fields-without-keep", ctx());
        }
        if n.ilz == Some(true) {
            st.class("with leading zeros");
        }
    }
    Ok(())
}
fn c01_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    if c.k == "chars" {
        for ch in block_chars(c) {
            for t in [format!("{ch}"), format!("+41 44 668{ch}1800"), format!("044{ch}6681800{ch}"), format!("0446681800{ch}12"), format!("{ch}{ch}{ch}")] {
                c01_text(env, &t, "CH", st)?;
            }
        }
        return Ok(());
    }
    if c.k == "long" {
        return c01_text(env, &c.text.repeat(c.i as usize), &c.region, st);
    }
    c01_text(env, &c.text, &c.region, st)
}
fn c01_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v = char_blocks("chars", th);
    for t in TOKENS {
        for n in [1, 2, 3, 50, 2000] {
            for r in ["US", "ZZ"] {
                v.push(Case::new("long").text(t).region(r).i(n));
            }
        }
    }
    // every ordered triple of RFC3966 / extension tokens
    let tk = ["tel:", ";phone-context=", ";ext=", ";isub=", "+", "12", "123456789", "a.b", ";", "x", ""];
    for a in tk {
        for b in tk {
            for c in tk {
                for d in tk {
                    v.push(Case::new("text").text(format!("{a}{b}{c}{d}")).region("US"));
                }
            }
        }
    }
    for r in env.regions.iter().map(|s| s.as_str()).chain(ODD_REGIONS) {
        for t in ["+", "0", "00", "011", "12", "+1", "0012", "1234567", "+0044", "0000000000", "+800", "00000000000000000", "99999999999999999999"] {
            v.push(Case::new("text").text(t).region(r));
        }
    }
    v
}
fn c01_gen(env: &Env, r: &mut R) -> Case {
    match weighted(r, &[40, 30, 10, 15, 5]) {
        0 => {
            let (t, reg, _) = text_case(env, r);
            Case::new("text").text(t).region(reg)
        }
        1 => Case::new("text").text(soup(env, r, 12)).region(any_region(env, r)),
        2 => {
            let n = range(r, 1, 30);
            let s: String = (0..n).map(|_| any_char(r)).collect();
            Case::new("text").text(s).region(any_region(env, r))
        }
        3 => {
            let (t, reg, _) = text_case(env, r);
            Case::new("text").text(mutate_text(env, r, &t)).region(if chance(r, 20) { soup(env, r, 2) } else { reg })
        }
        _ => {
            let t = soup(env, r, 4);
            let n = range(r, 2, 60) as i64;
            Case::new("long").text(t).region(any_region(env, r)).i(n)
        }
    }
}

// ---------------------------------------------------------------- C03
fn c03_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let n = c.n();
    let u = &env.lib;
    if !u.is_valid_number(&n.to_lib()) {
        st.class("not valid");
        return Ok(());
    }
    // numbers that the published rules read as national prefix + another number (BY 8 100000000)
    if let Some((rest, _)) = env.model.main_meta(n.cc).and_then(|t| model::Model::strip_national(t, &n.nsn())) {
        if rest != n.nsn() {
            st.class("national number reads as national prefix + number");
            return Ok(());
        }
    }
    st.hit();
    st.class(&format!("{:?}", env.model.num_type(n)));
    if n.ext.is_some() {
        st.class("with extension");
    }
    if n.ilz == Some(true) {
        st.class("with leading zeros");
    }
    // printed labels other than ";ext=" and those containing "ext" or "anexo" cap an extension at nine digits
    let label = env.model.main_meta(n.cc).and_then(|t| t.pref_extn.clone()).unwrap_or(" ext. ".into()).to_lowercase();
    let long = n.ext_str().len() > 9 && !label.contains("ext") && !label.contains("anexo");
    for k in model::ALL_F {
        if long && matches!(k, F::Intl | F::Nat) {
            st.class("extension too long for the printed label");
            continue;
        }
        let s = call::format(u, n, k);
        let mut regs = vec![c.region.as_str()];
        if k == F::Nat {
            // the regions whose dialling the national format follows
            regs = vec![env.model.main_region(n.cc)];
            if regs[0] == "001" {
                continue;
            }
            // where the published dialling rules themselves cannot undo the rendering
            // (0 written before numbers it may not be dialled with, 00800... inside a country)
            let back = env.model.parse(&env.model.format(n, k), regs[0], false);
            if !matches!(&back, Ok(b) if b.core() == n.core()) {
                st.class("national rendering not reversible by the rules");
                continue;
            }
        }
        let mut want = n.clone();
        if k == F::E164 {
            want.ext = None;
        }
        for reg in regs {
            let got = call::parse(u, &s, reg);
            let ok = matches!(&got, Ok(g) if g.core() == want.core());
            if !ok {
                return fail(&format!("roundtrip-{k:?}"), format!("{n:?} formats {k:?} as {s:?}, which parses (default {reg}) to {got:?}"));
            }
            let again = call::format(u, &got.unwrap(), k);
            if again != s {
                return fail(&format!("reformat-{k:?}"), format!("{n:?}: {k:?} {s:?} then {again:?} after parsing"));
            }
        }
    }
    Ok(())
}
/// example numbers of every territory and type
pub fn examples(env: &Env) -> Vec<(usize, Num)> {
    let mut v = vec![];
    for t in env.terrs() {
        for d in TYPES {
            if let Some(e) = &t.d(d).example {
                v.push((d, Num::from_nsn(t.cc, e)));
            }
        }
    }
    v
}
fn c03_sys(env: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![];
    for (i, (_, n)) in examples(env).into_iter().enumerate() {
        for (j, ext) in [None, Some("1"), Some("12345678901234567890"), Some("007")].into_iter().enumerate() {
            let mut m = n.clone();
            m.ext = ext.map(|s| s.to_string());
            let r = &env.regions[(i * 7 + j * 31) % env.regions.len()];
            v.push(Case::new("num").num(m.clone()).region(r.clone()));
            v.push(Case::new("num").num(m).region("ZZ"));
        }
    }
    v
}
fn c03_gen(env: &Env, r: &mut R) -> Case {
    let mut n = valid_number(env, r);
    if chance(r, 35) {
        n.ext = Some(ext_digits(r));
    }
    let reg = if chance(r, 40) { region_for(env, r, n.cc) } else { any_region(env, r) };
    Case::new("num").num(n).region(reg)
}

// ---------------------------------------------------------------- C04
fn core_of(r: &Result<Num, PErr>) -> Result<(i32, u64, String, i32), PErr> {
    r.as_ref().map(|n| n.core()).map_err(|e| *e)
}
fn c04_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let u = &env.lib;
    if c.k == "chars" {
        // every decimal digit of Unicode means the same as the ASCII one
        for ch in block_chars(c) {
            let Some(d) = model::dec(ch) else { continue };
            st.hit();
            for (a, b, r) in [
                (format!("+41 44 668 {ch}{ch} 00"), format!("+41 44 668 {d}{d} 00"), "ZZ"),
                (format!("044 668 {ch}8 0{ch}"), format!("044 668 {d}8 0{d}"), "CH"),
                (format!("{ch}446681800"), format!("{d}446681800"), "CH"),
            ] {
                let (x, y) = (call::parse(u, &a, r), call::parse(u, &b, r));
                if core_of(&x) != core_of(&y) {
                    return fail("script-digit", format!("U+{:04X}: parse({a:?}) = {x:?}, parse({b:?}) = {y:?}", ch as u32));
                }
            }
        }
        return Ok(());
    }
    let Some((text2, region2)) = respell(env, c) else { return Ok(()) };
    let base = call::parse(u, &c.text, &c.region);
    let other = call::parse(u, &text2, &region2);
    if c.ops.is_empty() {
        st.class(&c.k);
    }
    for x in &c.ops {
        st.class(&x.k);
    }
    if base.is_ok() {
        st.hit();
    } else {
        st.class("plain spelling rejected");
    }
    if core_of(&base) != core_of(&other) {
        let sig = c.ops.first().map(|o| o.k.clone()).unwrap_or(c.k.clone());
        return fail(&format!("respelled {sig}"), format!("parse({:?},{:?}) = {base:?} but rewritten parse({text2:?},{region2:?}) = {other:?}", c.text, c.region));
    }
    Ok(())
}
/// Apply the rewritings of a case to its plain spelling; None if one does not apply to it.
/// The plain spelling is an optional + and ASCII digits only.
fn respell(env: &Env, c: &Case) -> Option<(String, String)> {
    let plus = c.text.starts_with('+');
    let d = c.text.strip_prefix('+').unwrap_or(&c.text);
    if d.len() < 3 || !d.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let mut head = if plus { "+".to_string() } else { String::new() };
    let mut region = c.region.clone();
    let mut digits: Vec<char> = d.chars().collect();
    if c.k == "idd" {
        // an international prefix of region2 in place of the plus sign
        if !plus {
            return None;
        }
        let f = env.model.region(&c.region2)?;
        let full = format!("{}{d}", c.s);
        let m = model::pre(f.intl_prefix.as_deref()?).find(&full)?.end();
        if c.s.is_empty() || m != c.s.len() || d.len() <= 2 || d.starts_with('0') || !full.bytes().all(|b| b.is_ascii_digit()) {
            return None;
        }
        head.clear();
        digits = full.chars().collect();
        region = c.region2.clone();
    } else if c.k == "np" {
        // the national prefix in front of a valid national number
        let t = env.model.region(&c.region)?;
        let np = simple_prefix(t)?;
        let n = Num::from_nsn(t.cc, d);
        if plus || !env.model.valid_for(&n, &t.id) || d.starts_with(np) || !ordinary(t, d) {
            return None;
        }
        digits = format!("{np}{d}").chars().collect();
    }
    // what stands before each digit, and the lead and tail
    let mut before: Vec<String> = vec![String::new(); digits.len()];
    let (mut lead, mut tail) = (String::new(), String::new());
    for o in &c.ops {
        match o.k.as_str() {
            "punctuation" => {
                let x: Vec<char> = o.s.chars().collect();
                if digits.len() < 2 || x.is_empty() || !x.iter().all(|c| *c != '~' && SEP.contains(&c.to_string().as_str())) {
                    return None;
                }
                let at = 1 + (o.i as usize) % (digits.len() - 1);
                before[at].push_str(&o.s);
            }
            "script" => {
                let z = o.s.chars().next()?;
                if o.s.chars().count() != 1 || model::dec(z) != Some('0') || z == '0' {
                    return None;
                }
                for (k, ch) in digits.iter_mut().enumerate() {
                    if ch.is_ascii_digit() && (o.i >> (k % 24)) & 1 == 1 {
                        *ch = script_digit(*ch, z as u32);
                    }
                }
            }
            "plus" => {
                if head.is_empty() || o.s.is_empty() || !o.s.chars().all(|c| c == '+' || c == '\u{FF0B}') {
                    return None;
                }
                head = o.s.clone();
            }
            "leading" => {
                if o.s.contains(";phone-context=") || o.s.chars().any(|c| c == '+' || c == '\u{FF0B}' || model::dec(c).is_some()) {
                    return None;
                }
                lead = o.s.clone();
            }
            "trailing" => {
                // nothing that could belong to a number
                if o.s.contains('#') || o.s.chars().any(|c| c.is_alphanumeric()) {
                    return None;
                }
                tail = o.s.clone();
            }
            _ => return None,
        }
    }
    let mut out = lead + &head;
    for (b, ch) in before.iter().zip(&digits) {
        out.push_str(b);
        out.push(*ch);
    }
    Some((out + &tail, region))
}
/// The national number is neither prefixed by an international prefix nor by the calling code,
/// with or without the national prefix in front: nothing but the prefix is at stake.
fn ordinary(t: &Terr, d: &str) -> bool {
    let cc = t.cc.to_string();
    let np = t.nat_prefix.as_deref().unwrap_or("");
    let full = format!("{np}{d}");
    let idd = |s: &str| t.intl_prefix.as_deref().is_some_and(|p| model::pre(p).is_match(s));
    !idd(d) && !idd(&full) && !d.starts_with(&cc) && !full.starts_with(&cc)
}
fn trailing(r: &mut R) -> String {
    let mut s = String::new();
    for _ in 0..range(r, 1, 3) {
        s.push_str(pick(r, &[" ", ".", ",", ")", ":", ";", "!", "?", "\u{3000}", "-", "*", "\"", "\n", "\u{2026}", "\u{1F600}", "$", "=", "]"]));
    }
    s
}
fn leading(r: &mut R) -> String {
    let mut s = String::new();
    for _ in 0..range(r, 1, 4) {
        s.push_str(pick(r, &["call ", "(", " ", "Tel.: ", "x", "ext", "#", "*", "T\u{E9}l ", "[", "/", "\u{1F4DE}", ":", "-", "abc", "\n", "tel:", ",", ";ext="]));
    }
    s
}
/// separators that never start an extension or a second number
pub fn safe_sep(r: &mut R) -> &'static str {
    pick(r, &SEP)
}
pub fn is_safe_sep(s: &str) -> bool {
    s != "~"
}
fn sprinkle(r: &mut R, s: &str, pct: u32) -> String {
    // between two digits only
    let c: Vec<char> = s.chars().collect();
    let mut o = String::new();
    for i in 0..c.len() {
        if i > 0 && model::dec(c[i]).is_some() && model::dec(c[i - 1]).is_some() && chance(r, pct) {
            for _ in 0..weighted(r, &[0, 80, 20]) {
                let x = safe_sep(r);
                if is_safe_sep(x) {
                    o.push_str(x);
                }
            }
        }
        o.push(c[i]);
    }
    o
}
/// the plain part of the metadata: national prefix is a plain digit string that is stripped as is
pub fn simple_prefix(t: &Terr) -> Option<&str> {
    let np = t.nat_prefix.as_deref()?;
    if t.np_transform.is_some() || t.np_parsing.as_deref().is_some_and(|p| p != np) || !np.bytes().all(|b| b.is_ascii_digit()) || np.is_empty() {
        return None;
    }
    Some(np)
}
fn c04_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v: Vec<Case> = char_blocks("chars", th);
    // every territory x separator x rewriting on its example
    for t in env.terrs() {
        let Some(e) = TYPES.iter().find_map(|d| t.d(*d).example.clone()) else { continue };
        let plain = format!("+{}{}", t.cc, e);
        for s in SEP {
            if !is_safe_sep(s) {
                continue;
            }
            let k = (t.cc.to_string().len() + e.len() / 2) as i64;
            let op = |i: i64| Case::new("punctuation").i(i).s(s);
            v.push(Case { ops: vec![op(t.cc.to_string().len() as i64 - 1), op(k)], ..Case::new("plain").text(plain.clone()).region("ZZ") });
        }
        for a in ["\u{FF0B}", "+++", "+\u{FF0B}"] {
            v.push(Case { ops: vec![Case::new("plus").s(a)], ..Case::new("plain").text(plain.clone()).region("ZZ") });
        }
        if t.id != "001" {
            v.push(Case::new("np").text(e.clone()).region(t.id.clone()));
        }
        // dialled from every region
        for r in &env.regions {
            let f = env.model.region(r).unwrap();
            if let Some(p) = f.pref_intl.as_deref().or(f.intl_prefix.as_deref()) {
                if p.bytes().all(|b| b.is_ascii_digit()) {
                    v.push(Case::new("idd").text(plain.clone()).region("ZZ").s(p).region2(r.clone()));
                }
            }
        }
    }
    v
}
fn edits(r: &mut R, intl: bool) -> Vec<Case> {
    let mut ops = vec![];
    if chance(r, 55) {
        for _ in 0..range(r, 1, 5) {
            let mut x = String::new();
            for _ in 0..range(r, 1, 2) {
                x.push_str(pick(r, &SEP));
            }
            if chance(r, 2) {
                x = stretch(r, &x);
            }
            ops.push(Case::new("punctuation").i(below(r, 20) as i64).s(x));
        }
    }
    if intl && chance(r, 30) {
        ops.push(Case::new("plus").s(*pick(r, &["\u{FF0B}", "++", "+\u{FF0B}+", "\u{FF0B}\u{FF0B}"])));
    }
    if chance(r, 35) {
        for _ in 0..range(r, 1, 2) {
            let z = loop {
                // the ASCII digits are not another script
                match any_script(r) {
                    48 => {}
                    z => break char::from_u32(z).unwrap(),
                }
            };
            let mask = if chance(r, 50) { 0xff_ffff } else { below(r, 1 << 24) as i64 };
            ops.push(Case::new("script").i(mask).s(z.to_string()));
        }
    }
    if chance(r, 25) {
        let x = leading(r);
        ops.push(Case::new("leading").s(if chance(r, 5) { stretch(r, &x) } else { x }));
    }
    if chance(r, 25) {
        let x = trailing(r);
        ops.push(Case::new("trailing").s(if chance(r, 5) { stretch(r, &x) } else { x }));
    }
    ops.retain(|o| !o.s.contains('~'));
    ops
}
fn c04_gen(env: &Env, r: &mut R) -> Case {
    let t = any_terr(env, r);
    let (nsn, _) = if chance(r, 70) { (valid_nsn(r, t), "") } else { nsn_for(env, r, t) };
    let reg = if t.id == "001" { any_region(env, r) } else { t.id.clone() };
    // base spelling: international or national digits
    if chance(r, 15) {
        let t = if simple_prefix(t).is_some() { t } else { env.terrs().iter().cycle().skip(below(r, 300)).find(|t| simple_prefix(t).is_some()).unwrap() };
        let nsn = valid_nsn(r, t);
        return Case { ops: if chance(r, 40) { edits(r, false) } else { vec![] }, ..Case::new("np").text(nsn).region(t.id.clone()) };
    }
    if chance(r, 25) {
        let from = pick(r, &env.regions).clone();
        let idd = idd_of(r, env.model.region(&from).unwrap()).unwrap_or("00".into());
        return Case { ops: if chance(r, 40) { edits(r, false) } else { vec![] }, ..Case::new("idd").text(format!("+{}{nsn}", t.cc)).region("ZZ").s(idd).region2(from) };
    }
    let intl = chance(r, 55);
    let text = if intl {
        format!("+{}{}", t.cc, nsn)
    } else if chance(r, 40) {
        format!("{}{nsn}", nat_prefix_of(r, t))
    } else {
        nsn
    };
    let mut ops = edits(r, intl);
    while ops.is_empty() {
        ops = edits(r, intl);
    }
    Case { ops, ..Case::new("plain").text(text).region(reg) }
}

// ---------------------------------------------------------------- C05
/// (label, digit limit, needs trailing #)
pub const LABELS: [(&str, usize, bool); 62] = [
    (";ext=", 20, false),
    (" ext. ", 20, false),
    (" ext ", 20, false),
    ("ext", 20, false),
    ("EXT:", 20, false),
    (" Ext.", 20, false),
    (",ext ", 20, false),
    (" extn", 20, false),
    (" EXTN. ", 20, false),
    (" xtn ", 20, false),
    (" xt:", 20, false),
    (" extension ", 20, false),
    (" Extension: ", 20, false),
    ("extension", 20, false),
    (" extensi\u{F3}n ", 20, false),
    (" EXTENSI\u{D3}N: ", 20, false),
    (" extensio\u{301}n ", 20, false),
    (" extensi\u{F3} ", 20, false),
    ("\u{FF45}\u{FF58}\u{FF54}\u{FF4E}", 20, false),
    (" \u{FF58}\u{FF54} ", 20, false),
    (" \u{FF25}\u{FF38}\u{FF34}\u{FF2E}", 20, false),
    (" \u{434}\u{43E}\u{431}", 20, false),
    (" \u{434}\u{43E}\u{431}. ", 20, false),
    (" \u{414}\u{41E}\u{411} ", 20, false),
    (" anexo ", 20, false),
    (" ANEXO:", 20, false),
    ("anexo", 20, false),
    (" x", 9, false),
    ("x", 9, false),
    ("X", 9, false),
    (" x ", 9, false),
    (" x: ", 9, false),
    (" x.", 9, false),
    ("\u{FF58}", 9, false),
    ("\u{FF38} ", 9, false),
    ("#", 9, false),
    (" # ", 9, false),
    ("\u{FF03}", 9, false),
    ("~", 9, false),
    (" ~ ", 9, false),
    ("\u{FF5E}", 9, false),
    (" int ", 9, false),
    ("int.", 9, false),
    (" INT:", 9, false),
    ("\u{FF49}\u{FF4E}\u{FF54}", 9, false),
    (" \u{FF29}\u{FF2E}\u{FF34} ", 9, false),
    (",,", 15, false),
    (" ,,", 15, false),
    (",, ", 15, false),
    (";", 15, false),
    ("; ", 15, false),
    (" ;", 15, false),
    (",,: ", 15, false),
    (",", 9, false),
    (", ", 9, false),
    (" ,", 9, false),
    (",:", 9, false),
    ("-", 6, true),
    (" ", 6, true),
    (" - ", 6, true),
    ("--", 6, true),
    (" -- ", 6, true),
];
fn c05_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let u = &env.lib;
    let base = call::parse(u, &c.text, &c.region);
    if c.k == "no-mark" {
        st.class("no mark");
        if let Ok(n) = &base {
            st.hit();
            if n.ext.is_some() {
                return fail("extension-from-nowhere", format!("parse({:?},{:?}) = {n:?}", c.text, c.region));
            }
        }
        return Ok(());
    }
    let Ok(n) = &base else {
        st.class("base rejected");
        return Ok(());
    };
    if n.ext.is_some() {
        st.class("base has extension");
        return Ok(());
    }
    let (label, limit, hash) = LABELS[c.i as usize % LABELS.len()];
    let d = &c.s;
    if d.is_empty() {
        return Ok(());
    }
    let text = format!("{}{label}{d}{}", c.text, if hash || (c.k.contains('#') && label != ";ext=") { "#" } else { "" });
    let got = call::parse(u, &text, &c.region);
    st.hit();
    let len = d.chars().count();
    if len <= limit {
        st.class(&format!("limit {limit}: within{}", if len == limit { " (at)" } else { "" }));
        let mut want = n.clone();
        want.ext = Some(d.clone());
        if core_of(&got) != Ok(want.core()) {
            return fail(
                &format!("extension-lost {label:?}"),
                format!("parse({text:?},{:?}) = {got:?}, expected the number of {:?} with extension {d:?}", c.region, c.text),
            );
        }
    } else {
        st.class(&format!("limit {limit}: beyond"));
        if let Ok(g) = &got {
            if let Some(e) = &g.ext {
                return fail(
                    &format!("extension-truncated {label:?}"),
                    format!("parse({text:?},{:?}) = {g:?}: {len} digits after a label limited to {limit} became extension {e:?}", c.region),
                );
            }
        }
    }
    Ok(())
}
fn c05_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v = vec![];
    for (i, (_, limit, _)) in LABELS.iter().enumerate() {
        for len in 1..=limit + 3 {
            for (t, r) in [("+41446681800", "ZZ"), ("044 668 18 00", "CH"), ("(650) 253-0000", "US"), ("+39 02 36618300", "US"), ("+808 1234 5678", "001")] {
                v.push(Case::new("label").text(t).region(r).i(i as i64).s(&"12345678901234567890123"[..len]));
                v.push(Case::new("label#").text(t).region(r).i(i as i64).s(&"00000000000000000000000"[..len]));
            }
        }
    }
    for (j, t) in env.terrs().iter().enumerate() {
        let Some(e) = TYPES.iter().find_map(|d| t.d(*d).example.clone()) else { continue };
        for i in 0..LABELS.len() {
            if th || (i + j) % 4 == 0 {
                let l = LABELS[i].1 - (i + j) % 2;
                v.push(Case::new("label").text(format!("+{}{e}", t.cc)).region("ZZ").i(i as i64).s(&"98765432109876543210"[..l]));
            }
        }
    }
    v
}
fn c05_gen(env: &Env, r: &mut R) -> Case {
    let (n, _) = number(env, r);
    let n = n.plain();
    let mut n2 = n.clone();
    n2.ext = None;
    let (mut text, reg) = loop {
        let (t, reg) = spelled(env, r, &n2);
        if !t.contains(";") && !t.contains('~') {
            break (t, reg);
        }
    };
    if chance(r, 30) {
        text = sprinkle(r, &text, 20);
    }
    if chance(r, 12) {
        return Case::new("no-mark").text(text).region(reg);
    }
    // the base text is taken up to its last digit
    while text.chars().last().is_some_and(|c| model::dec(c).is_none()) {
        text.pop();
    }
    let i = below(r, LABELS.len());
    let lim = LABELS[i].1;
    let len = match weighted(r, &[55, 20, 15, 10]) {
        0 => range(r, 1, lim),
        1 => lim,
        2 => lim + 1,
        _ => range(r, lim + 1, lim + 8),
    };
    let mut s = digits(r, len);
    if chance(r, 8) {
        s = rescript(r, &s);
    }
    Case::new(if chance(r, 30) && lim != 6 { "label#" } else { "label" }).text(text).region(reg).i(i as i64).s(s)
}

// ---------------------------------------------------------------- C06
/// The URI of a structured case and the plain text it denotes (None: it must be rejected).
/// text: local part, s: extension digits, text2: context, i: 1 = with tel:, 2 = isub before the
/// context; region2: what follows the context.
fn uri(c: &Case) -> Option<(String, Option<String>)> {
    let num = &c.text;
    if num.is_empty() || !num.chars().all(|x| x.is_ascii_digit() || "-.()+".contains(x)) || !c.s.bytes().all(|b| b.is_ascii_digit()) {
        return None;
    }
    let tel = if c.i & 1 != 0 { "tel:" } else { "" };
    let ext = if c.s.is_empty() { String::new() } else { format!(";ext={}", c.s) };
    let isub = if c.i & 2 != 0 && ext.is_empty() { ";isub=1x" } else { "" };
    if !c.region2.is_empty() && !c.region2.starts_with(';') {
        return None;
    }
    let inner = num.trim_start_matches('+');
    let plus = num.len() - inner.len();
    if inner.contains('+') || !inner.starts_with(|x: char| x.is_ascii_digit()) || !inner.ends_with(|x: char| x.is_ascii_digit()) || plus > 1 {
        return None;
    }
    let ctx = &c.text2;
    let after = &c.region2;
    match c.k.as_str() {
        "global" if ctx.starts_with('+') && model::context_valid(ctx) && plus == 0 => {
            Some((format!("{tel}{num}{ext}{isub};phone-context={ctx}{after}"), Some(format!("{ctx}{num}{ext}"))))
        }
        "domain" if !ctx.starts_with('+') && model::context_valid(ctx) => {
            Some((format!("{tel}{num}{ext}{isub};phone-context={ctx}{after}"), Some(format!("{num}{ext}"))))
        }
        "nocontext" => Some((format!("{tel}{num}{ext}{isub}"), Some(format!("{num}{ext}")))),
        "bad-context" if !model::context_valid(ctx) && !ctx.contains(';') => Some((format!("{tel}{num}{ext}{isub};phone-context={ctx}{after}"), None)),
        _ => None,
    }
}
fn c06_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let u = &env.lib;
    if c.k == "free" {
        let got = call::parse(u, &c.text, &c.region);
        let want = env.model.parse(&c.text, &c.region, false);
        if want.is_ok() {
            st.hit();
        }
        st.class("free form");
        if core_of(&got) != core_of(&want) {
            return fail("uri-rules", format!("parse({:?},{:?}) = {got:?}, rules give {want:?}", c.text, c.region));
        }
        return Ok(());
    }
    let Some((uri, plain)) = uri(c) else {
        st.class("not applicable");
        return Ok(());
    };
    let got = call::parse(u, &uri, &c.region);
    st.class(&c.k);
    match plain {
        None => {
            st.hit();
            if got != Err(PErr::NotANumber) {
                return fail("bad-context", format!("parse({uri:?},{:?}) = {got:?}, expected not-a-number", c.region));
            }
        }
        Some(plain) => {
            let want = call::parse(u, &plain, &c.region);
            if want.is_ok() {
                st.hit();
            }
            if core_of(&got) != core_of(&want) {
                return fail(&format!("uri-{}", c.k), format!("parse({uri:?},{:?}) = {got:?} but the number it denotes, {plain:?}, parses to {want:?}", c.region));
            }
        }
    }
    Ok(())
}
pub const BAD_CONTEXT: [&str; 30] = [
    "", "+", "+-", "+()", "64", "1", "a.", "-a", "a-", ".a", "a..b", "a.1", "\u{FF0B}1", "+1a", " +1", "+1 2", "+ 1", "a_b", "\u{E9}.fr", "a b", "64+", "++64", "+64+", "a.b-", "-", ".", "1.", "1.2", "a,b", "tel:+1",
];
pub const GOOD_DOMAIN: [&str; 15] =
    ["a", "A.b", "example.com", "www.PHONE-a.b1.com.", "3phone.J.", "a1", "a-b", "1a.b-c", "phone-context", "x--y.z", "abc.d9", "a.b.c.d.e", "z.", "0.0.a", "host"];
pub const AFTER: [&str; 9] = ["", ";ext=1", ";isub=2;phone-context=+1", ";isub=12", ";x=1;y=2", ";phone-context=+1", ";ext=99", ";", ";tel:"];
fn c06_case(k: &str, num: &str, ext: &str, ctx: &str, flags: i64, after: &str, region: &str) -> Case {
    Case::new(k).text(num).s(ext).text2(ctx).i(flags).region2(after).region(region)
}
fn c06_sys(env: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![];
    for b in BAD_CONTEXT {
        for after in AFTER {
            for (num, ext) in [("033316005", ""), ("+6433316005", ""), ("033316005", "3")] {
                for fl in 0..4 {
                    v.push(c06_case("bad-context", num, ext, b, fl, after, "NZ"));
                }
            }
        }
    }
    for d in GOOD_DOMAIN {
        for after in AFTER {
            for (num, ext) in [("033316005", ""), ("+6433316005", ""), ("033316005", "3"), ("03-331-6005", "12345678901234567890")] {
                for fl in 0..4 {
                    v.push(c06_case("domain", num, ext, d, fl, after, "NZ"));
                }
            }
        }
    }
    for (j, t) in env.terrs().iter().enumerate() {
        let Some(e) = TYPES.iter().find_map(|d| t.d(*d).example.clone()) else { continue };
        let reg = if t.id == "001" { "US" } else { &t.id };
        for fl in 0..4 {
            for ext in ["", "7"] {
                let after = AFTER[(j + fl as usize) % AFTER.len()];
                v.push(c06_case("global", &e, ext, &format!("+{}", t.cc), fl, after, "ZZ"));
                v.push(c06_case("domain", &e, ext, "a.com", fl, after, reg));
                v.push(c06_case("nocontext", &format!("+{}{e}", t.cc), ext, "", fl, "", "ZZ"));
            }
        }
    }
    v
}
fn c06_gen(env: &Env, r: &mut R) -> Case {
    let t = any_terr(env, r);
    let (nsn, _) = nsn_for(env, r, t);
    let n = Num::from_nsn(t.cc, &nsn);
    let reg = if chance(r, 15) { any_region(env, r) } else { region_for(env, r, t.cc) };
    if chance(r, 30) {
        let (s, reg) = rfc3966(env, r, &n);
        let s = if chance(r, 20) { mutate_text(env, r, &s) } else { s };
        return Case::new("free").text(s).region(reg);
    }
    let mut d = nsn.clone();
    if chance(r, 20) {
        d = format!("{}{d}", nat_prefix_of(r, t));
    }
    let mut num = String::new();
    for (i, c) in d.chars().enumerate() {
        if i > 0 && chance(r, 15) {
            num.push(*pick(r, &['-', '.', '(', ')', '-', '-']));
        }
        num.push(c);
    }
    let ext = if chance(r, 35) {
        let k = range(r, 1, 21);
        digits(r, k)
    } else {
        String::new()
    };
    let fl = (chance(r, 75) as i64) | ((chance(r, 25) as i64) << 1);
    let after = if chance(r, 60) { "" } else { pick(r, &AFTER) };
    match weighted(r, &[45, 25, 20, 10]) {
        0 => {
            let cc = if chance(r, 85) { t.cc } else { any_cc(env, r) & 0xffff };
            let ctx = if chance(r, 15) { punctuate_ascii(r, &cc.to_string()) } else { cc.to_string() };
            c06_case("global", &num, &ext, &format!("+{ctx}"), fl, after, &reg)
        }
        1 => c06_case("domain", &num, &ext, pick(r, &GOOD_DOMAIN), fl, after, &reg),
        2 => {
            let plain = if chance(r, 60) { format!("+{}{}", t.cc, num) } else { num };
            c06_case("nocontext", &plain, &ext, "", fl, "", &reg)
        }
        _ => c06_case("bad-context", &num, &ext, pick(r, &BAD_CONTEXT), fl, after, &reg),
    }
}

// ---------------------------------------------------------------- C07 / C08
fn c07_text(env: &Env, text: &str, region: &str, st: &mut Stats) -> Res {
    let got = call::parse_keep(&env.lib, text, region);
    let want = env.model.parse(text, region, true);
    match &want {
        Ok(n) => {
            st.hit();
            st.class(&format!("ok {:?}", n.src.unwrap()));
            if n.carrier.is_some() {
                st.class("with carrier code");
            }
            if n.ext.is_some() {
                st.class("with extension");
            }
        }
        Err(PErr::NotANumber) => st.class("err NotANumber"),
        Err(e) => {
            st.hit();
            st.class(&format!("err {e:?}"))
        }
    }
    let key = |r: &Result<Num, PErr>| r.as_ref().map(|n| (n.core(), n.src, n.carrier_str().to_string())).map_err(|e| *e);
    if key(&got) != key(&want) {
        let sig = match (&got, &want) {
            (Err(_), Err(_)) => "error-class",
            (Ok(_), Err(_)) => "accepted",
            (Err(_), Ok(_)) => "rejected",
            (Ok(a), Ok(b)) if a.cc != b.cc => "calling-code",
            (Ok(a), Ok(b)) if a.nsn() != b.nsn() => "national-number",
            (Ok(a), Ok(b)) if a.ext != b.ext => "extension",
            (Ok(a), Ok(b)) if a.src != b.src => "source",
            _ => "carrier",
        };
        return fail(sig, format!("parse({text:?},{region:?}) = {got:?}, the rules give {want:?}"));
    }
    let plain = call::parse(&env.lib, text, region);
    if core_of(&plain) != core_of(&want) {
        return fail("plain-differs", format!("plain parse({text:?},{region:?}) = {plain:?}, the rules give {want:?}"));
    }
    Ok(())
}
fn c07_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    if c.k == "chars" {
        for ch in block_chars(c) {
            for t in [format!("044{ch}6681800"), format!("{ch}0446681800"), format!("0446681800{ch}"), format!("+41446681800{ch}7")] {
                c07_text(env, &t, "CH", st)?;
            }
        }
        return Ok(());
    }
    c07_text(env, &c.text, &c.region, st)
}
fn c07_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v = char_blocks("chars", th);
    // lengths around which a limit might sit
    for n in (1..=300).chain([400, 511, 512, 513, 1000, 1023, 1024, 1025, 4096]) {
        for s in [" ", "-", "\u{2010}", "~", "(", "\u{FF0F}"] {
            let s = s.repeat(n);
            for t in [format!("+41{s}446681800"), format!("{s}0446681800"), format!("044668{s}1800 ext. 5"), format!("044 668 1800{s}")] {
                v.push(Case::new("text").text(t).region("CH"));
            }
        }
        for t in [format!("{}+41446681800", "a".repeat(n)), format!("{}41446681800", "+".repeat(n)), format!("tel:044-668-1800;x={};phone-context=+41", "y".repeat(n)), format!("tel:044-668-1800;phone-context={}.com", "y".repeat(n)), format!("044 668 1800{}", "/x1".repeat(n))] {
            v.push(Case::new("text").text(t).region("CH"));
        }
    }
    for t in env.terrs() {
        for d in TYPES.iter().chain([&NOINTL]) {
            let Some(e) = &t.d(*d).example else { continue };
            let reg = if t.id == "001" { "US" } else { &t.id };
            let np = t.nat_prefix.as_deref().unwrap_or("0");
            let idd = t.pref_intl.as_deref().unwrap_or("00");
            for s in [
                e.clone(),
                format!("{np}{e}"),
                format!("{}{e}", t.cc),
                format!("{}{np}{e}", t.cc),
                format!("+{}{e}", t.cc),
                format!("+{}{np}{e}", t.cc),
                format!("{idd}{}{e}", t.cc),
                format!("+{idd}{}{e}", t.cc),
                format!("{e}0"),
                e[..e.len() - 1].to_string(),
                format!("{}{e}00", t.cc),
            ] {
                v.push(Case::new("text").text(s).region(reg));
            }
        }
    }
    v
}
fn c07_gen(env: &Env, r: &mut R) -> Case {
    let (t, reg, _) = text_case(env, r);
    Case::new("text").text(t).region(reg)
}
fn c08_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let u = &env.lib;
    let (text, region) = (&c.text, &c.region);
    let a = u.parse(text, region);
    let b = u.parse_and_keep_raw_input(text, region);
    match (a, b) {
        (Err(x), Err(y)) => {
            st.class("both reject");
            if call::perr(&x) != PErr::NotANumber {
                st.hit();
            }
            if x != y {
                return fail("errors-differ", format!("({text:?},{region:?}): parse fails with {x:?}, keep with {y:?}"));
            }
        }
        (Ok(x), Ok(y)) => {
            st.hit();
            let (x, y) = (Num::from_lib(&x), Num::from_lib(&y));
            if x.core() != y.core() {
                return fail("core-differs", format!("({text:?},{region:?}): parse {x:?}, keep {y:?}"));
            }
            if y.raw.as_deref() != Some(text.as_str()) {
                return fail("raw-input", format!("({text:?},{region:?}): raw input kept as {:?}", y.raw));
            }
            let want = env.model.parse(text, region, true);
            let Ok(w) = want else {
                st.class("model rejects");
                return Ok(());
            };
            st.class(&format!("{:?}", w.src.unwrap()));
            if w.carrier.is_some() {
                st.class("carrier");
            }
            if y.src != w.src {
                return fail("source", format!("({text:?},{region:?}): source {:?}, spelling shows {:?}", y.src, w.src));
            }
            if y.carrier_str() != w.carrier_str() {
                return fail("carrier", format!("({text:?},{region:?}): carrier {:?}, dialled {:?}", y.carrier, w.carrier));
            }
        }
        (x, y) => {
            return fail("one-rejects", format!("({text:?},{region:?}): parse {:?}, keep {:?}", x.map(|n| Num::from_lib(&n)), y.map(|n| Num::from_lib(&n))));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C22
fn c22_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let u = &env.lib;
    if c.k == "chars" {
        for ch in block_chars(c) {
            let s = ch.to_string();
            let got = u.convert_alpha_characters_in_number(&s);
            if model::keypad(ch).is_some() {
                st.hit();
            }
            same("convert-char", || format!("convert {s:?}"), &got, &model::convert_alpha(&s))?;
            for t in [format!("1800{ch}{ch}{ch}"), format!("1800FLOWE{ch}"), format!("650253{ch}0000")] {
                same("is-alpha-char", || format!("is_alpha_number {t:?}"), &u.is_alpha_number(&t), &model::is_alpha_number(&t))?;
            }
        }
        return Ok(());
    }
    let (a, b) = (&c.text, &c.text2);
    let x = u.convert_alpha_characters_in_number(a);
    same("convert", || format!("convert {a:?}"), &x, &model::convert_alpha(a))?;
    let xx = u.convert_alpha_characters_in_number(&x);
    same("idempotent", || format!("convert twice {a:?}"), &xx, &x)?;
    let y = u.convert_alpha_characters_in_number(b);
    let ab = u.convert_alpha_characters_in_number(format!("{a}{b}"));
    same("concat", || format!("convert {a:?}+{b:?}"), &ab, &format!("{x}{y}"))?;
    let alpha = u.is_alpha_number(a);
    same("is-alpha", || format!("is_alpha_number {a:?}"), &alpha, &model::is_alpha_number(a))?;
    if model::letters(a) > 0 {
        st.hit();
    }
    if alpha {
        st.class("alpha number");
        // its converted spelling denotes the same number
        let cand = model::candidate(a).unwrap_or_default();
        if cand == *a && model::strip_ext(a).1.is_none() && model::strip_ext(&x).1.is_none() && !a.contains(';') && a.chars().all(|c| c.is_ascii_digit() || model::dec(c).is_none()) {
            let (p, q) = (call::parse(u, a, &c.region), call::parse(u, &x, &c.region));
            if p.is_ok() {
                st.class("alpha parsed");
            }
            if core_of(&p) != core_of(&q) {
                return fail("vanity-parse", format!("parse({a:?},{:?}) = {p:?}, converted {x:?} = {q:?}", c.region));
            }
        }
    }
    Ok(())
}
fn c22_sys(_: &Env, th: bool) -> Vec<Case> {
    let mut v = char_blocks("chars", th);
    let all: String = (0u8..128).map(|b| b as char).collect();
    v.push(Case::new("text").text(all.clone()).text2(all).region("US"));
    v
}
fn c22_gen(env: &Env, r: &mut R) -> Case {
    let (text, reg) = match weighted(r, &[60, 25, 15]) {
        0 => {
            let (n, _) = number(env, r);
            let n = Num { ext: None, ..n };
            let (s, reg) = spelled(env, r, &n);
            let k = range(r, 3, 7);
            let s = vanity(r, &s, k);
            (if chance(r, 30) { sprinkle(r, &s, 20) } else { s }, reg)
        }
        1 => {
            let (t, reg, _) = text_case(env, r);
            (t, reg)
        }
        _ => (soup(env, r, 8), any_region(env, r)),
    };
    let text = if chance(r, 15) { format!("{text}{}{}", pick(r, &EXT_LABELS), ext_digits(r)) } else { text };
    let b = if chance(r, 50) { soup(env, r, 4) } else { (0..4).map(|_| any_char(r)).collect() };
    Case::new("text").text(text).text2(b).region(reg)
}

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", rule: "", assumptions: &[], quick: 0, thorough: 0, systematic: none, exhaustive: false, generate: None, check: c01_check, threads: 8 };
    vec![
        Prop {
            id: "C01",
            rule: "every Unicode character in five contexts, token products, repeated tokens up to 2000 times, then generated texts (spelled and mutated numbers of all territories, RFC3966 URIs, token soup, random Unicode) x regions (supported, odd, arbitrary); non-trivial: the text gets past the not-a-number stage",
            quick: 2_000_000,
            thorough: 60_000_000,
            systematic: c01_sys,
            generate: Some(c01_gen),
            check: c01_check,
            ..base
        },
        Prop {
            id: "C03",
            rule: "example numbers of every territory and type with and without extension, then numbers generated from the numbering-plan patterns x default regions, four formats each; non-trivial: the number is valid, so all four round trips were performed",
            quick: 1_100_000,
            thorough: 25_000_000,
            systematic: c03_sys,
            generate: Some(c03_gen),
            check: c03_check,
            ..base
        },
        Prop {
            id: "C04",
            rule: "every decimal digit of Unicode; every territory x separator, x calling region's international prefix; then plain spellings with random compositions of the rewritings; non-trivial: the plain spelling is accepted",
            quick: 2_000_000,
            thorough: 50_000_000,
            systematic: c04_sys,
            generate: Some(c04_gen),
            check: c04_check,
            ..base
        },
        Prop {
            id: "C05",
            rule: "62 extension spellings x every digit count up to limit+3 on five numbers, every territory, then generated numbers x spellings x digit strings around the limits; non-trivial: the number without extension is accepted",
            quick: 1_500_000,
            thorough: 40_000_000,
            systematic: c05_sys,
            generate: Some(c05_gen),
            check: c05_check,
            ..base
        },
        Prop {
            id: "C06",
            rule: "URIs composed of tel:, local/global number, ext, isub, phone-context (global, domain, invalid) and other parameters, compared with the plain number they denote; free-form and mutated URIs compared with the rules; non-trivial: the denoted number is accepted or the context is invalid",
            quick: 1_750_000,
            thorough: 40_000_000,
            systematic: c06_sys,
            generate: Some(c06_gen),
            check: c06_check,
            ..base
        },
        Prop {
            id: "C07",
            rule: "every Unicode character in four positions, every example number in eleven spellings, then generated texts x regions, result and error class compared with the reference model; non-trivial: the rules accept the text or reject it later than not-a-number",
            quick: 2_250_000,
            thorough: 75_000_000,
            systematic: c07_sys,
            generate: Some(c07_gen),
            check: c07_check,
            ..base
        },
        Prop {
            id: "C08",
            rule: "generated texts x regions parsed both ways; non-trivial: accepted, or rejected later than not-a-number",
            quick: 2_250_000,
            thorough: 60_000_000,
            systematic: |e, _| c07_sys(e, false).into_iter().filter(|c| c.k == "text").collect(),
            generate: Some(c07_gen),
            check: c08_check,
            ..base
        },
        Prop {
            id: "C22",
            rule: "every Unicode character alone and in number contexts; generated vanity spellings, texts and token soup in pairs; non-trivial: the text contains an ASCII letter",
            quick: 2_000_000,
            thorough: 40_000_000,
            systematic: c22_sys,
            generate: Some(c22_gen),
            check: c22_check,
            ..base
        },
    ]
}
