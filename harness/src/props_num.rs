//! C02, C09-C21, C23, C24: numbers, formatting, tables, histories, metadata.
use crate::call;
use crate::case::Case;
use crate::compiled;
use crate::env::Env;
use crate::gens::*;
use crate::model::{self, F, L, M, Model, T};
use crate::num::*;
use crate::props_parse::{block_chars, char_blocks, examples, none};
use crate::run::*;
use crate::xmlmeta::*;
use rlibphonenumber::*;
use proptest::test_runner::RngAlgorithm;
use std::collections::HashMap;
use std::sync::{Arc, Mutex, OnceLock};

fn class_of(st: &mut Stats, env: &Env, n: &Num) {
    st.class(&format!("{:?}", env.model.num_type(n)));
}

// ---------------------------------------------------------------- C02
fn c02_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let u = &env.lib;
    let n = c.n();
    let other = c.num2.clone().unwrap_or_default();
    let a = call::profile(u, n, &c.region, &c.s, &other);
    let b = call::profile(u, n, &c.region, &c.s, &other);
    if a != b {
        let i = a.iter().zip(&b).position(|(x, y)| x != y).unwrap();
        return fail("repeat", format!("{n:?}: {} then {}", a[i], b[i]));
    }
    let p = n.to_lib();
    if env.model.known_cc(n.cc) {
        st.class("calling code supported");
    } else {
        st.class("calling code unsupported");
        same("unsupported-valid", || format!("{n:?} is_valid"), &u.is_valid_number(&p), &false)?;
        same("unsupported-possible", || format!("{n:?} is_possible"), &u.is_possible_number(&p), &false)?;
        same("unsupported-verdict", || format!("{n:?} verdict"), &call::verdict(u.is_possible_number_with_reason(&p)), &L::InvalidCc)?;
        same("unsupported-region", || format!("{n:?} region"), &u.get_region_code_for_number(&p), &"ZZ")?;
        same("unsupported-type", || format!("{n:?} type"), &call::ty(u.get_number_type(&p)), &T::Unknown)?;
        for r in env.regions.iter().step_by(23).map(|s| s.as_str()).chain([c.region.as_str(), "001", "ZZ"]) {
            same("unsupported-valid-for", || format!("{n:?} valid for {r}"), &u.is_valid_number_for_region(&p, r), &false)?;
        }
    }
    let wild = n.nn == 0 || n.nn > 99_999_999_999_999_999 || n.nlz.is_some_and(|z| z < 1 || z > 17) || n.raw.is_some() || !env.model.known_cc(n.cc) || n.ext.as_deref().is_some_and(|e| !e.bytes().all(|b| b.is_ascii_digit()));
    if wild {
        st.hit();
        st.class("unparseable or inconsistent value");
    }
    Ok(())
}
fn c02_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v = vec![];
    let odd = [0, -1, i32::MIN, i32::MAX, 999, 210, 1000, 2, -44];
    for cc in env.ccs.iter().copied().chain(odd) {
        let main = env.model.main_region(cc).to_string();
        for (j, nn) in [0, 1, 12, 123_456_789, 99_999_999_999_999_999, u64::MAX].into_iter().enumerate() {
            for (k, raw) in [None, Some(""), Some("0"), Some("+\u{E9}1"), Some("\u{FF0B}\u{661}")].into_iter().enumerate() {
                for (i, src) in [None, Some(Src::Plus), Some(Src::Idd), Some(Src::NoPlus), Some(Src::Default), Some(Src::Unspecified)].into_iter().enumerate() {
                    if !th && (i + j + k) % 3 != 0 && raw != Some("+\u{E9}1") {
                        continue;
                    }
                    let mut n = Num { cc, nn, src, raw: raw.map(|s| s.to_string()), ..Default::default() };
                    if (i + j) % 4 == 1 {
                        n.ilz = Some(true);
                        n.nlz = Some([1, 3, -2, 0][k % 4]);
                    }
                    if k == 2 {
                        n.ext = Some("\u{E9}x1".into());
                    }
                    let r = if i % 2 == 0 { "US" } else { &main };
                    v.push(Case::new("num").num(n).region(r).s("1$1"));
                }
            }
        }
    }
    v
}
fn c02_gen(env: &Env, r: &mut R) -> Case {
    let mut n = wild_number(env, r);
    if chance(r, 1) {
        n.ilz = Some(true);
        n.nlz = Some(range(r, 100, 3000) as i32);
    }
    let reg = if chance(r, 12) { soup(env, r, 2) } else { region_for(env, r, n.cc) };
    let other = if chance(r, 50) { related(env, r, &n) } else { wild_number(env, r) };
    let c = carrier(env, r);
    Case::new("num").num(n).region(reg).s(c).num2(other)
}

// ---------------------------------------------------------------- C09
fn rfc_ok(s: &str) -> bool {
    model::rx(r"^tel:\+[0-9]+(-[0-9]+)*(;ext=[0-9]+)?$".into()).is_match(s)
}
fn c09_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let n = &c.n().plain();
    let u = &env.lib;
    let nsn = n.nsn();
    if c.n() != n {
        // what else the value holds matters for zero alone
        for k in model::ALL_F {
            same(&format!("format-{k:?}"), || format!("format {:?} {k:?}", c.n()), &call::format(u, c.n(), k), &env.model.format(c.n(), k))?;
        }
    }
    let known = env.model.known_cc(n.cc);
    if known {
        st.hit();
        class_of(st, env, n);
        let t = env.model.main_meta(n.cc).unwrap();
        st.class(if Model::choose(&t.formats, &nsn).is_some() { "a pattern applies" } else { "no pattern applies" });
        if !t.intl_formats.is_empty() && Model::choose(&t.intl_formats, &nsn).is_some() {
            st.class("separate international pattern");
        }
    }
    if n.ext.is_some() {
        st.class("with extension");
    }
    for k in model::ALL_F {
        let got = call::format(u, n, k);
        let want = env.model.format(n, k);
        same(&format!("format-{k:?}"), || format!("format {n:?} {k:?}"), &got, &want)?;
        if !known {
            continue;
        }
        let ext_ok = n.ext_str().bytes().all(|b| b.is_ascii_digit());
        match k {
            F::E164 => same("e164", || format!("E164 of {n:?}"), &got, &format!("+{}{nsn}", n.cc))?,
            F::Intl if ext_ok && env.shipped => same("intl-digits", || format!("digits of {got:?}"), &model::digits_only(&got), &format!("{}{nsn}{}", n.cc, n.ext_str()))?,
            F::Rfc if ext_ok && env.shipped => {
                if !rfc_ok(&got) {
                    return fail("rfc-syntax", format!("{n:?} gives {got:?}"));
                }
            }
            _ => {}
        }
    }
    Ok(())
}
/// numbers around every formatting pattern: each territory, pattern and length
fn format_numbers(env: &Env, th: bool) -> Vec<Num> {
    let mut v: Vec<Num> = examples(env).into_iter().map(|x| x.1).collect();
    for t in env.terrs() {
        for z in if th { 0..10u64 } else { 1..2 } {
            for lead in 1..100u64 {
                for len in t.d(GENERAL).lens.iter().copied().chain(t.d(GENERAL).local.iter().copied()) {
                    let head = lead.to_string();
                    if (head.len() as i32) < len && len < 18 {
                        let tail: String = (0..(len as usize - head.len())).map(|i| (b'0' + ((i as u64 * z + z) % 10) as u8) as char).collect();
                        v.push(Num::from_nsn(t.cc, &format!("{head}{tail}")));
                    }
                }
            }
        }
    }
    v
}
/// numbers of nothing but zeros that kept what was typed
fn zero_numbers(env: &Env) -> Vec<Num> {
    let mut v = vec![];
    for t in env.terrs() {
        for k in 1..=17 {
            if !t.main && k % 3 != 2 {
                continue;
            }
            for src in [Src::Plus, Src::Default] {
                let s = "0".repeat(k);
                v.push(Num { raw: Some(format!("+{} {}-0", t.cc, &s[1..])), src: Some(src), ..Num::from_nsn(t.cc, &s) });
            }
        }
    }
    v
}
fn zero_cases(env: &Env) -> Vec<Case> {
    let mut v = vec![];
    for n in zero_numbers(env) {
        for r in [env.model.main_region(n.cc), "US", "ZZ"] {
            v.push(Case::new("num").num(n.clone()).region2(r));
        }
    }
    v
}
fn c09_sys(env: &Env, th: bool) -> Vec<Case> {
    format_numbers(env, th).into_iter().chain(zero_numbers(env)).map(|n| Case::new("num").num(n)).collect()
}
fn c09_gen(env: &Env, r: &mut R) -> Case {
    let mut n = if chance(r, 88) { number(env, r).0 } else { wild_number(env, r) };
    if chance(r, 30) {
        n.ext = Some(ext_digits(r));
    }
    if chance(r, 90) {
        n = n.plain();
    } else if chance(r, 50) {
        n.raw = Some(spelled(env, r, &n).0);
    }
    Case::new("num").num(n)
}

// ---------------------------------------------------------------- C10
fn c10_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let n = c.n();
    let u = &env.lib;
    let got = u.format_out_of_country_calling_number(&n.to_lib(), &c.region).into_owned();
    let want = env.model.out_of_country(n, &c.region);
    let m = &env.model;
    if m.known_cc(n.cc) {
        st.hit();
        st.class(match m.region(&c.region) {
            None => "unsupported calling region",
            Some(t) if t.cc == n.cc => "shared calling code",
            Some(t) if Model::dial_prefix(t).is_none() => "several prefixes, none preferred",
            Some(t) if t.pref_intl.is_some() => "preferred prefix",
            Some(_) => "single prefix",
        });
    }
    same("out-of-country", || format!("{n:?} from {}", c.region), &got, &want)?;
    if n.raw.is_none() && m.valid(n) && !got.contains('~') {
        // where the published rules can read the output back, so must the library
        let back = m.parse(&got, &c.region, false);
        if matches!(&back, Ok(b) if b.core() == n.core()) {
            st.class("read back");
            let p = call::parse(u, &got, &c.region);
            let same_nr = matches!(&p, Ok(x) if x.core() == n.core());
            if !same_nr || !u.is_valid_number(&p.as_ref().unwrap().to_lib()) {
                return fail("read-back", format!("{n:?} from {}: {got:?} parses to {p:?}", c.region));
            }
        } else {
            st.class("not readable by the rules");
        }
    }
    Ok(())
}
fn c10_sys(env: &Env, _: bool) -> Vec<Case> {
    // every calling region x one number of every calling code
    let mut v = vec![];
    let mut firsts: Vec<Num> = vec![];
    let mut regs: Vec<Num> = vec![];
    for t in env.terrs() {
        if let Some(e) = TYPES.iter().find_map(|d| t.d(*d).example.clone()) {
            let n = Num::from_nsn(t.cc, &e);
            if !firsts.iter().any(|x| x.cc == n.cc) {
                firsts.push(n.clone());
            }
            regs.push(n);
        }
    }
    for r in env.regions.iter().map(|s| s.as_str()).chain(ODD_REGIONS) {
        for n in &firsts {
            v.push(Case::new("num").num(n.clone()).region(r));
        }
    }
    for n in &regs {
        for r in env.model.regions_of(n.cc) {
            let mut m = n.clone();
            m.ext = Some("123".into());
            v.push(Case::new("num").num(m).region(r.clone()));
        }
    }
    for n in zero_numbers(env) {
        for r in [env.model.main_region(n.cc), "US", "BR"] {
            v.push(Case::new("num").num(n.clone()).region(r));
        }
    }
    v
}
fn c10_gen(env: &Env, r: &mut R) -> Case {
    let n = match weighted(r, &[45, 45, 10]) {
        0 => number(env, r).0,
        1 => {
            let mut n = valid_number(env, r);
            if chance(r, 25) {
                n.ext = Some(ext_digits(r));
            }
            n
        }
        _ => wild_number(env, r),
    };
    let reg = region_for(env, r, n.cc);
    Case::new("num").num(n).region(reg)
}

// ---------------------------------------------------------------- texts parsed with raw input kept
/// The number of a case: given, or the parse of its text.
fn number_of(env: &Env, c: &Case) -> Option<Num> {
    match &c.num {
        Some(n) => Some(n.clone()),
        None => call::parse_keep(&env.lib, &c.text, &c.region).ok(),
    }
}
fn raw_sys(env: &Env) -> Vec<Case> {
    // every territory: the example number written in each documented style, called from home,
    // from the main region and from abroad
    let mut v = vec![];
    for t in env.terrs() {
        let reg = if t.id == "001" { "US" } else { &t.id };
        let np = t.nat_prefix.as_deref().unwrap_or("0");
        for d in [FIXED, MOBILE, TOLLFREE, PREMIUM, UAN] {
            let Some(e) = &t.d(d).example else { continue };
            let n = Num::from_nsn(t.cc, e);
            let m = &env.model;
            for s in [
                e.clone(),
                format!("{np}{e}"),
                m.format(&n, F::Nat),
                m.format(&n, F::Intl),
                format!("+{}{e} ext. 7", t.cc),
                m.out_of_country(&n, "US"),
                m.out_of_country(&n, reg),
                format!("{}{e}", t.cc),
                m.format(&n, F::Intl)[1..].to_string(),
            ] {
                for from in [reg, m.main_region(t.cc), "US", "AU", "ZZ", "BR"] {
                    for default in [reg, "US"] {
                        v.push(Case::new("text").text(s.clone()).region(default).region2(from));
                    }
                }
            }
        }
    }
    v
}
/// every character in a raw input, of which nothing is asked but that formatting treats it by the rules
fn raw_chars(c: &Case) -> Vec<Case> {
    let mut v = vec![];
    for ch in block_chars(c) {
        for (cc, nn, raw, src, from) in [
            (44, 2070313000, format!("020 7031{ch}3000"), Src::Default, "US"),
            (1, 8007493524, format!("{ch}1 800{ch}SIX-flag{ch}"), Src::NoPlus, "GB"),
            (1, 8007493524, format!("1800 SIX{ch}{ch}flag"), Src::Plus, "CA"),
        ] {
            let n = Num { cc, nn, raw: Some(raw), src: Some(src), ..Num::default() };
            v.push(Case::new("num").num(n).region2(from));
        }
    }
    v
}
fn raw_gen(env: &Env, r: &mut R) -> Case {
    if chance(r, 18) {
        let n = wild_number(env, r);
        let from = region_for(env, r, n.cc);
        return Case::new("num").num(n).region2(from);
    }
    let (mut n, _) = number(env, r);
    if chance(r, 60) {
        n.ext = None;
    }
    let (mut s, reg) = spelled(env, r, &n);
    if chance(r, 30) {
        s = punctuate(r, &s, 15);
    }
    if chance(r, 20) {
        let k = range(r, 3, 6);
        s = vanity(r, &s, k);
    }
    if chance(r, 6) {
        s = rescript(r, &s);
    }
    if chance(r, 12) {
        s = format!("{s}{}{}", pick(r, &EXT_LABELS), ext_digits(r));
    }
    if chance(r, 6) {
        s = format!("{}{s}{}", pick(r, &["", " ", "*", "#", "(", "call "]), pick(r, &["", " ", "*", "#", ")", " *"]));
    }
    let from = match weighted(r, &[35, 25, 40]) {
        0 => reg.clone(),
        1 => region_for(env, r, n.cc),
        _ => any_region(env, r),
    };
    Case::new("text").text(s).region(reg).region2(from)
}

// ---------------------------------------------------------------- C11
fn c11_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    if c.k == "chars" {
        st.hit();
        return raw_chars(c).iter().try_for_each(|c| c11_check(env, c, st));
    }
    let Some(n) = number_of(env, c) else {
        st.class("text rejected");
        return Ok(());
    };
    let u = &env.lib;
    let from = &c.region2;
    let m = &env.model;
    let got = u.format_out_of_country_keeping_alpha_chars(&n.to_lib(), from).into_owned();
    same("keeping-alpha", || format!("{n:?} from {from}"), &got, &m.keeping_alpha(&n, from))?;
    if !n.raw_str().is_empty() && m.known_cc(n.cc) {
        st.hit();
        let shared = m.region(from).is_some_and(|t| t.cc == n.cc);
        st.class(match m.region(from) {
            None => "unsupported calling region",
            _ if shared => "shared calling code",
            Some(t) if Model::dial_prefix(t).is_none() => "several prefixes, none preferred",
            Some(_) => "prefix",
        });
        if model::letters(n.raw_str()) >= 3 {
            st.class("vanity raw input");
        }
        if !shared && (got.starts_with(char::is_whitespace) || got.is_empty()) {
            return fail("leading-blank", format!("{n:?} from {from}: {got:?}"));
        }
    }
    let p = n.plain();
    let a = u.format_out_of_country_keeping_alpha_chars(&p.to_lib(), from).into_owned();
    let b = u.format_out_of_country_calling_number(&p.to_lib(), from).into_owned();
    same("no-raw-input", || format!("{p:?} from {from}"), &a, &b)
}
fn c11_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v = raw_sys(env);
    v.extend(zero_cases(env));
    v.extend(char_blocks("chars", th));
    for from in env.regions.iter().map(|s| s.as_str()).chain(ODD_REGIONS) {
        for (t, r) in [("1800 six-flag", "US"), ("+1 800 SIX-flags ext. 5", "US"), ("1-800-SIX", "CA"), ("0800 DDA 005", "GB"), ("1300 FLOWERS", "AU"), ("+80 01234 5678", "US"), ("0011 1 800 abc-0000", "AU")] {
            v.push(Case::new("text").text(t).region(r).region2(from));
        }
    }
    v
}

// ---------------------------------------------------------------- C12
fn c12_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let Some(n) = number_of(env, c) else {
        st.class("text rejected");
        return Ok(());
    };
    let (u, m, from) = (&env.lib, &env.model, &c.region2);
    let p = n.to_lib();
    let fmt = u.format_number_for_mobile_dialing(&p, from, true).into_owned();
    let raw = u.format_number_for_mobile_dialing(&p, from, false).into_owned();
    let what = |k| format!("{n:?} from {from} {k}");
    same("mobile-formatted", || what("formatted"), &fmt, &m.mobile_dialing(&n, from, true))?;
    same("mobile-unformatted", || what("unformatted"), &raw, &m.mobile_dialing(&n, from, false))?;
    if !m.known_cc(n.cc) {
        st.class("unknown calling code");
        return Ok(());
    }
    st.hit();
    let home = m.main_region(n.cc) == from;
    st.class(match (home, raw.is_empty()) {
        (true, false) => "home",
        (true, true) => "home, not diallable",
        (false, false) => "abroad",
        (false, true) => "abroad, not diallable",
    });
    if !raw.chars().all(|c| c.is_ascii_digit() || "+*#".contains(c)) {
        return fail("mobile-charset", format!("{}: {raw:?}", what("unformatted")));
    }
    if env.shipped {
        same("mobile-consistent", || what("consistency"), &raw, &model::diallable(&fmt))?;
    }
    let mut q = n.clone();
    q.ext = None;
    let q = u.format_number_for_mobile_dialing(&q.to_lib(), from, true).into_owned();
    same("mobile-extension", || what("without extension"), &fmt, &q)
}
fn c12_sys(env: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![];
    for (_, n) in examples(env) {
        let main = env.model.main_region(n.cc).to_string();
        for from in env.model.regions_of(n.cc).iter().map(|s| s.as_str()).chain(["US", "BR", "CO", "AE", "UN001", "001", "ZZ", main.as_str()]) {
            for (e, car) in [(None, None), (Some("4"), Some("15"))] {
                let mut k = n.clone();
                k.ext = e.map(|s: &str| s.into());
                k.carrier = car.map(|s: &str| s.into());
                v.push(Case::new("num").num(k).region2(from));
            }
        }
    }
    // every no-international-dialling example
    for t in env.terrs() {
        if let Some(e) = &t.d(NOINTL).example {
            for from in ["US", "ZZ", t.id.as_str()] {
                v.push(Case::new("num").num(Num::from_nsn(t.cc, e)).region2(from));
            }
        }
    }
    v.extend(zero_cases(env));
    v
}
fn c12_gen(env: &Env, r: &mut R) -> Case {
    match weighted(r, &[55, 20, 25]) {
        0 => {
            let (mut n, _) = number(env, r);
            if chance(r, 12) {
                n = noint_number(env, r);
            }
            if chance(r, 35) {
                n.carrier = Some(if chance(r, 70) { digits(r, 2) } else { carrier(env, r) });
            }
            if chance(r, 20) {
                let (s, _) = spelled(env, r, &n);
                n.raw = Some(s);
            }
            let main = env.model.main_region(n.cc).to_string();
            let from = if chance(r, 50) { main } else { region_for(env, r, n.cc) };
            Case::new("num").num(n).region2(from)
        }
        1 => {
            let n = wild_number(env, r);
            let from = if chance(r, 40) { env.model.main_region(n.cc).to_string() } else { region_for(env, r, n.cc) };
            Case::new("num").num(n).region2(from)
        }
        _ => raw_gen(env, r),
    }
}
fn noint_number(env: &Env, r: &mut R) -> Num {
    for _ in 0..20 {
        let t = pick(r, env.terrs());
        if let Some(s) = desc_nsn(r, t, NOINTL) {
            return Num::from_nsn(t.cc, &s);
        }
    }
    valid_number(env, r)
}

// ---------------------------------------------------------------- C13
fn c13_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    if c.k == "chars" {
        st.hit();
        return raw_chars(c).iter().try_for_each(|c| c13_check(env, c, st));
    }
    let Some(n) = number_of(env, c) else {
        st.class("text rejected");
        return Ok(());
    };
    let (u, m, from) = (&env.lib, &env.model, &c.region2);
    let got = u.format_in_original_format(&n.to_lib(), from).into_owned();
    if got != m.original(&n, from, false) {
        same("original", || format!("{n:?} from {from}"), &got, &m.original(&n, from, true))?;
    }
    if c.num.is_none() {
        st.hit();
        st.class(&format!("{:?}", n.src.unwrap_or(Src::Unspecified)));
        if got == c.text {
            st.class("raw input returned");
        } else {
            st.class("reformatted");
        }
        same("diallable-changed", || format!("{:?} ({n:?}) rendered as {got:?}", c.text), &model::diallable(&got), &model::diallable(&c.text))?;
    }
    Ok(())
}

// ---------------------------------------------------------------- C14
fn c14_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let (u, m, n) = (&env.lib, &env.model, c.n());
    let got = u.format_national_number_with_carrier_code(&n.to_lib(), &c.s);
    same("carrier-format", || format!("{n:?} carrier {:?}", c.s), &got, &m.format_carrier(n, &c.s))?;
    let nat = call::format(u, &n.plain(), F::Nat);
    if m.known_cc(n.cc) {
        let t = m.main_meta(n.cc).unwrap();
        let f = Model::choose(&t.formats, &n.nsn());
        let used = !c.s.is_empty() && f.is_some_and(|f| f.cc_rule.as_deref().unwrap_or("") != "");
        if used {
            st.hit();
            st.class("carrier rule applies");
            if !got.contains(&c.s) {
                return fail("carrier-missing", format!("{n:?} carrier {:?}: {got:?}", c.s));
            }
        } else {
            st.class("no carrier rule");
            same("carrier-national", || format!("{n:?} carrier {:?} vs national", c.s), &got, &nat)?;
        }
        if n.ext.is_some() {
            st.class("with extension");
        }
    }
    Ok(())
}
fn carrier_terrs(env: &Env) -> Vec<&Terr> {
    env.terrs().iter().filter(|t| t.formats.iter().any(|f| f.cc_rule.as_deref().unwrap_or("") != "")).collect()
}
fn c14_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v = vec![];
    let ccs: Vec<i32> = carrier_terrs(env).iter().map(|t| t.cc).collect();
    for n in format_numbers(env, th) {
        let k = if ccs.contains(&n.cc) { 4 } else { 1 };
        for s in ["15", "", "121", "0$1"].into_iter().take(k) {
            v.push(Case::new("num").num(n.clone()).s(s));
        }
    }
    v.extend(zero_numbers(env).into_iter().map(|n| Case::new("num").num(n).s("15")));
    v
}
fn c14_gen(env: &Env, r: &mut R) -> Case {
    let ts = carrier_terrs(env);
    let mut n = if !ts.is_empty() && chance(r, 70) {
        let t = *pick(r, &ts);
        let (s, _) = nsn_for(env, r, t);
        Num::from_nsn(t.cc, &s[..s.len().min(19)])
    } else {
        wild_number(env, r)
    };
    if chance(r, 25) {
        n.ext = Some(ext_digits(r));
    }
    let c = if chance(r, 50) {
        let k = range(r, 1, 4);
        digits(r, k)
    } else {
        carrier(env, r)
    };
    Case::new("num").num(n).s(c)
}

// ---------------------------------------------------------------- C15
fn c15_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let (u, m, n) = (&env.lib, &env.model, c.n());
    let p = n.to_lib();
    let t = m.num_type(n);
    if t != T::Unknown {
        st.hit();
    }
    st.class(&format!("{t:?}"));
    same("type", || format!("type of {n:?}"), &call::ty(u.get_number_type(&p)), &t)?;
    same("valid", || format!("validity of {n:?}"), &u.is_valid_number(&p), &(t != T::Unknown))?;
    let mut any = false;
    for r in m.regions_of(n.cc).iter().map(|s| s.as_str()).chain([c.region.as_str(), "001", "ZZ"]) {
        let v = u.is_valid_number_for_region(&p, r);
        same("valid-for-region", || format!("{n:?} valid for {r}"), &v, &m.valid_for(n, r))?;
        any |= v;
    }
    if t != T::Unknown && !any {
        return fail("valid-nowhere", format!("{n:?} is valid ({t:?}) but for no region of its calling code"));
    }
    Ok(())
}
fn c15_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v: Vec<Case> = vec![];
    for n in format_numbers(env, th) {
        v.push(Case::new("num").num(n).region("US"));
    }
    // all examples under all calling codes, truncated and extended
    for (_, n) in examples(env) {
        for cc in &env.ccs {
            if th || (*cc as u64 + n.nn) % 11 == 0 {
                v.push(Case::new("num").num(Num { cc: *cc, ..n.clone() }).region("GB"));
            }
        }
        for d in 0..10 {
            v.push(Case::new("num").num(Num { nn: n.nn.saturating_mul(10) + d, ..n.clone() }).region("US"));
        }
        v.push(Case::new("num").num(Num { nn: n.nn / 10, ..n.clone() }).region("US"));
        v.push(Case::new("num").num(Num { ilz: Some(true), ..n.clone() }).region("IT"));
    }
    v
}
fn c15_gen(env: &Env, r: &mut R) -> Case {
    let n = if chance(r, 92) { number(env, r).0 } else { wild_number(env, r) };
    let reg = any_region(env, r);
    Case::new("num").num(n).region(reg)
}

// ---------------------------------------------------------------- C16
fn c16_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let (u, m, n) = (&env.lib, &env.model, c.n());
    let p = n.to_lib();
    let want = m.possible(n);
    st.class(&format!("{want:?}"));
    if want != L::InvalidCc {
        st.hit();
    }
    let got = call::verdict(u.is_possible_number_with_reason(&p));
    same("verdict", || format!("verdict on {n:?}"), &got, &want)?;
    same("possible", || format!("is_possible {n:?}"), &u.is_possible_number(&p), &matches!(want, L::Possible | L::LocalOnly))?;
    if env.shipped && u.is_valid_number(&p) && !u.is_possible_number(&p) {
        return fail("valid-not-possible", format!("{n:?} is valid but {got:?}"));
    }
    Ok(())
}
fn c16_sys(env: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![];
    for cc in env.ccs.iter().copied().chain([0, -1, 2, 999, 1000, 210, i32::MAX]) {
        for len in 1..=20usize {
            for lead in [1u64, 5, 9] {
                let s = format!("{lead}{}", "0".repeat(len - 1));
                if let Ok(nn) = s.parse() {
                    v.push(Case::new("num").num(Num { cc, nn, ..Default::default() }));
                    for z in 1..=4 {
                        v.push(Case::new("num").num(Num { cc, nn, ilz: Some(true), nlz: if z == 1 { None } else { Some(z) }, ..Default::default() }));
                    }
                    v.push(Case::new("num").num(Num { cc, nn, ilz: Some(false), nlz: Some(3), ..Default::default() }));
                }
            }
        }
        for z in 0..20 {
            v.push(Case::new("num").num(Num { cc, nn: 0, ilz: Some(true), nlz: Some(z), ..Default::default() }));
        }
    }
    v
}

// ---------------------------------------------------------------- C17
fn c17_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let (u, m) = (&env.lib, &env.model);
    match c.k.as_str() {
        "number" => {
            let n = c.n();
            let got = u.get_region_code_for_number(&n.to_lib()).to_string();
            let want = m.region_of(n).to_string();
            if m.regions_of(n.cc).len() > 1 {
                st.hit();
                st.class(if want == "ZZ" { "shared code: ZZ" } else if want == m.main_region(n.cc) { "shared code: main region" } else { "shared code: other region" });
            } else {
                st.class(if want == "ZZ" { "unknown code" } else { "single region" });
            }
            same("region-of-number", || format!("region of {n:?}"), &got, &want)
        }
        "code" => {
            let cc = c.i as i32;
            same("main-region", || format!("main region of +{cc}"), &u.get_region_code_for_country_code(cc).to_string(), &m.main_region(cc).to_string())?;
            let got: Option<Vec<String>> = u.get_region_codes_for_country_code(cc).map(|i| i.map(|s| s.to_string()).collect());
            let want = m.cc_regions.get(&cc).cloned();
            if want.is_some() {
                st.hit();
            }
            st.class("calling code");
            // main region first; the others in any order
            let norm = |v: &Option<Vec<String>>| {
                v.clone().map(|v| {
                    let mut w = v[1..].to_vec();
                    w.sort();
                    (v[0].clone(), w)
                })
            };
            if got.as_ref().is_some_and(|v| v.is_empty()) {
                return fail("regions-of-code", format!("+{cc}: empty list"));
            }
            same("regions-of-code", || format!("regions of +{cc}"), &norm(&got), &norm(&want))
        }
        "region" => {
            let r = &c.region;
            let t = m.region(r);
            if t.is_some() {
                st.hit();
            }
            st.class("region string");
            same("code-of-region", || format!("calling code of {r:?}"), &u.get_country_code_for_region(r), &t.map(|t| t.cc))?;
            same("nanpa", || format!("nanpa {r:?}"), &u.is_nanpa_country(r), &t.is_some_and(|t| t.cc == 1))?;
            let s = u.get_supported_regions().any(|x| x == r);
            same("supported", || format!("supported {r:?}"), &s, &t.is_some())
        }
        _ => {
            let mut got: Vec<String> = u.get_supported_regions().map(|s| s.to_string()).collect();
            got.sort();
            st.hit();
            same("supported-regions", || "supported regions".into(), &got, &m.regions)
        }
    }
}
fn c17_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v = vec![Case::new("all")];
    for cc in -2000..70000 {
        v.push(Case::new("code").i(cc));
    }
    for k in 0..31 {
        v.push(Case::new("code").i(1i64 << k));
        v.push(Case::new("code").i(-(1i64 << k)));
    }
    let mut two: Vec<String> = vec![];
    for a in b'A'..=b'Z' {
        for b in b'A'..=b'Z' {
            two.push(String::from_utf8(vec![a, b]).unwrap());
            two.push(String::from_utf8(vec![a + 32, b + 32]).unwrap());
            two.push(String::from_utf8(vec![a, b + 32]).unwrap());
        }
    }
    for r in two.iter().map(|s| s.as_str()).chain(ODD_REGIONS).chain(["000", "002", "USA", "U S", "U", "UUS", "USUS"]) {
        v.push(Case::new("region").region(r));
    }
    for i in 0..1000 {
        v.push(Case::new("region").region(format!("{i:03}")));
    }
    // every leading block of the shared calling codes
    for cc in &env.shared_ccs {
        let mut lens: Vec<i32> = env.model.main_meta(*cc).unwrap().d(GENERAL).lens.clone();
        for r in env.model.regions_of(*cc) {
            lens.extend(&env.model.region(r).unwrap().d(GENERAL).lens);
        }
        lens.sort();
        lens.dedup();
        for len in lens {
            for lead in 1..10000u64 {
                if !th && lead >= 1000 && (lead + *cc as u64) % 4 != 0 {
                    continue;
                }
                let h = lead.to_string();
                if h.len() > len as usize {
                    continue;
                }
                let s = format!("{h}{}", &"2345678234567823456"[..len as usize - h.len()]);
                v.push(Case::new("number").num(Num::from_nsn(*cc, &s)));
            }
        }
    }
    v
}
fn c17_gen(env: &Env, r: &mut R) -> Case {
    match weighted(r, &[75, 15, 5, 5]) {
        0 => {
            let cc = *pick(r, &env.shared_ccs);
            let reg = pick(r, env.model.regions_of(cc)).clone();
            let (s, _) = nsn_for(env, r, env.model.region(&reg).unwrap());
            Case::new("number").num(Num::from_nsn(cc, &s[..s.len().min(19)]))
        }
        1 => Case::new("number").num(wild_number(env, r)),
        2 => Case::new("code").i(odd_cc(r) as i64),
        _ => {
            let k = range(r, 0, 3);
            Case::new("region").region((0..k).map(|_| any_char(r)).collect::<String>())
        }
    }
}

// ---------------------------------------------------------------- C18
fn type_desc(t: T) -> usize {
    match t {
        T::FixedLine | T::FixedOrMobile => FIXED,
        T::Mobile => MOBILE,
        T::TollFree => TOLLFREE,
        T::Premium => PREMIUM,
        T::Shared => SHARED,
        T::Personal => PERSONAL,
        T::Voip => VOIP,
        T::Pager => PAGER,
        T::Uan => UAN,
        T::Voicemail => VOICEMAIL,
        T::Unknown => GENERAL,
    }
}
fn c18_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let (u, m) = (&env.lib, &env.model);
    if c.k == "type" {
        let lt = call::LIB_TYPES[c.i as usize % 12];
        let t = call::ty(lt);
        let d = type_desc(t);
        let exists = t != T::Unknown && m.terrs.iter().any(|x| x.d(d).example.as_deref().unwrap_or("") != "");
        let fresh = c.region2 == "fresh";
        let own;
        let u = if fresh {
            own = PhoneNumberUtil::new();
            &own
        } else {
            u
        };
        st.class("type");
        match u.get_example_number_for_type(lt) {
            Ok(p) => {
                st.hit();
                let n = Num::from_lib(&p);
                if !exists {
                    return fail("type-example-invented", format!("{t:?}: {n:?}, but none is published"));
                }
                if !u.is_valid_number(&p) || !m.valid(&n) {
                    return fail("type-example-invalid", format!("{t:?}: {n:?} is not valid"));
                }
                let got = call::ty(u.get_number_type(&p));
                let fm = T::FixedOrMobile;
                let ok = got == t || (got == fm && (t == T::FixedLine || t == T::Mobile)) || (t == fm && (got == T::FixedLine || got == fm));
                if !ok {
                    return fail("type-example-type", format!("example for {t:?} is {n:?}, of type {got:?}"));
                }
                if !m.terrs.iter().any(|x| x.cc == n.cc && x.d(d).example.as_deref() == Some(n.nsn().as_str())) {
                    return fail("type-example-unpublished", format!("example for {t:?} is {n:?}: not a published example"));
                }
            }
            Err(e) => {
                if exists {
                    return fail("type-example-missing", format!("{t:?}: {e:?}"));
                }
                same("type-example-error", || format!("{t:?}"), &format!("{e:?}"), &"CouldNotGetNumber".to_string())?;
            }
        }
        return Ok(());
    }
    let r = &c.region;
    let ex = u.get_example_number(r);
    let inv = u.get_invalid_example_number(r);
    let Some(t) = m.region(r) else {
        st.class("unsupported region");
        same("unsupported-example", || format!("example of {r:?}"), &ex.map(|n| Num::from_lib(&n)).map_err(|e| format!("{e:?}")), &Err("InvalidRegionCode".into()))?;
        return same("unsupported-invalid", || format!("invalid example of {r:?}"), &inv.map(|n| Num::from_lib(&n)).map_err(|e| format!("{e:?}")), &Err("InvalidRegionCode".into()));
    };
    st.hit();
    st.class("supported region");
    let e = t.d(FIXED).example.clone().unwrap_or_default();
    match ex {
        Ok(p) => {
            let n = Num::from_lib(&p);
            same("example-published", || format!("example of {r}"), &n.core(), &Num::from_nsn(t.cc, &e).core())?;
            if !u.is_valid_number_for_region(&p, r) || !m.valid_for(&n, r) {
                return fail("example-invalid", format!("example of {r}, {n:?}, is not valid for it"));
            }
            let ty = call::ty(u.get_number_type(&p));
            if !matches!(ty, T::FixedLine | T::FixedOrMobile) {
                return fail("example-type", format!("example of {r}, {n:?}, has type {ty:?}"));
            }
        }
        Err(x) => return fail("example-missing", format!("{r}: {x:?}")),
    }
    match inv {
        Ok(p) => {
            let n = Num::from_lib(&p);
            if n.cc != t.cc || u.is_valid_number(&p) || m.valid(&n) {
                return fail("invalid-example", format!("invalid example of {r} is {n:?}"));
            }
            // it stems from the example number: a proper prefix of it, the longest invalid one
            let want = (2..e.len()).rev().find_map(|k| m.parse(&e[..k], r, false).ok().filter(|x| !m.valid(x)));
            same("invalid-example-longest", || format!("invalid example of {r}"), &Some(n.core()), &want.map(|x| x.core()))
        }
        Err(x) => fail("invalid-example-missing", format!("{r}: {x:?}")),
    }
}
fn c18_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v: Vec<Case> = env.regions.iter().map(|r| Case::new("region").region(r.clone())).collect();
    for r in ODD_REGIONS {
        v.push(Case::new("region").region(r));
    }
    for a in b'A'..=b'Z' {
        for b in b'A'..=b'Z' {
            v.push(Case::new("region").region(String::from_utf8(vec![a, b]).unwrap()));
            v.push(Case::new("region").region(String::from_utf8(vec![a + 32, b]).unwrap()));
        }
    }
    for i in 0..12 {
        v.push(Case::new("type").i(i));
        // maps are seeded per instance
        for _ in 0..if th { 200 } else { 12 } {
            v.push(Case::new("type").i(i).region2("fresh"));
        }
    }
    v
}
fn c18_gen(env: &Env, r: &mut R) -> Case {
    let reg = match below(r, 3) {
        0 => pick(r, &env.regions).to_lowercase(),
        1 => soup(env, r, 2),
        _ => {
            let k = range(r, 0, 3);
            (0..k).map(|_| any_char(r)).collect::<String>()
        }
    };
    Case::new("region").region(reg)
}

// ---------------------------------------------------------------- C19
/// A number related to n: same, or differing in a way the grades distinguish.
pub fn related(env: &Env, r: &mut R, n: &Num) -> Num {
    let mut m = n.clone();
    for _ in 0..weighted(r, &[15, 45, 25, 15]) {
        match below(r, 14) {
            0 => m.cc = 0,
            1 => m.cc = any_cc(env, r),
            2 => m.ext = None,
            3 => m.ext = Some(ext_digits(r)),
            4 => m.ext = n.ext.clone().or(Some(String::new())),
            5 => {
                let s = m.nn.to_string();
                let k = below(r, s.len());
                m.nn = s[k..].parse().unwrap_or(0);
            }
            6 => {
                let s = format!("{}{}", range(r, 1, 99), m.nn);
                m.nn = s.parse().unwrap_or(m.nn);
            }
            7 => {
                m.ilz = Some(true);
                m.nlz = *pick(r, &[None, Some(1), Some(2), Some(3)]);
            }
            8 => {
                m.ilz = None;
                m.nlz = None;
            }
            9 => {
                m.ilz = Some(false);
                m.nlz = *pick(r, &[None, Some(1), Some(2)]);
            }
            10 => {
                let (s, _) = spelled(env, r, n);
                m.raw = Some(s);
                m.src = Some(*pick(r, &ALL_SRC));
                m.carrier = Some(carrier(env, r));
            }
            11 => m.nn = m.nn.wrapping_add(1),
            12 => {
                let s = m.nn.to_string();
                let k = range(r, 1, s.len());
                m.nn = s[..k].parse().unwrap();
            }
            _ => m.nn = 0,
        }
    }
    m
}
fn c19_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let u = &env.lib;
    let (a, b) = (c.n(), c.n2());
    let got = call::matching(u, a, b);
    let back = call::matching(u, b, a);
    let want = Model::matching(a, b);
    st.class(&format!("{want:?}"));
    if want != M::No {
        st.hit();
    }
    same("symmetry", || format!("match {a:?} / {b:?} swapped"), &back, &got)?;
    for x in [a, b] {
        let s = call::matching(u, x, x);
        let w = if x.cc != 0 { M::Exact } else { M::Nsn };
        same("reflexive", || format!("{x:?} with itself"), &s, &w)?;
    }
    let p = call::matching(u, &a.plain(), b);
    same("raw-relevant", || format!("match {a:?} / {b:?} without raw input, source, carrier"), &p, &got)?;
    let mut d = b.clone();
    d.raw = Some("x".into());
    d.src = Some(Src::Idd);
    d.carrier = Some("77".into());
    same("raw-relevant", || format!("match {a:?} / {d:?} vs plain"), &call::matching(u, a, &d), &got)?;
    same("grade", || format!("match {a:?} / {b:?}"), &got, &want)
}
fn c19_sys(_: &Env, _: bool) -> Vec<Case> {
    // a full cross product of small variants
    let mut ns = vec![];
    for cc in [0, 1, 39, 44] {
        for nn in [0, 5, 45, 12345, 2345, 612345, 36618300] {
            for ext in [None, Some(""), Some("3"), Some("03")] {
                for (ilz, nlz) in [(None, None), (Some(true), None), (Some(true), Some(1)), (Some(true), Some(2)), (Some(false), None), (Some(false), Some(2))] {
                    if (cc == 44 && ext.is_some()) || (cc == 1 && nlz == Some(2)) {
                        continue;
                    }
                    ns.push(Num { cc, nn, ext: ext.map(|s| s.into()), ilz, nlz, ..Default::default() });
                }
            }
        }
    }
    let mut v = vec![];
    for a in &ns {
        for b in &ns {
            v.push(Case::new("pair").num(a.clone()).num2(b.clone()));
        }
    }
    v
}
fn c19_gen(env: &Env, r: &mut R) -> Case {
    let n = if chance(r, 80) { number(env, r).0 } else { wild_number(env, r) };
    let m = if chance(r, 90) { related(env, r, &n) } else { number(env, r).0 };
    if chance(r, 50) { Case::new("pair").num(n).num2(m) } else { Case::new("pair").num(m).num2(n) }
}

// ---------------------------------------------------------------- C20
fn c20_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let (u, m, n) = (&env.lib, &env.model, c.n());
    let mut p = n.to_lib();
    let ok = u.truncate_too_long_number(&mut p);
    let got = Num::from_lib(&p);
    let want = m.truncate(n);
    st.class(match &want {
        None => "no valid prefix",
        Some(x) if x == n => "already valid",
        Some(_) => "truncated",
    });
    if !m.valid(n) {
        st.hit();
    }
    same("truncate-result", || format!("truncate {n:?} -> {got:?}"), &ok, &want.is_some())?;
    same("truncate-number", || format!("truncate {n:?}"), &got, want.as_ref().unwrap_or(n))?;
    if ok && !u.is_valid_number(&p) {
        return fail("truncate-invalid", format!("truncate {n:?} -> {got:?}, not valid"));
    }
    Ok(())
}
fn c20_sys(env: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![];
    for (_, n) in examples(env) {
        for k in 0..=9u32 {
            for d in [0u64, 7] {
                let mut m = n.clone();
                for _ in 0..k {
                    if let Some(x) = m.nn.checked_mul(10).and_then(|x| x.checked_add(d)) {
                        m.nn = x;
                    }
                }
                if k == 3 {
                    m.ext = Some("12".into());
                    m.raw = Some("raw".into());
                    m.src = Some(Src::Plus);
                    m.carrier = Some("9".into());
                }
                v.push(Case::new("num").num(m));
            }
        }
    }
    v
}
fn c20_gen(env: &Env, r: &mut R) -> Case {
    let mut n = match weighted(r, &[60, 25, 15]) {
        0 => {
            let mut n = valid_number(env, r);
            for _ in 0..range(r, 0, 8) {
                if let Some(x) = n.nn.checked_mul(10).and_then(|x| x.checked_add(below(r, 10) as u64)) {
                    n.nn = x;
                }
            }
            n
        }
        1 => number(env, r).0,
        _ => wild_number(env, r),
    };
    if chance(r, 20) {
        n.ext = Some(ext_digits(r));
        n.raw = Some(n.nsn());
        n.src = Some(*pick(r, &ALL_SRC));
    }
    Case::new("num").num(n)
}

// ---------------------------------------------------------------- C21
fn c21_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let (u, m) = (&env.lib, &env.model);
    let n = c.n();
    let p = n.to_lib();
    let what = |k: &str| format!("{k} of {n:?}");
    let t = m.num_type(n);
    if t != T::Unknown {
        st.hit();
    }
    let geo = m.is_geographical(n);
    st.class(if geo { "geographical" } else if t == T::Unknown { "unknown type" } else { "not geographical" });
    same("geographical", || what("geographical"), &u.is_number_geographical(&p), &geo)?;
    let ndc = m.ndc_len(n);
    same("ndc-length", || what("ndc length"), &u.get_length_of_national_destination_code(&p), &ndc)?;
    let area = m.area_len(n);
    if area > 0 {
        st.class("with area code");
    }
    same("area-length", || what("area code length"), &u.get_length_of_geographical_area_code(&p), &area)?;
    let d = m.intl_diallable(n);
    if !d {
        st.class("not internationally diallable");
    }
    same("intl-diallable", || what("internationally diallable"), &u.can_be_internationally_dialled(&p), &d)?;
    // area code and subscriber number make up the national number
    if area > n.nsn().len() {
        return fail("area-too-long", what("area code length"));
    }
    Ok(())
}
fn c21_sys(env: &Env, th: bool) -> Vec<Case> {
    let mut v: Vec<Case> = format_numbers(env, th).into_iter().map(|n| Case::new("num").num(n)).collect();
    for t in env.terrs() {
        if let Some(e) = &t.d(NOINTL).example {
            v.push(Case::new("num").num(Num::from_nsn(t.cc, e)));
        }
    }
    v
}
fn c21_gen(env: &Env, r: &mut R) -> Case {
    let mut n = match weighted(r, &[50, 25, 15, 10]) {
        0 => valid_number(env, r),
        1 => number(env, r).0,
        2 => noint_number(env, r),
        _ => wild_number(env, r).plain(),
    };
    if chance(r, 10) {
        n.ext = Some(ext_digits(r));
    }
    Case::new("num").num(n)
}

// ---------------------------------------------------------------- C23
fn op_answer(u: &PhoneNumberUtil, c: &Case) -> Vec<String> {
    match c.k.as_str() {
        "text" => call::text_profile(u, &c.text, &c.region),
        "single" => vec![single(u, c.n(), &c.region, c.i)],
        "tables" => {
            let mut s: Vec<&str> = u.get_supported_regions().collect();
            s.sort();
            let cc = c.i as i32;
            let mut rs: Vec<&str> = u.get_region_codes_for_country_code(cc).map(|i| i.collect()).unwrap_or_default();
            if rs.len() > 1 {
                rs[1..].sort();
            }
            vec![
                s.join(" "),
                rs.join(" "),
                u.get_region_code_for_country_code(cc).to_string(),
                format!("{:?}", u.get_example_number_for_type(call::LIB_TYPES[(c.i.unsigned_abs() % 12) as usize]).map(|n| Num::from_lib(&n))),
            ]
        }
        _ => {
            let n = c.n();
            let p = n.to_lib();
            let v = call::profile(u, n, &c.region, &c.s, c.num2.as_ref().unwrap_or(n));
            // no call changes the number it is given
            let q = p.clone();
            u.format(&p, PhoneNumberFormat::National);
            u.is_number_match(&p, &q);
            u.format_in_original_format(&p, &c.region);
            u.format_number_for_mobile_dialing(&p, &c.region, true);
            let mut v = v;
            v.push(format!("argument unchanged {}", p == q));
            v
        }
    }
}
fn diff(a: &[String], b: &[String]) -> String {
    a.iter().zip(b).find(|(x, y)| x != y).map(|(x, y)| format!("{x} instead of {y}")).unwrap_or_default()
}
/// An instance with a history of some thousand calls across all territories, in an order given by the seed.
fn warmed(env: &Env, seed: i64) -> Arc<PhoneNumberUtil> {
    type Slots = Mutex<HashMap<i64, Arc<OnceLock<Arc<PhoneNumberUtil>>>>>;
    static WARM: OnceLock<Slots> = OnceLock::new();
    let slot = WARM.get_or_init(Default::default).lock().unwrap().entry(seed).or_default().clone();
    slot.get_or_init(|| {
        let mut b = [7u8; 32];
        b[..8].copy_from_slice(&seed.to_le_bytes());
        let r = &mut TestRng::from_seed(RngAlgorithm::ChaCha, &b);
        let mut todo: Vec<(&Terr, String)> = vec![];
        for t in env.terrs() {
            for d in 0..NDESC {
                for _ in 0..2 {
                    if let Some(s) = desc_nsn(r, t, d) {
                        todo.push((t, s));
                    }
                }
            }
        }
        for i in (1..todo.len()).rev() {
            todo.swap(i, below(r, i + 1));
        }
        let u = PhoneNumberUtil::new();
        for (t, s) in todo {
            let p = Num::from_nsn(t.cc, &s).to_lib();
            match below(r, 6) {
                0 | 1 => {
                    u.is_valid_number_for_region(&p, &t.id);
                }
                2 => {
                    u.get_number_type(&p);
                }
                3 => {
                    u.format(&p, call::f(*pick(r, &crate::model::ALL_F)));
                }
                4 => {
                    let _ = u.parse(&s, &t.id);
                }
                _ => {
                    u.format_national_number_with_carrier_code(&p, "15");
                    u.can_be_internationally_dialled(&p);
                }
            }
        }
        Arc::new(u)
    })
    .clone()
}
pub const SINGLES: i64 = 15;
/// One call about a number, and nothing else.
fn single(u: &PhoneNumberUtil, n: &Num, region: &str, i: i64) -> String {
    let p = n.to_lib();
    match i {
        0 => format!("valid-for-region {}", u.is_valid_number_for_region(&p, region)),
        1 => format!("valid {}", u.is_valid_number(&p)),
        2 => format!("type {:?}", call::ty(u.get_number_type(&p))),
        3 => format!("region {}", u.get_region_code_for_number(&p)),
        4 => format!("diallable {}", u.can_be_internationally_dialled(&p)),
        5 => format!("out-of-country {}", u.format_out_of_country_calling_number(&p, region)),
        6 => format!("mobile {}", u.format_number_for_mobile_dialing(&p, region, true)),
        7 => format!("parse {:?}", call::parse(u, &n.nsn(), region)),
        8 => format!("parse {:?}", call::parse(u, &format!("+{}{}", n.cc, n.nsn()), region)),
        9 => format!("nsn {}", u.get_national_significant_number(&p)),
        10 => format!("verdict {:?}", call::verdict(u.is_possible_number_with_reason(&p))),
        _ => format!("format {}", u.format(&p, call::f(crate::model::ALL_F[(i - 11) as usize]))),
    }
}
/// The answer the model expects of it.
fn single_want(m: &Model, n: &Num, region: &str, i: i64) -> String {
    match i {
        0 => format!("valid-for-region {}", m.valid_for(n, region)),
        1 => format!("valid {}", m.valid(n)),
        2 => format!("type {:?}", m.num_type(n)),
        3 => format!("region {}", m.region_of(n)),
        4 => format!("diallable {}", m.intl_diallable(n)),
        5 => format!("out-of-country {}", m.out_of_country(n, region)),
        6 => format!("mobile {}", m.mobile_dialing(n, region, true)),
        7 => format!("parse {:?}", m.parse(&n.nsn(), region, false)),
        8 => format!("parse {:?}", m.parse(&format!("+{}{}", n.cc, n.nsn()), region, false)),
        9 => format!("nsn {}", n.nsn()),
        10 => format!("verdict {:?}", m.possible(n)),
        _ => format!("format {}", m.format(n, crate::model::ALL_F[(i - 11) as usize])),
    }
}
/// What a process that does nothing else answers (the other side is `ask_here`).
fn ask_alone(o: &Case) -> Vec<String> {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mut k = Command::new(std::env::current_exe().expect("exe"))
        .arg("ASK")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .expect("child");
    k.stdin.take().unwrap().write_all(serde_json::to_string(o).unwrap().as_bytes()).ok();
    let out = k.wait_with_output().expect("child output");
    serde_json::from_slice(&out.stdout).unwrap_or_else(|_| vec![format!("the process ends with {}", out.status)])
}
pub fn ask_here() {
    let c: Case = serde_json::from_reader(std::io::stdin()).expect("case");
    println!("{}", serde_json::to_string(&op_answer(&PhoneNumberUtil::new(), &c)).unwrap());
}
fn c23_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let ops = &c.ops;
    if ops.is_empty() {
        return Ok(());
    }
    if c.k == "warm" {
        // the same question to instances with different histories
        st.hit();
        st.class("long histories");
        let (a, b) = (warmed(env, c.i / WARM_SEEDS), warmed(env, c.i % WARM_SEEDS));
        for o in ops {
            let (x, y) = (op_answer(&a, o), op_answer(&b, o));
            if x != y {
                return fail("long-history", format!("{} after two histories: {}", serde_json::to_string(o).unwrap(), diff(&x, &y)));
            }
            // The model points at answers worth asking an instance without a history about.
            if let Some(n) = &o.num {
                for i in 0..SINGLES {
                    let want = single_want(&env.model, n, &o.region, i);
                    for u in [&a, &b] {
                        let got = single(u, n, &o.region, i);
                        if got != want {
                            let q = Case { k: "single".into(), i, ..o.clone() };
                            same("long-history", || format!("{n:?} ({}) after a long history", o.region), &vec![got], &ask_alone(&q))?;
                        }
                    }
                }
            }
        }
        return Ok(());
    }
    st.hit();
    st.class(&format!("history of {}", ops.len()));
    for o in ops {
        st.class(&o.k);
    }
    // each call in isolation: in a process that does nothing else
    let alone: Vec<Vec<String>> = ops.iter().map(ask_alone).collect();
    for (o, a) in ops.iter().zip(&alone) {
        if a.last().is_some_and(|x| x == "argument unchanged false") {
            return fail("argument-changed", format!("{o:?}"));
        }
    }
    let one = PhoneNumberUtil::new();
    let compare = |sig: &str, u: &PhoneNumberUtil, order: &[usize]| -> Res {
        for &i in order {
            let got = op_answer(u, &ops[i]);
            if got != alone[i] {
                return fail(sig, format!("{} [{}]: {}", serde_json::to_string(&ops[i]).unwrap(), sig, diff(&got, &alone[i])));
            }
        }
        Ok(())
    };
    let fwd: Vec<usize> = (0..ops.len()).collect();
    let rev: Vec<usize> = (0..ops.len()).rev().collect();
    compare("history", &one, &fwd)?;
    compare("history-again", &one, &rev)?;
    let two = PhoneNumberUtil::new();
    compare("history-reversed", &two, &rev)?;
    compare("shared", &env.lib, &fwd)?;
    compare("global", &PHONE_NUMBER_UTIL, &fwd)?;
    // concurrently, each thread in its own rotation, on an instance that is still cold
    let cold = Arc::new(PhoneNumberUtil::new());
    let bad = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|t| {
                let (cold, ops) = (cold.clone(), ops);
                s.spawn(move || {
                    (0..ops.len())
                        .map(|i| (i + t * ops.len() / 4) % ops.len())
                        .map(|i| (i, op_answer(&cold, &ops[i])))
                        .collect::<Vec<_>>()
                })
            })
            .collect();
        let mut bad = None;
        for h in hs {
            match h.join() {
                Ok(v) => {
                    for (i, a) in v {
                        if a != alone[i] {
                            bad = Some(format!("{}: {}", serde_json::to_string(&ops[i]).unwrap(), diff(&a, &alone[i])));
                        }
                    }
                }
                Err(_) => bad = Some("a thread panicked".into()),
            }
        }
        bad
    });
    match bad {
        Some(b) => fail("concurrent", b),
        None => Ok(()),
    }
}
fn op_for(env: &Env, r: &mut R, n: &Num) -> Case {
    match weighted(r, &[45, 45, 10]) {
        0 => {
            let (s, reg) = spelled(env, r, &n.plain());
            let s = if chance(r, 30) { punctuate(r, &s, 15) } else { s };
            let reg = if chance(r, 30) { region_for(env, r, n.cc) } else { reg };
            Case::new("text").text(s).region(reg)
        }
        1 => {
            let m = if chance(r, 60) { related(env, r, n) } else { n.clone() };
            let reg = region_for(env, r, n.cc);
            let o = related(env, r, n);
            let c = digits(r, 2);
            Case::new("num").num(m).region(reg).s(c).num2(o)
        }
        _ => Case::new("tables").i(n.cc as i64),
    }
}
const WARM_SEEDS: i64 = 1_000_000;
fn warm_gen(env: &Env, r: &mut R) -> Case {
    let base = crate::gens::run_seed() % 1000 * 6;
    let a = below(r, 6) as i64;
    let b = (a + 1 + below(r, 5) as i64) % 6;
    let t = any_terr(env, r);
    let s = if chance(r, 85) { valid_nsn(r, t) } else { nsn_for(env, r, t).0 };
    let n = Num::from_nsn(t.cc, &s);
    let reg = if t.id == "001" || chance(r, 25) { region_for(env, r, t.cc) } else { t.id.clone() };
    let o = match weighted(r, &[80, 20]) {
        0 => {
            let o = related(env, r, &n);
            let c = digits(r, 2);
            Case::new("num").num(n).region(reg).s(c).num2(o)
        }
        _ => {
            let (s, reg) = spelled(env, r, &n);
            Case::new("text").text(s).region(reg)
        }
    };
    Case { ops: vec![o], ..Case::new("warm").i((base + a) * WARM_SEEDS + base + b) }
}
fn c23_gen(env: &Env, r: &mut R) -> Case {
    if below(r, 100) != 0 {
        return warm_gen(env, r);
    }
    // a few related subjects, so that calls share patterns, calling codes and digits
    let mut subj: Vec<Num> = vec![];
    for _ in 0..range(r, 1, 3) {
        let mut n = if chance(r, 80) { number(env, r).0 } else { wild_number(env, r) };
        if n.nn > 99_999_999_999_999_999 {
            n.nn %= 1_000_000_000;
        }
        if !subj.is_empty() && chance(r, 50) {
            // same digits in another country, or same country other digits
            let b = subj[0].clone();
            if chance(r, 50) {
                n.nn = b.nn;
            } else {
                n.cc = b.cc;
            }
        }
        subj.push(n);
    }
    let k = range(r, 2, 9);
    let ops = (0..k)
        .map(|_| {
            let n = pick(r, &subj).clone();
            op_for(env, r, &n)
        })
        .collect();
    Case { ops, ..Case::new("history") }
}
fn c23_sys(env: &Env, th: bool) -> Vec<Case> {
    // long histories across all territories in one instance
    let ex = examples(env);
    let mut v = vec![];
    let size = 48;
    for (j, ch) in ex.chunks(size).enumerate() {
        if !th && j % 2 == 1 {
            continue;
        }
        let mut ops = vec![];
        for (i, (_, n)) in ch.iter().enumerate() {
            let main = env.model.main_region(n.cc);
            ops.push(match i % 3 {
                0 => Case::new("num").num(n.clone()).region(main).s("15"),
                1 => Case::new("text").text(format!("+{}{}", n.cc, n.nsn())).region("US"),
                _ => Case::new("text").text(n.nsn()).region(main),
            });
        }
        v.push(Case { ops, ..Case::new("history") });
    }
    v
}

// ---------------------------------------------------------------- C24
fn c24_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let comp = COMPILED.with(|x| x.clone());
    if c.k == "set" {
        let mut a: Vec<String> = comp.iter().map(|t| t.key()).collect();
        let mut b: Vec<String> = env.terrs().iter().map(|t| t.key()).collect();
        a.sort();
        b.sort();
        st.hit();
        st.class("territory set");
        return same("territories", || "territories".into(), &a, &b);
    }
    let Some(want) = env.terrs().iter().find(|t| t.key() == c.s) else { return Ok(()) };
    let Some(got) = comp.iter().find(|t| t.key() == c.s) else { return fail("missing", c.s.clone()) };
    st.hit();
    match c.k.as_str() {
        "fields" => {
            st.class("scalar fields");
            let f = |t: &Terr| Terr { formats: vec![], intl_formats: vec![], descs: vec![], ..t.clone() };
            same("fields", || format!("fields of {}", c.s), &f(got), &f(want))
        }
        "formats" | "intl-formats" => {
            let (a, b) = if c.k == "formats" { (&got.formats, &want.formats) } else { (&got.intl_formats, &want.intl_formats) };
            same("format-count", || format!("number of {} of {}", c.k, c.s), &a.len(), &b.len())?;
            for (i, (x, y)) in a.iter().zip(b).enumerate() {
                st.class("format");
                same("format", || format!("{} {i} of {}", c.k, c.s), x, y)?;
                for p in x.leading.iter().chain([&x.pattern]) {
                    compiles(p, &c.s)?;
                }
            }
            Ok(())
        }
        "desc" => {
            let i = c.i as usize;
            st.class("description");
            same("desc", || format!("description {i} of {}", c.s), got.d(i), want.d(i))?;
            match &got.d(i).pattern {
                Some(p) => compiles(p, &c.s),
                None => Ok(()),
            }
        }
        _ => {
            st.class("prefix patterns");
            for p in [&got.leading_digits, &got.intl_prefix, &got.np_parsing].into_iter().flatten() {
                compiles(p, &c.s)?;
            }
            Ok(())
        }
    }
}
fn compiles(p: &str, t: &str) -> Res {
    match regex::Regex::new(p) {
        Ok(_) => Ok(()),
        Err(e) => fail("pattern", format!("{t}: {p:?}: {e}")),
    }
}
thread_local! {
    static COMPILED: std::rc::Rc<Vec<Terr>> = std::rc::Rc::new(compiled::compiled());
}
fn c24_sys(env: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![Case::new("set")];
    for t in env.terrs() {
        for k in ["fields", "formats", "intl-formats", "prefixes"] {
            v.push(Case::new(k).s(t.key()));
        }
        for i in 0..12 {
            v.push(Case::new("desc").s(t.key()).i(i));
        }
    }
    v
}

pub fn props() -> Vec<Prop> {
    let base = Prop { id: "", rule: "", assumptions: &[], quick: 0, thorough: 0, systematic: none, exhaustive: false, generate: None, check: c02_check, threads: 8 };
    vec![
        Prop {
            id: "C02",
            rule: "edge calling codes x national numbers x raw inputs x sources, then arbitrary field values x regions x carriers, all 22 queries and formatters twice each; non-trivial: a value no parse produces (inconsistent, unsupported code, out-of-range or non-digit fields, raw input)",
            quick: 1_250_000,
            thorough: 30_000_000,
            systematic: c02_sys,
            generate: Some(c02_gen),
            check: c02_check,
            assumptions: &["at most 3000 leading zeros are claimed by a value (the result is that long)"],
            ..base
        },
        Prop {
            id: "C09",
            rule: "every territory x possible length x two leading digits, all examples, then generated numbers (valid, near-valid, pattern-shaped, random, foreign) with extensions, four formats; non-trivial: supported calling code",
            quick: 2_500_000,
            thorough: 75_000_000,
            systematic: c09_sys,
            generate: Some(c09_gen),
            check: c09_check,
            ..base
        },
        Prop {
            id: "C10",
            rule: "every calling region x one number of every calling code, region pairs with shared codes, then generated numbers x regions; non-trivial: supported calling code",
            quick: 2_000_000,
            thorough: 60_000_000,
            systematic: c10_sys,
            generate: Some(c10_gen),
            check: c10_check,
            ..base
        },
        Prop {
            id: "C11",
            rule: "examples of every territory in nine spellings and vanity numbers x calling regions, then generated raw inputs and arbitrary values; non-trivial: number with raw input and supported calling code",
            quick: 1_750_000,
            thorough: 50_000_000,
            systematic: c11_sys,
            generate: Some(raw_gen),
            check: c11_check,
            ..base
        },
        Prop {
            id: "C12",
            rule: "every example (also with extension and carrier) from every region of its code and abroad, then generated numbers x regions, both flags; non-trivial: supported calling code",
            quick: 1_750_000,
            thorough: 50_000_000,
            systematic: c12_sys,
            generate: Some(c12_gen),
            check: c12_check,
            ..base
        },
        Prop {
            id: "C13",
            rule: "examples of every territory in nine spellings x calling regions, then generated texts parsed with raw input kept, and arbitrary values; non-trivial: the text parses",
            quick: 1_750_000,
            thorough: 50_000_000,
            systematic: |e, th| raw_sys(e).into_iter().chain(zero_cases(e)).chain(char_blocks("chars", th)).collect(),
            generate: Some(raw_gen),
            check: c13_check,
            ..base
        },
        Prop {
            id: "C14",
            rule: "every territory x possible length x leading digits x carrier codes, then generated numbers of countries with carrier rules x carrier strings; non-trivial: a carrier rule applies",
            quick: 2_000_000,
            thorough: 50_000_000,
            systematic: c14_sys,
            generate: Some(c14_gen),
            check: c14_check,
            ..base
        },
        Prop {
            id: "C15",
            rule: "every territory x possible length x leading digits, all examples lengthened, shortened and moved to other calling codes, then numbers from the plan patterns, type and validity for every region of the code; non-trivial: the number has a type",
            quick: 2_000_000,
            thorough: 60_000_000,
            systematic: c15_sys,
            generate: Some(c15_gen),
            check: c15_check,
            ..base
        },
        Prop {
            id: "C16",
            rule: "every calling code x length 1-20 x leading zeros, then generated numbers; non-trivial: supported calling code",
            quick: 3_000_000,
            thorough: 60_000_000,
            systematic: c16_sys,
            generate: Some(c15_gen),
            check: c16_check,
            ..base
        },
        Prop {
            id: "C17",
            rule: "calling codes -2000..70000, all two-letter regions, leading blocks up to four digits of every shared calling code, then generated numbers, codes and region strings; non-trivial: number of a shared calling code, or a supported code or region",
            quick: 2_500_000,
            thorough: 60_000_000,
            systematic: c17_sys,
            generate: Some(c17_gen),
            check: c17_check,
            ..base
        },
        Prop {
            id: "C18",
            rule: "all supported regions, all other two-letter strings, all types on several instances (the space is finite), plus generated region strings; non-trivial: supported region or existing type example",
            quick: 20_000,
            thorough: 1_000_000,
            systematic: c18_sys,
            exhaustive: true,
            generate: Some(c18_gen),
            check: c18_check,
            ..base
        },
        Prop {
            id: "C19",
            rule: "cross product of 500 small variants, then numbers paired with derived variants; non-trivial: some match",
            quick: 2_500_000,
            thorough: 75_000_000,
            systematic: c19_sys,
            generate: Some(c19_gen),
            check: c19_check,
            ..base
        },
        Prop {
            id: "C20",
            rule: "every example lengthened by 0-9 digits, then valid numbers with random tails, numbers of every class and arbitrary values; non-trivial: not already valid",
            quick: 2_000_000,
            thorough: 50_000_000,
            systematic: c20_sys,
            generate: Some(c20_gen),
            check: c20_check,
            ..base
        },
        Prop {
            id: "C21",
            rule: "every territory x possible length x leading digits, examples incl. no-international-dialling ones, then generated numbers; non-trivial: the number has a type",
            quick: 2_000_000,
            thorough: 50_000_000,
            systematic: c21_sys,
            generate: Some(c21_gen),
            check: c21_check,
            ..base
        },
        Prop {
            id: "C23",
            rule: "histories of 2-9 calls about 1-3 related numbers, each call compared with a fresh process asked only that: one instance forwards and backwards, another backwards, the long-lived and the global instance, four threads on a cold instance; plus histories of 48 calls across territories; plus single calls compared between pairs of instances that went through different histories of some ten thousand calls; every history is non-trivial",
            quick: 120_000,
            thorough: 1_200_000,
            systematic: c23_sys,
            generate: Some(c23_gen),
            check: c23_check,
            assumptions: &["thread interleavings are those the operating system schedules"],
            ..base
        },
        Prop {
            id: "C24",
            rule: "every territory of the XML: scalar fields, formats, international formats, 12 descriptions, all patterns compiled (the space is finite); non-trivial: all",
            systematic: c24_sys,
            exhaustive: true,
            check: c24_check,
            assumptions: &["the XML in /repo/resources is the published metadata", "the compilation rules are those of the upstream BuildMetadataFromXml"],
            ..base
        },
    ]
}
