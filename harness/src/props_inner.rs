//! C28: the queries of the engine that have no public counterpart, through a hook of their own.
use crate::call;
use crate::case::Case;
use crate::env::Env;
use crate::gens::*;
use crate::model::*;
use crate::num::Num;
use crate::run::*;
use crate::worlds;
use crate::xmlmeta::*;

/// the shipped plan in place of a generated one
const SHIPPED: i64 = -1;

fn is_punct(c: char) -> bool {
    matches!(c, '-' | 'x' | '\u{2010}'..='\u{2015}' | '\u{2212}' | '\u{30FC}' | '\u{FF0D}'..='\u{FF0F}' | ' ' | '\u{A0}' | '\u{AD}' | '\u{200B}'
        | '\u{2060}' | '\u{3000}' | '(' | ')' | '\u{FF08}' | '\u{FF09}' | '\u{FF3B}' | '\u{FF3D}' | '.' | '[' | ']' | '/' | '~' | '\u{2053}' | '\u{223C}')
}
/// groups in any order after the first one, with nothing but punctuation around them
pub fn as_you_type(f: &str) -> bool {
    let c: Vec<char> = f.chars().filter(|c| !is_punct(*c)).collect();
    // punctuation may stand anywhere except inside a group
    let split = f.chars().zip(f.chars().skip(1)).any(|(a, b)| a == '$' && !b.is_ascii_digit());
    !split && c.len() >= 2 && c.len() % 2 == 0 && c[1] == '1' && c.chunks(2).all(|g| g[0] == '$' && g[1].is_ascii_digit())
}
pub fn first_group_only(rule: &str) -> bool {
    matches!(rule, "" | "$1" | "($1" | "$1)" | "($1)")
}
pub fn trim_end(s: &str) -> &str {
    let c: Vec<(usize, char)> = s.char_indices().collect();
    let keep = c.iter().rposition(|(_, c)| *c == '#' || rx(r"^[\p{N}\p{L}]$".into()).is_match(c.encode_utf8(&mut [0; 4])));
    match keep {
        Some(i) => &s[..c[i].0 + c[i].1.len_utf8()],
        None => "",
    }
}
fn formats(c: &Case) -> Vec<Fmt> {
    c.ops
        .iter()
        .map(|o| Fmt {
            pattern: o.text.clone(),
            format: o.text2.clone(),
            leading: if o.region.is_empty() { vec![] } else { o.region.split('\n').map(String::from).collect() },
            np_rule: (!o.s.is_empty()).then(|| o.s.clone()),
            ..Default::default()
        })
        .collect()
}

#[cfg(not(rlpn_verif_internal))]
fn c28_check(_: &Env, _: &Case, _: &mut Stats) -> Res {
    Ok(())
}
#[cfg(rlpn_verif_internal)]
fn c28_check(shipped: &Env, c: &Case, st: &mut Stats) -> Res {
    let own;
    let env = if c.i == SHIPPED {
        shipped
    } else {
        own = worlds::world(c.i);
        &own
    };
    c28_on(env, c, st).map_err(|f| Fail { msg: if c.i == SHIPPED { f.msg } else { format!("plan {}: {}", c.i, f.msg) }, ..f })
}
#[cfg(rlpn_verif_internal)]
fn c28_on(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let (u, m) = (&env.lib, &env.model);
    st.class(&c.k);
    let lib_match = |x: Option<rlibphonenumber::MatchType>| {
        use rlibphonenumber::MatchType::*;
        x.map(|x| match x {
            NoMatch => M::No,
            ShortNsnMatch => M::Short,
            NsnMatch => M::Nsn,
            ExactMatch => M::Exact,
        })
    };
    let types = |x: Option<Vec<rlibphonenumber::PhoneNumberType>>| {
        x.map(|v| {
            let mut v: Vec<T> = v.into_iter().map(call::ty).collect();
            v.sort();
            v
        })
    };
    let num = |x: Option<rlibphonenumber::PhoneNumber>| x.map(|p| Num::from_lib(&p));
    match c.k.as_str() {
        "plan" => {
            st.hit();
            let sorted = |mut v: Vec<i32>| {
                v.sort();
                v
            };
            same("codes", || "supported calling codes".into(), &sorted(u.verif_calling_codes()), &env.ccs)?;
            let want = sorted(m.nongeo.keys().copied().collect());
            same("global-codes", || "global network calling codes".into(), &sorted(u.verif_global_network_codes()), &want)?;
            for lt in call::LIB_TYPES {
                // an example of a region's, else one of a global network's
                let ty = call::ty(lt);
                let of = |global: bool| -> Vec<Option<Num>> {
                    let ts = m.terrs.iter().filter(|t| (t.id == "001") == global);
                    ts.filter_map(|t| {
                        let e = t.d(Model::type_desc(ty)).example.as_ref()?;
                        Some(if global { m.parse(&format!("+{}{e}", t.cc), "ZZ", false).ok() } else { m.parse(e, &t.id, false).ok() })
                    })
                    .collect()
                };
                let mut want = if ty == T::Unknown { vec![] } else { of(false) };
                if want.is_empty() && ty != T::Unknown {
                    want = of(true);
                }
                let got = num(u.get_example_number_for_type(lt).ok());
                // an example which cannot be read is possible in an invented plan only
                if want.iter().all(|w| w.is_some()) && if want.is_empty() { got.is_some() } else { !want.contains(&got) } {
                    return fail("any-example", format!("example of {ty:?}: got {got:?}, expected one of {} such as {:?}", want.len(), want.first()));
                }
            }
            Ok(())
        }
        "region" => {
            let (r, t) = (&c.region, m.region(&c.region));
            if t.is_some() {
                st.hit();
            }
            let want = t.map(|t| {
                let mut v = Model::types_in(t);
                v.sort();
                v
            });
            same("types", || format!("types of {r:?}"), &types(u.verif_types_for_region(r)), &want)?;
            for strip in [false, true] {
                let want = t.map(|t| {
                    let p = t.nat_prefix.clone().unwrap_or_default();
                    if strip { p.replace('~', "") } else { p }
                });
                same("ndd", || format!("national prefix of {r:?}, strip {strip}"), &u.verif_ndd_prefix(r, strip), &want)?;
            }
            for lt in call::LIB_TYPES {
                let ty = call::ty(lt);
                same("example", || format!("example of {ty:?} in {r:?}"), &num(u.verif_example_for_type(r, lt)), &m.example_as(r, ty))?;
            }
            Ok(())
        }
        "code" => {
            let cc: i32 = c.s.parse().unwrap_or(0);
            let t = m.meta(cc, "001");
            if t.is_some() {
                st.hit();
            }
            let want = t.map(|t| {
                let mut v = Model::types_in(t);
                v.sort();
                v
            });
            same("global-types", || format!("types of +{cc}"), &types(u.verif_types_for_non_geo_entity(cc)), &want)?;
            same("global-example", || format!("example of +{cc}"), &num(u.verif_example_for_non_geo_entity(cc)), &m.example_global(cc))?;
            same("known-code", || format!("+{cc} is known"), &u.verif_known_calling_code(cc), &m.known_cc(cc))?;
            same("mobile-token", || format!("mobile token of +{cc}"), &u.verif_mobile_token(cc), &(cc == 54).then_some('9'))
        }
        "num" => {
            let n = c.n();
            let p = n.to_lib();
            let all = m.possible(n);
            for lt in call::LIB_TYPES {
                let ty = call::ty(lt);
                let want = m.possible_as(n, ty);
                if want != all {
                    st.hit();
                }
                let got = call::verdict(u.verif_possible_for_type_with_reason(&p, lt));
                same("possible-reason", || format!("length of {n:?} as {ty:?}"), &got, &want)?;
                let ok = matches!(want, L::Possible | L::LocalOnly);
                same("possible", || format!("{n:?} is possible as {ty:?}"), &u.verif_possible_for_type(&p, lt), &ok)?;
            }
            let want = m.main_meta(n.cc).is_some_and(|t| Model::choose(&t.formats, &n.nsn()).is_some());
            same("has-format", || format!("{n:?} has a format"), &u.verif_has_format(&p), &Some(want))?;
            let carrier = n.carrier.as_deref().filter(|x| !x.is_empty()).unwrap_or(&c.text);
            let got = u.verif_format_preferred_carrier(&p, &c.text);
            same("preferred-carrier", || format!("{n:?} with fallback carrier {:?}", c.text), &got, &Some(m.format_carrier(n, carrier)))
        }
        "text" => {
            let (s, r) = (&c.text, &c.region);
            let want = m.parse(s, r, false).is_ok_and(|n| matches!(m.possible(&n), L::Possible | L::LocalOnly));
            if want {
                st.hit();
            }
            same("possible-text", || format!("{s:?} from {r:?} is possible"), &u.verif_possible_for_string(s, r), &want)?;
            same("trim", || format!("{s:?} without trailing characters"), &u.verif_trim_end(s), &trim_end(s).to_string())?;
            same("plus", || format!("{s:?} starts with plus"), &u.verif_starts_with_plus(s), &s.starts_with(['+', '\u{FF0B}']))?;
            same("all-digits", || format!("{s:?} has digits only"), &u.verif_only_digits(s), &s.chars().all(|c| dec(c).is_some()))?;
            same("digits", || format!("digits of {s:?}"), &u.verif_digits_only(s), &digits_only(s))?;
            same("diallable", || format!("diallable characters of {s:?}"), &u.verif_diallable_only(s), &diallable(s))
        }
        "match2" => {
            let want = m.matching_texts(&c.text, &c.text2);
            if want.is_some_and(|g| g != M::No) {
                st.hit();
            }
            same("match-texts", || format!("{:?} against {:?}", c.text, c.text2), &lib_match(u.verif_match_two_strings(&c.text, &c.text2)), &want)
        }
        "match1" => {
            let want = m.matching_text(c.n(), &c.text);
            if want.is_some_and(|g| g != M::No) {
                st.hit();
            }
            let got = lib_match(u.verif_match_one_string(&c.n().to_lib(), &c.text));
            same("match-text", || format!("{:?} against {:?}", c.n(), c.text), &got, &want)
        }
        "pattern" => {
            let fs = formats(c);
            if fs.iter().any(|f| f.leading.iter().chain([&f.pattern]).any(|p| regex::Regex::new(p).is_err())) {
                return Ok(());
            }
            let n = c.n();
            if Model::choose(&fs, &n.nsn()).is_some() {
                st.hit();
            }
            let protos: Vec<_> = fs.iter().map(worlds::fmt).collect();
            for k in ALL_F {
                let got = u.verif_format_by_pattern(&n.to_lib(), call::f(k), &protos);
                same("pattern", || format!("{n:?} as {k:?} with {fs:?}"), &got, &Some(m.format_with(n, k, &fs)))?;
            }
            Ok(())
        }
        _ => {
            let s = &c.s;
            // formats number their groups in ASCII
            if s.chars().any(|x| !x.is_ascii() && dec(x).is_some()) {
                return Ok(());
            }
            if as_you_type(s) || first_group_only(s) {
                st.hit();
            }
            same("as-you-type", || format!("format {s:?} can be filled as one types"), &u.verif_as_you_type_eligible(s), &as_you_type(s))?;
            same("first-group-only", || format!("rule {s:?} has the first group only"), &u.verif_first_group_only(s), &first_group_only(s))
        }
    }
}

const NP_RULES: [&str; 9] = ["", "$NP$FG", "($NP$FG)", "$NP $FG", "$NP-$FG", "$FG", "$1", "0$1", "$NP ($FG)"];
fn own_format(env: &Env, r: &mut R, n: &Num) -> Case {
    let nsn = n.nsn();
    let t = if chance(r, 60) { env.model.main_meta(n.cc) } else { None };
    let t = t.unwrap_or_else(|| any_terr(env, r));
    let fs = if chance(r, 30) && !t.intl_formats.is_empty() { &t.intl_formats } else { &t.formats };
    let mut o = Case::new("fmt");
    if !fs.is_empty() && chance(r, 45) {
        let f = pick(r, fs);
        (o.text, o.text2) = (f.pattern.clone(), f.format.clone());
        if chance(r, 40) {
            o.region = f.leading.join("\n");
        }
    } else {
        // groups over about the digits of the number, out of a limited choice: the library keeps
        // every pattern it has compiled
        let k = range(r, 1, 4);
        let mut left = nsn.len();
        for i in 0..k {
            let l = if i + 1 == k { left } else { range(r, 2, 3).min(left) };
            left -= l;
            let g = match below(r, 5) {
                0 if i + 1 == k => "([0-9]*)".to_string(),
                1 if i + 1 == k => format!("([0-9]{{{},{}}})", l.max(1), l + 2),
                2 if i == 0 => format!("([2-9][0-9]{{{}}})", l.saturating_sub(1)),
                _ => format!("([0-9]{{{}}})", if chance(r, 95) { l } else { l + 1 }),
            };
            o.text.push_str(&g);
        }
        o.text2 = if k > 1 && chance(r, 15) { format!("${k} ") } else { String::new() };
        for i in 1..=k {
            if i > 1 {
                o.text2.push_str(pick(r, &[" ", "-", "", "/", " - ", ") "]));
            }
            o.text2.push_str(&format!("${i}"));
        }
        if chance(r, 10) {
            o.text2 = format!("({}", o.text2);
        }
        for _ in 0..weighted(r, &[60, 30, 10]) {
            let l = range(r, 1, 2).min(nsn.len());
            let lead = if chance(r, 70) { nsn[..l].to_string() } else { digits(r, l) };
            if !o.region.is_empty() {
                o.region.push('\n');
            }
            o.region.push_str(&lead);
        }
    }
    o.s = pick(r, &NP_RULES).to_string();
    o
}
fn group_text(env: &Env, r: &mut R) -> String {
    if chance(r, 25) {
        let t = any_terr(env, r);
        if !t.formats.is_empty() {
            let f = pick(r, &t.formats);
            let s = if chance(r, 60) { f.format.clone() } else { f.np_rule.clone().unwrap_or_default() };
            return if chance(r, 60) { s } else { mutate_text(env, r, &s) };
        }
    }
    let k = weighted(r, &[5, 15, 20, 20, 20, 10, 10]);
    (0..k).map(|_| *pick(r, &["$1", "$1", "$2", "$3", "$9", "$", "1", " ", "-", "(", ")", "x", "/", "0", "a", "*", "#", "\u{2013}", "$NP", "$FG", "\\", "\n"])).collect()
}
/// two texts that say the same number more or less
fn spelling(env: &Env, r: &mut R, n: &Num) -> String {
    match weighted(r, &[30, 20, 15, 10, 25]) {
        0 => spelled(env, r, n).0,
        1 => env.model.format(n, *pick(r, &ALL_F)),
        2 => format!("{}{}", pick(r, &["", "", "0", "1", "8", "00"]), n.nsn()),
        3 => rfc3966(env, r, n).0,
        _ => {
            let s = env.model.format(n, if chance(r, 50) { F::Nat } else { F::Intl });
            let s = s.trim_start_matches('+');
            let k = below(r, s.len().clamp(1, 6));
            s.get(k..).unwrap_or(s).to_string()
        }
    }
}
fn c28_gen(shipped: &Env, r: &mut R) -> Case {
    let w = if chance(r, 25) {
        SHIPPED
    } else if chance(r, 8) {
        0
    } else {
        crate::props_world::next_plan(r)
    };
    let own;
    let env = if w == SHIPPED {
        shipped
    } else {
        own = worlds::world(w);
        &own
    };
    let c = match weighted(r, &[3, 3, 27, 12, 17, 12, 12, 6, 1]) {
        0 => Case::new("region").region(any_region(env, r)),
        1 => {
            let mut globals: Vec<i32> = env.model.nongeo.keys().copied().collect();
            globals.sort();
            let cc = if chance(r, 60) && !globals.is_empty() { *pick(r, &globals) } else { any_cc(env, r) };
            Case::new("code").s(cc.to_string())
        }
        2 => {
            let mut n = if chance(r, 85) { number(env, r).0 } else { wild_number(env, r) };
            if chance(r, 40) {
                n.carrier = Some(carrier(env, r));
            }
            Case::new("num").num(n).text(carrier(env, r))
        }
        3 => {
            let (t, reg, _) = text_case(env, r);
            Case::new("text").text(t).region(reg)
        }
        4 => {
            let n = number(env, r).0;
            let o = crate::props_num::related(env, r, &n);
            let (a, b) = (spelling(env, r, &n), spelling(env, r, &o));
            if chance(r, 8) { Case::new("match2").text(a).text2(text_case(env, r).0) } else { Case::new("match2").text(a).text2(b) }
        }
        5 => {
            let n = if chance(r, 90) { number(env, r).0 } else { wild_number(env, r) };
            let o = crate::props_num::related(env, r, &n);
            let s = spelling(env, r, &o);
            Case::new("match1").num(n).text(s)
        }
        6 => {
            let n = number(env, r).0;
            let k = weighted(r, &[4, 40, 36, 20]);
            let ops = (0..k).map(|_| own_format(env, r, &n)).collect();
            Case { ops, ..Case::new("pattern").num(n) }
        }
        7 => Case::new("format").s(group_text(env, r)),
        _ => Case::new("plan"),
    };
    c.i(w)
}
fn c28_sys(shipped: &Env, th: bool) -> Vec<Case> {
    let mut v = vec![];
    let plans: Vec<i64> = [SHIPPED, 0].into_iter().chain((1..=if th { 60 } else { 6 }).map(|i| run_seed().rem_euclid(10_000) * 1_000_000 + i)).collect();
    for w in plans {
        let own;
        let env = if w == SHIPPED {
            shipped
        } else {
            own = worlds::world(w);
            &own
        };
        v.push(Case::new("plan").i(w));
        v.extend(env.regions.iter().map(|r| Case::new("region").region(r.clone()).i(w)));
        v.extend(ODD_REGIONS.iter().map(|r| Case::new("region").region(*r).i(w)));
        let codes: Vec<i32> = if w <= 0 { (-5..1300).chain([i32::MIN, i32::MAX]).collect() } else { env.ccs.clone() };
        v.extend(codes.into_iter().map(|x| Case::new("code").s(x.to_string()).i(w)));
        for t in env.terrs() {
            // every length of a territory's, as every type
            for n in 1..=17 {
                v.push(Case::new("num").num(Num::from_nsn(t.cc, &"2".repeat(n))).i(w));
            }
            for f in t.formats.iter().chain(&t.intl_formats) {
                v.push(Case::new("format").s(f.format.clone()).i(w));
                v.push(Case::new("format").s(f.np_rule.clone().unwrap_or_default()).i(w));
            }
        }
    }
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C28",
        rule: "shipped, testing and generated plans: every region, calling code, length and format systematically, then generated numbers x types, carriers and formats of the caller's, texts, pairs of spellings; non-trivial: known region or code, a type's length verdict differs from the general one, possible text, some match, a format applies",
        assumptions: &["the engine's methods are reached through the wrappers of cfg(rlpn_verif_internal); without them nothing is decided"],
        quick: 900_000,
        thorough: 12_000_000,
        systematic: c28_sys,
        exhaustive: false,
        generate: Some(c28_gen),
        check: c28_check,
        threads: 8,
    }]
}
