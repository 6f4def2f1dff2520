//! Numbering plans other than the shipped one: the testing plan of the repository and plans generated
//! from a seed (territories of both, renamed, moved to other calling codes, their rules exchanged).
//! What the code does must follow the metadata it is given, not the countries it was written with.
use crate::env::Env;
use crate::gens::*;
use crate::xmlmeta::*;
use proptest::test_runner::RngAlgorithm;
use rlibphonenumber::phonemetadata as pm;
use std::collections::BTreeSet;
use std::sync::{Arc, Mutex, OnceLock};

pub const TESTING_XML: &str = "/repo/resources/PhoneNumberMetadataForTesting.xml";

fn desc(d: &Desc) -> protobuf::MessageField<pm::PhoneNumberDesc> {
    let mut p = pm::PhoneNumberDesc::new();
    p.national_number_pattern = d.pattern.clone();
    p.possible_length = d.lens.clone();
    p.possible_length_local_only = d.local.clone();
    p.example_number = d.example.clone();
    protobuf::MessageField::some(p)
}
pub fn fmt(f: &Fmt) -> pm::NumberFormat {
    let mut p = pm::NumberFormat::new();
    p.set_pattern(f.pattern.clone());
    p.set_format(f.format.clone());
    p.leading_digits_pattern = f.leading.clone();
    p.national_prefix_formatting_rule = f.np_rule.clone();
    if f.np_optional {
        p.set_national_prefix_optional_when_formatting(true);
    }
    p.domestic_carrier_code_formatting_rule = f.cc_rule.clone();
    p
}
pub fn to_proto(t: &Terr) -> pm::PhoneMetadata {
    let mut m = pm::PhoneMetadata::new();
    m.set_id(t.id.clone());
    m.set_country_code(t.cc);
    m.leading_digits = t.leading_digits.clone();
    m.international_prefix = t.intl_prefix.clone();
    m.preferred_international_prefix = t.pref_intl.clone();
    m.national_prefix = t.nat_prefix.clone();
    m.national_prefix_for_parsing = t.np_parsing.clone();
    m.national_prefix_transform_rule = t.np_transform.clone();
    m.preferred_extn_prefix = t.pref_extn.clone();
    if t.main {
        m.set_main_country_for_code(true);
    }
    if t.portable {
        m.set_mobile_number_portable_region(true);
    }
    if t.same_mobile_fixed {
        m.set_same_mobile_and_fixed_line_pattern(true);
    }
    m.number_format = t.formats.iter().map(fmt).collect();
    m.intl_number_format = t.intl_formats.iter().map(fmt).collect();
    m.general_desc = desc(&t.descs[GENERAL]);
    m.fixed_line = desc(&t.descs[FIXED]);
    m.mobile = desc(&t.descs[MOBILE]);
    m.toll_free = desc(&t.descs[TOLLFREE]);
    m.premium_rate = desc(&t.descs[PREMIUM]);
    m.shared_cost = desc(&t.descs[SHARED]);
    m.personal_number = desc(&t.descs[PERSONAL]);
    m.voip = desc(&t.descs[VOIP]);
    m.pager = desc(&t.descs[PAGER]);
    m.uan = desc(&t.descs[UAN]);
    m.voicemail = desc(&t.descs[VOICEMAIL]);
    m.no_international_dialling = desc(&t.descs[NOINTL]);
    m
}

fn shipped() -> &'static [Terr] {
    static S: OnceLock<Vec<Terr>> = OnceLock::new();
    S.get_or_init(|| load_file(crate::env::XML))
}
fn testing() -> &'static [Terr] {
    static S: OnceLock<Vec<Terr>> = OnceLock::new();
    S.get_or_init(|| load_file(TESTING_XML))
}

/// lengths as the builder publishes them: the general ones are the union of the others, a type
/// whose lengths are the general ones has none of its own, local ones are never national ones
fn settle(t: &mut Terr, eff: &[Vec<i32>]) {
    let mut all: BTreeSet<i32> = BTreeSet::new();
    let mut loc: BTreeSet<i32> = BTreeSet::new();
    for d in TYPES {
        if t.descs[d].pattern.is_some() {
            all.extend(eff[d].iter().filter(|x| **x > 0));
            loc.extend(t.descs[d].local.iter());
        }
    }
    if all.is_empty() {
        all.insert(8);
    }
    let all: Vec<i32> = all.into_iter().collect();
    for d in TYPES.into_iter().chain([NOINTL]) {
        let x = &mut t.descs[d];
        if x.pattern.is_none() {
            x.lens = vec![-1];
            x.local = vec![];
        } else {
            let mut l: Vec<i32> = eff[d].iter().copied().filter(|x| *x > 0).collect();
            l.sort();
            l.dedup();
            x.local.retain(|y| !l.contains(y) && !all.contains(y));
            x.lens = if l == all { vec![] } else { l };
            if x.lens.is_empty() && x.pattern.is_some() && all.is_empty() {
                x.lens = vec![-1];
            }
        }
    }
    let g = &mut t.descs[GENERAL];
    g.local = loc.into_iter().filter(|x| !all.contains(x)).collect();
    g.lens = all;
    t.same_mobile_fixed = t.descs[MOBILE].pattern.clone().unwrap_or_default() == t.descs[FIXED].pattern.clone().unwrap_or_default();
}

const NP: [&str; 7] = ["0", "1", "8", "06", "01", "9", "044"];
/// (national prefix for parsing, transform rules that go with it)
const NP_PARSING: [(&str, &[&str]); 15] = [
    ("0", &[""]),
    ("1", &[""]),
    ("0(\\d{2})?", &[""]),
    ("0(?:(1[0-5])\\d?)?", &["", "9$1"]),
    ("0([2-9]\\d{3})?", &["", "$1", "7$1"]),
    ("(?:0(1[27]))?([2-9]\\d{5})", &["", "$2", "9$2", "$2$1", "$1$2"]),
    ("1|([2-8]\\d{6})$", &["684$1", "$1", ""]),
    ("0|(1\\d)", &["", "5$1"]),
    ("0(?:3[0-3])?", &[""]),
    ("8(?:(10)|2)?", &["", "$1"]),
    ("00?", &[""]),
    ("(0)", &["", "1$1"]),
    ("0(?:(11|2[2-4])15)?|15", &["9$1", "", "$1"]),
    ("([1-9]\\d)$|0", &["2$1", ""]),
    ("0(?:(1[0-5])([2-4]\\d)?)?", &["", "9$2", "$2", "2$1$2", "$1"]),
];
const IDD: [&str; 9] = ["00", "011", "001|002", "0(?:0|11)", "00(?:1[12])?", "8~10", "119|00[1-9]", "0011", "1(?:0|44)0?"];
const PREF_IDD: [&str; 5] = ["00", "011", "8~10", "0011", "002"];
const NP_RULES: [&str; 9] = ["0$1", "($1)", "(0$1)", "0 $1", "$1", "8 ($1)", "0($1)", "1 $1", "01$1"];
const CC_RULES: [&str; 7] = ["0 $CC $1", "0$CC ($1)", "$CC $1", "($CC) $1", "0$CC$1", "$1 $CC", "1 $CC-$1"];
const SHAPES: [(&str, &[&str]); 9] = [
    ("(\\d{2})(\\d{3})(\\d+)", &["$1 $2-$3", "$1 $2 $3", "$1-$2-$3", "($1) $2/$3", "$2 15-$1-$3"]),
    ("(\\d{3})(\\d{4})", &["$1 $2", "$1-$2", "$1.$2"]),
    ("(\\d{4,6})", &["$1"]),
    ("(\\d)(\\d{3})(\\d{3})(\\d{2})?", &["$1 $2 $3 $4", "$1-$2-$3"]),
    ("(\\d{3})(\\d{3})(\\d{4})", &["$1-$2-$3", "($1) $2-$3", "$1 $2 $3", "- ($1) $2-$3"]),
    ("(\\d)(\\d{2})(\\d{2})(\\d{3,6})", &["$2 $3-$4", "$1 $2 15-$3-$4", "$1$2 $3 $4"]),
    ("(\\d{2,4})(\\d{4})(\\d{4})", &["$1 $2 $3", "~$1/$2~$3"]),
    ("(0?\\d{2})(\\d{5,8})", &["$1 $2", "$1  $2"]),
    ("(\\d+)(\\d{4})", &["$1 $2", "$1/$2"]),
];
const EXTN: [&str; 6] = [" ext ", "#", " x", " int. ", ";ext=", " \u{434}\u{43E}\u{431}. "];
const GENERALS: [&str; 5] = ["[1-9]\\d{4,11}", "\\d{4,14}", "[0-79]\\d{5,10}|8(?:\\d{3}|\\d{8})", "(?:[2-9]|0\\d)\\d{6,9}", "1\\d|[2-9]\\d{7}|0\\d{8,10}"];

fn mutate(r: &mut R, t: &mut Terr) {
    let mut eff: Vec<Vec<i32>> = (0..NDESC).map(|d| t.lens(d).to_vec()).collect();
    for _ in 0..range(r, 1, 6) {
        match below(r, 19) {
            0 => {
                t.nat_prefix = if chance(r, 25) { None } else { Some(pick(r, &NP).to_string()) };
                if t.np_transform.is_none() {
                    t.np_parsing = t.nat_prefix.clone();
                }
            }
            1 | 2 => {
                let (p, tr) = pick(r, &NP_PARSING);
                t.np_parsing = Some(p.to_string());
                t.np_transform = Some(pick(r, tr).to_string()).filter(|x| !x.is_empty());
                if chance(r, 30) {
                    t.nat_prefix = None;
                }
            }
            3 => {
                t.intl_prefix = Some(pick(r, &IDD).to_string());
                t.pref_intl = if chance(r, 50) { None } else { Some(pick(r, &PREF_IDD).to_string()) };
            }
            4 => {
                t.leading_digits = match below(r, 4) {
                    0 => None,
                    1 => {
                        let a = range(r, 1, 8);
                        Some(format!("[{a}-{}]", a + 1))
                    }
                    2 => {
                        let k = range(r, 1, 3);
                        let d = valid_nsn(r, t);
                        Some(d.chars().take(k).collect())
                    }
                    _ => {
                        let (a, b) = (digits(r, 2), digits(r, 1));
                        Some(format!("{a}|{b}[05]"))
                    }
                }
            }
            5 => {
                let n = t.formats.len();
                if n > 1 {
                    let i = below(r, n);
                    let j = below(r, n);
                    t.formats.swap(i, j);
                    if chance(r, 30) {
                        t.formats.remove(i);
                    }
                }
            }
            6 | 7 => {
                if !t.formats.is_empty() {
                    let i = below(r, t.formats.len());
                    let f = &mut t.formats[i];
                    f.np_rule = if chance(r, 30) { None } else { Some(pick(r, &NP_RULES).to_string()) };
                    f.cc_rule = if chance(r, 50) { None } else { Some(pick(r, &CC_RULES).to_string()) };
                    f.np_optional = chance(r, 50);
                    if chance(r, 20) {
                        let (np, cc) = (f.np_rule.clone(), f.cc_rule.clone());
                        for f in &mut t.formats {
                            f.np_rule = np.clone();
                            f.cc_rule = cc.clone();
                        }
                    }
                }
            }
            8 | 9 => {
                let (p, fs) = pick(r, &SHAPES);
                let f = Fmt {
                    pattern: p.to_string(),
                    format: pick(r, fs).to_string(),
                    leading: match below(r, 3) {
                        0 => vec![],
                        1 => vec![format!("[{}-9]", below(r, 9))],
                        _ => {
                            let d = valid_nsn(r, t);
                            let a: String = d.chars().take(2).collect();
                            let b: String = d.chars().take(3).collect();
                            vec![a, b]
                        }
                    },
                    np_rule: if chance(r, 50) { None } else { Some(pick(r, &NP_RULES).to_string()) },
                    cc_rule: if chance(r, 60) { None } else { Some(pick(r, &CC_RULES).to_string()) },
                    np_optional: chance(r, 30),
                };
                let i = below(r, t.formats.len() + 1);
                t.formats.insert(i, f);
            }
            10 => {
                t.intl_formats = if chance(r, 30) {
                    vec![]
                } else {
                    let mut v = vec![];
                    for f in &t.formats {
                        if chance(r, 75) {
                            let format = if chance(r, 60) { f.format.clone() } else { f.format.replace([' ', '('], "-").replace(')', "") };
                            v.push(Fmt { pattern: f.pattern.clone(), format, leading: f.leading.clone(), ..Default::default() });
                        }
                    }
                    v
                };
            }
            11 => t.pref_extn = if chance(r, 40) { None } else { Some(pick(r, &EXTN).to_string()) },
            12 => {
                // two types exchange what they are
                let a = *pick(r, &TYPES);
                let b = *pick(r, &TYPES);
                t.descs.swap(a, b);
                eff.swap(a, b);
            }
            13 => {
                // a type is gone, or a copy of another
                let a = *pick(r, &TYPES);
                let b = *pick(r, &TYPES);
                if chance(r, 40) {
                    if TYPES.iter().filter(|d| t.descs[**d].pattern.is_some()).count() > 1 {
                        t.descs[a] = Desc { lens: vec![-1], ..Default::default() };
                        eff[a] = vec![];
                    }
                } else {
                    t.descs[a] = t.descs[b].clone();
                    eff[a] = eff[b].clone();
                }
            }
            14 => {
                // lengths of a type
                let a = *pick(r, &TYPES);
                if t.descs[a].pattern.is_some() {
                    match below(r, 3) {
                        0 if eff[a].len() > 1 => {
                            let i = below(r, eff[a].len());
                            eff[a].remove(i);
                        }
                        _ => eff[a].push(range(r, 4, 14) as i32),
                    }
                    if chance(r, 50) {
                        t.descs[a].local = vec![if chance(r, 10) { range(r, 9, 14) } else { range(r, 3, 8) } as i32];
                    }
                }
            }
            15 => {
                let b = *pick(r, &TYPES);
                t.descs[NOINTL] = t.descs[b].clone();
                eff[NOINTL] = eff[b].clone();
            }
            17 => {
                // metadata may be built without examples, or with some only
                let a = *pick(r, &TYPES);
                t.descs[a].example = if chance(r, 70) { None } else { Some(valid_nsn(r, t)) };
            }
            16 => t.descs[GENERAL].pattern = Some(pick(r, &GENERALS).to_string()),
            _ => {
                let a = *pick(r, &TYPES);
                t.descs[MOBILE] = t.descs[FIXED].clone();
                eff[MOBILE] = eff[FIXED].clone();
                if chance(r, 50) {
                    t.descs[a].pattern = t.descs[FIXED].pattern.clone();
                    eff[a] = eff[FIXED].clone();
                }
            }
        }
    }
    settle(t, &eff);
}

const SPECIAL: [&str; 14] = ["BR", "MX", "CL", "UZ", "US", "CA", "AG", "AR", "IT", "CN", "GB", "GG", "RU", "KZ"];
const SPECIAL_CC: [i32; 14] = [1, 7, 39, 44, 52, 54, 55, 56, 62, 86, 998, 49, 800, 979];

/// The territories of plan `seed`; 0 is the testing plan itself.
pub fn plan(seed: i64) -> Vec<Terr> {
    if seed == 0 {
        return testing().to_vec();
    }
    let mut b = [11u8; 32];
    b[..8].copy_from_slice(&seed.to_le_bytes());
    let r = &mut TestRng::from_seed(RngAlgorithm::ChaCha, &b);
    let s = shipped();
    let mut v: Vec<Terr> = match seed.rem_euclid(3) {
        0 => testing().to_vec(),
        1 => {
            // two groups that share a calling code, some others, in any order
            let mut v: Vec<Terr> = vec![];
            for cc in [*pick(r, &[1, 44, 7, 39, 61]), *pick(r, &[1, 599, 590, 262, 47, 358, 212])] {
                let mut k = 0;
                for t in s.iter().filter(|t| t.cc == cc) {
                    if t.main || (k < 4 && chance(r, 60)) {
                        k += 1;
                        v.push(t.clone());
                    }
                }
            }
            for _ in 0..range(r, 4, 10) {
                v.push(pick(r, s).clone());
            }
            for id in SPECIAL {
                if chance(r, 35) {
                    v.extend(s.iter().find(|t| t.id == id).cloned());
                }
            }
            v
        }
        _ => {
            // rules of any territory under the name and calling code of another
            let mut v: Vec<Terr> = vec![];
            let mut ids: Vec<&str> = SPECIAL.to_vec();
            ids.extend(["FR", "DE", "AU", "SG", "ZA", "NZ"]);
            for id in ids {
                if chance(r, 25) {
                    continue;
                }
                let mut t = pick(r, s).clone();
                t.id = id.to_string();
                t.main = false;
                let named = s.iter().find(|x| x.id == id).unwrap().cc;
                t.cc = match below(r, 5) {
                    0 => *pick(r, &SPECIAL_CC),
                    1 if !v.is_empty() => pick(r, &v).cc,
                    2 => range(r, 1, 999) as i32,
                    _ => named,
                };
                v.push(t);
            }
            for cc in [800, 979, 888] {
                if chance(r, 60) {
                    let mut t = pick(r, s).clone();
                    t.id = "001".into();
                    t.cc = cc;
                    v.push(t);
                }
            }
            v
        }
    };
    if chance(r, 25) {
        let mut t = pick(r, s).clone();
        t.id = "001".into();
        t.cc = *pick(r, &[883, 870, 979, 882]);
        v.push(t);
    }
    for i in (1..v.len()).rev() {
        if chance(r, 50) {
            let j = below(r, i + 1);
            v.swap(i, j);
        }
    }
    for t in v.iter_mut() {
        if t.intl_prefix.is_none() && t.id != "001" {
            t.intl_prefix = Some("00".into());
        }
        if chance(r, 65) {
            mutate(r, t);
        }
    }
    // non-geographical entities: the first type with an example may be any
    for t in v.iter_mut().filter(|t| t.id == "001") {
        if chance(r, 50) {
            let k = below(r, 7);
            for a in TYPES.iter().take(k) {
                t.descs[*a].example = None;
            }
            for a in TYPES.iter() {
                if chance(r, 25) {
                    t.descs[*a].example = None;
                }
            }
        }
    }
    // a type that only non-geographical entities have an example of
    if chance(r, 30) {
        for _ in 0..range(r, 1, 3) {
            let a = *pick(r, &TYPES);
            for t in v.iter_mut().filter(|t| t.id != "001") {
                t.descs[a].example = None;
            }
        }
    }
    // names and main regions are unique, calling codes of non-geographical entities their own
    let mut ids = BTreeSet::new();
    let mut w: Vec<Terr> = vec![];
    for t in v {
        let k = if t.id == "001" { format!("001/{}", t.cc) } else { t.id.clone() };
        if !ids.insert(k) || w.iter().any(|x: &Terr| x.cc == t.cc && (x.id == "001" || t.id == "001")) {
            continue;
        }
        w.push(t);
    }
    let mut seen = BTreeSet::new();
    for i in 0..w.len() {
        let cc = w[i].cc;
        if !seen.insert(cc) {
            continue;
        }
        let all: Vec<usize> = (0..w.len()).filter(|j| w[*j].cc == cc).collect();
        let mains = all.iter().filter(|j| w[**j].main).count();
        if mains > 1 || (mains == 0 && all.len() > 1 && chance(r, 80)) {
            let m = *pick(r, &all);
            for j in all {
                w[j].main = j == m;
            }
        }
    }
    w
}

#[cfg(rlpn_verif)]
pub fn build(terrs: Vec<Terr>) -> Env {
    let mut c = pm::PhoneMetadataCollection::new();
    c.metadata = terrs.iter().map(to_proto).collect();
    Env::with(rlibphonenumber::PhoneNumberUtil::verif_new_for_metadata(c), terrs)
}
/// Without the hook there is only the shipped plan.
#[cfg(not(rlpn_verif))]
pub fn build(_: Vec<Terr>) -> Env {
    Env::new()
}
/// the plans in use: plan 0 and the most recently built ones, a plan takes some 70 MB when all its
/// patterns have been compiled
const KEEP: usize = 20;
static WORLDS: Mutex<Vec<(i64, Arc<Env>)>> = Mutex::new(Vec::new());
pub fn world(seed: i64) -> Arc<Env> {
    let find = || WORLDS.lock().unwrap().iter().find(|e| e.0 == seed).map(|e| e.1.clone());
    if let Some(e) = find() {
        return e;
    }
    let e = Arc::new(build(plan(seed)));
    let mut w = WORLDS.lock().unwrap();
    if w.len() > KEEP {
        let old = w.iter().position(|e| e.0 != 0).unwrap();
        w.remove(old);
    }
    w.push((seed, e.clone()));
    e
}
