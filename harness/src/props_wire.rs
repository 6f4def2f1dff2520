//! C29: phone-number values on the protobuf wire, against the published schema.
use crate::call;
use crate::case::Case;
use crate::env::Env;
use crate::gens::*;
use crate::num::*;
use crate::run::*;
use protobuf::Message;
use rlibphonenumber::{CountryCodeSource, PhoneNumber};

fn varint(o: &mut Vec<u8>, mut v: u64) {
    while v > 127 {
        o.push(v as u8 | 128);
        v >>= 7;
    }
    o.push(v as u8);
}
fn src_value(s: Src) -> u64 {
    match s {
        Src::Unspecified => 0,
        Src::Plus => 1,
        Src::Idd => 5,
        Src::NoPlus => 10,
        Src::Default => 20,
    }
}
/// the fields of a value, encoded one by one: numbers and types as libphonenumber publishes them
fn fields(n: &Num) -> Vec<(u64, Vec<u8>)> {
    let mut v = vec![];
    let mut int = |f: u64, x: u64| {
        let mut o = vec![];
        varint(&mut o, f << 3);
        varint(&mut o, x);
        v.push((f, o));
    };
    int(1, n.cc as i64 as u64);
    int(2, n.nn);
    if let Some(b) = n.ilz {
        int(4, b as u64);
    }
    if let Some(s) = n.src {
        int(6, src_value(s));
    }
    if let Some(k) = n.nlz {
        int(8, k as i64 as u64);
    }
    for (f, s) in [(3, &n.ext), (5, &n.raw), (7, &n.carrier)] {
        if let Some(s) = s {
            let mut o = vec![];
            varint(&mut o, f << 3 | 2);
            varint(&mut o, s.len() as u64);
            o.extend(s.as_bytes());
            v.push((f, o));
        }
    }
    v
}
fn encode(n: &Num) -> Vec<u8> {
    let mut f = fields(n);
    f.sort();
    f.into_iter().flat_map(|x| x.1).collect()
}

#[derive(Debug, PartialEq)]
enum Read {
    /// the value, and the encodings of unknown fields in their order
    Value(Num, Vec<Vec<u8>>),
    Refuse,
    /// left to the protobuf library
    Open,
}
/// reads a message by the published schema
fn decode(b: &[u8]) -> Read {
    let mut at = 0;
    let var = |at: &mut usize| -> Result<u64, Read> {
        let (mut v, mut sh) = (0u64, 0);
        loop {
            let Some(x) = b.get(*at) else { return Err(Read::Refuse) };
            *at += 1;
            if sh == 63 && *x > 1 {
                return Err(Read::Open);
            }
            v |= u64::from(x & 127) << sh;
            if x & 128 == 0 {
                return Ok(v);
            }
            sh += 7;
        }
    };
    let (mut n, mut cc, mut nn, mut unknown) = (Num::default(), None, None, vec![]);
    let mut go = || -> Result<(), Read> {
        while at < b.len() {
            let from = at;
            let tag = var(&mut at)?;
            if tag > u32::MAX as u64 || tag >> 3 == 0 {
                return Err(Read::Open);
            }
            let (f, w) = (tag >> 3, tag & 7);
            let (mut v, mut s): (u64, &[u8]) = (0, &[]);
            match w {
                0 => v = var(&mut at)?,
                1 | 5 => {
                    at += if w == 1 { 8 } else { 4 };
                    if at > b.len() {
                        return Err(Read::Refuse);
                    }
                }
                2 => {
                    let l = var(&mut at)?;
                    if l > i32::MAX as u64 {
                        return Err(Read::Open);
                    }
                    if l as usize > b.len() - at {
                        return Err(Read::Refuse);
                    }
                    s = &b[at..at + l as usize];
                    at += l as usize;
                }
                _ => return Err(Read::Open),
            }
            let int = || {
                let x = v as i64 as i32;
                if x as i64 == v as i64 { Ok(x) } else { Err(Read::Open) }
            };
            let text = || String::from_utf8(s.to_vec()).map_err(|_| Read::Open);
            match (f, w) {
                (1, 0) => cc = Some(int()?),
                (2, 0) => nn = Some(v),
                (3, 2) => n.ext = Some(text()?),
                (4, 0) => n.ilz = Some(if v < 2 { v == 1 } else { return Err(Read::Open) }),
                (5, 2) => n.raw = Some(text()?),
                (6, 0) => n.src = Some(*ALL_SRC.iter().find(|s| src_value(**s) == v).ok_or(Read::Open)?),
                (7, 2) => n.carrier = Some(text()?),
                (8, 0) => n.nlz = Some(int()?),
                (1..=8, _) => return Err(Read::Open),
                _ => unknown.push(b[from..at].to_vec()),
            }
        }
        Ok(())
    };
    if let Err(e) = go() {
        return e;
    }
    match (cc, nn) {
        (Some(c), Some(k)) => Read::Value(Num { cc: c, nn: k, ..n }, unknown),
        _ => Read::Refuse,
    }
}

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Option<Vec<u8>> {
    if s.len() % 2 != 0 || !s.bytes().all(|b| b.is_ascii_hexdigit()) {
        return None;
    }
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).ok()).collect()
}
fn read(b: &[u8]) -> Option<PhoneNumber> {
    PhoneNumber::parse_from_bytes(b).ok()
}

fn c29_check(env: &Env, c: &Case, st: &mut Stats) -> Res {
    st.class(&c.k);
    match c.k.as_str() {
        "value" => value(env, c, st),
        "equal" => {
            let (a, b) = (c.n(), c.n2());
            st.hit();
            same("equality", || format!("{a:?} == {b:?}"), &(a.to_lib() == b.to_lib()), &(a == b))?;
            same("equality", || format!("{b:?} == {a:?}"), &(b.to_lib() == a.to_lib()), &(a == b))
        }
        "bytes" => {
            let Some(b) = unhex(&c.text) else { return Ok(()) };
            let got = read(&b);
            match decode(&b) {
                Read::Value(n, unknown) => {
                    st.hit();
                    let Some(p) = got else { return fail("refused", format!("{} ({n:?}) is refused", c.text)) };
                    same("decoded", || format!("value of {}", c.text), &Num::from_lib(&p), &n)?;
                    // what it does not know it hands on
                    let Read::Value(m, mut kept) = decode(&p.write_to_bytes().expect("initialised")) else {
                        return fail("encoding", format!("{} written again is not a message", c.text));
                    };
                    same("rewritten", || format!("value of {} written again", c.text), &m, &n)?;
                    let canon = |v: &mut Vec<Vec<u8>>| v.sort();
                    let mut want: Vec<Vec<u8>> = unknown.iter().map(|u| canonical(u)).collect();
                    canon(&mut want);
                    canon(&mut kept);
                    same("unknown-fields", || format!("unknown fields of {}", c.text), &kept, &want)
                }
                Read::Refuse => match got {
                    Some(p) => fail("accepted", format!("{} is taken for {:?}", c.text, Num::from_lib(&p))),
                    None => Ok(()),
                },
                Read::Open => {
                    let Some(p) = got else { return Ok(()) };
                    let w = p.write_to_bytes().map_err(|e| Fail { sig: "unwritable".into(), msg: format!("{}: {e}", c.text) })?;
                    same("rewritten", || format!("{} written and read again", c.text), &(read(&w).as_ref() == Some(&p)), &true)
                }
            }
        }
        _ => Ok(()),
    }
}
/// a field with its tag, value and length in their shortest form
fn canonical(f: &[u8]) -> Vec<u8> {
    let var = |at: &mut usize| {
        let (mut v, mut sh) = (0u64, 0);
        loop {
            let x = f[*at];
            *at += 1;
            v |= u64::from(x & 127) << sh;
            sh += 7;
            if x & 128 == 0 {
                return v;
            }
        }
    };
    let (mut at, mut o) = (0, vec![]);
    let tag = var(&mut at);
    varint(&mut o, tag);
    if matches!(tag & 7, 0 | 2) {
        let v = var(&mut at);
        varint(&mut o, v);
    }
    o.extend(&f[at..]);
    o
}
fn value(env: &Env, c: &Case, st: &mut Stats) -> Res {
    let n = c.n();
    let p = n.to_lib();
    st.hit();
    // what is not set has its published default
    same("getter", || format!("calling code of {n:?}"), &p.country_code(), &n.cc)?;
    same("getter", || format!("national number of {n:?}"), &p.national_number(), &n.nn)?;
    same("getter", || format!("extension of {n:?}"), &p.extension(), &n.ext_str())?;
    same("getter", || format!("raw input of {n:?}"), &p.raw_input(), &n.raw_str())?;
    same("getter", || format!("carrier code of {n:?}"), &p.preferred_domestic_carrier_code(), &n.carrier_str())?;
    same("getter", || format!("leading zero of {n:?}"), &p.italian_leading_zero(), &n.ilz.unwrap_or(false))?;
    same("getter", || format!("leading zeros of {n:?}"), &p.number_of_leading_zeros(), &n.nlz.unwrap_or(1))?;
    same("getter", || format!("source of {n:?}"), &p.country_code_source(), &n.src.map_or(CountryCodeSource::UNSPECIFIED, Src::to_lib))?;
    same("presence", || format!("fields of {n:?}"), &Num::from_lib(&p), n)?;
    let bytes = p.write_to_bytes().map_err(|e| Fail { sig: "unwritable".into(), msg: format!("{n:?}: {e}") })?;
    same("encoding", || format!("{n:?} read from {} by the schema", hex(&bytes)), &decode(&bytes), &Read::Value(n.clone(), vec![]))?;
    same("size", || format!("announced size of {n:?}"), &(p.compute_size() as usize), &bytes.len())?;
    let back = |what: &str, b: &[u8]| -> Result<PhoneNumber, Fail> {
        let Some(q) = read(b) else { return Err(Fail { sig: "refused".into(), msg: format!("{what} of {n:?}, {}, is refused", hex(b)) }) };
        same("round-trip", || format!("{what} of {n:?}, {}", hex(b)), &Num::from_lib(&q), n)?;
        Ok(q)
    };
    let q = back("own encoding", &bytes)?;
    same("round-trip-equal", || format!("{n:?} equals itself read back"), &(q == p), &true)?;
    back("encoding by the schema", &encode(n))?;
    // any order of the fields
    let r = &mut rng_of(c.i as u64);
    let mut f = fields(n);
    for i in (1..f.len()).rev() {
        f.swap(i, below(r, i + 1));
    }
    back("encoding in another order", &f.iter().flat_map(|x| x.1.clone()).collect::<Vec<_>>())?;
    // a later value replaces an earlier one
    let o = c.n2();
    let merged = Num {
        cc: n.cc,
        nn: n.nn,
        ext: n.ext.clone().or(o.ext.clone()),
        ilz: n.ilz.or(o.ilz),
        nlz: n.nlz.or(o.nlz),
        raw: n.raw.clone().or(o.raw.clone()),
        src: n.src.or(o.src),
        carrier: n.carrier.clone().or(o.carrier.clone()),
    };
    let both = [encode(o), encode(n)].concat();
    same("merge", || format!("{o:?} followed by {n:?}"), &read(&both).map(|p| Num::from_lib(&p)), &Some(merged))?;
    // both required fields are
    for without in [1, 2] {
        let b: Vec<u8> = fields(n).into_iter().filter(|x| x.0 != without).flat_map(|x| x.1).collect();
        same("required", || format!("{n:?} without field {without} is read"), &read(&b).is_some(), &false)?;
    }
    // and what comes back is as good as the original (writing out billions of zeros is left out)
    if n.nlz.unwrap_or(0) <= 20_000 {
        for fm in crate::model::ALL_F {
            same("same-format", || format!("{fm:?} of {n:?} read back"), &env.lib.format(&q, call::f(fm)), &env.lib.format(&p, call::f(fm)))?;
        }
        same("same-valid", || format!("{n:?} read back is valid"), &env.lib.is_valid_number(&q), &env.lib.is_valid_number(&p))?;
        same("same-original", || format!("original format of {n:?} read back"), &env.lib.format_in_original_format(&q, "US"), &env.lib.format_in_original_format(&p, "US"))?;
    }
    // clearing a field takes that field away
    let clear: [(&str, fn(&mut PhoneNumber), fn(&mut Num)); 6] = [
        ("extension", |p| p.clear_extension(), |n| n.ext = None),
        ("leading zero", |p| p.clear_italian_leading_zero(), |n| n.ilz = None),
        ("leading zeros", |p| p.clear_number_of_leading_zeros(), |n| n.nlz = None),
        ("raw input", |p| p.clear_raw_input(), |n| n.raw = None),
        ("source", |p| p.clear_country_code_source(), |n| n.src = None),
        ("carrier code", |p| p.clear_preferred_domestic_carrier_code(), |n| n.carrier = None),
    ];
    for (what, f, g) in clear {
        let (mut p, mut n) = (p.clone(), n.clone());
        f(&mut p);
        g(&mut n);
        same("clear", || format!("{n:?} after clearing the {what}"), &Num::from_lib(&p), &n)?;
    }
    let mut e = p.clone();
    e.clear();
    same("clear", || format!("{n:?} cleared equals a new one"), &(e == PhoneNumber::new()), &true)
}

fn filled(env: &Env, r: &mut R) -> Num {
    let mut n = if chance(r, 70) { number(env, r).0 } else { wild_number(env, r) };
    if chance(r, 30) {
        n.raw = Some(text_case(env, r).0);
    }
    if chance(r, 30) {
        n.src = Some(*pick(r, &ALL_SRC));
    }
    if chance(r, 20) {
        n.carrier = Some(carrier(env, r));
    }
    if chance(r, 15) {
        n.ilz = Some(chance(r, 70));
    }
    if chance(r, 20) {
        n.nlz = Some(*pick(r, &[0, 1, 2, 3, 127, 128, 16384, -1, i32::MIN, i32::MAX]));
    }
    if chance(r, 8) {
        n.raw = Some("\u{661}x".repeat(range(r, 60, 90)));
    }
    if chance(r, 10) {
        n.nn = *pick(r, &[0, 127, 128, 1 << 32, (1 << 63) - 1, 1 << 63, u64::MAX]);
    }
    n
}
fn one_change(env: &Env, r: &mut R, n: &Num) -> Num {
    let mut m = n.clone();
    let o = filled(env, r);
    match below(r, 10) {
        0 => m.cc = o.cc,
        1 => m.nn ^= 1 << below(r, 64),
        2 => m.ext = if m.ext.is_some() && chance(r, 50) { None } else { Some(pick(r, &["", "1", "01"]).to_string()) },
        3 => m.ilz = *pick(r, &[None, Some(false), Some(true)]),
        4 => m.nlz = *pick(r, &[None, Some(0), Some(1), Some(2)]),
        5 => m.raw = if chance(r, 30) { None } else { Some(pick(r, &["", "1"]).to_string()) },
        6 => m.src = if chance(r, 30) { None } else { Some(*pick(r, &ALL_SRC)) },
        7 => m.carrier = if chance(r, 30) { None } else { Some(pick(r, &["", "1"]).to_string()) },
        8 => return o,
        _ => {}
    }
    m
}
fn c29_gen(env: &Env, r: &mut R) -> Case {
    let n = filled(env, r);
    match weighted(r, &[45, 25, 30]) {
        0 => {
            let m = if chance(r, 50) { one_change(env, r, &n) } else { filled(env, r) };
            Case::new("value").num(n).num2(m).i(below(r, 1 << 30) as i64)
        }
        1 => {
            let m = one_change(env, r, &n);
            Case::new("equal").num(n).num2(m)
        }
        _ => {
            let mut parts: Vec<Vec<u8>> = fields(&n).into_iter().map(|x| x.1).collect();
            // fields of a later version of the schema
            for _ in 0..weighted(r, &[40, 30, 20, 10]) {
                let f = *pick(r, &[9u64, 10, 15, 16, 100, 2047, 2048, 536870911]);
                let w = *pick(r, &[0u64, 0, 1, 2, 2, 5]);
                let mut o = vec![];
                varint(&mut o, f << 3 | w);
                match w {
                    0 => varint(&mut o, *pick(r, &[0, 1, 300, u64::MAX])),
                    2 => {
                        let k = below(r, 9);
                        varint(&mut o, k as u64);
                        o.extend((0..k).map(|_| below(r, 256) as u8));
                    }
                    _ => o.extend((0..if w == 1 { 8 } else { 4 }).map(|_| below(r, 256) as u8)),
                }
                let i = below(r, parts.len() + 1);
                parts.insert(i, o);
            }
            if chance(r, 30) {
                let m = fields(&one_change(env, r, &n));
                let i = below(r, parts.len() + 1);
                parts.insert(i, pick(r, &m).1.clone());
            }
            if chance(r, 30) {
                let i = below(r, parts.len());
                parts.remove(i);
            }
            let mut b = parts.concat();
            if chance(r, 35) && !b.is_empty() {
                for _ in 0..range(r, 1, 3) {
                    let i = below(r, b.len());
                    match below(r, 5) {
                        0 => b.truncate(i.max(1)),
                        1 => b[i] = below(r, 256) as u8,
                        2 => b[i] ^= 1 << below(r, 8),
                        3 => b.insert(i, below(r, 256) as u8),
                        _ => {
                            if b.len() > 1 {
                                b.remove(i);
                            }
                        }
                    }
                }
            }
            if chance(r, 3) {
                b = (0..below(r, 40)).map(|_| below(r, 256) as u8).collect();
            }
            Case::new("bytes").text(hex(&b))
        }
    }
}
fn c29_sys(env: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![Case::new("bytes")];
    let some = |s: &str| Some(s.to_string());
    // every combination of present fields
    let full = Num { cc: 39, nn: 2, ext: some("3"), ilz: Some(true), nlz: Some(2), raw: some("r"), src: Some(Src::Idd), carrier: some("c") };
    let mut all = vec![];
    for k in 0..64 {
        let mut n = full.clone();
        let drop = |i: i32| k >> i & 1 == 1;
        if drop(0) {
            n.ext = None;
        }
        if drop(1) {
            n.ilz = None;
        }
        if drop(2) {
            n.nlz = None;
        }
        if drop(3) {
            n.raw = None;
        }
        if drop(4) {
            n.src = None;
        }
        if drop(5) {
            n.carrier = None;
        }
        all.push(n);
    }
    for a in &all {
        for b in &all {
            v.push(Case::new("value").num(a.clone()).num2(b.clone()));
            v.push(Case::new("equal").num(a.clone()).num2(b.clone()));
        }
    }
    // empty and zero are not absent
    for n in [Num { ext: some(""), ..Default::default() }, Num { raw: some(""), ..Default::default() }, Num { carrier: some(""), ..Default::default() }, Num { ilz: Some(false), ..Default::default() }, Num { nlz: Some(1), ..Default::default() }, Num { nlz: Some(0), ..Default::default() }, Num { src: Some(Src::Unspecified), ..Default::default() }] {
        v.push(Case::new("equal").num(n.clone()).num2(Num::default()));
        v.push(Case::new("value").num(n).num2(Num::default()));
    }
    for s in ALL_SRC {
        v.push(Case::new("value").num(Num { src: Some(s), ..full.clone() }).num2(full.clone()));
    }
    for cc in &env.ccs {
        v.push(Case::new("value").num(Num { cc: *cc, ..full.clone() }).num2(Num { cc: -*cc, ..Default::default() }));
    }
    v
}
pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C29",
        rule: "every combination of present fields systematically; then number values (valid, near, wild, with any text as raw input), pairs that differ in one field, and byte strings made of a value's fields with unknown, repeated, missing, reordered and damaged ones; non-trivial: a value or pair, or bytes that are a message",
        assumptions: &["field numbers and types are those of libphonenumber's published phonenumber.proto, written down in the harness; what the protobuf specification leaves to implementations (groups, mismatched wire types, over-long numbers, unknown enum values) only has to be handled without a panic and stably"],
        quick: 2_000_000,
        thorough: 40_000_000,
        systematic: c29_sys,
        exhaustive: false,
        generate: Some(c29_gen),
        check: c29_check,
        threads: 8,
    }]
}
