//! One concrete test case (what a replay file holds) and its structural shrinker.
use crate::num::Num;
use serde::{Deserialize, Serialize};

fn se(s: &String) -> bool {
    s.is_empty()
}
fn iz(i: &i64) -> bool {
    *i == 0
}

#[derive(Clone, Debug, Default, PartialEq, Serialize, Deserialize)]
pub struct Case {
    /// which relation / operation of the property this case exercises
    pub k: String,
    #[serde(default, skip_serializing_if = "se")]
    pub text: String,
    #[serde(default, skip_serializing_if = "se")]
    pub text2: String,
    #[serde(default, skip_serializing_if = "se")]
    pub region: String,
    #[serde(default, skip_serializing_if = "se")]
    pub region2: String,
    #[serde(default, skip_serializing_if = "se")]
    pub s: String,
    #[serde(default, skip_serializing_if = "iz")]
    pub i: i64,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub num: Option<Num>,
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub num2: Option<Num>,
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub ops: Vec<Case>,
}

impl Case {
    pub fn new(k: &str) -> Case {
        Case { k: k.to_string(), ..Default::default() }
    }
    pub fn text(mut self, t: impl Into<String>) -> Case {
        self.text = t.into();
        self
    }
    pub fn text2(mut self, t: impl Into<String>) -> Case {
        self.text2 = t.into();
        self
    }
    pub fn region(mut self, r: impl Into<String>) -> Case {
        self.region = r.into();
        self
    }
    pub fn region2(mut self, r: impl Into<String>) -> Case {
        self.region2 = r.into();
        self
    }
    pub fn s(mut self, r: impl Into<String>) -> Case {
        self.s = r.into();
        self
    }
    pub fn i(mut self, i: i64) -> Case {
        self.i = i;
        self
    }
    pub fn num(mut self, n: Num) -> Case {
        self.num = Some(n);
        self
    }
    pub fn num2(mut self, n: Num) -> Case {
        self.num2 = Some(n);
        self
    }
    pub fn n(&self) -> &Num {
        self.num.as_ref().expect("case without number")
    }
    pub fn n2(&self) -> &Num {
        self.num2.as_ref().expect("case without second number")
    }
    pub fn has(&self, f: &str) -> bool {
        self.k.split('|').any(|x| x == f)
    }
}

fn shrink_str(s: &str) -> Vec<String> {
    let c: Vec<char> = s.chars().collect();
    let mut out = vec![];
    if c.is_empty() {
        return out;
    }
    let mut w = c.len();
    while w > 0 {
        let mut i = 0;
        while i < c.len() {
            let e = (i + w).min(c.len());
            let t: String = c[..i].iter().chain(c[e..].iter()).collect();
            out.push(t);
            i += w;
        }
        w /= 2;
    }
    for i in 0..c.len().min(60) {
        let alt = match c[i] {
            '0' | '1' | '2' | 'a' | ' ' => None,
            x if x.is_ascii_digit() => Some('2'),
            x if x.is_ascii_alphabetic() => Some('a'),
            x if x.is_ascii() => Some(' '),
            _ => Some('a'),
        };
        if let Some(a) = alt {
            let mut d = c.clone();
            d[i] = a;
            out.push(d.into_iter().collect());
        }
    }
    out
}
fn shrink_num(n: &Num) -> Vec<Num> {
    let mut o = vec![];
    let mut push = |f: &dyn Fn(&mut Num)| {
        let mut m = n.clone();
        f(&mut m);
        if &m != n {
            o.push(m);
        }
    };
    push(&|m| m.raw = None);
    push(&|m| m.src = None);
    push(&|m| m.carrier = None);
    push(&|m| m.ext = None);
    push(&|m| {
        m.ilz = None;
        m.nlz = None
    });
    push(&|m| m.nlz = None);
    push(&|m| m.nn /= 10);
    push(&|m| m.nn /= 1000);
    push(&|m| m.cc = 1);
    push(&|m| m.cc /= 10);
    if n.nlz.is_some_and(|z| z > 1) {
        push(&|m| m.nlz = Some(m.nlz.unwrap() / 2));
        push(&|m| m.nlz = Some(m.nlz.unwrap() - 1));
    }
    let d = n.nn.to_string();
    for i in 1..d.len() {
        let mut b = d.clone().into_bytes();
        if b[i] != b'0' {
            b[i] = b'0';
            let v = String::from_utf8(b).unwrap().parse().unwrap();
            push(&|m| m.nn = v);
        }
        let v = format!("{}{}", &d[..i], &d[i + 1..]).parse().unwrap();
        push(&|m| m.nn = v);
    }
    for (get, set) in [
        ((|m: &Num| m.raw.clone()) as fn(&Num) -> Option<String>, (|m: &mut Num, s: String| m.raw = Some(s)) as fn(&mut Num, String)),
        (|m| m.ext.clone(), |m, s| m.ext = Some(s)),
        (|m| m.carrier.clone(), |m, s| m.carrier = Some(s)),
    ] {
        if let Some(s) = get(n) {
            for t in shrink_str(&s) {
                let mut m = n.clone();
                set(&mut m, t);
                o.push(m);
            }
        }
    }
    o
}

/// Simpler variants of a case, most aggressive first.
pub fn shrink(c: &Case) -> Vec<Case> {
    let mut out: Vec<Case> = vec![];
    // drop operations
    if !c.ops.is_empty() {
        let mut w = c.ops.len();
        while w > 0 {
            let mut i = 0;
            while i < c.ops.len() {
                let e = (i + w).min(c.ops.len());
                let mut d = c.clone();
                d.ops.drain(i..e);
                out.push(d);
                i += w;
            }
            w /= 2;
        }
    }
    for r in ["US", ""] {
        if c.region != r && !c.region.is_empty() {
            out.push(Case { region: r.into(), ..c.clone() });
        }
        if c.region2 != r && !c.region2.is_empty() {
            out.push(Case { region2: r.into(), ..c.clone() });
        }
    }
    for t in shrink_str(&c.text) {
        out.push(Case { text: t, ..c.clone() });
    }
    for t in shrink_str(&c.text2) {
        out.push(Case { text2: t, ..c.clone() });
    }
    for t in shrink_str(&c.s) {
        out.push(Case { s: t, ..c.clone() });
    }
    if let Some(n) = &c.num {
        for m in shrink_num(n) {
            out.push(Case { num: Some(m), ..c.clone() });
        }
    }
    if let Some(n) = &c.num2 {
        for m in shrink_num(n) {
            out.push(Case { num2: Some(m), ..c.clone() });
        }
    }
    if !c.ops.is_empty() && c.ops.len() <= 6 {
        for i in 0..c.ops.len() {
            for o in shrink(&c.ops[i]) {
                let mut d = c.clone();
                d.ops[i] = o;
                out.push(d);
            }
        }
    }
    out
}
