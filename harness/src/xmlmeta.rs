//! Published metadata: a small XML reader plus the documented XML -> metadata compilation rules
//! (tools/java .. BuildMetadataFromXml), written independently of the library and reading
//! the XML file only.
use std::collections::BTreeSet;

#[derive(Debug, Clone)]
pub struct Elem {
    pub name: String,
    pub attrs: Vec<(String, String)>,
    pub children: Vec<Node>,
}
#[derive(Debug, Clone)]
pub enum Node {
    Elem(Elem),
    Text(String),
    Comment,
}
impl Elem {
    pub fn attr(&self, n: &str) -> Option<&str> {
        self.attrs.iter().find(|(k, _)| k == n).map(|(_, v)| v.as_str())
    }
    /// Depth-first, document order (like getElementsByTagName).
    pub fn by_tag<'a>(&'a self, tag: &str, out: &mut Vec<&'a Elem>) {
        for c in &self.children {
            if let Node::Elem(e) = c {
                if e.name == tag {
                    out.push(e);
                }
                e.by_tag(tag, out);
            }
        }
    }
    pub fn tags<'a>(&'a self, tag: &str) -> Vec<&'a Elem> {
        let mut v = vec![];
        self.by_tag(tag, &mut v);
        v
    }
    pub fn first_text(&self) -> String {
        for c in &self.children {
            if let Node::Text(t) = c {
                return t.clone();
            }
        }
        String::new()
    }
}

struct Px<'a> {
    s: &'a [u8],
    i: usize,
}
impl<'a> Px<'a> {
    fn starts(&self, p: &str) -> bool {
        self.s[self.i..].starts_with(p.as_bytes())
    }
    fn skip_until(&mut self, p: &str) {
        while self.i < self.s.len() && !self.starts(p) {
            self.i += 1;
        }
        self.i += p.len();
    }
    fn ws(&mut self) {
        while self.i < self.s.len() && self.s[self.i].is_ascii_whitespace() {
            self.i += 1;
        }
    }
    fn misc(&mut self) {
        loop {
            self.ws();
            if self.starts("<!--") {
                self.skip_until("-->");
            } else if self.starts("<?") {
                self.skip_until("?>");
            } else if self.starts("<!DOCTYPE") {
                let mut depth = 0i32;
                let mut q: Option<u8> = None;
                while self.i < self.s.len() {
                    if q.is_none() && self.starts("<!--") {
                        self.skip_until("-->");
                        continue;
                    }
                    let c = self.s[self.i];
                    self.i += 1;
                    match (q, c) {
                        (Some(a), b) if a == b => q = None,
                        (Some(_), _) => {}
                        (None, b'"') | (None, b'\'') => q = Some(c),
                        (None, b'[') => depth += 1,
                        (None, b']') => depth -= 1,
                        (None, b'>') if depth == 0 => break,
                        _ => {}
                    }
                }
            } else {
                return;
            }
        }
    }
    fn name(&mut self) -> String {
        let st = self.i;
        while self.i < self.s.len() && (self.s[self.i].is_ascii_alphanumeric() || b"_-:.".contains(&self.s[self.i])) {
            self.i += 1;
        }
        String::from_utf8(self.s[st..self.i].to_vec()).unwrap()
    }
    fn elem(&mut self) -> Elem {
        assert!(self.starts("<"), "element expected at {}", self.i);
        self.i += 1;
        let name = self.name();
        let mut attrs = vec![];
        loop {
            self.ws();
            if self.starts("/>") {
                self.i += 2;
                return Elem { name, attrs, children: vec![] };
            }
            if self.starts(">") {
                self.i += 1;
                break;
            }
            let k = self.name();
            self.ws();
            assert!(self.starts("="), "attribute of {name} at {}", self.i);
            self.i += 1;
            self.ws();
            let q = self.s[self.i];
            self.i += 1;
            let st = self.i;
            while self.s[self.i] != q {
                self.i += 1;
            }
            let v = std::str::from_utf8(&self.s[st..self.i]).unwrap();
            self.i += 1;
            let v: String = v.replace("\r\n", "\n").chars().map(|c| if matches!(c, '\n' | '\t' | '\r') { ' ' } else { c }).collect();
            attrs.push((k, unescape(&v)));
        }
        let mut children = vec![];
        let mut text = String::new();
        let flush = |text: &mut String, children: &mut Vec<Node>| {
            if !text.is_empty() {
                children.push(Node::Text(std::mem::take(text)));
            }
        };
        loop {
            assert!(self.i < self.s.len(), "unterminated <{name}>");
            if self.starts("<!--") {
                self.skip_until("-->");
                flush(&mut text, &mut children);
                children.push(Node::Comment);
            } else if self.starts("<![CDATA[") {
                self.i += 9;
                let st = self.i;
                self.skip_until("]]>");
                text.push_str(std::str::from_utf8(&self.s[st..self.i - 3]).unwrap());
            } else if self.starts("</") {
                flush(&mut text, &mut children);
                self.i += 2;
                let n = self.name();
                assert_eq!(n, name, "mismatched end tag at {}", self.i);
                self.ws();
                assert!(self.starts(">"));
                self.i += 1;
                return Elem { name, attrs, children };
            } else if self.starts("<?") {
                self.skip_until("?>");
            } else if self.starts("<") {
                flush(&mut text, &mut children);
                children.push(Node::Elem(self.elem()));
            } else {
                let st = self.i;
                while self.i < self.s.len() && self.s[self.i] != b'<' {
                    self.i += 1;
                }
                text.push_str(&unescape(&std::str::from_utf8(&self.s[st..self.i]).unwrap().replace("\r\n", "\n")));
            }
        }
    }
}
fn unescape(s: &str) -> String {
    if !s.contains('&') {
        return s.to_string();
    }
    let mut out = String::new();
    let mut rest = s;
    while let Some(p) = rest.find('&') {
        out.push_str(&rest[..p]);
        rest = &rest[p..];
        let e = rest.find(';').expect("entity");
        let ent = &rest[1..e];
        out.push(match ent {
            "amp" => '&',
            "lt" => '<',
            "gt" => '>',
            "quot" => '"',
            "apos" => '\'',
            _ if ent.starts_with("#x") => char::from_u32(u32::from_str_radix(&ent[2..], 16).unwrap()).unwrap(),
            _ if ent.starts_with('#') => char::from_u32(ent[1..].parse().unwrap()).unwrap(),
            _ => panic!("entity {ent}"),
        });
        rest = &rest[e + 1..];
    }
    out.push_str(rest);
    out
}
pub fn parse_xml(s: &str) -> Elem {
    let s = s.trim_start_matches('\u{feff}');
    let mut p = Px { s: s.as_bytes(), i: 0 };
    p.misc();
    p.elem()
}

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Desc {
    pub pattern: Option<String>,
    pub lens: Vec<i32>,
    pub local: Vec<i32>,
    pub example: Option<String>,
}
#[derive(Debug, Clone, Default, PartialEq)]
pub struct Fmt {
    pub pattern: String,
    pub format: String,
    pub leading: Vec<String>,
    pub np_rule: Option<String>,
    pub np_optional: bool,
    pub cc_rule: Option<String>,
}
pub const GENERAL: usize = 0;
pub const FIXED: usize = 1;
pub const MOBILE: usize = 2;
pub const TOLLFREE: usize = 3;
pub const PREMIUM: usize = 4;
pub const SHARED: usize = 5;
pub const PERSONAL: usize = 6;
pub const VOIP: usize = 7;
pub const PAGER: usize = 8;
pub const UAN: usize = 9;
pub const VOICEMAIL: usize = 10;
pub const NOINTL: usize = 11;
pub const NDESC: usize = 12;
pub const DESC_TAGS: [&str; NDESC] = [
    "generalDesc",
    "fixedLine",
    "mobile",
    "tollFree",
    "premiumRate",
    "sharedCost",
    "personalNumber",
    "voip",
    "pager",
    "uan",
    "voicemail",
    "noInternationalDialling",
];

#[derive(Debug, Clone, Default, PartialEq)]
pub struct Terr {
    pub id: String,
    pub cc: i32,
    pub leading_digits: Option<String>,
    pub intl_prefix: Option<String>,
    pub pref_intl: Option<String>,
    pub nat_prefix: Option<String>,
    pub np_parsing: Option<String>,
    pub np_transform: Option<String>,
    pub pref_extn: Option<String>,
    pub main: bool,
    pub portable: bool,
    pub same_mobile_fixed: bool,
    pub formats: Vec<Fmt>,
    pub intl_formats: Vec<Fmt>,
    pub descs: Vec<Desc>,
}
impl Terr {
    pub fn key(&self) -> String {
        format!("{}/{}", self.id, self.cc)
    }
    pub fn d(&self, i: usize) -> &Desc {
        &self.descs[i]
    }
    /// possible lengths of a description, inherited from the general one when absent
    pub fn lens(&self, i: usize) -> &[i32] {
        if self.descs[i].lens.is_empty() { &self.descs[GENERAL].lens } else { &self.descs[i].lens }
    }
}

fn nows(s: &str) -> String {
    s.chars().filter(|c| !matches!(c, ' ' | '\t' | '\n' | '\r' | '\x0b' | '\x0c')).collect()
}
fn parse_lens(s: &str) -> BTreeSet<i32> {
    let mut o = BTreeSet::new();
    for part in s.split(',') {
        if let Some(r) = part.strip_prefix('[') {
            let (a, b) = r.strip_suffix(']').unwrap().split_once('-').unwrap();
            for x in a.parse::<i32>().unwrap()..=b.parse().unwrap() {
                o.insert(x);
            }
        } else {
            o.insert(part.parse().unwrap());
        }
    }
    o
}
fn collect_lens(e: &Elem, nat: &mut BTreeSet<i32>, loc: &mut BTreeSet<i32>) {
    for p in e.tags("possibleLengths") {
        nat.extend(parse_lens(p.attr("national").unwrap()));
        if let Some(l) = p.attr("localOnly") {
            loc.extend(parse_lens(l));
        }
    }
}
fn replace_first(s: &str, from: &str, to: &str) -> String {
    s.replacen(from, to, 1)
}
fn leading(e: &Elem) -> Vec<String> {
    e.tags("leadingDigits").iter().map(|x| nows(&x.first_text())).collect()
}

pub fn load_territory(t: &Elem) -> Terr {
    let a = |n: &str| t.attr(n).map(|s| s.to_string());
    let np = t.attr("nationalPrefix").unwrap_or("").to_string();
    let mut m = Terr {
        id: a("id").unwrap_or_default(),
        cc: a("countryCode").map(|x| x.parse().unwrap()).unwrap_or(0),
        leading_digits: a("leadingDigits"),
        intl_prefix: a("internationalPrefix"),
        pref_intl: a("preferredInternationalPrefix"),
        pref_extn: a("preferredExtnPrefix"),
        main: t.attr("mainCountryForCode").is_some(),
        portable: t.attr("mobileNumberPortableRegion").is_some(),
        ..Default::default()
    };
    if let Some(p) = t.attr("nationalPrefixForParsing") {
        m.np_parsing = Some(nows(p));
        m.np_transform = a("nationalPrefixTransformRule");
    }
    if !np.is_empty() {
        m.nat_prefix = Some(np.clone());
        if m.np_parsing.is_none() {
            m.np_parsing = Some(np.clone());
        }
    }
    let np_rule = |s: &str| replace_first(&replace_first(s, "$NP", &np), "$FG", "$1");
    let cc_rule = |s: &str| replace_first(&replace_first(s, "$FG", "$1"), "$NP", &np);
    let t_np = t.attr("nationalPrefixFormattingRule").map(&np_rule).filter(|s| !s.is_empty());
    let t_cc = t.attr("carrierCodeFormattingRule").map(&cc_rule).filter(|s| !s.is_empty());
    let t_opt = t.attr("nationalPrefixOptionalWhenFormatting").is_some();
    let mut explicit = false;
    for nf in t.tags("numberFormat") {
        let f = Fmt {
            pattern: nf.attr("pattern").unwrap_or("").to_string(),
            format: nf.tags("format")[0].first_text(),
            leading: leading(nf),
            np_rule: nf.attr("nationalPrefixFormattingRule").map(&np_rule).or(t_np.clone()),
            np_optional: nf.attr("nationalPrefixOptionalWhenFormatting").map(|v| v.eq_ignore_ascii_case("true")).unwrap_or(t_opt),
            cc_rule: nf.attr("carrierCodeFormattingRule").map(&cc_rule).or(t_cc.clone()),
        };
        m.formats.push(f.clone());
        match nf.tags("intlFormat").first() {
            None => m.intl_formats.push(f),
            Some(i) => {
                explicit = true;
                let v = i.first_text();
                if v != "NA" {
                    m.intl_formats.push(Fmt { pattern: f.pattern.clone(), format: v, leading: f.leading.clone(), ..Default::default() });
                }
            }
        }
    }
    if !explicit {
        m.intl_formats.clear();
    }
    // descriptions
    m.descs = vec![Desc::default(); NDESC];
    let (mut gn, mut gl) = (BTreeSet::new(), BTreeSet::new());
    for c in &t.children {
        if let Node::Elem(e) = c {
            if e.name != "noInternationalDialling" {
                collect_lens(e, &mut gn, &mut gl);
            }
        }
    }
    for (i, tag) in DESC_TAGS.iter().enumerate() {
        let el = t.tags(tag);
        let d = &mut m.descs[i];
        if i == GENERAL {
            d.lens = gn.iter().copied().collect();
            d.local = gl.iter().copied().filter(|x| !gn.contains(x)).collect();
        } else if el.is_empty() {
            d.lens = vec![-1];
        } else {
            let (mut n, mut l) = (BTreeSet::new(), BTreeSet::new());
            collect_lens(el[0], &mut n, &mut l);
            if n != gn {
                d.lens = n.iter().copied().collect();
            }
            d.local = l.iter().copied().filter(|x| !n.contains(x)).collect();
        }
        if let Some(e) = el.first() {
            d.pattern = e.tags("nationalNumberPattern").first().map(|x| nows(&x.first_text()));
            d.example = e.tags("exampleNumber").first().map(|x| x.first_text());
        }
    }
    m.same_mobile_fixed = m.descs[MOBILE].pattern.clone().unwrap_or_default() == m.descs[FIXED].pattern.clone().unwrap_or_default();
    m
}

pub fn load_file(path: &str) -> Vec<Terr> {
    let s = std::fs::read_to_string(path).unwrap_or_else(|e| {
        eprintln!("cannot read {path}: {e}");
        std::process::exit(3)
    });
    parse_xml(&s).tags("territory").into_iter().map(load_territory).collect()
}
