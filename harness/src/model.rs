//! Reference model: the documented libphonenumber rules, written from the upstream
//! specification over the published XML metadata, with every "matches" being a match of
//! the complete string. It shares no code with the library.
use crate::num::{Num, Src};
use crate::xmlmeta::*;
use regex::Regex;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;
use std::sync::LazyLock;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum F {
    E164,
    Intl,
    Nat,
    Rfc,
}
pub const ALL_F: [F; 4] = [F::E164, F::Intl, F::Nat, F::Rfc];

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum PErr {
    InvalidCountry,
    NotANumber,
    TooShortAfterIdd,
    TooShort,
    TooLong,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum T {
    FixedLine,
    Mobile,
    FixedOrMobile,
    TollFree,
    Premium,
    Shared,
    Voip,
    Personal,
    Pager,
    Uan,
    Voicemail,
    Unknown,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum L {
    Possible,
    LocalOnly,
    InvalidCc,
    TooShort,
    InvalidLength,
    TooLong,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum M {
    No,
    Short,
    Nsn,
    Exact,
}

thread_local! {
    static CACHE: RefCell<HashMap<String, Rc<Regex>>> = RefCell::new(HashMap::new());
}
pub fn rx(p: String) -> Rc<Regex> {
    CACHE.with(|c| {
        if let Some(r) = c.borrow().get(&p) {
            return r.clone();
        }
        let r = Rc::new(Regex::new(&p).unwrap_or_else(|e| panic!("MODEL: bad regex {p}: {e}")));
        let mut c = c.borrow_mut();
        if c.len() > 8000 {
            c.clear();
        }
        c.insert(p, r.clone());
        r
    })
}
// What is matched has been normalised to ASCII digits; the class of all digits makes a pattern many
// times as large.
pub fn full(p: &str) -> Rc<Regex> {
    rx(format!("^(?:{})$", p.replace(r"\d", "[0-9]")))
}
pub fn pre(p: &str) -> Rc<Regex> {
    rx(format!("^(?:{})", p.replace(r"\d", "[0-9]")))
}

pub static ND: LazyLock<Vec<(u32, u32)>> = LazyLock::new(|| {
    use regex_syntax::hir::{Class, HirKind};
    let h = regex_syntax::parse(r"\p{Nd}").unwrap();
    match h.kind() {
        HirKind::Class(Class::Unicode(c)) => c.ranges().iter().map(|r| (r.start() as u32, r.end() as u32)).collect(),
        _ => unreachable!(),
    }
});
/// Decimal value of a Unicode decimal digit (decimal digits come in runs 0..9).
pub fn dec(c: char) -> Option<char> {
    if c.is_ascii_digit() {
        return Some(c);
    }
    if c.is_ascii() {
        return None;
    }
    let u = c as u32;
    ND.iter().find(|(a, b)| *a <= u && u <= *b).map(|(a, _)| (b'0' + ((u - a) % 10) as u8) as char)
}
pub fn digits_only(s: &str) -> String {
    s.chars().filter_map(dec).collect()
}
pub fn keypad(c: char) -> Option<char> {
    Some(match c.to_ascii_uppercase() {
        'A'..='C' => '2',
        'D'..='F' => '3',
        'G'..='I' => '4',
        'J'..='L' => '5',
        'M'..='O' => '6',
        'P'..='S' => '7',
        'T'..='V' => '8',
        'W'..='Z' => '9',
        _ => return None,
    })
}
pub fn convert_alpha(s: &str) -> String {
    s.chars().map(|c| keypad(c).unwrap_or(c)).collect()
}
pub fn letters(s: &str) -> usize {
    s.chars().filter(|c| c.is_ascii_alphabetic()).count()
}
/// Digits of a viable number text: letters count as keypad digits when there are three or more.
pub fn normalize(s: &str) -> String {
    if letters(s) >= 3 {
        s.chars().filter_map(|c| if c.is_ascii_digit() { Some(c) } else { keypad(c) }).collect()
    } else {
        digits_only(s)
    }
}
pub fn diallable(s: &str) -> String {
    s.chars().filter(|c| c.is_ascii_digit() || matches!(c, '+' | '*' | '#')).collect()
}

pub const PUNCT: &str = "-x\u{2010}-\u{2015}\u{2212}\u{30FC}\u{FF0D}-\u{FF0F} \u{A0}\u{AD}\u{200B}\u{2060}\u{3000}()\u{FF08}\u{FF09}\u{FF3B}\u{FF3D}.\\[\\]/~\u{2053}\u{223C}";

static EXT: LazyLock<String> = LazyLock::new(|| {
    let d = |n: u32| format!(r"(\p{{Nd}}{{1,{n}}})");
    let sep = "[ \u{A0}\t,]*";
    let after = "[:.\u{FF0E}]?[ \u{A0}\t,-]*";
    let explicit = "(?:e?xt(?:ensi(?:o\u{301}?|\u{F3}))?n?|\u{FF45}?\u{FF58}\u{FF54}\u{FF4E}?|\u{434}\u{43E}\u{431}|anexo)";
    let ambiguous = "(?:[x\u{FF58}#\u{FF03}~\u{FF5E}]|int|\u{FF49}\u{FF4E}\u{FF54})";
    [
        format!(";ext={}", d(20)),
        format!("{sep}{explicit}{after}{}#?", d(20)),
        format!("{sep}{ambiguous}{after}{}#?", d(9)),
        format!("[- ]+{}#", d(6)),
        format!("[ \u{A0}\t]*(?:,,|;){after}{}#?", d(15)),
        format!("[ \u{A0}\t]*,+{after}{}#?", d(9)),
    ]
    .join("|")
});
static VIABLE: LazyLock<Regex> = LazyLock::new(|| {
    Regex::new(&format!(
        r"(?i)^(?:[+\x{{FF0B}}]*(?:[{p}*]*\p{{Nd}}){{3,}}[{p}*a-z\p{{Nd}}]*|\p{{Nd}}{{2}})(?:{e})?$",
        p = PUNCT,
        e = *EXT
    ))
    .unwrap()
});
static EXT_END: LazyLock<Regex> = LazyLock::new(|| Regex::new(&format!("(?i)(?:{})$", *EXT)).unwrap());
static CTX_GLOBAL: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"^\+[-.()\p{Nd}]*\p{Nd}[-.()\p{Nd}]*$").unwrap());
static CTX_DOMAIN: LazyLock<Regex> = LazyLock::new(|| {
    let an = r"[A-Za-z\p{Nd}]";
    Regex::new(&format!(r"^(?:{an}+(?:-*{an})*\.)*[A-Za-z]+(?:-*{an})*\.?$")).unwrap()
});
static SEPS: LazyLock<Regex> = LazyLock::new(|| Regex::new(&format!("[{PUNCT}]+")).unwrap());
static SECOND: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"^(?s:.*?)([^\n]*)[\\/] *x").unwrap());
static JUNK_END: LazyLock<Regex> = LazyLock::new(|| Regex::new(r"[^\p{N}\p{L}#]+$").unwrap());
static SINGLE_IDD: LazyLock<Regex> = LazyLock::new(|| Regex::new("^\\d+(?:[~\u{2053}\u{223C}\u{FF5E}]\\d+)?$").unwrap());

pub fn viable(s: &str) -> bool {
    VIABLE.is_match(s)
}
/// (number, extension)
pub fn strip_ext(s: &str) -> (&str, Option<&str>) {
    if let Some(c) = EXT_END.captures(s) {
        let before = &s[..c.get(0).unwrap().start()];
        if viable(before) {
            for i in 1..c.len() {
                if let Some(m) = c.get(i) {
                    return (before, Some(m.as_str()));
                }
            }
        }
    }
    (s, None)
}
pub fn is_alpha_number(s: &str) -> bool {
    viable(s) && letters(strip_ext(s).0) >= 3
}
fn is_plus(c: char) -> bool {
    c == '+' || c == '\u{FF0B}'
}
pub fn context_valid(c: &str) -> bool {
    CTX_GLOBAL.is_match(c) || CTX_DOMAIN.is_match(c)
}

/// The part of the text that is taken as the number (plus extension).
pub fn candidate(text: &str) -> Result<String, PErr> {
    const CTX: &str = ";phone-context=";
    let mut n = String::new();
    if let Some(p) = text.find(CTX) {
        let v = &text[p + CTX.len()..];
        let v = v.split(';').next().unwrap();
        if !context_valid(v) {
            return Err(PErr::NotANumber);
        }
        if v.starts_with('+') {
            n.push_str(v);
        }
        let head = &text[..p];
        let st = head.find("tel:").map(|i| i + 4).unwrap_or(0);
        n.push_str(&head[st..]);
    } else {
        let Some(st) = text.find(|c: char| is_plus(c) || dec(c).is_some()) else { return Err(PErr::NotANumber) };
        let mut t = &text[st..];
        if let Some(m) = JUNK_END.find(t) {
            t = &t[..m.start()];
        }
        if t.is_empty() {
            return Err(PErr::NotANumber);
        }
        if let Some(c) = SECOND.captures(t) {
            t = c.get(1).unwrap().as_str();
        }
        n.push_str(t);
    }
    if let Some(p) = n.find(";isub=") {
        n.truncate(p);
    }
    Ok(n)
}

pub struct Model {
    pub terrs: Vec<Terr>,
    pub by_region: HashMap<String, usize>,
    pub nongeo: HashMap<i32, usize>,
    pub cc_regions: BTreeMap<i32, Vec<String>>,
    pub regions: Vec<String>,
}

impl Model {
    pub fn new(terrs: Vec<Terr>) -> Model {
        let mut m = Model { by_region: HashMap::new(), nongeo: HashMap::new(), cc_regions: BTreeMap::new(), regions: vec![], terrs };
        for (i, t) in m.terrs.iter().enumerate() {
            let e = m.cc_regions.entry(t.cc).or_default();
            if t.main {
                e.insert(0, t.id.clone());
            } else {
                e.push(t.id.clone());
            }
            if t.id == "001" {
                m.nongeo.insert(t.cc, i);
            } else {
                m.by_region.insert(t.id.clone(), i);
                m.regions.push(t.id.clone());
            }
        }
        m.regions.sort();
        m
    }
    pub fn region(&self, r: &str) -> Option<&Terr> {
        self.by_region.get(r).map(|i| &self.terrs[*i])
    }
    pub fn main_region(&self, cc: i32) -> &str {
        self.cc_regions.get(&cc).map(|v| v[0].as_str()).unwrap_or("ZZ")
    }
    pub fn regions_of(&self, cc: i32) -> &[String] {
        self.cc_regions.get(&cc).map(|v| v.as_slice()).unwrap_or(&[])
    }
    pub fn known_cc(&self, cc: i32) -> bool {
        self.cc_regions.contains_key(&cc)
    }
    pub fn meta(&self, cc: i32, region: &str) -> Option<&Terr> {
        if region == "001" { self.nongeo.get(&cc).map(|i| &self.terrs[*i]) } else { self.region(region) }
    }
    /// Metadata used for formatting and lengths of a calling code.
    pub fn main_meta(&self, cc: i32) -> Option<&Terr> {
        self.meta(cc, self.main_region(cc))
    }
    pub fn nanpa(&self, r: &str) -> bool {
        self.region(r).is_some_and(|t| t.cc == 1)
    }

    // ---------- numbering plan ----------
    pub fn desc_match(nsn: &str, d: &Desc) -> bool {
        let n = nsn.len() as i32;
        if !d.lens.is_empty() && !d.lens.contains(&n) {
            return false;
        }
        match d.pattern.as_deref() {
            None | Some("") => false,
            Some(p) => full(p).is_match(nsn),
        }
    }
    pub fn pattern_match(nsn: &str, d: &Desc) -> bool {
        match d.pattern.as_deref() {
            None | Some("") => false,
            Some(p) => full(p).is_match(nsn),
        }
    }
    pub fn type_in(nsn: &str, t: &Terr) -> T {
        let is = |i: usize| Self::desc_match(nsn, t.d(i));
        if !is(GENERAL) {
            return T::Unknown;
        }
        for (i, ty) in [
            (PREMIUM, T::Premium),
            (TOLLFREE, T::TollFree),
            (SHARED, T::Shared),
            (VOIP, T::Voip),
            (PERSONAL, T::Personal),
            (PAGER, T::Pager),
            (UAN, T::Uan),
            (VOICEMAIL, T::Voicemail),
        ] {
            if is(i) {
                return ty;
            }
        }
        match (is(FIXED), t.same_mobile_fixed, is(MOBILE)) {
            (true, true, _) | (true, _, true) => T::FixedOrMobile,
            (true, false, false) => T::FixedLine,
            (false, false, true) => T::Mobile,
            _ => T::Unknown,
        }
    }
    pub fn region_of(&self, n: &Num) -> &str {
        let rs = self.regions_of(n.cc);
        match rs.len() {
            0 => "ZZ",
            1 => &rs[0],
            _ => {
                let nsn = n.nsn();
                for r in rs {
                    let Some(t) = self.region(r) else { return "ZZ" };
                    if let Some(ld) = &t.leading_digits {
                        if pre(ld).is_match(&nsn) {
                            return r;
                        }
                    } else if Self::type_in(&nsn, t) != T::Unknown {
                        return r;
                    }
                }
                "ZZ"
            }
        }
    }
    pub fn num_type(&self, n: &Num) -> T {
        match self.meta(n.cc, self.region_of(n)) {
            Some(t) => Self::type_in(&n.nsn(), t),
            None => T::Unknown,
        }
    }
    pub fn valid_for(&self, n: &Num, r: &str) -> bool {
        match self.meta(n.cc, r) {
            Some(t) if r == "001" || t.cc == n.cc => Self::type_in(&n.nsn(), t) != T::Unknown,
            _ => false,
        }
    }
    pub fn valid(&self, n: &Num) -> bool {
        self.valid_for(n, self.region_of(n))
    }
    pub fn length_verdict(nsn: &str, t: &Terr) -> L {
        let d = t.d(GENERAL);
        Self::verdict_in(nsn.len() as i32, &d.lens, &d.local)
    }
    fn verdict_in(n: i32, lens: &[i32], local: &[i32]) -> L {
        if lens.is_empty() || lens[0] == -1 {
            return L::InvalidLength;
        }
        if local.contains(&n) {
            L::LocalOnly
        } else if lens.contains(&n) {
            L::Possible
        } else if n < *lens.iter().min().unwrap() {
            L::TooShort
        } else if n > *lens.iter().max().unwrap() {
            L::TooLong
        } else {
            L::InvalidLength
        }
    }
    pub fn type_desc(ty: T) -> usize {
        match ty {
            T::FixedLine | T::FixedOrMobile => FIXED,
            T::Mobile => MOBILE,
            T::TollFree => TOLLFREE,
            T::Premium => PREMIUM,
            T::Shared => SHARED,
            T::Personal => PERSONAL,
            T::Voip => VOIP,
            T::Pager => PAGER,
            T::Uan => UAN,
            T::Voicemail => VOICEMAIL,
            T::Unknown => GENERAL,
        }
    }
    /// how a number's length compares with those of one type
    pub fn possible_as(&self, n: &Num, ty: T) -> L {
        let Some(t) = self.main_meta(n.cc) else { return L::InvalidCc };
        let len = n.nsn().len() as i32;
        let none = |i: usize| t.d(i).lens == [-1];
        let of = |i: usize| (t.lens(i).to_vec(), t.d(i).local.clone());
        let (lens, local) = match ty {
            T::FixedOrMobile if none(FIXED) => of(MOBILE),
            T::FixedOrMobile if !none(MOBILE) => {
                let (mut a, mut b) = of(FIXED);
                let (c, d) = of(MOBILE);
                a.extend(c);
                b.extend(d);
                a.sort();
                (a, b)
            }
            _ => of(Self::type_desc(ty)),
        };
        Self::verdict_in(len, &lens, &local)
    }
    /// the types a plan knows numbers of
    pub fn types_in(t: &Terr) -> Vec<T> {
        use T::*;
        [FixedLine, Mobile, TollFree, Premium, Shared, Voip, Personal, Pager, Uan, Voicemail]
            .into_iter()
            .filter(|ty| {
                let d = t.d(Self::type_desc(*ty));
                d.example.is_some() || d.pattern.is_some() || d.lens != [-1]
            })
            .collect()
    }
    pub fn example_as(&self, region: &str, ty: T) -> Option<Num> {
        let e = self.region(region)?.d(Self::type_desc(ty)).example.clone()?;
        self.parse(&e, region, false).ok()
    }
    pub fn example_global(&self, cc: i32) -> Option<Num> {
        let t = self.meta(cc, "001")?;
        let e = [MOBILE, TOLLFREE, SHARED, VOIP, VOICEMAIL, UAN, PREMIUM].iter().find_map(|i| t.d(*i).example.clone())?;
        self.parse(&format!("+{cc}{e}"), "ZZ", false).ok()
    }
    /// a number against a text that may lack its calling code
    pub fn matching_text(&self, a: &Num, text: &str) -> Option<M> {
        match self.parse(text, "ZZ", false) {
            Ok(b) => Some(Self::matching(a, &b)),
            Err(PErr::InvalidCountry) => match self.main_region(a.cc) {
                "ZZ" => Some(Self::matching(a, &self.parse_from(text, "ZZ", false, true).ok()?)),
                r => Some(match Self::matching(a, &self.parse(text, r, false).ok()?) {
                    M::Exact => M::Nsn,
                    g => g,
                }),
            },
            Err(_) => None,
        }
    }
    pub fn matching_texts(&self, a: &str, b: &str) -> Option<M> {
        for (x, y) in [(a, b), (b, a)] {
            match self.parse(x, "ZZ", false) {
                Ok(n) => return self.matching_text(&n, y),
                Err(PErr::InvalidCountry) => {}
                Err(_) => return None,
            }
        }
        let p = |s: &str| self.parse_from(s, "ZZ", false, true).ok();
        Some(Self::matching(&p(a)?, &p(b)?))
    }
    /// with formats of the caller's, in which $NP is the national prefix and $FG the first group
    pub fn format_with(&self, n: &Num, kind: F, fs: &[Fmt]) -> String {
        let nsn = n.nsn();
        let Some(t) = self.main_meta(n.cc) else { return nsn };
        let s = match Self::choose(fs, &nsn) {
            None => nsn,
            Some(f) => {
                let np = t.nat_prefix.as_deref().unwrap_or("");
                let mut g = f.clone();
                g.np_rule = f.np_rule.as_ref().filter(|_| !np.is_empty()).map(|x| x.replace("$NP", np).replace("$FG", "$1"));
                Self::apply_full(&g, &nsn, kind, "")
            }
        };
        Self::prefix_cc(n.cc, kind, &(s + &Self::ext_suffix(n, t, F::Nat)))
    }
    pub fn possible(&self, n: &Num) -> L {
        match self.main_meta(n.cc) {
            None => L::InvalidCc,
            Some(t) => Self::length_verdict(&n.nsn(), t),
        }
    }
    pub fn intl_diallable(&self, n: &Num) -> bool {
        match self.region(self.region_of(n)) {
            None => true,
            Some(t) => !Self::desc_match(&n.nsn(), t.d(NOINTL)),
        }
    }
    pub fn geographical(ty: T, cc: i32) -> bool {
        matches!(ty, T::FixedLine | T::FixedOrMobile) || (ty == T::Mobile && [52, 54, 55, 62, 86].contains(&cc))
    }
    pub fn is_geographical(&self, n: &Num) -> bool {
        Self::geographical(self.num_type(n), n.cc)
    }
    pub fn ndc_len(&self, n: &Num) -> usize {
        let mut m = n.clone();
        m.ext = None;
        let s = self.format(&m, F::Intl);
        // groups of decimal digits as written
        let mut g: Vec<usize> = vec![];
        let mut cur = 0;
        for c in s.chars() {
            if dec(c).is_some() {
                cur += c.len_utf8();
            } else if cur > 0 {
                g.push(cur);
                cur = 0;
            }
        }
        if cur > 0 {
            g.push(cur);
        }
        if g.len() < 3 {
            return 0;
        }
        if n.cc == 54 && self.num_type(n) == T::Mobile { g[2] + 1 } else { g[1] }
    }
    pub fn area_len(&self, n: &Num) -> usize {
        let Some(t) = self.region(self.region_of(n)) else { return 0 };
        let ty = self.num_type(n);
        if t.nat_prefix.is_none() && n.ilz != Some(true) && n.cc != 52 {
            return 0;
        }
        if ty == T::Mobile && n.cc == 86 {
            return 0;
        }
        if !Self::geographical(ty, n.cc) {
            return 0;
        }
        self.ndc_len(n)
    }

    // ---------- parsing ----------
    /// Strip national prefix: (rest, carrier code)
    pub fn strip_national(t: &Terr, num: &str) -> Option<(String, String)> {
        let p = t.np_parsing.as_deref().unwrap_or("");
        if num.is_empty() || p.is_empty() {
            return None;
        }
        let re = pre(p);
        let c = re.captures(num)?;
        let groups = c.len() - 1;
        let was = Self::pattern_match(num, t.d(GENERAL));
        let end = c.get(0).unwrap().end();
        let last = if groups > 0 { c.get(groups).map(|m| m.as_str()).unwrap_or("") } else { "" };
        let rule = t.np_transform.as_deref().unwrap_or("");
        let (out, carrier) = if !rule.is_empty() && !last.is_empty() {
            let carrier = if groups > 1 { c.get(1).map(|m| m.as_str()).unwrap_or("") } else { "" };
            (format!("{}{}", expand(rule, &c), &num[end..]), carrier)
        } else {
            (num[end..].to_string(), if groups > 0 { c.get(1).map(|m| m.as_str()).unwrap_or("") } else { "" })
        };
        if was && !Self::pattern_match(&out, t.d(GENERAL)) {
            return None;
        }
        Some((out, carrier.to_string()))
    }
    fn extract_cc(&self, d: &str) -> Option<(i32, String)> {
        if d.is_empty() || d.starts_with('0') {
            return None;
        }
        for l in 1..=3.min(d.len()) {
            let cc: i32 = d[..l].parse().unwrap();
            if self.known_cc(cc) {
                return Some((cc, d[l..].to_string()));
            }
        }
        None
    }
    /// (calling code or 0, national digits, source)
    fn country(&self, text: &str, t: Option<&Terr>) -> Result<(i32, String, Src), PErr> {
        let (digits, src) = if text.starts_with(is_plus) {
            (normalize(text.trim_start_matches(is_plus)), Src::Plus)
        } else {
            let d = normalize(text);
            let mut r = None;
            if let Some(t) = t {
                if let Some(m) = pre(t.intl_prefix.as_deref().unwrap_or("")).find(&d) {
                    if !d[m.end()..].starts_with('0') {
                        r = Some(d[m.end()..].to_string());
                    }
                }
            }
            match r {
                Some(r) if !text.is_empty() => (r, Src::Idd),
                _ => (d, Src::Default),
            }
        };
        if src != Src::Default {
            if digits.len() <= 2 {
                return Err(PErr::TooShortAfterIdd);
            }
            let (cc, rest) = self.extract_cc(&digits).ok_or(PErr::InvalidCountry)?;
            return Ok((cc, rest, src));
        }
        if let Some(t) = t {
            if let Some(rest) = digits.strip_prefix(&t.cc.to_string()) {
                let stripped = Self::strip_national(t, rest).map(|x| x.0).unwrap_or(rest.to_string());
                let fits = |s: &str| Self::pattern_match(s, t.d(GENERAL));
                if (!fits(&digits) && fits(&stripped)) || Self::length_verdict(&digits, t) == L::TooLong {
                    return Ok((t.cc, stripped, Src::NoPlus));
                }
            }
        }
        Ok((0, digits, Src::Default))
    }
    pub fn parse(&self, text: &str, region: &str, keep: bool) -> Result<Num, PErr> {
        self.parse_from(text, region, keep, false)
    }
    /// with `anywhere`, a text that does not say which country it is from is taken as it stands
    pub fn parse_from(&self, text: &str, region: &str, keep: bool, anywhere: bool) -> Result<Num, PErr> {
        let cand = candidate(text)?;
        if !viable(&cand) {
            return Err(PErr::NotANumber);
        }
        let mut meta = self.region(region);
        if meta.is_none() && !cand.starts_with(is_plus) && !anywhere {
            return Err(PErr::InvalidCountry);
        }
        let (num, ext) = strip_ext(&cand);
        let (cc, mut nsn, src) = match self.country(num, meta) {
            Err(PErr::InvalidCountry) if num.starts_with(is_plus) => {
                let r = self.country(num.trim_start_matches(is_plus), meta)?;
                if r.0 == 0 {
                    return Err(PErr::InvalidCountry);
                }
                r
            }
            r => r?,
        };
        let cc = if cc != 0 {
            let r = self.main_region(cc);
            if r != region {
                meta = self.meta(cc, r);
            }
            cc
        } else {
            meta.map(|t| t.cc).unwrap_or(0)
        };
        if nsn.len() < 2 {
            return Err(PErr::TooShort);
        }
        let mut carrier = String::new();
        if let Some(t) = meta {
            if let Some((rest, c)) = Self::strip_national(t, &nsn) {
                if !matches!(Self::length_verdict(&rest, t), L::TooShort | L::LocalOnly | L::InvalidLength) {
                    nsn = rest;
                    carrier = c;
                }
            }
        }
        if nsn.len() < 2 {
            return Err(PErr::TooShort);
        }
        if nsn.len() > 17 {
            return Err(PErr::TooLong);
        }
        let mut n = Num::from_nsn(cc, &nsn);
        n.ext = ext.map(|e| e.to_string());
        if keep {
            n.raw = Some(text.to_string());
            n.src = Some(src);
            n.carrier = (!carrier.is_empty()).then_some(carrier);
        }
        Ok(n)
    }

    // ---------- formatting ----------
    pub fn choose<'a>(fs: &'a [Fmt], nsn: &str) -> Option<&'a Fmt> {
        fs.iter().find(|f| f.leading.last().is_none_or(|l| pre(l).is_match(nsn)) && full(&f.pattern).is_match(nsn))
    }
    /// National part rendered with one pattern.
    pub fn apply(f: &Fmt, nsn: &str, kind: F, carrier: &str) -> String {
        let mut rule = f.format.clone();
        if kind == F::Nat {
            let cc_rule = f.cc_rule.as_deref().unwrap_or("");
            let np_rule = f.np_rule.as_deref().unwrap_or("");
            if !carrier.is_empty() && !cc_rule.is_empty() {
                // the carrier code is literal: it goes in after all expansions
                rule = subst_first_group(&rule, &cc_rule.replacen("$CC", "\u{F8FF}", 1));
            } else if !np_rule.is_empty() {
                rule = subst_first_group(&rule, np_rule);
            }
        }
        let re = rx(f.pattern.clone());
        let mut out = String::new();
        let mut last = 0;
        for c in re.captures_iter(nsn) {
            let m = c.get(0).unwrap();
            out.push_str(&nsn[last..m.start()]);
            out.push_str(&expand(&rule, &c));
            last = m.end();
        }
        out.push_str(&nsn[last..]);
        if !carrier.is_empty() {
            out = out.replace('\u{F8FF}', carrier);
        }
        if kind == F::Rfc { rfc_seps(&out) } else { out }
    }
    pub fn format_nsn(t: &Terr, nsn: &str, kind: F, carrier: &str) -> String {
        let fs = if t.intl_formats.is_empty() || kind == F::Nat { &t.formats } else { &t.intl_formats };
        match Self::choose(fs, nsn) {
            Some(f) => {
                // full-string groups
                Self::apply_full(f, nsn, kind, carrier)
            }
            None => nsn.to_string(),
        }
    }
    pub fn apply_full(f: &Fmt, nsn: &str, kind: F, carrier: &str) -> String {
        let mut g = f.clone();
        g.pattern = format!("^(?:{})$", f.pattern);
        Self::apply(&g, nsn, kind, carrier)
    }
    pub fn ext_suffix(n: &Num, t: &Terr, kind: F) -> String {
        if n.ext_str().is_empty() {
            return String::new();
        }
        let p = if kind == F::Rfc { ";ext=" } else { t.pref_extn.as_deref().unwrap_or(" ext. ") };
        format!("{p}{}", n.ext_str())
    }
    pub fn prefix_cc(cc: i32, kind: F, s: &str) -> String {
        match kind {
            F::E164 => format!("+{cc}{s}"),
            F::Intl => format!("+{cc} {s}"),
            F::Rfc => format!("tel:+{cc}-{s}"),
            F::Nat => s.to_string(),
        }
    }
    pub fn format(&self, n: &Num, kind: F) -> String {
        if n.nn == 0 && !n.raw_str().is_empty() {
            return n.raw_str().to_string();
        }
        let nsn = n.nsn();
        if kind == F::E164 {
            return format!("+{}{nsn}", n.cc);
        }
        let Some(t) = self.main_meta(n.cc) else { return nsn };
        Self::prefix_cc(n.cc, kind, &(Self::format_nsn(t, &nsn, kind, "") + &Self::ext_suffix(n, t, kind)))
    }
    pub fn format_carrier(&self, n: &Num, carrier: &str) -> String {
        let nsn = n.nsn();
        let Some(t) = self.main_meta(n.cc) else { return nsn };
        Self::format_nsn(t, &nsn, F::Nat, carrier) + &Self::ext_suffix(n, t, F::Nat)
    }
    fn single_idd(t: &Terr) -> Option<&str> {
        t.intl_prefix.as_deref().filter(|p| SINGLE_IDD.is_match(p))
    }
    /// Prefix dialled from region t for international calls when it is unique or preferred.
    pub fn dial_prefix(t: &Terr) -> Option<&str> {
        t.pref_intl.as_deref().or(Self::single_idd(t)).filter(|p| !p.is_empty())
    }
    pub fn out_of_country(&self, n: &Num, from: &str) -> String {
        let Some(tf) = self.region(from) else { return self.format(n, F::Intl) };
        let nsn = n.nsn();
        let Some(t) = self.main_meta(n.cc) else { return nsn };
        if n.cc == 1 && self.nanpa(from) {
            return format!("1 {}", self.format(n, F::Nat));
        }
        if n.cc == tf.cc {
            return self.format(n, F::Nat);
        }
        let body = Self::format_nsn(t, &nsn, F::Intl, "") + &Self::ext_suffix(n, t, F::Intl);
        match Self::dial_prefix(tf) {
            Some(p) => format!("{p} {} {body}", n.cc),
            None => format!("+{} {body}", n.cc),
        }
    }
    /// Letters (upper case), digits and grouping symbols of a raw input.
    pub fn grouping(s: &str) -> String {
        s.chars()
            .filter_map(|c| {
                Some(match c {
                    '0'..='9' | 'A'..='Z' => c,
                    'a'..='z' => c.to_ascii_uppercase(),
                    '-' | '\u{FF0D}' | '\u{2010}'..='\u{2015}' | '\u{2212}' => '-',
                    '/' | '\u{FF0F}' => '/',
                    ' ' | '\u{3000}' | '\u{2060}' => ' ',
                    '.' | '\u{FF0E}' => '.',
                    _ => return None,
                })
            })
            .collect()
    }
    pub fn keeping_alpha(&self, n: &Num, from: &str) -> String {
        if n.raw_str().is_empty() {
            return self.out_of_country(n, from);
        }
        let Some(t) = self.main_meta(n.cc) else { return n.raw_str().to_string() };
        let mut raw = Self::grouping(n.raw_str());
        let nsn = n.nsn();
        if nsn.len() > 3 {
            if let Some(p) = raw.find(&nsn[..3]) {
                raw = raw[p..].to_string();
            }
        }
        let tf = self.region(from);
        if n.cc == 1 && self.nanpa(from) {
            return format!("1 {raw}");
        }
        if n.cc != 1 && tf.is_some_and(|x| x.cc == n.cc) {
            let tf = tf.unwrap();
            let Some(f) = Self::choose(&tf.formats, &nsn) else { return raw };
            let g = Fmt { pattern: "(\\d+)(.*)".into(), format: "$1$2".into(), ..f.clone() };
            return Self::apply(&g, &raw, F::Nat, "");
        }
        let p = tf.and_then(|t| Self::single_idd(t).or(t.pref_intl.as_deref())).filter(|p| !p.is_empty());
        let s = match p {
            Some(p) => format!("{p} {} {raw}", n.cc),
            None => format!("+{} {raw}", n.cc),
        };
        let body = strip_ext(&s).0.to_string();
        body + &Self::ext_suffix(n, t, F::Intl)
    }
    pub fn mobile_dialing(&self, n: &Num, from: &str, fmt: bool) -> String {
        if !self.known_cc(n.cc) {
            return n.raw_str().to_string();
        }
        let mut m = n.clone();
        m.ext = None;
        let region = self.main_region(n.cc);
        let ty = self.num_type(&m);
        let dial = self.intl_diallable(&m);
        let fom = matches!(ty, T::FixedLine | T::Mobile | T::FixedOrMobile);
        let s = if from == region {
            if region == "BR" && fom {
                if m.carrier_str().is_empty() { String::new() } else { self.format_carrier(&m, m.carrier_str()) }
            } else if n.cc == 1 {
                let t = self.region(from).unwrap();
                if dial && Self::length_verdict(&m.nsn(), t) != L::TooShort { self.format(&m, F::Intl) } else { self.format(&m, F::Nat) }
            } else if (region == "001" || (["MX", "CL", "UZ"].contains(&region) && fom)) && dial {
                self.format(&m, F::Intl)
            } else {
                self.format(&m, F::Nat)
            }
        } else if ty != T::Unknown && dial {
            self.format(&m, if fmt { F::Intl } else { F::E164 })
        } else {
            String::new()
        };
        if fmt { s } else { diallable(&s) }
    }
    /// `strict`: a region without a national prefix of its own gets the national format even
    /// where its formatting rule adds one; otherwise the style the user typed (both keep the digits)
    pub fn original(&self, n: &Num, from: &str, strict: bool) -> String {
        let meta = self.main_meta(n.cc);
        let nsn = n.nsn();
        let has_fmt = meta.is_some_and(|t| Self::choose(&t.formats, &nsn).is_some());
        if n.raw.is_some() && !has_fmt {
            return n.raw_str().to_string();
        }
        let Some(src) = n.src else { return self.format(n, F::Nat) };
        let s = match src {
            Src::Plus => self.format(n, F::Intl),
            Src::Idd => self.out_of_country(n, from),
            Src::NoPlus => {
                let s = self.format(n, F::Intl);
                s.strip_prefix('+').map(|x| x.to_string()).unwrap_or(s)
            }
            Src::Default | Src::Unspecified => self.original_national(n, strict),
        };
        if !s.is_empty() && !n.raw_str().is_empty() && diallable(&s) != diallable(n.raw_str()) {
            return n.raw_str().to_string();
        }
        s
    }
    fn original_national(&self, n: &Num, strict: bool) -> String {
        let nat = self.format(n, F::Nat);
        let region = self.main_region(n.cc);
        let Some(t) = self.region(region) else { return nat };
        let np = t.nat_prefix.as_deref().unwrap_or("").replace('~', "");
        if np.is_empty() && strict {
            return nat;
        }
        let raw = digits_only(n.raw_str());
        if let Some(rest) = raw.strip_prefix(&np) {
            if let Ok(m) = self.parse(rest, region, false) {
                if self.valid(&m) {
                    return nat;
                }
            }
        }
        let nsn = n.nsn();
        let Some(f) = Self::choose(&t.formats, &nsn) else { return nat };
        let rule = f.np_rule.as_deref().unwrap_or("");
        if rule.is_empty() {
            return nat;
        }
        let Some(p) = rule.find("$1") else { return nat };
        if digits_only(&rule[..p]).is_empty() {
            return nat;
        }
        let g = Fmt { np_rule: None, ..f.clone() };
        Self::apply_full(&g, &nsn, F::Nat, "") + &Self::ext_suffix(n, t, F::Nat)
    }

    // ---------- others ----------
    pub fn matching(a: &Num, b: &Num) -> M {
        if a.ext.is_some() && b.ext.is_some() && a.ext != b.ext {
            return M::No;
        }
        let id = |n: &Num| (n.nn, n.ext.clone(), n.ilz == Some(true), if n.ilz == Some(true) { n.nlz.unwrap_or(1) } else { 1 });
        let same = id(a) == id(b);
        let (x, y) = (a.nn.to_string(), b.nn.to_string());
        let suffix = x.ends_with(&y) || y.ends_with(&x);
        if a.cc != 0 && b.cc != 0 {
            if a.cc != b.cc {
                M::No
            } else if same {
                M::Exact
            } else if suffix {
                M::Short
            } else {
                M::No
            }
        } else if same {
            M::Nsn
        } else if suffix {
            M::Short
        } else {
            M::No
        }
    }
    pub fn truncate(&self, n: &Num) -> Option<Num> {
        if self.valid(n) {
            return Some(n.clone());
        }
        let mut m = n.clone();
        loop {
            m.nn /= 10;
            if m.nn == 0 || self.possible(&m) == L::TooShort {
                return None;
            }
            if self.valid(&m) {
                return Some(m);
            }
        }
    }
}

/// $d -> group d (single digit), everything else literal
pub fn expand(rule: &str, c: &regex::Captures) -> String {
    let mut out = String::new();
    let mut it = rule.chars().peekable();
    while let Some(ch) = it.next() {
        if ch == '$' {
            if let Some(d) = it.peek().and_then(|x| x.to_digit(10)) {
                it.next();
                out.push_str(c.get(d as usize).map(|m| m.as_str()).unwrap_or(""));
                continue;
            }
        }
        out.push(ch);
    }
    out
}
/// Replace the first $d of a format by a formatting rule in which $1 stands for that group.
pub fn subst_first_group(format: &str, rule: &str) -> String {
    let b = format.as_bytes();
    for i in 0..b.len().saturating_sub(1) {
        if b[i] == b'$' && b[i + 1].is_ascii_digit() {
            let g = &format[i..i + 2];
            return format!("{}{}{}", &format[..i], rule.replace("$1", g), &format[i + 2..]);
        }
    }
    format.to_string()
}
pub fn rfc_seps(s: &str) -> String {
    let s = match SEPS.find(s) {
        Some(m) if m.start() == 0 => &s[m.end()..],
        _ => s,
    };
    SEPS.replace_all(s, "-").into_owned()
}
