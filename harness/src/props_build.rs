//! C26, C27: the metadata builder (tools/java), run from its sources in a JVM, against the
//! independent reading of the XML in xmlmeta.rs. check.sh compiles the sources into RLPN_JAVA.
use crate::case::Case;
use crate::compiled::from_proto;
use crate::env::Env;
use crate::gens::*;
use crate::run::*;
use crate::xmlmeta::*;
use protobuf::Message;
use rlibphonenumber::phonemetadata as pm;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::io::{BufRead, BufReader, Write};
use std::process::{Child, ChildStdin, ChildStdout, Command, Stdio};
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};

// ---------------------------------------------------------------- the JVM
struct Jvm {
    child: Child,
    to: ChildStdin,
    from: BufReader<ChildStdout>,
}
impl Drop for Jvm {
    fn drop(&mut self) {
        let _ = self.child.kill();
        let _ = self.child.wait();
    }
}
fn start() -> Jvm {
    let Ok(cp) = std::env::var("RLPN_JAVA") else { harness_error("RLPN_JAVA is not set: run this check through check.sh") };
    let mut child = Command::new("java")
        .args(["-Xss16m", "-Xmx400m", "-XX:+UseSerialGC", "-XX:TieredStopAtLevel=1", "-cp", &cp, "com.google.i18n.phonenumbers.Driver"])
        .current_dir(std::env::temp_dir())
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn()
        .unwrap_or_else(|e| harness_error(&format!("java: {e}")));
    let (to, from) = (child.stdin.take().unwrap(), BufReader::new(child.stdout.take().unwrap()));
    Jvm { child, to, from }
}
fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
}
/// One request; "ended" when the JVM is gone.
fn ask(words: &[&str]) -> String {
    thread_local!(static J: RefCell<Option<Jvm>> = const { RefCell::new(None) });
    let line = words.iter().map(|w| hex(w.as_bytes())).collect::<Vec<_>>().join(" ") + "\n";
    J.with(|j| {
        let mut j = j.borrow_mut();
        // a JVM that went away is believed to have been ended by the request when a new one goes too
        for _ in 0..2 {
            let v = j.get_or_insert_with(start);
            let mut r = String::new();
            if v.to.write_all(line.as_bytes()).and_then(|_| v.to.flush()).is_ok() && v.from.read_line(&mut r).is_ok_and(|n| n > 0) {
                return r.trim_end().to_string();
            }
            *j = None;
        }
        "ended".to_string()
    })
}

// ---------------------------------------------------------------- documents
/// A case's `ops` are XML elements: k = name, text = content, ops = attributes (k = "@name") and
/// children.
fn el(k: &str) -> Case {
    Case::new(k)
}
fn at(mut e: Case, k: &str, v: impl Into<String>) -> Case {
    e.ops.push(Case::new(&format!("@{k}")).text(v));
    e
}
fn to_elem(c: &Case) -> Elem {
    let mut e = Elem { name: c.k.clone(), attrs: vec![], children: vec![] };
    if !c.text.is_empty() {
        e.children.push(Node::Text(c.text.clone()));
    }
    for o in &c.ops {
        match o.k.strip_prefix('@') {
            Some(a) if e.attr(a).is_none() => e.attrs.push((a.to_string(), o.text.clone())),
            Some(_) => {}
            None => e.children.push(Node::Elem(to_elem(o))),
        }
    }
    e
}
fn from_elem(e: &Elem) -> Case {
    let mut c = el(&e.name);
    for (k, v) in &e.attrs {
        c = at(c, k, v.clone());
    }
    let leaf = e.children.iter().all(|n| matches!(n, Node::Text(_)));
    for n in &e.children {
        match n {
            Node::Elem(x) if x.name != "references" => c.ops.push(from_elem(x)),
            // white space in patterns is put back in when a document is written
            Node::Text(t) if leaf => c.text = if matches!(c.k.as_str(), "format" | "intlFormat" | "exampleNumber") { t.clone() } else { squeeze(t) },
            _ => {}
        }
    }
    for o in &mut c.ops {
        if o.k == "@nationalPrefixForParsing" {
            o.text = squeeze(&o.text);
        }
    }
    c
}
fn squeeze(s: &str) -> String {
    s.chars().filter(|c| !c.is_ascii_whitespace()).collect()
}
const NAME_OK: &str = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ";
fn named(c: &Case) -> bool {
    let n = c.k.strip_prefix('@').unwrap_or(&c.k);
    !n.is_empty() && n.chars().all(|c| NAME_OK.contains(c)) && c.ops.iter().all(named)
}

/// The document as text; how it is laid out depends on the seed only.
struct Layout {
    r: R,
    wild: bool,
}
impl Layout {
    fn some(&mut self, percent: u32) -> bool {
        self.wild && chance(&mut self.r, percent)
    }
    fn escape(&mut self, s: &str, attr: Option<char>) -> String {
        let mut o = String::new();
        for c in s.chars() {
            match c {
                '&' => o += "&amp;",
                '<' => o += "&lt;",
                '>' => o += "&gt;",
                c if attr == Some(c) || attr.is_some() && c == '\n' => o += &format!("&#{};", c as u32),
                c if self.some(2) => o += &format!("&#x{:X};", c as u32),
                c => o.push(c),
            }
        }
        o
    }
    /// pattern text may be broken up by white space anywhere
    fn spread(&mut self, s: &str) -> String {
        if !self.some(40) {
            return s.to_string();
        }
        let mut o = String::new();
        for c in s.chars() {
            if self.some(15) {
                o += *pick(&mut self.r, &["\n    ", " ", "\t", "\n", "  "]);
            }
            o.push(c);
        }
        if self.some(30) {
            o += "\n  ";
        }
        o
    }
    fn gap(&mut self, depth: usize) -> String {
        let mut o = String::new();
        if self.some(10) {
            return o;
        }
        o += "\n";
        o += &"  ".repeat(depth);
        if self.some(8) {
            o += *pick(&mut self.r, &["<!-- <territory id=\"XX\"/> -->", "<!---->", "<!-- 1|2 & -->", "<?note x?>"]);
            o += "\n";
        }
        o
    }
    fn elem(&mut self, c: &Case, depth: usize, o: &mut String) {
        *o += "<";
        *o += &c.k;
        let mut attrs: Vec<(&str, &str)> = vec![];
        for a in &c.ops {
            if let Some(n) = a.k.strip_prefix('@') {
                if !attrs.iter().any(|x| x.0 == n) {
                    attrs.push((n, &a.text));
                }
            }
        }
        if self.some(40) {
            for i in (1..attrs.len()).rev() {
                let j = below(&mut self.r, i + 1);
                attrs.swap(i, j);
            }
        }
        for (n, v) in attrs {
            let q = if self.some(20) { '\'' } else { '"' };
            let v = if n == "nationalPrefixForParsing" { self.spread(v) } else { v.to_string() };
            let sep = if self.some(15) { "\n      " } else { " " };
            let eq = if self.some(5) { " = " } else { "=" };
            let v = self.escape(&v, Some(q)).replace("&#10;", "\n");
            *o += &format!("{sep}{n}{eq}{q}{v}{q}");
        }
        let kids: Vec<&Case> = c.ops.iter().filter(|a| !a.k.starts_with('@')).collect();
        if kids.is_empty() && c.text.is_empty() {
            *o += "/>";
            return;
        }
        *o += ">";
        if !c.text.is_empty() {
            let t = if matches!(c.k.as_str(), "nationalNumberPattern" | "leadingDigits") { self.spread(&c.text) } else { c.text.clone() };
            *o += &self.escape(&t, None);
        }
        for k in &kids {
            *o += &self.gap(depth + 1);
            self.elem(k, depth + 1, o);
        }
        if !kids.is_empty() {
            *o += &self.gap(depth);
        }
        *o += &format!("</{}>", c.k);
    }
}
fn document(c: &Case) -> String {
    let mut l = Layout { r: rng_of(c.i as u64), wild: c.i != 0 };
    let mut o = String::from(if c.i % 3 == 0 { "" } else { "<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n" });
    o += "<!-- plan -->\n<phoneNumberMetadata>\n<territories>";
    for t in &c.ops {
        o += &l.gap(2);
        l.elem(t, 2, &mut o);
    }
    o += "\n</territories>\n</phoneNumberMetadata>\n";
    o
}

// ---------------------------------------------------------------- what the builder has to say
#[derive(Debug)]
enum Verdict {
    Build,
    Refuse(&'static str),
    /// outside what the documents promise
    Open,
}
use Verdict::*;
const BAD_RE: [&str; 6] = ["(", "[1", "1|2)", "(1|2|)", "(|)", "(?:1|)2"];
fn re(s: &str) -> Verdict {
    if s.contains("|)") || BAD_RE.contains(&s) {
        return Refuse("pattern");
    }
    // flavours differ at the edges: only plain patterns are judged
    let plain = s.chars().all(|c| c.is_ascii_alphanumeric() || "\\()[]{}?:|,-$. ~".contains(c));
    if plain && !s.contains("??") && !s.contains("{,") && regex::Regex::new(s).is_ok() { Build } else { Open }
}
fn lengths(s: &str) -> Result<BTreeSet<i32>, Verdict> {
    let mut o = BTreeSet::new();
    let n = |x: &str| match x {
        "" => Err(Refuse("length")),
        x if x.chars().all(|c| c.is_ascii_digit()) && x.len() <= 4 && !x.starts_with('0') => Ok(x.parse::<i32>().unwrap()),
        x if x.chars().any(|c| !c.is_ascii_digit() && !"+-".contains(c)) => Err(Refuse("length")),
        _ => Err(Open),
    };
    for p in s.split(',') {
        let (a, b) = match p.strip_prefix('[') {
            None => (n(p)?, n(p)?),
            Some(r) => {
                let Some(r) = r.strip_suffix(']') else { return Err(Refuse("range")) };
                let v: Vec<&str> = r.split('-').collect();
                if v.len() != 2 {
                    return Err(Refuse("range"));
                }
                let (a, b) = (n(v[0])?, n(v[1])?);
                if b - a < 2 {
                    return Err(Refuse("range"));
                }
                (a, b)
            }
        };
        for x in a..=b {
            if !o.insert(x) {
                return Err(Refuse("length twice"));
            }
        }
    }
    Ok(o)
}
const SHORT_TAGS: [&str; 8] = ["generalDesc", "standardRate", "shortCode", "carrierSpecific", "emergency", "tollFree", "premiumRate", "smsServices"];
#[derive(PartialEq, Clone, Copy)]
enum Kind {
    Main,
    Short,
    Alternate,
}
fn lens_of(e: &Elem) -> Result<(BTreeSet<i32>, BTreeSet<i32>), Verdict> {
    let (mut n, mut l) = (BTreeSet::new(), BTreeSet::new());
    for p in e.tags("possibleLengths") {
        let a = lengths(p.attr("national").unwrap_or(""))?;
        let b = p.attr("localOnly").map(lengths).transpose()?.unwrap_or_default();
        if !a.is_disjoint(&b) {
            return Err(Refuse("national and local"));
        }
        n.extend(a);
        l.extend(b);
    }
    Ok((n, l))
}
/// lengths the general description derives from
fn general_lens(t: &Elem, kind: Kind) -> Result<(BTreeSet<i32>, BTreeSet<i32>), Verdict> {
    let (mut n, mut l) = (BTreeSet::new(), BTreeSet::new());
    for c in &t.children {
        let Node::Elem(e) = c else { continue };
        let counts = if kind == Kind::Short { e.name == "shortCode" } else { e.name != "noInternationalDialling" };
        if counts {
            let (a, b) = lens_of(e)?;
            n.extend(a);
            l.extend(b);
        }
    }
    Ok((n, l))
}
/// Whether the document has to be built or refused. An out-of-domain feature only leaves the verdict
/// open when nothing else is wrong.
fn judge(t: &Elem, kind: Kind) -> Verdict {
    let mut open = false;
    macro_rules! need {
        ($v:expr) => {
            match $v {
                Build => {}
                Open => open = true,
                Refuse(w) => return Refuse(w),
            }
        };
    }
    macro_rules! ok {
        ($v:expr) => {
            match $v {
                Ok(x) => x,
                Err(Open) => return Open,
                Err(v) => return v,
            }
        };
    }
    if let Some(c) = t.attr("countryCode") {
        if c.is_empty() || c.chars().any(|x| !x.is_ascii_digit() && x != '+' && x != '-') {
            return Refuse("calling code");
        }
        if !c.chars().all(|x| x.is_ascii_digit()) || c.len() > 4 {
            open = true;
        }
    }
    for a in ["leadingDigits", "internationalPrefix", "nationalPrefixForParsing"] {
        if let Some(v) = t.attr(a) {
            need!(re(v));
        }
    }
    if t.attr("nationalPrefixForParsing").is_some() {
        if let Some(v) = t.attr("nationalPrefixTransformRule") {
            need!(re(v));
        }
    }
    let np = t.attr("nationalPrefix").unwrap_or("");
    if !np.chars().all(|c| c.is_ascii_digit()) {
        open = true;
    }
    let cc = |s: &str| re(&s.replacen("$FG", "$1", 1).replacen("$NP", np, 1));
    if let Some(v) = t.attr("carrierCodeFormattingRule") {
        need!(cc(v));
    }
    for f in t.tags("numberFormat") {
        if let Some(v) = f.attr("carrierCodeFormattingRule") {
            need!(cc(v));
        }
        for l in f.tags("leadingDigits") {
            need!(if l.children.is_empty() { Open } else { re(&l.first_text()) });
        }
        need!(re(f.attr("pattern").unwrap_or("")));
        let (n, i) = (f.tags("format"), f.tags("intlFormat"));
        if n.len() != 1 {
            return Refuse("one format");
        }
        if i.len() > 1 {
            return Refuse("one intlFormat");
        }
        for x in n.into_iter().chain(i) {
            if x.children.is_empty() {
                open = true;
            }
        }
    }
    if kind == Kind::Alternate {
        return if open { Open } else { Build };
    }
    let tags: &[&str] = if kind == Kind::Short { &SHORT_TAGS } else { &DESC_TAGS };
    for tag in tags {
        let v = t.tags(tag);
        if v.len() > 1 {
            return Refuse("type twice");
        }
        for e in v {
            for p in e.tags("nationalNumberPattern").into_iter().take(1) {
                need!(if p.children.is_empty() { Open } else { re(&p.first_text()) });
            }
            for p in e.tags("exampleNumber").into_iter().take(1) {
                if p.children.is_empty() {
                    open = true;
                }
            }
            if *tag == "generalDesc" && !e.tags("possibleLengths").is_empty() {
                return Refuse("lengths in generalDesc");
            }
        }
    }
    // every child's lengths have to be well-formed, also where the general description ignores them
    for c in &t.children {
        if let Node::Elem(e) = c {
            if kind == Kind::Main || tags.contains(&e.name.as_str()) {
                ok!(lens_of(e));
            }
        }
    }
    let (gn, gl) = ok!(general_lens(t, kind));
    if kind == Kind::Short && !gl.is_empty() {
        return Refuse("local-only short");
    }
    for tag in &tags[1..] {
        for e in t.tags(tag) {
            let (n, l) = ok!(lens_of(e));
            if !n.is_subset(&gn) && n != gn {
                return Refuse("length not in general");
            }
            if l.iter().any(|x| !n.contains(x) && !gl.contains(x) && !gn.contains(x)) {
                return Refuse("local length not in general");
            }
        }
    }
    if open { Open } else { Build }
}
fn short_descs(t: &Elem) -> Vec<Desc> {
    let (gn, _) = general_lens(t, Kind::Short).unwrap_or_default();
    SHORT_TAGS
        .iter()
        .map(|tag| {
            let mut d = Desc::default();
            let els = t.tags(tag);
            if let Some(e) = els.first() {
                let (n, l) = if *tag == "generalDesc" { (gn.clone(), BTreeSet::new()) } else { lens_of(e).unwrap_or_default() };
                if *tag == "generalDesc" || n != gn {
                    d.lens = n.iter().copied().collect();
                }
                d.local = l.difference(&n).copied().collect();
                d.pattern = e.tags("nationalNumberPattern").first().map(|x| squeeze(&x.first_text()));
                d.example = e.tags("exampleNumber").first().map(|x| x.first_text());
            } else {
                d.lens = if *tag == "generalDesc" { gn.iter().copied().collect() } else { vec![-1] };
            }
            d
        })
        .collect()
}
/// A territory of any of the three kinds.
#[derive(Debug, Clone, PartialEq)]
struct Built {
    terr: Terr,
    short: Vec<Desc>,
}
fn expected(t: &Elem, kind: Kind) -> Built {
    let none = || vec![Desc::default(); NDESC];
    match kind {
        Kind::Main => Built { terr: load_territory(t), short: vec![Desc::default(); 8] },
        _ => {
            // attributes and formats only
            let bare = Elem { children: t.children.iter().filter(|c| matches!(c, Node::Elem(e) if e.name == "availableFormats")).cloned().collect(), ..t.clone() };
            let terr = Terr { descs: none(), same_mobile_fixed: false, ..load_territory(&bare) };
            let short = if kind == Kind::Short { short_descs(t) } else { vec![Desc::default(); 8] };
            Built { terr, short }
        }
    }
}
fn decoded(m: &pm::PhoneMetadata, kind: Kind) -> Built {
    let mut terr = from_proto(m);
    let mut short = vec![Desc::default(); 8];
    if kind == Kind::Short {
        let of = |d: &pm::PhoneNumberDesc| Desc { pattern: d.national_number_pattern.clone(), lens: d.possible_length.clone(), local: d.possible_length_local_only.clone(), example: d.example_number.clone() };
        short = vec![of(&m.general_desc), of(&m.standard_rate), of(&m.short_code), of(&m.carrier_specific), of(&m.emergency), of(&m.toll_free), of(&m.premium_rate), of(&m.sms_services)];
        for i in [GENERAL, TOLLFREE, PREMIUM] {
            terr.descs[i] = Desc::default();
        }
    }
    Built { terr, short }
}
fn drop_examples(b: &mut Built) {
    // the general description is not a number type
    for d in b.terr.descs.iter_mut().skip(1).chain(b.short.iter_mut().skip(1)) {
        d.example = None;
    }
}

// ---------------------------------------------------------------- running it
static COUNT: AtomicU64 = AtomicU64::new(0);
struct Scratch(String);
impl Scratch {
    fn new() -> Scratch {
        let d = format!("{}/rlpn-{}-{}", std::env::temp_dir().display(), std::process::id(), COUNT.fetch_add(1, Ordering::Relaxed));
        std::fs::create_dir_all(&d).unwrap_or_else(|e| harness_error(&format!("{d}: {e}")));
        Scratch(d)
    }
    fn path(&self, n: &str) -> String {
        format!("{}/{n}", self.0)
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        for e in std::fs::read_dir(&self.0).into_iter().flatten().flatten() {
            let _ = std::fs::remove_file(e.path());
        }
        let _ = std::fs::remove_dir(&self.0);
    }
}
/// The constant's name and bytes in a generated source file.
fn read_source(s: &str) -> Option<(String, Vec<u8>)> {
    let mut t = String::new();
    let mut rest = s;
    loop {
        match (rest.find("/*"), rest.find("//")) {
            (Some(i), j) if j.is_none_or(|j| i < j) => {
                t += &rest[..i];
                rest = &rest[i + rest[i..].find("*/")? + 2..];
            }
            (_, Some(j)) => {
                t += &rest[..j];
                rest = &rest[j + rest[j..].find('\n').unwrap_or(rest.len() - j)..];
            }
            _ => break,
        }
    }
    t += rest;
    let t: String = t.split_whitespace().collect::<Vec<_>>().join(" ");
    static RE: OnceLock<regex::Regex> = OnceLock::new();
    let r = RE.get_or_init(|| regex::Regex::new(r"^pub const ([A-Za-z_]+) ?: ?\[ ?u8 ?; ?(\d+) ?\] = \[ ?(.*?)(?: ?,)? ?\] ?;$").unwrap());
    let c = r.captures(&t)?;
    let mut v = vec![];
    if !c[3].is_empty() {
        for x in c[3].split(',') {
            let x = x.trim().strip_prefix("0x").filter(|x| x.len() == 2)?;
            v.push(u8::from_str_radix(x, 16).ok()?);
        }
    }
    (c[2].parse() == Ok(v.len())).then(|| (c[1].to_string(), v))
}
fn file_name(kind: Kind) -> &'static str {
    match kind {
        Kind::Main => "PhoneNumberMetadata.xml",
        Kind::Short => "ShortNumberMetadata.xml",
        Kind::Alternate => "PhoneNumberAlternateFormats.xml",
    }
}
fn kind_of(c: &Case) -> Kind {
    if c.has("short") {
        Kind::Short
    } else if c.has("alternate") {
        Kind::Alternate
    } else {
        Kind::Main
    }
}
fn clip(s: &str) -> String {
    s.chars().take(1500).collect()
}
/// document + command line -> territories, None when refused
fn build(c: &Case, what: &str, xml: &str, kind: Kind) -> Result<Option<Vec<Built>>, Fail> {
    let dir = Scratch::new();
    let (src, dst) = (dir.path(file_name(kind)), dir.path("out.rs"));
    std::fs::write(&src, xml).expect("write");
    let bytes = if what == "special" {
        let r = ask(&["special", &src]);
        match r.split_once(' ') {
            _ if r == "refused" => return Ok(None),
            Some(("ok", h)) => unhex(h),
            None if r == "ok" => vec![],
            _ => return fail("builder-died", format!("{r} on {}", clip(xml))),
        }
    } else {
        const KEPT: &str = "// as it was\n";
        std::fs::write(&dst, KEPT).expect("write");
        let base = match kind {
            Kind::Main => "metadata",
            Kind::Short => "short_numbers",
            Kind::Alternate => "alternate_format",
        };
        let base = match what {
            "lite" => format!("lite_{base}"),
            "test" => format!("test_{base}"),
            _ => base.to_string(),
        };
        let name = if c.s.is_empty() { "METADATA" } else { &c.s };
        let opt = format!("--const-name={name}");
        let mut args = vec!["run", "BuildMetadataRustFromXml", &src, &dst, &base];
        if !c.s.is_empty() {
            args.push(&opt);
        }
        let r = ask(&args);
        let got = std::fs::read_to_string(&dst).unwrap_or_default();
        if r == "refused" {
            same("output-kept", || format!("output file after a refused {}", clip(xml)), &got.as_str(), &KEPT)?;
            return Ok(None);
        }
        if r != "ok" {
            return fail("builder-died", format!("{r} on {}", clip(xml)));
        }
        let Some((n, b)) = read_source(&got) else { return fail("source-file", format!("not a source file of one array: {}", clip(&got))) };
        same("const-name", || "name of the constant".into(), &n.as_str(), &name)?;
        b
    };
    match pm::PhoneMetadataCollection::parse_from_bytes(&bytes) {
        Ok(m) => Ok(Some(m.metadata.iter().map(|m| decoded(m, kind)).collect())),
        Err(e) => fail("undecodable", format!("{e}: {}", clip(xml))),
    }
}
fn c26_doc(c: &Case, st: &mut Stats) -> Res {
    let kind = kind_of(c);
    if !named(c) && !c.ops.is_empty() && !c.ops.iter().all(named) {
        return Ok(());
    }
    let what = ["lite", "special", "test"].into_iter().find(|w| c.has(w)).unwrap_or("full");
    let elems: Vec<Elem> = c.ops.iter().filter(|o| o.k == "territory").map(to_elem).collect();
    if elems.len() != c.ops.len() {
        return Ok(());
    }
    let mut verdict = Build;
    for e in &elems {
        match judge(e, kind) {
            Build => {}
            Refuse(w) => {
                verdict = Refuse(w);
                break;
            }
            Open => {
                st.class("open");
                return Ok(());
            }
        }
    }
    let xml = document(c);
    let got = build(c, what, &xml, kind)?;
    st.hit();
    match (verdict, got) {
        (Refuse(w), None) => {
            st.class(&format!("refused: {w}"));
            Ok(())
        }
        (Refuse(w), Some(_)) => fail("not-refused", format!("{w}: built from {}", clip(&xml))),
        (_, None) => fail("refused", format!("refused {}", clip(&xml))),
        (_, Some(got)) => {
            st.class(&c.k);
            let mut want: Vec<Built> = elems.iter().map(|e| expected(e, kind)).collect();
            for b in &mut want {
                if what == "lite" {
                    drop_examples(b);
                }
                if what == "special" {
                    keep_only(b, &BTreeMap::from([("mobile".to_string(), CHILDREN.iter().map(|s| s.to_string()).collect())]));
                }
            }
            same("territories", || "number of territories".into(), &got.len(), &want.len())?;
            for (g, w) in got.iter().zip(&want) {
                if g != w {
                    let mut d = vec![];
                    for i in 0..NDESC {
                        if g.terr.descs[i] != w.terr.descs[i] {
                            d.push(format!("{}: {:?} for {:?}", DESC_TAGS[i], g.terr.descs[i], w.terr.descs[i]));
                        }
                    }
                    let head = |b: &Built| Terr { descs: vec![], ..b.terr.clone() };
                    if head(g) != head(w) {
                        d.push(format!("{:?} for {:?}", head(g), head(w)));
                    }
                    if g.short != w.short {
                        d.push(format!("{:?} for {:?}", g.short, w.short));
                    }
                    return fail("metadata", format!("{}: {} from {}", w.terr.key(), d.join("; "), clip(&xml)));
                }
            }
            Ok(())
        }
    }
}
/// the tables built from a collection
fn c26_tables(c: &Case, st: &mut Stats) -> Res {
    let elems: Vec<Elem> = c.ops.iter().map(to_elem).collect();
    if elems.iter().any(|e| e.name != "territory" || !matches!(judge(e, Kind::Main), Build)) || !c.ops.iter().all(named) {
        return Ok(());
    }
    let terrs: Vec<Terr> = elems.iter().map(load_territory).collect();
    // one main region per calling code
    let mut mains = BTreeSet::new();
    if terrs.iter().any(|t| t.id.is_empty() || t.main && !mains.insert(t.cc)) {
        return Ok(());
    }
    let mut map: BTreeMap<i32, Vec<&str>> = BTreeMap::new();
    for t in &terrs {
        let v = map.entry(t.cc).or_default();
        if t.main { v.insert(0, &t.id) } else { v.push(&t.id) }
    }
    let dir = Scratch::new();
    let src = dir.path(file_name(Kind::Main));
    std::fs::write(&src, document(c)).expect("write");
    let mut want: Vec<String> = vec!["ok".into()];
    want.extend(map.iter().map(|(k, v)| format!("{k}={}", v.join(","))));
    want.push("/".into());
    want.push(terrs.iter().map(|t| t.id.as_str()).collect::<Vec<_>>().join(","));
    st.hit();
    st.class("tables");
    same("tables", || "regions of the calling codes".into(), &ask(&["tables", &src]).trim_end(), &want.join(" ").trim_end())
}
/// command lines: ops = arguments
fn c26_cli(c: &Case, st: &mut Stats) -> Res {
    let dir = Scratch::new();
    let (src, dst) = (dir.path(file_name(Kind::Main)), dir.path("out.rs"));
    std::fs::write(&src, MINI).expect("write");
    let args: Vec<String> = c.ops.iter().map(|o| o.k.replace("SRC", &src).replace("DST", &dst).replace("NONE", &dir.path("none"))).collect();
    let mut pos: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let mut name = "METADATA".to_string();
    let opt = |a: &str| a.strip_prefix("--const-name").and_then(|r| r.strip_prefix(['=', ' '])).filter(|n| !n.is_empty() && n.chars().all(|c| c.is_ascii_alphabetic() || c == '_')).map(|s| s.to_string());
    if pos.len() == 5 {
        if let Some(i) = pos.iter().position(|a| opt(a).is_some()) {
            name = opt(pos[i]).unwrap();
            pos.remove(i);
        }
    }
    let base = pos.get(3).map(|b| b.strip_prefix("test_").or(b.strip_prefix("lite_")).unwrap_or(b));
    let places = [dst.clone(), dir.path("none"), src.clone()];
    if pos.len() == 4 && !places.iter().any(|p| p == pos[2]) {
        return Ok(()); // would write elsewhere
    }
    let good = args.first().is_some_and(|a| a == "BuildMetadataRustFromXml")
        && pos.len() == 4
        && base.is_some_and(|b| ["metadata", "alternate_format", "short_numbers"].contains(&b))
        && pos[1] == src;
    let mut w = vec!["run"];
    w.extend(args.iter().map(|s| s.as_str()));
    let r = ask(&w);
    st.hit();
    st.class(if good { "command line" } else { "command line refused" });
    same("command-line", || format!("{args:?}"), &r.as_str(), if good { &"ok" } else { &"refused" })?;
    if !good {
        let left = places.iter().filter(|p| std::path::Path::new(p).exists()).count();
        let same_src = std::fs::read_to_string(&src).is_ok_and(|s| s == MINI);
        return same("no-output", || format!("files after {args:?}"), &(left, same_src), &(1, true));
    }
    let got = std::fs::read_to_string(pos[2]).ok();
    let Some((n, b)) = read_source(&got.clone().unwrap_or_default()) else { return fail("source-file", format!("{got:?}")) };
    same("const-name", || format!("{args:?}"), &n, &name)?;
    let m = pm::PhoneMetadataCollection::parse_from_bytes(&b).map(|m| m.metadata.iter().map(|m| (m.id().to_string(), m.fixed_line.example_number.clone())).collect::<Vec<_>>());
    let ex = (!pos[3].starts_with("lite_")).then(|| "2".to_string());
    same("content", || format!("{args:?}"), &m.unwrap_or_default(), &vec![("AA".to_string(), ex)])
}
const MINI: &str = "<phoneNumberMetadata><territories><territory id=\"AA\" countryCode=\"7\"><generalDesc><nationalNumberPattern>\\d</nationalNumberPattern></generalDesc><fixedLine><possibleLengths national=\"1\"/><exampleNumber>2</exampleNumber><nationalNumberPattern>2</nationalNumberPattern></fixedLine></territory></territories></phoneNumberMetadata>";
/// text2 = hex of arbitrary bytes, s = name
fn c26_emit(c: &Case, st: &mut Stats) -> Res {
    if c.text2.len() % 2 != 0 || !c.text2.chars().all(|c| c.is_ascii_hexdigit()) || c.s.is_empty() || !c.s.chars().all(|x| x.is_ascii_alphabetic() || x == '_') {
        return Ok(());
    }
    let r = ask(&["emit", &c.text, &c.s, &c.text2]);
    let Some(src) = r.strip_prefix("ok ").map(unhex) else { return fail("emit", format!("{r} for {} bytes", c.text2.len() / 2)) };
    let src = String::from_utf8_lossy(&src).into_owned();
    st.hit();
    st.class("emitted");
    match read_source(&src) {
        Some((n, b)) => {
            same("const-name", || "name".into(), &n, &c.s)?;
            same("emitted-bytes", || "bytes of the array".into(), &hex(&b), &c.text2.to_lowercase())
        }
        None => fail("source-file", clip(&src)),
    }
}
/// the generated files of the repository are what the builder makes of its XML files
fn c26_shipped(c: &Case, st: &mut Stats) -> Res {
    let dir = Scratch::new();
    let dst = dir.path("out.rs");
    let name = if c.s == "test_metadata" { "TEST_METADATA" } else { "METADATA" };
    let r = ask(&["run", "BuildMetadataRustFromXml", &format!("/repo/resources/{}", c.text), &dst, "metadata", &format!("--const-name={name}")]);
    same("shipped-builds", || c.text.clone(), &r.as_str(), &"ok")?;
    st.hit();
    st.class("shipped");
    let Some((n, b)) = read_source(&std::fs::read_to_string(&dst).unwrap_or_default()) else { return fail("source-file", c.text.clone()) };
    same("const-name", || c.text.clone(), &n.as_str(), &name)?;
    let kind = if c.text.starts_with("Short") { Kind::Short } else if c.text.contains("Alternate") { Kind::Alternate } else { Kind::Main };
    let xml = std::fs::read_to_string(format!("/repo/resources/{}", c.text)).unwrap_or_else(|e| harness_error(&format!("{}: {e}", c.text)));
    let want: Vec<Built> = parse_xml(&xml).tags("territory").into_iter().map(|e| expected(e, kind)).collect();
    let m = pm::PhoneMetadataCollection::parse_from_bytes(&b).map_err(|e| Fail { sig: "undecodable".into(), msg: e.to_string() })?;
    same("territories", || c.text.clone(), &m.metadata.len(), &want.len())?;
    for (g, w) in m.metadata.iter().zip(&want) {
        same("shipped-territory", || format!("{} {}", c.text, w.terr.key()), &decoded(g, kind), w)?;
    }
    if !c.s.is_empty() {
        // the file in the tree holds the same metadata
        let src = std::fs::read_to_string(format!("/repo/src/generated/metadata/{}.rs", c.s)).unwrap_or_default();
        let Some((_, own)) = read_source(&src) else { return fail("committed-file", format!("{}.rs", c.s)) };
        let own = pm::PhoneMetadataCollection::parse_from_bytes(&own).map_err(|e| Fail { sig: "undecodable".into(), msg: e.to_string() })?;
        same("committed-territories", || c.s.clone(), &own.metadata.len(), &m.metadata.len())?;
        for (g, w) in own.metadata.iter().zip(&m.metadata) {
            same("committed-file", || format!("{}.rs {}", c.s, w.id()), &from_proto(g), &from_proto(w))?;
        }
    }
    Ok(())
}
fn c26_check(_: &Env, c: &Case, st: &mut Stats) -> Res {
    match c.k.as_str() {
        "cli" => c26_cli(c, st),
        "emit" => c26_emit(c, st),
        "shipped" => c26_shipped(c, st),
        "tables" => c26_tables(c, st),
        _ => c26_doc(c, st),
    }
}

// ---------------------------------------------------------------- generators
static FILES: OnceLock<Vec<Vec<Case>>> = OnceLock::new();
/// the territories of the four shipped files
fn shipped() -> &'static [Vec<Case>] {
    FILES.get_or_init(|| {
        ["PhoneNumberMetadata.xml", "PhoneNumberMetadataForTesting.xml", "ShortNumberMetadata.xml", "PhoneNumberAlternateFormats.xml"]
            .iter()
            .map(|f| {
                let s = std::fs::read_to_string(format!("/repo/resources/{f}")).unwrap_or_else(|e| harness_error(&format!("{f}: {e}")));
                parse_xml(&s).tags("territory").into_iter().map(from_elem).collect()
            })
            .collect()
    })
}
fn length_text(r: &mut R, set: &BTreeSet<i32>) -> String {
    let v: Vec<i32> = set.iter().copied().collect();
    let mut parts = vec![];
    let mut i = 0;
    while i < v.len() {
        let mut j = i;
        while j + 1 < v.len() && v[j + 1] == v[j] + 1 {
            j += 1;
        }
        if j - i >= 2 && chance(r, 75) {
            let e = i + 2 + below(r, j - i - 1);
            parts.push(format!("[{}-{}]", v[i], v[e]));
            i = e + 1;
        } else {
            parts.push(v[i].to_string());
            i += 1;
        }
    }
    if chance(r, 15) {
        for i in (1..parts.len()).rev() {
            let j = below(r, i + 1);
            parts.swap(i, j);
        }
    }
    parts.join(",")
}
const BAD_LENGTHS: [&str; 25] =
    ["", ",", "7,", ",7", "6,,8", "[6-8", "6-8]", "[6-7]", "[6-6]", "[8-6]", "[6]", "[6,8]", "[6-8-10]", "[6-8-]", "[-8]", "[6-]", "7,7", "[6-8],7", "7,[7-9]", "9,[7-9]", "[5-7],[7-9]", "4d", "7, 8", "[]", "6-8"];
fn some_lengths(r: &mut R) -> BTreeSet<i32> {
    let n = 1 + below(r, 5);
    let base = 2 + below(r, 9) as i32;
    (0..n).map(|_| base + below(r, 7) as i32).collect()
}
const PATTERNS: [&str; 16] =
    ["\\d{7}", "[2-9]\\d{6,8}", "1", "(?:1|2)\\d{3}", "\\d\\d?", "0(?:11|2[34])\\d{4}", "8[0-35-9]\\d{5}|9\\d{7}", "\\d", "[1-9]\\d{2}(?:\\d{2})?", "900\\d{6}", "3(?:[1-4]|9[0-8])\\d", "1|2", "\\d{4,10}", "7\\d{3}|8\\d{4}", "(?:0[1-9]|[1-9])\\d{5}", "112|911"];
fn patt(r: &mut R) -> String {
    if chance(r, 2) {
        return pick(r, &BAD_RE).to_string();
    }
    let a = *pick(r, &PATTERNS);
    if chance(r, 20) { format!("{a}|{}", pick(r, &PATTERNS)) } else { a.to_string() }
}
fn rule(r: &mut R, carrier: bool) -> String {
    pick(r, if carrier { &["$NP $CC ($FG)", "$NP$CC $FG", "$CC $FG", "$FG $CC", "$NP $CC $FG", "($NP$CC) $FG", "$NP $CC $FG $NP $FG"] } else { &["$NP$FG", "($NP$FG)", "$NP $FG", "$FG", "($FG)", "$NP ($FG)", "$NP$FG $NP$FG"] }).to_string()
}
fn desc_el(r: &mut R, tag: &str, lens: Option<(&BTreeSet<i32>, &BTreeSet<i32>)>) -> Case {
    let mut e = el(tag);
    let mut parts = vec![];
    if let Some((n, l)) = lens {
        let mut p = at(el("possibleLengths"), "national", length_text(r, n));
        if !l.is_empty() {
            p = at(p, "localOnly", length_text(r, l));
        }
        parts.push(p);
    }
    if chance(r, 80) {
        let n = 3 + below(r, 7);
        parts.push(el("exampleNumber").text(digits(r, n)));
    }
    if chance(r, 92) {
        parts.push(el("nationalNumberPattern").text(patt(r)));
    }
    if chance(r, 10) {
        parts.reverse();
    }
    e.ops = parts;
    e
}
fn made_up(r: &mut R, kind: Kind) -> Case {
    let mut t = el("territory");
    if kind != Kind::Alternate {
        t = at(t, "id", *pick(r, &["AA", "BB", "CC", "DD", "001", "ZZ"]));
    }
    if chance(r, 96) {
        t = at(t, "countryCode", pick(r, &[1, 7, 44, 39, 292, 800, 979, 55]).to_string());
    }
    let np = if chance(r, 65) { pick(r, &["0", "1", "8", "06", "15"]).to_string() } else { String::new() };
    if !np.is_empty() || chance(r, 5) {
        t = at(t, "nationalPrefix", np);
    }
    if chance(r, 35) {
        t = at(t, "nationalPrefixForParsing", patt(r));
        if chance(r, 50) {
            t = at(t, "nationalPrefixTransformRule", *pick(r, &["$1", "9$1", "1$1", "0$1$2"]));
        }
    } else if chance(r, 5) {
        t = at(t, "nationalPrefixTransformRule", "9$1");
    }
    for (a, p, v) in [
        ("internationalPrefix", 80, &["00", "0011", "00[1-9]", "0(?:0|11)", "011", "8~10"][..]),
        ("preferredInternationalPrefix", 20, &["00", "0011", "8~10"]),
        ("leadingDigits", 15, &["1[23]", "900", "[4-7]", "33|44"]),
        ("preferredExtnPrefix", 10, &[" ext. ", "#", " doklub. ", ";"]),
        ("mainCountryForCode", 20, &["true"]),
        ("mobileNumberPortableRegion", 30, &["true"]),
        ("nationalPrefixOptionalWhenFormatting", 25, &["true"]),
    ] {
        if chance(r, p) {
            t = at(t, a, *pick(r, v));
        }
    }
    if chance(r, 35) {
        t = at(t, "nationalPrefixFormattingRule", rule(r, false));
    }
    if chance(r, 20) {
        t = at(t, "carrierCodeFormattingRule", rule(r, true));
    }
    if chance(r, 80) {
        let mut a = el("availableFormats");
        for _ in 0..1 + below(r, 4) {
            let mut f = at(el("numberFormat"), "pattern", *pick(r, &["(\\d{3})(\\d{4})", "(\\d)(\\d{3})(\\d+)", "(\\d{2,3})(\\d{4})", "(\\d{5})", "(1[23])(\\d{4})"]));
            if chance(r, 35) {
                f = at(f, "nationalPrefixFormattingRule", if chance(r, 8) { String::new() } else { rule(r, false) });
            }
            if chance(r, 20) {
                f = at(f, "nationalPrefixOptionalWhenFormatting", *pick(r, &["true", "true", "TRUE", "false"]));
            }
            if chance(r, 20) {
                f = at(f, "carrierCodeFormattingRule", rule(r, true));
            }
            for _ in 0..weighted(r, &[30, 40, 20, 10]) {
                f.ops.push(el("leadingDigits").text(patt(r)));
            }
            let n = if chance(r, 2) { below(r, 3) } else { 1 };
            for _ in 0..n {
                f.ops.push(el("format").text(*pick(r, &["$1 $2", "$1-$2", "$1", "($1) $2", " $1", "$2 15-$1 "])));
            }
            let n = if chance(r, 2) { 2 } else { weighted(r, &[60, 40]) };
            for _ in 0..n {
                f.ops.push(el("intlFormat").text(*pick(r, &["NA", "NA", "$1 $2", "$1", "NA ", "na"])));
            }
            a.ops.push(f);
        }
        t.ops.push(a);
    }
    if kind == Kind::Alternate {
        if chance(r, 20) {
            t.ops.push(desc_el(r, "fixedLine", None));
        }
        return t;
    }
    let none = BTreeSet::new();
    if chance(r, 92) {
        let lens = some_lengths(r);
        let with = chance(r, 1);
        t.ops.push(desc_el(r, "generalDesc", with.then_some((&lens, &none))));
    }
    let tags: &[&str] = if kind == Kind::Short { &SHORT_TAGS[1..] } else { &DESC_TAGS[1..] };
    let all = some_lengths(r);
    let local = if kind == Kind::Main && chance(r, 50) { some_lengths(r) } else { none.clone() };
    let share = 20 + 10 * below(r, 8) as u32;
    for tag in tags {
        if !(chance(r, share) || *tag == "shortCode" && chance(r, 85)) {
            continue;
        }
        let mut n: BTreeSet<i32> = if chance(r, 50) { all.clone() } else { all.iter().copied().filter(|_| chance(r, 60)).collect() };
        let mut l: BTreeSet<i32> = if chance(r, 60) { local.iter().copied().filter(|x| !n.contains(x) && chance(r, 70)).collect() } else { none.clone() };
        if chance(r, 4) {
            n.insert(16);
        }
        if chance(r, 3) {
            l.insert(17);
        }
        if n.is_empty() {
            n = all.clone();
            l = l.difference(&n).copied().collect();
        }
        if chance(r, 2) {
            l.extend(n.iter().take(1));
        }
        let with = chance(r, 94);
        let mut d = desc_el(r, tag, with.then_some((&n, &l)));
        if chance(r, 2) {
            if let Some(p) = d.ops.iter_mut().find(|p| p.k == "possibleLengths") {
                let i = below(r, p.ops.len());
                p.ops[i].text = pick(r, &BAD_LENGTHS).to_string();
            }
        }
        t.ops.push(d.clone());
        if chance(r, 1) {
            t.ops.push(d);
        }
    }
    if chance(r, 10) {
        let k = below(r, t.ops.len());
        let x = t.ops.remove(k);
        t.ops.push(x);
    }
    t
}
fn nodes(c: &Case) -> usize {
    1 + c.ops.iter().map(nodes).sum::<usize>()
}
/// the parent of the n-th node below c, and its place there
fn nth(c: &mut Case, mut n: usize) -> Option<(&mut Case, usize)> {
    for i in 0..c.ops.len() {
        if n == 0 {
            return Some((c, i));
        }
        let k = nodes(&c.ops[i]);
        if n < k {
            return nth(&mut c.ops[i], n - 1);
        }
        n -= k;
    }
    None
}
fn mutate(r: &mut R, t: &mut Case) {
    let n = nodes(t) - 1;
    let at = below(r, n.max(1));
    let Some((p, i)) = nth(t, at) else { return };
    match weighted(r, &[30, 15, 20, 15, 20]) {
        0 => {
            p.ops.remove(i);
        }
        1 => {
            let x = p.ops[i].clone();
            p.ops.push(x);
        }
        2 => {
            let j = below(r, p.ops.len());
            p.ops.swap(i, j);
        }
        3 => {
            let x = &mut p.ops[i];
            if matches!(x.k.as_str(), "@national" | "@localOnly") {
                x.text = if chance(r, 40) { pick(r, &BAD_LENGTHS).to_string() } else { let s = some_lengths(r); length_text(r, &s) };
            } else if matches!(x.k.as_str(), "nationalNumberPattern" | "leadingDigits" | "@nationalPrefixForParsing") {
                x.text = patt(r);
            } else if x.k == "@countryCode" {
                x.text = pick(r, &["", "4x", "12", " 7", "999"]).to_string();
            }
        }
        _ => {
            // exchange a description for another type's
            let main = &DESC_TAGS[1..];
            if main.contains(&p.ops[i].k.as_str()) {
                p.ops[i].k = pick(r, main).to_string();
            }
        }
    }
}
fn doc_gen(r: &mut R) -> Case {
    let (k, kind) = [("full", Kind::Main), ("lite", Kind::Main), ("test", Kind::Main), ("special", Kind::Main), ("short", Kind::Short), ("short|lite", Kind::Short), ("alternate", Kind::Alternate)][weighted(r, &[50, 8, 3, 6, 18, 3, 12])];
    let mut c = Case::new(k);
    for _ in 0..1 + weighted(r, &[55, 25, 15, 5]) {
        let mut t = if chance(r, 60) {
            made_up(r, kind)
        } else {
            let f = match kind {
                Kind::Main => below(r, 2),
                Kind::Short => 2,
                Kind::Alternate => 3,
            };
            pick(r, &shipped()[f]).clone()
        };
        for _ in 0..weighted(r, &[60, 25, 15]) {
            mutate(r, &mut t);
        }
        c.ops.push(t);
    }
    c.i = below(r, 1 << 30) as i64;
    if chance(r, 40) {
        c.s = pick(r, &["METADATA", "TEST_METADATA", "x", "_a_B"]).to_string();
    }
    c
}
fn c26_gen(_: &Env, r: &mut R) -> Case {
    match weighted(r, &[88, 4, 4, 4]) {
        0 => doc_gen(r),
        1 => {
            let n = [0, 1, 12, 13, 14, 26, 27, 40, 100][below(r, 9)] + below(r, 3);
            let b: Vec<u8> = (0..n).map(|_| if chance(r, 20) { *pick(r, &[0, 0x7f, 0x80, 0xff]) } else { below(r, 256) as u8 }).collect();
            Case::new("emit").text(*pick(r, &["metadata", "short_numbers", "alternate_format"])).s(*pick(r, &["METADATA", "x", "A_b"])).text2(hex(&b))
        }
        2 => {
            let mut a: Vec<String> = ["BuildMetadataRustFromXml", "SRC", "DST", "metadata"].iter().map(|s| s.to_string()).collect();
            if chance(r, 60) {
                a[3] = pick(r, &["lite_metadata", "test_metadata", "short_numbers", "alternate_format", "test_short_numbers", "lite_alternate_format", "Metadata", "metadata2", "full_metadata", "", "lite_", "lite-metadata"]).to_string();
            }
            if chance(r, 60) {
                let o = pick(r, &["--const-name=X", "--const-name Y_z", "--const-name=", "--const-name=A1", "--constname=X", "--const-name", "X"]).to_string();
                let i = 1 + below(r, a.len());
                a.insert(i, o);
            }
            if chance(r, 20) {
                let i = below(r, a.len());
                match below(r, 3) {
                    0 => {
                        a.remove(i);
                    }
                    1 => a[i] = "NONE".into(),
                    _ => a.insert(i, pick(r, &["SRC", "", "metadata", "x"]).to_string()),
                }
            }
            let mut c = Case::new("cli");
            c.ops = a.iter().map(|s| Case::new(s)).collect();
            c
        }
        _ => {
            let mut c = Case { k: "tables".into(), s: String::new(), ..doc_gen(r) };
            for _ in 0..below(r, 6) {
                let mut t = el("territory");
                t = at(t, "id", *pick(r, &["EE", "FF", "GG", "HH", "001"]));
                t = at(t, "countryCode", pick(r, &[1, 7, 44, 292]).to_string());
                if chance(r, 30) {
                    t = at(t, "mainCountryForCode", "true");
                }
                c.ops.push(t);
            }
            c
        }
    }
}
fn c26_sys(_: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![];
    for (f, s) in [("PhoneNumberMetadata.xml", "metadata"), ("PhoneNumberMetadataForTesting.xml", "test_metadata"), ("ShortNumberMetadata.xml", ""), ("PhoneNumberAlternateFormats.xml", "")] {
        v.push(Case::new("shipped").text(f).s(s));
    }
    // every shipped territory on its own, in every variant
    for (i, f) in shipped().iter().enumerate() {
        for t in f {
            for k in [&["full", "lite", "special"][..], &["full"], &["short", "short|lite"], &["alternate"]][i] {
                v.push(Case { ops: vec![t.clone()], ..Case::new(k).i(7) });
            }
        }
        v.push(Case { ops: f.clone(), ..Case::new(["tables", "tables", "short", "alternate"][i]) });
    }
    // every malformed length text in every place
    let (all, none) = ((4..=9).collect::<BTreeSet<i32>>(), BTreeSet::new());
    let mut r = rng_of(1);
    for tag in &DESC_TAGS {
        for a in ["@national", "@localOnly"] {
            for b in BAD_LENGTHS.iter().chain(&["12", "8", "[4-9]"]) {
                let mut t = at(at(el("territory"), "id", "AA"), "countryCode", "7");
                t.ops.push(el("generalDesc"));
                t.ops.push(desc_el(&mut r, "fixedLine", Some((&all, &none))));
                if *tag == "generalDesc" || *tag == "fixedLine" {
                    t.ops.retain(|o| o.k != *tag);
                }
                let mut p = at(el("possibleLengths"), "national", "5");
                p.ops.retain(|o| o.k != a);
                p.ops.push(Case::new(a).text(*b));
                let mut d = el(tag);
                d.ops.push(p);
                t.ops.push(d);
                v.push(Case { ops: vec![t], ..Case::new("full") });
            }
        }
    }
    v
}

// ---------------------------------------------------------------- C27
const PARENTS: [&str; 16] =
    ["fixedLine", "mobile", "tollFree", "premiumRate", "sharedCost", "personalNumber", "voip", "pager", "uan", "emergency", "voicemail", "shortCode", "standardRate", "carrierSpecific", "smsServices", "noInternationalDialling"];
const CHILDREN: [&str; 4] = ["nationalNumberPattern", "possibleLength", "possibleLengthLocalOnly", "exampleNumber"];
const CHILDLESS: [&str; 7] =
    ["preferredInternationalPrefix", "nationalPrefix", "preferredExtnPrefix", "nationalPrefixTransformRule", "sameMobileAndFixedLinePattern", "mainCountryForCode", "mobileNumberPortableRegion"];
type Fields = BTreeMap<String, BTreeSet<String>>;
/// a(b,c):d(e):f
fn read_fields(s: &str) -> Option<Fields> {
    let s = squeeze(s);
    if s.is_empty() {
        return None;
    }
    let all: BTreeSet<String> = CHILDREN.iter().map(|s| s.to_string()).collect();
    let mut m = Fields::new();
    let mut wild = BTreeSet::new();
    for g in s.split(':') {
        let (name, set) = if let Some((p, rest)) = g.split_once('(') {
            let rest = rest.strip_suffix(')')?;
            let mut set = BTreeSet::new();
            for c in rest.split(',') {
                if !CHILDREN.contains(&c) || !set.insert(c.to_string()) {
                    return None;
                }
            }
            (PARENTS.contains(&p).then_some(p)?, set)
        } else if PARENTS.contains(&g) {
            (g, all.clone())
        } else if CHILDLESS.contains(&g) {
            (g, BTreeSet::new())
        } else if CHILDREN.contains(&g) {
            if !wild.insert(g.to_string()) {
                return None;
            }
            continue;
        } else {
            return None;
        };
        if m.insert(name.to_string(), set).is_some() {
            return None;
        }
    }
    // named on its own and within an incomplete group: a duplicate
    if m.values().any(|e| *e != all && !e.is_disjoint(&wild)) {
        return None;
    }
    for p in PARENTS {
        if !wild.is_empty() {
            m.entry(p.to_string()).or_default().extend(wild.iter().cloned());
        }
    }
    Some(m)
}
fn complement(m: &Fields) -> Fields {
    let all: BTreeSet<String> = CHILDREN.iter().map(|s| s.to_string()).collect();
    let mut o = Fields::new();
    for p in PARENTS {
        let rest: BTreeSet<String> = m.get(p).map_or(all.clone(), |e| all.difference(e).cloned().collect());
        if !rest.is_empty() {
            o.insert(p.into(), rest);
        }
    }
    for c in CHILDLESS {
        if !m.contains_key(c) {
            o.insert(c.into(), BTreeSet::new());
        }
    }
    o
}
fn show(m: &Fields) -> String {
    let v: Vec<String> = m.iter().map(|(k, v)| format!("{k}=[{}]", v.iter().cloned().collect::<Vec<_>>().join(", "))).collect();
    format!("{{{}}}", v.join(", "))
}
fn drop_fields(b: &mut Built, m: &Fields) {
    let one = |d: &mut Desc, f: &BTreeSet<String>| {
        for x in f {
            match x.as_str() {
                "nationalNumberPattern" => d.pattern = None,
                "possibleLength" => d.lens.clear(),
                "possibleLengthLocalOnly" => d.local.clear(),
                _ => d.example = None,
            }
        }
    };
    for (k, f) in m {
        if let Some(i) = DESC_TAGS.iter().position(|t| t == k) {
            one(&mut b.terr.descs[i], f);
        }
        if let Some(i) = SHORT_TAGS.iter().position(|t| t == k) {
            one(&mut b.short[i], f);
        }
        let t = &mut b.terr;
        match k.as_str() {
            "preferredInternationalPrefix" => t.pref_intl = None,
            "nationalPrefix" => t.nat_prefix = None,
            "preferredExtnPrefix" => t.pref_extn = None,
            "nationalPrefixTransformRule" => t.np_transform = None,
            "sameMobileAndFixedLinePattern" => t.same_mobile_fixed = false,
            "mainCountryForCode" => t.main = false,
            "mobileNumberPortableRegion" => t.portable = false,
            _ => {}
        }
    }
}
fn keep_only(b: &mut Built, m: &Fields) {
    drop_fields(b, &complement(m));
}
fn c27_check(_: &Env, c: &Case, st: &mut Stats) -> Res {
    let want = read_fields(&c.text);
    st.hit();
    if c.k == "fields" || want.is_none() {
        st.class(if want.is_some() { "field list" } else { "refused field list" });
        let r = ask(&["fields", &c.text]);
        if r == "absent" {
            return Ok(());
        }
        let w = want.as_ref().map_or("refused".to_string(), |m| format!("ok {}", show(m)));
        same("field-list", || format!("{:?}", c.text), &r, &w)?;
        if let Some(m) = want {
            let r = ask(&["complement", &c.text]);
            if r != "absent" {
                same("complement", || format!("all but {:?}", c.text), &r, &format!("ok {}", show(&complement(&m))))?;
            }
        }
        return Ok(());
    }
    let m = want.unwrap();
    let kind = kind_of(c);
    let elems: Vec<Elem> = c.ops.iter().map(to_elem).collect();
    if elems.iter().any(|e| e.name != "territory" || !matches!(judge(e, kind), Build)) || !c.ops.iter().all(named) {
        return Ok(());
    }
    let dir = Scratch::new();
    let src = dir.path(file_name(kind));
    std::fs::write(&src, document(c)).expect("write");
    let keep = c.has("keep");
    let r = ask(&["filter", if keep { "keep" } else { "drop" }, &c.text, &src]);
    if r == "absent" {
        return Ok(());
    }
    st.class(if keep { "kept fields" } else { "dropped fields" });
    let bytes = match r.split_once(' ') {
        Some(("ok", h)) => unhex(h),
        None if r == "ok" => vec![],
        _ => return fail("filter", format!("{r} for {:?}", c.text)),
    };
    let got = pm::PhoneMetadataCollection::parse_from_bytes(&bytes).map_err(|e| Fail { sig: "undecodable".into(), msg: e.to_string() })?;
    for (g, e) in got.metadata.iter().zip(&elems) {
        let mut w = expected(e, kind);
        if keep { keep_only(&mut w, &m) } else { drop_fields(&mut w, &m) }
        same("filtered", || format!("{:?} of {}", c.text, w.terr.key()), &decoded(g, kind), &w)?;
    }
    same("territories", || c.text.clone(), &got.metadata.len(), &elems.len())
}
fn field_text(r: &mut R) -> String {
    let mut g: Vec<String> = vec![];
    let clean = chance(r, 55);
    let n = if chance(r, 10) { 16 } else { 1 + below(r, 4) };
    for _ in 0..n {
        let x = match weighted(r, &[35, 25, 20, 20]) {
            0 => pick(r, &PARENTS).to_string(),
            1 => pick(r, &CHILDLESS).to_string(),
            2 => {
                let mut k: Vec<&str> = vec![];
                for _ in 0..1 + below(r, 4) {
                    let x = *pick(r, &CHILDREN);
                    if !clean && chance(r, 20) || !k.contains(&x) {
                        k.push(x);
                    }
                }
                format!("{}({})", pick(r, &PARENTS), k.join(","))
            }
            _ => pick(r, &CHILDREN).to_string(),
        };
        let stem = |s: &str| s.split('(').next().unwrap_or("").to_string();
        if !clean || !g.iter().any(|y| stem(y) == stem(&x)) {
            g.push(x);
        }
    }
    let mut s = g.join(":");
    if !clean && chance(r, 40) {
        let i = below(r, s.len() + 1);
        match below(r, 3) {
            0 => s.insert_str(i, pick(r, &["(", ")", ":", ",", "x", "()", "generalDesc", ":mobile"])),
            1 if i < s.len() => {
                s.remove(i);
            }
            _ => {}
        }
    }
    if chance(r, 30) {
        for _ in 0..3 {
            let i = below(r, s.len() + 1);
            s.insert_str(i, pick(r, &[" ", "\n", "\t"]));
        }
    }
    s
}
fn c27_gen(_: &Env, r: &mut R) -> Case {
    let t = field_text(r);
    if chance(r, 40) {
        return Case::new("fields").text(t);
    }
    let (k, kind) = [("drop", Kind::Main), ("keep", Kind::Main), ("drop|short", Kind::Short), ("keep|short", Kind::Short)][weighted(r, &[35, 35, 15, 15])];
    let d = loop {
        let mut d = doc_gen(r);
        if kind_of(&d) == kind {
            d.ops.truncate(2);
            break d;
        }
    };
    Case { k: k.into(), text: t, s: String::new(), ..d }
}
fn c27_sys(_: &Env, _: bool) -> Vec<Case> {
    let mut v = vec![];
    let names: Vec<&str> = PARENTS.iter().chain(&CHILDREN).chain(&CHILDLESS).copied().collect();
    let mut lists: Vec<String> = names.iter().map(|s| s.to_string()).collect();
    for a in &names {
        for b in &names {
            lists.push(format!("{a}:{b}"));
            lists.push(format!("{a}({b})"));
            lists.push(format!("{a}({b},exampleNumber):possibleLength"));
        }
    }
    lists.extend(["", " ", ":", "mobile:", "()", "(exampleNumber)", "mobile()", "mobile(exampleNumber", "mobileexampleNumber)", "mobile)exampleNumber("].iter().map(|s| s.to_string()));
    for l in &lists {
        v.push(Case::new("fields").text(l.clone()));
    }
    for (f, ks) in [(1, ["drop", "keep"]), (2, ["drop|short", "keep|short"])] {
        for (i, l) in lists.iter().enumerate() {
            if read_fields(l).is_some() && (i < 40 || i % 7 == 0) {
                for k in ks {
                    let t = &shipped()[f][i % shipped()[f].len()];
                    v.push(Case { ops: vec![t.clone()], ..Case::new(k).text(l.clone()) });
                }
            }
        }
    }
    v
}
pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C26",
            rule: "every shipped XML file whole and every territory of it alone in each variant, every malformed length text in every element, then generated documents (made-up and mutated shipped territories, in varying layout), command lines and byte arrays; non-trivial: the builder had to decide (documents outside what is specified are skipped)",
            assumptions: &["patterns whose syntax differs between regex flavours are not judged", "protobuf-java is not here: java/Phonemetadata.java stands in for the generated message classes"],
            quick: 60_000,
            thorough: 700_000,
            systematic: c26_sys,
            exhaustive: false,
            generate: Some(c26_gen),
            check: c26_check,
            threads: 8,
        },
        Prop {
            id: "C27",
            rule: "all single and paired field names, then generated field lists, kept or dropped from generated metadata; all non-trivial",
            assumptions: &["protobuf-java is not here: java/Phonemetadata.java stands in for the generated message classes"],
            quick: 60_000,
            thorough: 1_500_000,
            systematic: c27_sys,
            exhaustive: false,
            generate: Some(c27_gen),
            check: c27_check,
            threads: 8,
        },
    ]
}
