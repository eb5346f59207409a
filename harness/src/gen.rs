//! The shared generator: abstract OCA programs (valid by construction), and their rendering as OCAfile text.
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::sync::OnceLock;

pub type KV = Vec<(String, String)>;

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Ty { Text, Numeric, Boolean, Binary, DateTime, Arr(Box<Ty>), Ref(String), Name(String) }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Codes { Ref(String), List(Vec<String>), Groups(Vec<(String, Vec<String>)>) }
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Ents { Ref(String), Map(KV) }
/// Per-attribute string overlays.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum SO { Enc, Format, Conf, Cond, Card, Unit }
/// Per-attribute, per-language string overlays.
#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum LO { Label, Info }
/// One framing of an attribute: (term, predicate_id, framing_justification)
pub type Frame = (String, String, String);
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Serialize, Deserialize)]
pub enum Ins {
    Attrs(Vec<(String, Ty)>),
    Class(String),
    Meta(String, KV),
    Lang(LO, String, KV),
    Str(SO, KV),
    EntryCode(Vec<(String, Codes)>),
    Entry(String, Vec<(String, Ents)>),
    Link(Ty, KV),
    Framing(KV, Vec<(String, Vec<Frame>)>),
    RmAttrs(Vec<String>),
    RmClass,
    From(String),
    Flagged(Vec<String>),
    /// CHARACTER_ENCODING PROPS (parsed and printed; nothing is built from it)
    EncProps(KV),
    /// REMOVE META and REMOVE LABEL (parsed and printed; building them is an error)
    RmMeta(String, Vec<String>),
    RmLabel(String, Vec<String>),
}
impl Ins {
    pub fn tag(&self) -> &'static str {
        match self {
            Ins::Attrs(_) => "attrs", Ins::Class(_) => "class", Ins::Meta(..) => "meta",
            Ins::Lang(LO::Label, ..) => "label", Ins::Lang(LO::Info, ..) => "info",
            Ins::Str(SO::Enc, _) => "enc", Ins::Str(SO::Format, _) => "format", Ins::Str(SO::Conf, _) => "conf",
            Ins::Str(SO::Cond, _) => "cond", Ins::Str(SO::Card, _) => "card", Ins::Str(SO::Unit, _) => "unit",
            Ins::EntryCode(_) => "entrycode", Ins::Entry(..) => "entry", Ins::Link(..) => "link", Ins::Framing(..) => "framing",
            Ins::RmAttrs(_) => "rmattrs", Ins::RmClass => "rmclass", Ins::From(_) => "from", Ins::Flagged(_) => "flagged", Ins::EncProps(_) => "encprops", Ins::RmMeta(..) => "rmmeta", Ins::RmLabel(..) => "rmlabel",
        }
    }
}

/// Self-addressing identifiers of nothing in particular, for references to bundles that are not in the store.
pub fn said_of(s: &str) -> String {
    use said::derivation::{HashFunction, HashFunctionCode};
    HashFunction::from(HashFunctionCode::Blake3_256).derive(s.as_bytes()).to_string()
}
pub fn said_pool() -> &'static Vec<String> {
    static P: OnceLock<Vec<String>> = OnceLock::new();
    P.get_or_init(|| (0..5).map(|i| said_of(&format!("pool {i}"))).collect())
}
pub const LANGS: [&str; 6] = ["en", "fr", "pl", "de", "ja", "pt"];
/// Every language with a code of two letters.
pub fn all_langs() -> &'static Vec<String> {
    static P: OnceLock<Vec<String>> = OnceLock::new();
    P.get_or_init(|| ('a'..='z').flat_map(|a| ('a'..='z').map(move |b| format!("{a}{b}"))).filter(|l| isolang::Language::from_639_1(l).is_some()).collect())
}
/// A few languages, so that they meet, and then all of them.
fn lang_at(l: usize) -> String { LANGS.get(l).map(|l| l.to_string()).unwrap_or_else(|| all_langs()[l % all_langs().len()].clone()) }
fn a_lang(small: bool) -> BoxedStrategy<usize> { if small { (0usize..2).boxed() } else { prop_oneof![9 => 0..LANGS.len(), 1 => LANGS.len()..LANGS.len() + all_langs().len()].boxed() } }
pub const ENCODINGS: [&str; 6] = ["base64", "utf-8", "iso-8859-1", "utf-16", "utf-16be", "utf-16le"];

/// Which strings a campaign may use as quoted values.
#[derive(Clone, Copy, Debug)]
pub struct Cfg {
    /// allow the double quote character (needs single quoting)
    pub dq: bool,
    /// allow backslash escapes
    pub esc: bool,
    /// allow line breaks inside quoted values
    pub nl: bool,
    pub links: bool,
    pub framings: bool,
    pub refs: bool,
    pub remove: bool,
    pub class: bool,
    /// conditions of arbitrary text (off where a validator evaluates them)
    pub conds: bool,
    /// few names, values and languages, so that the same content is declared again and again
    pub small: bool,
    pub max_ops: usize,
}
pub const FULL: Cfg = Cfg { dq: true, esc: true, nl: true, links: true, framings: true, refs: true, remove: true, class: true, conds: true, small: false, max_ops: 14 };

fn chars(cfg: Cfg) -> BoxedStrategy<char> {
    let mut opts: Vec<(u32, BoxedStrategy<char>)> = vec![
        (12, proptest::char::range('a', 'z').boxed()),
        (3, proptest::char::range('A', 'Z').boxed()),
        (3, proptest::char::range('0', '9').boxed()),
        (6, Just(' ').boxed()),
        (8, proptest::sample::select("#-=[]{}(),:;$%&*!?<>|/~^@+._`\t".chars().collect::<Vec<_>>()).boxed()),
        (3, proptest::sample::select("éłßøñ日本語Ω𝄞🙂\u{a0}\u{301}".chars().collect::<Vec<_>>()).boxed()),
        (2, Just('\'').boxed()),
    ];
    if cfg.dq { opts.push((1, Just('"').boxed())); }
    if cfg.nl { opts.push((1, Just('\n').boxed())); }
    proptest::strategy::Union::new_weighted(opts).boxed()
}

/// The text between the quotes of a quoted value, as written (escapes are kept as written by the language).
pub fn text(cfg: Cfg) -> BoxedStrategy<String> {
    if cfg.small { return proptest::sample::select(vec!["x", "y", "Some name"]).prop_map(String::from).boxed() }
    let word = "[A-Za-z0-9]{1,8}".boxed();
    let tricky = proptest::sample::select(vec![
        "ADD", "REMOVE ATTRIBUTE a", "ATTRS", "PROPS", "# not a comment", "-- name=x", "[1]", "{}", "a=b", "${a}", "lang", "", " ", "  two  ",
        "null", "true", "1", "1.5", "Text", "Array[Text]", "utf-8", "[\\]", "é", "a,b", "it's", "said", "en", "--", "$1", "${0}",
    ]).prop_map(|s| s.replace("[\\]", "[]")).boxed();
    // texts that meet each other and the names of attributes
    let same = proptest::sample::select(vec!["a", "b", "name", "Name", "x", "x ", "X", "Some name"]).prop_map(String::from).boxed();
    // anything printable
    let wide = vec(prop_oneof![1 => any::<char>(), 1 => proptest::sample::select("İıẞßŉǅﬁﷺÅÅσςΣ\u{200d}\u{202e}\u{feff}\u{85}\u{2028}\u{ad}가각\u{1100}\u{1161}".chars().collect::<Vec<_>>())].prop_filter("control characters", |c| !c.is_ascii_control() && *c != '\\' && *c != '"'), 1..6).prop_map(|v| v.into_iter().collect::<String>()).boxed();
    let free = vec(chars(cfg), 0..12).prop_map(|v| v.into_iter().collect::<String>()).boxed();
    let mut opts = vec![(5, word), (2, tricky), (2, same), (1, wide), (5, free.clone())];
    if cfg.esc {
        let esc = proptest::sample::select(vec!["\\n", "\\t", "\\\\", "\\u00e9", "\\\"", "\\'", "\\q", "\\U0001F600", "\\u12"]);
        opts.push((2, (free.clone(), esc, free).prop_map(|(a, e, b)| format!("{a}{e}{b}")).boxed()));
    }
    proptest::strategy::Union::new_weighted(opts).prop_map(quotable).boxed()
}
/// Makes the raw text writable inside at least one kind of quotes, and keeps out the forms listed as known findings.
fn quotable(s: String) -> String {
    let mut s = s.replace('\u{1f}', "").replace('\0', "");
    if unescaped(&s, '"') && unescaped(&s, '\'') { s = s.replace('\'', "_"); if unescaped(&s, '"') && unescaped(&s, '\'') { s = s.replace('"', "_"); } }
    if trailing_backslash(&s) { s.push('.'); }
    let l = s.to_lowercase();
    if l.starts_with("refs:") || l.starts_with("refn:") { s = format!("_{s}"); }
    s
}
pub fn trailing_backslash(s: &str) -> bool { s.chars().rev().take_while(|c| *c == '\\').count() % 2 == 1 }
pub fn unescaped(s: &str, q: char) -> bool {
    let mut it = s.chars();
    while let Some(c) = it.next() { if c == '\\' { it.next(); } else if c == q { return true; } }
    false
}
pub fn plain(s: &str) -> bool { !s.is_empty() && s.chars().all(|c| c.is_ascii_alphanumeric() || "._-/:".contains(c)) }

pub fn base_ty() -> BoxedStrategy<Ty> { proptest::sample::select(vec![Ty::Text, Ty::Numeric, Ty::Boolean, Ty::Binary, Ty::DateTime]).boxed() }
pub fn ty(refs: bool) -> BoxedStrategy<Ty> {
    let leaf = if refs { prop_oneof![6 => base_ty(), 1 => proptest::sample::select(said_pool().clone()).prop_map(Ty::Ref)].boxed() } else { base_ty() };
    prop_oneof![8 => leaf.clone(), 2 => leaf.clone().prop_map(|t| Ty::Arr(Box::new(t))), 1 => (leaf, 2u8..5).prop_map(|(t, n)| (0..n).fold(t, |t, _| Ty::Arr(Box::new(t))))].boxed()
}
fn names(cfg: Cfg) -> BoxedStrategy<String> { if cfg.small { proptest::sample::select(vec!["a", "b", "c"]).prop_map(String::from).boxed() } else { attr_name() } }
fn types(cfg: Cfg) -> BoxedStrategy<Ty> { if cfg.small { proptest::sample::select(vec![Ty::Text, Ty::Numeric]).boxed() } else { ty(cfg.refs) } }
pub fn attr_name() -> BoxedStrategy<String> {
    prop_oneof![
        8 => proptest::sample::select(vec!["a", "b", "c", "name", "first.name", "d", "type", "x-1", "passed", "Name", "_p", "0", "language", "i"]).prop_map(String::from),
        // a name that starts with "--" on a line of its own is taken for a comment: known finding K09B
        2 => "[A-Za-z0-9_.-]{1,9}".prop_map(|s| if s.starts_with("--") { format!("x{s}") } else { s }),
    ].boxed()
}
fn meta_key() -> BoxedStrategy<String> {
    prop_oneof![4 => proptest::sample::select(vec!["name", "description", "title", "v", "said", "k.1"]).prop_map(String::from), 1 => "[A-Za-z][A-Za-z0-9_-]{0,6}"]
        .prop_map(|s| if ["lang", "d", "type", "capture_base", "language"].contains(&s.as_str()) { format!("{s}_") } else { s }).boxed()
}

/// One operation before it is resolved against the attributes that exist when it runs. `u16`s select existing attributes.
#[derive(Clone, Debug, Serialize, Deserialize)]
enum Raw {
    Attrs(Vec<(String, Ty)>), Class(String), Meta(usize, KV), Lang(LO, usize, Vec<(u16, String)>), Str(SO, Vec<(u16, String, u16)>),
    Codes(Vec<(u16, Codes)>), Ents(usize, Vec<(u16, Ents)>), Link(usize, Vec<(u16, String)>), Framing(usize, Vec<(u16, Vec<Frame>)>), Rm(Vec<u16>), RmClass, Flag(Vec<u16>),
}
fn dedup<T>(v: Vec<(String, T)>) -> Vec<(String, T)> {
    let mut seen = std::collections::BTreeSet::new();
    v.into_iter().filter(|(k, _)| seen.insert(k.clone())).collect()
}
fn raw(cfg: Cfg) -> BoxedStrategy<Raw> {
    let t = text(cfg);
    let sel = any::<u16>();
    let langs = || a_lang(cfg.small);
    let kv = |k: BoxedStrategy<String>, v: BoxedStrategy<String>, n: std::ops::Range<usize>| vec((k, v), n).prop_map(dedup);
    let codes = prop_oneof![
        1 => proptest::sample::select(said_pool().clone()).prop_map(Codes::Ref),
        4 => vec(t.clone(), 0..4).prop_map(Codes::List),
        2 => vec((t.clone(), vec(t.clone(), 0..3)), 0..3).prop_map(|v| Codes::Groups(dedup(v))),
    ];
    let ents = prop_oneof![1 => proptest::sample::select(said_pool().clone()).prop_map(Ents::Ref), 4 => vec((t.clone(), t.clone()), 0..4).prop_map(|v| Ents::Map(dedup(v)))];
    let mut o: Vec<(u32, BoxedStrategy<Raw>)> = vec![
        (6, vec((names(cfg), types(cfg)), 1..5).prop_map(Raw::Attrs).boxed()),
        (2, (langs(), kv(if cfg.small { proptest::sample::select(vec!["name", "description"]).prop_map(String::from).boxed() } else { meta_key() }, t.clone(), 1..4)).prop_map(|(l, v)| Raw::Meta(l, v)).boxed()),
        (4, (prop_oneof![Just(LO::Label), Just(LO::Info)], langs(), vec((sel, t.clone()), 1..4)).prop_map(|(k, l, v)| Raw::Lang(k, l, v)).boxed()),
        (6, (proptest::sample::select(if cfg.conds { vec![SO::Enc, SO::Format, SO::Conf, SO::Cond, SO::Card, SO::Unit] } else { vec![SO::Enc, SO::Format, SO::Conf, SO::Card, SO::Unit] }), vec((sel, t.clone(), sel), 1..4)).prop_map(|(k, v)| Raw::Str(k, v)).boxed()),
        (2, vec((sel, codes), 1..3).prop_map(Raw::Codes).boxed()),
        (2, (langs(), vec((sel, ents), 1..3)).prop_map(|(l, v)| Raw::Ents(l, v)).boxed()),
    ];
    if cfg.class { o.push((1, prop_oneof![2 => "[A-Za-z0-9._/:-]{1,10}".boxed(), 1 => t.clone()].prop_map(Raw::Class).boxed())); if cfg.remove { o.push((1, Just(Raw::RmClass).boxed())) } }
    if cfg.class { o.push((1, vec(sel, 1..4).prop_map(Raw::Flag).boxed())); }
    if cfg.remove { o.push((2, vec(sel, 1..3).prop_map(Raw::Rm).boxed())); }
    if cfg.links { o.push((1, (0..3usize, vec((sel, t.clone()), 1..3)).prop_map(|(g, v)| Raw::Link(g, v)).boxed())); }
    if cfg.framings {
        let key = prop_oneof!["[a-z]{1,5}", Just("http://loc.1#2".to_string()), "[a-z:/.#é]{1,8}"];
        let fr = vec((key.boxed(), t.clone(), t.clone()), 1..3).prop_map(|v| { let mut s = std::collections::BTreeSet::new(); v.into_iter().filter(|f| s.insert(f.0.clone())).collect::<Vec<_>>() });
        o.push((1, (prop_oneof![2 => 0..3usize, 1 => 0..12usize], vec((sel, fr), 1..3)).prop_map(|(g, v)| Raw::Framing(g, v)).boxed()));
    }
    proptest::strategy::Union::new_weighted(o).boxed()
}
/// The metadata of one of three frames, in one of several versions: what is said later about a frame adds to or replaces
/// what was said before.
pub fn frame_meta(g: usize) -> KV {
    let s = |a: &str, b: &str| (a.to_string(), b.to_string());
    let (id, version) = (g % 3, g / 3 % 4);
    let mut m = match id { 0 => vec![s("id", "frame.0")], 1 => vec![s("id", "SNOMED CT"), s("label", "Clinical terms"), s("version", "2.1")], _ => vec![s("id", "f2"), s("location", "https://example.org/x?y=1"), s("label", "é'")] };
    match version {
        0 => {}
        1 => m.truncate(1),
        2 => { m.truncate(1); m.push(s("version", "3")); m.push(s("label", "other")); }
        _ => { m.truncate(1); m.push(s("location", "http://loc.2")); m.push(s("version", "2.1")); }
    }
    m
}
fn pick<T>(existing: &[String], v: Vec<(u16, T)>) -> Vec<(String, T)> {
    if existing.is_empty() { return vec![]; }
    dedup(v.into_iter().map(|(s, t)| (existing[s as usize % existing.len()].clone(), t)).collect())
}
/// Turns raw operations into a program every instruction of which is acceptable where it stands.
fn resolve(raws: Vec<Raw>) -> Vec<Ins> { resolve_from(vec![], false, raws) }
fn resolve_from(mut ex: Vec<String>, mut class: bool, raws: Vec<Raw>) -> Vec<Ins> {
    let mut out = vec![];
    for r in raws {
        let i = match r {
            Raw::Attrs(v) => { let v: Vec<_> = dedup(v).into_iter().filter(|(k, _)| !ex.contains(k)).collect(); ex.extend(v.iter().map(|x| x.0.clone())); if v.is_empty() { continue } Ins::Attrs(v) }
            Raw::Class(c) => { class = !c.is_empty(); Ins::Class(c) }
            Raw::RmClass => { if !class { continue } class = false; Ins::RmClass }
            Raw::Meta(l, v) => Ins::Meta(lang_at(l), v),
            Raw::Lang(k, l, v) => { let v = pick(&ex, v); if v.is_empty() { continue } Ins::Lang(k, lang_at(l), v) }
            Raw::Str(k, v) => {
                let v2 = pick(&ex, v.into_iter().map(|(s, t, d)| (s, (t, d))).collect());
                if v2.is_empty() { continue }
                Ins::Str(k, v2.into_iter().map(|(a, (t, d))| {
                    let val = match k {
                        SO::Enc => ENCODINGS[d as usize % ENCODINGS.len()].to_string(),
                        // a condition mentions attributes, or now and then none; text without "${" around them
                        SO::Cond if d % 11 == 5 => t.replace("${", "("),
                        SO::Cond => { let t = t.replace("${", "("); let d1 = &ex[d as usize % ex.len()]; let d2 = &ex[(d / 7) as usize % ex.len()]; if d % 3 == 0 { format!("${{{d1}}} > 2 and {t}") } else { format!("{t}${{{d1}}}${{{d2}}}=${{{d1}}}") } }
                        SO::Card => if d % 2 == 0 { format!("{}-{}", d % 5, d % 9) } else { t },
                        SO::Conf => if d % 2 == 0 { "M".into() } else { t },
                        _ => t,
                    };
                    (a, val)
                }).collect())
            }
            Raw::Codes(v) => { let v = pick(&ex, v); if v.is_empty() { continue } Ins::EntryCode(v) }
            Raw::Ents(l, v) => { let v = pick(&ex, v); if v.is_empty() { continue } Ins::Entry(lang_at(l), v) }
            Raw::Link(t, v) => { let v = pick(&ex, v); if v.is_empty() { continue } Ins::Link(Ty::Ref(said_pool()[t].clone()), v) }
            Raw::Framing(id, v) => { let v = pick(&ex, v); if v.is_empty() { continue } Ins::Framing(frame_meta(id), v) }
            Raw::Flag(v) => { if ex.is_empty() { continue } Ins::Flagged(v.into_iter().map(|s| ex[s as usize % ex.len()].clone()).collect()) }
            Raw::Rm(v) => { if ex.is_empty() { continue } let names: Vec<String> = pick(&ex, v.into_iter().map(|s| (s, ())).collect()).into_iter().map(|x| x.0).collect(); ex.retain(|x| !names.contains(x)); Ins::RmAttrs(names) }
        };
        out.push(i);
    }
    out
}
/// A program with at least one instruction; the first one usually declares attributes.
pub fn program(cfg: Cfg) -> BoxedStrategy<Vec<Ins>> {
    let first = vec((names(cfg), types(cfg)), 1..6).prop_map(Raw::Attrs);
    (first, vec(raw(cfg), 0..cfg.max_ops)).prop_map(|(f, mut r)| { r.insert(0, f); resolve(r) }).boxed()
}
/// More instructions for a bundle that already has the given attributes.
pub fn fmt_ops(cfg: Cfg, n: std::ops::Range<usize>) -> BoxedStrategy<Cont> { vec(raw(cfg), n).prop_map(Cont).boxed() }
/// The same, for a new bundle.
pub fn new_ops(cfg: Cfg) -> BoxedStrategy<Cont> { (vec((names(cfg), types(cfg)), 1..5).prop_map(Raw::Attrs), vec(raw(cfg), 0..cfg.max_ops)).prop_map(|(f, mut r)| { r.insert(0, f); Cont(r) }).boxed() }
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Cont(Vec<Raw>);
impl Cont { pub fn resolve(self, existing: Vec<String>, class: bool) -> Vec<Ins> { resolve_from(existing, class, self.0) } }

// ---------------------------------------------------------------- programs of unusual size

/// One large thing: (what, how many or how long, and a choice).
pub type Part = (u8, u16, u16);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Big { pub attrs: u16, pub parts: Vec<Part> }
/// Sizes spread evenly over orders of magnitude, up to the given one.
pub fn size(max: u16) -> BoxedStrategy<u16> { (0..=max.ilog2(), any::<u16>()).prop_map(move |(b, r)| { let lo = 1u16 << b; (lo + r % lo).min(max) }).boxed() }
pub fn big(max: u16) -> BoxedStrategy<Big> { (size(max), vec((0u8..17, size(max), any::<u16>()), 0..4)).prop_map(|(attrs, parts)| Big { attrs, parts }).boxed() }
impl Big {
    pub fn program(&self) -> Vec<Ins> {
        let name = |i: usize| format!("a{i}");
        let n = self.attrs.max(1) as usize;
        let base = [Ty::Text, Ty::Numeric, Ty::Boolean, Ty::Binary, Ty::DateTime];
        let mut out = vec![Ins::Attrs((0..n).map(|i| (name(i), base[i % 5].clone())).collect())];
        let mut more = 0;
        for (what, size, sel) in &self.parts {
            let (m, sel) = (*size as usize, *sel as usize);
            let one = name(sel % n);
            // up to `m` attributes, starting anywhere
            let some: Vec<String> = (0..m.min(n)).map(|i| name((sel + i) % n)).collect();
            let long: String = { let unit = ["x", "word ", "é", "日本語 ", "a=b,", "[{(", "\\n", "it's "][sel % 8]; unit.repeat(m * 40 / unit.len() + 1) };
            let long = quotable(long);
            let kv = |f: &dyn Fn(usize) -> String| -> KV { some.iter().enumerate().map(|(i, a)| (a.clone(), f(i))).collect() };
            out.push(match what {
                0 => Ins::Lang([LO::Label, LO::Info][sel % 2], LANGS[sel % 6].into(), kv(&|i| format!("text {i}"))),
                1 => Ins::Str([SO::Format, SO::Conf, SO::Card, SO::Unit][sel % 4], kv(&|i| format!("{i}"))),
                2 => Ins::Str(SO::Enc, kv(&|i| ENCODINGS[i % 6].into())),
                3 => Ins::Str(SO::Cond, kv(&|i| format!("${{{}}} > {i}", name((i * 7 + sel) % n)))),
                4 => Ins::EntryCode(vec![(one, Codes::List((0..m).map(|i| format!("c{i}")).collect()))]),
                5 => Ins::EntryCode(vec![(one, Codes::Groups((0..m).map(|i| (format!("g{i}"), (0..if i + 1 == m { m } else { i % 6 }).map(|j| format!("c{i}.{j}")).collect())).collect()))]),
                6 => Ins::Entry(LANGS[sel % 6].into(), vec![(one, Ents::Map((0..m).map(|i| (format!("c{i}"), format!("entry {i}"))).collect()))]),
                7 => Ins::EntryCode(some.iter().map(|a| (a.clone(), if sel % 2 == 0 { Codes::List(vec!["x".into(), "y".into()]) } else { Codes::Groups((0..1 + sel % 9).map(|g| (format!("g{g}"), (0..sel % 7).map(|j| format!("c{g}.{j}")).collect())).collect()) })).collect()),
                8 => Ins::Link(Ty::Ref(said_pool()[sel % 5].clone()), kv(&|i| format!("t{i}"))),
                9 => Ins::Framing(frame_meta(sel % 12), some.iter().map(|a| (a.clone(), vec![("term".into(), "p".into(), "j".into())])).collect()),
                10 => Ins::Framing(frame_meta(sel % 12), vec![(one, (0..m.min(500)).map(|i| (format!("t{i}"), "p".into(), format!("j{i}"))).collect())]),
                11 => Ins::Meta(LANGS[sel % 6].into(), (0..m).map(|i| (format!("k{i}"), format!("v{i}"))).collect()),
                12 => Ins::Meta(LANGS[sel % 6].into(), vec![("description".into(), long)]),
                13 => Ins::Lang([LO::Label, LO::Info][sel % 2], LANGS[sel % 6].into(), vec![(one, long)]),
                15 => Ins::Str(SO::Cond, vec![(one.clone(), { let v: Vec<String> = some.iter().filter(|a| **a != one).enumerate().map(|(i, a)| format!("${{{a}}} >= {i}")).collect(); if v.is_empty() { "1 > 0".into() } else { v.join([" and ", " or "][sel % 2]) } })]),
                14 => { more += 1; Ins::Attrs((0..1 + m % 3).map(|i| { let d = [1, 2, 8, 90][(sel + i) % 4]; ("long.name-".repeat(1 + m.min(60) * i) + &format!("{more}.{i}"), (0..d).fold(base[sel % 5].clone(), |t, _| Ty::Arr(Box::new(t)))) }).collect()) }
                _ => if m % 3 == 0 { Ins::Class(format!("GICS:{}", "35102020.".repeat(m))) } else { let keep = some.len() == n; Ins::RmAttrs(some.into_iter().skip(keep as usize).collect::<Vec<_>>()).or(|| Ins::Class("x".into())) },
            });
            // what follows must not mention removed attributes
            if matches!(out.last(), Some(Ins::RmAttrs(_))) { break }
        }
        out
    }
}
impl Ins { fn or(self, other: impl FnOnce() -> Ins) -> Ins { match &self { Ins::RmAttrs(v) if v.is_empty() => other(), _ => self } } }

// ---------------------------------------------------------------- rendering

/// Layout decisions, drawn from a generated list of bytes (all zero: the plainest layout).
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Lay { bytes: Vec<u8>, #[serde(skip)] at: usize }
impl Lay {
    pub fn new(bytes: Vec<u8>) -> Lay { Lay { bytes, at: 0 } }
    fn next(&mut self) -> u8 { if self.bytes.is_empty() { return 0; } let b = self.bytes[self.at % self.bytes.len()].wrapping_add(((self.at / self.bytes.len()) as u8).wrapping_mul(if self.bytes.iter().all(|b| *b == 0) { 0 } else { 37 })); self.at += 1; b }
    pub fn of(&mut self, n: u8) -> u8 { self.next() % n }
}
pub fn lay() -> BoxedStrategy<Lay> { prop_oneof![1 => Just(vec![0u8]), 5 => vec(any::<u8>(), 1..60)].prop_map(Lay::new).boxed() }

pub struct Rendered { pub text: String, /** line (1-based) on which each instruction starts, and its text */ pub at: Vec<(usize, String)> }

struct Out<'a> { s: String, l: &'a mut Lay, nl: &'static str, cont: bool }
impl Out<'_> {
    fn kw(&mut self, k: &str) {
        match self.l.of(6) { 1 => self.s.push_str(&k.to_lowercase()), 2 => { for (i, c) in k.chars().enumerate() { if i % 2 == 0 { self.s.push(c) } else { self.s.push(c.to_ascii_lowercase()) } } } _ => self.s.push_str(k) }
    }
    /// required white space between two tokens
    fn ws(&mut self) {
        match self.l.of(24) {
            1 => self.s.push_str("  "), 2 => self.s.push('\t'),
            3 if self.cont => { self.s.push_str(" \\"); self.s.push_str(self.nl); self.s.push_str("    ") }
            4 if self.cont => { self.s.push_str(" \\  "); self.s.push_str(self.nl); self.s.push_str("  # why"); self.s.push_str(self.nl); self.s.push(' ') }
            5 if self.cont => { self.s.push_str(" \\"); self.s.push_str(self.nl); self.s.push_str("  "); self.s.push_str(self.nl); self.s.push_str("  ") }
            _ => self.s.push(' '),
        }
    }
    fn eq(&mut self) { match self.l.of(12) { 1 => self.s.push_str(" = "), 2 => self.s.push_str("= "), 3 => self.s.push_str(" ="), _ => self.s.push('=') } }
    fn q(&mut self, v: &str) {
        let dq_ok = !unescaped(v, '"');
        let sq_ok = !unescaped(v, '\'');
        let single = !dq_ok || (sq_ok && self.l.of(5) == 1);
        let c = if single { '\'' } else { '"' };
        self.s.push(c); self.s.push_str(v); self.s.push(c);
    }
    fn val(&mut self, v: &str) { if !v.is_empty() && v.chars().all(|c| plain(c.encode_utf8(&mut [0; 4])) || "éłßøñ日本語Ω".contains(c)) && self.l.of(3) == 1 { self.s.push_str(v) } else { self.q(v) } }
    fn pairs(&mut self, v: &KV, unit: bool) {
        for (i, (k, x)) in v.iter().enumerate() {
            if i > 0 { self.ws() }
            self.s.push_str(k); self.eq();
            if unit && !x.is_empty() && x.chars().all(|c| c.is_ascii_graphic() && c != '"' && c != '\'' && c != '\\') && self.l.of(3) == 1 { self.s.push_str(x); self.s.push(' ') } else { self.val(x) }
        }
    }
    fn list(&mut self, c: &[String]) { self.s.push('['); for (i, x) in c.iter().enumerate() { if i > 0 { self.s.push(','); self.sp() } self.q(x) } self.s.push(']') }
    fn pad(&mut self) { match self.l.of(6) { 1 => self.s.push(' '), 2 => self.s.push_str("   "), _ => {} } }
    /// white space in a frame, where a line may end
    fn free(&mut self) { match self.l.of(10) { 1 => {}, 2 => self.s.push_str("  "), 3 => { let n = self.nl; self.s.push_str(n) } 4 => self.s.push('\t'), _ => self.s.push(' ') } }
    fn sp(&mut self) { match self.l.of(4) { 1 => {}, 2 => self.s.push_str("  "), _ => self.s.push(' ') } }
}
pub fn ty_text(t: &Ty) -> String {
    match t { Ty::Text => "Text".into(), Ty::Numeric => "Numeric".into(), Ty::Boolean => "Boolean".into(), Ty::Binary => "Binary".into(), Ty::DateTime => "DateTime".into(),
        Ty::Arr(t) => format!("Array[{}]", ty_text(t)), Ty::Ref(s) => format!("refs:{s}"), Ty::Name(n) => format!("refn:{n}") }
}
fn one(i: &Ins, o: &mut Out) {
    match i {
        Ins::From(s) => { o.kw("FROM"); o.s.push(' '); o.s.push_str(s); return }
        Ins::RmAttrs(v) => { o.kw("REMOVE"); o.ws(); o.kw("ATTRIBUTE"); for k in v { o.ws(); o.s.push_str(k) } return }
        Ins::RmClass => { o.kw("REMOVE"); o.ws(); o.kw("CLASSIFICATION"); return }
        Ins::RmMeta(l, v) | Ins::RmLabel(l, v) => {
            let meta = matches!(i, Ins::RmMeta(..));
            o.kw("REMOVE"); o.ws(); o.kw(if meta { "META" } else { "LABEL" }); o.ws(); o.s.push_str(l);
            if !v.is_empty() { o.ws(); o.kw(if meta { "PROPS" } else { "ATTRS" }); for k in v { o.ws(); o.s.push_str(k) } }
            return
        }
        _ => {}
    }
    o.kw("ADD"); o.ws();
    match i {
        Ins::Attrs(v) => { o.kw("ATTRIBUTE"); for (k, t) in v { o.ws(); o.s.push_str(k); o.eq(); let t = ty_text(t); o.s.push_str(&t) } }
        Ins::Class(c) => { o.kw("CLASSIFICATION"); o.ws(); o.val(c) }
        Ins::Flagged(v) => { o.kw("FLAGGED_ATTRIBUTES"); for k in v { o.ws(); o.val(k) } }
        Ins::EncProps(v) => { o.kw("CHARACTER_ENCODING"); o.ws(); o.kw("PROPS"); o.ws(); o.pairs(v, false) }
        Ins::Meta(l, v) => { o.kw("META"); o.ws(); o.s.push_str(l); o.ws(); o.kw("PROPS"); o.ws(); o.pairs(v, false) }
        Ins::Lang(k, l, v) => { o.kw(if *k == LO::Label { "LABEL" } else { "INFORMATION" }); o.ws(); o.s.push_str(l); o.ws(); o.kw("ATTRS"); o.ws(); o.pairs(v, false) }
        Ins::Str(k, v) => {
            o.kw(match k { SO::Enc => "CHARACTER_ENCODING", SO::Format => "FORMAT", SO::Conf => "CONFORMANCE", SO::Cond => "CONDITION", SO::Card => "CARDINALITY", SO::Unit => "UNIT" });
            o.ws(); o.kw("ATTRS"); o.ws(); o.pairs(v, *k == SO::Unit)
        }
        Ins::EntryCode(v) => {
            o.kw("ENTRY_CODE"); o.ws(); o.kw("ATTRS"); o.ws();
            for (i, (k, c)) in v.iter().enumerate() {
                if i > 0 { o.ws() }
                o.s.push_str(k); o.s.push('=');
                match c {
                    Codes::Ref(s) => o.val(s),
                    Codes::List(c) => o.list(c),
                    Codes::Groups(g) => { o.s.push('{'); if !g.is_empty() { o.pad() } for (j, (n, c)) in g.iter().enumerate() { if j > 0 { o.s.push(','); o.sp() } o.q(n); o.s.push(':'); o.sp(); o.list(c) } if !g.is_empty() { o.pad() } o.s.push('}') }
                }
            }
        }
        Ins::Entry(l, v) => {
            o.kw("ENTRY"); o.ws(); o.s.push_str(l); o.ws(); o.kw("ATTRS"); o.ws();
            for (i, (k, c)) in v.iter().enumerate() {
                if i > 0 { o.ws() }
                o.s.push_str(k); o.s.push('=');
                match c { Ents::Ref(s) => o.val(s), Ents::Map(m) => { o.s.push('{'); if !m.is_empty() { o.pad() } for (j, (n, x)) in m.iter().enumerate() { if j > 0 { o.s.push(','); o.sp() } o.q(n); o.s.push(':'); o.sp(); o.q(x) } if !m.is_empty() { o.pad() } o.s.push('}') } }
            }
        }
        Ins::Link(t, v) => { o.kw("LINK"); o.ws(); let t = ty_text(t); o.s.push_str(&t); o.ws(); o.kw("ATTRS"); o.ws(); o.pairs(v, false) }
        Ins::Framing(m, v) => {
            o.kw("ATTR_FRAMING");
            for (k, x) in m { o.ws(); o.s.push_str(k); o.eq(); o.val(x) }
            o.ws(); o.kw("ATTRS");
            for (k, fs) in v {
                o.ws(); o.s.push_str(k); o.eq(); o.s.push('{');
                for (j, (t, p, f)) in fs.iter().enumerate() {
                    if j > 0 { o.s.push(','); o.free() } else { o.pad() }
                    o.q(t); o.pad(); o.s.push(':'); o.free(); o.s.push('{'); o.free(); o.s.push_str("\"predicate_id\""); o.pad(); o.s.push(':'); o.free(); o.q(p);
                    o.pad(); o.s.push(','); o.free(); o.s.push_str("\"framing_justification\":"); o.free(); o.q(f); o.free(); o.s.push('}');
                }
                o.pad();
                o.s.push('}');
            }
        }
        _ => unreachable!(),
    }
}
pub fn render(prog: &[Ins], lay: &Lay) -> Rendered { render_meta(prog, &[], lay) }
/// Renders a program, with meta comments (`-- key=value`) at the top.
pub fn render_meta(prog: &[Ins], meta: &[(String, String)], lay: &Lay) -> Rendered {
    let mut l = lay.clone();
    l.at = 0;
    let nl = if l.of(10) == 9 { "\r\n" } else { "\n" };
    let mut text = String::new();
    let filler = |l: &mut Lay, text: &mut String| {
        match l.of(9) { 1 => text.push_str(nl), 2 => { text.push_str("# comment -- name=zzz ADD"); text.push_str(nl) } 3 => { text.push_str("   "); text.push_str(nl) } 4 => { text.push_str("  # c"); text.push_str(nl); text.push_str(nl) } _ => {} }
    };
    // meta lines may stand anywhere between instructions
    let mut place: Vec<usize> = meta.iter().map(|_| match l.of(5) { 1 => l.of(8) as usize % (prog.len() + 1), _ => 0 }).collect();
    place.sort();
    let mut at = vec![];
    for n in 0..=prog.len() {
        for ((k, v), p) in meta.iter().zip(&place) {
            if *p != n { continue }
            filler(&mut l, &mut text);
            text.push_str(["-- ", "-- ", "--", "  -- ", "--  "][l.of(5) as usize]); text.push_str(k); text.push_str(["=", " = ", "="][l.of(3) as usize]);
            let mut o = Out { s: String::new(), l: &mut l, nl, cont: false };
            o.val(v);
            let v = o.s; text.push_str(&v); text.push_str(nl)
        }
        let Some(i) = prog.get(n) else { break };
        filler(&mut l, &mut text);
        let mut o = Out { s: String::new(), l: &mut l, nl, cont: true };
        one(i, &mut o);
        let s = o.s;
        at.push((text.replace("\r\n", "\n").matches('\n').count() + 1, s.trim_end().to_string()));
        text.push_str(&s);
        if n + 1 < prog.len() || l.of(4) != 1 || place.contains(&(n + 1)) { if l.of(8) == 1 { text.push(' ') } text.push_str(nl) }
    }
    if text.ends_with('\n') { filler(&mut l, &mut text) }
    Rendered { text, at }
}
pub fn plain_text(prog: &[Ins]) -> String { render(prog, &Lay::new(vec![0])).text }

// ---------------------------------------------------------------- transformation files

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Tr { Rename(KV), Link(KV) }
impl Tr { pub fn pairs(&self) -> &KV { match self { Tr::Rename(p) | Tr::Link(p) => p } } }
pub fn tr_name() -> BoxedStrategy<String> {
    prop_oneof![4 => proptest::sample::select(vec!["a", "b", "c", "d", "name", "first_name", "x-1", "A", "0", "attribute", "link", "-", "_", "a-", "--b", "rename"]).prop_map(String::from), 1 => "[A-Za-z0-9_-]{1,8}"].boxed()
}
pub fn tr_program(max: usize) -> BoxedStrategy<Vec<Tr>> {
    let pairs = || vec((tr_name(), tr_name()), 1..5);
    vec(prop_oneof![pairs().prop_map(Tr::Rename), pairs().prop_map(Tr::Link)], 0..max).boxed()
}
/// Meta values are given with whether they are written in quotes (when they can do without).
pub fn render_tr(prog: &[Tr], meta: &[(String, String)], lay: &Lay) -> Rendered {
    let mut l = lay.clone();
    l.at = 0;
    let nl = if l.of(10) == 9 { "\r\n" } else { "\n" };
    let mut text = String::new();
    let filler = |l: &mut Lay, text: &mut String| {
        match l.of(9) { 1 => text.push_str(nl), 2 => { text.push_str("# comment -- source=zzz RENAME"); text.push_str(nl) } 3 => { text.push_str("   "); text.push_str(nl) } 4 => { text.push_str("  # c"); text.push_str(nl); text.push_str(nl) } _ => {} }
    };
    // meta lines may stand anywhere between instructions
    let place: Vec<usize> = meta.iter().map(|_| match l.of(4) { 1 => l.of(8) as usize % (prog.len() + 1), _ => 0 }).collect();
    let mut at = vec![];
    for n in 0..=prog.len() {
        for ((k, v), p) in meta.iter().zip(&place) {
            if *p != n { continue }
            filler(&mut l, &mut text);
            text.push_str(["-- ", "--", "  -- "][l.of(3) as usize]); text.push_str(k);
            text.push_str(["=", " = ", "="][l.of(3) as usize]);
            let mut o = Out { s: String::new(), l: &mut l, nl, cont: false };
            o.val(v);
            let v = o.s; text.push_str(&v); text.push_str(nl)
        }
        let Some(i) = prog.get(n) else { break };
        filler(&mut l, &mut text);
        let mut o = Out { s: String::new(), l: &mut l, nl, cont: true };
        let link = matches!(i, Tr::Link(_));
        o.kw(if link { "LINK" } else { "RENAME" }); o.ws(); o.kw("ATTRIBUTE");
        for (a, b) in i.pairs() {
            o.ws(); o.s.push_str(a);
            if link { match o.l.of(8) { 1 => o.s.push_str("->"), 2 => o.s.push_str("-> "), 3 => o.s.push_str(" ->"), 4 => { o.ws(); o.s.push_str("->"); o.ws() } _ => o.s.push_str(" -> ") } } else { o.eq() }
            o.s.push_str(b);
        }
        let s = o.s;
        at.push((text.replace("\r\n", "\n").matches('\n').count() + 1, s.trim_end().to_string()));
        text.push_str(&s);
        let tail = l.of(8);
        if tail == 2 { text.push_str("  # trailing remark") }
        if n + 1 < prog.len() || l.of(4) != 1 || place.contains(&(n + 1)) { if tail == 1 { text.push(' ') } text.push_str(nl) }
    }
    if text.ends_with('\n') { filler(&mut l, &mut text) }
    Rendered { text, at }
}
