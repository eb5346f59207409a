//! Reference models: the instruction list a text spells (P02) and the content a program declares (P06).
use crate::gen::*;
use indexmap::IndexMap;
use oca_ast_semantics::ast::*;
use serde_json::{json, Map, Value};
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

pub fn attr_ty(t: &Ty) -> NestedAttrType {
    match t {
        Ty::Text => NestedAttrType::Value(AttributeType::Text),
        Ty::Numeric => NestedAttrType::Value(AttributeType::Numeric),
        Ty::Boolean => NestedAttrType::Value(AttributeType::Boolean),
        Ty::Binary => NestedAttrType::Value(AttributeType::Binary),
        Ty::DateTime => NestedAttrType::Value(AttributeType::DateTime),
        Ty::Arr(t) => NestedAttrType::Array(Box::new(attr_ty(t))),
        Ty::Ref(s) => NestedAttrType::Reference(RefValue::Said(said::SelfAddressingIdentifier::from_str(s).unwrap())),
        Ty::Name(n) => NestedAttrType::Reference(RefValue::Name(n.clone())),
    }
}
fn val(s: &str) -> NestedValue { NestedValue::Value(s.to_string()) }
fn vals(v: &KV) -> IndexMap<String, NestedValue> { v.iter().map(|(k, x)| (k.clone(), val(x))).collect() }
fn list(c: &[String]) -> NestedValue { NestedValue::Array(c.iter().map(|x| val(x)).collect()) }

/// The command an instruction spells.
pub fn command(i: &Ins) -> Command {
    let v = || "1.1".to_string();
    let ov = |t: OverlayType, p: IndexMap<String, NestedValue>, a: IndexMap<String, NestedValue>| Command { kind: CommandType::Add, object_kind: ObjectKind::Overlay(t, Content { properties: Some(p), attributes: Some(a) }) };
    let none = IndexMap::new;
    let lang = |l: &String| -> IndexMap<String, NestedValue> { [("lang".to_string(), val(l))].into_iter().collect() };
    let cb = |kind, attributes, properties| Command { kind, object_kind: ObjectKind::CaptureBase(CaptureContent { attributes, properties, flagged_attributes: None }) };
    match i {
        Ins::Attrs(a) => cb(CommandType::Add, Some(a.iter().map(|(k, t)| (k.clone(), attr_ty(t))).collect()), None),
        Ins::Class(c) => cb(CommandType::Add, None, Some([("classification".to_string(), val(c))].into_iter().collect())),
        Ins::RmAttrs(a) => cb(CommandType::Remove, Some(a.iter().map(|k| (k.clone(), NestedAttrType::Null)).collect()), None),
        Ins::RmClass => cb(CommandType::Remove, None, Some([("classification".to_string(), val(""))].into_iter().collect())),
        Ins::From(s) => Command { kind: CommandType::From, object_kind: ObjectKind::OCABundle(BundleContent { said: ReferenceAttrType::Reference(RefValue::Said(said::SelfAddressingIdentifier::from_str(s).unwrap())) }) },
        Ins::Flagged(f) => Command { kind: CommandType::Add, object_kind: ObjectKind::CaptureBase(CaptureContent { attributes: None, properties: None, flagged_attributes: Some(f.clone()) }) },
        Ins::RmMeta(l, v) => Command { kind: CommandType::Remove, object_kind: ObjectKind::Overlay(OverlayType::Meta("1.1".into()), Content { properties: Some(lang(l).into_iter().chain(v.iter().map(|k| (k.clone(), val("")))).collect()), attributes: None }) },
        Ins::RmLabel(l, v) => Command { kind: CommandType::Remove, object_kind: ObjectKind::Overlay(OverlayType::Label("1.1".into()), Content { properties: Some(lang(l)), attributes: Some(v.iter().map(|k| (k.clone(), val(""))).collect()) }) },
        Ins::EncProps(p) => ov(OverlayType::CharacterEncoding(v()), vals(p), none()),
        Ins::Meta(l, p) => { let mut m = lang(l); m.extend(vals(p)); ov(OverlayType::Meta(v()), m, none()) }
        Ins::Lang(LO::Label, l, a) => ov(OverlayType::Label(v()), lang(l), vals(a)),
        Ins::Lang(LO::Info, l, a) => ov(OverlayType::Information(v()), lang(l), vals(a)),
        Ins::Str(k, a) => ov(match k { SO::Enc => OverlayType::CharacterEncoding(v()), SO::Format => OverlayType::Format(v()), SO::Conf => OverlayType::Conformance(v()), SO::Cond => OverlayType::Conditional(v()), SO::Card => OverlayType::Cardinality(v()), SO::Unit => OverlayType::Unit(v()) }, none(), vals(a)),
        Ins::EntryCode(a) => ov(OverlayType::EntryCode(v()), none(), a.iter().map(|(k, c)| (k.clone(), match c { Codes::Ref(s) => val(s), Codes::List(c) => list(c), Codes::Groups(g) => NestedValue::Object(g.iter().map(|(n, c)| (n.clone(), list(c))).collect()) })).collect()),
        Ins::Entry(l, a) => ov(OverlayType::Entry(v()), lang(l), a.iter().map(|(k, c)| (k.clone(), match c { Ents::Ref(s) => val(s), Ents::Map(m) => NestedValue::Object(vals(m)) })).collect()),
        Ins::Link(t, a) => {
            let r = match t { Ty::Ref(s) => RefValue::Said(said::SelfAddressingIdentifier::from_str(s).unwrap()), Ty::Name(n) => RefValue::Name(n.clone()), _ => unreachable!() };
            ov(OverlayType::Link(v()), [("target".to_string(), NestedValue::Reference(r))].into_iter().collect(), vals(a))
        }
        Ins::Framing(m, a) => ov(OverlayType::AttributeFraming(v()), vals(m), a.iter().map(|(k, fs)| (k.clone(), NestedValue::Object(fs.iter().map(|(t, p, j)| {
            (t.clone(), NestedValue::Object([("predicate_id".to_string(), val(p)), ("framing_justification".to_string(), val(j))].into_iter().collect()))
        }).collect()))).collect()),
    }
}
/// An instruction list compared as what it declares: `None` and an empty collection are the same.
pub fn norm(c: &Command) -> Command {
    let mut c = c.clone();
    match &mut c.object_kind {
        ObjectKind::CaptureBase(x) => {
            if x.attributes.as_ref().is_some_and(|a| a.is_empty()) { x.attributes = None }
            if x.properties.as_ref().is_some_and(|a| a.is_empty()) { x.properties = None }
            if x.flagged_attributes.as_ref().is_some_and(|a| a.is_empty()) { x.flagged_attributes = None }
        }
        ObjectKind::Overlay(_, x) => {
            if x.attributes.as_ref().is_some_and(|a| a.is_empty()) { x.attributes = None }
            if x.properties.as_ref().is_some_and(|a| a.is_empty()) { x.properties = None }
        }
        _ => {}
    }
    c
}
/// Full textual form, sensitive to the order of keys (IndexMap equality is not).
pub fn show(c: &Command) -> String { format!("{:?}", norm(c)) }

/// The same, without the order of properties.
pub fn show_unordered(c: &Command) -> String {
    let mut c = norm(c);
    match &mut c.object_kind { ObjectKind::CaptureBase(CaptureContent { properties: Some(p), .. }) | ObjectKind::Overlay(_, Content { properties: Some(p), .. }) => p.sort_keys(), _ => {} }
    format!("{c:?}")
}

pub type M<V> = BTreeMap<String, V>;
#[derive(Clone, Debug, Default, PartialEq)]
pub struct State {
    pub attrs: M<Ty>,
    pub class: String,
    pub flags: BTreeSet<String>,
    pub meta: M<M<String>>,
    pub lang: BTreeMap<LO, M<M<String>>>,
    pub strs: BTreeMap<SO, M<String>>,
    pub codes: M<Codes>,
    pub ents: M<M<Ents>>,
    pub links: M<M<String>>,
    pub framing: M<(M<String>, M<M<(String, String)>>)>,
}
impl State {
    pub fn of(p: &[Ins]) -> State { let mut s = State::default(); for i in p { s.apply(i) } s }
    pub fn apply(&mut self, i: &Ins) {
        match i {
            Ins::Attrs(v) => for (k, t) in v { self.attrs.insert(k.clone(), t.clone()); },
            Ins::Class(c) => self.class = c.clone(),
            Ins::RmClass => self.class.clear(),
            Ins::Meta(l, v) => for (k, x) in v { self.meta.entry(l.clone()).or_default().insert(k.clone(), x.clone()); },
            Ins::Lang(o, l, v) => for (k, x) in v { self.lang.entry(*o).or_default().entry(l.clone()).or_default().insert(k.clone(), x.clone()); },
            Ins::Str(o, v) => for (k, x) in v { self.strs.entry(*o).or_default().insert(k.clone(), x.clone()); },
            Ins::EntryCode(v) => for (k, x) in v { self.codes.insert(k.clone(), x.clone()); },
            Ins::Entry(l, v) => for (k, x) in v { self.ents.entry(l.clone()).or_default().insert(k.clone(), x.clone()); },
            Ins::Link(t, v) => { let Ty::Ref(t) = t else { panic!("unresolved link in the model") }; for (k, x) in v { self.links.entry(t.clone()).or_default().insert(k.clone(), x.clone()); } }
            Ins::Framing(m, v) => {
                let id = m[0].1.clone();
                let e = self.framing.entry(id).or_default();
                for (k, x) in m { e.0.insert(format!("frame_{k}"), x.clone()); }
                for (a, fs) in v { for (t, p, j) in fs { e.1.entry(a.clone()).or_default().insert(t.clone(), (p.clone(), j.clone())); } }
            }
            Ins::RmAttrs(v) => for a in v {
                self.attrs.remove(a);
                self.flags.remove(a);
                for m in self.lang.values_mut().flat_map(|m| m.values_mut()) { m.remove(a); }
                for m in self.strs.values_mut() { m.remove(a); }
                self.codes.remove(a);
                for m in self.ents.values_mut() { m.remove(a); }
                for m in self.links.values_mut() { m.remove(a); }
                for m in self.framing.values_mut() { m.1.remove(a); }
            },
            Ins::Flagged(v) => self.flags.extend(v.iter().cloned()),
            Ins::From(_) | Ins::EncProps(_) | Ins::RmMeta(..) | Ins::RmLabel(..) => {}
        }
        self.lang.values_mut().for_each(|m| m.retain(|_, v| !v.is_empty()));
        self.lang.retain(|_, m| !m.is_empty());
        self.strs.retain(|_, m| !m.is_empty());
        self.ents.retain(|_, m| !m.is_empty());
        self.links.retain(|_, m| !m.is_empty());
        self.framing.retain(|_, m| !m.1.is_empty());
    }
    /// Rough size: how many facts are declared.
    pub fn facts(&self) -> usize {
        self.attrs.len() + self.flags.len() + self.meta.values().map(|m| m.len()).sum::<usize>() + self.lang.values().flat_map(|m| m.values()).map(|m| m.len()).sum::<usize>() + self.strs.values().map(|m| m.len()).sum::<usize>() + self.codes.len() + self.ents.values().map(|m| m.len()).sum::<usize>() + self.links.len() + self.framing.len()
    }
    /// How many overlays the bundle must have.
    pub fn overlay_count(&self) -> usize {
        self.meta.len() + self.lang.values().map(|m| m.len()).sum::<usize>() + self.strs.len() + usize::from(!self.codes.is_empty()) + self.ents.len() + self.links.len() + self.framing.len()
    }

    /// The capture base and overlays the bundle must have, as canonical JSON without identifiers.
    pub fn expected(&self) -> Value {
        let mut ov: Vec<Value> = vec![];
        let t = |n: &str| format!("spec/overlays/{n}/1.1");
        for (l, m) in &self.meta { let mut o = json!({"type": t("meta"), "language": lang3(l)}); for (k, x) in m { o[k] = json!(x) } ov.push(o) }
        for (o, ls) in &self.lang { for (l, m) in ls {
            ov.push(match o {
                LO::Label => json!({"type": t("label"), "language": lang3(l), "attribute_labels": m, "attribute_categories": [], "category_labels": {}}),
                LO::Info => json!({"type": t("information"), "language": lang3(l), "attribute_information": m}),
            })
        } }
        for (o, m) in &self.strs {
            ov.push(match o {
                SO::Enc => json!({"type": t("character_encoding"), "attribute_character_encoding": m}),
                SO::Format => json!({"type": t("format"), "attribute_formats": m}),
                SO::Conf => json!({"type": t("conformance"), "attribute_conformance": m}),
                SO::Card => json!({"type": t("cardinality"), "attribute_cardinality": m}),
                SO::Unit => json!({"type": t("unit"), "attribute_unit": m}),
                SO::Cond => {
                    let (mut c, mut d) = (Map::new(), Map::new());
                    for (a, x) in m { let (e, deps) = condition(x); c.insert(a.clone(), json!(e)); d.insert(a.clone(), json!(deps)); }
                    json!({"type": t("conditional"), "attribute_conditions": c, "attribute_dependencies": d})
                }
            })
        }
        if !self.codes.is_empty() {
            let m: Map<String, Value> = self.codes.iter().map(|(a, c)| (a.clone(), match c {
                Codes::Ref(s) => json!(s),
                Codes::List(c) => { let mut c = c.clone(); c.sort(); json!(c) }
                Codes::Groups(g) => Value::Object(g.iter().map(|(n, c)| (n.clone(), json!(c))).collect()),
            })).collect();
            ov.push(json!({"type": t("entry_code"), "attribute_entry_codes": m}))
        }
        for (l, m) in &self.ents {
            let m: Map<String, Value> = m.iter().map(|(a, e)| (a.clone(), match e { Ents::Ref(s) => json!(s), Ents::Map(m) => Value::Object(m.iter().map(|(k, x)| (k.clone(), json!(x))).collect()) })).collect();
            ov.push(json!({"type": t("entry"), "language": lang3(l), "attribute_entries": m}))
        }
        for (tgt, m) in &self.links { ov.push(json!({"type": t("link"), "target_bundle": tgt, "attribute_mapping": m})) }
        for (meta, m) in self.framing.values() {
            let f: Map<String, Value> = m.iter().map(|(a, fs)| (a.clone(), Value::Object(fs.iter().map(|(t, (p, j))| (t.clone(), json!({"predicate_id": p, "framing_justification": j}))).collect()))).collect();
            ov.push(json!({"type": t("attribute_framing"), "framing_metadata": meta, "attribute_framing": f}))
        }
        let attrs: Map<String, Value> = self.attrs.iter().map(|(a, t)| (a.clone(), ty_json(t))).collect();
        canon(json!({"capture_base": {"type": "spec/capture_base/1.1", "attributes": attrs, "classification": self.class, "flagged_attributes": self.flags}, "overlays": sort(ov)}))
    }
}
pub fn ty_json(t: &Ty) -> Value { match t { Ty::Arr(t) => json!([ty_json(t)]), t => json!(ty_text(t)) } }
/// Overlays carry the language as the identifier the language library serializes.
pub fn lang3(l: &str) -> String { serde_json::to_value(isolang::Language::from_639_1(l).unwrap()).unwrap().as_str().unwrap().to_string() }
fn sort(mut v: Vec<Value>) -> Value { v = v.into_iter().map(canon).collect(); v.sort_by_key(|x| x.to_string()); Value::Array(v) }
/// Sorts object keys.
pub fn canon(v: Value) -> Value {
    match v {
        Value::Object(m) => { let mut e: Vec<_> = m.into_iter().map(|(k, v)| (k, canon(v))).collect(); e.sort_by(|a, b| a.0.cmp(&b.0)); Value::Object(e.into_iter().collect()) }
        Value::Array(a) => Value::Array(a.into_iter().map(canon).collect()),
        v => v,
    }
}
/// `${name}` mentions become `${i}`, numbered by first position.
pub fn condition(x: &str) -> (String, Vec<String>) {
    let (mut out, mut deps, mut rest) = (String::new(), Vec::<String>::new(), x);
    while let Some(p) = rest.find("${") {
        let Some(e) = rest[p + 2..].find('}') else { break };
        let name = &rest[p + 2..p + 2 + e];
        let i = deps.iter().position(|d| d == name).unwrap_or_else(|| { deps.push(name.into()); deps.len() - 1 });
        out.push_str(&rest[..p]); out.push_str(&format!("${{{i}}}"));
        rest = &rest[p + 3 + e..];
    }
    out.push_str(rest);
    (out, deps)
}
/// What a bundle's JSON actually holds, in the same form as `State::expected`.
pub fn observed(b: &Value) -> Result<Value, String> {
    let mut cb = b["capture_base"].clone();
    cb.as_object_mut().ok_or("no capture base")?.remove("d");
    let mut ov = vec![];
    for (k, v) in b["overlays"].as_object().ok_or("overlays is not an object")? {
        let many = v.is_array();
        for o in v.as_array().cloned().unwrap_or_else(|| vec![v.clone()]) {
            let mut o = o;
            let m = o.as_object_mut().ok_or("overlay is not an object")?;
            m.remove("d"); m.remove("capture_base");
            let ty = m.get("type").and_then(|t| t.as_str()).unwrap_or("").to_string();
            if ty != format!("spec/overlays/{k}/1.1") { return Err(format!("overlay of type {ty} listed under {k}")); }
            if many != ["meta", "entry", "label", "information", "link", "attribute_framing"].contains(&k.as_str()) { return Err(format!("{k}: wrong cardinality")); }
            ov.push(o);
        }
    }
    Ok(canon(json!({"capture_base": cb, "overlays": sort(ov)})))
}
