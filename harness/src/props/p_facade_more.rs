//! P13 (through the facade), P20, P28 and P31.
use super::*;
use crate::gen;
use crate::model;
use oca_dag_semantics::build_core_db_model;

// ---------------------------------------------------------------- P13 through the facade

fn check13(h: &Hist, o: &mut Obs) -> Res {
    let mut grown = 0;
    let w = play(Strict::P13, h, o, |w, did, n| {
        if let (Did::Accepted(said) | Did::Validated(said), Op::Extend { .. }) = (did, &h.ops[n]) {
            // the instructions of the file it started from, followed by its own
            let Some(sub) = w.subs.last().filter(|_| matches!(did, Did::Accepted(_))) else { return Ok(()) };
            let Ins::From(base) = &sub.ins[0] else { return Ok(()) };
            let mut chain: Vec<Ins> = vec![];
            let Some(start) = w.builds.iter().position(|b| util::said(&b.oca_bundle) == *base) else { return Ok(()) };
            let first = &w.subs[start];
            if matches!(first.ins[0], Ins::From(_)) || uses_names(first) || uses_names(sub) { return Ok(()) }
            chain.extend(first.ins.iter().cloned());
            chain.extend(sub.ins[1..].iter().cloned());
            let all = util::build_text(&plain_text(&chain))?;
            ensure_eq!(util::said(&all.oca_bundle), *said, "bundle of both files' instructions in one\n{}", w.log);
            grown += 1;
        }
        Ok(())
    })?;
    o.nontrivial = grown > 0 && w.accepted >= 2;
    Ok(())
}
pub fn p13(ctx: &Ctx) {
    crate::props::p_build::p13(ctx);
    ctx.campaign("through-the-facade", 6_000, 300_000, || hist(W { bad: 0, reopen: 0, again: 0, extend: 6, ..PLAIN }), only(check13));
}

// ---------------------------------------------------------------- P20

const VOCABULARY: [&str; 16] = ["alpha", "beta", "Alphabet", "GAMMA", "delta", "deltas", "omega", "mega", "2024", "x1y2", "well-known", "a.b.c", "Größe", "naïve", "snake_case", "meadow"];
const SEARCH_LANGS: [&str; 4] = ["en", "fr", "de", "pl"];
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Doc { attr: u8, metas: Vec<(u8, Option<Vec<u8>>, Option<Vec<u8>>, u8)> }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Words { words: Vec<(u8, u8, u8, u8)>, lang: Option<u8>, limit: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SearchCase { docs: Vec<Doc>, words: Vec<Words>, texts: Vec<(String, Option<u8>, u8, u8)>, reopen: bool }
const SEPARATORS: [&str; 8] = [" ", " ", " ", " - ", ", ", "...", "(", " | "];
fn phrase(w: &[u8], sep: u8) -> String { w.iter().map(|i| VOCABULARY[*i as usize % VOCABULARY.len()]).collect::<Vec<_>>().join(SEPARATORS[sep as usize % SEPARATORS.len()]) }
fn low(s: &str) -> String { s.to_lowercase() }
/// Part of a word, at least three characters long, in some mix of cases.
fn part(w: &(u8, u8, u8, u8)) -> String {
    let c: Vec<char> = VOCABULARY[w.0 as usize % VOCABULARY.len()].chars().collect();
    let (mut from, mut len) = (0, c.len());
    if w.1 % 2 == 1 && c.len() > 3 { from = w.2 as usize % (c.len() - 2); len = 3 + w.3 as usize % (c.len() - from - 2) }
    let s: String = c[from..from + len].iter().collect();
    match w.1 / 2 % 3 { 0 => s, 1 => s.to_lowercase(), _ => s.to_uppercase() }
}
fn doc_text(d: &Doc, n: usize) -> String {
    let mut t = format!("ADD ATTRIBUTE a{}=Text\n", d.attr as usize % 3 + n * 3 % 9);
    let mut seen = BTreeSet::new();
    for (l, name, desc, sep) in &d.metas {
        let lang = SEARCH_LANGS[*l as usize % SEARCH_LANGS.len()];
        if !seen.insert(lang) { continue }
        let mut p: Vec<String> = vec![];
        if let Some(w) = name { p.push(format!("name=\"{}\"", phrase(w, *sep))) }
        if let Some(w) = desc { p.push(format!("description=\"{}\"", phrase(w, sep / 8))) }
        if p.is_empty() { p.push("other=\"alpha beta\"".into()) }
        t.push_str(&format!("ADD META {lang} PROPS {}\n", p.join(" ")));
    }
    t
}
fn check20(c: &SearchCase, o: &mut Obs) -> Res {
    let mut w = World::new(Kind::Mem, c.reopen);
    // per bundle, the text of every language
    let mut rows: BTreeMap<String, Vec<(String, String)>> = BTreeMap::new();
    let mut bundles: BTreeMap<String, String> = BTreeMap::new();
    let mut log = String::new();
    for (n, d) in c.docs.iter().enumerate() {
        let t = doc_text(d, n);
        log.push_str(&t); log.push_str("# ---\n");
        let b = match guard("building", || w.fm().build_from_ocafile(t.clone()))? { Ok(b) => b, Err(e) => return fail(format!("{DIVERGED}rejected: {e:?}\n{t}")) };
        let id = util::said(&b);
        let v = util::bundle_json(&b)?;
        let s = |m: &Value, k: &str| m.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
        rows.insert(id.clone(), overlays(&v).iter().filter(|x| s(x, "type").contains("/meta/")).map(|m| (s(m, "name"), s(m, "description"))).collect());
        bundles.insert(id, util::encode(&b)?);
    }
    if c.reopen { w.open() }
    o.sample = Some(format!("{log}# queries {:?} {:?}", c.words.iter().map(|q| q.words.iter().map(part).collect::<Vec<_>>()).collect::<Vec<_>>(), c.texts));
    let lang = |l: &Option<u8>| l.map(|l| isolang::Language::from_639_1(SEARCH_LANGS[l as usize % SEARCH_LANGS.len()]).unwrap());
    for (t, l, limit, page) in &c.texts {
        let big = super::BIG;
        let (limit, page) = (if *limit % 8 == 7 { big[*page as usize / 8 % 8] } else { 1 + *limit as usize % 5 }, if *page % 8 == 7 { big[*limit as usize / 8 % 8] } else { 1 + *page as usize % 3 });
        let r = guard("searching", || w.f().search_oca_bundle(lang(l), t.clone(), limit, page)).map_err(|Fail(m)| Fail(format!("query {t:?}: {m}\n{log}")))?;
        ensure!(r.records.len() <= limit && r.metadata.page == page && r.metadata.total <= bundles.len(), "query {t:?}: {} records of {} on page {}\n{log}", r.records.len(), r.metadata.total, r.metadata.page);
        o.nontrivial |= t.chars().any(|c| !c.is_alphanumeric());
        o.class_if(!r.records.is_empty(), "text-finds-something");
    }
    for q in &c.words {
        let parts: Vec<String> = q.words.iter().map(part).collect();
        let query = parts.join(" ");
        let hits = |n: &str, d: &str| parts.iter().all(|p| low(n).contains(&low(p)) || low(d).contains(&low(p)));
        let want: BTreeSet<&String> = rows.iter().filter(|(_, r)| r.iter().any(|(n, d)| hits(n, d))).map(|(s, _)| s).collect();
        o.nontrivial |= !want.is_empty() && want.len() < bundles.len();
        o.class_if(want.len() >= 2, "several-found"); o.class_if(q.lang.is_some(), "language"); o.class_if(parts.len() > 1, "several-words");
        let limit = 1 + q.limit as usize % (bundles.len() + 1);
        let mut seen: Vec<String> = vec![];
        for page in 1..=want.len().div_ceil(limit) + 1 {
            let r = guard("searching", || w.f().search_oca_bundle(lang(&q.lang), query.clone(), limit, page)).map_err(|Fail(m)| Fail(format!("query {query:?}: {m}\n{log}")))?;
            let ctx = || format!("query {query:?} language {:?} page {page} of {limit}\n{log}", lang(&q.lang));
            ensure_eq!(r.metadata.total, want.len(), "total of {}", ctx());
            ensure_eq!(r.metadata.page, page, "page of {}", ctx());
            ensure_eq!(r.records.len(), want.len().saturating_sub((page - 1) * limit).min(limit), "number of records of {}", ctx());
            for x in &r.records {
                let id = util::said(&x.oca_bundle);
                ensure!(want.contains(&id), "{id} does not match {}", ctx());
                ensure_eq!(util::encode(&x.oca_bundle)?, bundles[&id], "found bundle of {}", ctx());
                let plain = x.metadata.phrase.replace("<mark>", "").replace("</mark>", "");
                let plain = plain.trim_start_matches("...").trim_end_matches("...");
                if q.lang.is_none() {
                    ensure!(x.metadata.phrase.contains("<mark>"), "nothing marked in {:?} of {}", x.metadata.phrase, ctx());
                    ensure!(rows[&id].iter().any(|(n, d)| hits(n, d) && (n.contains(plain) || d.contains(plain))), "phrase {:?} is no metadata matching {}", x.metadata.phrase, ctx());
                }
                ensure!(x.metadata.score.is_finite() && x.metadata.score >= 0.0, "score {} of {}", x.metadata.score, ctx());
                seen.push(id);
            }
        }
        let big = super::BIG[q.limit as usize % 8];
        for (size, page, all) in [(big, 1, true), (big, 2, false), (big, big, false), (limit, big, false)] {
            let r = guard("searching", || w.f().search_oca_bundle(lang(&q.lang), query.clone(), size, page)).map_err(|Fail(m)| Fail(format!("query {query:?} page {page} of {size}: {m}\n{log}")))?;
            ensure_eq!((r.records.len(), r.metadata.total, r.metadata.page), (if all { want.len() } else { 0 }, want.len(), page), "records, total and page of query {query:?} language {:?} page {page} of {size}\n{log}", lang(&q.lang));
        }
        let set: BTreeSet<&String> = seen.iter().collect();
        ensure!(set.len() == seen.len() && set == want, "query {query:?} {:?} finds {seen:?} instead of {want:?}\n{log}", lang(&q.lang));
    }
    for (id, e) in &bundles { match w.fetch(id, false)? { Ok((b, _)) => ensure_eq!(util::encode(&b)?, *e, "bundle after searching"), Err(e) => return fail(format!("{e:?}")) } }
    Ok(())
}
fn doc() -> BoxedStrategy<Doc> {
    let words = || proptest::option::weighted(0.8, vec(any::<u8>(), 0..5));
    (0u8..9, vec((0u8..4, words(), words(), any::<u8>()), 0..4)).prop_map(|(attr, metas)| Doc { attr, metas }).boxed()
}
fn query_text() -> BoxedStrategy<String> {
    let token = proptest::sample::select(vec!["alpha", "beta", "name:", "language_code:eng", "oca_bundle_said", "\"", "'", "(", ")", "*", "^", "-", "+", "AND", "OR", "NOT", "NEAR", "NEAR(a b, 2)", "{name}", "{", "}", ":", ",", ".", "\\", "%", "_", ";", "--", "<mark>", "\0", "", "ab", "é", "日本語", "\u{1F600}", "\n", "\t"]);
    prop_oneof![
        4 => vec((token, any::<bool>()), 0..6).prop_map(|v| v.into_iter().map(|(t, s)| format!("{t}{}", if s { " " } else { "" })).collect()),
        2 => any::<String>(),
        1 => gen::text(gen::FULL),
        1 => Just(String::new()),
    ].boxed()
}
fn search_case() -> BoxedStrategy<SearchCase> {
    let words = || (vec(any::<(u8, u8, u8, u8)>(), 1..4), proptest::option::of(0u8..4), any::<u8>()).prop_map(|(words, lang, limit)| Words { words, lang, limit });
    (vec(doc(), 1..7), vec(words(), 1..6), vec((query_text(), proptest::option::of(0u8..4), any::<u8>(), any::<u8>()), 0..3), prop_oneof![6 => Just(false), 1 => Just(true)])
        .prop_map(|(docs, words, texts, reopen)| SearchCase { docs, words, texts, reopen }).boxed()
}
fn wild_case() -> BoxedStrategy<SearchCase> {
    (vec((vec(raw_meta(), 1..3), 0u8..9), 1..4), vec((query_text(), proptest::option::of(0u8..4), any::<u8>(), any::<u8>()), 1..6)).prop_map(|(d, texts)| SearchCase {
        docs: d.into_iter().map(|(metas, attr)| Doc { attr, metas }).collect(), words: vec![Words { words: vec![(0, 0, 0, 0)], lang: None, limit: 9 }], texts, reopen: false,
    }).boxed()
}
fn raw_meta() -> BoxedStrategy<(u8, Option<Vec<u8>>, Option<Vec<u8>>, u8)> { (0u8..4, proptest::option::weighted(0.8, vec(any::<u8>(), 0..5)), proptest::option::weighted(0.8, vec(any::<u8>(), 0..30)), any::<u8>()).boxed() }
/// Metadata of any characters: found by its own text, and never in the way.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OwnText { names: Vec<(String, String)>, at: Vec<u16> }
fn check20_own(c: &OwnText, o: &mut Obs) -> Res {
    let mut w = World::new(Kind::Mem, false);
    let mut ids: Vec<(String, String, String)> = vec![];
    let mut log = String::new();
    for (n, (name, desc)) in c.names.iter().enumerate() {
        let t = plain_text(&[Ins::Attrs(vec![(format!("a{n}"), Ty::Text)]), Ins::Meta("en".into(), vec![("name".into(), name.clone()), ("description".into(), desc.clone())])]);
        log.push_str(&t);
        let b = match guard("building", || w.fm().build_from_ocafile(t.clone()))? { Ok(b) => b, Err(e) => return fail(format!("{DIVERGED}rejected: {e:?}\n{t}")) };
        ids.push((util::said(&b), name.clone(), desc.clone()));
    }
    o.sample = Some(log.clone());
    for a in &c.at {
        let (_, name, desc) = &ids[*a as usize % ids.len()];
        let words: Vec<&str> = name.split(|c: char| !c.is_ascii_alphanumeric()).chain(desc.split(|c: char| !c.is_ascii_alphanumeric())).filter(|w| w.len() >= 3 && !["AND", "OR", "NOT", "NEAR"].contains(w)).collect();
        if words.is_empty() { continue }
        let q = words[*a as usize / 7 % words.len()];
        let want: BTreeSet<&String> = ids.iter().filter(|(_, n, d)| n.to_ascii_lowercase().contains(&q.to_ascii_lowercase()) || d.to_ascii_lowercase().contains(&q.to_ascii_lowercase())).map(|x| &x.0).collect();
        o.nontrivial |= want.len() < ids.len() || name.chars().chain(desc.chars()).any(|c| "()[]{}*+?\\^$.|:".contains(c));
        let r = guard("searching", || w.f().search_oca_bundle(None, q.to_string(), 100, 1)).map_err(|Fail(m)| Fail(format!("query {q:?}: {m}\n{log}")))?;
        let got: Vec<String> = r.records.iter().map(|x| util::said(&x.oca_bundle)).collect();
        let set: BTreeSet<&String> = got.iter().collect();
        // characters outside ASCII may fold to an ASCII letter for the index: those bundles may be found too
        for s in &want { ensure!(set.contains(s), "query {q:?} does not find {s}\n{log}"); }
        for s in &set { let x = ids.iter().find(|x| &&x.0 == s); ensure!(want.contains(*s) || x.is_some_and(|x| !x.1.is_ascii() || !x.2.is_ascii()), "query {q:?} finds {s}\n{log}"); }
        ensure_eq!(r.metadata.total, got.len(), "total\n{log}");
    }
    Ok(())
}
pub fn p20(ctx: &Ctx) {
    ctx.campaign("many", 150, 8_000, || (gen::size(200).prop_flat_map(|n| vec(doc(), n as usize)), search_case()).prop_map(|(docs, mut c)| { c.docs.extend(docs); c }).boxed(), check20);
    ctx.campaign("words", 6_000, 300_000, search_case, check20);
    ctx.campaign("queries", 6_000, 300_000, wild_case, check20);
    ctx.campaign("own-text", 5_000, 250_000, || (vec((gen::text(gen::FULL), gen::text(gen::FULL)), 1..5), vec(any::<u16>(), 1..6)).prop_map(|(names, at)| OwnText { names, at }).boxed(), |c: &OwnText, o: &mut Obs| match check20_own(c, o) { Err(Fail(m)) if m.starts_with(DIVERGED) => { o.class("left to another property"); Ok(()) } r => r });
}

// ---------------------------------------------------------------- P28

#[derive(Clone, Debug, PartialEq)]
struct Version { digest: String, json: String, said: String, parent: Option<String>, cb: String, ovs: Vec<String>, cb_record: Option<(String, Option<String>)>, ov_record: Option<(String, Option<String>)> }
fn digest_of(c: &ast::Command) -> (String, String) {
    let j = serde_json::to_string(c).unwrap();
    (said::derivation::HashFunction::from(said::derivation::HashFunctionCode::Blake3_256).derive(j.as_bytes()).to_string(), j)
}
/// What an overlay is one of its kind for.
fn overlay_key(v: &Value) -> String {
    let s = |x: &Value| x.as_str().unwrap_or("").to_string();
    format!("{} {} {} {}", s(&v["type"]), s(&v["language"]), s(&v["target_bundle"]), s(&v["framing_metadata"]["frame_id"]))
}
fn command_key(c: &ast::Command) -> Option<String> {
    let ObjectKind::Overlay(t, content) = &c.object_kind else { return None };
    let p = content.properties.clone().unwrap_or_default();
    let text = |k: &str| match p.get(k) { Some(ast::NestedValue::Value(v)) => v.clone(), Some(ast::NestedValue::Reference(ast::RefValue::Said(s))) => s.to_string(), _ => String::new() };
    let (mut l, mut tgt, mut fr) = (String::new(), String::new(), String::new());
    match t {
        ast::OverlayType::Meta(_) | ast::OverlayType::Label(_) | ast::OverlayType::Information(_) | ast::OverlayType::Entry(_) => l = model::lang3(&text("lang")),
        ast::OverlayType::Link(_) => tgt = text("target"),
        ast::OverlayType::AttributeFraming(_) => fr = text("id"),
        _ => {}
    }
    Some(format!("{} {l} {tgt} {fr}", serde_json::to_value(t).unwrap().as_str().unwrap()))
}
/// The version graph of a build, and whether the starting bundle's own records may be named as parents.
fn graph(b: &OCABuild) -> Result<Vec<Version>, Fail> {
    let mut cb_last: Option<String> = None;
    let mut ov_last: BTreeMap<String, String> = BTreeMap::new();
    let mut out = vec![];
    for s in &b.steps {
        let v = util::bundle_json(&s.result)?;
        let cb = v["capture_base"]["d"].as_str().unwrap().to_string();
        let all = overlays(&v);
        let (digest, json) = digest_of(&s.command);
        let mut n = Version { digest, json, said: util::said(&s.result), parent: s.parent_said.as_ref().map(|s| s.to_string()), cb: cb.clone(), ovs: all.iter().map(|o| o["d"].as_str().unwrap().to_string()).collect(), cb_record: None, ov_record: None };
        n.ovs.sort();
        if let ObjectKind::CaptureBase(_) = s.command.object_kind { n.cb_record = Some((cb.clone(), cb_last.replace(cb))) }
        if let Some(k) = command_key(&s.command) {
            if let Some(o) = all.iter().find(|o| overlay_key(o) == k) { let id = o["d"].as_str().unwrap().to_string(); n.ov_record = Some((id.clone(), ov_last.insert(k, id))) }
        }
        out.push(n);
    }
    Ok(out)
}
/// Parents a starting bundle offers for the first records after it (see K28A).
fn base_parents(base: &OCABundle) -> Result<BTreeMap<String, String>, Fail> {
    let v = util::bundle_json(base)?;
    let mut m: BTreeMap<String, String> = overlays(&v).iter().map(|o| (overlay_key(o), o["d"].as_str().unwrap().to_string())).collect();
    m.insert("capture base".into(), v["capture_base"]["d"].as_str().unwrap().into());
    Ok(m)
}
fn parent_ok(got: &Option<String>, want: &Option<String>, from_base: Option<&String>) -> bool { got == want || want.is_none() && from_base.is_some() && got.as_ref() == from_base }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct GraphCase { prog: Vec<Ins>, cut: Option<u16> }
fn check28(c: &GraphCase, o: &mut Obs) -> Res {
    let text = plain_text(&c.prog);
    o.sample = Some(format!("{text}# cut {:?}", c.cut));
    let ast = ast_of(&c.prog);
    let mut base = None;
    let mut rest = ast.clone();
    if let Some(cut) = c.cut {
        let cut = 1 + cut as usize % ast.commands.len().max(2).saturating_sub(1);
        if cut < ast.commands.len() {
            let mut first = ast.clone();
            first.commands.truncate(cut);
            rest.commands.drain(..cut);
            base = Some(util::build_ok(None, &first)?.oca_bundle);
        }
    }
    let b = util::build_ok(base.clone(), &rest)?;
    let offered = base.as_ref().map(base_parents).transpose()?.unwrap_or_default();
    let want = graph(&b)?;
    let got = guard("recording the versions", || build_core_db_model(&b))?;
    ensure_eq!(got.len(), want.len(), "number of records\n{text}");
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        let at = format!("step {} of\n{text}# cut {:?}", i + 1, c.cut);
        let Some(cm) = &g.command else { return fail(format!("no instruction recorded for {at}")) };
        ensure_eq!((cm.digest.to_string(), &cm.json), (w.digest.clone(), &w.json), "instruction of {at}");
        let Some(bm) = &g.oca_bundle else { return fail(format!("no bundle recorded for {at}")) };
        let mut ovs: Vec<String> = bm.overlays_said.iter().map(|s| s.to_string()).collect(); ovs.sort();
        ensure_eq!((bm.oca_bundle_said.to_string(), bm.parent.as_ref().map(|s| s.to_string()), bm.capture_base_said.to_string(), ovs), (w.said.clone(), w.parent.clone(), w.cb.clone(), w.ovs.clone()), "bundle of {at}");
        match (&g.capture_base, &w.cb_record) {
            (None, None) => {}
            (Some(x), Some((s, p))) => { ensure_eq!((x.capture_base_said.to_string(), x.command_digest.to_string()), (s.clone(), w.digest.clone()), "capture base of {at}"); let got = x.parent.as_ref().map(|s| s.to_string()); ensure!(parent_ok(&got, p, offered.get("capture base")), "the capture base of {at} replaces {got:?} instead of {p:?}") }
            (x, y) => return fail(format!("capture base record {x:?} instead of {y:?} at {at}")),
        }
        match (&g.overlay, &w.ov_record) {
            (None, None) => {}
            (Some(x), Some((s, p))) => {
                ensure_eq!((x.overlay_said.to_string(), x.command_digest.to_string()), (s.clone(), w.digest.clone()), "overlay of {at}");
                let got = x.parent.as_ref().map(|s| s.to_string());
                let k = command_key(&b.steps[i].command).unwrap();
                ensure!(parent_ok(&got, p, offered.get(&k)), "the overlay of {at} replaces {got:?} instead of {p:?}");
                o.class_if(p.is_some(), "replaced-overlay");
            }
            (x, y) => return fail(format!("overlay record {x:?} instead of {y:?} at {at}")),
        }
    }
    let kinds: BTreeSet<String> = b.steps.iter().map(|s| match &s.command.object_kind { ObjectKind::Overlay(t, _) => t.to_string(), _ => "cb".into() }).collect();
    o.nontrivial = b.steps.len() >= 4 && kinds.len() >= 2;
    o.class_if(base.is_some(), "from-a-bundle");
    Ok(())
}
/// The length-prefixed texts of a stored record.
fn texts(mut v: &[u8]) -> Result<Vec<String>, Fail> {
    let mut out = vec![];
    while let Some((n, rest)) = v.split_first() {
        if rest.len() < *n as usize { return fail(format!("record cut short after {out:?}")) }
        out.push(String::from_utf8(rest[..*n as usize].to_vec()).map_err(|e| Fail(e.to_string()))?);
        v = &rest[*n as usize..];
    }
    Ok(out)
}
fn check28_stored(h: &Hist, o: &mut Obs) -> Res {
    let w = play(Strict::No, h, o, |_, _, _| Ok(()))?;
    let mut commands: BTreeMap<String, String> = BTreeMap::new();
    // every way a version was derived: parent, and what it is made of or which instruction made it
    type Ways = BTreeMap<String, BTreeSet<Vec<String>>>;
    let (mut bundles, mut parts): (Ways, Ways) = Default::default();
    for b in &w.builds {
        let offered = match b.steps.first().and_then(|s| s.parent_said.as_ref()).and_then(|p| w.known.get(&p.to_string())) { Some(k) => base_parents(&k.bundle)?, None => BTreeMap::new() };
        for (v, s) in graph(b)?.into_iter().zip(&b.steps) {
            commands.insert(v.digest.clone(), v.json);
            let mut made = vec![v.parent.clone().unwrap_or_default(), v.cb.clone()]; made.extend(v.ovs);
            bundles.entry(v.said).or_default().insert(made);
            let mut part = |r: Option<(String, Option<String>)>, k: Option<String>| if let Some((id, p)) = r {
                let e = parts.entry(id).or_default();
                if p.is_none() { if let Some(q) = k.and_then(|k| offered.get(&k).cloned()) { e.insert(vec![q, v.digest.clone()]); } }
                e.insert(vec![p.unwrap_or_default(), v.digest.clone()]);
            };
            part(v.cb_record, Some("capture base".into()));
            part(v.ov_record, command_key(&s.command));
        }
    }
    let stored: BTreeMap<String, Vec<u8>> = w.mems.0.dump().into_iter().filter(|((n, _), _)| n == "core_model").map(|((_, k), v)| (k, v)).collect();
    let key = |s: &String| format!("core_model.{s}");
    for (d, j) in &commands { ensure_eq!(stored.get(&key(d)).map(|v| String::from_utf8_lossy(v).to_string()), Some(j.clone()), "stored instruction {d}\n{}", w.log); }
    let mut parents: BTreeMap<String, String> = BTreeMap::new();
    for (what, ways) in [("bundle", &bundles), ("part", &parts)] {
        for (id, ways) in ways {
            let Some(r) = stored.get(&key(id)) else { return fail(format!("no version record of {what} {id}\n{}", w.log)) };
            let mut t = texts(r)?;
            if what == "bundle" && t.len() > 2 { t[2..].sort() }
            ensure!(ways.contains(&t), "version record of {what} {id} is {t:?} instead of one of {ways:?}\n{}", w.log);
            parents.insert(id.clone(), t[0].clone());
        }
    }
    for k in stored.keys() { let id = k.trim_start_matches("core_model."); ensure!(commands.contains_key(id) || bundles.contains_key(id) || parts.contains_key(id), "unexpected version record {k}\n{}", w.log); }
    for id in parents.keys() {
        let (mut at, mut n) = (id, 0);
        while let Some(p) = parents.get(at) { if p.is_empty() { break } at = p; n += 1; ensure!(n <= parents.len(), "the versions before {id} go in circles\n{}", w.log); }
        ensure!(parents.get(at).is_some_and(|p| p.is_empty()) || parts.contains_key(id), "the versions before {id} end in {at}\n{}", w.log);
    }
    o.nontrivial = bundles.len() >= 4 && parts.len() >= 2;
    o.class_if(bundles.values().any(|w| w.len() > 1), "version-reached-twice");
    Ok(())
}
pub fn p28(ctx: &Ctx) {
    ctx.probe("K28A", "ADD ATTRIBUTE a=Text | FROM it: ADD ATTRIBUTE b=Text", || {
        let base = util::build_text("ADD ATTRIBUTE a=Text\n")?.oca_bundle;
        let b = util::build_ok(Some(base.clone()), &util::parse_ok("ADD ATTRIBUTE b=Text\n")?)?;
        let m = guard("recording the versions", || build_core_db_model(&b))?;
        let p = m[0].capture_base.as_ref().and_then(|c| c.parent.as_ref()).map(|s| s.to_string());
        ensure_eq!(p, base.capture_base.said.as_ref().map(|s| s.to_string()), "capture base replaced by the first step after FROM");
        Ok(())
    });
    ctx.campaign("sizes", 1_500, 60_000, || (gen::big(100), proptest::option::of(any::<u16>())).prop_map(|(b, cut)| GraphCase { prog: b.program(), cut }).boxed(), check28);
    ctx.campaign("graphs", 12_000, 600_000, || (program(FULL), proptest::option::of(any::<u16>())).prop_map(|(prog, cut)| GraphCase { prog, cut }).boxed(), check28);
    ctx.campaign("stored", 8_000, 400_000, || hist(W { small: true, extend: 8, len: 9, reopen: 0, validate: false, ..PLAIN }), only(check28_stored));
    ctx.campaign("stored-full", 3_000, 100_000, || hist(W { reopen: 0, ..PLAIN }), only(check28_stored));
}

// ---------------------------------------------------------------- P31

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CrashCase { h: Hist, last: Op, at: u16, twice: Option<u16> }
fn dumps(w: &World) -> Result<BTreeMap<String, String>, Fail> {
    let mut m = BTreeMap::new();
    for (n, d) in [("db", w.mems.0.dump()), ("cache", w.mems.1.dump())] {
        for ((ns, k), v) in d {
            let relations = ns == "oca_relations" && !k.ends_with(".metadata");
            // the order of relations and of the overlays of a version carries no meaning
            let v = if ns == "core_model" && v.first().is_some_and(|n| *n == 0 || *n == 44) { let mut t = texts(&v)?; if t.len() > 2 { t[2..].sort() } t.join("|") } else if relations { let mut parts = vec![]; let mut v = &v[..]; while v.len() >= 2 { let n = 2 + v[1] as usize; if v.len() < n { return fail(format!("relations of {k} cut short")) } parts.push(String::from_utf8_lossy(&v[..n]).to_string()); v = &v[n..]; } parts.sort(); parts.join("|") } else { String::from_utf8_lossy(&v).to_string() };
            m.insert(format!("{n} {ns} {k}"), v);
        }
    }
    Ok(m)
}
/// Whatever is there can be used.
fn usable(w: &World, log: &str) -> Res {
    for s in &w.order { w.same_as_known(s)?; check_history(w, s)?; }
    for s in &w.built { for id in std::iter::once(w.cb(s)).chain(w.ovs(s)) { let r = guard("fetching an object", || w.f().get_oca_objects(vec![id.clone()]))?; ensure!(r.is_ok(), "object {id} of an earlier bundle cannot be fetched: {r:?}\n{log}"); } }
    let listed = w.listed()?;
    for s in &w.built { ensure!(listed.contains(s), "{s} is no longer listed\n{log}"); }
    for s in &listed {
        match w.fetch(s, false)? { Err(e) => return fail(format!("{s} is listed but cannot be fetched: {e:?}\n{log}")), Ok((b, _)) => { ensure_eq!(util::said(&b), *s, "listed bundle\n{log}"); } }
        match guard("reading the history", || w.f().get_oca_bundle_steps(sai(s)))? { Ok(h) => ensure_eq!(h.last().map(|x| util::said(&x.result)), Some(s.clone()), "end of the history of a listed bundle\n{log}"), Err(e) => return fail(format!("{s} is listed but has no history: {e:?}\n{log}")) }
        let Some(r) = rel(w, s)? else { return fail(format!("{s} is listed but not related to anything\n{log}")) };
        for id in r.keys().filter(|k| !k.is_empty()) { let x = guard("fetching an object", || w.f().get_oca_objects(vec![id.clone()]))?; ensure!(x.is_ok(), "{id}, related to the listed {s}, cannot be fetched: {x:?}\n{log}"); rel(w, id)?; }
    }
    for c in w.listed_cb()? { let x = guard("fetching an object", || w.f().get_oca_objects(vec![c.clone()]))?; ensure!(x.is_ok(), "capture base {c} is listed but cannot be fetched: {x:?}\n{log}"); }
    for q in ["Some", "alpha", "name", "the"] { guard("searching", || w.f().search_oca_bundle(None, q.into(), 100, 1)).map_err(|Fail(m)| Fail(format!("{m}\n{log}")))?; }
    Ok(())
}
/// A file that refers to the bundle that had its name before means another one when it is submitted again.
fn renames_itself(w: &World, p: &Plan) -> bool {
    p.sub.as_ref().is_some_and(|sub| sub.name.as_ref().is_some_and(|n| w.names.contains_key(n) && serde_json::to_string(&sub.ins).unwrap().contains(&format!("{{\"Name\":{}}}", serde_json::to_string(n).unwrap()))))
}
fn check31(c: &CrashCase, o: &mut Obs) -> Res {
    let world = || -> Result<World, Fail> {
        let mut w = World::new(Kind::Mem, true);
        w.strict = Strict::No;
        for op in &c.h.ops { w.run(op)?; }
        Ok(w)
    };
    let (mut a, mut b) = (world()?, world()?);
    let Some(p) = a.plan(&c.last)? else { return Ok(()) };
    if !matches!(p.expect, Expect::Accept { .. }) || p.only_validate { return Ok(()) }
    if renames_itself(&a, &p) { return Ok(()) }
    // uninterrupted
    watch_search();
    a.mems.0.plan_crash(None);
    match a.submit(&p)? { Ok(_) => {} Err(e) => return fail(format!("{DIVERGED}rejected: {e}")) }
    let writes = a.mems.0.writes();
    a.mems.0.unplan();
    let log = format!("{}# --- interrupted\n{}", b.log, p.text);
    let mut cuts = vec![c.at];
    cuts.extend(c.twice);
    for at in cuts {
        let at = at as u64 % (writes + 1);
        b.mems.0.plan_crash(Some(at));
        let r = b.submit(&p);
        let ended = b.mems.0.clock().dead;
        let kv = matches!(&r, Err(Fail(m)) if m.contains("planned end of the process"));
        // the search database goes on refusing, which is the end as far as it is concerned
        let crashed = match r { _ if ended => true, Err(Fail(m)) => return fail(m), Ok(Ok(_)) => false, Ok(Err(e)) => return fail(format!("{DIVERGED}rejected: {e}")) };
        b.mems.0.unplan();
        o.class_if(crashed && kv, "interrupted");
        o.class_if(crashed && !kv, "interrupted-in-search-database");
        o.nontrivial |= crashed && at > 0;
        b.open();
        usable(&b, &format!("{log}# interrupted before write {at} of {writes}\n"))?;
    }
    let log = format!("{log}# interrupted before write {} of {writes}\n", c.at as u64 % (writes + 1));
    o.sample = Some(log.clone());
    match b.submit(&p)? { Ok(x) => { let Expect::Accept { build, .. } = &p.expect else { unreachable!() }; ensure_eq!(util::encode(&x)?, util::encode(&build.oca_bundle)?, "bundle of the resubmitted file\n{log}") } Err(e) => return fail(format!("the file is rejected when submitted again: {e}\n{log}")) }
    let (da, db) = (dumps(&a)?, dumps(&b)?);
    for (k, v) in &da { ensure_eq!(db.get(k), Some(v), "{k} after an interruption and resubmission\n{log}"); }
    ensure_eq!(db.len(), da.len(), "number of records after an interruption and resubmission\n{log}");
    ensure_eq!((b.listed()?, b.listed_cb()?, b.refs()?), (a.listed()?, a.listed_cb()?, a.refs()?), "listings after an interruption and resubmission\n{log}");
    let _ = b.record(p);
    usable(&b, &log)?;
    Ok(())
}
pub fn p31(ctx: &Ctx) {
    let case = |small: bool| {
        let w = W { small, bad: 0, reopen: 0, again: 0, validate: false, len: 4, ..PLAIN };
        (hist(w), op(W { again: 1, ..w }), any::<u16>(), proptest::option::weighted(0.2, any::<u16>())).prop_map(|(h, last, at, twice)| CrashCase { h, last, at, twice }).boxed()
    };
    let run = |c: &CrashCase, o: &mut Obs| match check31(c, o) { Err(Fail(m)) if m.starts_with(DIVERGED) => { o.class("left to another property"); o.nontrivial = false; Ok(()) } r => r };
    ctx.campaign("small", 4_000, 150_000, || case(true), run);
    ctx.campaign("full", 2_000, 80_000, || case(false), run);
    ctx.campaign("sizes", 600, 25_000, || (sizes_with_last(200), any::<u16>(), proptest::option::weighted(0.2, any::<u16>())).prop_map(|((h, last), at, twice)| CrashCase { h, last, at, twice }).boxed(), run);
}
/// A history of large files and one more.
fn sizes_with_last(max: u16) -> BoxedStrategy<(Hist, Op)> {
    (sizes_with_refs(max), any::<bool>()).prop_map(|(mut h, again)| { let last = if h.ops.len() > 2 || !again { h.ops.pop().unwrap() } else { Op::Again(0) }; (h, last) }).boxed()
}

// ---------------------------------------------------------------- P33

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FaultCase { h: Hist, last: Op, at: u16, len: u8, reads: u16 }
fn check33(c: &FaultCase, o: &mut Obs) -> Res {
    let world = || -> Result<World, Fail> {
        let mut w = World::new(Kind::Mem, true);
        w.strict = Strict::No;
        for op in &c.h.ops { w.run(op)?; }
        Ok(w)
    };
    let (mut a, mut b) = (world()?, world()?);
    let Some(p) = a.plan(&c.last)? else { return Ok(()) };
    if !matches!(p.expect, Expect::Accept { .. }) || p.only_validate { return Ok(()) }
    if renames_itself(&a, &p) { return Ok(()) }
    watch_search();
    a.mems.0.plan_fault(u64::MAX, 0);
    match a.submit(&p)? { Ok(_) => {} Err(e) => return fail(format!("{DIVERGED}rejected: {e}")) }
    let asked = a.mems.0.clock().asked;
    a.mems.0.unplan();
    let at = c.at as u64 % asked.max(1);
    let len = if c.len == 0 { u64::MAX } else { c.len as u64 };
    let log = format!("{}# --- with the stores failing from access {at} of {asked}, {} times\n{}", b.log, if len == u64::MAX { "all".into() } else { len.to_string() }, p.text);
    o.sample = Some(log.clone());
    b.mems.0.plan_fault(at, len);
    let r = b.submit(&p);
    let faults = b.mems.0.clock().faults;
    b.mems.0.unplan();
    o.nontrivial = faults > 0;
    let stored = |b: &World, when: &str| -> Res {
        let (da, db) = (dumps(&a)?, dumps(b)?);
        for (k, v) in &da { ensure_eq!(db.get(k), Some(v), "{k} {when}\n{log}"); }
        ensure_eq!(db.len(), da.len(), "number of records {when}\n{log}");
        ensure_eq!((b.listed()?, b.listed_cb()?, b.refs()?), (a.listed()?, a.listed_cb()?, a.refs()?), "listings {when}\n{log}");
        for q in ["Some", "alpha", "name", "the", "ent"] { let f = |w: &World| guard("searching", || { let r = w.f().search_oca_bundle(None, q.into(), 1000, 1); let mut v: Vec<String> = r.records.iter().map(|r| util::said(&r.oca_bundle)).collect(); v.sort(); (v, r.metadata.total) }); ensure_eq!(f(b)?, f(&a)?, "what a search for {q:?} finds {when}\n{log}"); }
        Ok(())
    };
    let success = matches!(r, Ok(Ok(_)));
    o.class_if(faults > 0 && success, "fault-without-effect");
    match r {
        Ok(Ok(_)) => stored(&b, "after a build that reported success")?,
        Ok(Err(e)) => { ensure!(faults > 0, "{DIVERGED}rejected: {e}"); ensure!(!e.is_empty(), "a failed build names no error\n{log}"); o.class("reported"); }
        Err(Fail(m)) => { if faults == 0 { return fail(format!("{DIVERGED}{m}")) } return fail(format!("a build does not report that the store failed: {m}\n{log}")) }
    }
    b.open();
    usable(&b, &log)?;
    match b.submit(&p)? { Ok(x) => { let Expect::Accept { build, .. } = &p.expect else { unreachable!() }; ensure_eq!(util::encode(&x)?, util::encode(&build.oca_bundle)?, "bundle of the resubmitted file\n{log}") } Err(e) => return fail(format!("the file is rejected when submitted again: {e}\n{log}")) }
    stored(&b, "after a fault and resubmission")?;
    let said = b.record(p);
    usable(&b, &log)?;
    // reading while the store fails: the right answer or none
    let ids: Vec<String> = std::iter::once(b.cb(&said)).chain(b.ovs(&said)).collect();
    type Read<'a> = (&'a str, Box<dyn Fn() -> Option<String> + 'a>);
    let w = &b;
    let reads: Vec<Read> = vec![
        ("a bundle", Box::new(|| w.f().get_oca_bundle(sai(&said), true).ok().map(|x| format!("{} {:?}", util::said(&x.bundle), x.dependencies.iter().map(util::said).collect::<Vec<_>>())))),
        ("the history", Box::new(|| w.f().get_oca_bundle_steps(sai(&said)).ok().map(|h| format!("{:?}", h.iter().map(|s| util::said(&s.result)).collect::<Vec<_>>())))),
        ("the OCAfile", Box::new(|| w.f().get_oca_bundle_ocafile(sai(&said), true).ok())),
        ("objects", Box::new(|| w.f().get_oca_objects(ids.clone()).ok().map(|v| serde_json::to_string(&v).unwrap()))),
        ("names", Box::new(|| w.f().fetch_all_refs().ok().map(|m| format!("{:?}", m.into_iter().collect::<BTreeMap<_, _>>())))),
    ];
    for (what, read) in &reads {
        w.mems.0.plan_fault(u64::MAX, 0);
        let want = guard(what, read)?;
        let asked = w.mems.0.clock().asked;
        w.mems.0.plan_fault(c.reads as u64 % asked.max(1), len);
        let got = guard(&format!("reading {what} while the store fails"), read);
        w.mems.0.unplan();
        let got = got.map_err(|Fail(m)| Fail(format!("{m}\n{log}")))?;
        ensure!(got.is_none() || got == want, "{what} read while the store fails: {got:?} instead of {want:?} or an error\n{log}");
    }
    Ok(())
}
pub fn p33(ctx: &Ctx) {
    let case = |small: bool| {
        let w = W { small, bad: 0, reopen: 0, again: 0, validate: false, len: 4, ..PLAIN };
        (hist(w), op(W { again: 1, ..w }), any::<u16>(), prop_oneof![3 => Just(1u8), 1 => 2u8..6, 1 => Just(0u8)], any::<u16>()).prop_map(|(h, last, at, len, reads)| FaultCase { h, last, at, len, reads }).boxed()
    };
    let run = |c: &FaultCase, o: &mut Obs| match check33(c, o) { Err(Fail(m)) if m.starts_with(DIVERGED) => { o.class("left to another property"); o.nontrivial = false; Ok(()) } r => r };
    ctx.campaign("small", 3_000, 120_000, || case(true), run);
    ctx.campaign("full", 1_500, 60_000, || case(false), run);
    ctx.campaign("sizes", 600, 25_000, || (sizes_with_last(200), any::<u16>(), prop_oneof![3 => Just(1u8), 1 => 2u8..6, 1 => Just(0u8)], any::<u16>()).prop_map(|((h, last), at, len, reads)| FaultCase { h, last, at, len, reads }).boxed(), run);
}

// ---------------------------------------------------------------- P36

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Damage { which: u16, how: u8, at: u16, byte: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DamageCase { h: Hist, damage: Vec<Damage>, last: Op }
/// What is asked of a facade: the answer, or none where it reports an error (or that there is nothing).
type Question<'a> = (String, Box<dyn Fn(&World) -> Option<String> + 'a>);
fn questions(w: &World) -> Vec<Question<'static>> {
    let mut q: Vec<Question> = vec![];
    let show = |v: Vec<String>| v.join("|");
    for s in w.order.iter().rev().take(4) {
        let sort = |mut v: Vec<String>| { v.sort(); v };
        let s = s.clone();
        let c = s.clone(); q.push((format!("bundle {s}"), Box::new(move |w| w.f().get_oca_bundle(sai(&c), false).ok().map(|x| util::encode(&x.bundle).unwrap()))));
        let c = s.clone(); q.push((format!("bundle and dependencies of {s}"), Box::new(move |w| w.f().get_oca_bundle(sai(&c), true).ok().map(|x| show(std::iter::once(&x.bundle).chain(&x.dependencies).map(|b| util::encode(b).unwrap()).collect())))));
        let c = s.clone(); q.push((format!("history of {s}"), Box::new(move |w| w.f().get_oca_bundle_steps(sai(&c)).ok().map(|h| show(h.iter().map(|x| format!("{:?} {:?} {}", x.parent_said, x.command, util::encode(&x.result).unwrap())).collect())))));
        let c = s.clone(); q.push((format!("OCAfile of {s}"), Box::new(move |w| w.f().get_oca_bundle_ocafile(sai(&c), false).ok())));
        let c = s.clone(); q.push((format!("dereferenced OCAfile of {s}"), Box::new(move |w| w.f().get_oca_bundle_ocafile(sai(&c), true).ok())));
        let c = s.clone(); q.push((format!("instructions of {s}"), Box::new(move |w| w.f().get_oca_bundle_ast(sai(&c)).ok().map(|a| format!("{:?}", a.commands)))));
        let ids: Vec<String> = std::iter::once(s.clone()).chain([w.cb(&s)]).chain(w.ovs(&s).into_iter().take(3)).collect();
        for id in ids.clone() { q.push((format!("relations of {id}"), Box::new(move |w| w.f().explore(id.clone()).map(|r| show(std::iter::once(format!("{:?}", r.base_object)).chain(sort(r.relations.iter().map(|x| format!("{x:?}")).collect())).collect()))))); }
        for id in ids.iter().skip(1).cloned() { q.push((format!("object {id}"), Box::new(move |w| w.f().get_oca_objects(vec![id.clone()]).ok().map(|v| serde_json::to_string(&v).unwrap())))); }
        q.push((format!("objects of {s}"), Box::new(move |w| w.f().get_oca_objects(ids[1..].to_vec()).ok().map(|v| serde_json::to_string(&v).unwrap()))));
    }
    q.push(("names".into(), Box::new(|w| w.f().fetch_all_refs().ok().map(|m| format!("{:?}", m.into_iter().collect::<BTreeMap<_, _>>())))));
    q.push(("listed bundles".into(), Box::new(move |w| w.f().fetch_all_oca_bundle(1000, 1).ok().map(|r| show(r.records.iter().map(|b| util::encode(b).unwrap()).collect())))));
    q.push(("listed capture bases".into(), Box::new(move |w| w.f().fetch_all_capture_base(1000, 1).ok().map(|r| serde_json::to_string(&r).unwrap()))));
    q
}
type At = (String, String);
/// Whether a record says something in the form of its kind (not whether that is true).
fn readable((ns, key): &At, value: Option<&[u8]>) -> bool {
    let Some(v) = value else { return false };
    let json = |v: &[u8]| serde_json::from_slice::<serde_json::Value>(v).is_ok();
    match ns.as_str() {
        "oca" => v.first().is_some_and(|n| v.len() > *n as usize && std::str::from_utf8(&v[1..1 + *n as usize]).is_ok() && json(&v[1 + *n as usize..])),
        "oca_bundles_json" | "oca_objects_json" => json(v),
        "oca_relations" if key.ends_with(".metadata") => v.first().is_some_and(|k| *k <= 22),
        "oca_relations" => { let mut v = v; loop { match v { [] => return true, [k, n, rest @ ..] if *k <= 22 && rest.len() >= *n as usize && std::str::from_utf8(&rest[..*n as usize]).is_ok() => v = &rest[*n as usize..], _ => return false } } }
        "oca_refs" => std::str::from_utf8(v).is_ok(),
        _ => true,
    }
}
fn check36(c: &DamageCase, o: &mut Obs) -> Res {
    let mut w = World::new(Kind::Mem, false);
    w.strict = Strict::No;
    for op in &c.h.ops { w.run(op)?; }
    let qs = questions(&w);
    let mut before = vec![];
    for (what, q) in &qs {
        for m in [&w.mems.0, &w.mems.1] { m.watch() }
        let a = guard(&format!("asking for {what}"), || q(&w))?;
        let looked: Vec<BTreeSet<(String, Option<String>)>> = vec![w.mems.0.looked(), w.mems.1.looked()];
        before.push((a, looked));
    }
    let plan = w.plan(&c.last)?;
    // the damage
    let mut all: Vec<(usize, At)> = vec![];
    for (n, m) in [&w.mems.0, &w.mems.1].into_iter().enumerate() { for k in m.dump().into_keys() { all.push((n, k)) } }
    let mut damaged: Vec<(usize, At, bool)> = vec![]; // and whether the record can be read any more
    let mut log = w.log.clone();
    for d in &c.damage {
        if all.is_empty() { break }
        // version records are rarely asked for
        let pool: Vec<&(usize, At)> = all.iter().filter(|(_, (ns, _))| d.which % 16 == 0 || ns != "core_model").collect();
        if pool.is_empty() { continue }
        let (n, at) = pool[d.which as usize / 16 % pool.len()].clone();
        if damaged.iter().any(|x| x.0 == n && x.1 == at) { continue }
        let mem = [&w.mems.0, &w.mems.1][n];
        let old = mem.dump()[&at].clone();
        let pos = d.at as usize % old.len().max(1);
        let new = match d.how % 9 {
            0 => None,
            1 => Some(vec![]),
            2 => Some(old[..pos].to_vec()),
            3 => Some(vec![0xff; 1 + pos]),
            4 => { let mut v = old.clone(); if v.is_empty() { v.push(d.byte) } else { v[pos] = d.byte } Some(v) }
            5 => { let mut v = old.clone(); v.push(d.byte); Some(v) }
            6 => { let peers: Vec<&(usize, At)> = all.iter().filter(|x| x.0 == n && x.1.0 == at.0 && x.1.1.ends_with(".metadata") == at.1.ends_with(".metadata")).collect(); mem.dump().get(&peers[pos % peers.len()].1).cloned() }
            7 => { let mut v = old.clone(); v.truncate(pos); v.push(d.byte); Some(v) }
            _ => { let mut v = old.clone(); if v.is_empty() { v.push(0xff) } else { v[pos] |= 0x80 } Some(v) }
        };
        let broken = !readable(&at, new.as_deref());
        if new.as_ref() == Some(&old) { continue }
        o.class(format!("{}:{}", at.0, ["removed", "emptied", "cut", "no-text", "byte", "continued", "swapped", "cut-and-byte", "high-bit"][d.how as usize % 9]));
        log.push_str(&format!("# --- {} {} {at:?}: {:?} becomes {:?}\n", ["store", "cache"][n], at.0, String::from_utf8_lossy(&old), new.as_ref().map(|v| String::from_utf8_lossy(v))));
        mem.put(&at, new);
        damaged.push((n, at, broken));
    }
    o.sample = Some(log.clone());
    let touched = |looked: &[BTreeSet<(String, Option<String>)>], d: &(usize, At, bool)| looked[d.0].contains(&(d.1.0.clone(), Some(d.1.1.clone()))) || looked[d.0].contains(&(d.1.0.clone(), None));
    for ((what, q), (want, looked)) in qs.iter().zip(&before) {
        let got = guard(&format!("asking for {what} of a damaged store"), || { let f = w.f(); let _ = f; q(&w) }).map_err(|Fail(m)| Fail(format!("{m}\n{log}")))?;
        let met: Vec<&(usize, At, bool)> = damaged.iter().filter(|d| touched(looked, d)).collect();
        if met.is_empty() { ensure_eq!(got, *want, "{what}, which does not depend on what is damaged\n{log}"); continue }
        o.nontrivial = true;
        // a record that can still be read may lead elsewhere; a name that is gone is unknown, not an error
        let unreadable = met.iter().all(|d| d.2) && !(what == "names" && met.iter().all(|d| w.mems.0.dump().get(&d.1).is_none()));
        if unreadable { o.class("reported"); ensure!(got.is_none(), "{what} depends on a record that cannot be read, but is answered\n   {got:?}\n{log}"); }
    }
    // building on top of it ends
    if let Some(p) = plan {
        match guard("building in a damaged store", || w.fm().build_from_ocafile(p.text.clone())).map_err(|Fail(m)| Fail(format!("{m}\n{log}# --- build\n{}", p.text)))? {
            Ok(_) => o.class("built"),
            Err(e) => { o.class("not built"); ensure!(!format!("{e:?}").is_empty(), "no error") }
        }
    }
    Ok(())
}
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SqlDamage { table: u8, row: u16, how: u8, at: u16, byte: u8 }
#[derive(Clone, Debug, Serialize, Deserialize)]
struct SqlCase { h: Hist, damage: Vec<SqlDamage>, file: Option<(u8, u16, u8)>, reopen: bool, last: Op }
const SEARCH_TABLES: [(&str, &str); 3] = [("oca_bundle_cache", "oca_bundle"), ("capture_base_cache", "capture_base"), ("oca_bundle_fts_content", "c0")];
/// The search database, which is a file, is damaged: in a row, a table or as a whole.
fn check36_sql(c: &SqlCase, o: &mut Obs) -> Res {
    use rusqlite::types::Value;
    let mut w = World::new(Kind::Mem, true);
    w.strict = Strict::No;
    for op in &c.h.ops { w.run(op)?; }
    let plan = w.plan(&c.last)?;
    let qs = questions(&w);
    let mut before = vec![];
    for (what, q) in &qs { before.push(guard(&format!("asking for {what}"), || q(&w))?); }
    let path = w.dir.as_ref().unwrap().path().join("search_data.db");
    let mut log = w.log.clone();
    let mut hit = [false; 3]; // tables that are not as they were
    let mut unreadable = [false; 3];
    {
        let db = match rusqlite::Connection::open(&path) { Ok(d) => d, Err(e) => return fail(format!("the search database cannot be opened: {e}")) };
        for d in &c.damage {
            let n = d.table as usize % 3;
            let (table, column) = SEARCH_TABLES[n];
            // rows that can be named and read
            let rows: Vec<(i64, String)> = match db.prepare(&format!("SELECT rowid, {column} FROM {table} ORDER BY rowid")) {
                Ok(mut st) => st.query_map([], |r| Ok((r.get::<_, i64>(0), r.get::<_, String>(1)))).map(|it| it.flatten().filter_map(|(a, b)| Some((a.ok()?, b.ok()?))).collect()).unwrap_or_default(),
                Err(_) => vec![],
            };
            if rows.is_empty() { continue }
            let (row, old) = rows[d.row as usize % rows.len()].clone();
            let bytes = old.as_bytes();
            let pos = d.at as usize % bytes.len().max(1);
            let put = |v: Value| db.execute(&format!("UPDATE {table} SET {column} = ?1 WHERE rowid = ?2"), rusqlite::params![v, row]);
            let text = |v: Vec<u8>| db.execute(&format!("UPDATE {table} SET {column} = CAST(?1 AS TEXT) WHERE rowid = ?2"), rusqlite::params![Value::Blob(v), row]);
            let (what, done) = match d.how % 12 {
                0 => ("row removed", db.execute(&format!("DELETE FROM {table} WHERE rowid = ?1"), [row])),
                1 => ("nothing in it", put(Value::Null)),
                2 => ("bytes", put(Value::Blob(bytes.to_vec()))),
                3 => ("a number", put(Value::Integer(d.byte as i64))),
                4 => ("cut", text(bytes[..pos].to_vec())),
                5 => { let mut v = bytes.to_vec(); if !v.is_empty() { v[pos] |= 0x80 } ("no text", text(v)) }
                6 => { let mut v = bytes.to_vec(); if !v.is_empty() { v[pos] = d.byte } ("a byte", text(v)) }
                7 => ("swapped", text(rows[pos % rows.len()].1.clone().into_bytes())),
                8 if n < 2 => ("key gone", db.execute(&format!("UPDATE {table} SET said = NULL WHERE rowid = ?1"), [row])),
                9 if n < 2 => ("key no text", db.execute(&format!("UPDATE {table} SET said = X'ff' WHERE rowid = ?1"), [row])),
                10 => ("table removed", db.execute(&format!("DROP TABLE {table}"), [])),
                _ => ("column renamed", db.execute(&format!("ALTER TABLE {table} RENAME COLUMN {column} TO other"), [])),
            };
            if done.is_err() { continue } // the database defends some of its own tables
            hit[n] = true;
            o.class(format!("{table}:{what}"));
            log.push_str(&format!("# --- {table} {row}: {what}\n"));
            if n == 0 || n == 1 {
                let bad = |v: &[u8]| if n == 0 { serde_json::from_slice::<OCABundle>(v).is_err() } else { serde_json::from_slice::<oca_bundle_semantics::state::oca::capture_base::CaptureBase>(v).is_err() };
                let now: Vec<Option<Vec<u8>>> = match db.prepare(&format!("SELECT {column} FROM {table} WHERE said IS NOT NULL")) {
                    Ok(mut st) => st.query_map([], |r| Ok(match r.get_ref(0)? { rusqlite::types::ValueRef::Text(t) => Some(t.to_vec()), _ => None })).map(|it| it.flatten().collect()).unwrap_or_default(),
                    Err(_) => vec![],
                };
                unreadable[n] = now.iter().any(|v| v.as_deref().is_none_or(bad));
            }
        }
    }
    let mut whole = false;
    if let Some((how, at, byte)) = c.file {
        if let Ok(mut v) = std::fs::read(&path) {
            let n = v.len().max(1);
            // the start of the file and of its pages, and anywhere
            let pos = match how / 4 % 3 { 0 => at as usize % 100, 1 => (at as usize % (n / 4096).max(1)) * 4096 + byte as usize % 16, _ => (at as usize * 97) % n };
            let what = match how % 4 {
                0 => { v.truncate(pos); "cut" }
                1 => { if pos < v.len() { v[pos] = byte } "a byte" }
                2 => { for b in v.iter_mut().skip(pos).take(64) { *b = 0xff } "a run of bytes" }
                _ => { v = vec![byte; pos + 1]; "other content" }
            };
            whole = true;
            o.class(format!("file:{what}"));
            log.push_str(&format!("# --- search database at {pos}: {what} ({byte})\n"));
            ensure!(std::fs::write(&path, v).is_ok(), "cannot write {path:?}");
        }
    }
    if c.reopen { log.push_str("# --- reopened\n"); w.open(); }
    o.sample = Some(log.clone());
    o.nontrivial = whole || hit.contains(&true);
    for ((what, q), want) in qs.iter().zip(&before) {
        let got = guard(&format!("asking for {what} with a damaged search database"), || q(&w)).map_err(|Fail(m)| Fail(format!("{m}\n{log}")))?;
        let n = match what.as_str() { "listed bundles" => 0, "listed capture bases" => 1, _ => { ensure_eq!(got, *want, "{what}, which is not kept in the search database\n{log}"); continue } };
        if whole { continue }
        if !hit[n] { ensure_eq!(got, *want, "{what}, which are not damaged\n{log}"); continue }
        if unreadable[n] { o.class("reported"); ensure!(got.is_none(), "{what} include one that cannot be read, but are given as\n   {got:?}\n{log}"); }
    }
    if let Some(p) = plan {
        match guard("building with a damaged search database", || w.fm().build_from_ocafile(p.text.clone())).map_err(|Fail(m)| Fail(format!("{m}\n{log}# --- build\n{}", p.text)))? {
            Ok(_) => o.class("built"),
            Err(e) => { o.class("not built"); ensure!(!format!("{e:?}").is_empty(), "no error") }
        }
    }
    Ok(())
}
pub fn p36(ctx: &Ctx) {
    // searching has no way to report an error
    let t = "ADD ATTRIBUTE a=Text\nADD META en PROPS name=\"Some name\"\n";
    ctx.probe("K36A", &format!("{t}with the record of the bundle removed, searched for \"Some\""), || {
        let mut w = World::new(Kind::Mem, false);
        let s = match guard("building", || w.fm().build_from_ocafile(t.into()))? { Ok(b) => util::said(&b), Err(e) => return fail(format!("not built: {e:?}")) };
        for at in w.mems.1.dump().into_keys().filter(|(ns, _)| ns == "oca_bundles_json").collect::<Vec<_>>() { w.mems.1.put(&at, None); }
        for at in w.mems.0.dump().into_keys().filter(|(ns, k)| ns == "oca" && k.contains(&s)).collect::<Vec<_>>() { w.mems.0.put(&at, None); }
        guard("searching", || w.f().search_oca_bundle(None, "Some".into(), 100, 1).records.len())?;
        Ok(())
    });
    let case = |small: bool| {
        let w = W { small, bad: 0, reopen: 0, again: 0, validate: false, len: 4, ..PLAIN };
        (hist(w), vec((any::<u16>(), any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(which, how, at, byte)| Damage { which, how, at, byte }), 1..4), op(W { again: 1, ..w })).prop_map(|(h, damage, last)| DamageCase { h, damage, last }).boxed()
    };
    ctx.campaign("small", 8_000, 300_000, || case(true), check36);
    ctx.campaign("full", 3_000, 120_000, || case(false), check36);
    ctx.campaign("sizes", 1_500, 60_000, || (sizes_with_last(200), vec((any::<u16>(), any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(which, how, at, byte)| Damage { which, how, at, byte }), 1..4)).prop_map(|((h, last), damage)| DamageCase { h, damage, last }).boxed(), check36);
    ctx.campaign("search", 3_000, 120_000, || {
        let w = W { small: true, bad: 0, reopen: 0, again: 0, validate: false, len: 3, ..PLAIN };
        let damage = (0u8..6, any::<u16>(), any::<u8>(), any::<u16>(), any::<u8>()).prop_map(|(t, row, how, at, byte)| SqlDamage { table: [0, 0, 1, 1, 0, 2][t as usize], row, how, at, byte });
        (hist(w), vec(damage, 1..3), proptest::option::weighted(0.25, any::<(u8, u16, u8)>()), any::<bool>(), op(W { again: 1, ..w })).prop_map(|(h, damage, file, reopen, last)| SqlCase { h, damage, file, reopen, last }).boxed()
    }, check36_sql);
}
