//! Everything a facade answers about a history of files: compiled both with and without local-references.
use oca_rs::data_storage::{DataStorage, InMemoryDataStorage, Namespace};
use oca_rs::facade::build::{Error, ValidationError};
use oca_rs::repositories::SQLiteConfig;
use oca_rs::Facade;
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn attempt(f: impl FnOnce() -> Value) -> Value { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!("aborted")) }
fn sorted(mut v: Vec<String>) -> Vec<String> { v.sort(); v }
fn said(b: &oca_bundle_semantics::state::oca::OCABundle) -> String { b.said.as_ref().map(|s| s.to_string()).unwrap_or_default() }
fn errors(e: &[ValidationError]) -> Value { json!(e.iter().map(|e| e.to_string()).collect::<Vec<_>>()) }

/// A file starting with `?` is only validated.
pub fn facade(files: &[String]) -> Value {
    let mut f = Facade::new(Box::new(InMemoryDataStorage::new()), Box::new(InMemoryDataStorage::new()), SQLiteConfig::build().unwrap());
    let mut answers = vec![];
    for t in files {
        answers.push(match t.strip_prefix('?') {
            Some(t) => attempt(|| match f.validate_ocafile(t.to_string()) {
                Ok(b) => json!({"valid": b.oca_bundle, "steps": b.steps.iter().map(|s| json!({"parent": s.parent_said.as_ref().map(|s| s.to_string()), "command": s.command, "result": said(&s.result)})).collect::<Vec<_>>()}),
                Err(e) => errors(&e),
            }),
            None => attempt(|| match f.build_from_ocafile(t.to_string()) {
                Ok(b) => json!({"built": b}),
                Err(Error::ValidationError(e)) => errors(&e),
                Err(e) => json!(e.to_string()),
            }),
        });
    }
    let keys = |ns| f.storage().get_all(ns).map(|m| sorted(m.into_keys().collect())).unwrap_or_default();
    let mut stored = serde_json::Map::new();
    for s in keys(Namespace::OCABundlesJSON) {
        let Ok(id) = s.parse::<said::SelfAddressingIdentifier>() else { continue };
        let get = |deps| attempt(|| match f.get_oca_bundle(id.clone(), deps) { Ok(b) => json!({"bundle": b.bundle, "dependencies": b.dependencies}), Err(e) => json!(e) });
        let file = |d| attempt(|| match f.get_oca_bundle_ocafile(id.clone(), d) { Ok(t) => json!({"file": t}), Err(e) => json!(e) });
        stored.insert(s.clone(), json!({
            "bundle": get(false),
            "with": get(true),
            "steps": attempt(|| match f.get_oca_bundle_steps(id.clone()) { Ok(v) => json!({"steps": v.iter().map(|s| json!({"parent": s.parent_said.as_ref().map(|s| s.to_string()), "command": s.command, "result": said(&s.result)})).collect::<Vec<_>>()}), Err(e) => json!(e) }),
            "ocafile": file(false),
            "dereferenced": file(true),
            "ast": attempt(|| match f.get_oca_bundle_ast(id.clone()) { Ok(a) => json!({"ast": a}), Err(e) => json!(e) }),
            "parsed": attempt(|| match f.get_oca_bundle(id.clone(), false).and_then(|b| f.parse_oca_bundle_to_ocafile(&b.bundle)) { Ok(t) => json!({"bundle": oca_rs::facade::build::build_from_ocafile(t).ok()}), Err(e) => json!(e) }),
        }));
    }
    let objects = keys(Namespace::OCAObjectsJSON);
    let mut related = serde_json::Map::new();
    for s in stored.keys().chain(&objects) {
        related.insert(s.clone(), attempt(|| match f.explore(s.clone()) { None => json!(null), Some(r) => json!({"base": r.base_object, "relations": sorted(r.relations.iter().map(|o| json!(o).to_string()).collect())}) }));
    }
    let mut pages = vec![];
    for (limit, page) in [(2, 1), (2, 2), (3, 2), (1000, 1), (5, 9)] {
        pages.push(attempt(|| match f.fetch_all_oca_bundle(limit, page) { Ok(r) => json!({"bundles": sorted(r.records.iter().map(said).collect()), "total": r.metadata.total, "page": r.metadata.page}), Err(e) => json!(e) }));
        pages.push(attempt(|| match f.fetch_all_capture_base(limit, page) { Ok(r) => json!({"capture_bases": sorted(r.records.iter().map(|c| json!(c).to_string()).collect()), "total": r.metadata.total, "page": r.metadata.page}), Err(e) => json!(e) }));
    }
    let mut found = vec![];
    for (language, words) in [(None, "Some"), (None, "name OR the"), (Some("fr"), "Some"), (Some("en"), "name"), (None, "\"")] {
        let language = language.and_then(|l| l.parse().ok());
        found.push(attempt(|| { let r = f.search_oca_bundle(language, words.to_string(), 50, 1); json!({"total": r.metadata.total, "found": sorted(r.records.iter().map(|x| said(&x.oca_bundle)).collect())}) }));
    }
    let fetched = attempt(|| match f.get_oca_objects(objects.clone()) { Ok(v) => json!({"objects": v}), Err(e) => json!(e) });
    json!({"answers": answers, "stored": stored, "related": related, "pages": pages, "found": found, "objects": objects, "fetched": fetched})
}
