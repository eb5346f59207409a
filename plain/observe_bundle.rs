//! What instructions build to: compiled both with and without format_overlay.
use oca_bundle_semantics::state::oca::OCABundle;
use said::{derivation::HashFunctionCode, sad::SerializationFormats, version::Encode};
use serde_json::{json, Value};
use std::panic::{catch_unwind, AssertUnwindSafe};

fn attempt(f: impl FnOnce() -> Value) -> Value { catch_unwind(AssertUnwindSafe(f)).unwrap_or_else(|_| json!("aborted")) }
fn document(b: &OCABundle) -> String { String::from_utf8(b.encode(&HashFunctionCode::Blake3_256, &SerializationFormats::JSON).unwrap()).unwrap() }
/// What the OCAfile generated from a bundle, of which the order is not given, builds to.
fn rebuilt(text: &str) -> Option<String> {
    let ast = oca_file_semantics::ocafile::parse_from_string(text.to_string()).ok()?;
    Some(document(&oca_bundle_semantics::build::from_ast(None, &ast).ok()?.oca_bundle))
}
fn of(b: &OCABundle) -> Value {
    let valid = oca_bundle_semantics::state::validator::Validator::new().validate(b);
    let mut errors: Vec<String> = valid.err().unwrap_or_default().iter().map(|e| e.to_string()).collect();
    errors.sort();
    json!({"document": document(b), "errors": errors, "rebuilt": rebuilt(&oca_file_semantics::ocafile::generate_from_ast(&b.to_ast()))})
}

/// A line that starts with `{` is a document to load, any other is a file to build.
pub fn bundles(lines: &[String]) -> Value {
    json!(lines.iter().map(|t| attempt(|| if t.starts_with('{') {
        match oca_bundle_semantics::controller::load_oca(&mut t.as_bytes()) { Ok(b) => of(&b), Err(e) => json!({"unreadable": e.to_string()}) }
    } else {
        match oca_file_semantics::ocafile::parse_from_string(t.clone()) {
            Err(e) => json!({"unparsed": e.to_string()}),
            Ok(ast) => match oca_bundle_semantics::build::from_ast(None, &ast) {
                Ok(b) => json!({"steps": b.steps.iter().map(|s| document(&s.result)).collect::<Vec<_>>(), "bundle": of(&b.oca_bundle)}),
                Err(e) => json!({"unbuilt": e.iter().map(|e| e.to_string()).collect::<Vec<_>>()}),
            },
        }
    })).collect::<Vec<_>>())
}
