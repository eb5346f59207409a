#[path = "../../observe_bundle.rs"]
mod observe;
#[path = "../../serve.rs"]
mod serve;
fn main() { serve::serve(observe::bundles) }
