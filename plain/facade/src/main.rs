#[path = "../../observe_facade.rs"]
mod observe;
#[path = "../../serve.rs"]
mod serve;
fn main() { serve::serve(observe::facade) }
