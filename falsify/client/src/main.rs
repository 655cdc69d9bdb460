//! Bounded search for histories on which the client of the current tree breaks a property.
#[path = "../../common/run.rs"] mod run;
mod world;
mod app;
use run::*;

fn one(kind: &str, input: &str) -> Finds { world::case(kind, input) }
fn worker(run: &Run, t: usize) {
    let base = run.seed.wrapping_mul(1_000_003);
    let k = if run.thorough { 40 } else { 1 };
    if run.pid == "C21" && t == 0 && run.case(t, "wrap", &format!("C21:{base}")) { return }
    if run.pid == "C23" { for j in 0..3 { if t == j + 1 && run.case(t, "timer", &format!("C23:{j}")) { return } } }
    let kind = match run.pid.as_str() { "C25" => "conf", "C26" => "chan", _ => "world" };
    let mut i = t as u64;
    while i < 1500 * k && !run.over() { if run.case(t, kind, &format!("{}:{}", run.pid, base.wrapping_add(i))) { return } i += run.nt as u64; }
}
fn main() { run::main(one, worker, 40, 400, 8, 120) }
