//! Bounded search for histories on which the broker of the current tree breaks a property.
#[path = "../../common/run.rs"] mod run;
mod world;
use run::*;

fn one(kind: &str, input: &str) -> Finds {
    match kind {
        "world" => world::case(input),
        #[cfg(vaux_verif)]
        _ => vaux_broker::verif::one(kind, input),
        #[cfg(not(vaux_verif))]
        _ => vec![],
    }
}
fn worker(run: &Run, t: usize) {
    let pid = run.pid.clone();
    let base = run.seed.wrapping_mul(1_000_003);
    let each = |kind: &str, n: u64| -> bool { let mut i = t as u64; while i < n && !run.over() { if run.case(t, kind, &(base.wrapping_add(i)).to_string()) { return true } i += run.nt as u64; } run.over() };
    let k = if run.thorough { 40 } else { 1 };
    match pid.as_str() {
        "C13" | "C14" => {
            if cfg!(vaux_verif) {
                if pid == "C13" { let mut i = t; while i < 4 * 6usize.pow(4) { if run.case(t, "single", &i.to_string()) { return } i += run.nt } }
                if each("topic", 40_000 * k) { return }
            }
        }
        "C15" => if cfg!(vaux_verif) && each("pool", 20_000 * k) { return },
        "C16" => if cfg!(vaux_verif) && each("ids", 400 * k) { return },
        _ => {}
    }
    if cfg!(vaux_verif) && ["C16", "C17", "C18", "C20"].contains(&pid.as_str()) && each("handlers", 6_000 * k) { return }
    // situations: breaking connection, takeover meeting an end, keep alive, delayed will, redelivery cut short
    let sp: &[usize] = match pid.as_str() { "C15" => &[0, 1, 1, 1], "C16" => &[4], "C17" => &[1], "C19" => &[2], "C20" => &[0, 3, 2, 0], _ => &[] };
    for i in (t..sp.len() * if run.thorough { 40 } else { 8 }).step_by(run.nt) { if run.over() || run.case(t, "world", &format!("s{}={pid}:{}", sp[i % sp.len()], base.wrapping_add((i / sp.len()) as u64))) { return } }
    let mut i = t as u64;
    let n = 400 * k;
    while i < n && !run.over() { if run.case(t, "world", &format!("{pid}:{}", base.wrapping_add(i))) { return } i += run.nt as u64; }
}
fn main() { run::main(one, worker, 60, 500, 8, 120) }
