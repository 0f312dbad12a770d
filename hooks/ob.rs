// Obligations: named closures run in parallel, each reporting how it was decided.
use super::sym::{self, Id, SymVal};
use crate::types::bit::Bit;
use crate::types::int_ring::IntRing2k;
use crate::types::ring_element::{RingElement, RingImpl};
use crate::types::sharable::Sharable;
use num_traits::Zero;
use rand::{Rng, RngCore, SeedableRng};
use rand_chacha::ChaCha12Rng;
use std::cell::RefCell;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;

#[derive(Clone)]
pub enum PairV { Sym(Id, Id), Conc(u128, u128) }
#[derive(Clone)]
pub struct Pair { pub label: String, pub v: PairV }

thread_local! { pub static RNG: RefCell<ChaCha12Rng> = RefCell::new(ChaCha12Rng::seed_from_u64(1)); }
pub fn rnd() -> u64 { RNG.with(|r| r.borrow_mut().next_u64()) }
pub fn rng_seed(s: u64) { RNG.with(|r| *r.borrow_mut() = ChaCha12Rng::seed_from_u64(s)); }
thread_local! { static FORCE: RefCell<std::collections::VecDeque<u128>> = Default::default(); }
/// the next fresh concrete values (then random again)
pub fn force(v: &[u128]) { FORCE.with(|f| { let mut f = f.borrow_mut(); f.clear(); f.extend(v.iter().cloned()); }) }
pub fn draw128() -> u128 { FORCE.with(|f| f.borrow_mut().pop_front()).unwrap_or_else(rnd128) }
pub fn rnd128() -> u128 {
    // boundary-biased
    let v = ((rnd() as u128) << 64) | rnd() as u128;
    match rnd() % 8 {
        0 => 0,
        1 => u128::MAX,
        2 => 1u128 << (rnd() % 128),
        3 => (1u128 << (rnd() % 128)).wrapping_sub(1),
        4 => { let k = [7, 15, 31, 63, 127][(rnd() % 5) as usize]; 1u128 << k }
        _ => v,
    }
}

/// a ring type the obligations can be instantiated with (symbolic or concrete)
pub trait Val: Sharable {
    const SYMBOLIC: bool;
    const TNAME: &'static str;
    fn fresh(name: &str) -> Self;
    fn lit(v: u64) -> Self;
    fn pair(label: String, a: Self::Share, b: Self::Share) -> Pair;
}
macro_rules! sym_val { ($($t:ident),*) => { $(impl Val for sym::$t {
    const SYMBOLIC: bool = true;
    const TNAME: &'static str = stringify!($t);
    fn fresh(name: &str) -> Self { <Self as SymVal>::fresh(name) }
    fn lit(v: u64) -> Self { <Self as SymVal>::lit(v as u128) }
    fn pair(label: String, a: Self::Share, b: Self::Share) -> Pair { Pair { label, v: PairV::Sym(a.0.id(), b.0.id()) } }
})* } }
sym_val!(S16, S32, S64, S128);
macro_rules! conc_val { ($($t:ident),*) => { $(impl Val for $t {
    const SYMBOLIC: bool = false;
    const TNAME: &'static str = stringify!($t);
    fn fresh(_: &str) -> Self { draw128() as $t }
    fn lit(v: u64) -> Self { v as $t }
    fn pair(label: String, a: Self::Share, b: Self::Share) -> Pair { Pair { label, v: PairV::Conc(a.upgrade_to_128().0, b.upgrade_to_128().0) } }
})* } }
conc_val!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128);
impl Val for Bit {
    const SYMBOLIC: bool = false;
    const TNAME: &'static str = "Bit";
    fn fresh(_: &str) -> Self { Bit::new(FORCE.with(|f| f.borrow_mut().pop_front()).map(|v| v as u64).unwrap_or_else(rnd) & 1 == 1) }
    fn lit(v: u64) -> Self { Bit::new(v & 1 == 1) }
    fn pair(label: String, a: Self::Share, b: Self::Share) -> Pair { Pair { label, v: PairV::Conc(a.0.upgrade_to_128(), b.0.upgrade_to_128()) } }
}

pub fn want(label: impl Into<String>, ok: bool) -> Pair { Pair { label: label.into(), v: PairV::Conc(ok as u128, 1) } }
pub fn eqn(label: impl Into<String>, a: u128, b: u128) -> Pair { Pair { label: label.into(), v: PairV::Conc(a, b) } }

#[derive(Default, Debug, Clone)]
pub struct Out {
    pub vcs: usize,      // verification conditions decided
    pub ring: usize,     // by the ring / XOR-AND normaliser
    pub ground: usize,   // by evaluation (concrete)
    pub smt: usize,      // by z3
    pub smt_ms: u128,
    pub undecided: Vec<String>,
    pub evals: usize,    // concrete cases executed
    pub notes: Vec<String>,
}
impl Out {
    pub fn add(&mut self, o: Out) {
        self.vcs += o.vcs; self.ring += o.ring; self.ground += o.ground; self.smt += o.smt; self.smt_ms += o.smt_ms;
        self.undecided.extend(o.undecided); self.evals += o.evals; self.notes.extend(o.notes);
    }
}

/// decide a list of equalities; Err = a concrete counterexample
pub fn decide(pairs: &[Pair]) -> Result<Out, String> {
    let mut o = Out::default();
    let mut hard: Vec<(Id, Id, String)> = vec![];
    for p in pairs {
        o.vcs += 1;
        match p.v {
            PairV::Conc(a, b) => {
                if a != b { return Err(format!("{}: got {:#x}, required {:#x}", p.label, a, b)); }
                o.ground += 1;
            }
            PairV::Sym(a, b) => {
                let same = match catch(|| sym::with(|s| s.same(a, b))) {
                    Ok(x) => x,
                    Err(e) if e.contains("SYM-BUDGET") => false,
                    Err(e) => return Err(e),
                };
                if same {
                    // guard against an unsound normaliser: sides declared equal must agree under evaluation
                    if sym::with(|s| s.nodes.len()) < 30_000 {
                        let mut env: std::collections::HashMap<u32, u128> = Default::default();
                        let r = sym::with(|s| s.eval(&[a, b], &mut |k, w| *env.entry(k).or_insert_with(|| { let v = rnd128(); if w >= 128 { v } else { v & ((1u128 << w) - 1) } })));
                        if r[0] != r[1] { panic!("SYM-INTERNAL: normaliser disagrees with evaluation on {}", p.label); }
                    }
                    o.ring += 1;
                } else { hard.push((a, b, p.label.clone())); }
            }
        }
    }
    if hard.is_empty() { return Ok(o); }
    // look for a falsifying assignment
    for t in 0..400u64 {
        for (a, b, l) in &hard {
            let mut env: std::collections::HashMap<u32, u128> = Default::default();
            let r = sym::with(|s| s.eval(&[*a, *b], &mut |k, w| *env.entry(k).or_insert_with(|| {
                let v = if t == 0 { 0 } else { rnd128() };
                if w >= 128 { v } else { v & ((1u128 << w) - 1) }
            })));
            if r[0] != r[1] {
                let mut names: Vec<(String, u128)> = sym::with(|s| env.iter().map(|(k, v)| (s.var_names[*k as usize].clone(), *v)).collect());
                names.sort();
                let asg: Vec<String> = names.iter().take(40).map(|(n, v)| format!("{}={:#x}", n, v)).collect();
                return Err(format!("{}: got {:#x}, required {:#x} for {}", l, r[0], r[1], asg.join(" ")));
            }
        }
    }
    // random evaluation agrees everywhere: ask the SMT solver
    let prs: Vec<(Id, Id)> = hard.iter().map(|(a, b, _)| (*a, *b)).collect();
    let (res, ms) = smt(&prs);
    o.smt_ms += ms;
    match res.as_str() {
        "unsat" => { o.smt += hard.len(); Ok(o) }
        "sat" => Err(format!("{}: the solver finds a falsifying assignment", hard.iter().map(|h| h.2.clone()).collect::<Vec<_>>().join(", "))),
        other => {
            for h in &hard { o.undecided.push(format!("{} ({})", h.2, other)); }
            o.vcs -= hard.len();
            Ok(o)
        }
    }
}

pub fn smt(pairs: &[(Id, Id)]) -> (String, u128) {
    let text = sym::with(|s| s.smt_differ(pairs));
    let t0 = std::time::Instant::now();
    let secs = std::env::var("VP_SMT_TIMEOUT").unwrap_or("100".into());
    let r = (|| -> std::io::Result<String> {
        use std::io::Write;
        let mut c = std::process::Command::new("z3")
            .args(["-in", "-smt2", &format!("-T:{}", secs)])
            .stdin(std::process::Stdio::piped())
            .stdout(std::process::Stdio::piped())
            .spawn()?;
        c.stdin.take().unwrap().write_all(text.as_bytes())?;
        let o = c.wait_with_output()?;
        Ok(String::from_utf8_lossy(&o.stdout).lines().next().unwrap_or("").trim().to_string())
    })()
    .unwrap_or_else(|e| format!("solver not run: {}", e));
    (r, t0.elapsed().as_millis())
}

pub struct Ob {
    pub prop: &'static str,
    pub name: String,
    /// "proved" (all values), "exhaustive" (finite space enumerated), "bounded" (sampled or size-limited)
    pub kind: &'static str,
    pub scope: String,
    pub run: Box<dyn FnOnce() -> Result<Out, String> + Send>,
}
pub struct Obs { pub v: Vec<Ob>, pub seed: u64, pub thorough: bool }
impl Obs {
    pub fn add(&mut self, prop: &'static str, name: impl Into<String>, kind: &'static str, scope: impl Into<String>, f: impl FnOnce() -> Result<Out, String> + Send + 'static) {
        self.v.push(Ob { prop, name: name.into(), kind, scope: scope.into(), run: Box::new(f) });
    }
}

pub fn esc(s: &str) -> String {
    let mut o = String::new();
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o
}

thread_local! { static PANIC: RefCell<Option<String>> = const { RefCell::new(None) }; }

/// run a closure, turning a panic into Err(message with location)
pub fn catch<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    PANIC.with(|p| *p.borrow_mut() = None);
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| {
        PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into())
    })
}
pub fn take_panic() -> String { PANIC.with(|p| p.borrow_mut().take()).unwrap_or_else(|| "panic".into()) }
pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|i| {
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        let loc = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        PANIC.with(|p| *p.borrow_mut() = Some(format!("panic at {}: {}", loc, msg)));
    }));
}


fn say(l: String) { use std::io::Write; let o = std::io::stdout(); let mut o = o.lock(); let _ = writeln!(o, "{}", l); let _ = o.flush(); }

pub fn run_all(obs: Obs, threads: usize) {
    install_panic_hook();
    let seed = obs.seed;
    let limit: u128 = std::env::var("VP_OB_TIMEOUT").ok().and_then(|s| s.parse().ok()).unwrap_or(400);
    let total = obs.v.len();
    say(format!("{{\"total\":{}}}", total));
    let q = Mutex::new(obs.v.into_iter().enumerate().collect::<std::collections::VecDeque<_>>());
    let running: Mutex<std::collections::HashMap<usize, (std::time::Instant, String)>> = Default::default();
    let done = AtomicUsize::new(0);
    std::thread::scope(|sc| {
        for _ in 0..threads {
            std::thread::Builder::new().stack_size(512 << 20).spawn_scoped(sc, || loop {
                let Some((k, ob)) = q.lock().unwrap().pop_front() else { break };
                let Ob { prop, name, kind, scope, run } = ob;
                let head = format!("\"k\":{},\"prop\":\"{}\",\"name\":\"{}\",\"kind\":\"{}\",\"scope\":\"{}\"", k, prop, esc(&name), kind, esc(&scope));
                running.lock().unwrap().insert(k, (std::time::Instant::now(), head.clone()));
                say(format!("{{\"start\":{},{}}}", k, head));
                sym::reset();
                // the seed of an obligation depends on its name only, so that one obligation can be repeated alone
                let h = name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3));
                rng_seed(seed.wrapping_mul(0x9e3779b97f4a7c15) ^ h);
                let t0 = std::time::Instant::now();
                let r = catch(run);
                let ms = t0.elapsed().as_millis();
                let (status, detail, o) = match r {
                    Ok(Ok(o)) => if o.undecided.is_empty() { ("ok", String::new(), o) } else { ("undecided", o.undecided.join("; "), o) },
                    Ok(Err(e)) => ("fail", e, Out::default()),
                    Err(p) if p.contains("SYM-UNSUPPORTED") || p.contains("SYM-BUDGET") || p.contains("SYM-INTERNAL") || p.contains("VP-HARNESS") => ("undecided", p, Out::default()),
                    Err(p) => ("fail", p, Out::default()),
                };
                if running.lock().unwrap().remove(&k).is_some() {
                    say(format!("{{{},\"status\":\"{}\",\"detail\":\"{}\",\"vcs\":{},\"ring\":{},\"ground\":{},\"smt\":{},\"smt_ms\":{},\"evals\":{},\"notes\":\"{}\",\"ms\":{}}}",
                        head, status, esc(&detail), o.vcs, o.ring, o.ground, o.smt, o.smt_ms, o.evals, esc(&o.notes.join("; ")), ms));
                }
                done.fetch_add(1, Ordering::SeqCst);
            }).unwrap();
        }
        // watchdog: an obligation that never comes back is reported and the process ends
        loop {
            std::thread::sleep(std::time::Duration::from_millis(20));
            if done.load(Ordering::SeqCst) >= total { break; }
            let g = running.lock().unwrap();
            let late: Vec<&(std::time::Instant, String)> = g.values().filter(|(t, _)| t.elapsed().as_secs() as u128 >= limit).collect();
            if !late.is_empty() {
                for (t, head) in late { say(format!("{{{},\"status\":\"timeout\",\"detail\":\"no result after {} s\",\"vcs\":0,\"ring\":0,\"ground\":0,\"smt\":0,\"smt_ms\":0,\"evals\":0,\"notes\":\"\",\"ms\":{}}}", head, limit, t.elapsed().as_millis())); }
                std::process::exit(3);
            }
        }
    });
}
pub fn app(a: &mut Vec<Pair>, b: Vec<Pair>) { for x in b { Vec::push(a, x); } }
