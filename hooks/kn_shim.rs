// Runs the bodies of the Kani harnesses on the compiled crate: `any` enumerates when the whole
// input space is small, and draws boundary-biased values otherwise.
use super::ob::{self, Ob, Out};
use std::cell::RefCell;
#[derive(Default)]
struct St { mode: u8, cur: Vec<(u128, u32)>, at: usize, bits: u32, log: Vec<String> }
thread_local! { static ST: RefCell<St> = Default::default(); }
pub struct Skip;
fn draw(bits: u32) -> u128 {
    ST.with(|s| {
        let mut s = s.borrow_mut();
        s.bits = s.bits.saturating_add(bits);
        let v = if s.mode == 0 {
            let k = s.at; s.at += 1;
            if k == s.cur.len() { s.cur.push((0, bits)); }
            s.cur[k].0
        } else {
            let v = match ob::rnd() % 12 {
                0 => 0, 1 => u128::MAX, 2 => 1u128 << (bits - 1), 3 => (1u128 << (bits - 1)) - 1, 4 => 1,
                5 | 6 => (ob::rnd() % (2 * bits as u64 + 2)) as u128,
                7 => 1u128 << (ob::rnd() % bits as u64),
                _ => ((ob::rnd() as u128) << 64) | ob::rnd() as u128,
            };
            if bits == 128 { v } else { v & ((1u128 << bits) - 1) }
        };
        if s.log.len() < 24 { s.log.push(format!("{:#x}", v)); }
        v
    })
}
pub trait Arb { fn arb() -> Self; }
macro_rules! arb { ($($t:ident),*) => { $(impl Arb for $t { fn arb() -> Self { draw($t::BITS) as $t } })* } }
arb!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128);
impl Arb for bool { fn arb() -> Self { draw(1) == 1 } }
impl<T: Arb, const N: usize> Arb for [T; N] { fn arb() -> Self { std::array::from_fn(|_| T::arb()) } }
impl<A: Arb, B: Arb> Arb for (A, B) { fn arb() -> Self { (A::arb(), B::arb()) } }
impl<A: Arb, B: Arb, C: Arb> Arb for (A, B, C) { fn arb() -> Self { (A::arb(), B::arb(), C::arb()) } }
pub fn any<T: Arb>() -> T { T::arb() }
/// an index below n (a constrained choice: native runs would reject most values otherwise)
pub fn below(n: usize) -> usize { let mut b = 1; while (1usize << b) < n { b += 1; } let v = draw(b) as usize; if ST.with(|s| s.borrow().mode) == 0 { assume(v < n); v } else { v % n } }
pub fn assume(b: bool) { if !b { std::panic::resume_unwind(Box::new(Skip)); } }
macro_rules! cover { ($($x:tt)*) => { let _ = { $($x)* }; } }
pub(crate) use cover;

fn once(f: fn()) -> Result<bool, String> {
    ST.with(|s| { let mut s = s.borrow_mut(); s.at = 0; s.bits = 0; s.log.clear(); });
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(()) => Ok(true),
        Err(e) if e.is::<Skip>() => Ok(false),
        Err(_) => Err(ob::take_panic()),
    }
}
fn go(f: fn()) -> Result<Out, String> {
    let fail = |e: String| format!("on values [{}]: {}", ST.with(|s| s.borrow().log.join(", ")), e);
    let mut o = Out::default();
    let mut ran = 0usize;
    // enumerate when small
    ST.with(|s| *s.borrow_mut() = St::default());
    if once(f).map_err(fail)? { ran += 1; }
    let bits = ST.with(|s| s.borrow().bits);
    if bits <= 17 {
        loop {
            let more = ST.with(|s| { let mut s = s.borrow_mut(); let at = s.at; s.cur.truncate(at);
                while let Some((v, b)) = s.cur.pop() { if v + 1 < (1u128 << b) { s.cur.push((v + 1, b)); return true; } } false });
            if !more { break; }
            if once(f).map_err(fail)? { ran += 1; }
        }
        o.notes.push("enumerated".into());
    } else {
        ST.with(|s| s.borrow_mut().mode = 1);
        let t0 = std::time::Instant::now();
        for k in 0..4000 {
            if once(f).map_err(fail)? { ran += 1; }
            if k > 20 && t0.elapsed().as_millis() > 1500 { break; }
        }
    }
    if ran == 0 { return Err("VP-HARNESS: no run satisfies the precondition".into()); }
    o.vcs = ran; o.ground = ran; o.evals = ran;
    Ok(o)
}
pub fn collect(obs: &mut ob::Obs, prop: &'static str, file: &'static str, list: Vec<(String, fn())>) {
    for (n, f) in list {
        obs.add(prop, format!("execution of contract {}::{}", file, n), "bounded", "the same contract on the compiled code: whole input space when it has at most 17 bits, 4000 boundary-biased samples otherwise", move || {
            match go(f) { Err(e) if e.starts_with("VP-HARNESS") => panic!("{}", e), r => r }
        });
    }
}
