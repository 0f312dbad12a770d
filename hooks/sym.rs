// Symbolic ring elements: a Copy type implementing IntRing2k + Sharable, so that the real
// generic protocol code runs on it unchanged.  Every operation builds a hash-consed term;
// two terms are compared through a canonical form (polynomials modulo 2^W over atoms,
// XOR-of-AND normal form for the bitwise fragment).
use crate::error::Error;
use crate::types::int_ring::IntRing2k;
use crate::types::ring_element::RingElement;
use crate::types::sharable::Sharable;
use bytes::{Buf, BufMut, Bytes, BytesMut};
use num_traits::*;
use rand::{distributions::Standard, prelude::Distribution, Rng};
use serde::{Deserialize, Serialize};
use sha2::Digest;
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::ops::*;
use std::rc::Rc;

pub type Id = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Add(Id, Id),
    Sub(Id, Id),
    Neg(Id),
    Mul(Id, Id),
    Xor(Id, Id),
    And(Id, Id),
    Or(Id, Id),
    Not(Id),
    Shl(Id, u32),
    Shr(Id, u32),
    Zext(Id),
    Trunc(Id),
    /// opaque atom standing for a non-linear conversion: polynomial used bitwise (interned form)
    Opaque(u32),
}

type Mono = Vec<Id>; // sorted atoms with repetition
type Poly = BTreeMap<Mono, u128>;
type BMono = Vec<(Id, i32)>; // sorted set of shifted atoms
type Bnf = BTreeMap<BMono, u128>;

#[derive(Clone)]
enum Nf {
    P(Rc<Poly>),
    B(Rc<Bnf>),
}

#[derive(PartialEq, Eq, Hash, Clone)]
enum Key {
    P(u32, Vec<(Mono, u128)>),
    B(u32, Vec<(BMono, u128)>),
}

pub struct Arena {
    pub nodes: Vec<(u32, N)>,
    cons: HashMap<(u32, N), Id>,
    nf: Vec<Option<Nf>>,
    canon_id: Vec<Option<u32>>,
    keys: HashMap<Key, u32>,
    key_rep: Vec<Id>,      // representative node per canonical id
    opaque: HashMap<Id, Id>, // node -> opaque atom node (same width)
    opaque_def: HashMap<Id, Id>,
    pub var_names: Vec<String>,
    draws: HashMap<(u32, u64), Id>,
    wire_of: HashMap<(u32, u32), u32>, // (width, canon) -> wire
    wire_rev: HashMap<(u32, u32), Id>,
    wire_cnt: HashMap<u32, u32>,
    pub generic: Vec<(Id, Id)>, // comparisons of terms that are not identically equal
    pub budget: usize,
    pub bbudget: usize,
    fail: std::collections::HashSet<Id>,
}

thread_local! {
    pub static ARENA: RefCell<Arena> = RefCell::new(Arena::new());
}

fn mask(w: u32) -> u128 {
    if w >= 128 { u128::MAX } else { (1u128 << w) - 1 }
}

impl Arena {
    pub fn new() -> Self {
        Arena {
            nodes: vec![],
            cons: HashMap::new(),
            nf: vec![],
            canon_id: vec![],
            keys: HashMap::new(),
            key_rep: vec![],
            opaque: HashMap::new(),
            opaque_def: HashMap::new(),
            var_names: vec![],
            draws: HashMap::new(),
            wire_of: HashMap::new(),
            wire_rev: HashMap::new(),
            wire_cnt: HashMap::new(),
            generic: vec![],
            budget: 4_000_000,
            bbudget: 60_000,
            fail: Default::default(),
        }
    }
    pub fn mk(&mut self, w: u32, n: N) -> Id {
        use N::*;
        // light constant folding keeps concrete arithmetic concrete
        let c = |i: Id, s: &Self| match s.nodes[i as usize].1 { Const(v) => Some(v), _ => None };
        let m = mask(w);
        let n = match n {
            Const(v) => Const(v & m),
            Add(a, b) => match (c(a, self), c(b, self)) {
                (Some(x), Some(y)) => Const(x.wrapping_add(y) & m),
                (Some(0), _) => return b,
                (_, Some(0)) => return a,
                _ => n,
            },
            Sub(a, b) => match (c(a, self), c(b, self)) {
                (Some(x), Some(y)) => Const(x.wrapping_sub(y) & m),
                (_, Some(0)) => return a,
                _ => n,
            },
            Neg(a) => match c(a, self) { Some(x) => Const(x.wrapping_neg() & m), _ => n },
            Mul(a, b) => match (c(a, self), c(b, self)) {
                (Some(x), Some(y)) => Const(x.wrapping_mul(y) & m),
                (Some(0), _) | (_, Some(0)) => Const(0),
                (Some(1), _) => return b,
                (_, Some(1)) => return a,
                _ => n,
            },
            Xor(a, b) => match (c(a, self), c(b, self)) {
                (Some(x), Some(y)) => Const((x ^ y) & m),
                (Some(0), _) => return b,
                (_, Some(0)) => return a,
                _ => n,
            },
            And(a, b) => match (c(a, self), c(b, self)) {
                (Some(x), Some(y)) => Const(x & y & m),
                (Some(0), _) | (_, Some(0)) => Const(0),
                (Some(x), _) if x == m => return b,
                (_, Some(x)) if x == m => return a,
                _ => n,
            },
            Or(a, b) => match (c(a, self), c(b, self)) {
                (Some(x), Some(y)) => Const((x | y) & m),
                (Some(0), _) => return b,
                (_, Some(0)) => return a,
                _ => n,
            },
            Not(a) => match c(a, self) { Some(x) => Const(!x & m), _ => n },
            Shl(a, k) => match c(a, self) {
                Some(x) => Const(if k >= 128 { 0 } else { (x << k) & m }),
                _ if k == 0 => return a,
                _ => n,
            },
            Shr(a, k) => match c(a, self) {
                Some(x) => Const(if k >= 128 { 0 } else { x >> k }),
                _ if k == 0 => return a,
                _ => n,
            },
            Zext(a) => match c(a, self) {
                Some(x) => Const(x),
                _ if self.nodes[a as usize].0 == w => return a,
                _ => n,
            },
            Trunc(a) => match c(a, self) {
                Some(x) => Const(x & m),
                _ if self.nodes[a as usize].0 == w => return a,
                _ => n,
            },
            _ => n,
        };
        if let Some(&i) = self.cons.get(&(w, n)) {
            return i;
        }
        let i = self.nodes.len() as Id;
        self.nodes.push((w, n));
        self.nf.push(None);
        self.canon_id.push(None);
        self.cons.insert((w, n), i);
        i
    }
    pub fn var(&mut self, w: u32, name: &str) -> Id {
        let v = self.var_names.len() as u32;
        self.var_names.push(name.to_string());
        self.mk(w, N::Var(v))
    }
    fn width(&self, i: Id) -> u32 { self.nodes[i as usize].0 }

    fn padd(p: &mut Poly, m: Mono, c: u128, w: u32) {
        let c = c & mask(w);
        if c == 0 { return; }
        match p.entry(m) {
            std::collections::btree_map::Entry::Vacant(e) => { e.insert(c); }
            std::collections::btree_map::Entry::Occupied(mut e) => {
                let v = e.get().wrapping_add(&c) & mask(w);
                if v == 0 { e.remove(); } else { *e.get_mut() = v; }
            }
        }
    }
    fn bxor(p: &mut Bnf, m: BMono, c: u128) {
        if c == 0 { return; }
        match p.entry(m) {
            std::collections::btree_map::Entry::Vacant(e) => { e.insert(c); }
            std::collections::btree_map::Entry::Occupied(mut e) => {
                let v = *e.get() ^ c;
                if v == 0 { e.remove(); } else { *e.get_mut() = v; }
            }
        }
    }
    /// bits of (atom << s) that can be non-zero
    fn live(w: u32, s: i32) -> u128 {
        if s >= 0 { if s as u32 >= w { 0 } else { (mask(w) << s as u32) & mask(w) } }
        else if (-s) as u32 >= w { 0 } else { mask(w) >> (-s) as u32 }
    }
    fn is_bitwise(n: &N) -> bool {
        matches!(n, N::Xor(..) | N::And(..) | N::Or(..) | N::Not(..) | N::Shl(..) | N::Shr(..))
    }
    fn is_arith(n: &N) -> bool {
        matches!(n, N::Add(..) | N::Sub(..) | N::Neg(..) | N::Mul(..))
    }

    fn nf_of(&mut self, i: Id) -> Nf {
        if self.fail.contains(&i) { panic!("SYM-BUDGET: form too large"); }
        if let Some(x) = &self.nf[i as usize] { return x.clone(); }
        let (w, n) = self.nodes[i as usize];
        let r = match n {
            N::Const(v) => {
                let mut p = Poly::new();
                Self::padd(&mut p, vec![], v, w);
                Nf::P(Rc::new(p))
            }
            N::Var(_) | N::Opaque(_) => {
                let mut p = Poly::new();
                Self::padd(&mut p, vec![i], 1, w);
                Nf::P(Rc::new(p))
            }
            N::Zext(a) | N::Trunc(a) => {
                let narrow = matches!(n, N::Trunc(_));
                let wa = self.width(a);
                if let N::Zext(b) = self.nodes[a as usize].1 {
                    // trunc(zext b) or zext(zext b)
                    let wb = self.width(b);
                    let nn = if wb == w { None } else if wb < w { Some(N::Zext(b)) } else { Some(N::Trunc(b)) };
                    match nn {
                        None => self.nf_of(b),
                        Some(nn) => { let j = self.mk(w, nn); self.nf_of(j) }
                    }
                } else if narrow && !Self::is_bitwise(&self.nodes[a as usize].1) {
                    // ring homomorphism modulo 2^w
                    let p = self.poly_of(a);
                    let mut q = Poly::new();
                    let atoms: std::collections::BTreeSet<Id> = p.keys().flatten().cloned().collect();
                    let mut map = HashMap::new();
                    for at in atoms {
                        let j = if let (_, N::Zext(b)) = self.nodes[at as usize] {
                            let wb = self.width(b);
                            if wb == w { b } else if wb < w { self.mk(w, N::Zext(b)) } else { self.mk(w, N::Trunc(b)) }
                        } else if let (_, N::Trunc(b)) = self.nodes[at as usize] { self.mk(w, N::Trunc(b)) }
                        else { self.mk(w, N::Trunc(at)) };
                        let pj = if matches!(self.nodes[j as usize].1, N::Trunc(_)) {
                            let mut p = Poly::new(); Self::padd(&mut p, vec![j], 1, w); Rc::new(p)
                        } else { self.poly_of(j) };
                        map.insert(at, pj);
                    }
                    for (m, c) in p.iter() {
                        let mut acc = Poly::new();
                        Self::padd(&mut acc, vec![], *c, w);
                        for a in m { acc = self.pmul(&acc, &map[a].clone(), w); }
                        for (mm, cc) in acc { Self::padd(&mut q, mm, cc, w); }
                    }
                    let _ = wa;
                    Nf::P(Rc::new(q))
                } else {
                    // atom on the canonical representative of the operand
                    let rep = self.rep(a);
                    let j = self.mk(w, if narrow { N::Trunc(rep) } else { N::Zext(rep) });
                    let mut p = Poly::new();
                    Self::padd(&mut p, vec![j], 1, w);
                    Nf::P(Rc::new(p))
                }
            }
            _ if Self::is_arith(&n) => Nf::P(Rc::new(self.flat_poly(i))),
            _ => Nf::B(Rc::new(self.flat_bnf(i))),
        };
        self.nf[i as usize] = Some(r.clone());
        r
    }

    fn pmul(&mut self, a: &Poly, b: &Poly, w: u32) -> Poly {
        if a.len().saturating_mul(b.len()) > self.budget { panic!("SYM-BUDGET: polynomial too large"); }
        let mut r = Poly::new();
        for (m1, c1) in a {
            for (m2, c2) in b {
                let mut m = m1.clone();
                m.extend_from_slice(m2);
                m.sort_unstable();
                Self::padd(&mut r, m, c1.wrapping_mul(c2), w);
            }
        }
        r
    }

    fn flat_poly(&mut self, i: Id) -> Poly {
        let w = self.width(i);
        // iterative flattening of additive structure
        let mut acc = Poly::new();
        let mut stack: Vec<(Id, u128)> = vec![(i, 1)];
        while let Some((j, c)) = stack.pop() {
            let cached = j != i && self.nf[j as usize].is_some();
            match self.nodes[j as usize].1 {
                N::Add(a, b) if !cached => { stack.push((a, c)); stack.push((b, c)); }
                N::Sub(a, b) if !cached => { stack.push((a, c)); stack.push((b, c.wrapping_neg())); }
                N::Neg(a) if !cached => { stack.push((a, c.wrapping_neg())); }
                N::Mul(a, b) if !cached => {
                    let pa = self.poly_of(a);
                    let pb = self.poly_of(b);
                    let r = self.pmul(&pa, &pb, w);
                    for (m, cc) in r { Self::padd(&mut acc, m, cc.wrapping_mul(c), w); }
                }
                _ => {
                    let p = self.poly_of(j);
                    for (m, cc) in p.iter() { Self::padd(&mut acc, m.clone(), cc.wrapping_mul(&c), w); }
                }
            }
            if acc.len() > self.budget { panic!("SYM-BUDGET: polynomial too large"); }
        }
        acc
    }

    fn band(&mut self, a: &Bnf, b: &Bnf, w: u32) -> Bnf {
        if a.len().saturating_mul(b.len()) > self.bbudget { panic!("SYM-BUDGET: boolean form too large"); }
        let mut r = Bnf::new();
        for (m1, c1) in a {
            for (m2, c2) in b {
                let mut m = m1.clone();
                m.extend_from_slice(m2);
                m.sort_unstable();
                m.dedup();
                let mut c = c1 & c2;
                for (_, s) in &m { c &= Self::live(w, *s); }
                Self::bxor(&mut r, m, c);
            }
        }
        r
    }

    fn flat_bnf(&mut self, i: Id) -> Bnf {
        let w = self.width(i);
        let mut acc = Bnf::new();
        let mut stack: Vec<Id> = vec![i];
        while let Some(j) = stack.pop() {
            let cached = j != i && self.nf[j as usize].is_some();
            match self.nodes[j as usize].1 {
                N::Xor(a, b) if !cached => { stack.push(a); stack.push(b); }
                N::Not(a) if !cached => { Self::bxor(&mut acc, vec![], mask(w)); stack.push(a); }
                N::And(a, b) if !cached => {
                    let (x, y) = (self.bnf_of(a), self.bnf_of(b));
                    for (m, c) in self.band(&x, &y, w) { Self::bxor(&mut acc, m, c); }
                }
                N::Or(a, b) if !cached => {
                    let (x, y) = (self.bnf_of(a), self.bnf_of(b));
                    for (m, c) in self.band(&x, &y, w) { Self::bxor(&mut acc, m, c); }
                    for (m, c) in x.iter() { Self::bxor(&mut acc, m.clone(), *c); }
                    for (m, c) in y.iter() { Self::bxor(&mut acc, m.clone(), *c); }
                }
                N::Shl(a, k) | N::Shr(a, k) if !cached => {
                    let left = matches!(self.nodes[j as usize].1, N::Shl(..));
                    let x = self.bnf_of(a);
                    for (m, c) in x.iter() {
                        let c2 = if k >= w { 0 } else if left { (c << k) & mask(w) } else { c >> k };
                        let d = if left { k as i32 } else { -(k as i32) };
                        let m2: BMono = m.iter().map(|(a, s)| (*a, s + d)).collect();
                        let mut c3 = c2;
                        for (_, s) in &m2 { c3 &= Self::live(w, *s); }
                        Self::bxor(&mut acc, m2, c3);
                    }
                }
                _ => {
                    let p = self.bnf_of(j);
                    for (m, c) in p.iter() { Self::bxor(&mut acc, m.clone(), *c); }
                }
            }
            if acc.len() > self.bbudget { panic!("SYM-BUDGET: boolean form too large"); }
        }
        acc
    }

    fn opaque_atom(&mut self, node: Id) -> Id {
        let rep = self.rep(node);
        if let Some(&o) = self.opaque.get(&rep) { return o; }
        let w = self.width(rep);
        let k = self.opaque.len() as u32;
        let o = self.mk(w, N::Opaque(k));
        self.opaque.insert(rep, o);
        self.opaque_def.insert(o, rep);
        o
    }

    /// polynomial form (a bitwise term becomes an atom)
    fn poly_of(&mut self, i: Id) -> Rc<Poly> {
        match self.nf_of(i) {
            Nf::P(p) => p,
            Nf::B(b) => {
                let w = self.width(i);
                if b.is_empty() { return Rc::new(Poly::new()); }
                if b.len() == 1 {
                    let (m, c) = b.iter().next().unwrap();
                    if m.is_empty() {
                        let mut p = Poly::new();
                        Self::padd(&mut p, vec![], *c, w);
                        return Rc::new(p);
                    }
                    if m.len() == 1 && m[0].1 == 0 && *c == mask(w) { return self.atom_poly(m[0].0); }
                }
                let o = self.opaque_atom(i);
                let mut p = Poly::new();
                Self::padd(&mut p, vec![o], 1, w);
                Rc::new(p)
            }
        }
    }
    /// the polynomial an atom stands for (an opaque atom made from a polynomial unfolds to it)
    fn atom_poly(&mut self, a: Id) -> Rc<Poly> {
        if let Some(&d) = self.opaque_def.get(&a) {
            if let Nf::P(p) = self.nf_of(d) { return p; }
        }
        let w = self.width(a);
        let mut p = Poly::new();
        Self::padd(&mut p, vec![a], 1, w);
        Rc::new(p)
    }
    /// boolean form (a polynomial that is not a single atom becomes an atom)
    fn bnf_of(&mut self, i: Id) -> Rc<Bnf> {
        match self.nf_of(i) {
            Nf::B(b) => b,
            Nf::P(p) => {
                let w = self.width(i);
                let mut b = Bnf::new();
                if p.is_empty() { return Rc::new(b); }
                if p.len() == 1 {
                    let (m, c) = p.iter().next().unwrap();
                    if m.is_empty() { Self::bxor(&mut b, vec![], *c); return Rc::new(b); }
                    if m.len() == 1 && *c == 1 {
                        if let Some(&d) = self.opaque_def.get(&m[0]) {
                            if let Nf::B(x) = self.nf_of(d) { return x; }
                        }
                        Self::bxor(&mut b, vec![(m[0], 0)], mask(w));
                        return Rc::new(b);
                    }
                }
                let o = self.opaque_atom(i);
                Self::bxor(&mut b, vec![(o, 0)], mask(w));
                Rc::new(b)
            }
        }
    }

    pub fn canon(&mut self, i: Id) -> u32 {
        if let Some(c) = self.canon_id[i as usize] { return c; }
        let w = self.width(i);
        let mut nf = self.nf_of(i);
        // prefer the polynomial key when the boolean form is trivial, and the boolean one
        // when the polynomial is a single atom made from a boolean form
        if let Nf::B(b) = &nf {
            if b.is_empty() || (b.len() == 1 && { let (m, c) = b.iter().next().unwrap(); m.is_empty() || (m.len() == 1 && m[0].1 == 0 && *c == mask(w)) }) {
                nf = Nf::P(self.poly_of(i));
            }
        }
        if let Nf::P(p) = &nf {
            if p.len() == 1 {
                let (m, c) = p.iter().next().unwrap();
                if m.len() == 1 && *c == 1 {
                    if let Some(&d) = self.opaque_def.get(&m[0]) {
                        if let Nf::B(_) = self.nf_of(d) { nf = self.nf_of(d); }
                    }
                }
            }
        }
        let key = match &nf {
            Nf::P(p) => Key::P(w, p.iter().map(|(m, c)| (m.clone(), *c)).collect()),
            Nf::B(b) => Key::B(w, b.iter().map(|(m, c)| (m.clone(), *c)).collect()),
        };
        let next = self.key_rep.len() as u32;
        let id = match self.keys.get(&key) {
            Some(&k) => k,
            None => { self.keys.insert(key, next); self.key_rep.push(i); next }
        };
        self.canon_id[i as usize] = Some(id);
        id
    }
    fn rep(&mut self, i: Id) -> Id { let c = self.canon(i); self.key_rep[c as usize] }
    pub fn is_const(&mut self, i: Id) -> Option<u128> {
        if let N::Const(v) = self.nodes[i as usize].1 { return Some(v); }
        match self.nf_of(i) {
            Nf::P(p) => if p.is_empty() { Some(0) } else if p.len() == 1 && p.contains_key(&vec![]) { Some(p[&vec![]]) } else { None },
            Nf::B(b) => if b.is_empty() { Some(0) } else if b.len() == 1 && b.contains_key(&vec![]) { Some(b[&vec![]]) } else { None },
        }
    }
    pub fn same(&mut self, a: Id, b: Id) -> bool {
        a == b || (self.width(a) == self.width(b) && self.canon(a) == self.canon(b))
    }
    pub fn eq_decide(&mut self, a: Id, b: Id) -> bool {
        if self.same(a, b) { return true; }
        if let (Some(x), Some(y)) = (self.is_const(a), self.is_const(b)) { return x == y; }
        self.generic.push((a, b));
        false
    }
    pub fn to_wire(&mut self, i: Id) -> u32 {
        let w = self.width(i);
        let c = self.canon(i);
        if let Some(&x) = self.wire_of.get(&(w, c)) { return x; }
        let n = self.wire_cnt.entry(w).or_insert(0);
        *n += 1;
        let x = *n;
        if w < 32 && x >= (1u32 << w) { panic!("SYM-BUDGET: too many distinct messages"); }
        self.wire_of.insert((w, c), x);
        self.wire_rev.insert((w, x), i);
        x
    }
    /// identifier used inside messages: terms without an affordable canonical form are told apart by their syntax
    pub fn to_wire_data(&mut self, i: Id) -> u32 {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.to_wire(i)));
        match r {
            Ok(x) => x,
            Err(_) => {
                self.fail.insert(i);
                let w = self.width(i);
                let c = u32::MAX - i;
                if let Some(&x) = self.wire_of.get(&(w, c)) { return x; }
                let n = self.wire_cnt.entry(w).or_insert(0);
                *n += 1;
                let x = *n;
                if w < 32 && x >= (1u32 << w) { panic!("SYM-BUDGET: too many distinct messages"); }
                self.wire_of.insert((w, c), x);
                self.wire_rev.insert((w, x), i);
                x
            }
        }
    }
    pub fn from_wire(&self, w: u32, x: u32) -> Option<Id> { self.wire_rev.get(&(w, x)).copied() }
    pub fn draw(&mut self, w: u32, d: u64) -> Id {
        if let Some(&i) = self.draws.get(&(w, d)) { return i; }
        let i = self.var(w, &format!("rnd{}", self.var_names.len()));
        self.draws.insert((w, d), i);
        i
    }
    /// concrete evaluation of a term
    pub fn eval(&self, roots: &[Id], env: &mut dyn FnMut(u32, u32) -> u128) -> Vec<u128> {
        let mut memo: HashMap<Id, u128> = HashMap::new();
        let mut out = vec![];
        for &r in roots {
            let mut st = vec![r];
            while let Some(&t) = st.last() {
                if memo.contains_key(&t) { st.pop(); continue; }
                let (w, n) = self.nodes[t as usize];
                let deps: Vec<Id> = match n {
                    N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::Xor(a, b) | N::And(a, b) | N::Or(a, b) => vec![a, b],
                    N::Neg(a) | N::Not(a) | N::Shl(a, _) | N::Shr(a, _) | N::Zext(a) | N::Trunc(a) => vec![a],
                    N::Opaque(_) => vec![self.opaque_def[&t]],
                    _ => vec![],
                };
                let miss: Vec<Id> = deps.iter().filter(|d| !memo.contains_key(d)).cloned().collect();
                if !miss.is_empty() { st.extend(miss); continue; }
                let g = |i: Id| memo[&i];
                let v = match n {
                    N::Const(v) => v,
                    N::Var(k) => env(k, w),
                    N::Add(a, b) => g(a).wrapping_add(g(b)),
                    N::Sub(a, b) => g(a).wrapping_sub(g(b)),
                    N::Neg(a) => g(a).wrapping_neg(),
                    N::Mul(a, b) => g(a).wrapping_mul(g(b)),
                    N::Xor(a, b) => g(a) ^ g(b),
                    N::And(a, b) => g(a) & g(b),
                    N::Or(a, b) => g(a) | g(b),
                    N::Not(a) => !g(a),
                    N::Shl(a, k) => if k >= 128 { 0 } else { g(a) << k },
                    N::Shr(a, k) => if k >= 128 { 0 } else { g(a) >> k },
                    N::Zext(a) | N::Trunc(a) => g(a),
                    N::Opaque(_) => g(deps[0]),
                } & mask(w);
                memo.insert(t, v);
                st.pop();
            }
            out.push(memo[&r]);
        }
        out
    }
    /// SMT-LIB text asserting that some pair differs; variables are free
    pub fn smt_differ(&self, pairs: &[(Id, Id)]) -> String {
        let mut decl = String::new();
        let mut body = String::new();
        let mut done: HashMap<Id, ()> = HashMap::new();
        let mut st: Vec<Id> = pairs.iter().flat_map(|(a, b)| [*a, *b]).collect();
        while let Some(&t) = st.last() {
            if done.contains_key(&t) { st.pop(); continue; }
            let (w, n) = self.nodes[t as usize];
            let deps: Vec<Id> = match n {
                N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::Xor(a, b) | N::And(a, b) | N::Or(a, b) => vec![a, b],
                N::Neg(a) | N::Not(a) | N::Shl(a, _) | N::Shr(a, _) | N::Zext(a) | N::Trunc(a) => vec![a],
                N::Opaque(_) => vec![self.opaque_def[&t]],
                _ => vec![],
            };
            let miss: Vec<Id> = deps.iter().filter(|d| !done.contains_key(d)).cloned().collect();
            if !miss.is_empty() { st.extend(miss); continue; }
            let lit = |v: u128, w: u32| format!("(_ bv{} {})", v, w);
            let e = match n {
                N::Const(v) => lit(v, w),
                N::Var(k) => { decl.push_str(&format!("(declare-const v{} (_ BitVec {})) ; {}\n", k, w, self.var_names[k as usize])); format!("v{}", k) }
                N::Add(a, b) => format!("(bvadd n{} n{})", a, b),
                N::Sub(a, b) => format!("(bvsub n{} n{})", a, b),
                N::Neg(a) => format!("(bvneg n{})", a),
                N::Mul(a, b) => format!("(bvmul n{} n{})", a, b),
                N::Xor(a, b) => format!("(bvxor n{} n{})", a, b),
                N::And(a, b) => format!("(bvand n{} n{})", a, b),
                N::Or(a, b) => format!("(bvor n{} n{})", a, b),
                N::Not(a) => format!("(bvnot n{})", a),
                N::Shl(a, k) => format!("(bvshl n{} {})", a, lit(k as u128, w)),
                N::Shr(a, k) => format!("(bvlshr n{} {})", a, lit(k as u128, w)),
                N::Zext(a) => format!("((_ zero_extend {}) n{})", w - self.width(a), a),
                N::Trunc(a) => format!("((_ extract {} 0) n{})", w - 1, a),
                N::Opaque(_) => format!("n{}", deps[0]),
            };
            body.push_str(&format!("(define-fun n{} () (_ BitVec {}) {})\n", t, w, e));
            done.insert(t, ());
            st.pop();
        }
        let mut s = String::from("(set-logic QF_BV)\n");
        s.push_str(&decl);
        s.push_str(&body);
        s.push_str("(assert (or false");
        for (a, b) in pairs { s.push_str(&format!(" (distinct n{} n{})", a, b)); }
        s.push_str("))\n(check-sat)\n");
        s
    }
    pub fn show(&mut self, i: Id) -> String {
        let nf = self.nf_of(i);
        let name = |s: &Self, a: Id| -> String { match s.nodes[a as usize].1 { N::Var(v) => s.var_names[v as usize].clone(), _ => format!("n{}", a) } };
        let mut out = vec![];
        let total;
        match nf {
            Nf::P(p) => { total = p.len(); for (m, c) in p.iter().take(6) { out.push(format!("{}*{}", c, m.iter().map(|a| name(self, *a)).collect::<Vec<_>>().join("*"))); } }
            Nf::B(b) => { total = b.len(); for (m, c) in b.iter().take(6) { out.push(format!("{:x}&{}", c, m.iter().map(|(a, s)| format!("({}<<{})", name(self, *a), s)).collect::<Vec<_>>().join("&"))); } }
        }
        format!("[{} terms] {}", total, out.join(" + "))
    }
}

pub fn with<R>(f: impl FnOnce(&mut Arena) -> R) -> R { ARENA.with(|a| f(&mut a.borrow_mut())) }
pub fn reset() { with(|a| *a = Arena::new()); }

pub trait SymVal: Copy {
    fn id(self) -> Id;
    fn of(id: Id) -> Self;
    const W: u32;
    fn fresh(name: &str) -> Self { Self::of(with(|a| a.var(Self::W, name))) }
    fn lit(v: u128) -> Self { Self::of(with(|a| a.mk(Self::W, N::Const(v)))) }
}

thread_local! { /// random draws of symbolic types are literals (challenges that only need sampling)
    pub static LITERAL_DRAWS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) }; }
macro_rules! sym_type {
    ($t:ident, $w:expr, $vs:ident) => {
        #[derive(Clone, Copy)]
        #[repr(transparent)]
        pub struct $t(pub Id);
        impl SymVal for $t {
            fn id(self) -> Id { self.0 }
            fn of(id: Id) -> Self { Self(id) }
            const W: u32 = $w;
        }
        impl $t {
            fn op(n: N) -> Self { Self(with(|a| a.mk($w, n))) }
        }
        impl PartialEq for $t { fn eq(&self, o: &Self) -> bool { with(|a| a.eq_decide(self.0, o.0)) } }
        impl Eq for $t {}
        impl PartialOrd for $t { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { Some(self.cmp(o)) } }
        impl Ord for $t { fn cmp(&self, o: &Self) -> std::cmp::Ordering {
            with(|a| match (a.is_const(self.0), a.is_const(o.0)) { (Some(x), Some(y)) => x.cmp(&y), _ => panic!("SYM-UNSUPPORTED: ordering of symbolic values") })
        } }
        impl std::fmt::Debug for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "sym{}", self.0) } }
        impl std::fmt::Display for $t { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "sym{}", self.0) } }
        impl Default for $t { fn default() -> Self { Self::lit(0) } }
        impl From<bool> for $t { fn from(b: bool) -> Self { Self::lit(b as u128) } }
        impl TryFrom<usize> for $t { type Error = std::num::TryFromIntError; fn try_from(v: usize) -> Result<Self, Self::Error> { if $w < 64 && (v >> ($w % 64)) != 0 { u8::try_from(256usize)?; } Ok(Self::lit(v as u128)) } }
        impl Add for $t { type Output = Self; fn add(self, o: Self) -> Self { Self::op(N::Add(self.0, o.0)) } }
        impl Sub for $t { type Output = Self; fn sub(self, o: Self) -> Self { Self::op(N::Sub(self.0, o.0)) } }
        impl Mul for $t { type Output = Self; fn mul(self, o: Self) -> Self { Self::op(N::Mul(self.0, o.0)) } }
        impl Neg for $t { type Output = Self; fn neg(self) -> Self { Self::op(N::Neg(self.0)) } }
        impl Not for $t { type Output = Self; fn not(self) -> Self { Self::op(N::Not(self.0)) } }
        impl BitXor for $t { type Output = Self; fn bitxor(self, o: Self) -> Self { Self::op(N::Xor(self.0, o.0)) } }
        impl BitAnd for $t { type Output = Self; fn bitand(self, o: Self) -> Self { Self::op(N::And(self.0, o.0)) } }
        impl BitOr for $t { type Output = Self; fn bitor(self, o: Self) -> Self { Self::op(N::Or(self.0, o.0)) } }
        impl BitXorAssign for $t { fn bitxor_assign(&mut self, o: Self) { *self = *self ^ o; } }
        impl BitAndAssign for $t { fn bitand_assign(&mut self, o: Self) { *self = *self & o; } }
        impl BitOrAssign for $t { fn bitor_assign(&mut self, o: Self) { *self = *self | o; } }
        impl Shl<usize> for $t { type Output = Self; fn shl(self, k: usize) -> Self { if k >= $w { panic!("attempt to shift left with overflow") } Self::op(N::Shl(self.0, k as u32)) } }
        impl Shr<usize> for $t { type Output = Self; fn shr(self, k: usize) -> Self { if k >= $w { panic!("attempt to shift right with overflow") } Self::op(N::Shr(self.0, k as u32)) } }
        impl Shl<u32> for $t { type Output = Self; fn shl(self, k: u32) -> Self { self << (k as usize) } }
        impl ShlAssign<u32> for $t { fn shl_assign(&mut self, k: u32) { *self = *self << k; } }
        impl WrappingAdd for $t { fn wrapping_add(&self, o: &Self) -> Self { *self + *o } }
        impl WrappingSub for $t { fn wrapping_sub(&self, o: &Self) -> Self { *self - *o } }
        impl WrappingMul for $t { fn wrapping_mul(&self, o: &Self) -> Self { *self * *o } }
        impl WrappingNeg for $t { fn wrapping_neg(&self) -> Self { -*self } }
        impl WrappingShl for $t { fn wrapping_shl(&self, k: u32) -> Self { Self::op(N::Shl(self.0, k % $w)) } }
        impl WrappingShr for $t { fn wrapping_shr(&self, k: u32) -> Self { Self::op(N::Shr(self.0, k % $w)) } }
        impl Zero for $t { fn zero() -> Self { Self::lit(0) } fn is_zero(&self) -> bool { *self == Self::lit(0) } }
        impl One for $t { fn one() -> Self { Self::lit(1) } }
        impl Serialize for $t { fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> { s.serialize_u32(with(|a| a.to_wire(self.0))) } }
        impl<'de> Deserialize<'de> for $t { fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            let x = u32::deserialize(d)?;
            with(|a| a.from_wire($w, x)).map(Self).ok_or_else(|| serde::de::Error::custom("unknown wire id"))
        } }
        impl Distribution<$t> for Standard { fn sample<R: Rng + ?Sized>(&self, rng: &mut R) -> $t { let d = rng.next_u64(); if LITERAL_DRAWS.with(|l| l.get()) { return <$t as SymVal>::lit(if $w < 64 { (d & ((1u64 << ($w % 64)) - 1)) as u128 } else { d as u128 }); } $t(with(|a| a.draw($w, d))) } }
        impl IntRing2k for $t {
            const K: usize = $w;
            type Signed = $t;
            fn to_signed(self) -> Self { self }
            fn upgrade_to_128(self) -> u128 { (1u128 << 100) | self.0 as u128 }
            fn add_to_bytes(self, other: &mut BytesMut) { let x = with(|a| a.to_wire_data(self.0)); other.put_uint(x as u64, if $w < 64 { $w / 8 } else { 8 }); for _ in 8..($w / 8) { other.put_u8(0x5a); } }
            fn from_bytes_mut(mut other: BytesMut) -> Result<Self, Error> { if other.remaining() != $w / 8 { return Err(Error::ConversionError); } Self::take_from_bytes_mut(&mut other) }
            fn from_bytes(other: Bytes) -> Result<Self, Error> { Self::from_bytes_mut(BytesMut::from(other.as_ref())) }
            fn take_from_bytes_mut(other: &mut BytesMut) -> Result<Self, Error> {
                if other.remaining() < $w / 8 { return Err(Error::ConversionError); }
                let x = other.get_uint(if $w < 64 { $w / 8 } else { 8 });
                for _ in 8..($w / 8) { other.get_u8(); }
                with(|a| a.from_wire($w, x as u32)).map(Self).ok_or(Error::ConversionError)
            }
            fn floor_div(self, o: &Self) -> Self {
                with(|a| match (a.is_const(self.0), a.is_const(o.0)) { (Some(x), Some(y)) => Self(a.mk($w, N::Const(x / y))), _ => panic!("SYM-UNSUPPORTED: division of symbolic values") })
            }
            fn inverse(&self) -> Result<Self, Error> {
                with(|a| match a.is_const(self.0) {
                    Some(x) if x & 1 == 1 => { let mut y: u128 = 1; for _ in 0..8 { y = y.wrapping_mul(2u128.wrapping_sub(x.wrapping_mul(y))); } Ok(Self(a.mk($w, N::Const(y)))) }
                    Some(_) => Err(Error::NoInverseError),
                    None => panic!("SYM-UNSUPPORTED: inverse of a symbolic value"),
                })
            }
            fn add_to_hash<D: Digest>(&self, hasher: &mut D) { let x = with(|a| a.to_wire(self.0)); hasher.update(x.to_le_bytes()); }
        }
        impl Sharable for $t {
            type Share = RingElement<Self>;
            type VerificationShare = $vs;
            fn to_sharetype(self) -> Self::Share { RingElement(self) }
            fn from_sharetype(r: Self::Share) -> Self { r.0 }
            fn slice_to_sharetype(r: &[Self]) -> &[Self::Share] { RingElement::convert_slice_rev(r) }
            fn slice_from_sharetype(r: &[Self::Share]) -> &[Self] { RingElement::convert_slice(r) }
            fn vec_to_sharetype(r: Vec<Self>) -> Vec<Self::Share> { RingElement::convert_vec_rev(r) }
            fn vec_from_sharetype(r: Vec<Self::Share>) -> Vec<Self> { RingElement::convert_vec(r) }
            fn from_verificationtype(a: RingElement<$vs>) -> RingElement<Self> { RingElement(Self::from_verificationshare(a.0)) }
            fn from_verificationshare(a: $vs) -> Self { Self::op(N::Trunc(a.0)) }
            fn to_verificationtype(a: RingElement<Self>) -> RingElement<$vs> { RingElement(a.0.to_verificationshare()) }
            fn to_verificationshare(self) -> $vs { $vs::op(N::Zext(self.0)) }
        }
    };
}
sym_type!(S128, 128, S128);
sym_type!(S64, 64, S128);
sym_type!(S32, 32, S64);
sym_type!(S16, 16, S64);
