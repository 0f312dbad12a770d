// C09: contracts of the wire encoding: every value of every width, every content of messages of each
// length around the right one; lists of 0, 1 and 2 elements (each element consumes exactly its bytes).
// MODULES: w8 w16 w32 w64 w128 bit
use iris_mpc::vp_hooks::k::*;

fn get<T>(r: Result<T, Error>) -> Option<T> { match r { Ok(x) => Some(x), Err(e) => { std::mem::forget(e); None } } }
fn msg(b: &[u8]) -> BytesMut { let mut m = BytesMut::with_capacity(64); m.extend_from_slice(b); m }
macro_rules! wire { ($($m:ident $t:ty, $s:literal, $u:literal, $any:expr, $canon:expr, $be:expr);*) => { $( mod $m {
    use super::*;
    type T = $t;
    type R = RingElement<T>;
    const S: usize = $s;
    fn any() -> T { $any }
    /// is this an encoding?
    fn canon(b: &[u8]) -> bool { ($canon)(b) }
    /// the encoding, most significant byte first
    fn be(v: T) -> [u8; S] { ($be)(v) }
    fn at(b: &[u8], w: &[u8; S]) -> bool { let mut i = 0; while i < S { if b[i] != w[i] { return false; } i += 1; } true }
    #[kani::proof] #[kani::unwind($u)] fn write_then_read() {
        let v = any(); let w = be(v);
        kani::cover!(w[S - 1] == 1);
        let b = R::to_bytes(RingElement(v));
        assert!(b.len() == S && at(&b[..], &w));
        assert!(get(R::from_bytes(b)) == Some(RingElement(v)));
        assert!(get(R::from_bytes_mut(msg(&w))) == Some(RingElement(v)));
    }
    #[kani::proof] #[kani::unwind($u)] fn take_consumes_one_element() {
        let v = any(); let w = be(v);
        let tail: [u8; 2] = kani::any();
        kani::cover!(tail[0] == 1);
        let mut m = BytesMut::with_capacity(64);
        RingElement(v).add_to_bytes(&mut m);
        assert!(m.len() == S && at(&m[..], &w));
        m.extend_from_slice(&tail);
        assert!(get(R::take_from_bytes_mut(&mut m)) == Some(RingElement(v)));
        assert!(m.len() == 2 && m[0] == tail[0] && m[1] == tail[1]);
    }
    // any message of any length up to S + 1: accepted exactly when it is an encoding, and then this value
    #[kani::proof] #[kani::unwind($u)] fn any_message() {
        let b: [u8; S + 1] = kani::any();
        let mut n = 0;
        while n <= S + 1 {
            let good = n == S && canon(&b[..S]);
            kani::cover!(good);
            let r = get(R::from_bytes_mut(msg(&b[..n])));
            assert!(r.is_some() == good);
            if let Some(x) = r { assert!(at(&b, &be(x.0))); }
            assert!(get(R::from_bytes(msg(&b[..n]).freeze())).is_some() == good);
            let mut m = msg(&b[..n]);
            let t = get(R::take_from_bytes_mut(&mut m));
            assert!(t.is_some() == (n >= S && canon(&b[..S])));
            if let Some(x) = t { assert!(at(&b, &be(x.0)) && m.len() == n - S); }
            n += 1;
        }
    }
    #[kani::proof] #[kani::unwind($u)] fn list_of_two() {
        let (v, w) = (any(), any());
        kani::cover!(be(v)[0] != be(w)[0]);
        let l = [RingElement(v), RingElement(w)];
        let b = ring_slice_to_bytes(&l);
        assert!(b.len() == 2 * S && at(&b[..S], &be(v)) && at(&b[S..], &be(w)));
        let c = ring_iter_to_bytes(&l);
        assert!(c.len() == 2 * S && at(&c[..S], &be(v)) && at(&c[S..], &be(w)));
        let r = get(ring_vec_from_bytes::<R>(msg(&b[..]), 2)).unwrap();
        assert!(r.len() == 2 && r[0].0 == v && r[1].0 == w);
        std::mem::forget(r);
        let mut it = get(ring_iter_from_bytes::<R>(msg(&b[..]), 2)).unwrap();
        assert!(it.len() == 2 && it.next() == Some(RingElement(v)) && it.len() == 1 && it.next() == Some(RingElement(w)) && it.len() == 0 && it.next().is_none());
        let e = ring_slice_to_bytes::<R>(&[]);
        assert!(e.len() == 0);
    }
    #[kani::proof] #[kani::unwind($u)] fn list_of_other_length() {
        let b: [u8; 2 * S + 1] = kani::any();
        kani::cover!(b[0] == 1);
        macro_rules! case { ($n:expr, $len:expr) => { {
            let mut good = $len == $n * S;
            if good { let mut i = 0; while i < $n { good = good && canon(&b[i * S..(i + 1) * S]); i += 1; } }
            match get(ring_vec_from_bytes::<R>(msg(&b[..$len]), $n)) {
                Some(x) => { assert!(good && x.len() == $n); let mut i = 0; while i < $n { assert!(at(&b[i * S..], &be(x[i].0))); i += 1; } std::mem::forget(x); }
                None => assert!(!good),
            }
            match get(ring_iter_from_bytes::<R>(msg(&b[..$len]), $n)) {
                Some(mut x) => { assert!(good && x.len() == $n); let mut i = 0; while i < $n { assert!(at(&b[i * S..], &be(x.next().unwrap().0))); i += 1; } assert!(x.next().is_none()); }
                None => assert!(!good),
            }
        } } }
        case!(0, 0); case!(0, 1); case!(1, S - 1); case!(1, S); case!(1, S + 1);
    }
    #[kani::proof] #[kani::unwind($u)] fn list_of_two_other_length() {
        let b: [u8; 2 * S + 1] = kani::any();
        kani::cover!(b[0] == 1);
        macro_rules! case { ($n:expr, $len:expr) => { {
            let good = $len == 2 * S && canon(&b[..S]) && canon(&b[S..]);
            match get(ring_vec_from_bytes::<R>(msg(&b[..$len]), 2)) {
                Some(x) => { assert!(good && x.len() == 2 && at(&b, &be(x[0].0)) && at(&b[S..], &be(x[1].0))); std::mem::forget(x); }
                None => assert!(!good),
            }
            match get(ring_iter_from_bytes::<R>(msg(&b[..$len]), 2)) {
                Some(mut x) => { assert!(good && x.len() == 2 && at(&b, &be(x.next().unwrap().0)) && at(&b[S..], &be(x.next().unwrap().0)) && x.next().is_none()); }
                None => assert!(!good),
            }
        } } }
        case!(2, S); case!(2, 2 * S); case!(2, 2 * S + 1);
    }
} )* } }
wire!(
    w8 u8, 1, 10, kani::any(), |_: &[u8]| true, |v: u8| v.to_be_bytes();
    w16 u16, 2, 10, kani::any(), |_: &[u8]| true, |v: u16| v.to_be_bytes();
    w32 u32, 4, 12, kani::any(), |_: &[u8]| true, |v: u32| v.to_be_bytes();
    w64 u64, 8, 20, kani::any(), |_: &[u8]| true, |v: u64| v.to_be_bytes();
    w128 u128, 16, 40, kani::any(), |_: &[u8]| true, |v: u128| v.to_be_bytes();
    bit Bit, 1, 10, Bit::new(kani::any()), |b: &[u8]| b[0] < 2, |v: Bit| [v.convert() as u8]
);
