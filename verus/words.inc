// ---------------------------------------------------------------- bits
pub open spec fn bit(w: u128, k: int) -> bool { 0 <= k < 128 && (w >> (k as u128)) & 1 == 1 }
pub open spec fn below(w: u128, k: int) -> bool { k >= 128 || (w >> (k as u128)) == 0 }
proof fn bit_shift(w: u128, k: int) requires 0 <= k < 127 ensures (w >> (k as u128)) >> 1u128 == w >> ((k + 1) as u128)
{ let a = k as u128; assert((w >> a) >> 1u128 == w >> ((a + 1) as u128)) by (bit_vector) requires a < 127; }
proof fn bit_set(w: u128, p: bool, i: int, l: int) requires 0 <= i < 128, 0 <= l < 128
    ensures bit(w | ((if p { 1u128 } else { 0u128 }) << (i as u128)), l) == (bit(w, l) || (p && l == i))
{
    let a = i as u128; let b = l as u128;
    if p { assert(((w | (1u128 << a)) >> b) & 1 == 1 <==> ((w >> b) & 1 == 1 || a == b)) by (bit_vector) requires a < 128, b < 128; }
    else { assert(w | (0u128 << a) == w) by (bit_vector); }
}
proof fn bit_zero(l: int) ensures !bit(0, l) { if 0 <= l < 128 { let b = l as u128; assert((0u128 >> b) & 1 == 0) by (bit_vector) requires b < 128; } }
proof fn bit_xor(x: u128, y: u128, l: int) ensures bit(x ^ y, l) == (bit(x, l) != bit(y, l))
{ if 0 <= l < 128 { let b = l as u128; assert(((x ^ y) >> b) & 1 == 1 <==> (((x >> b) & 1 == 1) != ((y >> b) & 1 == 1))) by (bit_vector) requires b < 128; } }
proof fn bit_and(x: u128, y: u128, l: int) ensures bit(x & y, l) == (bit(x, l) && bit(y, l))
{ if 0 <= l < 128 { let b = l as u128; assert(((x & y) >> b) & 1 == 1 <==> (((x >> b) & 1 == 1) && ((y >> b) & 1 == 1))) by (bit_vector) requires b < 128; } }

// ---------------------------------------------------------------- the sum of three words, bit by bit
pub open spec fn b2i(p: bool) -> int { if p { 1 } else { 0 } }
pub open spec fn val(f: spec_fn(int) -> bool, n: nat) -> int decreases n { if n == 0 { 0 } else { val(f, (n - 1) as nat) + b2i(f(n - 1)) * pow2((n - 1) as nat) } }
pub open spec fn bits_of(w: u128) -> spec_fn(int) -> bool { |k: int| bit(w, k) }
proof fn bit_arith(w: u128, k: int) requires 0 <= k < 128 ensures b2i(bit(w, k)) == (w as int / pow2(k as nat) as int) % 2
{
    lemma_u128_shr_is_div(w, k as u128);
    let q = w >> (k as u128);
    assert(q & 1 == q % 2) by (bit_vector);
}
proof fn val_low(w: u128, n: nat) requires n <= 128 ensures val(bits_of(w), n) == w as int % (pow2(n) as int) decreases n
{
    lemma_pow2_pos(n);
    if n == 0 { lemma2_to64(); }
    else {
        let m = (n - 1) as nat;
        val_low(w, m); bit_arith(w, m as int); lemma_pow2_pos(m); lemma_pow2_unfold(n);
        let p = pow2(m) as int; let x = w as int;
        assert(x % (p * 2) == p * ((x / p) % 2) + x % p) by { lemma_breakdown(x, p, 2); }
        assert(pow2(n) == p * 2);
        assert(b2i(bits_of(w)(m as int)) * p == p * ((x / p) % 2)) by (nonlinear_arith) requires b2i(bits_of(w)(m as int)) == (x / p) % 2;
    }
}
pub open spec fn maj(x: bool, y: bool, z: bool) -> bool { if x == y { x } else { z } }
pub open spec fn fs(x: spec_fn(int) -> bool, y: spec_fn(int) -> bool, z: spec_fn(int) -> bool) -> spec_fn(int) -> bool { |k: int| (x(k) != y(k)) != z(k) }
pub open spec fn fc(x: spec_fn(int) -> bool, y: spec_fn(int) -> bool, z: spec_fn(int) -> bool) -> spec_fn(int) -> bool { |k: int| maj(x(k), y(k), z(k)) }
/// carry into position k when s and 2c are added
pub open spec fn carry(s: spec_fn(int) -> bool, c: spec_fn(int) -> bool, k: int) -> bool decreases k { if k <= 2 { s(1) && c(0) } else { maj(s(k - 1), c(k - 2), carry(s, c, k - 1)) } }
pub open spec fn top(s: spec_fn(int) -> bool, c: spec_fn(int) -> bool, k: int) -> bool { (s(k) != c(k - 1)) != carry(s, c, k) }
proof fn val_bound(f: spec_fn(int) -> bool, n: nat) ensures 0 <= val(f, n) < pow2(n) decreases n
{ lemma_pow2_pos(n); if n == 0 { lemma2_to64(); } else { val_bound(f, (n - 1) as nat); lemma_pow2_unfold(n); let p = pow2((n - 1) as nat) as int; let b = b2i(f(n - 1)); assert(0 <= b * p <= p) by (nonlinear_arith) requires 0 <= b <= 1, p > 0; } }
proof fn three(x: spec_fn(int) -> bool, y: spec_fn(int) -> bool, z: spec_fn(int) -> bool, n: nat) ensures val(x, n) + val(y, n) + val(z, n) == val(fs(x, y, z), n) + 2 * val(fc(x, y, z), n) decreases n
{
    if n > 0 {
        let m = (n - 1) as nat; three(x, y, z, m); let p = pow2(m) as int; let k = n - 1;
        let s = fs(x, y, z); let c = fc(x, y, z);
        assert(b2i(x(k)) + b2i(y(k)) + b2i(z(k)) == b2i(s(k)) + 2 * b2i(c(k)));
        assert(b2i(x(k)) * p + b2i(y(k)) * p + b2i(z(k)) * p == b2i(s(k)) * p + 2 * (b2i(c(k)) * p)) by (nonlinear_arith) requires b2i(x(k)) + b2i(y(k)) + b2i(z(k)) == b2i(s(k)) + 2 * b2i(c(k));
    }
}
/// s + 2c below position k: a remainder below 2^k and the carry
proof fn ripple(s: spec_fn(int) -> bool, c: spec_fn(int) -> bool, k: nat) requires k >= 2 ensures 0 <= val(s, k) + 2 * val(c, (k - 1) as nat) - b2i(carry(s, c, k as int)) * pow2(k) < pow2(k) decreases k
{
    lemma2_to64(); lemma_pow2_unfold(k);
    if k == 2 { reveal_with_fuel(val, 3); }
    else {
        let m = (k - 1) as nat; ripple(s, c, m); lemma_pow2_unfold(m); lemma_pow2_pos(m);
        let p = pow2(m) as int; let a = b2i(s(k - 1)); let b = b2i(c(k - 2)); let d = b2i(carry(s, c, m as int)); let e = b2i(carry(s, c, k as int));
        let low = val(s, m) + 2 * val(c, (m - 1) as nat) - d * p;
        assert(val(s, k) == val(s, m) + a * p);
        assert(val(c, m) == val(c, (m - 1) as nat) + b * pow2((m - 1) as nat));
        assert(p == 2 * pow2((m - 1) as nat));
        assert(2 * (b * pow2((m - 1) as nat)) == b * p) by (nonlinear_arith) requires p == 2 * pow2((m - 1) as nat);
        let r = a + b + d - 2 * e; assert(0 <= r <= 1);
        assert(low + a * p + b * p + d * p - e * (2 * p) == low + r * p) by (nonlinear_arith) requires r == a + b + d - 2 * e;
        assert(0 <= r * p <= p) by (nonlinear_arith) requires 0 <= r <= 1, p > 0;
    }
}
/// the bit the circuit computes is bit k-1 of the sum
proof fn sign(x: spec_fn(int) -> bool, y: spec_fn(int) -> bool, z: spec_fn(int) -> bool, k: nat) requires k >= 3
    ensures b2i(top(fs(x, y, z), fc(x, y, z), k - 1)) == ((val(x, k) + val(y, k) + val(z, k)) / (pow2((k - 1) as nat) as int)) % 2
{
    let s = fs(x, y, z); let c = fc(x, y, z);
    three(x, y, z, k); let m = (k - 1) as nat; ripple(s, c, m); lemma_pow2_unfold(k); lemma_pow2_unfold(m); lemma_pow2_pos(m);
    let p = pow2(m) as int;
    let a = b2i(s(k - 1)); let b = b2i(c(k - 2)); let d = b2i(carry(s, c, m as int)); let h = b2i(c(k - 1));
    let low = val(s, m) + 2 * val(c, (m - 1) as nat) - d * p;
    assert(val(s, k) == val(s, m) + a * p);
    assert(val(c, k) == val(c, m) + h * p);
    assert(val(c, m) == val(c, (m - 1) as nat) + b * pow2((m - 1) as nat));
    assert(2 * (b * pow2((m - 1) as nat)) == b * p) by (nonlinear_arith) requires p == 2 * pow2((m - 1) as nat);
    let q = a + b + d + 2 * h;
    let total = val(x, k) + val(y, k) + val(z, k);
    assert(total == low + a * p + b * p + d * p + 2 * (h * p));
    assert(low + a * p + b * p + d * p + 2 * (h * p) == q * p + low) by (nonlinear_arith) requires q == a + b + d + 2 * h;
    lemma_fundamental_div_mod_converse(total, p, q, low);
    assert((a + b + d + 2 * h) % 2 == (a + b + d) % 2);
    assert((a + b + d) % 2 == b2i(top(s, c, k - 1)));
}
/// and hence, for words of k bits, the sign bit of the sum modulo 2^k
proof fn sign_word(x: u128, y: u128, z: u128, k: nat) requires 3 <= k <= 128, x < pow2(k), y < pow2(k), z < pow2(k)
    ensures b2i(top(fs(bits_of(x), bits_of(y), bits_of(z)), fc(bits_of(x), bits_of(y), bits_of(z)), k - 1)) == (((x + y + z) as int % (pow2(k) as int)) / (pow2((k - 1) as nat) as int))
{
    val_low(x, k); val_low(y, k); val_low(z, k);
    lemma_small_mod(x as nat, pow2(k)); lemma_small_mod(y as nat, pow2(k)); lemma_small_mod(z as nat, pow2(k));
    sign(bits_of(x), bits_of(y), bits_of(z), k);
    let t = x + y + z; let p = pow2((k - 1) as nat) as int; lemma_pow2_pos((k - 1) as nat); lemma_pow2_unfold(k);
    assert(t % (p * 2) == p * ((t / p) % 2) + t % p) by { lemma_breakdown(t, p, 2); }
    let q = (t / p) % 2; let r = t % p;
    assert(0 <= r < p) by { lemma_mod_bound(t, p); }
    assert(p * q + r == q * p + r) by (nonlinear_arith);
    lemma_fundamental_div_mod_converse(q * p + r, p, q, r);
}

proof fn bits_all() ensures forall|x: u128, y: u128, l: int| #[trigger] bit(x ^ y, l) == (bit(x, l) != bit(y, l)), forall|x: u128, y: u128, l: int| #[trigger] bit(x & y, l) == (bit(x, l) && bit(y, l))
{
    assert forall|x: u128, y: u128, l: int| #[trigger] bit(x ^ y, l) == (bit(x, l) != bit(y, l)) by { bit_xor(x, y, l); }
    assert forall|x: u128, y: u128, l: int| #[trigger] bit(x & y, l) == (bit(x, l) && bit(y, l)) by { bit_and(x, y, l); }
}
/// words that agree in all bits are the same
proof fn same_bits(a: u128, b: u128) requires forall|l: int| 0 <= l < 128 ==> bit(a, l) == bit(b, l) ensures a == b
{
    val_low(a, 128); val_low(b, 128); lemma_pow2_adds(64, 64); assert(pow2(64) == 0x1_0000_0000_0000_0000) by { lemma2_to64(); } assert(pow2(128) == 0x1_0000_0000_0000_0000 * 0x1_0000_0000_0000_0000); 
    same_val(bits_of(a), bits_of(b), 128);
    lemma_small_mod(a as nat, pow2(128)); lemma_small_mod(b as nat, pow2(128));
}
proof fn same_val(f: spec_fn(int) -> bool, g: spec_fn(int) -> bool, n: nat) requires forall|l: int| 0 <= l < n ==> #[trigger] f(l) == g(l) ensures val(f, n) == val(g, n) decreases n
{ if n > 0 { same_val(f, g, (n - 1) as nat); assert(f(n - 1) == g(n - 1)); } }
