// ---------------------------------------------------------------- the three parties together
pub open spec fn prev(i: int) -> int { if i == 0 { 2 } else { i - 1 } }
/// components of a shared vector: x[p][k] is the first component party p holds of entry k; its second one is that of the previous party
pub open spec fn lies(x: Seq<Seq<El>>, p: int, n: nat) -> Seq<Share> { Seq::new(n, |k: int| Share { a: x[p][k], b: x[prev(p)][k] }) }
pub open spec fn opens(x: Seq<Seq<El>>, k: int) -> int { x[0][k].w@ + x[1][k].w@ + x[2][k].w@ }
/// the sum of the products of the opened values (where the mask is set)
pub open spec fn dot_of(x: Seq<Seq<El>>, y: Seq<Seq<El>>, i: int) -> int decreases i { if i <= 0 { 0 } else { dot_of(x, y, i - 1) + opens(x, i - 1) * opens(y, i - 1) } }
pub open spec fn masked_of(x: Seq<Seq<El>>, y: Seq<Seq<El>>, m: Seq<bool>, i: int) -> int decreases i { if i <= 0 { 0 } else { masked_of(x, y, m, i - 1) + if m[i - 1] { opens(x, i - 1) * opens(y, i - 1) } else { 0 } } }
proof fn one_product(x: Seq<Seq<El>>, y: Seq<Seq<El>>, n: nat, k: int) requires 0 <= k < n
    ensures prod(lies(x, 0, n)[k], lies(y, 0, n)[k]) + prod(lies(x, 1, n)[k], lies(y, 1, n)[k]) + prod(lies(x, 2, n)[k], lies(y, 2, n)[k]) == opens(x, k) * opens(y, k)
{
    let (a, b, c, d, e, f) = (x[0][k].w@, x[1][k].w@, x[2][k].w@, y[0][k].w@, y[1][k].w@, y[2][k].w@);
    assert((a * d + a * f + c * d) + (b * e + b * d + a * e) + (c * f + c * e + b * f) == (a + b + c) * (d + e + f)) by (nonlinear_arith);
}
/// the local parts of the three parties add up to the dot product of the opened vectors, for vectors of every length
proof fn dot_adds_up(x: Seq<Seq<El>>, y: Seq<Seq<El>>, n: nat, i: int) requires 0 <= i <= n
    ensures dsum(lies(x, 0, n), lies(y, 0, n), i) + dsum(lies(x, 1, n), lies(y, 1, n), i) + dsum(lies(x, 2, n), lies(y, 2, n), i) == dot_of(x, y, i) decreases i
{ if i > 0 { dot_adds_up(x, y, n, i - 1); one_product(x, y, n, i - 1); } }
proof fn masked_adds_up(x: Seq<Seq<El>>, y: Seq<Seq<El>>, m: Seq<bool>, n: nat, i: int) requires 0 <= i <= n
    ensures msum(lies(x, 0, n), lies(y, 0, n), m, i) + msum(lies(x, 1, n), lies(y, 1, n), m, i) + msum(lies(x, 2, n), lies(y, 2, n), m, i) == masked_of(x, y, m, i) decreases i
{ if i > 0 { masked_adds_up(x, y, m, n, i - 1); one_product(x, y, n, i - 1); } }
/// hence what the three parties hold after the operation opens to the dot product, since their zero shares add up to zero
/// (C17), and the copies agree, since what a party receives from the previous one is what that one sent
proof fn dot_opens(x: Seq<Seq<El>>, y: Seq<Seq<El>>, n: nat, z: Seq<int>, r: Seq<Share>)
    requires z.len() == 3, z[0] + z[1] + z[2] == 0, r.len() == 3, forall|p: int| 0 <= p < 3 ==> (#[trigger] r[p]).a.w@ == z[p] + dsum(lies(x, p, n), lies(y, p, n), n as int) && r[p].b == r[prev(p)].a
    ensures r[0].a.w@ + r[1].a.w@ + r[2].a.w@ == dot_of(x, y, n as int), r[1].b == r[0].a, r[2].b == r[1].a, r[0].b == r[2].a
{ dot_adds_up(x, y, n, n as int); assert(r[0].a.w@ == z[0] + dsum(lies(x, 0, n), lies(y, 0, n), n as int) && r[1].a.w@ == z[1] + dsum(lies(x, 1, n), lies(y, 1, n), n as int) && r[2].a.w@ == z[2] + dsum(lies(x, 2, n), lies(y, 2, n), n as int)); assert(r[1].b == r[prev(1)].a && r[2].b == r[prev(2)].a && r[0].b == r[prev(0)].a); }
proof fn masked_opens(x: Seq<Seq<El>>, y: Seq<Seq<El>>, m: Seq<bool>, n: nat, z: Seq<int>, r: Seq<Share>)
    requires z.len() == 3, z[0] + z[1] + z[2] == 0, r.len() == 3, forall|p: int| 0 <= p < 3 ==> (#[trigger] r[p]).a.w@ == z[p] + msum(lies(x, p, n), lies(y, p, n), m, n as int) && r[p].b == r[prev(p)].a
    ensures r[0].a.w@ + r[1].a.w@ + r[2].a.w@ == masked_of(x, y, m, n as int), r[1].b == r[0].a, r[2].b == r[1].a, r[0].b == r[2].a
{ masked_adds_up(x, y, m, n, n as int); assert(r[0].a.w@ == z[0] + msum(lies(x, 0, n), lies(y, 0, n), m, n as int) && r[1].a.w@ == z[1] + msum(lies(x, 1, n), lies(y, 1, n), m, n as int) && r[2].a.w@ == z[2] + msum(lies(x, 2, n), lies(y, 2, n), m, n as int)); assert(r[1].b == r[prev(1)].a && r[2].b == r[prev(2)].a && r[0].b == r[prev(0)].a); }
/// if the mac entries open to the key times the entries, the mac of the result opens to the key times the result
proof fn mac_follows(x: Seq<Seq<El>>, t: Seq<Seq<El>>, y: Seq<Seq<El>>, m: Seq<bool>, key: int, i: int) requires 0 <= i, forall|k: int| 0 <= k < i ==> opens(t, k) == key * #[trigger] opens(x, k)
    ensures dot_of(t, y, i) == key * dot_of(x, y, i), masked_of(t, y, m, i) == key * masked_of(x, y, m, i) decreases i
{
    if i > 0 {
        mac_follows(x, t, y, m, key, i - 1); let (p, q, d, e) = (opens(x, i - 1), opens(y, i - 1), dot_of(x, y, i - 1), masked_of(x, y, m, i - 1)); assert(opens(t, i - 1) == key * p);
        assert(key * d + (key * p) * q == key * (d + p * q)) by (nonlinear_arith); assert(key * e + (key * p) * q == key * (e + p * q)) by (nonlinear_arith);
    } else { assert(key * 0 == 0) by (nonlinear_arith); }
}
