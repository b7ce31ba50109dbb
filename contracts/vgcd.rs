// Divisibility: greatest common divisors, powers of two and trailing zeros, for the text of
// num-integer's gcd (Stein's algorithm) and of num-rational's Ratio.
#![allow(unused)]
use vstd::prelude::*;
use vstd::std_specs::bits::*;
use crate::vshadow::num_traits::{tdiv, vabs};
verus! {
pub open spec fn mult(a: int, g: int, p: int) -> bool { a == g * p }
pub open spec fn lin(g: int, a: int, b: int, x: int, y: int) -> bool { g == a * x + b * y }
/// g is a common divisor of a and b and an integer combination of them
#[verifier::opaque]
pub open spec fn is_gcd(g: int, a: int, b: int) -> bool {
    g >= 0 && (exists|p: int| #[trigger] mult(a, g, p)) && (exists|q: int| #[trigger] mult(b, g, q))
        && (exists|x: int, y: int| #[trigger] lin(g, a, b, x, y))
}
pub open spec fn two(k: nat) -> int decreases k { if k == 0 { 1 } else { 2 * two((k - 1) as nat) } }
pub open spec fn odd(a: int) -> bool { a % 2 == 1 }
pub proof fn intro(g: int, a: int, b: int, p: int, q: int, x: int, y: int)
    requires g >= 0, a == g * p, b == g * q, g == a * x + b * y
    ensures is_gcd(g, a, b)
{ reveal(is_gcd); assert(mult(a, g, p)); assert(mult(b, g, q)); assert(lin(g, a, b, x, y)); }
pub proof fn elim(g: int, a: int, b: int) -> (r: (int, int, int, int))
    requires is_gcd(g, a, b)
    ensures g >= 0, a == g * r.0, b == g * r.1, g == a * r.2 + b * r.3
{
    reveal(is_gcd);
    let p = choose|p: int| #[trigger] mult(a, g, p);
    let q = choose|q: int| #[trigger] mult(b, g, q);
    let (x, y) = choose|x: int, y: int| #[trigger] lin(g, a, b, x, y);
    (p, q, x, y)
}
pub proof fn sym(g: int, a: int, b: int) requires is_gcd(g, a, b) ensures is_gcd(g, b, a)
{ let (p, q, x, y) = elim(g, a, b); intro(g, b, a, q, p, y, x); }
pub proof fn neg(g: int, a: int, b: int) requires is_gcd(g, a, b) ensures is_gcd(g, -a, b)
{
    let (p, q, x, y) = elim(g, a, b);
    assert(g * (-p) == -(g * p) && (-a) * (-x) == a * x) by (nonlinear_arith);
    intro(g, -a, b, -p, q, -x, y);
}
pub proof fn same(m: int) requires m >= 0 ensures is_gcd(m, m, m)
{ intro(m, m, m, 1, 1, 1, 0); }
pub proof fn zero(m: int) ensures is_gcd(if m < 0 { -m } else { m }, m, 0), is_gcd(if m < 0 { -m } else { m }, 0, m)
{
    let s = if m < 0 { -1int } else { 1 };
    let g = if m < 0 { -m } else { m };
    assert(m == g * s && g == m * s) by (nonlinear_arith) requires (m < 0 && s == -1 && g == -m) || (m >= 0 && s == 1 && g == m);
    assert(0 == g * 0 && 0 == 0 * 0) by (nonlinear_arith);
    intro(g, m, 0, s, 0, s, 0);
    sym(g, m, 0);
}
pub proof fn addn(g: int, m: int, n: int) requires is_gcd(g, m - n, n) ensures is_gcd(g, m, n)
{
    let (p, q, x, y) = elim(g, m - n, n);
    assert(g * (p + q) == g * p + g * q) by (nonlinear_arith);
    assert((m - n) * x + n * y == m * x + n * (y - x)) by (nonlinear_arith);
    intro(g, m, n, p + q, q, x, y - x);
}
pub proof fn dbl(g: int, m: int, n: int) requires is_gcd(g, m, n), odd(n) ensures is_gcd(g, 2 * m, n)
{
    let (p, q, x, y) = elim(g, m, n);
    assert(g * (2 * p) == 2 * (g * p)) by (nonlinear_arith);
    if x % 2 == 0 {
        let h = x / 2;
        assert((2 * m) * h == m * x) by (nonlinear_arith) requires x == 2 * h;
        intro(g, 2 * m, n, 2 * p, q, h, y);
    } else {
        let h = (x + n) / 2;
        assert(x + n == 2 * h);
        assert((2 * m) * h + n * (y - m) == m * x + n * y) by (nonlinear_arith) requires x + n == 2 * h;
        intro(g, 2 * m, n, 2 * p, q, h, y - m);
    }
}
pub proof fn dblk(g: int, m: int, n: int, k: nat) requires is_gcd(g, m, n), odd(n) ensures is_gcd(g, m * two(k), n)
    decreases k
{
    if k > 0 {
        let j = (k - 1) as nat;
        dblk(g, m, n, j); dbl(g, m * two(j), n);
        assert(2 * (m * two(j)) == m * (2 * two(j))) by (nonlinear_arith);
    } else { assert(m * 1 == m); }
}
pub proof fn scale(g: int, m: int, n: int, c: int) requires is_gcd(g, m, n), c >= 0 ensures is_gcd(g * c, m * c, n * c)
{
    let (p, q, x, y) = elim(g, m, n);
    assert(m * c == (g * c) * p) by (nonlinear_arith) requires m == g * p;
    assert(n * c == (g * c) * q) by (nonlinear_arith) requires n == g * q;
    assert(g * c == (m * c) * x + (n * c) * y) by (nonlinear_arith) requires g == m * x + n * y;
    assert(g * c >= 0) by (nonlinear_arith) requires g >= 0, c >= 0;
    intro(g * c, m * c, n * c, p, q, x, y);
}
pub proof fn two_pos(k: nat) ensures two(k) >= 1 decreases k { if k > 0 { two_pos((k - 1) as nat); } }
pub proof fn two_add(a: nat, b: nat) ensures two(a + b) == two(a) * two(b) decreases a
{
    if a > 0 {
        two_add((a - 1) as nat, b);
        assert(2 * (two((a - 1) as nat) * two(b)) == (2 * two((a - 1) as nat)) * two(b)) by (nonlinear_arith);
    }
}
/// one step of Stein's loop: m0 - n == m1 * 2^k
pub proof fn step(m0: int, n: int, m1: int, k: nat)
    requires m0 - n == m1 * two(k)
    ensures odd(n) ==> (forall|g: int| #[trigger] is_gcd(g, m1, n) ==> is_gcd(g, m0, n)),
        odd(n) ==> (forall|g: int| #[trigger] is_gcd(g, n, m1) ==> is_gcd(g, n, m0))
{
    if odd(n) {
        assert forall|g: int| #[trigger] is_gcd(g, m1, n) implies is_gcd(g, m0, n) by { dblk(g, m1, n, k); addn(g, m0, n); }
        assert forall|g: int| #[trigger] is_gcd(g, n, m1) implies is_gcd(g, n, m0) by { sym(g, n, m1); dblk(g, m1, n, k); addn(g, m0, n); sym(g, m0, n); }
    }
}
/// a = ±m 2^km, b = ±n 2^kn with m and n odd, and s the smaller of the exponents
pub proof fn start(a: int, b: int, m: int, km: nat, n: int, kn: nat, s: nat)
    requires (a == m * two(km) || a == -(m * two(km))), (b == n * two(kn) || b == -(n * two(kn))), odd(m), odd(n),
        s <= km, s <= kn, s == km || s == kn
    ensures forall|g: int| #[trigger] is_gcd(g, m, n) ==> is_gcd(g * two(s), a, b)
{
    assert forall|g: int| #[trigger] is_gcd(g, m, n) implies is_gcd(g * two(s), a, b) by {
        let i = (km - s) as nat; let j = (kn - s) as nat;
        two_pos(s);
        two_add(i, s); two_add(j, s);
        dblk(g, m, n, i);
        let x = m * two(i);
        if j == 0 { assert(n * two(j) == n); }
        else { assert(i == 0 && two(i) == 1); assert(x == m) by (nonlinear_arith) requires x == m * two(i), two(i) == 1; sym(g, m, n); dblk(g, n, m, j); sym(g, n * two(j), m); }
        let y = n * two(j);
        scale(g, x, y, two(s));
        assert(x * two(s) == m * two(km)) by (nonlinear_arith) requires x == m * two(i), two(km) == two(i) * two(s);
        assert(y * two(s) == n * two(kn)) by (nonlinear_arith) requires y == n * two(j), two(kn) == two(j) * two(s);
        let h = g * two(s); let c = m * two(km); let d = n * two(kn);
        if a == -c { neg(h, c, d); }
        if b == -d { sym(h, a, d); neg(h, d, a); sym(h, -d, a); }
    }
}
/// a divisor of a positive number is not larger
pub proof fn le(g: int, a: int, b: int)
    requires is_gcd(g, a, b)
    ensures a > 0 ==> 1 <= g <= a, a < 0 ==> 1 <= g <= -a, b > 0 ==> 1 <= g <= b, b < 0 ==> 1 <= g <= -b
{
    let (p, q, x, y) = elim(g, a, b);
    assert(a > 0 ==> 1 <= g <= a) by (nonlinear_arith) requires a == g * p, g >= 0;
    assert(a < 0 ==> 1 <= g <= -a) by (nonlinear_arith) requires a == g * p, g >= 0;
    assert(b > 0 ==> 1 <= g <= b) by (nonlinear_arith) requires b == g * q, g >= 0;
    assert(b < 0 ==> 1 <= g <= -b) by (nonlinear_arith) requires b == g * q, g >= 0;
}
/// the number of trailing zeros of a u128 (vstd has the narrower ones)
pub uninterp spec fn u128_trailing_zeros(a: u128) -> u32;
#[verifier::external_body]
pub broadcast proof fn axiom_u128_trailing_zeros(i: u128)
    ensures
        0 <= #[trigger] u128_trailing_zeros(i) <= 128,
        i == 0 <==> u128_trailing_zeros(i) == 128,
        i << sub(128, u128_trailing_zeros(i) as u128) == 0,
        u128_trailing_zeros(i) < 128 ==> (i >> u128_trailing_zeros(i) as u128) & 1 == 1,
        forall|j: u128| 0 <= j < u128_trailing_zeros(i) ==> #[trigger] (i >> j) & 1u128 == 0u128,
{ }
pub assume_specification[ u128::trailing_zeros ](a: u128) -> (r: u32) ensures r == u128_trailing_zeros(a);
macro_rules! bits { ($($t:ident $u:ident $n:literal $tz:ident $ax:ident $tzl:ident $neg:ident $low:ident $halve_u:ident $halve_t:ident $or_u:ident $or_t:ident $shl:ident $shl_t:ident),*) => { $( verus! {
    pub assume_specification[ $t::trailing_zeros ](a: $t) -> (r: u32) ensures r == $tz(a as $u);
    /// what the number of trailing zeros is
    pub proof fn $tzl(u: $u, k: u32)
        requires k < $n, (u >> (k as $u)) & 1 == 1, forall|j: $u| j < k ==> #[trigger] (u >> j) & 1 == 0
        ensures $tz(u) == k
    {
        $ax(u);
        let t = $tz(u);
        if u == 0 { assert(k < $n ==> (0 as $u >> (k as $u)) & 1 == 0) by (bit_vector); }
        if t < k { assert((u >> (t as $u)) & 1 == 0); }
        if k < t { assert((u >> (k as $u)) & 1 == 0); }
    }
    pub proof fn $neg(u: $u, v: $u)
        requires u != 0, u + v == $u::MAX + 1
        ensures $tz(v) == $tz(u)
    {
        $ax(u);
        let k = $tz(u) as $u;
        assert(v == sub(0, u)) by (bit_vector) requires u != 0, u + v == $u::MAX + 1;
        assert((v >> k) & 1 == 1) by (bit_vector) requires v == sub(0, u), k < $n, (u >> k) & 1 == 1, k == 0 || u << (($n - k) as $u) == 0;
        assert forall|j: $u| j < k implies #[trigger] (v >> j) & 1 == 0 by {
            assert((v >> j) & 1 == 0) by (bit_vector) requires v == sub(0, u), k < $n, j < k, u << (($n - k) as $u) == 0;
        }
        $tzl(v, k as u32);
    }
    /// the trailing zero bits of u are a factor of a power of two
    pub proof fn $low(u: $u, k: nat)
        requires k < $n, forall|j: $u| j < k ==> #[trigger] (u >> j) & 1 == 0
        ensures u as int == ((u >> (k as $u)) as int) * two(k)
        decreases k
    {
        if k == 0 { assert(u >> 0 == u) by (bit_vector); let z = (u >> 0) as int; assert(z * 1 == z); }
        else {
            let i = (k - 1) as nat; let j = i as $u;
            $low(u, i);
            assert((u >> j) & 1 == 0);
            assert(j < $n - 1 && (u >> j) & 1 == 0 ==> (u >> j) == 2 * (u >> ((j + 1) as $u))) by (bit_vector);
            assert(k as $u == j + 1);
            let a = (u >> j) as int; let b = (u >> (k as $u)) as int;
            assert(a == 2 * b);
            assert((2 * b) * two(i) == b * (2 * two(i))) by (nonlinear_arith);
        }
    }
    pub proof fn $halve_u(m: $u)
        requires m > 0
        ensures ({ let k = $tz(m); k < $n && m as int == ((m >> k) as int) * two(k as nat) && odd((m >> k) as int) && 0 < (m >> k) <= m })
    {
        $ax(m);
        let k = $tz(m);
        $low(m, k as nat);
        assert(m >> k == m >> (k as $u)) by (bit_vector) requires k < $n;
        let r = m >> k;
        assert(r & 1 == 1 ==> r % 2 == 1 && r > 0) by (bit_vector);
        assert(m >> k <= m) by (bit_vector) requires k < $n;
    }
    pub proof fn $halve_t(m: $t)
        requires m > 0,
        ensures ({ let k = $tz(m as $u); k < $n && m as int == ((m >> k) as int) * two(k as nat) && odd((m >> k) as int) && 0 < (m >> k) <= m })
    {
        $halve_u(m as $u);
        let k = $tz(m as $u);
        assert(k < $n && m > 0 ==> (m >> k) as $u == ((m as $u) >> k) && (m >> k) >= 0) by (bit_vector);
    }
    pub proof fn $or_u(m: $u, n: $u)
        requires m != 0, n != 0
        ensures m | n != 0, $tz(m | n) <= $tz(m), $tz(m | n) <= $tz(n), $tz(m | n) == $tz(m) || $tz(m | n) == $tz(n)
    {
        $ax(m); $ax(n); $ax(m | n);
        assert(m != 0 ==> m | n != 0) by (bit_vector);
        let a = $tz(m) as $u; let b = $tz(n) as $u;
        if a <= b {
            assert forall|j: $u| j < a implies #[trigger] ((m | n) >> j) & 1 == 0 by {
                assert((m >> j) & 1 == 0 && (n >> j) & 1 == 0);
                assert((m >> j) & 1 == 0 && (n >> j) & 1 == 0 ==> ((m | n) >> j) & 1 == 0) by (bit_vector);
            }
            assert((m >> a) & 1 == 1 ==> ((m | n) >> a) & 1 == 1) by (bit_vector);
            $tzl(m | n, $tz(m));
        } else {
            assert forall|j: $u| j < b implies #[trigger] ((m | n) >> j) & 1 == 0 by {
                assert((m >> j) & 1 == 0 && (n >> j) & 1 == 0);
                assert((m >> j) & 1 == 0 && (n >> j) & 1 == 0 ==> ((m | n) >> j) & 1 == 0) by (bit_vector);
            }
            assert((n >> b) & 1 == 1 ==> ((m | n) >> b) & 1 == 1) by (bit_vector);
            $tzl(m | n, $tz(n));
        }
    }
    pub proof fn $or_t(m: $t, n: $t)
        requires m != 0, n != 0, m > $t::MIN, n > $t::MIN
        ensures ({
            let a = $tz((if m < 0 { -m } else { m as int }) as $u); let b = $tz((if n < 0 { -n } else { n as int }) as $u); let s = $tz((m | n) as $u);
            s <= a && s <= b && (s == a || s == b) && s < $n && m | n != 0 })
    {
        let u = m as $u; let w = n as $u;
        assert((m | n) as $u == (m as $u) | (n as $u)) by (bit_vector);
        assert(m != 0 ==> m | n != 0 && m as $u != 0) by (bit_vector);
        assert(n != 0 ==> n as $u != 0) by (bit_vector);
        $or_u(u, w);
        $ax(u); $ax(w);
        if m < 0 { assert(m < 0 ==> (m as $u) == m + $u::MAX + 1) by (bit_vector); $neg(u, (-m) as $u); }
        if n < 0 { assert(n < 0 ==> (n as $u) == n + $u::MAX + 1) by (bit_vector); $neg(w, (-n) as $u); }
    }
    pub proof fn $shl(m: $u, k: u32)
        requires k < $n, m * two(k as nat) <= $u::MAX
        ensures (m << k) as int == m * two(k as nat)
        decreases k
    {
        if k == 0 { assert(m << 0 == m) by (bit_vector); assert(m * 1 == m); }
        else {
            let j = (k - 1) as u32;
            assert(m * (2 * two(j as nat)) == 2 * (m * two(j as nat))) by (nonlinear_arith);
            two_pos(j as nat);
            assert(m * two(j as nat) >= 0) by (nonlinear_arith) requires m >= 0, two(j as nat) >= 1;
            $shl(m, j);
            let a = m << j;
            assert(m << k == 2 * (m << j)) by (bit_vector) requires k < $n, k == j + 1, m << j <= $u::MAX / 2;
        }
    }
    pub proof fn $shl_t(m: $t, k: u32)
        requires k < $n, m >= 0, m * two(k as nat) <= $t::MAX
        ensures (m << k) as int == m * two(k as nat)
    {
        $shl(m as $u, k);
        let a = (m as $u) << k;
        assert(m << k == a as $t && (m << k) as int == a) by (bit_vector) requires a == (m as $u) << k, k < $n, a <= $t::MAX, m >= 0;
    }
} )* } }
bits!(i8 u8 8 u8_trailing_zeros axiom_u8_trailing_zeros tz_u8 neg_u8 low_u8 halve_u8 halve_i8 or_u8 or_i8 shl_u8 shl_i8,
    i16 u16 16 u16_trailing_zeros axiom_u16_trailing_zeros tz_u16 neg_u16 low_u16 halve_u16 halve_i16 or_u16 or_i16 shl_u16 shl_i16,
    i32 u32 32 u32_trailing_zeros axiom_u32_trailing_zeros tz_u32 neg_u32 low_u32 halve_u32 halve_i32 or_u32 or_i32 shl_u32 shl_i32,
    i64 u64 64 u64_trailing_zeros axiom_u64_trailing_zeros tz_u64 neg_u64 low_u64 halve_u64 halve_i64 or_u64 or_i64 shl_u64 shl_i64,
    i128 u128 128 u128_trailing_zeros axiom_u128_trailing_zeros tz_u128 neg_u128 low_u128 halve_u128 halve_i128 or_u128 or_i128 shl_u128 shl_i128);

/// division by a divisor
pub proof fn quo(n: int, g: int, p: int)
    requires n == g * p, g >= 1
    ensures tdiv(n, g) == p, vabs(p) <= vabs(n), (n > 0 ==> p > 0), (n < 0 ==> p < 0), (n == 0 ==> p == 0)
{
    assert(n > 0 ==> p > 0) by (nonlinear_arith) requires n == g * p, g >= 1;
    assert(n < 0 ==> p < 0) by (nonlinear_arith) requires n == g * p, g >= 1;
    assert(n == 0 ==> p == 0) by (nonlinear_arith) requires n == g * p, g >= 1;
    let x = vabs(n); let y = vabs(p);
    assert(x == g * y) by (nonlinear_arith) requires n == g * p, (p >= 0 && y == p && x == n) || (p <= 0 && y == -p && x == -n);
    vstd::arithmetic::div_mod::lemma_div_multiples_vanish(y, g);
    assert(y <= x) by (nonlinear_arith) requires x == g * y, g >= 1, y >= 0;
}
/// a pair divided by its gcd is in lowest terms
pub proof fn prim(g: int, n: int, d: int)
    requires is_gcd(g, n, d), g >= 1
    ensures n == g * tdiv(n, g), d == g * tdiv(d, g), is_gcd(1, tdiv(n, g), tdiv(d, g)),
        vabs(tdiv(n, g)) <= vabs(n), vabs(tdiv(d, g)) <= vabs(d), d > 0 ==> tdiv(d, g) > 0, d < 0 ==> tdiv(d, g) < 0, n != 0 ==> tdiv(n, g) != 0,
        n >= 0 ==> tdiv(n, g) >= 0, n <= 0 ==> tdiv(n, g) <= 0
{
    let (p, q, x, y) = elim(g, n, d);
    quo(n, g, p); quo(d, g, q);
    assert(p * x + q * y == 1) by (nonlinear_arith) requires g == n * x + d * y, n == g * p, d == g * q, g >= 1;
    intro(1, p, q, p, q, x, y);
}
pub proof fn one(n: int) ensures is_gcd(1, n, 1)
{ assert(n == 1 * n && 1 == 1 * 1 && 1 == n * 0 + 1 * 1) by (nonlinear_arith); intro(1, n, 1, n, 1, 0, 1); }
pub proof fn cancel(a: int, b: int, k: int)
    requires a * k == b * k, k != 0
    ensures a == b
{ assert(a == b) by (nonlinear_arith) requires a * k == b * k, k != 0; }
/// a/b is n/d with both multiplied by the same number, where n/d is in lowest terms
pub proof fn unred(n: int, d: int, a: int, b: int) -> (k: int)
    requires d >= 1, is_gcd(1, n, d), b != 0, n * b == a * d
    ensures a == n * k, b == d * k, k != 0, vabs(n) <= vabs(a), d <= vabs(b), b > 0 ==> k > 0
{
    let (p, q, x, y) = elim(1, n, d);
    let k = a * x + b * y;
    assert(b == d * k) by (nonlinear_arith) requires 1 == n * x + d * y, n * b == a * d, k == a * x + b * y;
    assert((n * k) * d == a * d) by (nonlinear_arith) requires b == d * k, n * b == a * d;
    cancel(n * k, a, d);
    assert(k != 0) by (nonlinear_arith) requires b == d * k, b != 0;
    assert(b > 0 ==> k > 0) by (nonlinear_arith) requires b == d * k, d >= 1;
    assert(vabs(n) <= vabs(a)) by (nonlinear_arith) requires a == n * k, k != 0;
    assert(d <= vabs(b)) by (nonlinear_arith) requires b == d * k, k != 0, d >= 1;
    k
}
}
