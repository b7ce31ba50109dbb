// Assumed contracts on the crate's dependencies (num-traits, num-integer, numcmp, ...).
// Nothing in this file comes from /repo.  Every `external_body` here is an assumption and is
// listed in the evidence.
#![allow(unused)]

pub mod num_traits {
    use vstd::prelude::*;
    verus! {
    /// The mathematical value of a primitive integer.
    pub trait ToPrimitive: Sized + Copy {
        spec fn v(self) -> int;
        fn to_i8(&self) -> (r: Option<i8>)
            ensures match r { Some(x) => x as int == self.v(), None => !(i8::MIN <= self.v() <= i8::MAX) };
        fn to_i16(&self) -> (r: Option<i16>)
            ensures match r { Some(x) => x as int == self.v(), None => !(i16::MIN <= self.v() <= i16::MAX) };
        fn to_i32(&self) -> (r: Option<i32>)
            ensures match r { Some(x) => x as int == self.v(), None => !(i32::MIN <= self.v() <= i32::MAX) };
        fn to_i64(&self) -> (r: Option<i64>)
            ensures match r { Some(x) => x as int == self.v(), None => !(i64::MIN <= self.v() <= i64::MAX) };
        fn to_i128(&self) -> (r: Option<i128>)
            ensures match r { Some(x) => x as int == self.v(), None => !(i128::MIN <= self.v() <= i128::MAX) };
        fn to_u8(&self) -> (r: Option<u8>)
            ensures match r { Some(x) => x as int == self.v(), None => !(u8::MIN <= self.v() <= u8::MAX) };
        fn to_u16(&self) -> (r: Option<u16>)
            ensures match r { Some(x) => x as int == self.v(), None => !(u16::MIN <= self.v() <= u16::MAX) };
        fn to_u32(&self) -> (r: Option<u32>)
            ensures match r { Some(x) => x as int == self.v(), None => !(u32::MIN <= self.v() <= u32::MAX) };
        fn to_u64(&self) -> (r: Option<u64>)
            ensures match r { Some(x) => x as int == self.v(), None => !(u64::MIN <= self.v() <= u64::MAX) };
        fn to_u128(&self) -> (r: Option<u128>)
            ensures match r { Some(x) => x as int == self.v(), None => !(u128::MIN <= self.v() <= u128::MAX) };
    }
    pub trait NumCast: ToPrimitive {
        spec fn lo() -> int;
        spec fn hi() -> int;
        fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>)
            ensures match r { Some(x) => x.v() == n.v() && Self::lo() <= n.v() <= Self::hi(),
                              None => !(Self::lo() <= n.v() <= Self::hi()) };
    }
    pub trait Bounded: NumCast {
        fn min_value() -> (r: Self) ensures r.v() == Self::lo();
        fn max_value() -> (r: Self) ensures r.v() == Self::hi();
    }
    /// PrimInt is implemented by the primitive integers only (num-traits says so by implementing
    /// it for them); what is used of that are the laws, proved for each of them below.
    pub trait PrimInt: Bounded
        + core::ops::Div<Output = Self> + core::ops::Mul<Output = Self>
        + core::ops::Add<Output = Self> + core::ops::Sub<Output = Self> + core::ops::Rem<Output = Self> + Ord {
        fn zero() -> (r: Self) ensures r.v() == 0;
        fn one() -> (r: Self) ensures r.v() == 1;
        fn is_zero(&self) -> (r: bool) ensures r == (self.v() == 0);
        fn set_one(&mut self) ensures (*final(self)).v() == 1;
        fn checked_mul(&self, v: &Self) -> (r: Option<Self>)
            ensures match r { Some(x) => x.v() == self.v() * v.v() && Self::lo() <= self.v() * v.v() <= Self::hi(),
                              None => !(Self::lo() <= self.v() * v.v() <= Self::hi()) };
        fn checked_add(&self, v: &Self) -> (r: Option<Self>)
            ensures match r { Some(x) => x.v() == self.v() + v.v() && Self::lo() <= self.v() + v.v() <= Self::hi(),
                              None => !(Self::lo() <= self.v() + v.v() <= Self::hi()) };
        fn checked_sub(&self, v: &Self) -> (r: Option<Self>)
            ensures match r { Some(x) => x.v() == self.v() - v.v() && Self::lo() <= self.v() - v.v() <= Self::hi(),
                              None => !(Self::lo() <= self.v() - v.v() <= Self::hi()) };
        /// the operators are the mathematical ones as long as the result fits
        proof fn law_ops(a: Self, b: Self)
            ensures
                <Self as DivSpec<Self>>::obeys_div_spec(), <Self as RemSpec<Self>>::obeys_rem_spec(), <Self as MulSpec<Self>>::obeys_mul_spec(),
                <Self as AddSpec<Self>>::obeys_add_spec(), <Self as SubSpec<Self>>::obeys_sub_spec(),
                <Self as DivSpec<Self>>::div_req(a, b) == (b.v() != 0 && Self::lo() <= tdiv(a.v(), b.v()) <= Self::hi()),
                b.v() != 0 && Self::lo() <= tdiv(a.v(), b.v()) <= Self::hi() ==> <Self as DivSpec<Self>>::div_spec(a, b).v() == tdiv(a.v(), b.v()),
                <Self as MulSpec<Self>>::mul_req(a, b) == (Self::lo() <= a.v() * b.v() <= Self::hi()),
                Self::lo() <= a.v() * b.v() <= Self::hi() ==> <Self as MulSpec<Self>>::mul_spec(a, b).v() == a.v() * b.v(),
                <Self as AddSpec<Self>>::add_req(a, b) == (Self::lo() <= a.v() + b.v() <= Self::hi()),
                Self::lo() <= a.v() + b.v() <= Self::hi() ==> <Self as AddSpec<Self>>::add_spec(a, b).v() == a.v() + b.v(),
                <Self as SubSpec<Self>>::sub_req(a, b) == (Self::lo() <= a.v() - b.v() <= Self::hi()),
                Self::lo() <= a.v() - b.v() <= Self::hi() ==> <Self as SubSpec<Self>>::sub_spec(a, b).v() == a.v() - b.v();
        proof fn law_rem(a: Self, b: Self)
            ensures
                <Self as RemSpec<Self>>::rem_req(a, b) == (b.v() != 0 && Self::lo() <= tdiv(a.v(), b.v()) <= Self::hi()),
                b.v() != 0 && Self::lo() <= tdiv(a.v(), b.v()) <= Self::hi() ==> <Self as RemSpec<Self>>::rem_spec(a, b).v() == trem(a.v(), b.v());
        proof fn law_obeys()
            ensures
                <Self as DivSpec<Self>>::obeys_div_spec(), <Self as RemSpec<Self>>::obeys_rem_spec(), <Self as MulSpec<Self>>::obeys_mul_spec(),
                <Self as AddSpec<Self>>::obeys_add_spec(), <Self as SubSpec<Self>>::obeys_sub_spec();
        /// values lie in the range of the type, and the value determines the integer
        proof fn law_range(a: Self) ensures Self::lo() <= a.v() <= Self::hi();
        proof fn law_bounds() ensures Self::lo() <= 0, Self::hi() >= 127, Self::lo() == 0 || Self::lo() == -Self::hi() - 1;
        proof fn law_inj(a: Self, b: Self) requires a.v() == b.v() ensures a == b;
        /// the order is that of the values, and a clone is the integer itself
        proof fn law_cmp(a: Self, b: Self)
            ensures
                <Self as PartialEqSpec>::obeys_eq_spec(), <Self as PartialOrdSpec>::obeys_partial_cmp_spec(), <Self as OrdSpec>::obeys_cmp_spec(),
                <Self as PartialEqSpec>::eq_spec(&a, &b) == (a.v() == b.v()),
                <Self as PartialOrdSpec>::partial_cmp_spec(&a, &b) == Some(int_cmp(a.v(), b.v())),
                <Self as OrdSpec>::cmp_spec(&a, &b) == int_cmp(a.v(), b.v());
        proof fn law_clone(a: Self, b: Self) requires call_ensures(Self::clone, (&a,), b) ensures a == b;
    }
    pub open spec fn int_cmp(a: int, b: int) -> core::cmp::Ordering {
        if a < b { core::cmp::Ordering::Less } else if a == b { core::cmp::Ordering::Equal } else { core::cmp::Ordering::Greater }
    }
    use vstd::std_specs::cmp::*;
    pub broadcast proof fn ax_eq<T: PrimInt>(a: T, b: T)
        ensures T::obeys_eq_spec(), #[trigger] a.eq_spec(&b) == (a.v() == b.v())
    { T::law_cmp(a, b); }
    pub broadcast proof fn ax_partial_cmp<T: PrimInt>(a: T, b: T)
        ensures T::obeys_partial_cmp_spec(), #[trigger] a.partial_cmp_spec(&b) == Some(int_cmp(a.v(), b.v()))
    { T::law_cmp(a, b); }
    pub broadcast proof fn ax_cmp<T: PrimInt>(a: T, b: T)
        ensures T::obeys_cmp_spec(), #[trigger] a.cmp_spec(&b) == int_cmp(a.v(), b.v())
    { T::law_cmp(a, b); }
    pub broadcast proof fn ax_clone<T: PrimInt>(a: T, b: T)
        requires #[trigger] call_ensures(T::clone, (&a,), b)
        ensures a == b
    { T::law_clone(a, b); }
    /// what the text of the dependencies needs on top of the arithmetic
    pub broadcast group group_order { ax_eq, ax_partial_cmp, ax_cmp, ax_clone }
    pub proof fn order_facts<T: PrimInt>()
        ensures T::obeys_eq_spec(), T::obeys_partial_cmp_spec(), T::obeys_cmp_spec()
    { let a: T = arbitrary(); T::law_cmp(a, a); }
    /// truncated division
    pub open spec fn tdiv(a: int, b: int) -> int {
        if b == 0 { 0 } else if (a >= 0) == (b > 0) { vabs(a) / vabs(b) } else { -(vabs(a) / vabs(b)) }
    }
    pub open spec fn trem(a: int, b: int) -> int { a - tdiv(a, b) * b }
    pub open spec fn vabs(a: int) -> int { if a < 0 { -a } else { a } }
    /// Euclidean division by a negative number
    pub proof fn neg_div(a: int, b: int)
        requires a >= 0, b < 0
        ensures a / b == -(a / (-b)), a % b == a % (-b)
    {
        let c = -b;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, c);
        let q = a / c; let r = a % c;
        assert(a / b == -q && a % b == r) by (nonlinear_arith) requires a == c * q + r, 0 <= r < c, b == -c;
    }
    /// truncated division, as vstd spells it
    pub proof fn tdiv_facts(a: int, b: int)
        requires b != 0
        ensures
            tdiv(a, b) == (if a == 0 { 0 } else if a > 0 { a / b } else { -((-a) / b) }),
            trem(a, b) == (if a == 0 { 0 } else if a > 0 { a % b } else { -((-a) % b) }),
            vabs(tdiv(a, b)) <= vabs(a), b != -1 && a < 0 ==> tdiv(a, b) < -a, b == -1 ==> tdiv(a, b) == -a, b > 0 && a < 0 ==> tdiv(a, b) <= 0,
            a >= 0 && b > 0 ==> tdiv(a, b) == a / b,
            a == 0 ==> a % b == 0 && a / b == 0, a >= 0 ==> 0 <= a % b < vabs(b), a <= 0 ==> 0 <= (-a) % b < vabs(b),
    {
        let x = vabs(a); let c = vabs(b);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, c);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, c);
        let q = x / c; let r = x % c;
        if b < 0 { neg_div(x, b); }
        assert(q <= x) by (nonlinear_arith) requires x == c * q + r, 0 <= r < c, q >= 0, x >= 0;
        if c >= 2 && x > 0 { assert(q < x) by (nonlinear_arith) requires x == c * q + r, 0 <= r < c, q >= 0, c >= 2, x > 0; }
        assert(x - q * c == r) by (nonlinear_arith) requires x == c * q + r;
        assert((-q) * b == q * (-b) && (-q) * (-b) == q * b && -(q * b) == (-q) * b) by (nonlinear_arith);
        if c == 1 { assert(q == x) by (nonlinear_arith) requires x == c * q + r, 0 <= r < c, c == 1; }
        if x == 0 { assert(q == 0) by (nonlinear_arith) requires x == c * q + r, 0 <= r < c, x == 0, q >= 0, c > 0; }
    }
    use vstd::std_specs::ops::*;

    pub broadcast proof fn ax_div_req<T: PrimInt>(a: T, b: T)
        ensures T::obeys_div_spec(), #[trigger] a.div_req(b) == (b.v() != 0 && T::lo() <= tdiv(a.v(), b.v()) <= T::hi())
    { T::law_ops(a, b); }
    pub broadcast proof fn ax_div<T: PrimInt>(a: T, b: T)
        ensures T::obeys_div_spec(), b.v() != 0 && T::lo() <= tdiv(a.v(), b.v()) <= T::hi() ==> (#[trigger] a.div_spec(b)).v() == tdiv(a.v(), b.v())
    { T::law_ops(a, b); }
    pub broadcast proof fn ax_rem_req<T: PrimInt>(a: T, b: T)
        ensures T::obeys_rem_spec(), #[trigger] a.rem_req(b) == (b.v() != 0 && T::lo() <= tdiv(a.v(), b.v()) <= T::hi())
    { T::law_rem(a, b); T::law_obeys(); }
    pub broadcast proof fn ax_rem<T: PrimInt>(a: T, b: T)
        ensures T::obeys_rem_spec(), b.v() != 0 && T::lo() <= tdiv(a.v(), b.v()) <= T::hi() ==> (#[trigger] a.rem_spec(b)).v() == a.v() - tdiv(a.v(), b.v()) * b.v()
    { T::law_rem(a, b); T::law_obeys(); }
    pub broadcast proof fn ax_mul_req<T: PrimInt>(a: T, b: T)
        ensures T::obeys_mul_spec(), #[trigger] a.mul_req(b) == (T::lo() <= a.v() * b.v() <= T::hi())
    { T::law_ops(a, b); }
    pub broadcast proof fn ax_mul<T: PrimInt>(a: T, b: T)
        ensures T::obeys_mul_spec(), T::lo() <= a.v() * b.v() <= T::hi() ==> (#[trigger] a.mul_spec(b)).v() == a.v() * b.v()
    { T::law_ops(a, b); }
    pub broadcast proof fn ax_add_req<T: PrimInt>(a: T, b: T)
        ensures T::obeys_add_spec(), #[trigger] a.add_req(b) == (T::lo() <= a.v() + b.v() <= T::hi())
    { T::law_ops(a, b); }
    pub broadcast proof fn ax_add<T: PrimInt>(a: T, b: T)
        ensures T::obeys_add_spec(), T::lo() <= a.v() + b.v() <= T::hi() ==> (#[trigger] a.add_spec(b)).v() == a.v() + b.v()
    { T::law_ops(a, b); }
    pub broadcast proof fn ax_sub_req<T: PrimInt>(a: T, b: T)
        ensures T::obeys_sub_spec(), #[trigger] a.sub_req(b) == (T::lo() <= a.v() - b.v() <= T::hi())
    { T::law_ops(a, b); }
    pub broadcast proof fn ax_sub<T: PrimInt>(a: T, b: T)
        ensures T::obeys_sub_spec(), T::lo() <= a.v() - b.v() <= T::hi() ==> (#[trigger] a.sub_spec(b)).v() == a.v() - b.v()
    { T::law_ops(a, b); }
    pub broadcast proof fn ax_range<T: PrimInt>(a: T)
        ensures T::lo() <= #[trigger] a.v() <= T::hi(), T::lo() <= 0, T::hi() >= 127,
            T::lo() == 0 || T::lo() == -T::hi() - 1,
    { T::law_range(a); T::law_bounds(); }
    pub broadcast proof fn ax_hi<T: PrimInt>()
        ensures T::lo() <= 0, #[trigger] T::hi() >= 127, T::lo() == 0 || T::lo() == -T::hi() - 1,
            T::obeys_add_spec(), T::obeys_sub_spec(), T::obeys_mul_spec(), T::obeys_div_spec(), T::obeys_rem_spec(),
    { T::law_bounds(); T::law_obeys(); }
    pub proof fn ops_int<T: PrimInt>()
        ensures T::lo() <= 0, T::hi() >= 127, T::lo() == 0 || T::lo() == -T::hi() - 1,
            T::obeys_add_spec(), T::obeys_sub_spec(), T::obeys_mul_spec(), T::obeys_div_spec(), T::obeys_rem_spec(),
    { broadcast use ax_hi; assert(T::hi() >= 127); }
    /// equal values are equal ticks
    pub broadcast proof fn ax_inj<T: PrimInt>(a: T, b: T)
        requires #[trigger] a.v() == #[trigger] b.v()
        ensures a == b
    { T::law_inj(a, b); }
    use vstd::std_specs::convert::*;
    /// the standard conversions between primitive integers keep the value, or fail when it does not fit
    #[verifier::external_body]
    pub broadcast proof fn ax_into<A: PrimInt + Into<B>, B: PrimInt>(a: A)
        ensures <A as IntoSpec<B>>::obeys_into_spec(), (#[trigger] <A as IntoSpec<B>>::into_spec(a)).v() == a.v()
    { }
    #[verifier::external_body]
    pub broadcast proof fn ax_try_into<A: PrimInt + TryInto<B>, B: PrimInt>(a: A)
        ensures <A as TryIntoSpec<B>>::obeys_try_into_spec(),
            match #[trigger] <A as TryIntoSpec<B>>::try_into_spec(a) { Ok(b) => b.v() == a.v(), Err(_) => !(B::lo() <= a.v() <= B::hi()) }
    { }
    pub broadcast group group_prim_int { ax_div, ax_rem, ax_mul, ax_add, ax_sub, ax_div_req, ax_rem_req, ax_mul_req, ax_add_req, ax_sub_req, ax_range, ax_hi, ax_inj }

    macro_rules! prim {
        ($($t:ident $conv:ident),*) => { $( verus!{
            impl NumCast for $t {
                open spec fn lo() -> int { $t::MIN as int }
                open spec fn hi() -> int { $t::MAX as int }
                /*@dep num-traits src/cast.rs | macro_rules! impl_num_cast | fn from<N | */
                fn from<N: ToPrimitive>(n: N) -> (r: Option<Self>) { unimplemented!() }
            }
            impl Bounded for $t {
                /*@dep num-traits src/bounds.rs | macro_rules! bounded_impl | fn min_value | $min=$t::MIN */
                fn min_value() -> (r: Self) { unimplemented!() }
                /*@dep num-traits src/bounds.rs | macro_rules! bounded_impl | fn max_value | $max=$t::MAX */
                fn max_value() -> (r: Self) { unimplemented!() }
            }
            impl PrimInt for $t {
                /*@dep num-traits src/identities.rs | macro_rules! zero_impl | fn zero() | $v=0 */
                fn zero() -> (r: Self) { unimplemented!() }
                /*@dep num-traits src/identities.rs | macro_rules! one_impl | fn one() | $v=1 */
                fn one() -> (r: Self) { unimplemented!() }
                /*@dep num-traits src/identities.rs | macro_rules! zero_impl | fn is_zero(&self) | $v=0 */
                fn is_zero(&self) -> (r: bool) { unimplemented!() }
                /*@dep num-traits src/ops/checked.rs | macro_rules! checked_impl | fn $method | $method=checked_mul */
                fn checked_mul(&self, v: &Self) -> (r: Option<Self>) { unimplemented!() }
                /*@dep num-traits src/ops/checked.rs | macro_rules! checked_impl | fn $method | $method=checked_add */
                fn checked_add(&self, v: &Self) -> (r: Option<Self>) { unimplemented!() }
                /*@dep num-traits src/ops/checked.rs | macro_rules! checked_impl | fn $method | $method=checked_sub */
                fn checked_sub(&self, v: &Self) -> (r: Option<Self>) { unimplemented!() }
                proof fn law_ops(a: Self, b: Self) { if b != 0 { tdiv_facts(a as int, b as int); } }
                proof fn law_rem(a: Self, b: Self) { if b != 0 { tdiv_facts(a as int, b as int); } }
                proof fn law_obeys() { }
                proof fn law_range(a: Self) { }
                proof fn law_bounds() { }
                proof fn law_inj(a: Self, b: Self) { }
                proof fn law_cmp(a: Self, b: Self) { }
                proof fn law_clone(a: Self, b: Self) { }
                /*@dep num-traits src/identities.rs | pub trait One | fn set_one | One::one()=Self::one() */
                fn set_one(&mut self) { unimplemented!() }
            }
        } )* }
    }
    macro_rules! to_signed {
        ($($t:ident),*) => { $( verus!{
            impl ToPrimitive for $t {
                open spec fn v(self) -> int { self as int }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_int | fn $method(&self) | $SrcT=$t $DstT=i8 */
                fn to_i8(&self) -> (r: Option<i8>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_int | fn $method(&self) | $SrcT=$t $DstT=i16 */
                fn to_i16(&self) -> (r: Option<i16>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_int | fn $method(&self) | $SrcT=$t $DstT=i32 */
                fn to_i32(&self) -> (r: Option<i32>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_int | fn $method(&self) | $SrcT=$t $DstT=i64 */
                fn to_i64(&self) -> (r: Option<i64>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_int | fn $method(&self) | $SrcT=$t $DstT=i128 */
                fn to_i128(&self) -> (r: Option<i128>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_uint | fn $method(&self) | $SrcT=$t $DstT=u8 */
                fn to_u8(&self) -> (r: Option<u8>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_uint | fn $method(&self) | $SrcT=$t $DstT=u16 */
                fn to_u16(&self) -> (r: Option<u16>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_uint | fn $method(&self) | $SrcT=$t $DstT=u32 */
                fn to_u32(&self) -> (r: Option<u32>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_uint | fn $method(&self) | $SrcT=$t $DstT=u64 */
                fn to_u64(&self) -> (r: Option<u64>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_int_to_uint | fn $method(&self) | $SrcT=$t $DstT=u128 */
                fn to_u128(&self) -> (r: Option<u128>) { unimplemented!() }
            }
        } )* }
    }
    macro_rules! to_unsigned {
        ($($t:ident),*) => { $( verus!{
            impl ToPrimitive for $t {
                open spec fn v(self) -> int { self as int }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_int | fn $method(&self) | $SrcT=$t $DstT=i8 */
                fn to_i8(&self) -> (r: Option<i8>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_int | fn $method(&self) | $SrcT=$t $DstT=i16 */
                fn to_i16(&self) -> (r: Option<i16>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_int | fn $method(&self) | $SrcT=$t $DstT=i32 */
                fn to_i32(&self) -> (r: Option<i32>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_int | fn $method(&self) | $SrcT=$t $DstT=i64 */
                fn to_i64(&self) -> (r: Option<i64>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_int | fn $method(&self) | $SrcT=$t $DstT=i128 */
                fn to_i128(&self) -> (r: Option<i128>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_uint | fn $method(&self) | $SrcT=$t $DstT=u8 */
                fn to_u8(&self) -> (r: Option<u8>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_uint | fn $method(&self) | $SrcT=$t $DstT=u16 */
                fn to_u16(&self) -> (r: Option<u16>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_uint | fn $method(&self) | $SrcT=$t $DstT=u32 */
                fn to_u32(&self) -> (r: Option<u32>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_uint | fn $method(&self) | $SrcT=$t $DstT=u64 */
                fn to_u64(&self) -> (r: Option<u64>) { unimplemented!() }
                /*@dep num-traits src/cast.rs | macro_rules! impl_to_primitive_uint_to_uint | fn $method(&self) | $SrcT=$t $DstT=u128 */
                fn to_u128(&self) -> (r: Option<u128>) { unimplemented!() }
            }
        } )* }
    }
    use core::mem::size_of;
    to_signed!(i8, i16, i32, i64, i128);
    to_unsigned!(u8, u16, u32, u64, u128);
    prim!(u8 to_u8, u16 to_u16, u32 to_u32, u64 to_u64, u128 to_u128, i8 to_i8, i16 to_i16, i32 to_i32, i64 to_i64, i128 to_i128);
    }
}

/// what the contracts use; without `NumCast`, whose `from` would compete with the standard one
pub mod names {
    pub use super::num_traits::{ToPrimitive, Bounded, PrimInt, tdiv, trem, vabs, ops_int, ax_div_req, ax_div, ax_rem_req, ax_rem,
        ax_mul_req, ax_mul, ax_add_req, ax_add, ax_sub_req, ax_sub, ax_range, ax_hi, ax_inj, ax_into, ax_try_into, group_prim_int};
}

pub mod stdx {
    //! What the standard library says about its own types and vstd does not: comparing two
    //! `Ordering`s, the conversions that always fit, and some functions on integers.
    use vstd::prelude::*;
    use std::cmp::Ordering;
    use vstd::std_specs::cmp::*;
    use vstd::std_specs::convert::*;
    verus! {
    #[verifier::external_body]
    pub proof fn ord_facts()
        ensures <Ordering as PartialEqSpec>::obeys_eq_spec(), forall|a: Ordering, b: Ordering| #[trigger] a.eq_spec(&b) == (a == b)
    { }
    pub assume_specification[ Ordering::is_eq ](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Equal);
    pub assume_specification[ Ordering::is_ne ](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Equal);
    pub assume_specification[ Ordering::is_lt ](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Less);
    pub assume_specification[ Ordering::is_gt ](a: Ordering) -> (r: bool) ensures r == (a == Ordering::Greater);
    pub assume_specification[ Ordering::is_le ](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Greater);
    pub assume_specification[ Ordering::is_ge ](a: Ordering) -> (r: bool) ensures r == (a != Ordering::Less);
    pub assume_specification[ Ordering::reverse ](a: Ordering) -> (r: Ordering)
        ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less });
    pub assume_specification<T> [ std::hint::black_box::<T> ](a: T) -> (r: T) ensures r == a;
    pub assume_specification<T> [ std::convert::identity::<T> ](a: T) -> (r: T) ensures r == a;
    pub assume_specification<T> [ std::mem::drop::<T> ](a: T);
    pub assume_specification [ std::sync::atomic::compiler_fence ](a: std::sync::atomic::Ordering);
    pub assume_specification<T> [ std::mem::replace::<T> ](a: &mut T, b: T) -> (r: T) ensures r == *old(a), *final(a) == b;
    macro_rules! ints {
        ($($t:ident $u:ident),*) => { $( verus!{
            pub assume_specification[ $t::rem_euclid ](a: $t, b: $t) -> (r: $t) requires b != 0, a != $t::MIN || b != -1 ensures r as int == (a as int) % (b as int);
            pub assume_specification[ $t::div_euclid ](a: $t, b: $t) -> (r: $t) requires b != 0, a != $t::MIN || b != -1 ensures r as int == (a as int) / (b as int);
            pub assume_specification[ $t::abs ](a: $t) -> (r: $t) requires a != $t::MIN ensures r as int == (if a < 0 { -(a as int) } else { a as int });
            pub assume_specification[ $t::unsigned_abs ](a: $t) -> (r: $u) ensures r as int == (if a < 0 { -(a as int) } else { a as int });
            pub assume_specification[ $t::wrapping_abs ](a: $t) -> (r: $t) ensures r as int == (if a < 0 && a != $t::MIN { -(a as int) } else { a as int });
            pub assume_specification[ $t::wrapping_neg ](a: $t) -> (r: $t) ensures r as int == (if a != $t::MIN { -(a as int) } else { a as int });
            pub assume_specification[ $t::is_negative ](a: $t) -> (r: bool) ensures r == (a < 0);
            pub assume_specification[ $t::is_positive ](a: $t) -> (r: bool) ensures r == (a > 0);
            pub assume_specification[ $t::min_value ]() -> (r: $t) ensures r == $t::MIN;
            pub assume_specification[ $t::signum ](a: $t) -> (r: $t) ensures r == (if a < 0 { -1int } else if a == 0 { 0 } else { 1 });
            pub assume_specification[ $t::saturating_add ](a: $t, b: $t) -> (r: $t)
                ensures r as int == (if a + b < $t::MIN { $t::MIN as int } else if a + b > $t::MAX { $t::MAX as int } else { a + b });
        } )* }
    }
    ints!(i8 u8, i16 u16, i32 u32, i64 u64, i128 u128);
    macro_rules! conv {
        ($($a:ident $b:ident),*) => { verus!{
            #[verifier::external_body]
            pub proof fn conv_facts()
                ensures
                    $(
                    <$b as FromSpec<$a>>::obeys_from_spec(), forall|a: $a| #[trigger] <$b as FromSpec<$a>>::from_spec(a) as int == a as int,
                    <$a as IntoSpec<$b>>::obeys_into_spec(), forall|a: $a| #[trigger] <$a as IntoSpec<$b>>::into_spec(a) as int == a as int,
                    )*
            { }
            #[verifier::external_body]
            pub proof fn bool_facts()
                ensures
                    $(
                    <$b as FromSpec<bool>>::obeys_from_spec(), forall|a: bool| #[trigger] <$b as FromSpec<bool>>::from_spec(a) as int == (if a { 1int } else { 0 }),
                    )*
            { }
        } }
    }
    conv!(u8 u16, u8 u32, u8 u64, u8 u128, u8 i16, u8 i32, u8 i64, u8 i128, u16 u32, u16 u64, u16 u128, u16 i32, u16 i64, u16 i128, u32 u64, u32 u128, u32 i64, u32 i128, u64 u128, u64 i128, i8 i16, i8 i32, i8 i64, i8 i128, i16 i32, i16 i64, i16 i128, i32 i64, i32 i128, i64 i128);
    }
}

pub mod num_integer {
    use vstd::prelude::*;
    use vstd::std_specs::bits::*;
    use super::num_traits::*;
    use crate::vgcd::*;
    verus! {
    /// quotient and remainder rounded down, for divisors of either sign
    pub open spec fn fdiv(a: int, b: int) -> int { if b > 0 { a / b } else { (-a) / (-b) } }
    pub open spec fn divides<T: PrimInt>(a: T, b: T) -> bool { b.v() > 0 || b.v() < 0 && T::lo() <= tdiv(a.v(), b.v()) <= T::hi() }
    pub trait Integer: PrimInt {
        fn div_floor(&self, other: &Self) -> (r: Self)
            requires divides(*self, *other)
            ensures r.v() == fdiv(self.v(), other.v()), other.v() > 0 ==> r.v() == self.v() / other.v();
        fn mod_floor(&self, other: &Self) -> (r: Self)
            requires divides(*self, *other)
            ensures r.v() == self.v() - fdiv(self.v(), other.v()) * other.v(), other.v() > 0 ==> r.v() == self.v() % other.v();
        fn div_mod_floor(&self, other: &Self) -> (r: (Self, Self))
            requires divides(*self, *other)
            ensures r.0.v() == fdiv(self.v(), other.v()), r.1.v() == self.v() - fdiv(self.v(), other.v()) * other.v(),
                other.v() > 0 ==> r.0.v() == self.v() / other.v() && r.1.v() == self.v() % other.v();
        fn div_rem(&self, other: &Self) -> (r: (Self, Self))
            requires other.v() != 0, Self::lo() <= tdiv(self.v(), other.v()) <= Self::hi()
            ensures r.0.v() == tdiv(self.v(), other.v()), r.1.v() == self.v() - tdiv(self.v(), other.v()) * other.v(),
                self.v() >= 0 && other.v() > 0 ==> r.0.v() == self.v() / other.v() && r.1.v() == self.v() % other.v();
        fn gcd(&self, other: &Self) -> (r: Self)
            requires -Self::hi() <= self.v(), -Self::hi() <= other.v()
            ensures is_gcd(r.v(), self.v(), other.v());
        fn gcd_lcm(&self, other: &Self) -> (r: (Self, Self))
            requires -Self::hi() <= self.v(), -Self::hi() <= other.v(), vabs(self.v() * other.v()) <= Self::hi()
            ensures is_gcd(r.0.v(), self.v(), other.v()), r.0.v() * r.1.v() == vabs(self.v() * other.v());
        fn lcm(&self, other: &Self) -> (r: Self)
            requires -Self::hi() <= self.v(), -Self::hi() <= other.v(), vabs(self.v() * other.v()) <= Self::hi()
            ensures exists|g: int| #[trigger] is_gcd(g, self.v(), other.v()) && g * r.v() == vabs(self.v() * other.v());
    }
    /// the quotient of the other operand by the gcd
    pub proof fn lcm_facts(g: int, a: int, b: int)
        requires is_gcd(g, a, b), a != 0 || b != 0
        ensures g >= 1, vabs(tdiv(b, g)) <= vabs(b), vabs(a * tdiv(b, g)) <= vabs(a * b), g * vabs(a * tdiv(b, g)) == vabs(a * b)
    {
        le(g, a, b);
        prim(g, a, b);
        let q = tdiv(b, g);
        assert(a * b == g * (a * q)) by (nonlinear_arith) requires b == g * q;
        let c = a * q;
        assert(vabs(g * c) == g * vabs(c)) by (nonlinear_arith) requires g >= 1;
        assert(vabs(c) <= g * vabs(c)) by (nonlinear_arith) requires g >= 1, vabs(c) >= 0;
    }
    /// rounding towards zero and rounding down
    pub proof fn floor_facts(a: int, b: int)
        requires b != 0
        ensures ({ let d = tdiv(a, b); let r = a - d * b;
            &&& ((r > 0 && b < 0) || (r < 0 && b > 0)) ==> fdiv(a, b) == d - 1
            &&& !((r > 0 && b < 0) || (r < 0 && b > 0)) ==> fdiv(a, b) == d
            &&& (b > 0 ==> a - fdiv(a, b) * b == a % b)
            &&& vabs(r) < vabs(b)
            &&& (d - 1) * b == d * b - b
            &&& (a >= 0 && b > 0 ==> r == a % b && d == a / b)
            &&& (r != 0 ==> vabs(d) < vabs(a))
        })
    {
        tdiv_facts(a, b);
        let c = vabs(b); let x = vabs(a);
        let q = x / c; let s = x % c;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(x, c);
        vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, c);
        if b < 0 { neg_div(x, b); }
        // n = a or -a divided by c > 0
        let n = if b > 0 { a } else { -a };
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, c);
        let fq = n / c; let fr = n % c;
        if n < 0 {
            assert(s == 0 ==> fq == -q) by (nonlinear_arith) requires x == c * q + s, 0 <= s < c, n == c * fq + fr, 0 <= fr < c, n == -x;
            assert(s != 0 ==> fq == -q - 1) by (nonlinear_arith) requires x == c * q + s, 0 <= s < c, n == c * fq + fr, 0 <= fr < c, n == -x;
        }
        let d = tdiv(a, b);
        assert((d - 1) * b == d * b - b) by (nonlinear_arith);
        assert(s != 0 ==> q < x) by (nonlinear_arith) requires x == c * q + s, 0 <= s < c, q >= 0;
        assert(fq * b == b * fq) by (nonlinear_arith);
    }
    macro_rules! signed {
        ($($T:ident $U:ident $tz:ident $or:ident $halve:ident $shl:ident),*) => { $( verus!{
            impl Integer for $T {
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_isize | fn div_floor | @ floor_facts(*self as int, *other as int); tdiv_facts(*self as int, *other as int); */
                fn div_floor(&self, other: &Self) -> (r: Self) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_isize | fn mod_floor | @ floor_facts(*self as int, *other as int); tdiv_facts(*self as int, *other as int); */
                fn mod_floor(&self, other: &Self) -> (r: Self) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_isize | fn div_mod_floor | @ floor_facts(*self as int, *other as int); tdiv_facts(*self as int, *other as int); */
                fn div_mod_floor(&self, other: &Self) -> (r: (Self, Self)) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_isize | fn div_rem | @ floor_facts(*self as int, *other as int); tdiv_facts(*self as int, *other as int); */
                fn div_rem(&self, other: &Self) -> (r: (Self, Self)) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_isize | fn gcd
                    | let mut m = *self; ==> let ghost a0 = *self as int; let ghost b0 = *other as int; let mut m = *self;
                    | return (m | n).abs(); ==> proof { zero(a0); zero(b0); assert((0 as $T) | n == n) by (bit_vector); assert(m | (0 as $T) == m) by (bit_vector); } return (m | n).abs();
                    | let shift = (m | n).trailing_zeros(); ==> let shift = (m | n).trailing_zeros(); proof { $or(m, n); }
                    | (1 << shift).abs() ==> ((1 as $T) << shift).abs()
                    | m >>= m.trailing_zeros(); ==> let ghost mb = m; proof { $halve(m); } m >>= m.trailing_zeros(); proof { step(mb + n, n as int, m as int, $tz(mb as $U) as nat); }
                    | n >>= n.trailing_zeros(); ==> let ghost nb = n; proof { $halve(n); } n >>= n.trailing_zeros(); proof { step(nb + m, m as int, n as int, $tz(nb as $U) as nat); }
                    | while m != n { ==> proof { start(a0, b0, m as int, $tz(mb as $U) as nat, n as int, $tz(nb as $U) as nat, shift as nat); }
                        while m != n
                            invariant m > 0, n > 0, odd(m as int), odd(n as int),
                                forall|g: int| #[trigger] is_gcd(g, m as int, n as int) ==> is_gcd(g * two(shift as nat), a0, b0)
                            decreases m + n
                        {
                    | m << shift ==> proof { same(m as int); le(m * two(shift as nat), a0, b0); $shl(m, shift); } m << shift
                */
                fn gcd(&self, other: &Self) -> (r: Self) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_isize | fn lcm | */
                fn lcm(&self, other: &Self) -> (r: Self) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_isize | fn gcd_lcm
                    | let gcd = self.gcd(other); ==> let gcd = self.gcd(other); proof { zero(0); lcm_facts(gcd as int, *self as int, *other as int); }
                    | return (Self::zero(), Self::zero()); ==> proof { zero(0); } return (Self::zero(), Self::zero());
                */
                fn gcd_lcm(&self, other: &Self) -> (r: (Self, Self)) { unimplemented!() }
            }
        } )* }
    }
    macro_rules! unsigned {
        ($($T:ident $U:ident $tz:ident $or:ident $halve:ident $shl:ident),*) => { $( verus!{
            impl Integer for $T {
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_usize | fn div_floor | @ floor_facts(*self as int, *other as int); */
                fn div_floor(&self, other: &Self) -> (r: Self) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_usize | fn mod_floor | @ floor_facts(*self as int, *other as int); */
                fn mod_floor(&self, other: &Self) -> (r: Self) { unimplemented!() }
                /*@dep num-integer src/lib.rs | pub trait Integer | fn div_mod_floor | @ floor_facts(*self as int, *other as int); */
                fn div_mod_floor(&self, other: &Self) -> (r: (Self, Self)) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_usize | fn div_rem | @ floor_facts(*self as int, *other as int); */
                fn div_rem(&self, other: &Self) -> (r: (Self, Self)) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_usize | fn gcd
                    | let mut m = *self; ==> let ghost a0 = *self as int; let ghost b0 = *other as int; let mut m = *self;
                    | return m | n; ==> proof { zero(a0); zero(b0); assert((0 as $T) | n == n) by (bit_vector); assert(m | (0 as $T) == m) by (bit_vector); } return m | n;
                    | let shift = (m | n).trailing_zeros(); ==> let shift = (m | n).trailing_zeros(); proof { $or(m, n); }
                    | m >>= m.trailing_zeros(); ==> let ghost mb = m; proof { $halve(m); } m >>= m.trailing_zeros(); proof { step(mb + n, n as int, m as int, $tz(mb as $U) as nat); }
                    | n >>= n.trailing_zeros(); ==> let ghost nb = n; proof { $halve(n); } n >>= n.trailing_zeros(); proof { step(nb + m, m as int, n as int, $tz(nb as $U) as nat); }
                    | while m != n { ==> proof { start(a0, b0, m as int, $tz(mb as $U) as nat, n as int, $tz(nb as $U) as nat, shift as nat); }
                        while m != n
                            invariant m > 0, n > 0, odd(m as int), odd(n as int),
                                forall|g: int| #[trigger] is_gcd(g, m as int, n as int) ==> is_gcd(g * two(shift as nat), a0, b0)
                            decreases m + n
                        {
                    | m << shift ==> proof { same(m as int); le(m * two(shift as nat), a0, b0); $shl(m, shift); } m << shift
                */
                fn gcd(&self, other: &Self) -> (r: Self) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_usize | fn lcm | */
                fn lcm(&self, other: &Self) -> (r: Self) { unimplemented!() }
                /*@dep num-integer src/lib.rs | macro_rules! impl_integer_for_usize | fn gcd_lcm
                    | let gcd = self.gcd(other); ==> let gcd = self.gcd(other); proof { zero(0); lcm_facts(gcd as int, *self as int, *other as int); }
                    | return (Self::zero(), Self::zero()); ==> proof { zero(0); } return (Self::zero(), Self::zero());
                */
                fn gcd_lcm(&self, other: &Self) -> (r: (Self, Self)) { unimplemented!() }
            }
        } )* }
    }
    signed!(i8 u8 u8_trailing_zeros or_i8 halve_i8 shl_i8, i16 u16 u16_trailing_zeros or_i16 halve_i16 shl_i16, i32 u32 u32_trailing_zeros or_i32 halve_i32 shl_i32, i64 u64 u64_trailing_zeros or_i64 halve_i64 shl_i64, i128 u128 u128_trailing_zeros or_i128 halve_i128 shl_i128);
    unsigned!(u8 u8 u8_trailing_zeros or_u8 halve_u8 shl_u8, u16 u16 u16_trailing_zeros or_u16 halve_u16 shl_u16, u32 u32 u32_trailing_zeros or_u32 halve_u32 shl_u32, u64 u64 u64_trailing_zeros or_u64 halve_u64 shl_u64, u128 u128 u128_trailing_zeros or_u128 halve_u128 shl_u128);
    }
}

pub mod num_rational {
    //! num_rational::Ratio: a fraction in lowest terms. Its operations work on the reduced
    //! numerators and denominators, so they do not overflow when the same operation on any
    //! representation of the operands does not.
    use vstd::prelude::*;
    use super::num_traits::*;
    use super::num_integer::{Integer, fdiv, floor_facts};
    use crate::vgcd::*;
    use core::cmp;
    use core::cmp::Ordering;
    use core::ops::{Add, Div, Mul, Sub};
    verus! {
    #[derive(Clone, Copy)]
    pub struct Ratio<T> { numer: T, denom: T }
    impl<T: Integer> Ratio<T> {
        pub closed spec fn n(self) -> int { self.numer.v() }
        pub closed spec fn d(self) -> int { self.denom.v() }
    }
    /// in lowest terms
    pub open spec fn wf<T: Integer>(x: Ratio<T>) -> bool { 1 <= x.d() && -T::hi() <= x.n() && is_gcd(1, x.n(), x.d()) }
    /// x = a/b
    #[verifier::opaque]
    pub open spec fn rep<T: Integer>(x: Ratio<T>, a: int, b: int) -> bool { b != 0 && wf(x) && x.n() * b == a * x.d() }
    pub open spec fn cdiv(a: int, b: int) -> int { -fdiv(-a, b) }
    pub open spec fn fits<T: Integer>(a: int) -> bool { T::lo() <= a <= T::hi() && -T::hi() <= a }
    /// magnitudes only
    pub open spec fn fitm<T: Integer>(a: int) -> bool { -T::hi() <= a <= T::hi() }

    pub proof fn show<T: Integer>(x: Ratio<T>, a: int, b: int)
        requires b != 0, wf(x), x.n() * b == a * x.d()
        ensures rep(x, a, b)
    { reveal(rep); }
    pub proof fn open_rep<T: Integer>(x: Ratio<T>, a: int, b: int) -> (k: int)
        requires rep(x, a, b)
        ensures wf(x), a == x.n() * k, b == x.d() * k, k != 0, b != 0, vabs(x.n()) <= vabs(a), x.d() <= vabs(b), b > 0 ==> k > 0
    { reveal(rep); unred(x.n(), x.d(), a, b) }
    /// a fraction is in lowest terms
    pub broadcast proof fn rep_wf<T: Integer>(x: Ratio<T>, a: int, b: int)
        requires #[trigger] rep(x, a, b)
        ensures wf(x)
    { reveal(rep); }

    /// the factor common to both cancels when rounding
    pub proof fn floor_scale(n: int, d: int, k: int)
        requires d >= 1, k != 0
        ensures fdiv(n * k, d * k) == n / d, cdiv(n * k, d * k) == -((-n) / d), tdiv(n * k, d * k) == tdiv(n, d)
    {
        let a = n * k; let b = d * k;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-n, d);
        fdiv_scale(n, d, k);
        fdiv_scale(-n, d, k);
        assert((-n) * k == -(n * k)) by (nonlinear_arith);
        let x = vabs(n); let c = vabs(k);
        fdiv_scale(x, d, c);
        assert(vabs(a) == x * c && vabs(b) == d * c) by (nonlinear_arith)
            requires a == n * k, b == d * k, d >= 1, (n >= 0 && x == n) || (n <= 0 && x == -n), (k >= 0 && c == k) || (k <= 0 && c == -k);
        assert(d * c > 0) by (nonlinear_arith) requires d >= 1, c >= 1;
        assert((a >= 0) == (b > 0) || n == 0 || (n > 0) == ((a >= 0) == (b > 0))) by (nonlinear_arith) requires a == n * k, b == d * k, d >= 1, k != 0;
        assert(n > 0 ==> (a >= 0) == (b > 0)) by (nonlinear_arith) requires a == n * k, b == d * k, d >= 1, k != 0;
        assert(n < 0 ==> (a >= 0) != (b > 0)) by (nonlinear_arith) requires a == n * k, b == d * k, d >= 1, k != 0;
        assert(n == 0 ==> a == 0) by (nonlinear_arith) requires a == n * k;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(0, d);
        assert(n == 0 ==> x / d == 0) by { if n == 0 { vstd::arithmetic::div_mod::lemma_div_basics_1(d); } }
    }
    pub proof fn fdiv_scale(n: int, d: int, k: int)
        requires d >= 1, k != 0
        ensures fdiv(n * k, d * k) == n / d, d * k != 0, k > 0 ==> d * k > 0
    {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
        let q = n / d; let r = n % d;
        if k > 0 {
            assert(d * k > 0 && n * k == q * (d * k) + r * k && 0 <= r * k < d * k) by (nonlinear_arith) requires n == d * q + r, 0 <= r < d, k > 0;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n * k, d * k, q, r * k);
        } else {
            let j = -k;
            assert(d * k < 0 && -(n * k) == q * (-(d * k)) + r * j && 0 <= r * j < -(d * k)) by (nonlinear_arith) requires n == d * q + r, 0 <= r < d, k < 0, j == -k;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(-(n * k), -(d * k), q, r * j);
        }
    }

    /// what reduce leaves, before and after it makes the denominator positive
    pub proof fn signs(g: int, n: int, d: int)
        requires is_gcd(g, n, d), g >= 1, d != 0
        ensures ({ let p = tdiv(n, g); let q = tdiv(d, g);
            &&& p * d == n * q && (-p) * d == n * (-q)
            &&& is_gcd(1, p, q) && is_gcd(1, -p, -q) })
    {
        prim(g, n, d);
        let p = tdiv(n, g); let q = tdiv(d, g);
        assert(p * d == n * q) by (nonlinear_arith) requires n == g * p, d == g * q;
        assert((-p) * d == -(p * d) && n * (-q) == -(n * q)) by (nonlinear_arith);
        neg(1, p, q); sym(1, -p, q); neg(1, q, -p); sym(1, -q, -p);
    }
    /// std's mem::replace, as reduce uses it
    /*@dep num-rational src/lib.rs | fn reduce(&mut self) | fn replace_with */
    fn replace_with<T: PrimInt>(x: &mut T, f: impl FnOnce(T) -> T)
        requires f.requires((*old(x),))
        ensures f.ensures((*old(x),), *final(x))
    { unimplemented!() }

    impl<T: Integer> Ratio<T> {
        /*@dep num-rational src/lib.rs | impl<T> Ratio<T> | fn new_raw */
        pub fn new_raw(numer: T, denom: T) -> (r: Ratio<T>)
            ensures r.n() == numer.v(), r.d() == denom.v()
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Zero for Ratio<T> | fn zero() | Zero::zero()=T::zero() One::one()=T::one() */
        pub fn zero() -> (r: Ratio<T>)
            ensures r.n() == 0, r.d() == 1
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> One for Ratio<T> | fn set_one */
        fn set_one(&mut self)
            ensures final(self).n() == 1, final(self).d() == 1
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Ratio<T> | fn new */
        pub fn new(numer: T, denom: T) -> (r: Self)
            requires denom.v() != 0, fits::<T>(numer.v()), fits::<T>(denom.v())
            ensures rep(r, numer.v(), denom.v())
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Ratio<T> | fn from_integer | One::one()=T::one() @ one(t.v());
            assert forall|r: Ratio<T>| r.n() == t.v() && r.d() == 1 && -T::hi() <= t.v() implies #[trigger] rep(r, t.v(), 1) by { show(r, t.v(), 1); } */
        pub fn from_integer(t: T) -> (r: Self)
            ensures r.n() == t.v(), r.d() == 1, -T::hi() <= t.v() ==> rep(r, t.v(), 1)
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Ratio<T> | fn to_integer @ let (a0, b0) = choose|a: int, b: int| #[trigger] rep(*self, a, b); let k0 = open_rep(*self, a0, b0); rounded(*self); */
        pub fn to_integer(&self) -> (r: T)
            requires exists|a: int, b: int| #[trigger] rep(*self, a, b)
            ensures forall|a: int, b: int| #[trigger] rep(*self, a, b) ==> r.v() == tdiv(a, b) && (b == 1 ==> r.v() == a)
                && (b > 0 && a % b == 0 ==> r.v() == a / b)
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Ratio<T> | fn reduce(&mut self)
            | without fn replace_with
            | let g: T = ==> let ghost n0 = self.numer.v(); let ghost d0 = self.denom.v(); let g: T =
            | replace_with(&mut self.numer, |x| x / g.clone()); ==> proof { le(g.v(), n0, d0); prim(g.v(), n0, d0); signs(g.v(), n0, d0); }
                replace_with(&mut self.numer, |x: T| -> (r: T)
                    requires g.v() >= 1, T::lo() <= tdiv(x.v(), g.v()) <= T::hi()
                    ensures r.v() == tdiv(x.v(), g.v())
                    { proof { broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); } x / g.clone() });
            | replace_with(&mut self.denom, |x| x / g); ==> replace_with(&mut self.denom, |x: T| -> (r: T)
                    requires g.v() >= 1, T::lo() <= tdiv(x.v(), g.v()) <= T::hi()
                    ensures r.v() == tdiv(x.v(), g.v())
                    { proof { broadcast use group_prim_int; ops_int::<T>(); } x / g });
            | replace_with(&mut self.numer, |x| T::zero() - x); ==> replace_with(&mut self.numer, |x: T| -> (r: T)
                    requires T::lo() <= -x.v() <= T::hi()
                    ensures r.v() == -x.v()
                    { proof { broadcast use group_prim_int; ops_int::<T>(); } T::zero() - x });
            | replace_with(&mut self.denom, |x| T::zero() - x); ==> replace_with(&mut self.denom, |x: T| -> (r: T)
                    requires T::lo() <= -x.v() <= T::hi()
                    ensures r.v() == -x.v()
                    { proof { broadcast use group_prim_int; ops_int::<T>(); } T::zero() - x });
            @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); reveal(rep); one(0); one(1); */
        fn reduce(&mut self)
            requires old(self).d() != 0, fits::<T>(old(self).n()), fits::<T>(old(self).d())
            ensures rep(*final(self), old(self).n(), old(self).d())
        { unimplemented!() }
    }

    pub proof fn exact(a: int, b: int)
        ensures b == 1 ==> tdiv(a, b) == a, b > 0 && a % b == 0 ==> tdiv(a, b) == a / b
    {
        if b >= 1 {
            let q = a / b; let r = a % b;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a, b);
            if r == 0 {
                assert(a == b * q);
                quo(a, b, q);
            }
        }
    }
    /// rounding the quotient of the terms in lowest terms
    pub proof fn rounded<T: Integer>(x: Ratio<T>)
        requires wf(x)
        ensures forall|a: int, b: int| #[trigger] rep(x, a, b) ==>
            fdiv(a, b) == x.n() / x.d() && cdiv(a, b) == -((-x.n()) / x.d()) && tdiv(a, b) == tdiv(x.n(), x.d())
            && (b == 1 ==> tdiv(a, b) == a) && (b > 0 && a % b == 0 ==> tdiv(a, b) == a / b)
    {
        assert forall|a: int, b: int| #[trigger] rep(x, a, b) implies
            fdiv(a, b) == x.n() / x.d() && cdiv(a, b) == -((-x.n()) / x.d()) && tdiv(a, b) == tdiv(x.n(), x.d())
            && (b == 1 ==> tdiv(a, b) == a) && (b > 0 && a % b == 0 ==> tdiv(a, b) == a / b) by {
            let k = open_rep(x, a, b);
            floor_scale(x.n(), x.d(), k);
            exact(a, b);
        }
    }
    /// the terms of a fraction are not larger than those of any other form of it
    pub proof fn small<T: Integer>(x: Ratio<T>)
        requires exists|a: int, b: int| #[trigger] rep(x, a, b) && vabs(a) + vabs(b) <= T::hi()
        ensures wf(x), vabs(x.n()) + x.d() <= T::hi()
    {
        let (a, b) = choose|a: int, b: int| #[trigger] rep(x, a, b) && vabs(a) + vabs(b) <= T::hi();
        let k = open_rep(x, a, b);
    }
    /// rounding down and up by way of truncation
    pub proof fn trunc_facts(n: int, d: int)
        requires d >= 1
        ensures n >= 0 ==> tdiv(n, d) == n / d, n < 0 ==> tdiv(n - d + 1, d) == n / d, n < 0 ==> tdiv(n, d) == -((-n) / d),
            n >= 0 ==> tdiv(n + d - 1, d) == -((-n) / d), vabs(n / d) <= vabs(n), vabs((-n) / d) <= vabs(n), n >= 0 ==> n / d >= 0, n >= 0 ==> (-n) / d <= 0,
            vabs(tdiv(n, d)) <= vabs(n), n >= 0 ==> tdiv(n, d) >= 0
    {
        tdiv_facts(n, d); tdiv_facts(n - d + 1, d); tdiv_facts(n + d - 1, d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n, d);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(-n, d);
        let q = n / d; let r = n % d; let u = (-n) / d; let s = (-n) % d;
        assert(vabs(q) <= vabs(n) && (n >= 0 ==> q >= 0)) by (nonlinear_arith) requires n == d * q + r, 0 <= r < d, d >= 1;
        assert(vabs(u) <= vabs(n) && (n >= 0 ==> u <= 0)) by (nonlinear_arith) requires -n == d * u + s, 0 <= s < d, d >= 1;
        if n < 0 {
            // d - 1 - n = d * (-q) + (d - 1 - r)
            assert(d - 1 - n == (-q) * d + (d - 1 - r)) by (nonlinear_arith) requires n == d * q + r;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(d - 1 - n, d, -q, d - 1 - r);
        } else {
            assert(n + d - 1 == (-u) * d + (d - 1 - s)) by (nonlinear_arith) requires -n == d * u + s;
            vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(n + d - 1, d, -u, d - 1 - s);
        }
    }
    /// comparing fractions the way num-rational does
    pub proof fn cmp_facts(n1: int, d1: int, n2: int, d2: int)
        requires d1 >= 1, d2 >= 1
        ensures ({
            let i1 = n1 / d1; let r1 = n1 % d1; let i2 = n2 / d2; let r2 = n2 % d2;
            &&& d1 == d2 ==> int_cmp(n1 * d2, n2 * d1) == int_cmp(n1, n2)
            &&& n1 == n2 ==> int_cmp(n1 * d2, n2 * d1) == (if n1 == 0 { Ordering::Equal } else if n1 < 0 { int_cmp(d1, d2) } else { int_cmp(d2, d1) })
            &&& i1 > i2 ==> int_cmp(n1 * d2, n2 * d1) == Ordering::Greater
            &&& i1 < i2 ==> int_cmp(n1 * d2, n2 * d1) == Ordering::Less
            &&& i1 == i2 ==> int_cmp(n1 * d2, n2 * d1) == int_cmp(d2 * r1, d1 * r2)
            &&& 0 <= r1 < d1 && 0 <= r2 < d2
            &&& i1 == i2 && r1 == 0 && r2 == 0 ==> int_cmp(n1 * d2, n2 * d1) == Ordering::Equal
            &&& i1 == i2 && r1 == 0 && r2 != 0 ==> int_cmp(n1 * d2, n2 * d1) == Ordering::Less
            &&& i1 == i2 && r1 != 0 && r2 == 0 ==> int_cmp(n1 * d2, n2 * d1) == Ordering::Greater
        })
    {
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n1, d1);
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(n2, d2);
        let i1 = n1 / d1; let r1 = n1 % d1; let i2 = n2 / d2; let r2 = n2 % d2;
        let x = n1 * d2; let y = n2 * d1;
        if d1 == d2 { assert((n1 < n2 ==> x < y) && (n1 == n2 ==> x == y) && (n1 > n2 ==> x > y)) by (nonlinear_arith) requires x == n1 * d2, y == n2 * d1, d1 == d2, d1 >= 1; }
        if n1 == n2 {
            assert(n1 == 0 ==> x == y) by (nonlinear_arith) requires x == n1 * d2, y == n2 * d1, n1 == n2;
            assert(n1 < 0 ==> (d1 < d2 ==> x < y) && (d1 == d2 ==> x == y) && (d1 > d2 ==> x > y)) by (nonlinear_arith) requires x == n1 * d2, y == n2 * d1, n1 == n2;
            assert(n1 > 0 ==> (d2 < d1 ==> x < y) && (d1 == d2 ==> x == y) && (d2 > d1 ==> x > y)) by (nonlinear_arith) requires x == n1 * d2, y == n2 * d1, n1 == n2;
        }
        let e = i1 - i2;
        assert(x - y == e * (d1 * d2) + d2 * r1 - d1 * r2) by (nonlinear_arith)
            requires x == n1 * d2, y == n2 * d1, n1 == d1 * i1 + r1, n2 == d2 * i2 + r2, e == i1 - i2;
        let f = d1 * d2; let g = d2 * r1; let h = d1 * r2;
        assert(0 <= g < f && 0 <= h < f) by (nonlinear_arith) requires f == d1 * d2, g == d2 * r1, h == d1 * r2, 0 <= r1 < d1, 0 <= r2 < d2;
        assert((r1 == 0) == (g == 0) && (r2 == 0) == (h == 0)) by (nonlinear_arith) requires g == d2 * r1, h == d1 * r2, d1 >= 1, d2 >= 1;
        assert(e > 0 ==> e * f >= f) by (nonlinear_arith) requires f > 0;
        assert(e < 0 ==> e * f <= -f) by (nonlinear_arith) requires f > 0;
        assert(e == 0 ==> e * f == 0) by (nonlinear_arith);
    }
    impl<T: Integer> Ratio<T> {
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Ratio<T> | fn trunc @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); trunc_facts(self.n(), self.d()); */
        pub fn trunc(&self) -> (r: Self)
            requires wf(*self)
            ensures r.n() == tdiv(self.n(), self.d()), r.d() == 1
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Ord for Ratio<T> | fn cmp
            @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); cmp_facts(self.n(), self.d(), other.n(), other.d()); */
        fn cmp(&self, other: &Self) -> (r: cmp::Ordering)
            requires self.d() >= 1, other.d() >= 1
            ensures r == int_cmp(self.n() * other.d(), other.n() * self.d())
            decreases self.d()
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> PartialOrd for Ratio<T> | fn partial_cmp */
        fn partial_cmp(&self, other: &Self) -> (r: Option<cmp::Ordering>)
            requires self.d() >= 1, other.d() >= 1
            ensures r == Some(int_cmp(self.n() * other.d(), other.n() * self.d()))
        { unimplemented!() }
        /// std's PartialOrd::lt
        fn lt(&self, other: &Self) -> (r: bool)
            requires self.d() >= 1, other.d() >= 1
            ensures r == (self.n() * other.d() < other.n() * self.d())
        { match self.partial_cmp(other) { Some(Ordering::Less) => true, _ => false } }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Ratio<T> | fn floor
            | *self < Zero::zero() ==> self.lt(&Ratio::zero())
            | One::one() ==> T::one()
            @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); small(*self); rounded(*self); trunc_facts(self.n(), self.d()); */
        pub fn floor(&self) -> (r: Self)
            requires exists|a: int, b: int| #[trigger] rep(*self, a, b) && vabs(a) + vabs(b) <= T::hi()
            ensures forall|a: int, b: int| #[trigger] rep(*self, a, b) ==> rep(r, fdiv(a, b), 1)
        { unimplemented!() }
        /*@dep num-rational src/lib.rs | impl<T: Clone + Integer> Ratio<T> | fn ceil
            | *self < Zero::zero() ==> self.lt(&Ratio::zero())
            | One::one() ==> T::one()
            @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); small(*self); rounded(*self); trunc_facts(self.n(), self.d()); */
        pub fn ceil(&self) -> (r: Self)
            requires exists|a: int, b: int| #[trigger] rep(*self, a, b) && vabs(a) + vabs(b) <= T::hi()
            ensures forall|a: int, b: int| #[trigger] rep(*self, a, b) ==> rep(r, cdiv(a, b), 1)
        { unimplemented!() }
    }

    /// a product of quotients by the gcds across
    pub proof fn cross(w: int, x: int, y: int, z: int, g: int, h: int)
        requires is_gcd(g, w, z), is_gcd(h, y, x), g >= 1, h >= 1
        ensures ({
            let p = tdiv(w, g); let u = tdiv(x, h); let s = tdiv(y, h); let v = tdiv(z, g);
            &&& (p * u) * (y * z) == (w * x) * (s * v)
            &&& vabs(p * u) <= vabs(w * x) && vabs(s * v) <= vabs(y * z)
            &&& (y != 0 && z != 0 ==> s * v != 0 && y * z != 0)
            &&& vabs(p) <= vabs(w) && vabs(u) <= vabs(x) && vabs(s) <= vabs(y) && vabs(v) <= vabs(z)
            &&& (w >= 0 ==> p >= 0) && (x >= 0 ==> u >= 0) && (y >= 0 ==> s >= 0) && (z >= 0 ==> v >= 0)
            &&& (w >= 0 && x >= 0 ==> p * u >= 0) && (y >= 0 && z >= 0 ==> s * v >= 0)
        })
    {
        prim(g, w, z); prim(h, y, x);
        let p = tdiv(w, g); let u = tdiv(x, h); let s = tdiv(y, h); let v = tdiv(z, g);
        let c = p * u; let e = s * v; let k = g * h;
        assert(w * x == k * c) by (nonlinear_arith) requires w == g * p, x == h * u, k == g * h, c == p * u;
        assert(y * z == k * e) by (nonlinear_arith) requires y == h * s, z == g * v, k == g * h, e == s * v;
        assert(c * (k * e) == (k * c) * e) by (nonlinear_arith);
        assert(k >= 1) by (nonlinear_arith) requires k == g * h, g >= 1, h >= 1;
        assert(vabs(c) <= vabs(k * c) && vabs(e) <= vabs(k * e)) by (nonlinear_arith) requires k >= 1;
        assert(y != 0 && z != 0 ==> e != 0) by (nonlinear_arith) requires e == s * v, y == h * s, z == g * v;
        assert(y != 0 && z != 0 ==> y * z != 0) by (nonlinear_arith);
        assert(p >= 0 && u >= 0 ==> c >= 0) by (nonlinear_arith) requires c == p * u;
        assert(s >= 0 && v >= 0 ==> e >= 0) by (nonlinear_arith) requires e == s * v;
    }
    pub proof fn cross_rep<T: Integer>(r: Ratio<T>, a: int, b: int, w: int, y: int, k: int)
        requires rep(r, a, b), a * y == w * b, y != 0, k != 0
        ensures rep(r, w * k, y * k)
    {
        reveal(rep);
        let n = r.n(); let d = r.d();
        assert((n * y) * b == (w * d) * b) by (nonlinear_arith) requires n * b == a * d, a * y == w * b;
        cancel(n * y, w * d, b);
        assert(n * (y * k) == (w * k) * d) by (nonlinear_arith) requires n * y == w * d;
        assert(y * k != 0) by (nonlinear_arith) requires y != 0, k != 0;
        show(r, w * k, y * k);
    }
    pub proof fn regroup(a: int, b: int, k: int, l: int)
        ensures (a * k) * (b * l) == (a * b) * (k * l), (a * k) * (b * l) == (b * a) * (k * l), k != 0 && l != 0 ==> k * l != 0, k > 0 && l > 0 ==> k * l > 0,
            k * l != 0 ==> vabs(a * b) <= vabs((a * b) * (k * l))
    {
        assert((a * k) * (b * l) == (a * b) * (k * l)) by (nonlinear_arith);
        assert(a * b == b * a) by (nonlinear_arith);
        assert(k != 0 && l != 0 ==> k * l != 0) by (nonlinear_arith);
        assert(k > 0 && l > 0 ==> k * l > 0) by (nonlinear_arith);
        let c = a * b; let m = k * l;
        assert(m != 0 ==> vabs(c) <= vabs(c * m)) by (nonlinear_arith);
    }
    pub open spec fn inr<T: Integer>(a: int) -> bool { T::lo() <= a <= T::hi() }
    pub open spec fn div_ok<T: Integer>(x: Ratio<T>, o: Ratio<T>) -> bool {
        exists|a: int, b: int, c: int, e: int| #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && c != 0 && fitm::<T>(a * e) && fitm::<T>(b * c)
    }
    pub open spec fn mul_ok<T: Integer>(x: Ratio<T>, o: Ratio<T>) -> bool {
        exists|a: int, b: int, c: int, e: int| #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && fitm::<T>(a * c) && fitm::<T>(b * e)
    }
    pub open spec fn sub_ok<T: Integer>(x: Ratio<T>, o: Ratio<T>) -> bool {
        exists|a: int, b: int, c: int, e: int| #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && b > 0 && e > 0
            && fitm::<T>(a * e) && fitm::<T>(c * b) && fits::<T>(a * e - c * b) && fitm::<T>(b * e)
    }
    /// in lowest terms n/d, an integral n*m/d means d divides m, and n*(m/d) is what is computed
    pub open spec fn scale_ok<T: Integer>(x: Ratio<T>, m: int) -> bool {
        fits::<T>(m) && exists|a: int, b: int| #[trigger] rep(x, a, b) && b > 0 && (a * m) % b == 0 && fitm::<T>((a * m) / b)
    }
    pub proof fn div_start<T: Integer>(x: Ratio<T>, o: Ratio<T>)
        requires div_ok(x, o)
        ensures wf(x), wf(o), o.n() != 0, fitm::<T>(x.n() * o.d()), fitm::<T>(x.d() * o.n())
    {
        let (a, b, c, e) = choose|a: int, b: int, c: int, e: int| #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && c != 0 && fitm::<T>(a * e) && fitm::<T>(b * c);
        let k = open_rep(x, a, b); let l = open_rep(o, c, e);
        regroup(x.n(), o.d(), k, l); regroup(x.d(), o.n(), k, l);
        assert(o.n() != 0) by (nonlinear_arith) requires c == o.n() * l, c != 0;
    }
    pub proof fn div_mid<T: Integer>(x: Ratio<T>, o: Ratio<T>, g: int, h: int)
        requires div_ok(x, o), is_gcd(g, x.n(), o.n()), is_gcd(h, x.d(), o.d())
        ensures ({
            let p = tdiv(x.n(), g); let u = tdiv(o.d(), h); let s = tdiv(x.d(), h); let v = tdiv(o.n(), g);
            &&& g >= 1 && h >= 1 && inr::<T>(p) && inr::<T>(u) && inr::<T>(s) && inr::<T>(v)
            &&& inr::<T>(p * u) && fits::<T>(p * u) && inr::<T>(s * v) && fits::<T>(s * v) && s * v != 0
            &&& forall|r: Ratio<T>| #[trigger] rep(r, p * u, s * v) ==> forall|a: int, b: int, c: int, e: int|
                #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && c != 0 ==> rep(r, a * e, b * c)
        })
    {
        broadcast use ax_range;
        div_start(x, o);
        le(g, x.n(), o.n()); le(h, x.d(), o.d());
        cross(x.n(), o.d(), x.d(), o.n(), g, h);
        let p = tdiv(x.n(), g); let u = tdiv(o.d(), h); let s = tdiv(x.d(), h); let v = tdiv(o.n(), g);
        assert forall|r: Ratio<T>, a: int, b: int, c: int, e: int|
                #[trigger] rep(r, p * u, s * v) && #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && c != 0 implies rep(r, a * e, b * c) by {
            let k = open_rep(x, a, b); let l = open_rep(o, c, e);
            regroup(x.n(), o.d(), k, l); regroup(x.d(), o.n(), k, l);
            cross_rep(r, p * u, s * v, x.n() * o.d(), x.d() * o.n(), k * l);
        }
    }
    pub proof fn mul_start<T: Integer>(x: Ratio<T>, o: Ratio<T>)
        requires mul_ok(x, o)
        ensures wf(x), wf(o), fitm::<T>(x.n() * o.n()), fitm::<T>(x.d() * o.d())
    {
        let (a, b, c, e) = choose|a: int, b: int, c: int, e: int| #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && fitm::<T>(a * c) && fitm::<T>(b * e);
        let k = open_rep(x, a, b); let l = open_rep(o, c, e);
        regroup(x.n(), o.n(), k, l); regroup(x.d(), o.d(), k, l);
    }
    pub proof fn mul_mid<T: Integer>(x: Ratio<T>, o: Ratio<T>, g: int, h: int)
        requires mul_ok(x, o), is_gcd(g, x.n(), o.d()), is_gcd(h, x.d(), o.n())
        ensures ({
            let p = tdiv(x.n(), g); let u = tdiv(o.n(), h); let s = tdiv(x.d(), h); let v = tdiv(o.d(), g);
            &&& g >= 1 && h >= 1 && inr::<T>(p) && inr::<T>(u) && inr::<T>(s) && inr::<T>(v)
            &&& inr::<T>(p * u) && fits::<T>(p * u) && inr::<T>(s * v) && fits::<T>(s * v) && s * v != 0
            &&& forall|r: Ratio<T>| #[trigger] rep(r, p * u, s * v) ==> forall|a: int, b: int, c: int, e: int|
                #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) ==> rep(r, a * c, b * e)
        })
    {
        broadcast use ax_range;
        mul_start(x, o);
        le(g, x.n(), o.d()); le(h, x.d(), o.n());
        cross(x.n(), o.n(), x.d(), o.d(), g, h);
        let p = tdiv(x.n(), g); let u = tdiv(o.n(), h); let s = tdiv(x.d(), h); let v = tdiv(o.d(), g);
        assert forall|r: Ratio<T>, a: int, b: int, c: int, e: int|
                #[trigger] rep(r, p * u, s * v) && #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) implies rep(r, a * c, b * e) by {
            let k = open_rep(x, a, b); let l = open_rep(o, c, e);
            regroup(x.n(), o.n(), k, l); regroup(x.d(), o.d(), k, l);
            cross_rep(r, p * u, s * v, x.n() * o.n(), x.d() * o.d(), k * l);
        }
    }
    /// x - o over a common denominator m = d1*q = d2*p
    pub proof fn sub_common<T: Integer>(x: Ratio<T>, o: Ratio<T>, p: int, q: int, m: int)
        requires sub_ok(x, o), m == x.d() * q, m == o.d() * p, p >= 1, q >= 1, p <= x.d(), q <= o.d()
        ensures ({
            let n = x.n() * q - o.n() * p;
            &&& wf(x) && wf(o)
            &&& inr::<T>(x.n() * q) && inr::<T>(o.n() * p) && fits::<T>(n) && inr::<T>(n) && 1 <= m <= T::hi() && vabs(x.d() * o.d()) <= T::hi()
            &&& forall|r: Ratio<T>| #[trigger] rep(r, n, m) ==> forall|a: int, b: int, c: int, e: int|
                #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) ==> rep(r, a * e - c * b, b * e)
        })
    {
        broadcast use ax_range;
        let n1 = x.n(); let d1 = x.d(); let n2 = o.n(); let d2 = o.d();
        let n = n1 * q - n2 * p;
        let (a, b, c, e) = choose|a: int, b: int, c: int, e: int| #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && b > 0 && e > 0
            && fitm::<T>(a * e) && fitm::<T>(c * b) && fits::<T>(a * e - c * b) && fitm::<T>(b * e);
        let k = open_rep(x, a, b); let l = open_rep(o, c, e);
        // d2 = g*q and d1 = g*p for the same g, as d1*q = d2*p: multiply through by d1*d2 instead
        sub_terms(n1, d1, n2, d2, p, q, m, k, l);
        assert(m >= 1 && m <= d1 * d2 && d1 * d2 >= 1) by (nonlinear_arith) requires m == d1 * q, d1 >= 1, 1 <= q <= d2;
        let kl = k * l;
        assert(kl >= 1) by (nonlinear_arith) requires kl == k * l, k > 0, l > 0;
        regroup(d1, d2, k, l);
        assert(n1 * q >= 0 || n1 < 0) by { if n1 >= 0 { assert(n1 * q >= 0) by (nonlinear_arith) requires n1 >= 0, q >= 1; } }
        assert(n2 * p >= 0 || n2 < 0) by { if n2 >= 0 { assert(n2 * p >= 0) by (nonlinear_arith) requires n2 >= 0, p >= 1; } }
        assert forall|r: Ratio<T>, a: int, b: int, c: int, e: int|
                #[trigger] rep(r, n, m) && #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) implies rep(r, a * e - c * b, b * e) by {
            let k = open_rep(x, a, b); let l = open_rep(o, c, e);
            let kl = k * l;
            regroup(n1, d2, k, l); regroup(n2, d1, l, k); regroup(d1, d2, k, l);
            assert(l * k == k * l) by (nonlinear_arith);
            let w = n1 * d2 - n2 * d1; let y = d1 * d2;
            common(n1, d1, n2, d2, p, q, m);
            cross_rep(r, n, m, w, y, kl);
            assert(w * kl == (n1 * d2) * kl - (n2 * d1) * kl) by (nonlinear_arith) requires w == n1 * d2 - n2 * d1;
        }
    }
    pub proof fn common(n1: int, d1: int, n2: int, d2: int, p: int, q: int, m: int)
        requires m == d1 * q, m == d2 * p
        ensures (n1 * q - n2 * p) * (d1 * d2) == (n1 * d2 - n2 * d1) * m
    {
        let y = d1 * d2;
        assert((n1 * q) * y == (n1 * d2) * m) by (nonlinear_arith) requires m == d1 * q, y == d1 * d2;
        assert((n2 * p) * y == (n2 * d1) * m) by (nonlinear_arith) requires m == d2 * p, y == d1 * d2;
        let a = n1 * q; let b = n2 * p; let c = n1 * d2; let e = n2 * d1;
        assert((a - b) * y == a * y - b * y && (c - e) * m == c * m - e * m) by (nonlinear_arith);
    }
    pub proof fn sub_terms(n1: int, d1: int, n2: int, d2: int, p: int, q: int, m: int, k: int, l: int)
        requires d1 >= 1, d2 >= 1, 1 <= p <= d1, 1 <= q <= d2, m == d1 * q, m == d2 * p, k > 0, l > 0
        ensures ({
            let a = n1 * k; let b = d1 * k; let c = n2 * l; let e = d2 * l; let n = n1 * q - n2 * p;
            &&& vabs(n1 * q) <= vabs(a * e) && vabs(n2 * p) <= vabs(c * b)
            &&& vabs(n) <= vabs(a * e - c * b) && (a * e - c * b >= 0 ==> n >= 0)
        })
    {
        let a = n1 * k; let b = d1 * k; let c = n2 * l; let e = d2 * l; let n = n1 * q - n2 * p;
        let kl = k * l;
        assert(kl >= 1) by (nonlinear_arith) requires kl == k * l, k > 0, l > 0;
        assert(a * e == (n1 * d2) * kl) by (nonlinear_arith) requires a == n1 * k, e == d2 * l, kl == k * l;
        assert(c * b == (n2 * d1) * kl) by (nonlinear_arith) requires c == n2 * l, b == d1 * k, kl == k * l;
        let f = n1 * d2; let h = n2 * d1;
        assert(vabs(n1 * q) <= vabs(f)) by (nonlinear_arith) requires f == n1 * d2, 1 <= q <= d2;
        assert(vabs(n2 * p) <= vabs(h)) by (nonlinear_arith) requires h == n2 * d1, 1 <= p <= d1;
        assert(vabs(f) <= vabs(f * kl)) by (nonlinear_arith) requires kl >= 1;
        assert(vabs(h) <= vabs(h * kl)) by (nonlinear_arith) requires kl >= 1;
        let w = f - h;
        // n * d1 * d2 = w * m, and m <= d1 * d2
        let y = d1 * d2;
        common(n1, d1, n2, d2, p, q, m);
        assert(1 <= m && m <= y) by (nonlinear_arith) requires m == d1 * q, d1 >= 1, 1 <= q <= d2, y == d1 * d2;
        assert(vabs(n) <= vabs(w) && (w >= 0 ==> n >= 0)) by (nonlinear_arith) requires n * y == w * m, 1 <= m, m <= y;
        assert(f * kl - h * kl == w * kl) by (nonlinear_arith) requires w == f - h;
        assert(vabs(w) <= vabs(w * kl) && (w * kl >= 0 ==> w >= 0)) by (nonlinear_arith) requires kl >= 1;
    }
    pub proof fn sub_start<T: Integer>(x: Ratio<T>, o: Ratio<T>)
        requires sub_ok(x, o)
        ensures wf(x), wf(o), x.d() == o.d() ==> ({
            let n = x.n() - o.n();
            &&& fits::<T>(n) && inr::<T>(n)
            &&& forall|r: Ratio<T>| #[trigger] rep(r, n, o.d()) ==> forall|a: int, b: int, c: int, e: int|
                #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) ==> rep(r, a * e - c * b, b * e)
        }), vabs(x.d() * o.d()) <= T::hi()
    {
        let (a, b, c, e) = choose|a: int, b: int, c: int, e: int| #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) && b > 0 && e > 0
            && fitm::<T>(a * e) && fitm::<T>(c * b) && fits::<T>(a * e - c * b) && fitm::<T>(b * e);
        let k = open_rep(x, a, b); let l = open_rep(o, c, e);
        assert(x.d() * o.d() == o.d() * x.d()) by (nonlinear_arith);
        sub_common(x, o, x.d(), o.d(), x.d() * o.d());
        if x.d() == o.d() {
            assert(x.d() == x.d() * 1 && x.n() * 1 == x.n() && o.n() * 1 == o.n()) by (nonlinear_arith);
            sub_common(x, o, 1, 1, x.d());
        }
    }
    pub proof fn sub_mid<T: Integer>(x: Ratio<T>, o: Ratio<T>, g: int, m: int)
        requires sub_ok(x, o), is_gcd(g, x.d(), o.d()), g * m == vabs(x.d() * o.d())
        ensures ({
            let q = tdiv(m, x.d()); let p = tdiv(m, o.d()); let n = x.n() * q - o.n() * p;
            &&& x.d() >= 1 && o.d() >= 1 && 1 <= m <= T::hi() && inr::<T>(q) && inr::<T>(p) && fits::<T>(m)
            &&& inr::<T>(x.n() * q) && inr::<T>(o.n() * p) && inr::<T>(n) && fits::<T>(n)
            &&& forall|r: Ratio<T>| #[trigger] rep(r, n, m) ==> forall|a: int, b: int, c: int, e: int|
                #[trigger] rep(x, a, b) && #[trigger] rep(o, c, e) ==> rep(r, a * e - c * b, b * e)
        })
    {
        broadcast use ax_range;
        sub_start(x, o);
        let d1 = x.d(); let d2 = o.d();
        le(g, d1, d2);
        prim(g, d1, d2);
        let p = tdiv(d1, g); let q = tdiv(d2, g);
        assert(d1 * d2 > 0) by (nonlinear_arith) requires d1 >= 1, d2 >= 1;
        assert(g * m == g * (d1 * q)) by (nonlinear_arith) requires g * m == d1 * d2, d2 == g * q;
        assert(m * g == g * m && (d1 * q) * g == g * (d1 * q)) by (nonlinear_arith);
        cancel(m, d1 * q, g);
        assert(d1 * q == d2 * p) by (nonlinear_arith) requires d1 == g * p, d2 == g * q;
        quo(m, d1, q); quo(m, d2, p);
        sub_common(x, o, p, q, m);
    }
    pub proof fn scale_mid<T: Integer>(x: Ratio<T>, m: int, g: int)
        requires scale_ok(x, m), is_gcd(g, x.d(), m), T::lo() <= m
        ensures ({
            let j = tdiv(m, g); let n = x.n() * j;
            &&& wf(x) && g == x.d() && tdiv(x.d(), g) == 1 && inr::<T>(j) && inr::<T>(n) && fits::<T>(n)
            &&& forall|r: Ratio<T>| #[trigger] rep(r, n, 1) ==> forall|a: int, b: int| #[trigger] rep(x, a, b) ==> rep(r, a * m, b)
        })
    {
        broadcast use ax_range;
        let (a, b) = choose|a: int, b: int| #[trigger] rep(x, a, b) && b > 0 && (a * m) % b == 0 && fitm::<T>((a * m) / b);
        let k = open_rep(x, a, b);
        let n0 = x.n(); let d = x.d();
        let w = (a * m) / b;
        vstd::arithmetic::div_mod::lemma_fundamental_div_mod(a * m, b);
        assert((n0 * m) * k == (d * w) * k) by (nonlinear_arith) requires a * m == b * w, a == n0 * k, b == d * k;
        cancel(n0 * m, d * w, k);
        let (p1, q1, x1, y1) = elim(1, n0, d);
        let j = w * x1 + y1 * m;
        assert(m == d * j) by (nonlinear_arith) requires 1 == n0 * x1 + d * y1, n0 * m == d * w, j == w * x1 + y1 * m;
        let (p2, q2, x2, y2) = elim(g, d, m);
        le(g, d, m);
        let z = x2 + j * y2;
        assert(g == d * z) by (nonlinear_arith) requires g == d * x2 + m * y2, m == d * j, z == x2 + j * y2;
        assert(g >= d) by (nonlinear_arith) requires g == d * z, g >= 1, d >= 1;
        quo(m, g, j);
        assert(d == g * 1);
        quo(d, g, 1);
        let n = n0 * j;
        assert(w * d == n * d) by (nonlinear_arith) requires n0 * m == d * w, m == d * j, n == n0 * j;
        cancel(w, n, d);
        assert(n0 >= 0 && j >= 0 ==> n >= 0) by (nonlinear_arith) requires n == n0 * j;
        assert forall|r: Ratio<T>, a: int, b: int| #[trigger] rep(r, n, 1) && #[trigger] rep(x, a, b) implies rep(r, a * m, b) by {
            let k = open_rep(x, a, b);
            assert(rep(r, n, 1));
            reveal(rep);
            let rn = r.n(); let rd = r.d();
            assert((n0 * j) * (d * k) == (n0 * k) * (d * j)) by (nonlinear_arith);
            assert(n * b == a * m);
            assert(rn * b == (n * b) * rd) by (nonlinear_arith) requires rn == n * rd;
        }
    }
    impl<T: Integer> Div for Ratio<T> {
        type Output = Self;
        /*@dep num-rational src/lib.rs | impl<T> Div<Ratio<T>> for Ratio<T> | fn div
            | let gcd_bd = self.denom.gcd(&rhs.denom); ==> let gcd_bd = self.denom.gcd(&rhs.denom); proof { div_mid(self, rhs, gcd_ac.v(), gcd_bd.v()); }
            @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); div_start(self, rhs); */
        fn div(self, rhs: Self) -> (r: Self)
            ensures forall|a: int, b: int, c: int, e: int| #[trigger] rep(self, a, b) && #[trigger] rep(rhs, c, e) && c != 0 ==> rep(r, a * e, b * c)
        { unimplemented!() }
    }
    impl<T: Integer> vstd::std_specs::ops::DivSpecImpl for Ratio<T> {
        open spec fn obeys_div_spec() -> bool { false }
        open spec fn div_req(self, o: Self) -> bool { div_ok(self, o) }
        open spec fn div_spec(self, o: Self) -> Self { arbitrary() }
    }
    impl<T: Integer> Mul for Ratio<T> {
        type Output = Self;
        /*@dep num-rational src/lib.rs | impl<T> Mul<Ratio<T>> for Ratio<T> | fn mul
            | let gcd_bc = self.denom.gcd(&rhs.numer); ==> let gcd_bc = self.denom.gcd(&rhs.numer); proof { mul_mid(self, rhs, gcd_ad.v(), gcd_bc.v()); }
            @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); mul_start(self, rhs); */
        fn mul(self, rhs: Self) -> (r: Self)
            ensures forall|a: int, b: int, c: int, e: int| #[trigger] rep(self, a, b) && #[trigger] rep(rhs, c, e) ==> rep(r, a * c, b * e)
        { unimplemented!() }
    }
    impl<T: Integer> vstd::std_specs::ops::MulSpecImpl for Ratio<T> {
        open spec fn obeys_mul_spec() -> bool { false }
        open spec fn mul_req(self, o: Self) -> bool { mul_ok(self, o) }
        open spec fn mul_spec(self, o: Self) -> Self { arbitrary() }
    }
    impl<T: Integer> Sub for Ratio<T> {
        type Output = Self;
        /*@dep num-rational src/lib.rs | macro_rules! arith_impl | fn $method | $method=sub
            | let lcm = self.denom.lcm(&rhs.denom); ==> let lcm = self.denom.lcm(&rhs.denom);
                proof { let g = choose|g: int| #[trigger] is_gcd(g, self.d(), rhs.d()) && g * lcm.v() == vabs(self.d() * rhs.d()); sub_mid(self, rhs, g, lcm.v()); }
            @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>(); sub_start(self, rhs); */
        fn sub(self, rhs: Self) -> (r: Self)
            ensures forall|a: int, b: int, c: int, e: int| #[trigger] rep(self, a, b) && #[trigger] rep(rhs, c, e) ==> rep(r, a * e - c * b, b * e)
        { unimplemented!() }
    }
    impl<T: Integer> vstd::std_specs::ops::SubSpecImpl for Ratio<T> {
        open spec fn obeys_sub_spec() -> bool { false }
        open spec fn sub_req(self, o: Self) -> bool { sub_ok(self, o) }
        open spec fn sub_spec(self, o: Self) -> Self { arbitrary() }
    }
    impl<T: Integer> Mul<T> for Ratio<T> {
        type Output = Self;
        /*@dep num-rational src/lib.rs | impl<T> Mul<T> for Ratio<T> | fn mul
            | let gcd = self.denom.gcd(&rhs); ==> let gcd = self.denom.gcd(&rhs); proof { scale_mid(self, rhs.v(), gcd.v()); }
            @ broadcast use group_prim_int, group_order; ops_int::<T>(); order_facts::<T>();
              let (a, b) = choose|a: int, b: int| #[trigger] rep(self, a, b) && b > 0 && (a * rhs.v()) % b == 0 && fitm::<T>((a * rhs.v()) / b); let k = open_rep(self, a, b); */
        fn mul(self, rhs: T) -> (r: Self)
            ensures forall|a: int, b: int| #[trigger] rep(self, a, b) ==> rep(r, a * rhs.v(), b)
        { unimplemented!() }
    }
    impl<T: Integer> vstd::std_specs::ops::MulSpecImpl<T> for Ratio<T> {
        open spec fn obeys_mul_spec() -> bool { false }
        open spec fn mul_req(self, o: T) -> bool { scale_ok(self, o.v()) }
        open spec fn mul_spec(self, o: T) -> Self { arbitrary() }
    }
    }
}

pub mod numcmp {
    use vstd::prelude::*;
    use super::num_traits::*;
    use std::cmp::Ordering;
    verus! {
    pub use super::num_traits::int_cmp;
    /// numcmp::NumCmp on integers: comparison of the mathematical values.
    pub trait NumCmp<T: ToPrimitive>: ToPrimitive {
        fn num_cmp(self, other: T) -> (r: Option<Ordering>) ensures r == Some(int_cmp(self.v(), other.v()));
        fn num_eq(self, other: T) -> (r: bool) ensures r == (self.v() == other.v());
        fn num_ne(self, other: T) -> (r: bool) ensures r == (self.v() != other.v());
        fn num_lt(self, other: T) -> (r: bool) ensures r == (self.v() < other.v());
        fn num_gt(self, other: T) -> (r: bool) ensures r == (self.v() > other.v());
        fn num_le(self, other: T) -> (r: bool) ensures r == (self.v() <= other.v());
        fn num_ge(self, other: T) -> (r: bool) ensures r == (self.v() >= other.v());
    }
    // the same type
    macro_rules! same {
        ($($B:ident),*) => { $( verus!{
            impl NumCmp<$B> for $B {
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_equal_types | impl NumCmp<$ty> for $ty fn num_cmp(self | $big=$B $small=$S $ty=$B */
                fn num_cmp(self, other: $B) -> (r: Option<Ordering>) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_equal_types | impl NumCmp<$ty> for $ty fn num_eq(self | $big=$B $small=$S $ty=$B */
                fn num_eq(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_equal_types | impl NumCmp<$ty> for $ty fn num_ne(self | $big=$B $small=$S $ty=$B */
                fn num_ne(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_equal_types | impl NumCmp<$ty> for $ty fn num_lt(self | $big=$B $small=$S $ty=$B */
                fn num_lt(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_equal_types | impl NumCmp<$ty> for $ty fn num_gt(self | $big=$B $small=$S $ty=$B */
                fn num_gt(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_equal_types | impl NumCmp<$ty> for $ty fn num_le(self | $big=$B $small=$S $ty=$B */
                fn num_le(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_equal_types | impl NumCmp<$ty> for $ty fn num_ge(self | $big=$B $small=$S $ty=$B */
                fn num_ge(self, other: $B) -> (r: bool) { unimplemented!() }
            }
        } )* }
    }
    // a type whose values all fit another one
    macro_rules! casting {
        ($($B:ident $S:ident),*) => { $( verus!{
            impl NumCmp<$S> for $B {
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$small> for $big fn num_cmp(self | $big=$B $small=$S $ty=$B */
                fn num_cmp(self, other: $S) -> (r: Option<Ordering>) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$small> for $big fn num_eq(self | $big=$B $small=$S $ty=$B */
                fn num_eq(self, other: $S) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$small> for $big fn num_ne(self | $big=$B $small=$S $ty=$B */
                fn num_ne(self, other: $S) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$small> for $big fn num_lt(self | $big=$B $small=$S $ty=$B */
                fn num_lt(self, other: $S) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$small> for $big fn num_gt(self | $big=$B $small=$S $ty=$B */
                fn num_gt(self, other: $S) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$small> for $big fn num_le(self | $big=$B $small=$S $ty=$B */
                fn num_le(self, other: $S) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$small> for $big fn num_ge(self | $big=$B $small=$S $ty=$B */
                fn num_ge(self, other: $S) -> (r: bool) { unimplemented!() }
            }
            impl NumCmp<$B> for $S {
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$big> for $small fn num_cmp(self | $big=$B $small=$S $ty=$B */
                fn num_cmp(self, other: $B) -> (r: Option<Ordering>) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$big> for $small fn num_eq(self | $big=$B $small=$S $ty=$B */
                fn num_eq(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$big> for $small fn num_ne(self | $big=$B $small=$S $ty=$B */
                fn num_ne(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$big> for $small fn num_lt(self | $big=$B $small=$S $ty=$B */
                fn num_lt(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$big> for $small fn num_gt(self | $big=$B $small=$S $ty=$B */
                fn num_gt(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$big> for $small fn num_le(self | $big=$B $small=$S $ty=$B */
                fn num_le(self, other: $B) -> (r: bool) { unimplemented!() }
                /*@dep numcmp src/lib.rs | macro_rules! impl_for_nonequal_types_with_casting | impl NumCmp<$big> for $small fn num_ge(self | $big=$B $small=$S $ty=$B */
                fn num_ge(self, other: $B) -> (r: bool) { unimplemented!() }
            }
        } )* }
    }
    same!(i32, i64, i128);
    casting!(i64 i32, i128 i32, i128 i64);
    }
}

pub mod stdspec {
    use vstd::prelude::*;
    use std::cmp::Ordering;
    use vstd::std_specs::cmp::{OrdSpec, PartialOrdSpec};
    verus! {
    #[verifier::allow(undeclared_external_trait)]
    pub assume_specification<T: std::cmp::Ord + std::marker::Destruct> [std::cmp::min](a: T, b: T) -> (r: T)
        ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { b } else { a });
    #[verifier::allow(undeclared_external_trait)]
    pub assume_specification<T: std::cmp::Ord + std::marker::Destruct> [std::cmp::max](a: T, b: T) -> (r: T)
        ensures T::obeys_cmp_spec() ==> r == (if b.cmp_spec(&a) == Ordering::Less { a } else { b });
    pub open spec fn ord_rank(o: Ordering) -> int {
        match o { Ordering::Less => 0, Ordering::Equal => 1, Ordering::Greater => 2 }
    }
    pub open spec fn search_result<T>(s: Seq<T>, e: spec_fn(int, Ordering) -> bool, r: Result<usize, usize>) -> bool {
        match r {
            Ok(i) => 0 <= i < s.len() && e(i as int, Ordering::Equal),
            Err(i) => 0 <= i <= s.len() && (monotone(s, e) ==> (0 < i ==> e(i - 1, Ordering::Less)) && (i < s.len() ==> e(i as int, Ordering::Greater))),
        }
    }
    pub open spec fn monotone<T>(s: Seq<T>, e: spec_fn(int, Ordering) -> bool) -> bool {
        forall|j: int, k: int, a: Ordering, b: Ordering| 0 <= j <= k < s.len() && #[trigger] e(j, a) && #[trigger] e(k, b) ==> ord_rank(a) <= ord_rank(b)
    }
    /// slice::binary_search_by as documented: a hit is an element the comparison calls Equal; when
    /// the comparison is monotone over the slice, a miss splits it into Less and Greater elements.
    pub assume_specification<'a, T, F: FnMut(&'a T) -> Ordering> [<[T]>::binary_search_by](s: &'a [T], f: F) -> (r: Result<usize, usize>)
        requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],))
        ensures search_result(s@, |i: int, o: Ordering| f.ensures((&s@[i],), o), r);
    pub assume_specification [Ordering::then](a: Ordering, b: Ordering) -> (r: Ordering)
        ensures r == (if a == Ordering::Equal { b } else { a });
    }
}

pub mod curspec {
    use vstd::prelude::*;
    verus! {
    /// what a cursor over a sequence is required to be
    pub trait CursorSpec {
        spec fn ok(&self) -> bool;
        /// element `i` exists
        spec fn has(&self, i: int) -> bool;
    }
    pub open spec fn nz(n: std::num::NonZeroUsize) -> int { n@ as int }
    }
}

pub mod stdtext {
    //! The text of the standard library behind the specifications assumed in `stdx` and `stdspec`.
    use vstd::prelude::*;
    use vstd::std_specs::cmp::*;
    use std::cmp::Ordering;
    use std::cmp::Ordering::*;
    use super::stdspec::*;
    use super::stdx::ord_facts;
    use super::num_traits::{vabs, tdiv_facts, neg_div};
    verus! {
    /// Euclidean division from truncated division, as vstd spells it
    pub proof fn euclid(a: int, b: int)
        requires b != 0
        ensures ({
            let q = if a == 0 { 0 } else if a > 0 { a / b } else { -((-a) / b) };
            let r = if a == 0 { 0 } else if a > 0 { a % b } else { -((-a) % b) };
            &&& a % b == (if r < 0 { r + vabs(b) } else { r })
            &&& a / b == (if r < 0 { if b > 0 { q - 1 } else { q + 1 } } else { q })
            &&& vabs(r) < vabs(b)
            &&& r < 0 && b < 0 ==> q + 1 <= -a
            &&& r < 0 && b > 0 ==> q - 1 >= a
            &&& a == q * b + r
        })
    {
        tdiv_facts(a, b);
        let q = if a == 0 { 0 } else if a > 0 { a / b } else { -((-a) / b) };
        let r = if a == 0 { 0 } else if a > 0 { a % b } else { -((-a) % b) };
        assert(a == q * b + r) by (nonlinear_arith) requires b != 0, q == (if a == 0 { 0 } else if a > 0 { a / b } else { -((-a) / b) }), r == (if a == 0 { 0 } else if a > 0 { a % b } else { -((-a) % b) });
        let q2 = if r < 0 { if b > 0 { q - 1 } else { q + 1 } } else { q };
        let r2 = if r < 0 { r + vabs(b) } else { r };
        assert(a == q2 * b + r2) by (nonlinear_arith) requires a == q * b + r, q2 == (if r < 0 { if b > 0 { q - 1 } else { q + 1 } } else { q }), r2 == (if r < 0 { r + (if b < 0 { -b } else { b }) } else { r });
        if b > 0 { vstd::arithmetic::div_mod::lemma_fundamental_div_mod_converse(a, b, q2, r2); }
        else { assert(a / b == q2 && a % b == r2) by (nonlinear_arith) requires a == q2 * b + r2, 0 <= r2 < -b, b < 0; }
        if a < 0 && b < 0 {
            neg_div(-a, b);
            vstd::arithmetic::div_mod::lemma_div_pos_is_pos(-a, -b);
            assert(r < 0 ==> q + 1 <= -a) by (nonlinear_arith) requires a == q * b + r, -r < -b, b < 0, q >= 0;
        }
        if a < 0 && b > 0 {
            vstd::arithmetic::div_mod::lemma_div_pos_is_pos(-a, b);
            assert(r < 0 ==> q - 1 >= a) by (nonlinear_arith) requires a == q * b + r, -r < b, b > 0, q <= 0;
        }
    }
    /*@dep core src/slice/mod.rs | impl<T> [T] | fn binary_search_by<
        | while size > 1 { ==> while size > 1
            invariant
                1 <= size, base + size <= s@.len(),
                forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],)),
                base == 0 || exists|o: Ordering| o != Greater && #[trigger] e(base as int, o),
                base + size == s@.len() || !monotone(s@, e) || exists|i: int| base < i <= base + size && #[trigger] e(i, Greater),
                e == |i: int, o: Ordering| f.ensures((&s@[i],), o),
            decreases size
            { proof { ord_facts(); }
        | f(unsafe { self.get_unchecked(mid) }) ==> f(&s[mid])
        | hint::select_unpredictable(cmp == Greater, base, mid) ==> if cmp == Greater { base } else { mid }
        | f(unsafe { self.get_unchecked(base) }) ==> f(&s[base])
        | unsafe { hint::assert_unchecked(base < self.len()) } ==> assert(base < s.len())
        | unsafe { hint::assert_unchecked(result <= self.len()) } ==> assert(result <= s.len())
        | self.len() ==> s.len()
        | let mut size = ==> let ghost e = |i: int, o: Ordering| f.ensures((&s@[i],), o); let mut size =
        | let mid = base + half; ==> let mid = base + half; let ghost (b0, z0) = (base, size);
        | size -= half; ==> size -= half;
            proof {
                assert(e(mid as int, cmp));
                if b0 + z0 < s@.len() && monotone(s@, e) {
                    let i = choose|i: int| b0 < i <= b0 + z0 && #[trigger] e(i, Greater);
                    if cmp != Greater { assert(i > mid); }
                }
                if base > 0 && base == b0 { let o = choose|o: Ordering| o != Greater && #[trigger] e(b0 as int, o); }
            }
        | if cmp == Equal { ==> proof { assert(e(base as int, cmp)); } if cmp == Equal {
        @ ord_facts(); */
    pub fn binary_search_by<'a, T, F: Fn(&'a T) -> Ordering>(s: &'a [T], f: F) -> (r: Result<usize, usize>)
        requires forall|i: int| 0 <= i < s@.len() ==> f.requires((&#[trigger] s@[i],))
        ensures search_result(s@, |i: int, o: Ordering| f.ensures((&s@[i],), o), r)
    { unimplemented!() }
    /*@dep core src/cmp.rs | impl Ordering | fn then( | self=a other=b */
    pub fn then(a: Ordering, b: Ordering) -> (r: Ordering)
        ensures r == (if a == Ordering::Equal { b } else { a })
    { unimplemented!() }
    /*@dep core src/cmp.rs | impl Ordering | fn reverse | self=a */
    pub fn reverse(a: Ordering) -> (r: Ordering)
        ensures r == (match a { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less })
    { unimplemented!() }
    /*@dep core src/cmp.rs | pub const trait Ord | fn min(self | other=b self=a */
    pub fn min<T: Ord>(a: T, b: T) -> (r: T)
        ensures T::obeys_partial_cmp_spec() ==> r == (if b.partial_cmp_spec(&a) == Some(Ordering::Less) { b } else { a })
    { unimplemented!() }
    /*@dep core src/cmp.rs | pub const trait Ord | fn max(self | other=b self=a */
    pub fn max<T: Ord>(a: T, b: T) -> (r: T)
        ensures T::obeys_partial_cmp_spec() ==> r == (if b.partial_cmp_spec(&a) == Some(Ordering::Less) { a } else { b })
    { unimplemented!() }
    /*@dep core src/convert/mod.rs | "convert_identity" | pub const fn identity */
    pub fn identity<T>(x: T) -> (r: T) ensures r == x { unimplemented!() }
    #[derive(Debug)]
    pub enum IntErrorKind { PosOverflow, NegOverflow }
    #[derive(Debug)]
    pub struct TryFromIntError(pub IntErrorKind);
    } // verus!
    /// the conversions between integers: those that always fit, and those with a bound below, above or both
    pub mod convert {
    macro_rules! lossless {
        ($($m:ident $a:ident $b:ident),*) => { $( verus!{
            /*@dep core src/convert/num.rs | macro_rules! impl_from { | fn from( | debug_assert!=assert <$large>=$b <$small>=$a Self=$b */
            pub fn $m(small: $a) -> (r: $b) ensures r as int == small as int { unimplemented!() }
        } )* }
    }
    macro_rules! upper {
        ($($m:ident $a:ident $b:ident),*) => { $( verus!{
            /*@dep core src/convert/num.rs | macro_rules! impl_try_from_upper_bounded { | fn try_from( | Self::MAX=$b::MAX Self=$b $source=$a */
            pub fn $m(u: $a) -> (r: Result<$b, TryFromIntError>)
                ensures match r { Ok(b) => b as int == u as int, Err(_) => !($b::MIN <= u <= $b::MAX) } { unimplemented!() }
        } )* }
    }
    macro_rules! lower {
        ($($m:ident $a:ident $b:ident),*) => { $( verus!{
            /*@dep core src/convert/num.rs | macro_rules! impl_try_from_lower_bounded { | fn try_from( | Self::MAX=$b::MAX Self=$b $source=$a */
            pub fn $m(u: $a) -> (r: Result<$b, TryFromIntError>)
                ensures match r { Ok(b) => b as int == u as int, Err(_) => !($b::MIN <= u <= $b::MAX) } { unimplemented!() }
        } )* }
    }
    macro_rules! both {
        ($($m:ident $a:ident $b:ident),*) => { $( verus!{
            /*@dep core src/convert/num.rs | macro_rules! impl_try_from_both_bounded { | fn try_from( | Self::MAX=$b::MAX Self::MIN=$b::MIN Self=$b $source=$a */
            pub fn $m(u: $a) -> (r: Result<$b, TryFromIntError>)
                ensures match r { Ok(b) => b as int == u as int, Err(_) => !($b::MIN <= u <= $b::MAX) } { unimplemented!() }
        } )* }
    }
    macro_rules! from_bool {
        ($($m:ident $b:ident),*) => { $( verus!{
            /*@dep core src/convert/num.rs | macro_rules! impl_from_bool { | fn from( | Self=$b */
            pub fn $m(b: bool) -> (r: $b) ensures r as int == (if b { 1int } else { 0 }) { unimplemented!() }
        } )* }
    }
    use vstd::prelude::*;
    use super::{TryFromIntError, IntErrorKind};
    lossless!(i8_i16 i8 i16, i8_i32 i8 i32, i8_i64 i8 i64, i8_i128 i8 i128, i16_i32 i16 i32, i16_i64 i16 i64, i16_i128 i16 i128, i32_i64 i32 i64, i32_i128 i32 i128, i64_i128 i64 i128, u8_i16 u8 i16, u8_i32 u8 i32, u8_i64 u8 i64, u8_i128 u8 i128, u8_u16 u8 u16, u8_u32 u8 u32, u8_u64 u8 u64, u8_u128 u8 u128, u16_i32 u16 i32, u16_i64 u16 i64, u16_i128 u16 i128, u16_u32 u16 u32, u16_u64 u16 u64, u16_u128 u16 u128, u32_i64 u32 i64, u32_i128 u32 i128, u32_u64 u32 u64, u32_u128 u32 u128, u64_i128 u64 i128, u64_u128 u64 u128);
    upper!(u8_i8 u8 i8, u16_i8 u16 i8, u16_i16 u16 i16, u16_u8 u16 u8, u32_i8 u32 i8, u32_i16 u32 i16, u32_i32 u32 i32, u32_u8 u32 u8, u32_u16 u32 u16, u64_i8 u64 i8, u64_i16 u64 i16, u64_i32 u64 i32, u64_i64 u64 i64, u64_u8 u64 u8, u64_u16 u64 u16, u64_u32 u64 u32, u128_i8 u128 i8, u128_i16 u128 i16, u128_i32 u128 i32, u128_i64 u128 i64, u128_i128 u128 i128, u128_u8 u128 u8, u128_u16 u128 u16, u128_u32 u128 u32, u128_u64 u128 u64);
    lower!(i8_u8 i8 u8, i8_u16 i8 u16, i8_u32 i8 u32, i8_u64 i8 u64, i8_u128 i8 u128, i16_u16 i16 u16, i16_u32 i16 u32, i16_u64 i16 u64, i16_u128 i16 u128, i32_u32 i32 u32, i32_u64 i32 u64, i32_u128 i32 u128, i64_u64 i64 u64, i64_u128 i64 u128, i128_u128 i128 u128);
    both!(i16_i8 i16 i8, i16_u8 i16 u8, i32_i8 i32 i8, i32_i16 i32 i16, i32_u8 i32 u8, i32_u16 i32 u16, i64_i8 i64 i8, i64_i16 i64 i16, i64_i32 i64 i32, i64_u8 i64 u8, i64_u16 i64 u16, i64_u32 i64 u32, i128_i8 i128 i8, i128_i16 i128 i16, i128_i32 i128 i32, i128_i64 i128 i64, i128_u8 i128 u8, i128_u16 i128 u16, i128_u32 i128 u32, i128_u64 i128 u64);
    from_bool!(bool_i8 i8, bool_i16 i16, bool_i32 i32, bool_i64 i64, bool_i128 i128, bool_u8 u8, bool_u16 u16, bool_u32 u32, bool_u64 u64, bool_u128 u128);
    }
    macro_rules! ints {
        ($($m:ident $t:ident $u:ident),*) => { $( pub mod $m { use vstd::prelude::*; verus!{
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn rem_euclid( | self=a rhs=b @ super::euclid(a as int, b as int); */
            pub fn rem_euclid(a: $t, b: $t) -> (r: $t) requires b != 0, a != $t::MIN || b != -1 ensures r as int == (a as int) % (b as int) { unimplemented!() }
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn div_euclid(
                | let q = self / rhs; ==> let q = a / b; proof { assert(q as int == super::super::num_traits::tdiv(a as int, b as int)); }
                | self % rhs ==> a % b
                | rhs > 0 ==> b > 0
                @ super::euclid(a as int, b as int); super::tdiv_facts(a as int, b as int); */
            pub fn div_euclid(a: $t, b: $t) -> (r: $t) requires b != 0, a != $t::MIN || b != -1 ensures r as int == (a as int) / (b as int) { unimplemented!() }
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn abs( | self=a */
            pub fn abs(a: $t) -> (r: $t) requires a != $t::MIN ensures r as int == (if a < 0 { -(a as int) } else { a as int }) { unimplemented!() }
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn unsigned_abs( | self=a $UnsignedT=$u @ assert(($t::MIN as $u) == sub($u::MAX, $t::MAX as $u)) by (bit_vector); */
            pub fn unsigned_abs(a: $t) -> (r: $u) ensures r as int == (if a < 0 { -(a as int) } else { a as int }) { unimplemented!() }
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn wrapping_abs( | self=a */
            pub fn wrapping_abs(a: $t) -> (r: $t) ensures r as int == (if a < 0 && a != $t::MIN { -(a as int) } else { a as int }) { unimplemented!() }
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn wrapping_neg( | self=a $SelfT=$t */
            pub fn wrapping_neg(a: $t) -> (r: $t) ensures r as int == (if a != $t::MIN { -(a as int) } else { a as int }) { unimplemented!() }
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn is_negative( | self=a */
            pub fn is_negative(a: $t) -> (r: bool) ensures r == (a < 0) { unimplemented!() }
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn is_positive( | self=a */
            pub fn is_positive(a: $t) -> (r: bool) ensures r == (a > 0) { unimplemented!() }
            /*@dep core src/num/int_macros.rs | macro_rules! int_impl | const fn min_value( | Self=$t */
            pub fn min_value() -> (r: $t) ensures r == $t::MIN { unimplemented!() }
        } } )* }
    }
    ints!(of_i8 i8 u8, of_i16 i16 u16, of_i32 i32 u32, of_i64 i64 u64, of_i128 i128 u128);
}

pub mod lifted {
    use vstd::prelude::*;
    use std::cmp::Ordering;
    verus! {
    /// `PartialEq` and `PartialOrd` with room for a precondition.
    pub trait PartialEqL<Rhs> {
        spec fn eq_req(&self, o: &Rhs) -> bool;
        spec fn eq_ens(&self, o: &Rhs, r: bool) -> bool;
        fn eq(&self, other: &Rhs) -> (r: bool) requires self.eq_req(other) ensures self.eq_ens(other, r);
    }
    pub trait PartialOrdL<Rhs> {
        spec fn cmp_req(&self, o: &Rhs) -> bool;
        spec fn cmp_ens(&self, o: &Rhs, r: Option<Ordering>) -> bool;
        fn partial_cmp(&self, other: &Rhs) -> (r: Option<Ordering>) requires self.cmp_req(other) ensures self.cmp_ens(other, r);
    }
    }
}

#[allow(non_camel_case_types)]
pub mod libc {
    use vstd::prelude::*;
    verus! {
    pub type time_t = i64;
    pub struct Zone { x: u8 }
    /// stands for a null `tm_zone`
    #[verifier::external_body]
    pub fn null_mut() -> Zone { unimplemented!() }
    pub struct tm {
        pub tm_sec: i32, pub tm_min: i32, pub tm_hour: i32, pub tm_mday: i32, pub tm_mon: i32, pub tm_year: i32,
        pub tm_wday: i32, pub tm_yday: i32, pub tm_isdst: i32, pub tm_gmtoff: i64, pub tm_zone: Zone,
    }
    /// POSIX: the calendar fields of a count of seconds since the epoch, every day having 86400 of them
    #[verifier::external_body]
    pub fn gmtime_r(t: &i64, r: &mut tm)
        requires 0 <= *t <= super::systime::LATEST()
        ensures
            crate::vspec::valid_ymd(1900 + final(r).tm_year, 1 + final(r).tm_mon, final(r).tm_mday as int), 70 <= final(r).tm_year <= 4_000_000,
            0 <= final(r).tm_mon <= 11,
            0 <= final(r).tm_hour <= 23, 0 <= final(r).tm_min <= 59, 0 <= final(r).tm_sec <= 59,
            crate::vspec::civil_day(1900 + final(r).tm_year, 1 + final(r).tm_mon, final(r).tm_mday as int) * 86400
                + final(r).tm_hour * 3600 + final(r).tm_min * 60 + final(r).tm_sec == *t,
    { unimplemented!() }
    }
}

pub mod systime {
    //! std::time::SystemTime and Duration: a number of nanoseconds since the epoch.
    use vstd::prelude::*;
    use std::cmp::Ordering;
    use super::numcmp::int_cmp;
    verus! {
    /// core::num::niche_types::Nanoseconds: a number below 10^9 by its type
    #[derive(Clone, Copy)]
    pub struct Nanoseconds { pub x: u32 }
    impl Nanoseconds {
        pub open spec fn v(self) -> int { self.x as int % 1_000_000_000 }
        #[verifier::external_body]
        pub fn as_inner(self) -> (r: u32) ensures r as int == self.v() { unimplemented!() }
        #[verifier::external_body]
        pub unsafe fn new_unchecked(x: u32) -> (r: Nanoseconds) requires x < 1_000_000_000 ensures r.v() == x as int { unimplemented!() }
    }
    // std::time::Duration
    const NANOS_PER_SEC: u32 = 1_000_000_000;
    const NANOS_PER_MILLI: u32 = 1_000_000;
    const NANOS_PER_MICRO: u32 = 1_000;
    const MILLIS_PER_SEC: u64 = 1_000;
    const MICROS_PER_SEC: u64 = 1_000_000;
    #[derive(Clone, Copy)]
    pub struct StdDuration { pub secs: u64, pub nanos: Nanoseconds }
    impl StdDuration {
        pub open spec fn ns(self) -> int { self.secs * 1_000_000_000 + self.nanos.v() }
        /*@dep core src/time.rs | impl Duration | fn new( | Duration=StdDuration */
        pub fn new(secs: u64, nanos: u32) -> (r: StdDuration)
            requires nanos < 1_000_000_000
            ensures r.ns() == secs * 1_000_000_000 + nanos
        { unimplemented!() }
        /*@dep core src/time.rs | impl Duration | fn as_secs( */
        pub fn as_secs(&self) -> (r: u64) ensures r as int == self.ns() / 1_000_000_000 { unimplemented!() }
        /*@dep core src/time.rs | impl Duration | fn subsec_nanos( */
        pub fn subsec_nanos(&self) -> (r: u32) ensures r as int == self.ns() % 1_000_000_000 { unimplemented!() }
        /*@dep core src/time.rs | impl Duration | fn subsec_micros( */
        pub fn subsec_micros(&self) -> (r: u32) ensures r as int == self.ns() % 1_000_000_000 / 1000 { unimplemented!() }
        /*@dep core src/time.rs | impl Duration | fn subsec_millis( */
        pub fn subsec_millis(&self) -> (r: u32) ensures r as int == self.ns() % 1_000_000_000 / 1_000_000 { unimplemented!() }
        /*@dep core src/time.rs | impl Duration | fn as_nanos(
            @ assert(0 <= (self.secs as int) * (NANOS_PER_SEC as int) <= 0xffff_ffff_ffff_ffff * 1_000_000_000) by (nonlinear_arith) requires 0 <= self.secs <= 0xffff_ffff_ffff_ffff, 0 <= NANOS_PER_SEC <= 1_000_000_000;
              assert(0 <= self.nanos.v() < 1_000_000_000); */
        pub fn as_nanos(&self) -> (r: u128) ensures r as int == self.ns() { unimplemented!() }
        /*@dep core src/time.rs | impl Duration | fn as_micros(
            @ assert(0 <= (self.secs as int) * (MICROS_PER_SEC as int) <= 0xffff_ffff_ffff_ffff * 1_000_000_000) by (nonlinear_arith) requires 0 <= self.secs <= 0xffff_ffff_ffff_ffff, 0 <= MICROS_PER_SEC <= 1_000_000_000;
              assert(0 <= self.nanos.v() < 1_000_000_000); */
        pub fn as_micros(&self) -> (r: u128) ensures r as int == self.ns() / 1000 { unimplemented!() }
        /*@dep core src/time.rs | impl Duration | fn as_millis(
            @ assert(0 <= (self.secs as int) * (MILLIS_PER_SEC as int) <= 0xffff_ffff_ffff_ffff * 1_000_000_000) by (nonlinear_arith) requires 0 <= self.secs <= 0xffff_ffff_ffff_ffff, 0 <= MILLIS_PER_SEC <= 1_000_000_000;
              assert(0 <= self.nanos.v() < 1_000_000_000); */
        pub fn as_millis(&self) -> (r: u128) ensures r as int == self.ns() / 1_000_000 { unimplemented!() }
    }
    // the time of Unix systems
    const NSEC_PER_SEC: u64 = 1_000_000_000;
    #[derive(Clone, Copy)]
    pub struct Timespec { pub tv_sec: i64, pub tv_nsec: Nanoseconds }
    impl Timespec {
        pub open spec fn ns(self) -> int { self.tv_sec * 1_000_000_000 + self.tv_nsec.v() }
        /// derived: seconds first, then nanoseconds
        #[verifier::external_body]
        fn ge(&self, o: &Timespec) -> (r: bool) ensures r == (self.tv_sec > o.tv_sec || self.tv_sec == o.tv_sec && self.tv_nsec.v() >= o.tv_nsec.v()) { unimplemented!() }
        /*@dep std src/sys/pal/unix/time.rs | pub fn sub_timespec | fn sub_ge_to_unsigned(
            | .cast_unsigned() ==>  as u64
            @ assert(forall|x: i64| x >= 0i64 ==> #[trigger] (x as u64) as int == x as int) by (bit_vector);
              assert(forall|x: i64| x < 0i64 ==> #[trigger] (x as u64) as int == x as int + 0x1_0000_0000_0000_0000) by (bit_vector); */
        fn sub_ge_to_unsigned(a: i64, b: i64) -> (r: u64) requires a >= b ensures r as int == a - b { unimplemented!() }
        /*@dep std src/sys/pal/unix/time.rs | impl Timespec | fn sub_timespec( | Duration::=StdDuration:: sub_ge_to_unsigned=Self::sub_ge_to_unsigned
            | without fn sub_ge_to_unsigned
            | self >= other ==> self.ge(other)
            | debug_assert!(self.tv_nsec < other.tv_nsec); ==> assert(self.tv_nsec.v() < other.tv_nsec.v());
            | debug_assert!(self.tv_sec > other.tv_sec); ==> assert(self.tv_sec > other.tv_sec);
            | debug_assert!(self.tv_sec > i64::MIN); ==> assert(self.tv_sec > i64::MIN); */
        fn sub_timespec(&self, other: &Timespec) -> (r: Result<StdDuration, StdDuration>)
            ensures match r { Ok(d) => self.ns() >= other.ns() && d.ns() == self.ns() - other.ns(), Err(d) => self.ns() < other.ns() && d.ns() == other.ns() - self.ns() }
            decreases (if self.ns() < other.ns() { 1int } else { 0 })
        { unimplemented!() }
    }
    #[derive(Clone, Copy)]
    pub struct SysTime { pub t: Timespec }
    impl SysTime {
        /*@dep std src/sys/time/unix.rs | impl SystemTime | fn sub_time( */
        pub fn sub_time(&self, other: &SysTime) -> (r: Result<StdDuration, StdDuration>)
            ensures match r { Ok(d) => self.t.ns() >= other.t.ns() && d.ns() == self.t.ns() - other.t.ns(), Err(d) => self.t.ns() < other.t.ns() && d.ns() == other.t.ns() - self.t.ns() }
        { unimplemented!() }
    }
    #[derive(Clone, Copy)]
    pub struct SystemTime(pub SysTime);
    pub struct SystemTimeError(pub StdDuration);
    impl core::fmt::Debug for SystemTimeError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
    impl SystemTimeError {
        /*@dep std src/time.rs | impl SystemTimeError | fn duration( | Duration=StdDuration */
        pub fn duration(&self) -> (r: StdDuration) ensures r == self.0 { unimplemented!() }
    }
    pub const UNIX_EPOCH: SystemTime = SystemTime::UNIX_EPOCH;
    pub open spec fn LATEST() -> int { 100_000_000_000_000 }
    impl SystemTime {
        pub open spec fn ns(self) -> int { self.0.t.ns() }
        pub const UNIX_EPOCH: SystemTime = SystemTime(SysTime { t: Timespec { tv_sec: 0, tv_nsec: Nanoseconds { x: 0 } } });
        /// the clock reads a time between 1970 and about three million years from now
        #[verifier::external_body]
        pub fn now() -> (r: SystemTime) ensures 0 <= r.ns() <= LATEST() * 1_000_000_000 { unimplemented!() }
        /*@dep std src/time.rs | impl SystemTime | fn duration_since(
            | self.0.sub_time(&earlier.0).map_err(SystemTimeError) ==> match self.0.sub_time(&earlier.0) { Ok(d) => Ok(d), Err(d) => Err(SystemTimeError(d)) } */
        pub fn duration_since(&self, earlier: SystemTime) -> (r: Result<StdDuration, SystemTimeError>)
            ensures self.ns() >= earlier.ns() ==> r is Ok && r->Ok_0.ns() == self.ns() - earlier.ns(),
                self.ns() < earlier.ns() ==> r is Err && r->Err_0.0.ns() == earlier.ns() - self.ns(),
        { unimplemented!() }
    }
    impl PartialEq for SystemTime {
        #[verifier::external_body]
        fn eq(&self, o: &SystemTime) -> bool { unimplemented!() }
    }
    impl PartialOrd for SystemTime {
        #[verifier::external_body]
        fn partial_cmp(&self, o: &SystemTime) -> Option<Ordering> { unimplemented!() }
    }
    impl vstd::std_specs::cmp::PartialEqSpecImpl for SystemTime {
        open spec fn obeys_eq_spec() -> bool { true }
        open spec fn eq_spec(&self, o: &Self) -> bool { self.ns() == o.ns() }
    }
    impl vstd::std_specs::cmp::PartialOrdSpecImpl for SystemTime {
        open spec fn obeys_partial_cmp_spec() -> bool { true }
        open spec fn partial_cmp_spec(&self, o: &Self) -> Option<Ordering> { Some(int_cmp(self.ns(), o.ns())) }
    }
    }
}

pub mod fsys {
    //! The environment `load_leap_segments` reads: $TZDIR, the files under it and their parser.
    use vstd::prelude::*;
    verus! {
    /// the path as a string; relative components are not resolved
    pub struct PathBuf { pub x: Ghost<Seq<char>> }
    /// the value of an environment variable, if it is set
    pub uninterp spec fn env_var(name: Seq<char>) -> Option<Seq<char>>;
    /// the text is valid Unicode (a `Seq<char>` here stands for any name that the system allows)
    pub uninterp spec fn unicode(s: Seq<char>) -> bool;
    pub open spec fn tzdir_path() -> Seq<char> {
        match env_var("TZDIR"@) { Some(s) => s, None => "/usr/share/zoneinfo"@ }
    }
    /// std::path::Path::join on Unix
    pub open spec fn path_join(a: Seq<char>, b: Seq<char>) -> Seq<char> {
        if b.len() > 0 && b[0] == '/' { b } else if a.len() == 0 || a.last() == '/' { a + b } else { a.push('/') + b }
    }
    pub uninterp spec fn file_bytes(p: Seq<char>) -> Seq<u8>;
    /// the file exists and can be read
    pub uninterp spec fn file_readable(p: Seq<char>) -> bool;
    impl PathBuf {
        pub open spec fn p(self) -> Seq<char> { self.x@ }
        #[verifier::external_body]
        pub fn join<P: AsPath>(&self, s: P) -> (r: PathBuf) ensures r.p() == path_join(self.p(), s.ap()) { unimplemented!() }
    }
    /// AsRef<Path>
    pub trait AsPath { spec fn ap(&self) -> Seq<char>; }
    impl<'a> AsPath for &'a str { open spec fn ap(&self) -> Seq<char> { (*self)@ } }
    impl AsPath for String { open spec fn ap(&self) -> Seq<char> { self@ } }
    impl<'a> AsPath for &'a String { open spec fn ap(&self) -> Seq<char> { (*self)@ } }
    impl AsPath for PathBuf { open spec fn ap(&self) -> Seq<char> { self.p() } }
    impl<'a> AsPath for &'a PathBuf { open spec fn ap(&self) -> Seq<char> { self.p() } }
    impl<'a> core::convert::From<&'a str> for PathBuf {
        #[verifier::external_body]
        fn from(s: &'a str) -> (r: PathBuf) ensures r.p() == s@ { unimplemented!() }
    }
    /// String::from(s) is the text of s
    pub axiom fn string_from()
        ensures
            <String as vstd::std_specs::convert::FromSpec<&'static str>>::obeys_from_spec(),
            forall|s: &'static str| (#[trigger] <String as vstd::std_specs::convert::FromSpec<&'static str>>::from_spec(s))@ == s@;
    impl core::convert::From<String> for PathBuf {
        #[verifier::external_body]
        fn from(s: String) -> (r: PathBuf) ensures r.p() == s@ { unimplemented!() }
    }
    #[derive(Debug)]
    pub struct IoError { x: u8 }
    #[derive(Debug)]
    pub struct VarError { x: u8 }
    #[verifier::external_body]
    pub fn var(name: &str) -> (r: Result<String, VarError>)
        ensures match r {
            Ok(s) => env_var(name@) == Some(s@),
            Err(_) => match env_var(name@) { Some(s) => !unicode(s), None => true },
        }
    { unimplemented!() }
    /// std::ffi::OsString
    pub struct OsString { pub x: Ghost<Seq<char>> }
    impl OsString {
        pub open spec fn o(self) -> Seq<char> { self.x@ }
    }
    impl AsPath for OsString { open spec fn ap(&self) -> Seq<char> { self.o() } }
    impl<'a> AsPath for &'a OsString { open spec fn ap(&self) -> Seq<char> { self.o() } }
    impl<'a> core::convert::From<&'a str> for OsString {
        #[verifier::external_body]
        fn from(s: &'a str) -> (r: OsString) ensures r.o() == s@ { unimplemented!() }
    }
    impl core::convert::From<String> for OsString {
        #[verifier::external_body]
        fn from(s: String) -> (r: OsString) ensures r.o() == s@ { unimplemented!() }
    }
    impl core::convert::From<OsString> for PathBuf {
        #[verifier::external_body]
        fn from(s: OsString) -> (r: PathBuf) ensures r.p() == s.o() { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn var_os(name: &str) -> (r: Option<OsString>)
        ensures match r { Some(s) => env_var(name@) == Some(s.o()), None => env_var(name@) is None }
    { unimplemented!() }
    #[verifier::external_body]
    pub fn read<P: AsPath>(p: P) -> (r: Result<Vec<u8>, IoError>)
        ensures file_readable(p.ap()) ==> r is Ok && r->Ok_0@ == file_bytes(p.ap())
    { unimplemented!() }
    }
}

pub mod zoneinfo_compiled {
    //! A compiled zoneinfo file (tzfile(5), version 1 block) and the text of the crate that parses it.
    use vstd::prelude::*;
    verus! {
    pub struct LeapSecond { pub timestamp: i32, pub leap_second_count: i32 }
    pub struct TZData { pub time_zone: OwnedTimeZone, pub leap_seconds: Vec<LeapSecond> }

    // the format
    /// the big-endian number at `i`, without and with sign
    pub open spec fn be(b: Seq<u8>, i: int) -> int { b[i] * 0x100_0000 + b[i + 1] * 0x1_0000 + b[i + 2] * 0x100 + b[i + 3] }
    pub open spec fn sbe(b: Seq<u8>, i: int) -> int { if be(b, i) < 0x8000_0000 { be(b, i) } else { be(b, i) - 0x1_0000_0000 } }
    /// counts in the header: UT and standard flags, leap seconds, transitions, types, name characters
    pub open spec fn n_ut(b: Seq<u8>) -> int { be(b, 20) }
    pub open spec fn n_std(b: Seq<u8>) -> int { be(b, 24) }
    pub open spec fn n_leap(b: Seq<u8>) -> int { be(b, 28) }
    pub open spec fn n_time(b: Seq<u8>) -> int { be(b, 32) }
    pub open spec fn n_type(b: Seq<u8>) -> int { be(b, 36) }
    pub open spec fn n_char(b: Seq<u8>) -> int { be(b, 40) }
    pub open spec fn at_index(b: Seq<u8>) -> int { 44 + 4 * n_time(b) }
    pub open spec fn at_type(b: Seq<u8>) -> int { at_index(b) + n_time(b) }
    pub open spec fn at_char(b: Seq<u8>) -> int { at_type(b) + 6 * n_type(b) }
    pub open spec fn at_leap(b: Seq<u8>) -> int { at_char(b) + n_char(b) }
    pub open spec fn at_std(b: Seq<u8>) -> int { at_leap(b) + 8 * n_leap(b) }
    /// the leap seconds the file lists
    #[verifier::opaque]
    pub open spec fn parsed(b: Seq<u8>) -> Seq<LeapSecond> {
        Seq::new(n_leap(b) as nat, |k: int| LeapSecond { timestamp: sbe(b, at_leap(b) + 8 * k) as i32, leap_second_count: sbe(b, at_leap(b) + 8 * k + 4) as i32 })
    }
    /// a file the parser takes: complete, within its limits, of at least one type, names in ASCII
    #[verifier::opaque]
    pub open spec fn parse_ok(b: Seq<u8>) -> bool {
        &&& b.len() >= 44 && b[0] == 84 && b[1] == 90 && b[2] == 105 && b[3] == 102
        &&& n_time(b) <= 2000 && n_type(b) <= 256 && n_leap(b) <= 50 && n_ut(b) <= 256 && n_std(b) <= 256 && n_char(b) <= 50
        &&& n_type(b) >= 1
        &&& at_std(b) + n_std(b) + n_ut(b) <= b.len()
        &&& forall|i: int| at_index(b) <= i < at_type(b) ==> #[trigger] b[i] < n_type(b)
        &&& forall|i: int| at_char(b) <= i < at_leap(b) ==> #[trigger] b[i] < 128
    }

    // what the crate takes from std
    pub struct BoxError { x: u8 }
    impl core::fmt::Debug for BoxError { #[verifier::external_body] fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result { unimplemented!() } }
    pub type Result<T> = core::result::Result<T, BoxError>;
    /// Box::new of an error
    #[verifier::external_body]
    pub fn boxed() -> BoxError { unimplemented!() }
    /// std::io::Cursor over a vector
    #[verifier::external_body]
    pub struct Cursor { x: u8 }
    impl Cursor {
        pub uninterp spec fn b(self) -> Seq<u8>;
        pub uninterp spec fn pos(self) -> int;
        #[verifier::external_body]
        pub fn new(v: Vec<u8>) -> (r: Cursor) ensures r.b() == v@, r.pos() == 0 { unimplemented!() }
        /// reads what is left, at most what there is room for
        #[verifier::external_body]
        pub fn read<const N: usize>(&mut self, out: &mut [u8; N]) -> (r: Result<usize>)
            requires 0 <= old(self).pos() <= old(self).b().len()
            ensures final(self).b() == old(self).b(), r is Ok, r->Ok_0 <= N, r->Ok_0 <= old(self).b().len() - old(self).pos(),
                r->Ok_0 == N || r->Ok_0 == old(self).b().len() - old(self).pos(),
                final(self).pos() == old(self).pos() + r->Ok_0,
                forall|i: int| 0 <= i < r->Ok_0 ==> #[trigger] final(out)@[i] == old(self).b()[old(self).pos() + i]
        { unimplemented!() }
        #[verifier::external_body]
        pub fn read_exact<const N: usize>(&mut self, out: &mut [u8; N]) -> (r: Result<()>)
            requires 0 <= old(self).pos() <= old(self).b().len()
            ensures final(self).b() == old(self).b(), r is Ok == (old(self).pos() + N <= old(self).b().len()),
                r is Ok ==> final(self).pos() == old(self).pos() + N && forall|i: int| 0 <= i < N ==> #[trigger] final(out)@[i] == old(self).b()[old(self).pos() + i]
        { unimplemented!() }
    }
    #[verifier::external_body]
    pub fn from_be_bytes(x: [u8; 4]) -> (r: u32) ensures r as int == be(x@, 0) { unimplemented!() }
    /// String::from_utf8: ASCII is UTF-8
    #[verifier::external_body]
    pub fn from_utf8(v: Vec<u8>) -> (r: Result<String>) ensures (forall|i: int| 0 <= i < v@.len() ==> #[trigger] v@[i] < 128) ==> r is Ok { unimplemented!() }
    /// the bytes from `off` on, up to a zero
    #[verifier::external_body]
    pub fn name_at(v: &Vec<u8>, off: usize) -> (r: Vec<u8>)
        ensures r@.len() <= v@.len(), off + r@.len() <= v@.len() || r@.len() == 0, forall|i: int| 0 <= i < r@.len() ==> #[trigger] r@[i] == v@[off + i]
    { unimplemented!() }
    /// whether element `i` is there and not zero
    #[verifier::external_body]
    pub fn flag_at(v: &Vec<u8>, i: usize) -> bool { unimplemented!() }
    /// pairs up times and types
    #[verifier::external_body]
    pub fn paired(times: Vec<i32>, types: Vec<u8>) -> (r: Vec<TransitionData>)
        requires times@.len() == types@.len()
        ensures r@.len() == times@.len(), forall|i: int| 0 <= i < r@.len() ==> (#[trigger] r@[i]).timestamp == times@[i] && r@[i].local_time_type_index == types@[i]
    { unimplemented!() }

    // the text of byteorder
    pub struct BigEndian {}
    impl BigEndian {
        /*@dep byteorder src/lib.rs | impl ByteOrder for BigEndian | fn read_u32(
            | u32::from_be_bytes(buf[..4].try_into().unwrap()) ==> from_be_bytes(*buf) */
        fn read_u32(buf: &[u8; 4]) -> (r: u32) ensures r as int == be(buf@, 0) { unimplemented!() }
        /*@dep byteorder src/lib.rs | pub trait ByteOrder | fn read_i32(
            @ assert(forall|x: u32| x < 0x8000_0000u32 ==> #[trigger] (x as i32) as int == x as int) by (bit_vector);
              assert(forall|x: u32| x >= 0x8000_0000u32 ==> (#[trigger] (x as i32)) as int == x as int - 0x1_0000_0000) by (bit_vector); */
        fn read_i32(buf: &[u8; 4]) -> (r: i32) ensures r as int == sbe(buf@, 0) { unimplemented!() }
    }
    impl Cursor {
        /*@dep byteorder src/io.rs | pub trait ReadBytesExt | fn read_u8( | [0;=[0u8; */
        pub fn read_u8(&mut self) -> (r: Result<u8>)
            requires 0 <= old(self).pos() <= old(self).b().len()
            ensures final(self).b() == old(self).b(), r is Ok == (old(self).pos() + 1 <= old(self).b().len()),
                match r { Ok(x) => final(self).pos() == old(self).pos() + 1 && x == old(self).b()[old(self).pos()], Err(_) => true }
        { unimplemented!() }
        /*@dep byteorder src/io.rs | pub trait ReadBytesExt | fn read_u32<T | [0;=[0u8; T::=BigEndian:: */
        pub fn read_u32<T>(&mut self) -> (r: Result<u32>)
            requires 0 <= old(self).pos() <= old(self).b().len()
            ensures final(self).b() == old(self).b(), r is Ok == (old(self).pos() + 4 <= old(self).b().len()),
                match r { Ok(x) => final(self).pos() == old(self).pos() + 4 && x as int == be(old(self).b(), old(self).pos()), Err(_) => true }
        { unimplemented!() }
        /*@dep byteorder src/io.rs | pub trait ReadBytesExt | fn read_i32<T | [0;=[0u8; T::=BigEndian:: */
        pub fn read_i32<T>(&mut self) -> (r: Result<i32>)
            requires 0 <= old(self).pos() <= old(self).b().len()
            ensures final(self).b() == old(self).b(), r is Ok == (old(self).pos() + 4 <= old(self).b().len()),
                match r { Ok(x) => final(self).pos() == old(self).pos() + 4 && x as int == sbe(old(self).b(), old(self).pos()), Err(_) => true }
        { unimplemented!() }
    }

    // the crate: its parser
    #[derive(Clone, Copy)]
    pub struct Header { pub version: u8, pub num_gmt_flags: u32, pub num_standard_flags: u32, pub num_leap_seconds: u32,
        pub num_transitions: u32, pub num_local_time_types: u32, pub num_abbr_chars: u32 }
    #[derive(Clone, Copy)]
    pub struct TransitionData { pub timestamp: i32, pub local_time_type_index: u8 }
    #[derive(Clone, Copy)]
    pub struct LocalTimeTypeData { pub offset: i32, pub is_dst: u8, pub name_offset: u8 }
    #[derive(Clone, Copy)]
    pub struct LeapSecondData { pub timestamp: i32, pub leap_second_count: i32 }
    #[derive(Clone, Copy)]
    pub struct Limits { pub max_transitions: Option<u32>, pub max_local_time_types: Option<u32>, pub max_abbreviation_chars: Option<u32>, pub max_leap_seconds: Option<u32> }
    pub struct RawData { pub header: Header, pub transitions: Vec<TransitionData>, pub time_info: Vec<LocalTimeTypeData>, pub leap_seconds: Vec<LeapSecondData>,
        pub strings: Vec<u8>, pub standard_flags: Vec<u8>, pub gmt_flags: Vec<u8> }
    pub open spec fn under(n: u32, limit: Option<u32>) -> bool { match limit { Some(m) => n <= m, None => true } }
    impl Limits {
        /*@dep zoneinfo_compiled src/parser.rs | impl Limits | fn sensible( */
        pub fn sensible() -> (r: Limits)
            ensures r.max_transitions == Some(2000u32), r.max_local_time_types == Some(256u32), r.max_abbreviation_chars == Some(50u32), r.max_leap_seconds == Some(50u32)
        { unimplemented!() }
        /*@dep zoneinfo_compiled src/parser.rs | impl Limits | fn verify(
            | |structures, intended_count, limit| { ==> |structures: Structures, intended_count: u32, limit: Option<u32>| -> (r: Result<()>) ensures r is Ok == under(intended_count, limit) {
            | return Err(Error::LimitReached {
                        structures,
                        intended_count,
                        limit: max,
                    }); ==> return Err(boxed()); */
        pub fn verify(self, header: &Header) -> (r: Result<()>)
            ensures r is Ok == (under(header.num_transitions, self.max_transitions) && under(header.num_local_time_types, self.max_local_time_types)
                && under(header.num_leap_seconds, self.max_leap_seconds) && under(header.num_gmt_flags, self.max_local_time_types)
                && under(header.num_standard_flags, self.max_local_time_types) && under(header.num_abbr_chars, self.max_abbreviation_chars))
        { unimplemented!() }
    }
    #[derive(Clone, Copy)]
    pub enum Structures { Transitions, LocalTimeTypes, LeapSeconds, GMTFlags, StandardFlags, TimezoneAbbrChars }
    pub struct Parser { pub cursor: Cursor }
    pub open spec fn ready(p: Parser) -> bool { 0 <= p.cursor.pos() <= p.cursor.b().len() }
    /// it read `n` bytes, or failed because they are not there
    pub open spec fn took<T>(p: Parser, q: Parser, r: Result<T>, n: int) -> bool {
        &&& q.cursor.b() == p.cursor.b()
        &&& r is Ok == (p.cursor.pos() + n <= p.cursor.b().len())
        &&& r is Ok ==> q.cursor.pos() == p.cursor.pos() + n
    }
    impl Parser {
        /*@dep zoneinfo_compiled src/parser.rs | impl Parser | fn new( */
        fn new(buf: Vec<u8>) -> (r: Parser) ensures r.cursor.b() == buf@, r.cursor.pos() == 0 { unimplemented!() }
        /*@dep zoneinfo_compiled src/parser.rs | impl Parser | fn read_magic_number(
            | magic == *b"TZif" ==> magic[0] == 84 && magic[1] == 90 && magic[2] == 105 && magic[3] == 102
            | Box::new(Error::InvalidMagicNumber) ==> boxed() */
        fn read_magic_number(&mut self) -> (r: Result<()>)
            requires ready(*old(self)), old(self).cursor.pos() == 0
            ensures final(self).cursor.b() == old(self).cursor.b(), ready(*final(self)),
                final(self).cursor.b().len() >= 4 ==> final(self).cursor.pos() == 4
                    && (r is Ok == (old(self).cursor.b()[0] == 84 && old(self).cursor.b()[1] == 90 && old(self).cursor.b()[2] == 105 && old(self).cursor.b()[3] == 102)),
                final(self).cursor.b().len() < 4 ==> final(self).cursor.pos() == final(self).cursor.b().len(),
        { unimplemented!() }
        /*@dep zoneinfo_compiled src/parser.rs | impl Parser | fn skip_initial_zeroes( */
        fn skip_initial_zeroes(&mut self) -> (r: Result<()>)
            requires ready(*old(self))
            ensures r is Ok, final(self).cursor.b() == old(self).cursor.b(), ready(*final(self)),
                final(self).cursor.pos() == old(self).cursor.pos() + 15 || final(self).cursor.pos() == final(self).cursor.b().len() && final(self).cursor.pos() < old(self).cursor.pos() + 15,
        { unimplemented!() }
        /*@dep zoneinfo_compiled src/parser.rs | impl Parser | fn read_header( */
        fn read_header(&mut self) -> (r: Result<Header>)
            requires ready(*old(self))
            ensures took(*old(self), *final(self), r, 25),
                match r { Ok(h) => ({ let b = old(self).cursor.b(); let p = old(self).cursor.pos() + 1;
                    h.num_gmt_flags == be(b, p) && h.num_standard_flags == be(b, p + 4) && h.num_leap_seconds == be(b, p + 8)
                    && h.num_transitions == be(b, p + 12) && h.num_local_time_types == be(b, p + 16) && h.num_abbr_chars == be(b, p + 20) }), Err(_) => true }
        { unimplemented!() }
        /*@dep zoneinfo_compiled src/parser.rs | impl Parser | fn read_transition_data(
            | let mut times = ==> let ghost p0 = self.cursor.pos(); let ghost b0 = self.cursor.b(); let mut times: Vec<i32> =
            | let mut types = ==> let mut types: Vec<u8> =
            | for _ in 0 .. count {
            times ==> for i in 0 .. count
                invariant p0 == old(self).cursor.pos(), b0 == old(self).cursor.b(), self.cursor.b() == b0, self.cursor.pos() == p0 + 4 * i, 0 <= p0, self.cursor.pos() <= b0.len(), times@.len() == i
            { times
            | for _ in 0 .. count {
            types ==> for i in 0 .. count
                invariant p0 == old(self).cursor.pos(), b0 == old(self).cursor.b(), self.cursor.b() == b0, self.cursor.pos() == p0 + 4 * count + i, 0 <= p0, self.cursor.pos() <= b0.len(), times@.len() == count, types@.len() == i,
                    forall|j: int| 0 <= j < i ==> #[trigger] types@[j] == b0[p0 + 4 * count + j]
            { types
            | Ok(times.iter().zip(types.iter()).map(|(&ti, &ty)| {
            TransitionData {
                timestamp: ti,
                local_time_type_index: ty,
            }
        }).collect()) ==> Ok(paired(times, types)) */
        fn read_transition_data(&mut self, count: usize) -> (r: Result<Vec<TransitionData>>)
            requires ready(*old(self))
            ensures took(*old(self), *final(self), r, 5 * count),
                match r { Ok(v) => v@.len() == count && forall|j: int| 0 <= j < count ==> (#[trigger] v@[j]).local_time_type_index == old(self).cursor.b()[old(self).cursor.pos() + 4 * count + j],
                    Err(_) => true }
        { unimplemented!() }
        /*@dep zoneinfo_compiled src/parser.rs | impl Parser | fn read_octets(
            | let mut buf = ==> let ghost p0 = self.cursor.pos(); let ghost b0 = self.cursor.b(); let mut buf : Vec<u8> =
            | for _ in 0 .. count { ==> for i in 0 .. count
                invariant p0 == old(self).cursor.pos(), b0 == old(self).cursor.b(), self.cursor.b() == b0, self.cursor.pos() == p0 + i, 0 <= p0, self.cursor.pos() <= b0.len(), buf@.len() == i,
                    forall|j: int| 0 <= j < i ==> #[trigger] buf@[j] == b0[p0 + j]
            { */
        fn read_octets(&mut self, count: usize) -> (r: Result<Vec<u8>>)
            requires ready(*old(self))
            ensures took(*old(self), *final(self), r, count as int),
                match r { Ok(v) => v@.len() == count && forall|j: int| 0 <= j < count ==> #[trigger] v@[j] == old(self).cursor.b()[old(self).cursor.pos() + j], Err(_) => true }
        { unimplemented!() }
        /*@dep zoneinfo_compiled src/parser.rs | impl Parser | fn read_local_time_type_data(
            | let mut buf = ==> let ghost p0 = self.cursor.pos(); let ghost b0 = self.cursor.b(); let mut buf : Vec<LocalTimeTypeData> =
            | for _ in 0 .. count { ==> for i in 0 .. count
                invariant p0 == old(self).cursor.pos(), b0 == old(self).cursor.b(), self.cursor.b() == b0, self.cursor.pos() == p0 + 6 * i, 0 <= p0, self.cursor.pos() <= b0.len(), buf@.len() == i
            { */
        fn read_local_time_type_data(&mut self, count: usize) -> (r: Result<Vec<LocalTimeTypeData>>)
            requires ready(*old(self))
            ensures took(*old(self), *final(self), r, 6 * count), match r { Ok(v) => v@.len() == count, Err(_) => true }
        { unimplemented!() }
        /*@dep zoneinfo_compiled src/parser.rs | impl Parser | fn read_leap_second_data(
            | let mut buf = ==> let ghost p0 = self.cursor.pos(); let ghost b0 = self.cursor.b(); let mut buf : Vec<LeapSecondData> =
            | for _ in 0 .. count { ==> for i in 0 .. count
                invariant p0 == old(self).cursor.pos(), b0 == old(self).cursor.b(), self.cursor.b() == b0, self.cursor.pos() == p0 + 8 * i, 0 <= p0, self.cursor.pos() <= b0.len(), buf@.len() == i,
                    forall|j: int| 0 <= j < i ==> (#[trigger] buf@[j]).timestamp == sbe(b0, p0 + 8 * j) && buf@[j].leap_second_count == sbe(b0, p0 + 8 * j + 4)
            { */
        fn read_leap_second_data(&mut self, count: usize) -> (r: Result<Vec<LeapSecondData>>)
            requires ready(*old(self))
            ensures took(*old(self), *final(self), r, 8 * count),
                match r { Ok(v) => v@.len() == count && forall|j: int| 0 <= j < count ==> (#[trigger] v@[j]).timestamp == sbe(old(self).cursor.b(), old(self).cursor.pos() + 8 * j)
                    && v@[j].leap_second_count == sbe(old(self).cursor.b(), old(self).cursor.pos() + 8 * j + 4), Err(_) => true }
        { unimplemented!() }
    }
    /// what the parser hands on
    pub open spec fn raw_of(d: RawData, b: Seq<u8>) -> bool {
        &&& d.header.num_transitions == n_time(b) && d.header.num_local_time_types == n_type(b)
        &&& d.transitions@.len() == n_time(b) && forall|i: int| 0 <= i < n_time(b) ==> (#[trigger] d.transitions@[i]).local_time_type_index == b[at_index(b) + i]
        &&& d.time_info@.len() == n_type(b)
        &&& d.strings@.len() == n_char(b) && forall|i: int| 0 <= i < n_char(b) ==> #[trigger] d.strings@[i] == b[at_char(b) + i]
        &&& d.leap_seconds@.len() == n_leap(b)
        &&& forall|i: int| 0 <= i < n_leap(b) ==> (#[trigger] d.leap_seconds@[i]).timestamp == sbe(b, at_leap(b) + 8 * i) && d.leap_seconds@[i].leap_second_count == sbe(b, at_leap(b) + 8 * i + 4)
    }
    /*@dep zoneinfo_compiled src/parser.rs | The internal structure | fn parse( | TZData=RawData @ reveal(parse_ok); */
    pub fn parse_raw(buf: Vec<u8>, limits: Limits) -> (r: Result<RawData>)
        ensures parse_ok(buf@) && limits.max_transitions == Some(2000u32) && limits.max_local_time_types == Some(256u32)
                && limits.max_abbreviation_chars == Some(50u32) && limits.max_leap_seconds == Some(50u32) ==> r is Ok,
            match r { Ok(d) => raw_of(d, buf@), Err(_) => true }
    { unimplemented!() }

    // the crate: what it makes of it
    pub enum TimeType { Wall, Standard, UTC }
    pub struct LocalTimeType { pub name: String, pub offset: i64, pub is_dst: bool, pub transition_type: TimeType }
    #[verifier::external_body]
    pub struct FixedTimespan { x: u8 }
    pub struct OwnedFixedTimespanSet { pub first: FixedTimespan, pub rest: Vec<(i64, FixedTimespan)> }
    pub struct OwnedTimeZone { pub name: Option<String>, pub fixed_timespans: OwnedFixedTimespanSet }
    impl LocalTimeType {
        #[verifier::external_body]
        pub fn clone(&self) -> LocalTimeType { unimplemented!() }
        #[verifier::external_body]
        fn to_fixed_timespan(&self) -> FixedTimespan { unimplemented!() }
    }
    /*@dep zoneinfo_compiled src/lib.rs | Combine the two flags | fn flags_to_transition_type( */
    fn flags_to_transition_type(standard: bool, gmt: bool) -> TimeType { unimplemented!() }
    /*@dep zoneinfo_compiled src/lib.rs | Interpret a set of internal | fn cook(
        | let mut transitions = ==> let mut transitions: Vec<(i64, FixedTimespan)> =
        | let mut local_time_types = ==> let mut local_time_types: Vec<LocalTimeType> =
        | let mut leap_seconds = ==> let mut leap_seconds: Vec<LeapSecond> =
        | for i in 0 .. tz.header.num_local_time_types as usize { ==> for i in 0 .. tz.header.num_local_time_types as usize
            invariant raw_of(tz, b), parse_ok(b), local_time_types@.len() == i
        {
        | let name_bytes = tz.strings.iter()
                                   .cloned()
                                   .skip(ltt.name_offset as usize)
                                   .take_while(|&c| c != 0)
                                   .collect(); ==> let name_bytes = name_at(&tz.strings, ltt.name_offset as usize);
            proof { reveal(parse_ok);
                assert forall|j: int| 0 <= j < name_bytes@.len() implies #[trigger] name_bytes@[j] < 128 by {
                    assert(name_bytes@[j] == tz.strings@[ltt.name_offset + j]);
                    assert(b[at_char(b) + (ltt.name_offset + j)] < 128); } }
        | tz.standard_flags.get(i).cloned().unwrap_or_default() != 0 ==> flag_at(&tz.standard_flags, i)
        | tz.gmt_flags.get(i).cloned().unwrap_or_default() != 0 ==> flag_at(&tz.gmt_flags, i)
        | String::from_utf8 ==> from_utf8
        | for i in 0 .. tz.header.num_transitions as usize { ==> for i in 0 .. tz.header.num_transitions as usize
            invariant raw_of(tz, b), parse_ok(b), local_time_types@.len() == n_type(b), transitions@.len() == i
        { proof { reveal(parse_ok); assert(b[at_index(b) + i] < n_type(b)); }
        | for ls in &tz.leap_seconds { ==> for ls in it: tz.leap_seconds.iter()
            invariant it.seq() == tz.leap_seconds@.map_values(|x: LeapSecondData| &x), leap_seconds@.len() == it.index@, forall|j: int| 0 <= j < it.index@ ==> (#[trigger] leap_seconds@[j]).timestamp == tz.leap_seconds@[j].timestamp
                && leap_seconds@[j].leap_second_count == tz.leap_seconds@[j].leap_second_count
        {
        @ reveal(parse_ok); reveal(parsed); */
    fn cook(tz: RawData, Ghost(b): Ghost<Seq<u8>>) -> (r: Result<TZData>)
        requires raw_of(tz, b), parse_ok(b)
        ensures r is Ok && r->Ok_0.leap_seconds@ =~= parsed(b)
    { unimplemented!() }
    /*@dep zoneinfo_compiled src/lib.rs | Parses a series of bytes | fn parse(
        | let tz = parser::parse(input, parser::Limits::sensible())?; ==> let ghost b = input@; let tz = parse_raw(input, Limits::sensible())?;
        | cook(tz) ==> cook(tz, Ghost(b)) */
    pub fn parse(input: Vec<u8>) -> (r: Result<TZData>)
        requires parse_ok(input@)
        ensures r is Ok && r->Ok_0.leap_seconds@ == parsed(input@)
    { unimplemented!() }
    }
}

vstd::prelude::verus! {
/// std::sync::Arc: two of them are the same value if and only if they point to the same allocation, which holds `obj`.
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Arc<T> { t: T }
impl<T> Arc<T> {
    pub uninterp spec fn obj(self) -> T;
    #[verifier::external_body]
    pub fn new(t: T) -> (r: Arc<T>) ensures r.obj() == t { unimplemented!() }
    #[verifier::external_body]
    pub fn ptr_eq(this: &Arc<T>, other: &Arc<T>) -> (r: bool) ensures r == (*this == *other) { unimplemented!() }
    /// Nothing is known of how many there are.
    #[verifier::external_body]
    pub fn strong_count(this: &Arc<T>) -> (r: usize) { unimplemented!() }
    #[verifier::external_body]
    pub fn weak_count(this: &Arc<T>) -> (r: usize) { unimplemented!() }
}
impl<T> Clone for Arc<T> {
    #[verifier::external_body]
    fn clone(&self) -> (r: Arc<T>) ensures r == *self { unimplemented!() }
}
impl<T> core::ops::Deref for Arc<T> {
    type Target = T;
    #[verifier::external_body]
    fn deref(&self) -> (r: &T) ensures *r == self.obj() { unimplemented!() }
}
}
