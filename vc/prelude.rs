// ---- machine integers -------------------------------------------------------------------------
pub open spec fn u32w(x: int) -> int { x % 0x1_0000_0000 }
pub open spec fn i32w(x: int) -> int { if x % 0x1_0000_0000 < 0x8000_0000 { x % 0x1_0000_0000 } else { x % 0x1_0000_0000 - 0x1_0000_0000 } }
pub open spec fn u64w(x: int) -> int { x % 0x1_0000_0000_0000_0000 }
pub open spec fn i64w(x: int) -> int { if x % 0x1_0000_0000_0000_0000 < 0x8000_0000_0000_0000 { x % 0x1_0000_0000_0000_0000 } else { x % 0x1_0000_0000_0000_0000 - 0x1_0000_0000_0000_0000 } }
pub open spec fn u8w(x: int) -> int { x % 256 }
pub open spec fn i8w(x: int) -> int { if x % 256 < 128 { x % 256 } else { x % 256 - 256 } }
// division of C++: truncation towards zero
pub open spec fn tdiv(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn tmod(a: int, b: int) -> int { a - mulx(tdiv(a, b), b) }
#[verifier::opaque]
pub open spec fn mulx(a: int, b: int) -> int { a * b }
pub open spec fn slen_ok(s: Seq<int>) -> bool { s.len() <= 0x7fff_ffff }
// bit operations on 32 bit numbers in two's complement
pub uninterp spec fn bitand_i(a: int, b: int) -> int;
pub uninterp spec fn bitor_i(a: int, b: int) -> int;
pub uninterp spec fn bitxor_i(a: int, b: int) -> int;
pub uninterp spec fn bitand_u(a: int, b: int) -> int;
pub uninterp spec fn bitor_u(a: int, b: int) -> int;
pub uninterp spec fn bitxor_u(a: int, b: int) -> int;
pub uninterp spec fn p2(n: int) -> int;
pub open spec fn shl_u32(a: int, n: int) -> int { u32w(mulx(a, p2(n))) }
pub open spec fn shl_i32(a: int, n: int) -> int { i32w(mulx(a, p2(n))) }
pub open spec fn shr_u32(a: int, n: int) -> int { a / p2(n) }
pub open spec fn shr_i32(a: int, n: int) -> int { a / p2(n) }
pub open spec fn shl_u64(a: int, n: int) -> int { u64w(mulx(a, p2(n))) }
pub open spec fn shr_u64(a: int, n: int) -> int { a / p2(n) }
#[verifier::external_body]
pub proof fn ax_and31(x: int) ensures 0 <= bitand_i(x, 31) < 32, bitand_i(x, 31) == x % 32 {}
#[verifier::external_body]
pub proof fn ax_bits(a: int, b: int) ensures -0x8000_0000 <= a <= 0x7fff_ffff && -0x8000_0000 <= b <= 0x7fff_ffff ==> -0x8000_0000 <= bitand_i(a, b) <= 0x7fff_ffff && -0x8000_0000 <= bitor_i(a, b) <= 0x7fff_ffff && -0x8000_0000 <= bitxor_i(a, b) <= 0x7fff_ffff {}
#[verifier::external_body]
pub proof fn ax_p2(n: int) ensures n >= 0 ==> p2(n) >= 1 {}
// ---- floating point numbers: the operations of the machine, uninterpreted -----------------------
pub struct D { pub bits: int }
pub uninterp spec fn d_of(x: int) -> D;
pub uninterp spec fn d_toi(x: D) -> int;
pub uninterp spec fn d_add(x: D, y: D) -> D;
pub uninterp spec fn d_sub(x: D, y: D) -> D;
pub uninterp spec fn d_mul(x: D, y: D) -> D;
pub uninterp spec fn d_div(x: D, y: D) -> D;
pub uninterp spec fn d_mod(x: D, y: D) -> D;
pub uninterp spec fn d_neg(x: D) -> D;
pub uninterp spec fn d_abs(x: D) -> D;
pub uninterp spec fn d_eq(x: D, y: D) -> bool;
pub uninterp spec fn d_lt(x: D, y: D) -> bool;
pub uninterp spec fn d_le(x: D, y: D) -> bool;
pub uninterp spec fn d_fun(f: int, x: D) -> D;
pub uninterp spec fn d_str(x: D) -> Seq<int>;
pub uninterp spec fn i_str(x: int) -> Seq<int>;
pub uninterp spec fn c_atoi(s: Seq<int>) -> int;
pub uninterp spec fn c_atof(s: Seq<int>) -> D;
pub uninterp spec fn c_strtol(s: Seq<int>, base: int) -> int;
pub uninterp spec fn c_strtol_rest(s: Seq<int>, base: int) -> Seq<int>;
// std::stoi, std::stod: status (0 a number, 1 no number, 2 a number out of range), number of characters, value
pub uninterp spec fn c_stoi_st(s: Seq<int>, base: int) -> int;
pub uninterp spec fn c_stoi_len(s: Seq<int>, base: int) -> int;
pub uninterp spec fn c_stoi(s: Seq<int>, base: int) -> int;
pub uninterp spec fn c_stod_st(s: Seq<int>) -> int;
pub uninterp spec fn c_stod_len(s: Seq<int>) -> int;
pub uninterp spec fn c_stod(s: Seq<int>) -> D;
pub uninterp spec fn c_isspace(x: int) -> int;
pub uninterp spec fn c_isdigit(x: int) -> int;
pub uninterp spec fn c_tolower(x: int) -> int;
pub uninterp spec fn c_toupper(x: int) -> int;
// white space of the C locale
#[verifier::external_body]
pub proof fn ax_isspace(x: int) ensures 0 <= x < 128 ==> (c_isspace(x) != 0) == (x == 32 || 9 <= x <= 13) {}
// the argument that stands for "no argument" (compared by its address in the code): a sequence that is no text
pub open spec fn s_missing() -> Seq<int> { seq![0x11_0000int] }
// ---- strings ------------------------------------------------------------------------------------
pub open spec fn s_at(s: Seq<int>, i: int) -> int { if 0 <= i < s.len() { s[i] } else { 0 } }
pub open spec fn s_substr(s: Seq<int>, p: int, n: int) -> Seq<int> { if n >= s.len() - p { s.subrange(p, s.len() as int) } else { s.subrange(p, p + n) } }
pub open spec fn s_replace(s: Seq<int>, p: int, n: int, t: Seq<int>) -> Seq<int> { s.subrange(0, p) + t + (if n >= s.len() - p { Seq::empty() } else { s.subrange(p + n, s.len() as int) }) }
pub uninterp spec fn s_cmp(s: Seq<int>, t: Seq<int>) -> int;
pub open spec fn npos() -> int { 0xffff_ffff_ffff_ffff }
pub open spec fn s_match(s: Seq<int>, t: Seq<int>, p: int) -> bool { 0 <= p && p + t.len() <= s.len() && s.subrange(p, p + t.len()) =~= t }
pub uninterp spec fn s_find(s: Seq<int>, t: Seq<int>, pos: int) -> int;
pub open spec fn find_ok(s: Seq<int>, t: Seq<int>, pos: int, r: int) -> bool {
    if r == npos() { forall|p: int| #![trigger s_match(s, t, p)] pos <= p ==> !s_match(s, t, p) }
    else { pos <= r && s_match(s, t, r) && forall|p: int| #![trigger s_match(s, t, p)] pos <= p < r ==> !s_match(s, t, p) }
}
pub uninterp spec fn s_find_last_of(s: Seq<int>, t: Seq<int>, pos: int) -> int;
pub open spec fn s_reverse(s: Seq<int>) -> Seq<int> { Seq::new(s.len(), |i: int| s[s.len() - 1 - i]) }

// conversions to int give a number of that type (whatever the machine does out of range)
#[verifier::external_body]
pub proof fn ax_toi(d: D) ensures -0x8000_0000 <= d_toi(d) <= 0x7fff_ffff {}
#[verifier::external_body]
pub proof fn ax_atoi(s: Seq<int>) ensures -0x8000_0000 <= c_atoi(s) <= 0x7fff_ffff {}
// function objects made by a lambda: the code, and the captured values
pub uninterp spec fn lam_id(x: int) -> int;
pub uninterp spec fn lam_cap(x: int, i: int) -> int;
