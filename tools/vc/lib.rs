#![allow(unused, non_snake_case, non_camel_case_types)]
pub mod lib {
use vstd::prelude::*;
use vstd::seq_lib::*;
verus!{
pub type Str = Seq<int>;
#[verifier::external_body] pub fn br(Ghost(c): Ghost<bool>) -> (b: bool) ensures b == c { unimplemented!() }
#[verifier::external_body] pub fn alloc_() -> (p: Ghost<int>) ensures p@ != 0 { unimplemented!() }
pub uninterp spec fn env(name: Str) -> Option<Str>;
pub open spec fn npos() -> int { 18446744073709551615 }
pub open spec fn min_int(a: int, b: int) -> int { if a <= b { a } else { b } }
pub open spec fn max_int(a: int, b: int) -> int { if a >= b { a } else { b } }
pub uninterp spec fn bit_and(a: int, b: int) -> int;
pub uninterp spec fn bit_or(a: int, b: int) -> int;
pub uninterp spec fn bit_xor(a: int, b: int) -> int;
pub uninterp spec fn bit_shl(a: int, b: int) -> int;
pub uninterp spec fn bit_shr(a: int, b: int) -> int;
pub uninterp spec fn int_to_str(a: int) -> Str;
pub open spec fn c_div(a: int, b: int) -> int { if a >= 0 { if b > 0 { a / b } else { -(a / (-b)) } } else { if b > 0 { -((-a) / b) } else { (-a) / (-b) } } }
pub open spec fn c_mod(a: int, b: int) -> int { if a >= 0 && b > 0 { a % b } else { a - b * c_div(a, b) } }
pub broadcast proof fn c_div_small(a: int, b: int) ensures #![trigger c_div(a, b)] b != 0 ==> -(if a >= 0 { a } else { -a }) <= c_div(a, b) <= (if a >= 0 { a } else { -a }), b != 0 && b != -1 && a < 0 ==> c_div(a, b) < -a
{ let x = if a >= 0 { a } else { -a }; let y = if b >= 0 { b } else { -b }; if y > 0 { vstd::arithmetic::div_mod::lemma_div_nonincreasing(x, y); vstd::arithmetic::div_mod::lemma_div_pos_is_pos(x, y); if y > 1 && x > 0 { vstd::arithmetic::div_mod::lemma_div_decreases(x, y); } if y == 1 { assert(x / 1 == x); } } }
pub open spec fn to_u8(a: int) -> int { a % 256 }
pub open spec fn to_s32(a: int) -> int { if -2147483648 <= a < 2147483648 { a } else if a % 4294967296 >= 2147483648 { a % 4294967296 - 4294967296 } else { a % 4294967296 } }
pub open spec fn to_u32(a: int) -> int { a % 4294967296 }
pub open spec fn to_s8(a: int) -> int { if a % 256 >= 128 { a % 256 - 256 } else { a % 256 } }

// --- generic sequence algorithms (definitions; properties proved below) ---
pub open spec fn any_of<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> bool { exists|i: int| 0 <= i < s.len() && #[trigger] p(s[i]) }
pub open spec fn all_of<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> bool { forall|i: int| 0 <= i < s.len() ==> #[trigger] p(s[i]) }
pub broadcast proof fn lemma_any_of<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures #![trigger any_of(s, p)] any_of(s, p) || forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> !p(s[i]),
        any_of(s, p) ==> exists|i: int| #![trigger s[i]] 0 <= i < s.len() && p(s[i])
{ if any_of(s, p) { let i = choose|i: int| 0 <= i < s.len() && #[trigger] p(s[i]); assert(p(s[i]) && s[i] == s[i]); } }
pub broadcast proof fn lemma_all_of<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures #![trigger all_of(s, p)] all_of(s, p) ==> forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> p(s[i]),
        all_of(s, p) || exists|i: int| #![trigger s[i]] 0 <= i < s.len() && !p(s[i])
{ if !all_of(s, p) { let i = choose|i: int| 0 <= i < s.len() && !#[trigger] p(s[i]); assert(!p(s[i]) && s[i] == s[i]); } }
pub open spec fn find_from<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int) -> int
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { s.len() as int } else if p(s[i]) { i } else { find_from(s, p, i + 1) }
}
pub closed spec fn find_idx<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> int { find_from(s, p, 0) }
pub proof fn lemma_find_from<T>(s: Seq<T>, p: spec_fn(T) -> bool, i: int)
    requires 0 <= i <= s.len()
    ensures i <= find_from(s, p, i) <= s.len(),
        forall|j: int| i <= j < find_from(s, p, i) ==> !p(s[j]),
        find_from(s, p, i) < s.len() ==> p(s[find_from(s, p, i)])
    decreases s.len() - i
{
    if i < s.len() && !p(s[i]) { lemma_find_from(s, p, i + 1); }
}
pub broadcast proof fn axiom_find_idx<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures #![trigger find_idx(s, p)] 0 <= find_idx(s, p) <= s.len(),
        forall|j: int| #![trigger s[j]] 0 <= j < find_idx(s, p) ==> !p(s[j]),
        find_idx(s, p) < s.len() ==> p(s[find_idx(s, p)])
{ lemma_find_from(s, p, 0); }

pub closed spec fn find_val<T>(s: Seq<T>, x: T) -> int { find_idx(s, |y: T| y == x) }
pub broadcast proof fn axiom_find_val<T>(s: Seq<T>, x: T)
    ensures #![trigger find_val(s, x)] 0 <= find_val(s, x) <= s.len(),
        forall|j: int| #![trigger s[j]] 0 <= j < find_val(s, x) ==> s[j] != x,
        find_val(s, x) < s.len() ==> s[find_val(s, x)] == x,
        (find_val(s, x) < s.len()) == s.contains(x)
{ axiom_find_idx(s, |y: T| y == x); if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; assert(s[j] == x); } }

/// std::upper_bound / std::lower_bound over a partitioned range
pub uninterp spec fn upper_bound<T>(s: Seq<T>, x: T, lt: spec_fn(T, T) -> bool) -> int;
pub uninterp spec fn lower_bound<T>(s: Seq<T>, x: T, lt: spec_fn(T, T) -> bool) -> int;
pub broadcast axiom fn axiom_upper_bound<T>(s: Seq<T>, x: T, lt: spec_fn(T, T) -> bool)
    ensures #![trigger upper_bound(s, x, lt)] 0 <= upper_bound(s, x, lt) <= s.len(),
        (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && lt(x, s[i]) ==> lt(x, s[j])) ==>
            (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (lt(x, s[i]) <==> upper_bound(s, x, lt) <= i));
pub broadcast axiom fn axiom_lower_bound<T>(s: Seq<T>, x: T, lt: spec_fn(T, T) -> bool)
    ensures #![trigger lower_bound(s, x, lt)] 0 <= lower_bound(s, x, lt) <= s.len(),
        (forall|i: int, j: int| #![trigger s[i], s[j]] 0 <= i < j < s.len() && lt(s[j], x) ==> lt(s[i], x)) ==>
            (forall|i: int| #![trigger s[i]] 0 <= i < s.len() ==> (lt(s[i], x) <==> i < lower_bound(s, x, lt)));

pub broadcast proof fn axiom_filter_mem<T>(s: Seq<T>, p: spec_fn(T) -> bool)
    ensures #![trigger s.filter(p)] forall|i: int| #![trigger s.filter(p)[i]] 0 <= i < s.filter(p).len() ==> p(s.filter(p)[i]) && s.contains(s.filter(p)[i]),
        forall|x: T| #![trigger s.filter(p).contains(x)] s.filter(p).contains(x) <==> s.contains(x) && p(x),
        s.filter(p).len() <= s.len()
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() > 0 {
        axiom_filter_mem(s.drop_last(), p);
        let f = s.filter(p); let g = s.drop_last().filter(p);
        assert forall|i: int| 0 <= i < f.len() implies p(f[i]) && s.contains(f[i]) by {
            if p(s.last()) && i == f.len() - 1 { assert(f[i] == s[s.len() - 1]); }
            else { assert(f[i] == g[i]); assert(s.drop_last().contains(g[i])); let k = choose|k: int| 0 <= k < s.drop_last().len() && s.drop_last()[k] == g[i]; assert(s[k] == f[i]); }
        }
        assert forall|x: T| f.contains(x) implies s.contains(x) && p(x) by { let m = choose|m: int| 0 <= m < f.len() && f[m] == x; assert(p(f[m]) && s.contains(f[m])); }
        assert forall|x: T| s.contains(x) && p(x) implies f.contains(x) by {
            let k = choose|k: int| 0 <= k < s.len() && s[k] == x;
            if k == s.len() - 1 { assert(f[f.len() - 1] == x); }
            else { assert(s.drop_last()[k] == x); assert(g.contains(x)); let m = choose|m: int| 0 <= m < g.len() && g[m] == x; assert(f[m] == x); }
        }
    }
}
/// witness: position in s of the i-th element kept by the filter
pub proof fn lemma_filter_index<T>(s: Seq<T>, p: spec_fn(T) -> bool) -> (f: Seq<int>)
    ensures f.len() == s.filter(p).len(),
        forall|i: int| 0 <= i < f.len() ==> 0 <= #[trigger] f[i] < s.len() && s[f[i]] == s.filter(p)[i],
        forall|i: int, j: int| 0 <= i < j < f.len() ==> f[i] < f[j],
    decreases s.len()
{
    reveal(Seq::filter);
    if s.len() == 0 { Seq::<int>::empty() } else {
        let g = lemma_filter_index(s.drop_last(), p);
        if p(s.last()) { g.push(s.len() - 1) } else { g }
    }
}
pub broadcast proof fn lemma_push_contains<T>(s: Seq<T>, x: T, y: T)
    ensures #[trigger] s.push(x).contains(y) <==> (s.contains(y) || y == x)
{
    if s.contains(y) { let k = choose|k: int| 0 <= k < s.len() && s[k] == y; assert(s.push(x)[k] == y); }
    if y == x { assert(s.push(x)[s.len() as int] == y); }
    if s.push(x).contains(y) && y != x { let k = choose|k: int| 0 <= k < s.push(x).len() && s.push(x)[k] == y; assert(s[k] == y); }
}
pub broadcast proof fn lemma_add_contains<T>(a: Seq<T>, b: Seq<T>, y: T)
    ensures #[trigger] (a + b).contains(y) <==> (a.contains(y) || b.contains(y))
{
    if a.contains(y) { let k = choose|k: int| 0 <= k < a.len() && a[k] == y; assert((a + b)[k] == y); }
    if b.contains(y) { let k = choose|k: int| 0 <= k < b.len() && b[k] == y; assert((a + b)[k + a.len()] == y); }
    if (a + b).contains(y) { let k = choose|k: int| 0 <= k < (a + b).len() && (a + b)[k] == y; if k < a.len() { assert(a[k] == y); } else { assert(b[k - a.len()] == y); } }
}
pub broadcast proof fn lemma_empty_contains<T>(y: T)
    ensures !#[trigger] Seq::<T>::empty().contains(y) {}
pub uninterp spec fn sort_by<T>(s: Seq<T>, lt: spec_fn(T, T) -> bool) -> Seq<T>;
// std::sort: a permutation in which no later element is less than an earlier one (comparator assumed a strict weak order)
pub broadcast axiom fn axiom_sort_by<T>(s: Seq<T>, lt: spec_fn(T, T) -> bool)
    ensures #![trigger sort_by(s, lt)] sort_by(s, lt).len() == s.len(),
        forall|x: T| #![trigger sort_by(s, lt).contains(x)] sort_by(s, lt).contains(x) <==> s.contains(x),
        forall|i: int, j: int| #![trigger sort_by(s, lt)[j], sort_by(s, lt)[i]] 0 <= i < j < sort_by(s, lt).len() ==> !lt(sort_by(s, lt)[j], sort_by(s, lt)[i]);
pub open spec fn unique_by<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool) -> Seq<T>
    decreases s.len()
{
    if s.len() == 0 { s } else {
        let r = unique_by(s.drop_last(), eq);
        if r.len() > 0 && eq(r.last(), s.last()) { r } else { r.push(s.last()) }
    }
}
pub proof fn lemma_unique_by<T>(s: Seq<T>, eq: spec_fn(T, T) -> bool, lt: spec_fn(T, T) -> bool)
    requires forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] eq(s[i], s[j]) <==> s[i] == s[j]),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> !#[trigger] lt(s[j], s[i]),
        forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && !lt(s[i], s[j]) && !lt(s[j], s[i]) ==> s[i] == s[j],
        forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && lt(s[i], s[j]) && lt(s[j], s[k]) ==> lt(s[i], s[k])
    ensures forall|x: T| #[trigger] unique_by(s, eq).contains(x) <==> s.contains(x),
        forall|i: int, j: int| 0 <= i < j < unique_by(s, eq).len() ==> lt(unique_by(s, eq)[i], unique_by(s, eq)[j]),
        s.len() > 0 ==> unique_by(s, eq).len() > 0 && unique_by(s, eq).last() == s.last(),
        s.len() == 0 ==> unique_by(s, eq).len() == 0
    decreases s.len()
{
    if s.len() > 0 {
        let p = s.drop_last();
        assert forall|i: int, j: int| 0 <= i < p.len() && 0 <= j < p.len() implies (#[trigger] eq(p[i], p[j]) <==> p[i] == p[j]) by { assert(p[i] == s[i] && p[j] == s[j]); }
        lemma_unique_by(p, eq, lt);
        let r = unique_by(p, eq);
        let u = unique_by(s, eq);
        if p.len() > 0 { assert(r.last() == p.last() && p.last() == s[s.len() - 2]); assert(eq(s[s.len() - 2], s[s.len() - 1]) <==> s[s.len() - 2] == s[s.len() - 1]); }
        assert forall|x: T| #[trigger] u.contains(x) <==> s.contains(x) by {
            assert(s =~= p.push(s.last()));
            lemma_push_contains(p, s.last(), x);
            lemma_push_contains(r, s.last(), x);
            if p.len() > 0 { assert(p.contains(p[p.len() - 1])); }
        }
        if u != r {
            assert(u == r.push(s.last()));
            assert forall|i: int, j: int| 0 <= i < j < u.len() implies lt(u[i], u[j]) by {
                if j == u.len() - 1 {
                    assert(r.contains(r[i])); assert(p.contains(r[i]));
                    let a = choose|a: int| 0 <= a < p.len() && p[a] == r[i];
                    assert(s[a] == r[i]);
                    assert(!lt(s[s.len() - 1], s[a]));
                    if !lt(s[a], s.last()) {
                        assert(s[a] == s[s.len() - 1]);
                        // then the last element of r equals s.last() as well: contradiction
                        let b = s.len() - 2;
                        assert(!lt(s[b], s[a]) || a == b);
                        assert(!lt(s[s.len() - 1], s[b]));
                        if a < b { assert(!lt(s[b], s[a])); assert(!lt(s[s.len() - 1], s[b])); assert(s[a] == s[b]); }
                        assert(eq(s[b], s[s.len() - 1]));
                        assert(false);
                    }
                }
            }
        }
    }
}
pub open spec fn map_seq<T, U>(s: Seq<T>, f: spec_fn(T) -> U) -> Seq<U> { Seq::new(s.len(), |i: int| f(s[i])) }
pub open spec fn rep_seq<T>(n: int, x: T) -> Seq<T> { Seq::new((if n < 0 { 0 } else { n }) as nat, |i: int| x) }
pub open spec fn seq_resize<T>(s: Seq<T>, n: int, x: T) -> Seq<T> { if n <= s.len() { s.take(n) } else { s + rep_seq(n - s.len(), x) } }

// --- strings ---
pub open spec fn uc(c: int) -> int { if c < 0 { c + 256 } else { c } }
pub open spec fn str_lt(a: Str, b: Str) -> bool
    decreases a.len()
{
    if b.len() == 0 { false } else if a.len() == 0 { true }
    else if uc(a[0]) != uc(b[0]) { uc(a[0]) < uc(b[0]) } else { str_lt(a.skip(1), b.skip(1)) }
}
pub open spec fn is_chars(a: Str) -> bool { forall|i: int| 0 <= i < a.len() ==> -128 <= #[trigger] a[i] < 128 }
pub open spec fn str_cmp(a: Str, b: Str) -> int { if a == b { 0 } else if str_lt(a, b) { -1 } else { 1 } }
pub proof fn lemma_str_lt_irrefl(a: Str) ensures !str_lt(a, a) decreases a.len() { if a.len() > 0 { lemma_str_lt_irrefl(a.skip(1)); } }
pub proof fn lemma_str_lt_trans(a: Str, b: Str, c: Str) requires str_lt(a, b), str_lt(b, c) ensures str_lt(a, c) decreases a.len()
{ if a.len() > 0 && b.len() > 0 && c.len() > 0 && uc(a[0]) == uc(b[0]) && uc(b[0]) == uc(c[0]) { lemma_str_lt_trans(a.skip(1), b.skip(1), c.skip(1)); } }
pub proof fn lemma_str_lt_total(a: Str, b: Str) requires is_chars(a), is_chars(b), !str_lt(a, b), !str_lt(b, a) ensures a == b decreases a.len()
{
    if a.len() > 0 && b.len() > 0 {
        assert(-128 <= a[0] < 128 && -128 <= b[0] < 128);
        assert forall|i: int| 0 <= i < a.skip(1).len() implies -128 <= #[trigger] a.skip(1)[i] < 128 by { assert(a.skip(1)[i] == a[i + 1]); }
        assert forall|i: int| 0 <= i < b.skip(1).len() implies -128 <= #[trigger] b.skip(1)[i] < 128 by { assert(b.skip(1)[i] == b[i + 1]); }
        lemma_str_lt_total(a.skip(1), b.skip(1));
        assert(a =~= seq![a[0]] + a.skip(1)); assert(b =~= seq![b[0]] + b.skip(1));
    } else { assert(a =~= b); }
}
pub open spec fn cstr_at(s: Str, i: int) -> int { if i == s.len() { 0 } else { s[i] } }
pub open spec fn substr(s: Str, pos: int, n: int) -> Str { if pos + n >= s.len() { s.skip(pos) } else { s.subrange(pos, pos + n) } }
pub open spec fn sref_substr(s: Str, pos: int, n: int) -> Str { if pos >= s.len() { Seq::empty() } else { substr(s, pos, n) } }
pub open spec fn sref_slice(s: Str, a: int, b: int) -> Str {
    let a2 = min_int(a, s.len() as int); let b2 = min_int(max_int(a2, b), s.len() as int); s.subrange(a2, b2) }
pub open spec fn str_erase(s: Str, pos: int, n: int) -> Str { if pos + n >= s.len() { s.take(pos) } else { s.take(pos) + s.skip(pos + n) } }
pub open spec fn is_at(s: Str, t: Str, i: int) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
pub broadcast proof fn lemma_at_one(s: Str, c: int, i: int) ensures #[trigger] is_at(s, seq![c], i) <==> 0 <= i < s.len() && s[i] == c
{ if 0 <= i < s.len() { assert(s.subrange(i, i + 1) =~= seq![s[i]]); assert(seq![s[i]][0] == s[i]); assert(seq![c][0] == c); } }
pub open spec fn str_contains(s: Str, t: Str) -> bool { exists|i: int| #[trigger] is_at(s, t, i) }
pub open spec fn str_starts_with(s: Str, t: Str) -> bool { t.len() <= s.len() && s.take(t.len() as int) == t }
pub open spec fn str_ends_with(s: Str, t: Str) -> bool { t.len() <= s.len() && s.skip(s.len() - t.len()) == t }
pub uninterp spec fn str_find(s: Str, t: Str, pos: int) -> int;
pub broadcast axiom fn axiom_str_find(s: Str, t: Str, pos: int)
    ensures
        #![trigger str_find(s, t, pos)] 0 <= pos ==> (str_find(s, t, pos) == npos() && forall|i: int| pos <= i ==> !#[trigger] is_at(s, t, i))
          || (pos <= str_find(s, t, pos) && is_at(s, t, str_find(s, t, pos)) && str_find(s, t, pos) != npos() && forall|i: int| pos <= i < str_find(s, t, pos) ==> !#[trigger] is_at(s, t, i));
pub uninterp spec fn str_rfind(s: Str, t: Str, pos: int) -> int;
pub broadcast axiom fn axiom_str_rfind(s: Str, t: Str, pos: int)
    ensures
        #![trigger str_rfind(s, t, pos)] 0 <= pos ==> (str_rfind(s, t, pos) == npos() && forall|i: int| 0 <= i <= pos ==> !#[trigger] is_at(s, t, i))
          || (0 <= str_rfind(s, t, pos) <= pos && is_at(s, t, str_rfind(s, t, pos)) && str_rfind(s, t, pos) != npos() && forall|i: int| str_rfind(s, t, pos) < i <= pos ==> !#[trigger] is_at(s, t, i));
pub uninterp spec fn str_lower(s: Str) -> Str;
pub uninterp spec fn str_upper(s: Str) -> Str;
pub open spec fn str_ltrim(s: Str, chars: Str) -> Str decreases s.len() { if s.len() > 0 && chars.contains(s[0]) { str_ltrim(s.skip(1), chars) } else { s } }
pub open spec fn str_rtrim(s: Str, chars: Str) -> Str decreases s.len() { if s.len() > 0 && chars.contains(s[s.len() - 1]) { str_rtrim(s.drop_last(), chars) } else { s } }
pub open spec fn str_trim(s: Str, chars: Str) -> Str { str_rtrim(str_ltrim(s, chars), chars) }
// <cctype> in the "C" locale
pub open spec fn c_isspace(c: int) -> bool { c == 32 || (9 <= c <= 13) }
pub open spec fn c_isdigit(c: int) -> bool { 48 <= c <= 57 }
pub open spec fn c_isupper(c: int) -> bool { 65 <= c <= 90 }
pub open spec fn c_islower(c: int) -> bool { 97 <= c <= 122 }
pub open spec fn c_isalpha(c: int) -> bool { c_isupper(c) || c_islower(c) }
pub open spec fn c_isalnum(c: int) -> bool { c_isalpha(c) || c_isdigit(c) }
pub open spec fn c_isxdigit(c: int) -> bool { c_isdigit(c) || 65 <= c <= 70 || 97 <= c <= 102 }
pub open spec fn c_tolower(c: int) -> int { if c_isupper(c) { c + 32 } else { c } }
pub open spec fn c_toupper(c: int) -> int { if c_islower(c) { c - 32 } else { c } }
pub uninterp spec fn map_entries<K, T>(m: Map<K, T>) -> Seq<(K, T)>;
pub broadcast axiom fn axiom_map_entries<K, T>(m: Map<K, T>)
    ensures #![trigger map_entries(m)] forall|i: int| #![trigger map_entries(m)[i]] 0 <= i < map_entries(m).len() ==> m.dom().contains(map_entries(m)[i].0) && m[map_entries(m)[i].0] == map_entries(m)[i].1,
        forall|k: K| #![trigger m.dom().contains(k)] m.dom().contains(k) ==> exists|i: int| #![trigger map_entries(m)[i]] 0 <= i < map_entries(m).len() && map_entries(m)[i].0 == k;
pub uninterp spec fn set_entries<K>(m: Set<K>) -> Seq<K>;
pub broadcast axiom fn axiom_set_entries<K>(m: Set<K>, k: K)
    ensures #[trigger] set_entries(m).contains(k) <==> m.contains(k);
// std::getline on a string stream
pub struct IStream { pub rest: Str }
pub open spec fn ch_idx(s: Str, c: int) -> int decreases s.len() { if s.len() == 0 { 0 } else if s[0] == c { 0 } else { 1 + ch_idx(s.skip(1), c) } }
pub proof fn lemma_ch_idx(s: Str, c: int) ensures 0 <= ch_idx(s, c) <= s.len(), forall|i: int| 0 <= i < ch_idx(s, c) ==> s[i] != c, ch_idx(s, c) < s.len() ==> s[ch_idx(s, c)] == c decreases s.len()
{ if s.len() > 0 && s[0] != c { lemma_ch_idx(s.skip(1), c); assert forall|i: int| 0 <= i < ch_idx(s, c) implies s[i] != c by { if i > 0 { assert(s[i] == s.skip(1)[i - 1]); } } } }
pub open spec fn rest_after(s: Str, c: int) -> Str { if ch_idx(s, c) < s.len() { s.skip(ch_idx(s, c) + 1) } else { Seq::<int>::empty() } }
/// the pieces of s between separators (no trailing empty piece)
pub open spec fn split(s: Str, c: int) -> Seq<Str> decreases s.len()
    via split_decreases
{ if s.len() == 0 { Seq::<Str>::empty() } else { seq![s.take(ch_idx(s, c))] + split(rest_after(s, c), c) } }
#[via_fn] proof fn split_decreases(s: Str, c: int) { lemma_ch_idx(s, c); }
pub broadcast group group_lib { lemma_any_of, lemma_all_of, lemma_at_one, lemma_push_contains, lemma_add_contains, lemma_empty_contains, axiom_find_idx, axiom_find_val, axiom_upper_bound, axiom_lower_bound, axiom_filter_mem, axiom_sort_by, axiom_str_find, axiom_str_rfind, axiom_map_entries, axiom_set_entries }
} // verus!
} // mod lib
use vstd::prelude::*;
use vstd::seq_lib::*;
use crate::lib::*;
verus!{
