"""C02: a warning is suppressed iff a suppression comment of its file covers it."""
import re
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
SOURCES = ['src/SuppressionManager.cpp']
FIELDS = {'SuppressionManager::Suppressions': ['skipEntireFile', 'skipNextLine', 'checksToSkip', 'checksToSkipByLine', 'checkWildcardsToSkipByLine', 'checkWildcardsRanges'],
          'SuppressionManager::CheckBeginAndEnd': ['checksToSkipWildcard', 'begin', 'end'], 'SuppressionManager': ['m_processedFileIDs']}
TYPEMAP = {'llvm::Regex': 'Str', 'std::basic_regex': 'Str', 'std::match_results': 'Option<Str>', 'std::sub_match': 'Str', 'clang::Lexer': 'LexS'}
TB = parse('bool'); TV = parse('void')
def lex_raw(tr, obj, vs, t):
    tr.assert_(f'{obj.e}.rest.len() > 0', 'the raw lexer is not called again after the last token')
    tr.assign(vs[0].lv, f'{obj.e}.rest[0]')
    tr.assign(obj.lv, f'LexS {{ rest: {tr.cur(obj.lv)}.rest.skip(1) }}')
    return V(f'({tr.cur(obj.lv)}.rest.len() == 0)', TB)
def rx_search(tr, obj, vs, t):
    a, b, m, rx = vs[:4]
    tr.assert_(f'0 <= {a.e} <= {b.e} && {b.e} == {a.cont.e}.len()', 'regex_search range')
    tr.assign(m.lv, f're_search({rx.e}, {a.cont.e}.skip({a.e}))')
    return V(f'({tr.cur(m.lv)} is Some)', TB)
SM = 'std::match_results<__gnu_cxx::__normal_iterator<const char *, std::basic_string<char, std::char_traits<char>, std::allocator<char>>>, std::allocator<std::sub_match<__gnu_cxx::__normal_iterator<const char *, std::basic_string<char, std::char_traits<char>, std::allocator<char>>>>>>'
EXT = {
 'clang::Lexer::Lexer': lambda tr, o, vs, t: V(f'LexS {{ rest: raw_toks({vs[0].e}) }}', t), 'clang::Lexer::LexFromRawLexer': lex_raw, 'clang::Lexer::SetCommentRetentionState': lambda tr, o, vs, t: V('()', TV),
 'clang::Lexer::getSpelling': lambda tr, o, vs, t: V(f'tok_text({vs[0].e})', t), 'clang::Token::getKind': lambda tr, o, vs, t: V(f'tok_kind({o.e})', t), 'clang::Token::getLocation': lambda tr, o, vs, t: V(f'tok_loc({o.e})', t),
 'clang::SourceManager::getSpellingLineNumber': lambda tr, o, vs, t: V(f'spell_line({vs[0].e})', t), 'clang::SourceManager::getExpansionLoc': lambda tr, o, vs, t: V(f'expansion({vs[0].e})', t),
 'clang::SourceManager::getFileID': lambda tr, o, vs, t: V(f'file_of({vs[0].e})', t), 'clang::FileID::getHashValue': lambda tr, o, vs, t: V(o.e, t), 'clang::FileID::isInvalid': lambda tr, o, vs, t: V(f'({o.e} == 0)', TB), 'clang::FileID::FileID': lambda tr, o, vs, t: V('0int', t),
 'clang::SourceLocation::isMacroID': lambda tr, o, vs, t: V(f'is_macro({o.e})', TB), 'clang::SourceLocation::isInvalid': lambda tr, o, vs, t: V(f'({o.e} == 0)', TB), 'clang::SourceLocation::isFileID': lambda tr, o, vs, t: V(f'(!is_macro({o.e}))', TB), 'clang::SourceLocation::isValid': lambda tr, o, vs, t: V(f'({o.e} != 0)', TB),
 'clang::SourceManager::getBufferOrNone': lambda tr, o, vs, t: V(f'(if has_buf({vs[0].e}) {{ Some({vs[0].e}) }} else {{ None::<int> }})', t),
 'clang::Token::Token': lambda tr, o, vs, t: V('0int', t),
 'llvm::Regex::Regex': lambda tr, o, vs, t: V(tr.to_str(vs[0]), t), 'llvm::Regex::match': lambda tr, o, vs, t: V(f're_match({o.e}, {tr.to_str(vs[0])})', TB),
 'std::regex_search': rx_search, 'std::basic_regex<char, std::regex_traits<char>>::basic_regex': lambda tr, o, vs, t: V(tr.to_str(vs[0]), t),
 SM + '::match_results': lambda tr, o, vs, t: V('None::<Str>', t),
 SM + '::operator[]': lambda tr, o, vs, t: (tr.assert_(f'{o.e} is Some && {vs[0].e} == 1', 'capture group 1 of a successful match'), V(f'{o.e}->0', parse('std::basic_string<char>')))[1],
}
PRELUDE = r'''
type Sup = R_SuppressionManager_Suppressions; type Rng = R_SuppressionManager_CheckBeginAndEnd; type SM = R_SuppressionManager;
pub struct LexS { pub rest: Seq<int> }
pub uninterp spec fn raw_toks(f: int) -> Seq<int>;       // tokens of the file as the raw lexer returns them, comments kept
pub uninterp spec fn tok_kind(t: int) -> int;
pub uninterp spec fn tok_loc(t: int) -> int;
pub uninterp spec fn tok_text(t: int) -> Str;
pub uninterp spec fn spell_line(l: int) -> int;
pub uninterp spec fn has_buf(f: int) -> bool;
pub uninterp spec fn file_of(l: int) -> int;
pub uninterp spec fn is_macro(l: int) -> bool;
pub uninterp spec fn expansion(l: int) -> int;
pub uninterp spec fn re_match(rx: Str, s: Str) -> bool;
pub uninterp spec fn re_search(rx: Str, s: Str) -> Option<Str>;
pub broadcast axiom fn ax_len(t: int) ensures #[trigger] tok_text(t).len() < 0x7fff_ff00;
pub broadcast axiom fn ax_line(l: int) ensures 0 <= #[trigger] spell_line(l) < 0x7fff_ff00;
pub broadcast axiom fn ax_toks(f: int) ensures #[trigger] raw_toks(f).len() > 0;
/// leftmost occurrence of pre that is followed by at least one non-blank; the run of non-blanks after it
pub open spec fn run_end(s: Str, i: int) -> int decreases s.len() - i { if 0 <= i < s.len() && !c_isspace(s[i]) { run_end(s, i + 1) } else { i } }
pub open spec fn cap_at(s: Str, pre: Str, i: int) -> bool { is_at(s, pre, i) && i + pre.len() < s.len() && !c_isspace(s[i + pre.len()]) }
pub open spec fn cap_from(s: Str, pre: Str, i: int) -> Option<Str> decreases s.len() - i
{ if i < 0 || i >= s.len() { None } else if cap_at(s, pre, i) { Some(s.subrange(i + pre.len(), run_end(s, i + pre.len() as int))) } else { cap_from(s, pre, i + 1) } }
pub broadcast axiom fn ax_rx(s: Str) ensures #![trigger re_search(L"clazy:excludeall=([^\\s]+)", s)] re_search(L"clazy:excludeall=([^\\s]+)", s) == cap_from(s, L"clazy:excludeall=", 0);
pub broadcast axiom fn ax_rx2(s: Str) ensures #![trigger re_search(L"clazy:exclude=([^\\s]+)", s)] re_search(L"clazy:exclude=([^\\s]+)", s) == cap_from(s, L"clazy:exclude=", 0);
pub broadcast axiom fn ax_rx3(s: Str) ensures #![trigger re_search(L"clazy:exclude-next-line=([^\\s]+)", s)] re_search(L"clazy:exclude-next-line=([^\\s]+)", s) == cap_from(s, L"clazy:exclude-next-line=", 0);
/// looking in the text after the first "clazy:" is looking in the whole text
pub proof fn cap_shift(s: Str, pre: Str, k: int, i: int)
    requires 0 <= k <= s.len(), 0 <= i <= s.len() - k
    ensures cap_from(s.skip(k), pre, i) == cap_from(s, pre, i + k)
    decreases s.len() - k - i
{
    let z = s.skip(k);
    if i < z.len() {
        assert(is_at(z, pre, i) == is_at(s, pre, i + k)) by { if i + pre.len() <= z.len() { assert(z.subrange(i, i + pre.len()) =~= s.subrange(i + k, i + k + pre.len())); } }
        if is_at(z, pre, i) && i + pre.len() < z.len() { assert(z[i + pre.len()] == s[i + k + pre.len()]); }
        assert(cap_at(z, pre, i) == cap_at(s, pre, i + k));
        if cap_at(s, pre, i + k) { run_shift(s, k, i + pre.len() as int); run_ge(s, i + k + pre.len() as int); assert(z.subrange(i + pre.len(), run_end(z, i + pre.len() as int)) =~= s.subrange(i + k + pre.len(), run_end(s, i + k + pre.len() as int))); }
        else { cap_shift(s, pre, k, i + 1); }
    }
}
pub proof fn run_ge(s: Str, i: int) requires 0 <= i <= s.len() ensures i <= run_end(s, i) <= s.len() decreases s.len() - i { if i < s.len() && !c_isspace(s[i]) { run_ge(s, i + 1); } }
pub proof fn run_shift(s: Str, k: int, i: int) requires 0 <= k <= s.len(), 0 <= i <= s.len() - k ensures run_end(s.skip(k), i) + k == run_end(s, i + k) decreases s.len() - k - i
{ if i < s.len() - k { assert(s.skip(k)[i] == s[i + k]); if !c_isspace(s[i + k]) { run_shift(s, k, i + 1); } } }
pub proof fn cap_skip(s: Str, pre: Str, a: int, b: int)
    requires 0 <= a <= b, forall|i: int| a <= i < b ==> !is_at(s, pre, i)
    ensures cap_from(s, pre, a) == cap_from(s, pre, b)
    decreases b - a
{ if a < b { if a < s.len() { cap_skip(s, pre, a + 1, b); } } }
pub proof fn pre_pos(s: Str, pre: Str, head: Str, k: int)
    requires str_starts_with(pre, head), forall|i: int| 0 <= i < k ==> !#[trigger] is_at(s, head, i), 0 <= k <= s.len()
    ensures cap_from(s, pre, 0) == cap_from(s.skip(k), pre, 0)
{
    assert forall|i: int| 0 <= i < k implies !is_at(s, pre, i) by { if is_at(s, pre, i) { head_at(s, pre, head, i); } }
    cap_skip(s, pre, 0, k); cap_shift(s, pre, k, 0);
}
pub proof fn head_at(s: Str, pre: Str, head: Str, i: int) requires str_starts_with(pre, head), is_at(s, pre, i) ensures is_at(s, head, i)
{ assert(s.subrange(i, i + head.len()) =~= s.subrange(i, i + pre.len()).take(head.len() as int)); }
pub proof fn no_cap(s: Str, pre: Str, head: Str, i: int)
    requires str_starts_with(pre, head), forall|j: int| !#[trigger] is_at(s, head, j)
    ensures cap_from(s, pre, i) is None decreases s.len() - i
{ if 0 <= i < s.len() { if is_at(s, pre, i) { head_at(s, pre, head, i); } no_cap(s, pre, head, i + 1); } }

// ---- what one comment says
pub open spec fn cz(t: Str, pre: Str) -> Option<Str> { cap_from(t, pre, 0) }
pub open spec fn all_list(t: Str) -> Option<Str> { cz(t, L"clazy:excludeall=") }
pub open spec fn cur_list(t: Str) -> Option<Str> { if all_list(t) is Some { None } else { cz(t, L"clazy:exclude=") } }
pub open spec fn next_list(t: Str) -> Option<Str> { if all_list(t) is Some || cur_list(t) is Some { None } else { cz(t, L"clazy:exclude-next-line=") } }
pub open spec fn says(l: Option<Str>, c: Str) -> bool { match l { None => false, Some(x) => split(x, C',').contains(c) } }
pub open spec fn nol(t: Str) -> int { str_find(t, L"NOLINT", 0) }
pub open spec fn has_nol(t: Str) -> bool { str_contains(t, L"NOLINT") }
pub open spec fn bgn(t: Str) -> int { str_find(t, L"NOLINTBEGIN", nol(t)) }
pub open spec fn fin(t: Str) -> int { str_find(t, L"NOLINTEND", nol(t)) }
pub open spec fn is_begin(t: Str) -> bool { has_nol(t) && bgn(t) != npos() }
pub open spec fn is_end(t: Str) -> bool { has_nol(t) && bgn(t) == npos() && fin(t) != npos() }
pub open spec fn is_line(t: Str) -> bool { has_nol(t) && bgn(t) == npos() && fin(t) == npos() }
pub open spec fn is_next(t: Str) -> bool { is_at(t, L"NEXTLINE", nol(t) + 6) }
/// text between the parentheses that start at p
pub open spec fn paren(t: Str, p: int) -> Str { if 0 <= p < t.len() && t[p] == C'(' && str_find(t, seq![41int], p) != npos() { t.subrange(p + 1, str_find(t, seq![41int], p)) } else { Seq::<int>::empty() } }
pub open spec fn line_off(t: Str) -> int { if is_next(t) { 1 } else { 0 } }
pub open spec fn line_text(t: Str) -> Str { paren(t, nol(t) + 6 + (if is_next(t) { 8int } else { 0int })) }
pub open spec fn ws() -> Str { L" \t\n\x0b\x0c\r" }
pub open spec fn is_meta(c: int) -> bool { L"()^$|*+?.[]\\{}".contains(c) }
pub open spec fn glob1(c: int) -> Str { if c == C'*' { seq![46int, c] } else if is_meta(c) { seq![92int, c] } else { seq![c] } }
pub open spec fn glob(g: Str) -> Str decreases g.len() { if g.len() == 0 { Seq::<int>::empty() } else { glob(g.drop_last()) + glob1(g.last()) } }
pub open spec fn glob_rx(g: Str) -> Str { L"^" + glob(g) + L"$" }
pub open spec fn ours(item: Str) -> bool { str_starts_with(str_ltrim(item, ws()), L"clazy-") }
pub open spec fn item_rx(item: Str) -> Str { glob_rx(sref_substr(str_trim(item, ws()), 6, npos())) }
/// the list names a pattern of ours
pub open spec fn rx_upto(items: Seq<Str>, k: int, rx: Str) -> bool { exists|i: int| 0 <= i < k && ours(#[trigger] items[i]) && item_rx(items[i]) == rx }
pub open spec fn list_rx(list: Str, rx: Str) -> bool { rx_upto(split(list, C','), split(list, C',').len() as int, rx) }
pub proof fn rx_step(items: Seq<Str>, k: int) requires 0 <= k < items.len()
    ensures forall|rx: Str| #[trigger] rx_upto(items, k + 1, rx) <==> (rx_upto(items, k, rx) || (ours(items[k]) && item_rx(items[k]) == rx))
{
    assert forall|rx: Str| #[trigger] rx_upto(items, k + 1, rx) <==> (rx_upto(items, k, rx) || (ours(items[k]) && item_rx(items[k]) == rx)) by {
        if rx_upto(items, k, rx) { let i = choose|i: int| 0 <= i < k && ours(#[trigger] items[i]) && item_rx(items[i]) == rx; assert(ours(items[i])); }
        if ours(items[k]) && item_rx(items[k]) == rx { assert(rx_upto(items, k + 1, rx)); } }
}
// ---- what a file says (ts: its tokens)
pub open spec fn cm(ts: Seq<int>, i: int) -> bool { 0 <= i < ts.len() && tok_kind(ts[i]) == KCOMMENT }
pub open spec fn txt(ts: Seq<int>, i: int) -> Str { tok_text(ts[i]) }
pub open spec fn lin(ts: Seq<int>, i: int) -> int { spell_line(tok_loc(ts[i])) }
pub open spec fn p_skip(ts: Seq<int>, i: int) -> bool { cm(ts, i) && str_contains(txt(ts, i), L"clazy:skip") }
pub open spec fn p_all(ts: Seq<int>, i: int, c: Str) -> bool { cm(ts, i) && says(all_list(txt(ts, i)), c) }
pub open spec fn p_line(ts: Seq<int>, i: int, l: int, c: Str) -> bool { cm(ts, i) && ((l == lin(ts, i) && says(cur_list(txt(ts, i)), c)) || (l == lin(ts, i) + 1 && says(next_list(txt(ts, i)), c))) }
pub open spec fn p_bare(ts: Seq<int>, i: int, l: int) -> bool { cm(ts, i) && is_line(txt(ts, i)) && line_text(txt(ts, i)).len() == 0 && l == lin(ts, i) + line_off(txt(ts, i)) }
pub open spec fn p_wild(ts: Seq<int>, i: int, l: int, rx: Str) -> bool { cm(ts, i) && is_line(txt(ts, i)) && line_text(txt(ts, i)).len() > 0 && l == lin(ts, i) + line_off(txt(ts, i)) && list_rx(line_text(txt(ts, i)), rx) }
pub open spec fn btxt(t: Str) -> Str { paren(t, bgn(t) + 11) }
pub open spec fn etxt(t: Str) -> Str { paren(t, fin(t) + 9) }
/// the NOLINTBEGINs that are still open before token k
pub open spec fn stk(ts: Seq<int>, k: int) -> Seq<(int, Str)> decreases k, 0int {
    if k <= 0 { Seq::<(int, Str)>::empty() } else { let s = stk(ts, k - 1);
        if !cm(ts, k - 1) { s } else if is_begin(txt(ts, k - 1)) { s.push((lin(ts, k - 1), btxt(txt(ts, k - 1)))) }
        else if closes(ts, k - 1) { s.drop_last() } else { s } } }
pub open spec fn closes(ts: Seq<int>, i: int) -> bool decreases i, 1int { i >= 0 && cm(ts, i) && is_end(txt(ts, i)) && stk(ts, i).len() > 0 && stk(ts, i).last().1 == etxt(txt(ts, i)) }
/// token i closes a range which covers line l for pattern list `list`
pub open spec fn p_range(ts: Seq<int>, i: int, b: int, e: int, list: Str) -> bool { closes(ts, i) && b == stk(ts, i).last().0 && e == lin(ts, i) && list == stk(ts, i).last().1 }
pub open spec fn list_hits(list: Str, chk: Str) -> bool { list.len() == 0 || exists|rx: Str| #[trigger] list_rx(list, rx) && re_match(rx, chk) }
pub open spec fn u_skip(ts: Seq<int>, k: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] p_skip(ts, i) }
pub open spec fn u_all(ts: Seq<int>, k: int, c: Str) -> bool { exists|i: int| 0 <= i < k && #[trigger] p_all(ts, i, c) }
pub open spec fn u_line(ts: Seq<int>, k: int, l: int, c: Str) -> bool { exists|i: int| 0 <= i < k && #[trigger] p_line(ts, i, l, c) }
pub open spec fn u_bare(ts: Seq<int>, k: int, l: int) -> bool { exists|i: int| 0 <= i < k && #[trigger] p_bare(ts, i, l) }
pub open spec fn u_wild(ts: Seq<int>, k: int, l: int, rx: Str) -> bool { exists|i: int| 0 <= i < k && #[trigger] p_wild(ts, i, l, rx) }
pub open spec fn u_range(ts: Seq<int>, k: int, b: int, e: int, list: Str) -> bool { exists|i: int| 0 <= i < k && #[trigger] p_range(ts, i, b, e, list) }
/// THE MEANING: is a warning of check chk on line l suppressed
pub open spec fn suppressed(ts: Seq<int>, chk: Str, l: int) -> bool {
    let n = ts.len() as int;
    u_skip(ts, n) || u_all(ts, n, chk) || u_line(ts, n, l, chk) || u_bare(ts, n, l)
    || (exists|rx: Str| #[trigger] u_wild(ts, n, l, rx) && re_match(rx, chk))
    || (exists|b: int, e: int, list: Str| #[trigger] u_range(ts, n, b, e, list) && b <= l <= e && list_hits(list, chk)) }
pub open spec fn file_toks(f: int) -> Seq<int> { if has_buf(f) { raw_toks(f) } else { Seq::<int>::empty() } }
/// a stored range stands for a list
pub open spec fn rng_is(r: Rng, b: int, e: int, list: Str) -> bool { r.begin == b && r.end == e && (r.checksToSkipWildcard.len() == 0 <==> list.len() == 0) && forall|rx: Str| #[trigger] r.checksToSkipWildcard.contains(rx) <==> list_rx(list, rx) }
pub open spec fn list_some(list: Str) -> bool { list.len() == 0 || exists|rx: Str| #[trigger] list_rx(list, rx) }
pub open spec fn has_rng(rs: Seq<Rng>, b: int, e: int, list: Str) -> bool { exists|j: int| 0 <= j < rs.len() && #[trigger] rng_is(rs[j], b, e, list) }
pub open spec fn rng_src(r: Rng, ts: Seq<int>, k: int) -> bool { exists|list: Str| #[trigger] u_range(ts, k, r.begin, r.end, list) && rng_is(r, r.begin, r.end, list) }
#[verifier::opaque] pub open spec fn upto(s: Sup, ts: Seq<int>, k: int) -> bool {
    &&& !s.skipEntireFile && !u_skip(ts, k)
    &&& forall|c: Str| #[trigger] s.checksToSkip.contains(c) <==> u_all(ts, k, c)
    &&& forall|l: int, c: Str| #[trigger] s.checksToSkipByLine.contains((l, c)) <==> u_line(ts, k, l, c)
    &&& forall|l: int| #[trigger] s.skipNextLine.contains(l) <==> u_bare(ts, k, l)
    &&& forall|l: int, rx: Str| #[trigger] s.checkWildcardsToSkipByLine.contains((l, rx)) <==> u_wild(ts, k, l, rx)
    &&& forall|j: int| 0 <= j < s.checkWildcardsRanges.len() ==> rng_src(#[trigger] s.checkWildcardsRanges[j], ts, k)
    &&& forall|b: int, e: int, list: Str| #[trigger] u_range(ts, k, b, e, list) && list_some(list) ==> has_rng(s.checkWildcardsRanges, b, e, list)
}
pub open spec fn sup_ok(s: Sup, ts: Seq<int>) -> bool { if s.skipEntireFile { u_skip(ts, ts.len() as int) } else { upto(s, ts, ts.len() as int) } }
pub open spec fn cache_ok(m: Map<int, Sup>) -> bool { forall|f: int| #[trigger] m.dom().contains(f) ==> sup_ok(m[f], file_toks(f)) }
pub open spec fn empty_sup(s: Sup) -> bool { !s.skipEntireFile && (forall|c: Str| !s.checksToSkip.contains(c)) && (forall|x: (int, Str)| !s.checksToSkipByLine.contains(x)) && (forall|l: int| !s.skipNextLine.contains(l)) && s.checkWildcardsToSkipByLine.len() == 0 && s.checkWildcardsRanges.len() == 0 }
pub proof fn start_ok(s: Sup, ts: Seq<int>) requires empty_sup(s) ensures upto(s, ts, 0) { reveal(upto); }
pub open spec fn gk(f: int, l: LexS) -> int { raw_toks(f).len() - l.rest.len() }
pub open spec fn eff(loc: int) -> int { if is_macro(loc) { expansion(loc) } else { loc } }
pub proof fn step(ts: Seq<int>, k: int) requires 0 <= k < ts.len()
    ensures u_skip(ts, k + 1) <==> u_skip(ts, k) || p_skip(ts, k),
     forall|c: Str| #[trigger] u_all(ts, k + 1, c) <==> u_all(ts, k, c) || p_all(ts, k, c),
     forall|l: int, c: Str| #[trigger] u_line(ts, k + 1, l, c) <==> u_line(ts, k, l, c) || p_line(ts, k, l, c),
     forall|l: int| #[trigger] u_bare(ts, k + 1, l) <==> u_bare(ts, k, l) || p_bare(ts, k, l),
     forall|l: int, rx: Str| #[trigger] u_wild(ts, k + 1, l, rx) <==> u_wild(ts, k, l, rx) || p_wild(ts, k, l, rx),
     forall|b: int, e: int, list: Str| #[trigger] u_range(ts, k + 1, b, e, list) <==> u_range(ts, k, b, e, list) || p_range(ts, k, b, e, list),
{
    if u_skip(ts, k) { let i = choose|i: int| 0 <= i < k && #[trigger] p_skip(ts, i); assert(p_skip(ts, i) && i < k + 1); }
    if p_skip(ts, k) { assert(u_skip(ts, k + 1)); }
    assert forall|c: Str| #[trigger] u_all(ts, k + 1, c) <==> u_all(ts, k, c) || p_all(ts, k, c) by { if u_all(ts, k, c) { let i = choose|i: int| 0 <= i < k && #[trigger] p_all(ts, i, c); assert(i < k + 1); } if p_all(ts, k, c) { assert(u_all(ts, k + 1, c)); } }
    assert forall|l: int, c: Str| #[trigger] u_line(ts, k + 1, l, c) <==> u_line(ts, k, l, c) || p_line(ts, k, l, c) by { if u_line(ts, k, l, c) { let i = choose|i: int| 0 <= i < k && #[trigger] p_line(ts, i, l, c); assert(i < k + 1); } if p_line(ts, k, l, c) { assert(u_line(ts, k + 1, l, c)); } }
    assert forall|l: int| #[trigger] u_bare(ts, k + 1, l) <==> u_bare(ts, k, l) || p_bare(ts, k, l) by { if u_bare(ts, k, l) { let i = choose|i: int| 0 <= i < k && #[trigger] p_bare(ts, i, l); assert(i < k + 1); } if p_bare(ts, k, l) { assert(u_bare(ts, k + 1, l)); } }
    assert forall|l: int, rx: Str| #[trigger] u_wild(ts, k + 1, l, rx) <==> u_wild(ts, k, l, rx) || p_wild(ts, k, l, rx) by { if u_wild(ts, k, l, rx) { let i = choose|i: int| 0 <= i < k && #[trigger] p_wild(ts, i, l, rx); assert(i < k + 1); } if p_wild(ts, k, l, rx) { assert(u_wild(ts, k + 1, l, rx)); } }
    assert forall|b: int, e: int, list: Str| #[trigger] u_range(ts, k + 1, b, e, list) <==> u_range(ts, k, b, e, list) || p_range(ts, k, b, e, list) by { if u_range(ts, k, b, e, list) { let i = choose|i: int| 0 <= i < k && #[trigger] p_range(ts, i, b, e, list); assert(i < k + 1); } if p_range(ts, k, b, e, list) { assert(u_range(ts, k + 1, b, e, list)); } }
}
/// positions of the NOLINT words
pub proof fn nol_facts(t: Str) requires t.len() < 0x7fff_ff00
    ensures has_nol(t) <==> nol(t) != npos(), has_nol(t) ==> 0 <= nol(t) && nol(t) + 6 <= t.len(),
        has_nol(t) && bgn(t) != npos() ==> 0 <= bgn(t) && bgn(t) + 11 <= t.len(), has_nol(t) && fin(t) != npos() ==> 0 <= fin(t) && fin(t) + 9 <= t.len(),
        has_nol(t) ==> (is_next(t) <==> substr(t, nol(t) + 6, 8) == L"NEXTLINE"), is_next(t) && has_nol(t) ==> nol(t) + 14 <= t.len(),
{
    assert(L"NOLINT".len() == 6 && L"NOLINTBEGIN".len() == 11 && L"NOLINTEND".len() == 9 && L"NEXTLINE".len() == 8);
    if nol(t) == npos() { assert(!has_nol(t)); } else { assert(is_at(t, L"NOLINT", nol(t))); assert(has_nol(t)); }
    if has_nol(t) { if nol(t) + 14 <= t.len() { assert(substr(t, nol(t) + 6, 8) =~= t.subrange(nol(t) + 6, nol(t) + 14)); } else { assert(substr(t, nol(t) + 6, 8).len() < 8); } }
}
pub proof fn clazy_facts(t: Str, k: int) requires t.len() < 0x7fff_ff00, k == str_find(t, L"clazy:", 0)
    ensures k == npos() ==> !str_contains(t, L"clazy:skip") && all_list(t) is None && cur_list(t) is None && next_list(t) is None,
       k != npos() ==> 0 <= k <= t.len() && cz(t, L"clazy:excludeall=") == cap_from(t.skip(k), L"clazy:excludeall=", 0) && cz(t, L"clazy:exclude=") == cap_from(t.skip(k), L"clazy:exclude=", 0) && cz(t, L"clazy:exclude-next-line=") == cap_from(t.skip(k), L"clazy:exclude-next-line=", 0)
{
    assert(str_starts_with(L"clazy:skip", L"clazy:")) by { assert(L"clazy:skip".take(6) =~= L"clazy:"); }
    assert(str_starts_with(L"clazy:excludeall=", L"clazy:")) by { assert(L"clazy:excludeall=".take(6) =~= L"clazy:"); }
    assert(str_starts_with(L"clazy:exclude=", L"clazy:")) by { assert(L"clazy:exclude=".take(6) =~= L"clazy:"); }
    assert(str_starts_with(L"clazy:exclude-next-line=", L"clazy:")) by { assert(L"clazy:exclude-next-line=".take(6) =~= L"clazy:"); }
    if k == npos() {
        assert forall|j: int| !#[trigger] is_at(t, L"clazy:", j) by { if j < 0 { } }
        no_cap(t, L"clazy:excludeall=", L"clazy:", 0); no_cap(t, L"clazy:exclude=", L"clazy:", 0); no_cap(t, L"clazy:exclude-next-line=", L"clazy:", 0);
        if str_contains(t, L"clazy:skip") { let i = choose|i: int| is_at(t, L"clazy:skip", i); head_at(t, L"clazy:skip", L"clazy:", i); }
    } else {
        assert(is_at(t, L"clazy:", k));
        pre_pos(t, L"clazy:excludeall=", L"clazy:", k); pre_pos(t, L"clazy:exclude=", L"clazy:", k); pre_pos(t, L"clazy:exclude-next-line=", L"clazy:", k);
    }
}
/// s2 is s plus what token k says
pub open spec fn eff1(s: Sup, s2: Sup, ts: Seq<int>, k: int) -> bool {
    eff_c(s, s2, ts, k) && eff_n(s, s2, ts, k) }
pub open spec fn eff_c(s: Sup, s2: Sup, ts: Seq<int>, k: int) -> bool {
    &&& s2.skipEntireFile == s.skipEntireFile
    &&& forall|c: Str| #[trigger] s2.checksToSkip.contains(c) <==> s.checksToSkip.contains(c) || p_all(ts, k, c)
    &&& forall|l: int, c: Str| #[trigger] s2.checksToSkipByLine.contains((l, c)) <==> s.checksToSkipByLine.contains((l, c)) || p_line(ts, k, l, c)
}
pub open spec fn eff_n(s: Sup, s2: Sup, ts: Seq<int>, k: int) -> bool {
    &&& forall|l: int| #[trigger] s2.skipNextLine.contains(l) <==> s.skipNextLine.contains(l) || p_bare(ts, k, l)
    &&& forall|l: int, rx: Str| #[trigger] s2.checkWildcardsToSkipByLine.contains((l, rx)) <==> s.checkWildcardsToSkipByLine.contains((l, rx)) || p_wild(ts, k, l, rx)
    &&& if closes(ts, k) && list_some(stk(ts, k).last().1) { s2.checkWildcardsRanges.len() == s.checkWildcardsRanges.len() + 1 && s2.checkWildcardsRanges.drop_last() == s.checkWildcardsRanges && rng_is(s2.checkWildcardsRanges.last(), stk(ts, k).last().0, lin(ts, k), stk(ts, k).last().1) }
        else { s2.checkWildcardsRanges == s.checkWildcardsRanges }
}
pub proof fn advance(s: Sup, s2: Sup, ts: Seq<int>, k: int) requires 0 <= k < ts.len(), upto(s, ts, k), eff1(s, s2, ts, k), !p_skip(ts, k) ensures upto(s2, ts, k + 1)
{
    reveal(upto); step(ts, k);
    let r1 = s.checkWildcardsRanges; let r2 = s2.checkWildcardsRanges;
    assert forall|j: int| 0 <= j < r2.len() implies rng_src(#[trigger] r2[j], ts, k + 1) by {
        if j < r1.len() { assert(r2[j] == r1[j]); assert(rng_src(r1[j], ts, k)); let list = choose|list: Str| #[trigger] u_range(ts, k, r1[j].begin, r1[j].end, list) && rng_is(r1[j], r1[j].begin, r1[j].end, list); assert(u_range(ts, k + 1, r1[j].begin, r1[j].end, list)); }
        else { assert(p_range(ts, k, r2[j].begin, r2[j].end, stk(ts, k).last().1)); assert(u_range(ts, k + 1, r2[j].begin, r2[j].end, stk(ts, k).last().1)); }
    }
    assert forall|b: int, e: int, list: Str| #[trigger] u_range(ts, k + 1, b, e, list) && list_some(list) implies has_rng(r2, b, e, list) by {
        if u_range(ts, k, b, e, list) { let j = choose|j: int| 0 <= j < r1.len() && #[trigger] rng_is(r1[j], b, e, list); assert(r2[j] == r1[j]); assert(rng_is(r2[j], b, e, list)); }
        else { assert(p_range(ts, k, b, e, list)); assert(rng_is(r2[r2.len() - 1], b, e, list)); }
    }
}
pub proof fn not_skip(s: Sup, ts: Seq<int>, k: int) requires upto(s, ts, k) ensures !s.skipEntireFile { reveal(upto); }
pub open spec fn others(m: Map<int, Sup>, m0: Map<int, Sup>, id: int) -> bool { forall|f: int| f != id ==> (#[trigger] m.dom().contains(f) <==> m0.dom().contains(f)) && (m.dom().contains(f) ==> m[f] == m0[f]) }
pub proof fn take1<T>(s: Seq<T>, i: int) requires 0 <= i < s.len() ensures s.take(i + 1) == s.take(i).push(s[i]) { assert(s.take(i + 1) =~= s.take(i).push(s[i])); }
pub open spec fn covers(r: Rng, chk: Str, l: int) -> bool { r.begin <= l <= r.end && (r.checksToSkipWildcard.len() == 0 || exists|j: int| 0 <= j < r.checksToSkipWildcard.len() && re_match(#[trigger] r.checksToSkipWildcard[j], chk)) }
pub open spec fn w_says(s: Sup, l: int, chk: Str) -> bool { exists|rx: Str| #[trigger] s.checkWildcardsToSkipByLine.contains((l, rx)) && re_match(rx, chk) }
pub open spec fn sup_says(s: Sup, chk: Str, l: int) -> bool {
    s.skipEntireFile || s.checksToSkip.contains(chk) || s.skipNextLine.contains(l) || s.checksToSkipByLine.contains((l, chk)) || w_says(s, l, chk)
    || exists|j: int| 0 <= j < s.checkWildcardsRanges.len() && covers(#[trigger] s.checkWildcardsRanges[j], chk, l) }
pub open spec fn is_eq(s: Sup, l: int, f: Seq<(int, Str)>) -> bool { forall|x: (int, Str)| #[trigger] f.contains(x) <==> s.checkWildcardsToSkipByLine.contains(x) && x.0 == l }
pub proof fn w_hit(s: Sup, l: int, chk: Str, f: Seq<(int, Str)>, k: int) requires 0 <= k < f.len(), is_eq(s, l, f) ensures re_match(f[k].1, chk) ==> w_says(s, l, chk)
{ assert(f.contains(f[k])); let rx = f[k].1; assert(f[k] == (l, rx)); }
pub proof fn w_none(s: Sup, l: int, chk: Str, f: Seq<(int, Str)>) requires is_eq(s, l, f) ensures (forall|j: int| 0 <= j < f.len() ==> !re_match((#[trigger] f[j]).1, chk)) ==> !w_says(s, l, chk)
{ if w_says(s, l, chk) { let rx = choose|rx: Str| #[trigger] s.checkWildcardsToSkipByLine.contains((l, rx)) && re_match(rx, chk); assert(f.contains((l, rx))); let j = choose|j: int| 0 <= j < f.len() && f[j] == (l, rx); assert(f[j].1 == rx); } }
pub proof fn conclude(s: Sup, ts: Seq<int>, chk: Str, l: int) requires sup_ok(s, ts) ensures suppressed(ts, chk, l) <==> sup_says(s, chk, l)
{
    let n = ts.len() as int; reveal(upto);
    if !s.skipEntireFile {
        if exists|rx: Str| #[trigger] u_wild(ts, n, l, rx) && re_match(rx, chk) { let rx = choose|rx: Str| #[trigger] u_wild(ts, n, l, rx) && re_match(rx, chk); assert(s.checkWildcardsToSkipByLine.contains((l, rx))); }
        if w_says(s, l, chk) { let rx = choose|rx: Str| #[trigger] s.checkWildcardsToSkipByLine.contains((l, rx)) && re_match(rx, chk); assert(u_wild(ts, n, l, rx)); }
        if exists|b: int, e: int, list: Str| #[trigger] u_range(ts, n, b, e, list) && b <= l <= e && list_hits(list, chk) {
            let (b, e, list) = choose|b: int, e: int, list: Str| #[trigger] u_range(ts, n, b, e, list) && b <= l <= e && list_hits(list, chk);
            let j = choose|j: int| 0 <= j < s.checkWildcardsRanges.len() && #[trigger] rng_is(s.checkWildcardsRanges[j], b, e, list);
            let r = s.checkWildcardsRanges[j];
            if list.len() > 0 { let rx = choose|rx: Str| #[trigger] list_rx(list, rx) && re_match(rx, chk); assert(r.checksToSkipWildcard.contains(rx)); let q = choose|q: int| 0 <= q < r.checksToSkipWildcard.len() && r.checksToSkipWildcard[q] == rx; assert(re_match(r.checksToSkipWildcard[q], chk)); }
            assert(covers(r, chk, l));
        }
        if exists|j: int| 0 <= j < s.checkWildcardsRanges.len() && covers(#[trigger] s.checkWildcardsRanges[j], chk, l) {
            let j = choose|j: int| 0 <= j < s.checkWildcardsRanges.len() && covers(#[trigger] s.checkWildcardsRanges[j], chk, l);
            let r = s.checkWildcardsRanges[j]; assert(rng_src(r, ts, n));
            let list = choose|list: Str| #[trigger] u_range(ts, n, r.begin, r.end, list) && rng_is(r, r.begin, r.end, list);
            if r.checksToSkipWildcard.len() > 0 { let q = choose|q: int| 0 <= q < r.checksToSkipWildcard.len() && re_match(#[trigger] r.checksToSkipWildcard[q], chk); assert(r.checksToSkipWildcard.contains(r.checksToSkipWildcard[q])); assert(list_rx(list, r.checksToSkipWildcard[q])); }
            assert(list_hits(list, chk));
        }
    }
}
'''
CONTRACTS = {
 'clazy::splitString(const string &, char)': Fn(params=['str', 'separator'], ensures=['ret == split(str, separator)'], locals={'token': 'Str', 'result': 'Seq<Str>', 'istream': 'IStream'},
    loops=[Loop(inv=['brk0 ==> istream.rest.len() == 0', 'result + split(istream.rest, separator) == split(str, separator)'], dec='istream.rest.len()', before='assert(result + split(istream.rest, separator) =~= split(str, separator));',
                start='lemma_ch_idx(istream.rest, separator);', end='assert(result + split(istream.rest, separator) =~= split(str, separator));', after='assert(result =~= split(str, separator));')]),
 'createRegexFromGlob': Fn(params=['Glob'], ensures=['ret == glob_rx(Glob)', 'Glob_out == Glob'], locals={'RegexText': 'Str'},
    loops=[Loop(inv=['RegexText == L"^" + glob(rng0.take(i0))', 'Glob == Glob_in', 'rng0 == Glob_in'], before='assert(L"^" =~= L"^" + glob(rng0.take(0)));',
                start='assert(rng0.take(i0 + 1).drop_last() =~= rng0.take(i0)); assert(rng0.take(i0 + 1).last() == rng0[i0]);',
                end='assert(RegexText =~= L"^" + glob(rng0.take(i0)));', after='assert(rng0.take(i0) =~= rng0); assert(RegexText.push(36) =~= RegexText + L"$");')]),
 'parseDisabledChecks': Fn(params=['comment', 'parentPosition'], requires=['0 <= parentPosition', 'comment.len() < 0x7fff_ff00'], ensures=['ret == paren(comment, parentPosition)'],
    hints={'return': 'assert(paren(comment, parentPosition) =~= ret);'}),
 'splitDisabledChecksText': Fn(params=['disableText'], ensures=['forall|rx: Str| #[trigger] ret.contains(rx) <==> list_rx(disableText, rx)', 'disableText.len() == 0 ==> ret.len() == 0', 'ret.len() > 0 ==> list_rx(disableText, ret[0])', 'ret.len() == 0 && disableText.len() > 0 ==> !list_some(disableText)'],
    hints={'return': 'if ret.len() > 0 { assert(ret.contains(ret[0])); } else { assert forall|rx: Str| !(#[trigger] list_rx(disableText, rx)) by { assert(!ret.contains(rx)); } }'}, locals={'disabledChecksRegexes': 'Seq<Str>'},
    loops=[Loop(inv=['rng0 == split(disableText, C\',\')', 'forall|rx: Str| #[trigger] disabledChecksRegexes.contains(rx) <==> rx_upto(rng0, i0, rx)'], start='rx_step(rng0, i0);')]),
 'SuppressionManager::parseFile': Fn(params=['id', 'sm', 'lo'], mut=['this'], uses=['ax_len', 'ax_line', 'ax_toks', 'ax_rx', 'ax_rx2', 'ax_rx3'],
    requires=['cache_ok(self_.m_processedFileIDs)', '!self_.m_processedFileIDs.dom().contains(id)'],
    ensures=['cache_ok(self_out.m_processedFileIDs)', 'self_out.m_processedFileIDs.dom().contains(id)'],
    locals={'checkRangeStack': 'Seq<(int, Str)>', 'lexer': 'LexS', 'reachedEnd': 'bool', 'lineNumber': 'int', 'lineNumberToSuppress': 'int'}, rlimit=200,
    hints={'return_loop': 'assert(p_skip(ts, k)); assert(u_skip(ts, ts.len() as int));', 'after:let ghost mut startIdx': 'assert(foundNolint == if has_nol(tx) { nol(tx) } else { -1 }); assert(is_begin(tx) ==> checkRangeStack == stk(ts, k).push((lin(ts, k), btxt(tx)))); assert(closes(ts, k) ==> checkRangeStack == stk(ts, k).drop_last()); assert(!is_begin(tx) && !closes(ts, k) ==> checkRangeStack == stk(ts, k)); assert(checkRangeStack == stk(ts, k + 1)); let sx = self_.m_processedFileIDs[id]; assert(closes(ts, k) && sx.checkWildcardsRanges != s0.checkWildcardsRanges ==> sx.checkWildcardsRanges.drop_last() =~= s0.checkWildcardsRanges); if closes(ts, k) && list_some(stk(ts, k).last().1) { assert(sx.checkWildcardsRanges.len() == s0.checkWildcardsRanges.len() + 1); assert(rng_is(sx.checkWildcardsRanges.last(), stk(ts, k).last().0, lin(ts, k), stk(ts, k).last().1)); } else { assert(sx.checkWildcardsRanges == s0.checkWildcardsRanges); } assert(eff_n(s0, self_.m_processedFileIDs[id], ts, k));', 'return': 'if !has_buf(id) { start_ok(self_.m_processedFileIDs[id], file_toks(id)); } else { not_skip(self_.m_processedFileIDs[id], raw_toks(id), raw_toks(id).len() as int); }'}, #
    loops=[Loop(pre='let ghost ts = raw_toks(id);', inv=['reachedEnd <==> lexer.rest.len() == 0', '0 <= gk(id, lexer) <= ts.len()', 'lexer.rest == ts.skip(gk(id, lexer))', 'self_.m_processedFileIDs.dom().contains(id)',
       'others(self_.m_processedFileIDs, self_in.m_processedFileIDs, id)', 'has_buf(id)', 'upto(self_.m_processedFileIDs[id], ts, gk(id, lexer))', 'checkRangeStack == stk(ts, gk(id, lexer))'], dec='lexer.rest.len()',
       before='start_ok(self_.m_processedFileIDs[id], ts); assert(lexer.rest =~= ts.skip(0));',
       ghost='let ghost k = gk(id, lexer); let ghost s0 = self_.m_processedFileIDs[id]; let ghost tx = tok_text(ts[k]);',
       start='assert(lexer.rest[0] == ts[k]); nol_facts(tx); clazy_facts(tx, str_find(tx, L"clazy:", 0)); not_skip(s0, ts, k);',
       end='assert(lexer.rest =~= ts.skip(k + 1)); let s9 = self_.m_processedFileIDs[id]; advance(s0, s9, ts, k);'),
       Loop(inv=['self_.m_processedFileIDs.dom().contains(id)', 'others(self_.m_processedFileIDs, self_in.m_processedFileIDs, id)', 'self_.m_processedFileIDs[id] == (Sup { checkWildcardsToSkipByLine: self_.m_processedFileIDs[id].checkWildcardsToSkipByLine, ..s0 })',
                 'forall|l: int, rx: Str| #[trigger] self_.m_processedFileIDs[id].checkWildcardsToSkipByLine.contains((l, rx)) <==> s0.checkWildcardsToSkipByLine.contains((l, rx)) || (l == lineNumberToSuppress && rng1.take(i1).contains(rx))'],
            before='assert(rng1.take(0) =~= Seq::<Str>::empty());', start='take1(rng1, i1);', after='assert(rng1.take(i1) =~= rng1);'),
       Loop(pre='let ghost s2 = self_.m_processedFileIDs[id];', inv=['self_.m_processedFileIDs.dom().contains(id)', 'others(self_.m_processedFileIDs, self_in.m_processedFileIDs, id)', 'self_.m_processedFileIDs[id] == (Sup { checksToSkipByLine: self_.m_processedFileIDs[id].checksToSkipByLine, ..s2 })',
                 'forall|l: int, c: Str| #[trigger] self_.m_processedFileIDs[id].checksToSkipByLine.contains((l, c)) <==> s2.checksToSkipByLine.contains((l, c)) || (l == lineNumber && rng2.take(i2).contains(c))'],
            before='assert(rng2.take(0) =~= Seq::<Str>::empty());', start='take1(rng2, i2);', after='assert(rng2.take(i2) =~= rng2);'),
       Loop(pre='let ghost s3 = self_.m_processedFileIDs[id];', inv=['self_.m_processedFileIDs.dom().contains(id)', 'others(self_.m_processedFileIDs, self_in.m_processedFileIDs, id)', 'self_.m_processedFileIDs[id] == (Sup { checksToSkipByLine: self_.m_processedFileIDs[id].checksToSkipByLine, ..s3 })',
                 'forall|l: int, c: Str| #[trigger] self_.m_processedFileIDs[id].checksToSkipByLine.contains((l, c)) <==> s3.checksToSkipByLine.contains((l, c)) || (l == lineNumber + 1 && rng3.take(i3).contains(c))'],
            before='assert(rng3.take(0) =~= Seq::<Str>::empty());', start='take1(rng3, i3);', after='assert(rng3.take(i3) =~= rng3);')]),
 'SuppressionManager::isSuppressed': Fn(params=['checkName', 'loc', 'sm', 'lo'], mut=['this'], uses=['ax_line'], requires=['cache_ok(self_.m_processedFileIDs)'],
    ensures=['cache_ok(self_out.m_processedFileIDs)', 'eff(loc) != 0 && file_of(eff(loc)) != 0 ==> (ret <==> suppressed(file_toks(file_of(eff(loc))), checkName, spell_line(eff(loc))))',
             'file_of(eff(loc)) == 0 ==> !ret'], locals={'wildcard': 'int', 'lineNumber': 'int'},
    hints={'return': 'if file_of(eff(loc_in)) != 0 && eff(loc_in) != 0 { conclude(self_.m_processedFileIDs[fileID], file_toks(fileID), checkName, spell_line(loc)); }'},
    loops=[Loop(inv=['0 <= wildcard <= eqr.len()', 'forall|j: int| 0 <= j < wildcard ==> !re_match((#[trigger] eqr[j]).1, checkName)'], dec='eqr.len() - wildcard',
                start='w_hit(self_.m_processedFileIDs[fileID], lineNumber, checkName, eqr, wildcard);', after='w_none(self_.m_processedFileIDs[fileID], lineNumber, checkName, eqr);'),
           Loop(inv=['rng1 == self_.m_processedFileIDs[fileID].checkWildcardsRanges', 'forall|j: int| 0 <= j < i1 ==> !covers(#[trigger] rng1[j], checkName, lineNumber)'], start='assert(covers(rng1[i1], checkName, lineNumber) || !covers(rng1[i1], checkName, lineNumber));')]),
}
PRELUDE = PRELUDE.replace('KCOMMENT', '4')