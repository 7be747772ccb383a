"""C10: signals, slots and invokables are recognised: AccessSpecifierManager."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
SOURCES = ['src/AccessSpecifierManager.cpp']
CB = 'AccessSpecifierPreprocessorCallbacks'
BYVALUE = [CB]
FIELDS = {'AccessSpecifierManager': ['m_sm', 'm_specifiersMap', 'm_preprocessorCallbacks', 'm_fixitsEnabled', 'm_visitsNonQObjects'],
          CB: ['m_individualSignals', 'm_individualSlots', 'm_invokables', 'm_scriptables', 'm_qtNamespace', 'm_qtAccessSpecifiers', 'm_sm', 'm_lo'],
          'ClazyAccessSpecifier': ['loc', 'accessSpecifier', 'qtAccessSpecifier']}
TV = parse('void'); TB = parse('bool')
EXT = {
 'clang::SourceLocation::isMacroID': 'is_macro({0})', 'clang::SourceManager::getFileLoc': 'file_loc({1})', 'clang::SourceLocation::getRawEncoding': '{0}', 'clang::SourceLocation::getFromRawEncoding': '{1}',
 'clang::operator<': '({1} < {2})', 'clang::operator==': '({1} == {2})', 'clang::SourceLocation::isInvalid': '({0} == 0)', 'clang::SourceLocation::SourceLocation': '0',
 'clang::Decl::getBeginLoc': 'dbegin({0})', 'clang::DeclaratorDecl::getBeginLoc': 'dbegin({0})', 'clang::TypeDecl::getBeginLoc': 'dbegin({0})', 'clang::Decl::getEndLoc': 'dend({0})', 'clang::Decl::getLocation': 'dname({0})', 'clang::Decl::isImplicit': 'is_implicit({0})', 'clang::Decl::getAsFunction': 'as_function({0})',
 'clang::DeclContext::decls': 'decl_range({0})', 'clazy::isQObject': lambda tr, o, vs, t: V(f'is_qobject({vs[0].e}, {tr.to_str(vs[1])})', TB),
 'clang::Decl::getDeclContext': 'context_of({0})', 'clang::Decl::getAccess': 'access_of({0})', 'clang::CXXMethodDecl::getCanonicalDecl': 'canonical({0})', 'clang::CXXMethodDecl::getParent': 'parent_of({0})',
 'clang::FunctionDecl::isTemplateInstantiation': 'is_instantiation({0})',
 'clang::Token::getIdentifierInfo': 'ident({0})', 'clang::IdentifierInfo::getName': 'ident_name({0})', 'clang::SourceRange::getBegin': 'range_begin({0})',
}
PRELUDE = r"""
type AM = R_AccessSpecifierManager; type CB = R_AccessSpecifierPreprocessorCallbacks; type SP = R_ClazyAccessSpecifier;
pub uninterp spec fn is_macro(l: int) -> bool;
pub uninterp spec fn file_loc(l: int) -> int;
pub uninterp spec fn dbegin(d: int) -> int;
pub uninterp spec fn dend(d: int) -> int;
pub uninterp spec fn dname(d: int) -> int;
pub uninterp spec fn is_implicit(d: int) -> bool;
pub uninterp spec fn as_function(d: int) -> int;
pub uninterp spec fn decl_range(d: int) -> int;
pub open spec fn decls(d: int) -> Seq<int> { u_elements_1(decl_range(d)) }
pub uninterp spec fn is_qobject(d: int, ns: Str) -> bool;
pub uninterp spec fn context_of(d: int) -> int;
pub uninterp spec fn access_of(d: int) -> int;
pub uninterp spec fn canonical(d: int) -> int;
pub uninterp spec fn parent_of(d: int) -> int;
pub uninterp spec fn is_instantiation(d: int) -> bool;
pub uninterp spec fn ident(t: int) -> int;
pub uninterp spec fn ident_name(i: int) -> Str;
pub uninterp spec fn range_begin(r: int) -> int;
pub broadcast axiom fn decl_ok(r: int, i: int) ensures 0 <= i < decls(r).len() ==> #[trigger] decls(r)[i] != 0;
pub broadcast axiom fn canon_ok(d: int) ensures d != 0 ==> #[trigger] canonical(d) != 0;
/// a location outside of macros is a place of a file
pub broadcast axiom fn file_ok(l: int) ensures #![trigger file_loc(l)] #![trigger is_macro(l)] !is_macro(l) ==> file_loc(l) == l;
/// order in which specifiers take effect: as written; one that a macro expands to comes before the macro's own
pub open spec fn before(a: int, b: int) -> bool { file_loc(a) < file_loc(b) || (file_loc(a) == file_loc(b) && is_macro(a)) }
pub open spec fn acc_before(a: SP, b: SP, sm: int) -> bool { before(a.loc, b.loc) }
pub open spec fn le(a: int, b: int) -> bool { file_loc(a) < file_loc(b) || (file_loc(a) == file_loc(b) && (is_macro(a) || !is_macro(b))) }
pub open spec fn sorted(v: Seq<SP>) -> bool { forall|i: int, j: int| #![trigger v[i], v[j]] 0 <= i < j < v.len() ==> le(v[i].loc, v[j].loc) }
pub open spec fn all_sorted(m: Map<int, Seq<SP>>) -> bool { forall|r: int| #[trigger] m.dom().contains(r) ==> sorted(m[r]) }
pub open spec fn holds(v: Seq<SP>, x: SP) -> bool { v.contains(x) }
pub open spec fn is_method(d: int) -> bool { !is_implicit(d) && as_function(d) != 0 && u_isa_clang_CXXMethodDecl_1(as_function(d)) }
/// end of the last of the first n declarations of a class
pub open spec fn prev_end(r: int, ds: Seq<int>) -> int decreases ds.len() { if ds.len() == 0 { dname(r) } else if is_implicit(ds.last()) { prev_end(r, ds.drop_last()) } else { max_int(prev_end(r, ds.drop_last()), file_loc(dend(ds.last()))) } }
/// a mark belongs to the method whose declaration it is in, before the name: from then on it stands for its beginning
pub open spec fn marks(r: int, ds: Seq<int>, m: int) -> int decreases ds.len() {
    if ds.len() == 0 { m } else { let v = marks(r, ds.drop_last(), m); let f = as_function(ds.last());
        if is_method(ds.last()) && prev_end(r, ds.drop_last()) < v < file_loc(dname(f)) { dbegin(f) } else { v } } }
pub open spec fn all_marked(r: int, ds: Seq<int>, m0: Seq<int>, m1: Seq<int>) -> bool { m1.len() == m0.len() && forall|i: int| 0 <= i < m0.len() ==> #[trigger] m1[i] == marks(r, ds, m0[i]) }
pub open spec fn max_int(a: int, b: int) -> int { if a < b { b } else { a } }
pub open spec fn marks_of(r: int, ds: Seq<int>, a: CB, b: CB) -> bool {
    all_marked(r, ds, a.m_individualSignals, b.m_individualSignals) && all_marked(r, ds, a.m_individualSlots, b.m_individualSlots) && all_marked(r, ds, a.m_invokables, b.m_invokables) && all_marked(r, ds, a.m_scriptables, b.m_scriptables) }
pub open spec fn in_member(d: int, l: int) -> bool { !is_implicit(d) && !u_isa_clang_AccessSpecDecl_1(d) && file_loc(dbegin(d)) < l < file_loc(dend(d)) }
/// in the body of the class itself
pub open spec fn directly_in(r: int, l: int) -> bool { dbegin(r) < l < dend(r) && forall|i: int| 0 <= i < decls(r).len() ==> !in_member(#[trigger] decls(r)[i], l) }
pub open spec fn own_access(r: int, d: int) -> bool { u_isa_clang_AccessSpecDecl_1(d) && context_of(d) == r }
pub open spec fn access_spec(d: int) -> SP { SP { loc: dbegin(d), accessSpecifier: access_of(d), qtAccessSpecifier: 0 } }
/// the specifiers of a class: those it had, signals/slots sections written directly in it, access specifiers
pub open spec fn is_spec_of(r: int, old: Seq<SP>, qt: Seq<SP>, x: SP) -> bool {
    old.contains(x) || (qt.contains(x) && directly_in(r, x.loc)) || exists|i: int| 0 <= i < decls(r).len() && own_access(r, #[trigger] decls(r)[i]) && x == access_spec(decls(r)[i]) }
pub open spec fn spec_so_far(r: int, n: int, old: Seq<SP>, qt: Seq<SP>, x: SP) -> bool {
    old.contains(x) || (qt.contains(x) && directly_in(r, x.loc)) || exists|i: int| 0 <= i < n && own_access(r, #[trigger] decls(r)[i]) && x == access_spec(decls(r)[i]) }
pub open spec fn rest_same(a: AM, b: AM) -> bool { b == (AM { m_preprocessorCallbacks: CB { m_individualSignals: b.m_preprocessorCallbacks.m_individualSignals, m_individualSlots: b.m_preprocessorCallbacks.m_individualSlots, m_invokables: b.m_preprocessorCallbacks.m_invokables, m_scriptables: b.m_preprocessorCallbacks.m_scriptables, ..a.m_preprocessorCallbacks }, ..a }) }
pub broadcast proof fn lemma_inserted(s: Seq<SP>, k: int, y: SP, x: SP) requires 0 <= k <= s.len() ensures #![trigger s.insert(k, y).contains(x)] s.insert(k, y).contains(x) <==> s.contains(x) || x == y
{ let t = s.insert(k, y); if t.contains(x) { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; if j < k { assert(s[j] == x); } else if j > k { assert(s[j - 1] == x); } }
  if s.contains(x) { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < k { assert(t[j] == x); } else { assert(t[j + 1] == x); } }
  if x == y { assert(t[k] == x); } }
pub open spec fn specs_of(m: Map<int, Seq<SP>>, r: int) -> Seq<SP> { if m.dom().contains(r) { m[r] } else { Seq::empty() } }
pub proof fn next_spec(r: int, n: int, old: Seq<SP>, qt: Seq<SP>) requires 0 <= n < decls(r).len()
    ensures forall|x: SP| #[trigger] spec_so_far(r, n + 1, old, qt, x) <==> spec_so_far(r, n, old, qt, x) || (own_access(r, decls(r)[n]) && x == access_spec(decls(r)[n]))
{ assert forall|x: SP| #[trigger] spec_so_far(r, n + 1, old, qt, x) <==> spec_so_far(r, n, old, qt, x) || (own_access(r, decls(r)[n]) && x == access_spec(decls(r)[n])) by {
    if own_access(r, decls(r)[n]) && x == access_spec(decls(r)[n]) { assert(0 <= n < n + 1); } } }
pub open spec fn others_same(a: Map<int, Seq<SP>>, b: Map<int, Seq<SP>>, r: int) -> bool { forall|k: int| k != r ==> (#[trigger] b.dom().contains(k) == a.dom().contains(k) && (a.dom().contains(k) ==> b[k] == a[k])) }
pub open spec fn is_visited(am: AM, r: int) -> bool { is_qobject(r, am.m_preprocessorCallbacks.m_qtNamespace) || (am.m_fixitsEnabled && am.m_visitsNonQObjects) }
pub proof fn removed_all(s: Seq<SP>, k: int) requires 0 <= k < s.len() ensures forall|x: SP| #[trigger] (s.take(k) + s.skip(k + 1)).contains(x) ==> s.contains(x), forall|x: SP| #[trigger] s.contains(x) ==> (s.take(k) + s.skip(k + 1)).contains(x) || x == s[k]
{ let t = s.take(k) + s.skip(k + 1);
  assert forall|x: SP| #[trigger] t.contains(x) implies s.contains(x) by { let j = choose|j: int| 0 <= j < t.len() && t[j] == x; if j < k { assert(s[j] == x); } else { assert(s[j + 1] == x); } }
  assert forall|x: SP| #[trigger] s.contains(x) implies t.contains(x) || x == s[k] by { if x != s[k] { let j = choose|j: int| 0 <= j < s.len() && s[j] == x; if j < k { assert(t[j] == x); } else { assert(t[j - 1] == x); } } } }
pub open spec fn mem(m: Seq<int>, x: int) -> bool { m.contains(x) }
/// what the section that a method is in says
pub open spec fn in_section(v: Seq<SP>, k: int, l: int) -> bool { 0 <= k < v.len() && !before(l, v[k].loc) && (k + 1 < v.len() ==> before(l, v[k + 1].loc)) }
pub open spec fn section_says(v: Seq<SP>, l: int, q: int) -> bool {
    ((v.len() == 0 || before(l, v[0].loc)) ==> q == 0) && forall|k: int| #[trigger] in_section(v, k, l) ==> q == v[k].qtAccessSpecifier }
pub broadcast proof fn lemma_names(i: int) ensures #![trigger ident_name(i)] L"slots".len() == 5, L"Q_SLOTS".len() == 7, L"signals".len() == 7, L"Q_SIGNALS".len() == 9, L"Q_SIGNAL".len() == 8, L"Q_SLOT".len() == 6, L"Q_INVOKABLE".len() == 11, L"Q_SCRIPTABLE".len() == 12, L"signals"[0] == 115, L"Q_SLOTS"[0] == 81 { }
/// what a macro that is expanded says; one that comes from another macro says nothing
pub open spec fn expanded(a: CB, b: CB, id: int, l: int) -> bool {
    let n = ident_name(id); let on = id != 0 && !is_macro(l);
    b == (CB { m_individualSignals: if on && n == L"Q_SIGNAL" { a.m_individualSignals.push(l) } else { a.m_individualSignals },
        m_individualSlots: if on && n == L"Q_SLOT" { a.m_individualSlots.push(l) } else { a.m_individualSlots },
        m_invokables: if on && n == L"Q_INVOKABLE" { a.m_invokables.push(l) } else { a.m_invokables },
        m_scriptables: if on && n == L"Q_SCRIPTABLE" { a.m_scriptables.push(l) } else { a.m_scriptables },
        m_qtAccessSpecifiers: if on && (n == L"slots" || n == L"Q_SLOTS") { a.m_qtAccessSpecifiers.push(SP { loc: l, accessSpecifier: 3, qtAccessSpecifier: 2 }) } else if on && (n == L"signals" || n == L"Q_SIGNALS") { a.m_qtAccessSpecifiers.push(SP { loc: l, accessSpecifier: 3, qtAccessSpecifier: 3 }) } else { a.m_qtAccessSpecifiers }, ..a }) }
pub open spec fn judged(m: int) -> bool { m != 0 && !is_macro(dbegin(m)) }
pub open spec fn moc_class(m: int) -> bool { parent_of(m) != 0 && !u_isa_clang_ClassTemplateSpecializationDecl_1(parent_of(m)) && !is_instantiation(m) }
/// 0 nothing, 1 unknown, 2 slot, 3 signal, 4 invokable
pub open spec fn role(am: AM, m0: int, q: int) -> bool {
    let m = canonical(m0); let l = dbegin(m); let c = am.m_preprocessorCallbacks;
    if !judged(m0) { q == 1 } else if !moc_class(m) { q == 0 } else if c.m_individualSignals.contains(l) { q == 3 } else if c.m_individualSlots.contains(l) { q == 2 } else if c.m_invokables.contains(l) { q == 4 }
    else if am.m_specifiersMap.dom().contains(parent_of(m)) { section_says(am.m_specifiersMap[parent_of(m)], l, q) } else { q == 0 } }
pub proof fn step(s: Seq<int>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
"""
F = Fn
def notin(v, n=0): return Loop(inv=[f'rng{n} == self_.m_preprocessorCallbacks.{v}', f'forall|j: int| 0 <= j < i{n} ==> #[trigger] rng{n}[j] != methodLoc'])
CONTRACTS = {
 'accessSpecifierCompare': F(params=['lhs', 'rhs', 'sm'], mut=[], pure='acc_before', uses=['file_ok'], ensures=['ret == before(lhs.loc, rhs.loc)']),
 'sorted_insert': F(params=['v', 'item', 'sm'], mut=[0], uses=['file_ok', 'lemma_inserted'], requires=['sorted(v)'], ensures=['sorted(v_out)', 'v_out.len() == v.len() + 1', 'forall|x: SP| #[trigger] v_out.contains(x) <==> v.contains(x) || x == item']),
 'resolveMarkers': F(params=['markers', 'after', 'before', 'methodLoc'], mut=[0], ensures=['markers_out.len() == markers.len()', 'forall|i: int| 0 <= i < markers.len() ==> #[trigger] markers_out[i] == (if after < markers[i] < before { methodLoc } else { markers[i] })'],
    loops=[Loop(inv=['markers.len() == markers_in.len()', 'forall|j: int| 0 <= j < i0 ==> #[trigger] markers[j] == (if after < markers_in[j] < before { methodLoc } else { markers_in[j] })', 'forall|j: int| i0 <= j < markers.len() ==> #[trigger] markers[j] == markers_in[j]'], start='if i0 < markers.len() { assert(markers[i0] == markers_in[i0]); }')]),
 'AccessSpecifierManager::resolveMarkersOfMethods': F(params=['record'], mut=['this'], uses=['decl_ok'], requires=['record != 0'], ensures=['marks_of(record, decls(record), self_.m_preprocessorCallbacks, self_out.m_preprocessorCallbacks)', 'rest_same(self_, self_out)'],
    loops=[Loop(inv=['rng0 == decls(record)', 'previousEnd == prev_end(record, decls(record).take(i0))', 'marks_of(record, decls(record).take(i0), self_in.m_preprocessorCallbacks, self_.m_preprocessorCallbacks)', 'rest_same(self_in, self_)'], start='step(decls(record), i0);', before='assert(decls(record).take(0) =~= Seq::<int>::empty());', after='assert(decls(record).take(decls(record).len() as int) =~= decls(record));')]),
 'AccessSpecifierManager::isDirectlyInClass': F(params=['loc', 'record'], mut=[], uses=['decl_ok'], requires=['record != 0'], ensures=['ret == directly_in(record, loc)'],
    loops=[Loop(inv=['rng0 == decls(record)', 'forall|j: int| 0 <= j < i0 ==> !in_member(#[trigger] decls(record)[j], loc)'])]),
 'AccessSpecifierManager::VisitDeclaration': F(params=['decl'], mut=['this'], uses=['decl_ok', 'file_ok'], requires=['decl != 0', 'all_sorted(self_.m_specifiersMap)'],
    ensures=['all_sorted(self_out.m_specifiersMap)', '!u_isa_clang_CXXRecordDecl_1(decl) ==> self_out == self_', 'u_isa_clang_CXXRecordDecl_1(decl) ==> marks_of(decl, decls(decl), self_.m_preprocessorCallbacks, self_out.m_preprocessorCallbacks)',
      'u_isa_clang_CXXRecordDecl_1(decl) && !is_visited(self_, decl) ==> self_out.m_specifiersMap == self_.m_specifiersMap && self_out.m_preprocessorCallbacks.m_qtAccessSpecifiers == self_.m_preprocessorCallbacks.m_qtAccessSpecifiers',
      'u_isa_clang_CXXRecordDecl_1(decl) && is_visited(self_, decl) ==> others_same(self_.m_specifiersMap, self_out.m_specifiersMap, decl) && self_out.m_specifiersMap.dom().contains(decl)',
      'u_isa_clang_CXXRecordDecl_1(decl) && is_visited(self_, decl) ==> forall|x: SP| #[trigger] self_out.m_specifiersMap[decl].contains(x) <==> is_spec_of(decl, specs_of(self_.m_specifiersMap, decl), self_.m_preprocessorCallbacks.m_qtAccessSpecifiers, x)',
      'u_isa_clang_CXXRecordDecl_1(decl) && is_visited(self_, decl) ==> forall|x: SP| #[trigger] self_out.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x) <==> self_.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x) && !directly_in(decl, x.loc)'],
    loops=[Loop(inv=['record == decl && record != 0', 'others_same(self_in.m_specifiersMap, self_.m_specifiersMap, record) && self_.m_specifiersMap.dom().contains(record)', 'all_sorted(self_.m_specifiersMap)', 'marks_of(record, decls(record), self_in.m_preprocessorCallbacks, self_.m_preprocessorCallbacks)',
        '0 <= it <= self_.m_preprocessorCallbacks.m_qtAccessSpecifiers.len()',
        'forall|j: int| 0 <= j < it ==> !directly_in(record, (#[trigger] self_.m_preprocessorCallbacks.m_qtAccessSpecifiers[j]).loc)',
        'forall|x: SP| #[trigger] self_.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x) ==> self_in.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x)',
        'forall|x: SP| #[trigger] self_in.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x) ==> self_.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x) || (directly_in(record, x.loc) && self_.m_specifiersMap[record].contains(x))',
        'is_visited(self_in, record)', 'forall|x: SP| #[trigger] specs_of(self_in.m_specifiersMap, record).contains(x) ==> self_.m_specifiersMap[record].contains(x)',
        'forall|x: SP| #[trigger] self_.m_specifiersMap[record].contains(x) ==> specs_of(self_in.m_specifiersMap, record).contains(x) || (self_in.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x) && directly_in(record, x.loc))'],
        start='let q = self_.m_preprocessorCallbacks.m_qtAccessSpecifiers; if it < q.len() { assert(q.contains(q[it])); removed_all(q, it); }', dec='self_.m_preprocessorCallbacks.m_qtAccessSpecifiers.len() - it'),
      Loop(inv=['rng1 == decls(record)', 'record == decl && record != 0', 'is_visited(self_in, record)', 'marks_of(record, decls(record), self_in.m_preprocessorCallbacks, self_.m_preprocessorCallbacks)', 'forall|x: SP| #[trigger] self_.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x) <==> self_in.m_preprocessorCallbacks.m_qtAccessSpecifiers.contains(x) && !directly_in(record, x.loc)', 'others_same(self_in.m_specifiersMap, self_.m_specifiersMap, record) && self_.m_specifiersMap.dom().contains(record)', 'all_sorted(self_.m_specifiersMap)',
        'forall|x: SP| #[trigger] self_.m_specifiersMap[record].contains(x) <==> spec_so_far(record, i1, specs_of(self_in.m_specifiersMap, record), self_in.m_preprocessorCallbacks.m_qtAccessSpecifiers, x)'], start='next_spec(record, i1, specs_of(self_in.m_specifiersMap, record), self_in.m_preprocessorCallbacks.m_qtAccessSpecifiers);')]),
 'AccessSpecifierManager::qtAccessSpecifierType': F(params=['method'], mut=[], uses=['canon_ok', 'file_ok'], requires=['all_sorted(self_.m_specifiersMap)'], ensures=['role(self_, method, ret)'],
    loops=[notin('m_individualSignals'), notin('m_individualSlots', 1), notin('m_invokables', 2)]),
 'AccessSpecifierManager::isScriptable': F(params=['method'], mut=[], ensures=['ret == (judged(method) && self_.m_preprocessorCallbacks.m_scriptables.contains(dbegin(method)))'], loops=[notin('m_scriptables')]),
 CB + '::MacroExpands': F(params=['MacroNameTok', 'def', 'range', 'args'], mut=['this'], uses=['lemma_names'], ensures=['expanded(self_, self_out, ident(MacroNameTok), range_begin(range))']),
}
