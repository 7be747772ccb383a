"""C03: which warnings get through: path, header and line filters, only-qt, and the gate of emitWarning."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
SOURCES = ['src/ClazyContext.cpp', 'src/checkbase.cpp', 'src/Utils.cpp']
FIELDS = {'ClazyContext::LineRange': ['start', 'end'], 'ClazyContext::LineFilterEntry': ['fileName', 'lineRanges'],
          'ClazyContext': ['m_lineFilter', 'headerFilterRegex', 'ignoreDirsRegex', 'm_checksPromotedToErrors', 'options', 'extraOptions', 'm_isClangTidy', 'm_noWerror', 'astContext', 'm_pp'],
          'CheckBase': ['m_name', 'm_emittedWarningsInMacro', 'm_emittedManualFixItsWarningsInMacro', 'm_queuedManualInterventionWarnings', 'm_filesToIgnore', 'm_context']}
TYPEMAP = {'llvm::Expected': 'Option<int>'}
UNINTERP = {'elements': (['int'], 'Seq<int>')}
BYVALUE = ['ClazyContext']
TB = parse('bool')
TS = parse('std::basic_string<char>')
def report(tr, o, vs, t):
    name, loc, sev, err, fix = vs
    tr.assign(('var', 'log'), f'log.push(Rep {{ check: {tr.to_str(name)}, loc: {loc.e}, sev: {sev.e}, text: {tr.to_str(err)}, fixits: {fix.e} }})')
    return V('()', parse('void'))
EXT = {
 'llvm::json::parse': 'j_parse({1})', 'llvm::Expected<llvm::json::Value>::operator bool': '({0} is Some)',
 'llvm::Expected<llvm::json::Value>::operator->': ('({0}->0)', '{0} is Some'),
 'llvm::json::Value::getAsArray': 'j_array({0})', 'llvm::json::Value::getAsObject': 'j_object({0})', 'llvm::json::Object::getString': 'j_str({0}, {1})', 'llvm::json::Object::getArray': 'j_arr({0}, {1})',
 'llvm::json::Value::getAsInteger': 'j_int({0})', 'llvm::json::Array::size': '(elems({0}).len() as int)',
 'llvm::json::Array::operator[]': ('elems({0})[{1}]', '0 <= {1} < elems({0}).len()'),
 'clang::SourceManager::getPresumedLoc': 'presumed({1})', 'clang::PresumedLoc::isInvalid': '(!pl_valid({0}))', 'clang::PresumedLoc::isValid': 'pl_valid({0})',
 'clang::PresumedLoc::getFilename': ('Some(pl_file({0}))', 'pl_valid({0})'), 'clang::PresumedLoc::getLine': ('pl_line({0})', 'pl_valid({0})'), 'clang::PresumedLoc::getColumn': ('pl_col({0})', 'pl_valid({0})'),
 'clang::SourceManager::getDecomposedExpansionLoc': '(exp_file({1}), exp_off({1}))', 'clang::SourceManager::getFileEntryRefForID': 'entry_of({1})', 'clang::FileEntryRef::getName': 'entry_name({0})',
 'llvm::Regex::match': 're_match({0}, {1})', 'clang::SourceLocation::isMacroID': 'is_macro({0})', 'clang::SourceLocation::isFileID': '(!is_macro({0}))', 'clang::SourceManager::getExpansionLoc': 'expansion({1})',
 'clang::SourceManager::isInFileID': 'in_file({1}, {2})', 'clang::SourceManager::getMainFileID': 'main_file()', 'clang::SourceLocation::getRawEncoding': '{0}', 'clang::SourceLocation::getFromRawEncoding': '{1}',
 'SuppressionManager::isSuppressed': 'suppressed({1}, {2})',
 'clang::ASTContext::getDiagnostics': '({0})', 'clang::DiagnosticsEngine::getWarningsAsErrors': 'werror()',
 'clang::PreprocessorOptions::Macros': 'macros({0})', 'clang::SourceManager::getFilename': 'file_name({1})', 'clang::SourceLocation::isValid': '({0} != 0)', 'clang::SourceLocation::isInvalid': '({0} == 0)',
 'clang::SourceManager::isInMainFile': 'in_file(expansion({1}), main_file())',
}
for _k in ('std::function<void (string, const clang::SourceLocation &, clang::DiagnosticIDs::Level, string, const std::vector<clang::FixItHint> &)>::operator()',): EXT[_k] = report
PRELUDE = r'''
type CX = R_ClazyContext; type LR = R_ClazyContext_LineRange; type LE = R_ClazyContext_LineFilterEntry; type CB = R_CheckBase;
pub struct Rep { pub check: Str, pub loc: int, pub sev: int, pub text: Str, pub fixits: Seq<int> }
// JSON document of -line-filter
pub uninterp spec fn j_parse(s: Str) -> Option<int>;
pub uninterp spec fn j_array(v: int) -> int;      // 0: not an array
pub uninterp spec fn j_object(v: int) -> int;
pub uninterp spec fn j_str(o: int, k: Str) -> Option<Str>;
pub uninterp spec fn j_arr(o: int, k: Str) -> int;
pub uninterp spec fn j_int(v: int) -> Option<int>;
// locations
pub uninterp spec fn presumed(l: int) -> int;
pub uninterp spec fn pl_valid(p: int) -> bool;
pub uninterp spec fn pl_file(p: int) -> Str;
pub uninterp spec fn pl_line(p: int) -> int;
pub uninterp spec fn pl_col(p: int) -> int;
pub uninterp spec fn exp_file(l: int) -> int;
pub uninterp spec fn exp_off(l: int) -> int;
pub uninterp spec fn entry_of(f: int) -> int;     // 0: no file entry
pub uninterp spec fn entry_name(e: int) -> Str;
pub uninterp spec fn re_match(rx: int, s: Str) -> bool;
pub uninterp spec fn is_macro(l: int) -> bool;
pub uninterp spec fn expansion(l: int) -> int;
pub uninterp spec fn in_file(l: int, f: int) -> bool;
pub uninterp spec fn main_file() -> int;
pub uninterp spec fn suppressed(c: Str, l: int) -> bool;
pub uninterp spec fn macros(p: int) -> Seq<(Str, bool)>;
pub uninterp spec fn file_name(l: int) -> Str;
pub uninterp spec fn werror() -> bool;

// ---- line filter
pub open spec fn elems(a: int) -> Seq<int> { u_elements_1(a) }
pub open spec fn is_range(v: int) -> bool { let a = j_array(v); a != 0 && elems(a).len() == 2 && j_int(elems(a)[0]) is Some && j_int(elems(a)[1]) is Some }
pub open spec fn clampu(x: int) -> int { if x < 0 { 0 } else if x > 4294967295 { 4294967295 } else { x } }
pub open spec fn range_of(v: int) -> LR { LR { start: clampu(j_int(elems(j_array(v))[0])->0), end: clampu(j_int(elems(j_array(v))[1])->0) } }
pub open spec fn ranges(s: Seq<int>) -> Seq<LR> decreases s.len() { if s.len() == 0 { Seq::<LR>::empty() } else if is_range(s.last()) { ranges(s.drop_last()).push(range_of(s.last())) } else { ranges(s.drop_last()) } }
pub open spec fn is_entry(v: int) -> bool { j_object(v) != 0 && j_str(j_object(v), L"name") is Some }
pub open spec fn entry(v: int) -> LE { let o = j_object(v); LE { fileName: j_str(o, L"name")->0, lineRanges: if j_arr(o, L"lines") == 0 { Seq::<LR>::empty() } else { ranges(elems(j_arr(o, L"lines"))) } } }
pub open spec fn entries(s: Seq<int>) -> Seq<LE> decreases s.len() { if s.len() == 0 { Seq::<LE>::empty() } else if is_entry(s.last()) { entries(s.drop_last()).push(entry(s.last())) } else { entries(s.drop_last()) } }
pub proof fn take_step(s: Seq<int>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
/// the last -D or -U of the macro counts
pub open spec fn qt_macro(s: Str) -> bool { s.take(ch_idx(s, C'=')) == L"QT_CORE_LIB" }
pub open spec fn qt_defined(s: Seq<(Str, bool)>) -> bool decreases s.len() { if s.len() == 0 { false } else if qt_macro(s.last().0) { !s.last().1 } else { qt_defined(s.drop_last()) } }
pub proof fn m_step(s: Seq<(Str, bool)>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
pub open spec fn in_range(line: int, r: LR) -> bool { r.start <= line <= r.end }
pub open spec fn entry_ok(file: Str, line: int, e: LE) -> bool { str_ends_with(file, e.fileName) && (e.lineRanges.len() == 0 || exists|i: int| 0 <= i < e.lineRanges.len() && in_range(line, #[trigger] e.lineRanges[i])) }
pub open spec fn line_ok(cx: CX, loc: int) -> bool { cx.m_lineFilter.len() == 0 || !pl_valid(presumed(loc)) || exists|i: int| 0 <= i < cx.m_lineFilter.len() && entry_ok(pl_file(presumed(loc)), pl_line(presumed(loc)), #[trigger] cx.m_lineFilter[i]) }
// ---- paths
pub open spec fn file_at(l: int) -> int { entry_of(exp_file(l)) }
pub open spec fn in_main(l: int) -> bool { in_file(if is_macro(l) { expansion(l) } else { l }, main_file()) }
pub open spec fn ignored(cx: CX, l: int) -> bool {
    let f = file_at(l);
    ||| cx.ignoreDirsRegex != 0 && f != 0 && re_match(cx.ignoreDirsRegex, entry_name(f))
    ||| cx.headerFilterRegex != 0 && !in_main(l) && f != 0 && !re_match(cx.headerFilterRegex, entry_name(f)) }
// ---- gate
pub open spec fn same_place(a: int, b: int) -> bool { pl_valid(presumed(a)) && pl_valid(presumed(b)) && pl_file(presumed(a)) == pl_file(presumed(b)) && pl_line(presumed(a)) == pl_line(presumed(b)) && pl_col(presumed(a)) == pl_col(presumed(b)) }
pub open spec fn seen(s: Seq<int>, l: int) -> bool { exists|i: int| 0 <= i < s.len() && same_place(#[trigger] s[i], l) }
pub open spec fn gate(self_: CB, loc: int) -> bool { !suppressed(self_.m_name, loc) && !ignored(self_.m_context, loc) && line_ok(self_.m_context, loc) && !(is_macro(loc) && seen(self_.m_emittedWarningsInMacro, loc)) }
// ---- text, severity
pub open spec fn tag_of(self_: CB) -> Str { if self_.m_context.m_isClangTidy { Seq::<int>::empty() } else { L" [-Wclazy-" + self_.m_name + seq![93int] } }
pub open spec fn sev_of(self_: CB) -> int { if self_.m_context.m_checksPromotedToErrors.contains(self_.m_name) || (self_.m_context.astContext != 0 && werror() && !self_.m_context.m_noWerror) { ERR } else { WARN } }
pub open spec fn rep(self_: CB, loc: int, text: Str, fx: Seq<int>) -> Rep { Rep { check: self_.m_name, loc: loc, sev: sev_of(self_), text: text, fixits: fx } }
pub open spec fn manual_text(self_: CB, m: Str) -> Str { (if m.len() == 0 { L"FixIt failed, requires manual intervention: " } else { L"FixIt failed, requires manual intervention: " + (seq![32int] + m) }) + tag_of(self_) }
pub open spec fn manuals(self_: CB, q: Seq<(int, Str)>) -> Seq<Rep> decreases q.len() { if q.len() == 0 { Seq::<Rep>::empty() } else { manuals(self_, q.drop_last()).push(rep(self_, q.last().0, manual_text(self_, q.last().1), Seq::<int>::empty())) } }
pub proof fn frame(a: CB, b: CB, q: Seq<(int, Str)>) requires a.m_name == b.m_name, a.m_context == b.m_context ensures manuals(a, q) == manuals(b, q) decreases q.len() { if q.len() > 0 { frame(a, b, q.drop_last()); } }
pub proof fn q_step(s: Seq<(int, Str)>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
pub open spec fn full_text(self_: CB, error: Str, tagged: bool) -> Str { if tagged { error + tag_of(self_) } else { error } }
/// what one call of emitWarning does
pub open spec fn emits(self_: CB, loc: int, error: Str, fx: Seq<int>, tagged: bool) -> Seq<Rep> {
    if gate(self_, loc) { seq![rep(self_, loc, full_text(self_, error, tagged), fx)] + manuals(self_, self_.m_queuedManualInterventionWarnings) } else { Seq::<Rep>::empty() } }
pub open spec fn after(self_: CB, loc: int) -> CB {
    if !gate(self_, loc) { self_ } else { CB { m_emittedWarningsInMacro: if is_macro(loc) { self_.m_emittedWarningsInMacro.push(loc) } else { self_.m_emittedWarningsInMacro }, m_queuedManualInterventionWarnings: Seq::<(int, Str)>::empty(), ..self_ } } }
'''.replace('ERR', '4').replace('WARN', '3')
LOG = {'log': 'Seq<Rep>'}
F = Fn
CONTRACTS = {
 'parseLineFilter': F(params=['lineFilter'], ensures=['ret == (if j_parse(lineFilter) is None || j_array(j_parse(lineFilter)->0) == 0 { Seq::<LE>::empty() } else { entries(elems(j_array(j_parse(lineFilter)->0))) })'],
    locals={'result': 'Seq<LE>', 'entry': 'LE'},
    loops=[Loop(inv=['rng0 == elems(files)', 'result == entries(rng0.take(i0))'], before='assert(rng0.take(0) =~= Seq::<int>::empty());', start='take_step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);'),
           Loop(inv=['rng1 == elems(lines)', 'entry.lineRanges == ranges(rng1.take(i1))', 'entry.fileName == name->0'], before='assert(rng1.take(0) =~= Seq::<int>::empty());', start='take_step(rng1, i1);', after='assert(rng1.take(i1) =~= rng1);')]),
 'ClazyContext::passesLineFilter': F(params=['loc'], ensures=['ret <==> line_ok(self_, loc)'],
    loops=[Loop(inv=['forall|j: int| 0 <= j < i0 ==> !entry_ok(fileName, line, #[trigger] self_.m_lineFilter[j])'], start='assert(rng0[i0] == self_.m_lineFilter[i0]);'),
           Loop(inv=['forall|j: int| 0 <= j < i1 ==> !in_range(line, #[trigger] entry.lineRanges[j])'], start='assert(rng1[i1] == entry.lineRanges[i1]);')]),
 'ClazyContext::fileMatchesLoc': F(params=['regex', 'loc', 'file'], requires=['file == 0 || file == file_at(loc)'],
    ensures=['regex == 0 ==> !ret && file_out == file', 'regex != 0 ==> file_out == file_at(loc) && (ret <==> file_at(loc) != 0 && re_match(regex, entry_name(file_at(loc))))']),
 'ClazyContext::shouldIgnoreFile': F(params=['loc'], ensures=['ret <==> ignored(self_, loc)']),
 'ClazyContext::isMainFile': F(params=['loc'], ensures=['ret <==> in_main(loc)']),
 'ClazyContext::treatAsError': F(params=['checkName'], ensures=['ret <==> self_.m_checksPromotedToErrors.contains(checkName)']),
 'ClazyContext::isOptionSet': F(params=['optionName'], ensures=['ret <==> self_.extraOptions.contains(optionName)']),
 'ClazyContext::isQt': F(ensures=['ret == qt_defined(macros(self_.m_pp))'],
    loops=[Loop(inv=['rng0 == macros(self_.m_pp)', 'defined == qt_defined(rng0.take(i0))'], before='assert(rng0.take(0) =~= Seq::<(Str, bool)>::empty());', start='m_step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')]),
 'Utils::presumedLocationsEqual': F(params=['l1', 'l2'], ensures=['ret <==> pl_valid(l1) && pl_valid(l2) && pl_file(l1) == pl_file(l2) && pl_line(l1) == pl_line(l2) && pl_col(l1) == pl_col(l2)']),
 'CheckBase::warningAlreadyEmitted': F(params=['loc'], ensures=['ret <==> seen(self_.m_emittedWarningsInMacro, loc)'], loops=[Loop(inv=['forall|j: int| 0 <= j < i0 ==> !same_place(#[trigger] rng0[j], loc)', 'rng0 == self_.m_emittedWarningsInMacro'])]),
 'CheckBase::manualFixitAlreadyQueued': F(params=['loc'], ensures=['ret <==> seen(self_.m_emittedManualFixItsWarningsInMacro, loc)'],
    loops=[Loop(inv=['forall|j: int| 0 <= j < i0 ==> !same_place(#[trigger] rng0[j], loc_in)', 'rng0 == self_.m_emittedManualFixItsWarningsInMacro'])]),
 'CheckBase::queueManualFixitWarning': F(params=['loc', 'message'], ensures=['self_out == (if seen(self_.m_emittedManualFixItsWarningsInMacro, loc) { self_ } else { CB { m_queuedManualInterventionWarnings: self_.m_queuedManualInterventionWarnings.push((loc, message)), m_emittedManualFixItsWarningsInMacro: self_.m_emittedManualFixItsWarningsInMacro.push(loc), ..self_ } })']),
 'CheckBase::shouldIgnoreFile': F(params=['loc'], ensures=['ret <==> self_.m_filesToIgnore.len() > 0 && (loc == 0 || exists|i: int| 0 <= i < self_.m_filesToIgnore.len() && str_contains(file_name(loc), #[trigger] self_.m_filesToIgnore[i]))']),
 'CheckBase::tag': F(ensures=['ret == tag_of(self_)']),
 'CheckBase::isOptionSet': F(params=['optionName'], ensures=['ret <==> self_.m_context.extraOptions.contains(self_.m_name + seq![45int] + optionName)']),
 'CheckBase::reallyEmitWarning': F(params=['loc', 'error', 'fixits'], statics=LOG, mut=[], ensures=['log_out == log.push(rep(self_, loc, error, fixits))']),
 'CheckBase::emitWarning(clang::SourceLocation, string, const std::vector<clang::FixItHint> &, bool)': F(name='f_emitWarning_fix', params=['loc', 'error', 'fixits', 'printWarningTag'], mut=['this'], statics=LOG,
    ensures=['log_out =~= log + emits(self_, loc, error, fixits, printWarningTag)', 'self_out == after(self_, loc)'],
    loops=[Loop(pre='let ghost log0 = log;', inv=['rng0 == self_in.m_queuedManualInterventionWarnings', 'log =~= log0 + manuals(self_, rng0.take(i0))'], before='assert(rng0.take(0) =~= Seq::<(int, Str)>::empty());', start='q_step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0); frame(self_, self_in, rng0);')]),
 'CheckBase::emitWarning(clang::SourceLocation, const string &, bool)': F(name='f_emitWarning_loc', params=['loc', 'error', 'printWarningTag'], mut=['this'], statics=LOG, ensures=['log_out =~= log + emits(self_, loc, error, Seq::<int>::empty(), printWarningTag)', 'self_out == after(self_, loc)']),
}
