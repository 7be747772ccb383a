"""C07: what is reported is what is exported: diagnostics, their names, messages, places, fix-its and notes."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
SOURCES = ['src/FixItExporter.cpp']
TD, TM, TU = 'clang::tooling::Diagnostic', 'clang::tooling::DiagnosticMessage', 'clang::tooling::TranslationUnitDiagnostics'
FIELDS = {'FixItExporter': ['DiagEngine', 'SourceMgr', 'LangOpts', 'exportFixes', 'Client', 'm_recordNotes'],
          TD: ['DiagnosticName', 'Message', 'Notes', 'DiagLevel'], TM: ['Message', 'FilePath', 'FileOffset', 'Fix'], TU: ['MainSourceFile', 'Diagnostics']}
TV = parse('void')
def ev(kind, what='0', who='0'):
    def f(tr, o, vs, t):
        a = [o.e if o is not None else '0'] + [v.e for v in vs]
        tr.assign(('var', 'log'), f'log.push(Ev {{ kind: {kind}, who: {who.format(*a)}, what: {what.format(*a)}, level: 0, doc: None }})'); return V('()', TV)
    return f
def mut(i, fmt):
    def f(tr, o, vs, t):
        tr.assign(vs[i].lv, fmt.format(*([o.e if o is not None else '0'] + [v.e for v in vs]))); return V('()', TV)
    return f
def addrep(tr, o, vs, t):
    r = tr.bind(V(f'rep_error({o.e}, {vs[0].e})', t)); tr.assign(o.lv, f'add_rep({o.e}, {vs[0].e})'); return r
def handle(tr, o, vs, t):
    # the base class counts; the client prints
    if tr.p.kind(o.t) == 'rec': tr.assign(('var', 'log'), f'log.push(counted({vs[0].e}, {vs[1].e}))')
    else: tr.assign(('var', 'log'), f'log.push(shown({o.e}, {vs[0].e}, {vs[1].e}))')
    return V('()', TV)
def yaml(tr, o, vs, t):
    tr.assign(('var', 'log'), f'log.push(written({vs[0].e}, {vs[1].e}))'); return V('()', TV)
EXT = { 'clang::DiagnosticConsumer::HandleDiagnostic': handle, 'clang::SourceManager::getCharacterData': lambda tr, o, vs, t: V(f'char_data({o.e}, {vs[0].e})', t, None, None, 'cptr', 'text_at'),
  'clang::DiagnosticConsumer::BeginSourceFile': ev(2, '{1}', '{0}'), 'getTuDiag': lambda tr, o, vs, t: V('tu', t.noref(), ('var', 'tu')),
  'clang::Diagnostic::FormatDiagnostic': mut(0, 'text_of({0})'), 'clang::tooling::Replacements::add': addrep,
  TM + '::DiagnosticMessage': 'message({1}, {2}, {3})', TD + '::Diagnostic': 'diagnostic({1}, {2})',
  'clang::tooling::Replacement::Replacement': lambda tr, o, vs, t: V('no_replacement()' if not vs else f'replacement({vs[0].e}, {vs[1].e}, {tr.to_str(vs[2])}, {vs[3].e})', t),
  'clang::tooling::Replacement::getFilePath': 'rep_path({0})',
  'clang::FixItHint::CodeToInsert': 'hint_code({0})', 'clang::FixItHint::InsertFromRange': 'hint_from({0})', 'clang::FixItHint::RemoveRange': 'hint_remove({0})',
  'clang::CharSourceRange::isValid': 'range_valid({0})', 'clang::CharSourceRange::getBegin': 'range_begin({0})', 'clang::CharSourceRange::getEnd': 'range_end({0})',
  'clang::SourceLocation::isMacroID': 'is_macro({0})', 'clang::SourceManager::getSpellingLoc': 'spelling({0}, {1})', 'clang::SourceManager::getFileLoc': 'file_loc({0}, {1})',
  'clang::Lexer::getLocForEndOfToken': 'token_end({1}, {3}, {4})', 'clang::Diagnostic::getLocation': 'info_loc({0})', 'clang::Diagnostic::getID': 'info_id({0})',
  'clang::Diagnostic::getNumFixItHints': 'hints({0}).len() as int', 'clang::Diagnostic::getFixItHint': ('hints({0})[{1}]', '0 <= {1} < hints({0}).len()'),
  'clang::DiagnosticIDs::getWarningOptionForDiag': 'warning_option({1})', 'clang::DiagnosticsEngine::getDiagnosticIDs': 'ids_of({0})', 'llvm::IntrusiveRefCntPtr::operator->': '{0}',
  'FixItExporter::Diag': ev(9), 'llvm::yaml::operator<<': yaml, 'llvm::raw_fd_ostream::raw_fd_ostream': lambda tr, o, vs, t: V(f'file_stream({tr.to_str(vs[0])})', t), 'llvm::yaml::Output::Output': 'yaml_out({1})',
  'clang::SourceManager::getMainFileID': 'main_file({0})', 'clang::SourceManager::getFileEntryRefForID': 'entry_of({0}, {1})', 'clang::FileEntryRef::getName': 'entry_name({0})',
}
PRELUDE = r"""
type TD = R_clang_tooling_Diagnostic; type TM = R_clang_tooling_DiagnosticMessage; type TU = R_clang_tooling_TranslationUnitDiagnostics; type FX = R_FixItExporter;
pub struct Ev { pub kind: int, pub who: int, pub what: int, pub level: int, pub doc: Option<TU> }
pub open spec fn counted(l: int, i: int) -> Ev { Ev { kind: 1, who: 0, what: i, level: l, doc: None } }
pub open spec fn shown(c: int, l: int, i: int) -> Ev { Ev { kind: 2, who: c, what: i, level: l, doc: None } }
pub open spec fn written(y: int, d: TU) -> Ev { Ev { kind: 3, who: y, what: 0, level: 0, doc: Some(d) } }
pub uninterp spec fn char_data(sm: int, loc: int) -> int;
pub uninterp spec fn text_at(pos: int, len: int) -> Str;
pub uninterp spec fn text_of(info: int) -> Str;
pub uninterp spec fn add_rep(rs: int, r: int) -> int;
pub uninterp spec fn rep_error(rs: int, r: int) -> int;
pub uninterp spec fn msg_file(sm: int, loc: int) -> Str;
pub uninterp spec fn msg_off(sm: int, loc: int) -> int;
pub uninterp spec fn replacement(sm: int, range: int, text: Str, lo: int) -> int;
pub uninterp spec fn no_replacement() -> int;
pub uninterp spec fn rep_path(r: int) -> Str;
pub uninterp spec fn hint_code(h: int) -> Str;
pub uninterp spec fn hint_from(h: int) -> int;
pub uninterp spec fn hint_remove(h: int) -> int;
pub uninterp spec fn range_valid(r: int) -> bool;
pub uninterp spec fn range_begin(r: int) -> int;
pub uninterp spec fn range_end(r: int) -> int;
pub uninterp spec fn is_macro(l: int) -> bool;
pub uninterp spec fn spelling(sm: int, l: int) -> int;
pub uninterp spec fn file_loc(sm: int, l: int) -> int;
pub uninterp spec fn token_end(l: int, sm: int, lo: int) -> int;
pub uninterp spec fn info_loc(i: int) -> int;
pub uninterp spec fn info_id(i: int) -> int;
pub uninterp spec fn hints(i: int) -> Seq<int>;
pub uninterp spec fn warning_option(id: int) -> Str;
pub uninterp spec fn ids_of(e: int) -> int;
pub uninterp spec fn file_stream(path: Str) -> int;
pub uninterp spec fn yaml_out(os: int) -> int;
pub uninterp spec fn main_file(sm: int) -> int;
pub uninterp spec fn entry_of(sm: int, f: int) -> int;
pub uninterp spec fn entry_name(e: int) -> Str;
pub open spec fn message(m: Str, sm: int, loc: int) -> TM { TM { Message: m, FilePath: msg_file(sm, loc), FileOffset: msg_off(sm, loc), Fix: Map::empty() } }
pub open spec fn diagnostic(n: Str, l: int) -> TD { TD { DiagnosticName: n, Message: TM { Message: L"", FilePath: L"", FileOffset: 0, Fix: Map::empty() }, Notes: Seq::empty(), DiagLevel: l } }
/// where " [-W" starts if the text ends with a tag
pub open spec fn tag_pos(t: Str) -> int { if str_ends_with(t, L"]") { str_rfind(t, L" [-W", npos()) } else { npos() } }
pub open spec fn loc_of(fx: FX, i: int) -> int { if is_macro(info_loc(i)) { file_loc(fx.SourceMgr, info_loc(i)) } else { info_loc(i) } }
/// the exported diagnostic: name and message are the two parts of what is printed, the place is the printed one
pub open spec fn conv(fx: FX, i: int) -> TD {
    let t = text_of(i); let p = tag_pos(t); let o = warning_option(info_id(i));
    let name = if o.len() > 0 { o } else if p == npos() { L"" } else { t.subrange(p + 4, t.len() - 1) };
    let msg = if o.len() > 0 || p == npos() { t } else { t.take(p) };
    TD { DiagnosticName: name, Message: message(msg, fx.SourceMgr, loc_of(fx, i)), Notes: Seq::empty(), DiagLevel: 3 } }
pub open spec fn spell(fx: FX, l: int) -> int { if is_macro(l) { spelling(fx.SourceMgr, l) } else { l } }
pub open spec fn from_begin(fx: FX, h: int) -> int { spell(fx, range_begin(hint_from(h))) }
pub open spec fn from_end(fx: FX, h: int) -> int { token_end(spell(fx, range_end(hint_from(h))), fx.SourceMgr, fx.LangOpts) }
/// the text a hint puts in the place of what it removes
pub open spec fn new_text(fx: FX, h: int) -> Str {
    if hint_code(h).len() > 0 { hint_code(h) } else if range_valid(hint_from(h)) { text_at(char_data(fx.SourceMgr, from_begin(fx, h)), char_data(fx.SourceMgr, from_end(fx, h)) - char_data(fx.SourceMgr, from_begin(fx, h))) } else { L"" } }
pub open spec fn fix(fx: FX, h: int) -> int { replacement(fx.SourceMgr, hint_remove(h), new_text(fx, h), fx.LangOpts) }
pub open spec fn with_fix(m: Map<Str, int>, r: int) -> Map<Str, int> { m.insert(rep_path(r), add_rep(if m.dom().contains(rep_path(r)) { m[rep_path(r)] } else { arbitrary() }, r)) }
/// all the replacements of the first n hints
pub open spec fn fixes(fx: FX, hs: Seq<int>) -> Map<Str, int> decreases hs.len() { if hs.len() == 0 { Map::empty() } else { with_fix(fixes(fx, hs.drop_last()), fix(fx, hs.last())) } }
pub open spec fn clazy_error(fx: FX, l: int, i: int) -> bool { l == 4 && str_starts_with(conv(fx, i).DiagnosticName, L"clazy-") }
pub open spec fn exported(fx: FX, l: int, i: int) -> TD { let c = conv(fx, i); TD { DiagnosticName: c.DiagnosticName, Message: TM { Message: c.Message.Message, FilePath: c.Message.FilePath, FileOffset: c.Message.FileOffset, Fix: fixes(fx, hints(i)) }, Notes: Seq::empty(), DiagLevel: if l == 4 { 4 } else { 3 } } }
pub open spec fn is_recorded(fx: FX, l: int, i: int) -> bool { l == 3 || clazy_error(fx, l, i) }
pub open spec fn with_note(ds: Seq<TD>, m: TM) -> Seq<TD> recommends ds.len() > 0 { ds.update(ds.len() - 1, TD { Notes: ds.last().Notes.push(m), ..ds.last() }) }
pub open spec fn recorded(fx: FX, ds: Seq<TD>, l: int, i: int) -> Seq<TD> {
    if is_recorded(fx, l, i) { ds.push(exported(fx, l, i)) } else if l == 1 && fx.m_recordNotes { with_note(ds, conv(fx, i).Message) } else { ds } }
/// the rest of a text from its last tag on ends with the bracket
pub broadcast proof fn tag_rest(t: Str) ensures str_ends_with(t, L"]") && #[trigger] str_rfind(t, L" [-W", npos()) != npos() ==> str_rfind(t, L" [-W", npos()) + 4 < t.len()
{ broadcast use group_lib; let p = str_rfind(t, L" [-W", npos()); if str_ends_with(t, L"]") && p != npos() { assert(is_at(t, L" [-W", p)); assert(L" [-W"[3] == C'W'); assert(L"]"[0] == C']'); assert(L"]".len() == 1 && L" [-W".len() == 4); if p + 4 >= t.len() { let u = t.subrange(p, p + 4); assert(u[3] == t[p + 3]); let v = t.skip(t.len() - 1); assert(v[0] == t[t.len() - 1]); } } }
pub broadcast axiom fn text_len(i: int) ensures #[trigger] text_of(i).len() < npos();
pub proof fn step(s: Seq<int>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
pub open spec fn told(fx: FX, log: Seq<Ev>, l: int, i: int) -> Seq<Ev> { if fx.Client != 0 { log.push(counted(l, i)).push(shown(fx.Client, l, i)) } else { log.push(counted(l, i)) } }
"""
F = Fn
ST = {'log': 'Seq<Ev>', 'tu': 'TU'}
CONTRACTS = {
 'FixItExporter::ConvertDiagnostic': F(params=['Info'], mut=[], uses=['tag_rest', 'text_len'], requires=['ids_of(self_.DiagEngine) != 0'], ensures=['ret.DiagnosticName =~= conv(self_, Info).DiagnosticName', 'ret.Message.Message =~= conv(self_, Info).Message.Message', 'ret.Message.FilePath == conv(self_, Info).Message.FilePath && ret.Message.FileOffset == conv(self_, Info).Message.FileOffset && ret.DiagLevel == 3', 'ret.Message.Fix =~= Map::empty()', 'ret.Notes =~= Seq::empty()']),
 'FixItExporter::ConvertFixIt': F(params=['Hint'], mut=[], requires=['char_data(self_.SourceMgr, from_end(self_, Hint)) >= char_data(self_.SourceMgr, from_begin(self_, Hint))'], ensures=['ret == fix(self_, Hint)']),
 'FixItExporter::isClazyError': F(params=['DiagLevel', 'Info'], mut=[], requires=['ids_of(self_.DiagEngine) != 0'], ensures=['ret == clazy_error(self_, DiagLevel, Info)']),
 'FixItExporter::HandleDiagnostic': F(params=['DiagLevel', 'Info'], mut=['this'], statics=ST, requires=['ids_of(self_.DiagEngine) != 0', 'self_.m_recordNotes ==> tu.Diagnostics.len() > 0',
     'forall|h: int| char_data(self_.SourceMgr, #[trigger] from_end(self_, h)) >= char_data(self_.SourceMgr, from_begin(self_, h))'],
   ensures=['is_recorded(self_, DiagLevel, Info) ==> tu_out.Diagnostics =~= tu.Diagnostics.push(exported(self_, DiagLevel, Info))', '!is_recorded(self_, DiagLevel, Info) && DiagLevel == 1 && self_.m_recordNotes ==> tu_out.Diagnostics =~= with_note(tu.Diagnostics, conv(self_, Info).Message)', '!is_recorded(self_, DiagLevel, Info) && !(DiagLevel == 1 && self_.m_recordNotes) ==> tu_out.Diagnostics == tu.Diagnostics', 'tu_out.MainSourceFile == tu.MainSourceFile', 'told(self_, log, DiagLevel, Info).is_prefix_of(log_out)', 
     'self_out == (FX { m_recordNotes: is_recorded(self_, DiagLevel, Info) || (DiagLevel == 1 && self_.m_recordNotes), ..self_ })', 'self_out.m_recordNotes ==> tu_out.Diagnostics.len() > 0'],
   loops=[Loop(inv=['0 <= Idx <= Last', 'Last == hints(Info).len()', 'ToolingDiag.Message.Fix =~= fixes(self_, hints(Info).take(Idx))', 'ToolingDiag.Message.Message == conv(self_, Info).Message.Message', 'ToolingDiag.Message.FilePath == conv(self_, Info).Message.FilePath', 'ToolingDiag.Message.FileOffset == conv(self_, Info).Message.FileOffset',
     'ToolingDiag.DiagnosticName == conv(self_, Info).DiagnosticName', 'ToolingDiag.Notes.len() == 0', 'ToolingDiag.DiagLevel == (if DiagLevel == 4 { 4int } else { 3int })', 'told(self_in, log_in, DiagLevel, Info).is_prefix_of(log)'],
     before='assert(hints(Info).take(0) =~= Seq::<int>::empty());', start='step(hints(Info), Idx);', after='assert(hints(Info).take(Idx) =~= hints(Info)); assert(ToolingDiag.Notes =~= Seq::<TM>::empty()); assert(ToolingDiag =~= exported(self_, DiagLevel, Info));')]),
 'FixItExporter::BeginSourceFile': F(params=['LangOpts_', 'PP'], mut=[], statics=ST, requires=['entry_of(self_.SourceMgr, main_file(self_.SourceMgr)) != 0'], ensures=['tu_out == (TU { MainSourceFile: entry_name(entry_of(self_.SourceMgr, main_file(self_.SourceMgr))), ..tu })']),
 'FixItExporter::Export': F(mut=[], statics=ST, ensures=['tu_out == tu', 'log_out == (if tu.Diagnostics.len() > 0 { log.push(written(yaml_out(file_stream(self_.exportFixes)), tu)) } else { log })']),
}
