"""C07: the exporter exists exactly when fixes are exported, gets the requested file and language, and every translation unit writes what was recorded."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
SOURCES = ['src/ClazyContext.cpp']
FIELDS = {'ClazyContext': ['sm', 'options', 'exporter', 'headerFilterRegex', 'ignoreDirsRegex', 'm_lineFilter', 'm_errorTrap', 'm_hadCompileErrors', 'm_noWerror', 'm_checksPromotedToErrors', 'extraOptions', 'm_translationUnitPaths', 'm_pp', 'lo', 'm_isClangTidy', 'astContext', 'accessSpecifierManager', 'parentMap', 'preprocessorVisitor']}
TV = parse('void')
def ev(kind, what='0', who='0'):
    def f(tr, o, vs, t):
        a = [o.e if o is not None else '0'] + [v.e for v in vs]
        tr.assign(('var', 'log'), f'log.push(Ev {{ kind: {kind}, who: {who.format(*a)}, what: {what.format(*a)} }})'); return V('()', TV)
    return f
def dele(k):
    def f(tr, o, vs, t):
        tr.assign(('var', 'log'), f'log.push(Ev {{ kind: {k}, who: {o.e}, what: 0 }})'); return V('()', TV)
    return f
def alloc(tr, o, vs, t):
    a = tr.fresh('new'); tr.emit(f'let {a} = alloc_();'); r = tr.fresh('r'); tr.emit(f'let ghost {r} = {a}@;'); return V(r, t)
def newexp(tr, o, vs, t):
    tr.assign(('var', 'exp'), f'Exp {{ engine: {vs[0].e}, sm: {vs[1].e}, lang: {vs[2].e}, file: {tr.to_str(vs[3])}, standalone: {vs[4].e} }}')
    tr.emit('let new_e_ = alloc_();'); tr.emit('let ghost newe_ = new_e_@;')
    return V('newe_', t)
EXT = {'FixItExporter::Export': ev(1, '0', '{0}'), 'delete FixItExporter': dele(2), 'delete AccessSpecifierManager': dele(3), 'delete clang::ParentMap': dele(4), 'new FixItExporter': newexp, 'std::make_unique': 'regex({1})', 'CheckManager::instance': '1int', 'CheckManager::checksAsErrors': 'checks_as_errors()', 'clazy::splitString': 'split_env({1}, {2})', 'clang::DiagnosticsEngine::hasUnrecoverableErrorOccurred': 'had_errors({0})', 'parseLineFilter': 'line_filter({1})', 'FixItExporter::FixItExporter': '0int',
  'clang::SourceManager::getMainFileID': 'main_file({0})', 'clang::SourceManager::getFileEntryRefForID': 'entry_of({0}, {1})', 'clang::FileEntryRef::getName': 'entry_name({0})', 'clang::ASTContext::getDiagnostics': 'engine_of({0})', 'clang::ASTContext::getLangOpts': 'lang_of({0})'}
PRELUDE = r"""
pub struct Ev { pub kind: int, pub who: int, pub what: int }
pub uninterp spec fn line_filter(s: Str) -> Seq<R_ClazyContext_LineFilterEntry>;
pub uninterp spec fn main_file(sm: int) -> int;
pub uninterp spec fn entry_of(sm: int, f: int) -> int;
pub uninterp spec fn entry_name(e: int) -> Str;
pub uninterp spec fn engine_of(c: int) -> int;
pub uninterp spec fn lang_of(c: int) -> int;
pub uninterp spec fn regex(p: Str) -> int;
pub broadcast axiom fn regex_made(p: Str) ensures #[trigger] regex(p) != 0;
pub uninterp spec fn checks_as_errors() -> Seq<Str>;
pub uninterp spec fn split_env(v: Option<Str>, c: int) -> Seq<Str>;
pub uninterp spec fn had_errors(e: int) -> bool;
pub struct Exp { pub engine: int, pub sm: int, pub lang: int, pub file: Str, pub standalone: bool }
"""
F = Fn
NAME = '(if exportFixesFilename.len() > 0 { exportFixesFilename } else { entry_name(entry_of(manager, main_file(manager))) + L".clazy.yaml" })'
CONTRACTS = {
 'ClazyContext::~ClazyContext': F(mut=['this'], statics={'log': 'Seq<Ev>'}, ensures=[
   'self_.exporter != 0 ==> log_out =~= log.push(Ev { kind: 3, who: self_.accessSpecifierManager, what: 0 }).push(Ev { kind: 4, who: self_.parentMap, what: 0 }).push(Ev { kind: 1, who: self_.exporter, what: 0 }).push(Ev { kind: 2, who: self_.exporter, what: 0 })',
   'self_.exporter == 0 ==> log_out =~= log.push(Ev { kind: 3, who: self_.accessSpecifierManager, what: 0 }).push(Ev { kind: 4, who: self_.parentMap, what: 0 })']),
 'ClazyContext::ClazyContext': F(params=['context', 'manager', 'lo', 'pp', 'headerFilter', 'ignoreDirs', 'lineFilter', 'exportFixesFilename', 'translationUnitPaths', 'opts', 'warningReporter', 'isClangTidy'], mut=['this'], statics={'exp': 'Exp'},
   uses=['regex_made'], requires=['entry_of(manager, main_file(manager)) != 0'], ensures=[
   '(self_out.exporter != 0) == (bit_and(opts, 1) != 0 && context != 0)',
   f'bit_and(opts, 1) != 0 && context != 0 ==> exp_out == (Exp {{ engine: engine_of(context), sm: manager, lang: lang_of(context), file: {NAME}, standalone: translationUnitPaths.len() > 0 }})',
   'self_out.options == opts && self_out.m_isClangTidy == isClangTidy', 'self_out.astContext == context && self_out.sm == manager && self_out.m_pp == pp && self_out.lo == lo', 'self_out.headerFilterRegex == (if headerFilter.len() > 0 { regex(headerFilter) } else { 0 })', 'self_out.ignoreDirsRegex == (if ignoreDirs.len() > 0 { regex(ignoreDirs) } else { 0 })',
   'self_out.m_lineFilter == (if lineFilter.len() > 0 { line_filter(lineFilter) } else { Seq::empty() })', 'self_out.m_errorTrap == (if context != 0 { Some(engine_of(context)) } else { None })', 'self_out.m_hadCompileErrors == (context != 0 && had_errors(engine_of(context)))',
   'self_out.m_noWerror == (env(L"CLAZY_NO_WERROR") is Some)', 'self_out.m_checksPromotedToErrors == checks_as_errors()', 'self_out.extraOptions == split_env(env(L"CLAZY_EXTRA_OPTIONS"), 44)', 'self_out.m_translationUnitPaths == translationUnitPaths', 'self_out.accessSpecifierManager == 0 && self_out.preprocessorVisitor == 0 && self_out.parentMap == 0']),
}
