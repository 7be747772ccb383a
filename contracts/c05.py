"""C05: every enabled check is shown every declaration and statement of user code (dispatch)."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
SOURCES = ['src/ClazyVisitHelper.cpp', 'src/Clazy.cpp', 'src/Utils.cpp', 'src/ClazyContext.cpp']
FIELDS = {'ClazyContext': ['options', 'astContext', 'accessSpecifierManager', 'parentMap', 'lastDecl', 'lastFunctionDecl', 'lastMethodDecl', 'sm', 'exporter', 'm_hadCompileErrors', 'm_errorTrap'],
          'clazy::VisitHelper::Visitors': ['visitStmts', 'visitDecls', 'visitAllTypedefDecls'], 'ClazyASTConsumer': ['m_context', 'm_visitors', 'm_matchFinder'],
          'RegisteredCheck': ['name', 'level', 'options', 'factory']}
BYVALUE = ['ClazyContext']
TV = parse('void'); TB = parse('bool')
def ev(kind, res=None):
    def f(tr, o, vs, t):
        tr.assign(('var', 'log'), f'log.push(Ev {{ kind: {kind}, who: {o.e if o is not None and kind != 4 else "0"}, what: {vs[0].e if vs else "0"} }})')
        return V('()', TV) if res is None else V(res, TB)
    return f
EXT = {
 'CheckBase::VisitDecl': ev(1), 'CheckBase::VisitStmt': ev(2), 'AccessSpecifierManager::VisitDeclaration': ev(3), 'CheckBase::canIgnoreIncludes': 'can_ignore({0})',
 'ClazyASTConsumer::TraverseDecl': ev(4, 'true'), 'clang::RecursiveASTVisitor<ClazyASTConsumer>::TraverseDecl': ev(4, 'true'), 'clang::ast_matchers::MatchFinder::matchAST': ev(5),
 'CheckBase::registerASTMatchers': ev(6), 'FixItExporter::BeginSourceFile': lambda tr, o, vs, t: V('()', TV),
 'clang::ASTContext::getTranslationUnitDecl': 'tu_decl({0})',
 'ClazyContext::isQt': 'is_qt()',
 'clang::SourceManager::isInSystemHeader': 'in_system({1})', 'clang::SourceLocation::isInvalid': '({0} == 0)', 'clang::SourceLocation::isValid': '({0} != 0)',
 'clang::SourceLocation::isMacroID': 'is_macro({0})', 'clang::SourceManager::getExpansionLoc': 'expansion({1})',
 'clang::SourceManager::isInFileID': 'in_file({1}, {2})', 'clang::SourceManager::getMainFileID': 'main_file()', 'clang::SourceManager::isInMainFile': 'in_file(expansion({1}), main_file())',
 'clang::Decl::getBeginLoc': 'dloc({0})', 'clang::Stmt::getBeginLoc': 'sloc({0})',
 'clang::ParentMap::addStmt': lambda tr, o, vs, t: V('()', TV), 'clang::ParentMap::hasParent': 'has_parent({0}, {1})',
 'clang::ASTContext::getDiagnostics': '({0})', 'clang::DiagnosticsEngine::hasUnrecoverableErrorOccurred': 'had_error({0})', 'clang::DiagnosticErrorTrap::hasUnrecoverableErrorOccurred': 'trapped({0})',
}
for _k in ('clang::SourceManager::getMainFileID',): pass
PRELUDE = r'''
type CX = R_ClazyContext; type VS = R_clazy_VisitHelper_Visitors; type AC = R_ClazyASTConsumer;
pub struct Ev { pub kind: int, pub who: int, pub what: int }
pub uninterp spec fn can_ignore(c: int) -> bool;
pub uninterp spec fn is_qt() -> bool;
pub uninterp spec fn tu_decl(c: int) -> int;
pub uninterp spec fn in_system(l: int) -> bool;
pub uninterp spec fn is_macro(l: int) -> bool;
pub uninterp spec fn expansion(l: int) -> int;
pub uninterp spec fn in_file(l: int, f: int) -> bool;
pub uninterp spec fn main_file() -> int;
pub uninterp spec fn dloc(d: int) -> int;
pub uninterp spec fn sloc(s: int) -> int;
pub uninterp spec fn has_parent(m: int, s: int) -> bool;
pub uninterp spec fn had_error(e: int) -> bool;
pub uninterp spec fn trapped(e: int) -> bool;
/// errors of the code itself, clazy's own ones are not counted
pub open spec fn botch(cx: CX) -> bool { match cx.m_errorTrap { Some(t) => cx.m_hadCompileErrors || trapped(t), None => had_error(cx.astContext) } }
pub open spec fn in_main(l: int) -> bool { in_file(if is_macro(l) { expansion(l) } else { l }, main_file()) }
pub open spec fn user(l: int) -> bool { l != 0 && !in_system(l) }
/// a check may skip a node of an included file when the user asked for it and the check supports that
pub open spec fn skips(cx: CX, l: int, c: int) -> bool { bit_and(cx.options, 32) != 0 && !in_main(l) && can_ignore(c) }
pub open spec fn shown(cx: CX, cs: Seq<int>, l: int, kind: int, node: int) -> Seq<Ev> decreases cs.len() {
    if cs.len() == 0 { Seq::<Ev>::empty() } else if skips(cx, l, cs.last()) { shown(cx, cs.drop_last(), l, kind, node) } else { shown(cx, cs.drop_last(), l, kind, node).push(Ev { kind: kind, who: cs.last(), what: node }) } }
pub open spec fn all_shown(cs: Seq<int>, kind: int, node: int) -> Seq<Ev> { Seq::new(cs.len(), |i: int| Ev { kind: kind, who: cs[i], what: node }) }
pub proof fn step(s: Seq<int>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
pub proof fn frame(a: CX, b: CX, cs: Seq<int>, l: int, kind: int, node: int) requires a.options == b.options ensures shown(a, cs, l, kind, node) == shown(b, cs, l, kind, node) decreases cs.len() { if cs.len() > 0 { frame(a, b, cs.drop_last(), l, kind, node); } }
pub open spec fn decl_events(cx: CX, v: VS, d: int) -> Seq<Ev> {
    (if cx.accessSpecifierManager != 0 { seq![Ev { kind: 3, who: cx.accessSpecifierManager, what: d }] } else { Seq::<Ev>::empty() })
    + (if user(dloc(d)) { shown(cx, v.visitDecls, dloc(d), 1, d) } else if TYPEDEF(d) { all_shown(v.visitAllTypedefDecls, 1, d) } else { Seq::<Ev>::empty() }) }
pub open spec fn botched(cx: CX) -> bool { cx.parentMap == 0 && botch(cx) }
pub open spec fn stmt_events(cx: CX, v: VS, s: int) -> Seq<Ev> { if user(sloc(s)) && !botched(cx) { shown(cx, v.visitStmts, sloc(s), 2, s) } else { Seq::<Ev>::empty() } }
pub open spec fn with_check(v: VS, options: int, c: int) -> VS { VS {
    visitStmts: if bit_and(options, 2) != 0 { v.visitStmts.push(c) } else { v.visitStmts },
    visitDecls: if bit_and(options, 4) != 0 { v.visitDecls.push(c) } else { v.visitDecls },
    visitAllTypedefDecls: if bit_and(options, 16) != 0 { v.visitAllTypedefDecls.push(c) } else { v.visitAllTypedefDecls } } }
'''.replace('TYPEDEF', 'u_isa_clang_TypedefNameDecl_1')
UNINTERP = {'isa_clang::TypedefNameDecl': (['int'], 'bool')}
LOG = {'log': 'Seq<Ev>'}
F = Fn
def L(cs, ds, kind, node, n):
    return Loop(pre=f'let ghost log{n} = log;', inv=[f'rng{n} == {cs}', f'log =~= log{n} + shown(context, rng{n}.take(i{n}), locStart, {kind}, {node})'], before=f'assert(rng{n}.take(0) =~= Seq::<int>::empty());', start=f'step(rng{n}, i{n});', after=f'assert(rng{n}.take(i{n}) =~= rng{n}); frame(context, context_in, rng{n}, locStart, {kind}, {node});')
ALL = Loop(pre='let ghost log0 = log;', inv=['rng0 == visitors.visitAllTypedefDecls', 'log =~= log0 + all_shown(rng0.take(i0), 1, decl)'], start='step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')
CONTRACTS = {
 'clazy::VisitHelper::VisitDecl': F(params=['decl', 'context', 'visitors'], requires=['decl != 0'], statics=LOG, loops=[ALL, L('visitors.visitDecls', 0, 1, 'decl', 1)], mut=[1], ensures=['ret', 'log_out =~= log + decl_events(context, visitors, decl)', 'context_out.options == context.options && context_out.accessSpecifierManager == context.accessSpecifierManager && context_out.parentMap == context.parentMap']),
 'clazy::VisitHelper::VisitStmt': F(params=['stmt', 'context', 'visitors'], requires=['stmt != 0'], statics=LOG, loops=[L('visitors.visitStmts', 0, 2, 'stmt', 0)], mut=[1], ensures=['ret == (!user(sloc(stmt)) || !botched(context))', 'log_out =~= log + stmt_events(context, visitors, stmt)', 'context_out.options == context.options && context_out.accessSpecifierManager == context.accessSpecifierManager']),
 'clazy::VisitHelper::shouldCheckFile': F(params=['mainFilePath'], ensures=['ret == !str_contains(mainFilePath, L".rcc/qmlcache")']),
 'clazy::VisitHelper::Visitors::addCheck': F(params=['options', 'check'], mut=['this'], ensures=['self_out == with_check(self_, options, check)']),
 'ClazyContext::hasCompileErrors': F(ensures=['ret == botch(self_)']),
 'Utils::isMainFile': F(params=['sm', 'loc'], ensures=['ret == in_main(loc)']),
 'ClazyASTConsumer::addCheck': F(params=['check'], requires=['self_.m_matchFinder != 0 && check.0 != 0'], mut=['this'], statics=LOG, ensures=['self_out.m_visitors == with_check(self_.m_visitors, check.1.options, check.0)', 'self_out.m_context == self_.m_context', 'log_out == log.push(Ev { kind: 6, who: check.0, what: self_.m_matchFinder })']),
 'ClazyASTConsumer::VisitDecl': F(params=['decl'], requires=['decl != 0'], mut=['this'], statics=LOG, ensures=['ret', 'log_out =~= log + decl_events(self_.m_context, self_.m_visitors, decl)', 'self_out.m_visitors == self_.m_visitors']),
 'ClazyASTConsumer::VisitStmt': F(params=['stmt'], requires=['stmt != 0'], mut=['this'], statics=LOG, ensures=['ret == (!user(sloc(stmt)) || !botched(self_.m_context))', 'log_out =~= log + stmt_events(self_.m_context, self_.m_visitors, stmt)', 'self_out.m_visitors == self_.m_visitors']),
 'ClazyASTConsumer::HandleTranslationUnit': F(params=['ctx'], requires=['self_.m_matchFinder != 0'], statics=LOG, ensures=['log_out =~= (if bit_and(self_.m_context.options, 4) != 0 && !is_qt() { log } else { log.push(Ev { kind: 4, who: 0, what: tu_decl(ctx) }).push(Ev { kind: 5, who: self_.m_matchFinder, what: ctx }) })']),
}
