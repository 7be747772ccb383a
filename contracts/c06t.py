"""C06 (clang-tidy): the module runs exactly the enabled clazy checks, once per translation unit."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
from contracts.c06 import ev, make, TV
SOURCES = ['src/ClazyClangTidyModule.cpp', 'src/ClazyVisitHelper.cpp']
FIELDS = {'RegisteredCheck': ['name', 'level', 'options', 'factory'], 'clazy::VisitHelper::Visitors': ['visitStmts', 'visitDecls', 'visitAllTypedefDecls'],
          'ClazyCheck': ['m_shouldRunClazyChecks', 'm_allChecks', 'm_visitors', 'clazyContext', 'm_checkName'], 'FullASTVisitor': ['m_context', 'm_visitors']}
def call(s):
    def f(tr, o, vs, t):
        tr.assign(('var', 'calls'), f'calls.push(Call {{ stmt: {s}, node: {vs[0].e}, context: {vs[1].e}, visitors: {vs[2].e} }})'); return V(f'visit_ret({s}, {vs[0].e}, {vs[1].e})', parse('bool'))
    return f
def matcher(tr, o, vs, t):
    tr.assign(('var', 'log'), 'log.push(Ev { kind: 10, who: 0, what: 0 })'); return V('()', TV)
def traverse(tr, o, vs, t):
    tr.assign(('var', 'trav'), f'trav.push(Trav {{ root: {vs[-1].e}, context: {o.e}.m_context, visitors: {o.e}.m_visitors }})'); return V('true', parse('bool'))
def erase(tr, o, vs, t):
    tr.assign(vs[0].lv, f'gone({vs[0].e}, {vs[1].e})'); return V('0int', parse('int'))
def dele(k):
    def f(tr, o, vs, t):
        tr.assign(('var', 'log'), f'log.push(Ev {{ kind: {k}, who: {o.e}, what: 0 }})'); return V('()', TV)
    return f
EXT = {'std::erase': erase, 'delete CheckBase': dele(20), 'delete ClazyContext': dele(21), 'std::function<CheckBase *()>::operator()': make, 'CheckBase::m_context=': ev(2, '{1}'), 'CheckBase::enablePreProcessorCallbacks': ev(3, '{1}'), 'CheckBase::registerASTMatchers': ev(6, '0'),
  'ClazyContext::registerPreprocessorCallbacks': ev(7, '{1}'), 'new ClazyContext': lambda tr, o, vs, t: newctx(tr, o, vs, t),
  'CheckManager::instance': '1int', 'CheckManager::availableChecks': 'available({1})',
  'clang::ast_matchers::MatchFinder::addMatcher': matcher, 'FullASTVisitor::TraverseDecl': traverse, 'clang::RecursiveASTVisitor<FullASTVisitor>::TraverseDecl': traverse,
  'clang::ast_matchers::BoundNodes::getNodeAs': 'tu_of({0})', 'clang::ast_matchers::MatchFinder::MatchResult::Context': 'ast_of({0})', 'clang::ast_matchers::MatchFinder::MatchResult::Nodes': 'nodes_of({0})', 'clazy::VisitHelper::VisitDecl': call('false'), 'clazy::VisitHelper::VisitStmt': call('true'),
  'ClazyContext::astContext=': ev(12, '{1}'),
  'clazy::VisitHelper::shouldCheckFile': '(!str_contains({1}, L".rcc/qmlcache"))', 'clang::tidy::ClangTidyContext::getCurrentFile': 'current_file({0})' }
def newctx(tr, o, vs, t):
    tr.assign(('var', 'log'), f'log.push(Ev {{ kind: 5, who: 0, what: nth(log) }})')
    return V('log.last().what', t)
PRELUDE = r"""
type RC = R_RegisteredCheck; type CC = R_ClazyCheck; type VS = R_clazy_VisitHelper_Visitors;
pub struct Ev { pub kind: int, pub who: int, pub what: int }
pub uninterp spec fn available(l: int) -> Seq<RC>;
pub struct Call { pub stmt: bool, pub node: int, pub context: int, pub visitors: VS }
pub uninterp spec fn visit_ret(s: bool, n: int, c: int) -> bool; pub uninterp spec fn ast_of(r: int) -> int; pub uninterp spec fn nodes_of(r: int) -> int;
pub struct Trav { pub root: int, pub context: int, pub visitors: VS }
pub uninterp spec fn current_file(cx: int) -> Str;
pub uninterp spec fn tu_of(n: int) -> int;
pub open spec fn nth(log: Seq<Ev>) -> int { log.len() as int + 1 }
pub open spec fn with_check(v: VS, options: int, c: int) -> VS { VS {
    visitStmts: if bit_and(options, 2) != 0 { v.visitStmts.push(c) } else { v.visitStmts },
    visitDecls: if bit_and(options, 4) != 0 { v.visitDecls.push(c) } else { v.visitDecls },
    visitAllTypedefDecls: if bit_and(options, 16) != 0 { v.visitAllTypedefDecls.push(c) } else { v.visitAllTypedefDecls } } }
pub struct St { pub log: Seq<Ev>, pub vs: VS, pub all: Seq<(int, int)> }
pub open spec fn wanted(r: RC, en: Seq<Str>) -> bool { en.contains(L"clazy-" + r.name) }
pub open spec fn reg(s: St, rs: Seq<RC>, en: Seq<Str>) -> St decreases rs.len() {
    if rs.len() == 0 { s } else { let b = reg(s, rs.drop_last(), en); let r = rs.last(); if !wanted(r, en) { b } else {
        let c = nth(b.log); St { log: b.log.push(Ev { kind: 1, who: r.factory, what: c }).push(Ev { kind: 6, who: c, what: 0 }), vs: with_check(b.vs, r.options, c), all: b.all.push((c, r.options)) } } } }
pub proof fn step(s: Seq<RC>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
pub open spec fn gone(s: Seq<Str>, x: Str) -> Seq<Str> { s.filter(|y: Str| y != x) }
pub open spec fn deleted(log: Seq<Ev>, cs: Seq<(int, int)>) -> Seq<Ev> decreases cs.len() { if cs.len() == 0 { log } else { deleted(log, cs.drop_last()).push(Ev { kind: 20, who: cs.last().0, what: 0 }) } }
/// once the objects of a file are gone, the first one created for the next file runs again
pub proof fn emptied(names: Seq<Str>, s: Seq<Str>) requires forall|i: int| 0 <= i < s.len() ==> names.contains(#[trigger] s[i]) ensures fold_gone(s, names).len() == 0 decreases names.len() {
    broadcast use vstd::seq_lib::group_filter_ensures;
    if names.len() == 0 { if s.len() > 0 { assert(names.contains(s[0])); } } else {
        let x = names.last(); let g = gone(s, x); let r = names.drop_last();
        assert forall|i: int| 0 <= i < g.len() implies r.contains(#[trigger] g[i]) by { assert(g.contains(g[i])); assert(s.contains(g[i]) && g[i] != x); let k = choose|k: int| 0 <= k < s.len() && s[k] == g[i]; assert(names.contains(s[k])); let j = choose|j: int| 0 <= j < names.len() && names[j] == s[k]; assert(j < names.len() - 1); assert(r[j] == g[i]); }
        emptied(r, g); } }
pub open spec fn fold_gone(s: Seq<Str>, names: Seq<Str>) -> Seq<Str> decreases names.len() { if names.len() == 0 { s } else { fold_gone(gone(s, names.last()), names.drop_last()) } }
pub open spec fn attach(log: Seq<Ev>, cs: Seq<(int, int)>, cx: int, p: int) -> Seq<Ev> decreases cs.len() {
    if cs.len() == 0 { log } else { let a = attach(log, cs.drop_last(), cx, p).push(Ev { kind: 2, who: cs.last().0, what: cx }); if bit_and(cs.last().1, 8) != 0 { a.push(Ev { kind: 3, who: cs.last().0, what: p }) } else { a } } }
pub proof fn cstep(s: Seq<(int, int)>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
"""
LOG = {'log': 'Seq<Ev>'}
ENV = {'log': 'Seq<Ev>', 's_enabledChecks': 'Seq<Str>'}
F = Fn
CONTRACTS = {
 'ClazyCheck::~ClazyCheck': F(mut=['this'], statics=ENV, ensures=['s_enabledChecks_out == gone(s_enabledChecks, self_.m_checkName)',
   'log_out == deleted(log, self_.m_allChecks).push(Ev { kind: 21, who: self_.clazyContext, what: 0 })'],
   loops=[Loop(pre='let ghost log0 = log;', inv=['rng0 == self_in.m_allChecks', 'log == deleted(log0, rng0.take(i0))'], before='assert(rng0.take(0) =~= Seq::<(int, int)>::empty());', start='cstep(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')]),
 'ClazyCheck::ClazyCheck': F(params=['CheckName', 'Context'], mut=['this'], statics={'s_enabledChecks': 'Seq<Str>'}, ensures=[
   'self_out.m_shouldRunClazyChecks == (s_enabledChecks.len() == 0 && !str_contains(current_file(Context), L".rcc/qmlcache"))', 'self_out.m_checkName == CheckName', 's_enabledChecks_out == s_enabledChecks.push(CheckName)']),
 'ClazyCheck::check': F(params=['Result'], mut=[], requires=['self_.m_shouldRunClazyChecks ==> self_.clazyContext != 0'], statics={'log': 'Seq<Ev>', 'trav': 'Seq<Trav>'}, ensures=[
   '!self_.m_shouldRunClazyChecks ==> log_out == log && trav_out == trav',
   'self_.m_shouldRunClazyChecks ==> log_out == log.push(Ev { kind: 12, who: self_.clazyContext, what: ast_of(Result) }) && trav_out == trav.push(Trav { root: tu_of(nodes_of(Result)), context: self_.clazyContext, visitors: self_.m_visitors })']),
 'FullASTVisitor::VisitDecl': F(params=['decl'], mut=[], statics={'calls': 'Seq<Call>'}, ensures=['calls_out == calls.push(Call { stmt: false, node: decl, context: self_.m_context, visitors: self_.m_visitors })', 'ret == visit_ret(false, decl, self_.m_context)']),
 'FullASTVisitor::VisitStmt': F(params=['stmt'], mut=[], statics={'calls': 'Seq<Call>'}, ensures=['calls_out == calls.push(Call { stmt: true, node: stmt, context: self_.m_context, visitors: self_.m_visitors })', 'ret == visit_ret(true, stmt, self_.m_context)']),
 'clazy::VisitHelper::Visitors::addCheck': F(params=['options', 'check'], mut=['this'], ensures=['self_out == with_check(self_, options, check)']),
 'ClazyCheck::registerMatchers': F(params=['Finder'], mut=['this'], requires=['Finder != 0'], statics=ENV, ensures=[
   '!self_.m_shouldRunClazyChecks ==> self_out == self_ && log_out == log',
   'self_.m_shouldRunClazyChecks ==> ({ let r = reg(St { log: log.push(Ev { kind: 10, who: 0, what: 0 }), vs: self_.m_visitors, all: self_.m_allChecks }, available(3), s_enabledChecks); log_out == r.log && self_out.m_visitors == r.vs && self_out.m_allChecks == r.all })'],
   loops=[Loop(pre='let ghost st0 = St { log: log, vs: self_.m_visitors, all: self_.m_allChecks };', inv=['rng0 == available(3)', 'reg(st0, rng0.take(i0), s_enabledChecks) == (St { log: log, vs: self_.m_visitors, all: self_.m_allChecks })'], before='assert(rng0.take(0) =~= Seq::<RC>::empty());', start='step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')]),
 'ClazyCheck::registerPPCallbacks': F(params=['SM', 'PP', 'ModuleExpanderPP'], mut=['this'], requires=['PP != 0'], statics=LOG, ensures=[
   '!self_.m_shouldRunClazyChecks ==> self_out == self_ && log_out == log',
   'self_.m_shouldRunClazyChecks ==> log_out == attach(log.push(Ev { kind: 5, who: 0, what: nth(log) }).push(Ev { kind: 7, who: nth(log), what: PP }), self_.m_allChecks, nth(log), PP) && self_out.clazyContext == nth(log)'],
   loops=[Loop(pre='let ghost log0 = log;', inv=['rng0 == self_.m_allChecks', 'log == attach(log0, rng0.take(i0), self_.clazyContext, PP)'], before='assert(rng0.take(0) =~= Seq::<(int, int)>::empty());', start='cstep(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')]),
}
