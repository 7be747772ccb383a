"""C06: the front-ends configure the context from their options and instantiate exactly the selected checks, each with its context and callbacks."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
SOURCES = ['src/Clazy.cpp', 'src/ClazyStandaloneMain.cpp', 'src/ClazyClangTidyModule.cpp', 'src/checkmanager.cpp']
FIELDS = {'RegisteredCheck': ['name', 'level', 'options', 'factory'], 'ClazyASTAction': ['m_checks', 'm_context', 'm_checkManager', 'm_options'],
          'ClazyStandaloneASTAction': ['m_checkList', 'm_headerFilter', 'm_ignoreDirs', 'm_lineFilter', 'm_exportFixesFilename', 'm_translationUnitPaths', 'm_options'], 'ClazyToolActionFactory': ['m_paths']}
TV = parse('void')
def ev(kind, what='0', who=None):
    def f(tr, o, vs, t):
        a = [o.e if o is not None else '0'] + [v.e for v in vs]
        tr.assign(('var', 'log'), f'log.push(Ev {{ kind: {kind}, who: {(who or "{0}").format(*a)}, what: {what.format(*a)} }})')
        return V('()', TV)
    return f
def make(tr, o, vs, t):
    # a call of the factory makes a new object: its identity is the number of objects made so far
    tr.assign(('var', 'log'), f'log.push(Ev {{ kind: 1, who: {o.e}, what: nth(log) }})')
    return V('log.last().what', t)
def newctx(tr, o, vs, t):
    s = [tr.to_str(v) if i in (4, 5, 6, 7) else v.e for i, v in enumerate(vs)]
    tr.assign(('var', 'log'), f'log.push(Ev {{ kind: 5, who: 0, what: nth(log) }})')
    tr.assign(('var', 'cfg'), f'Cfg {{ header: {s[4]}, ignore: {s[5]}, lines: {s[6]}, fixes: {s[7]}, paths: {s[8]}, options: {s[9]}, made: true }}')
    return V('log.last().what', t)
def req(tr, o, vs, t):
    r = tr.bind(V(f'requested({vs[0].e})', t))
    if vs[0].lv is not None: tr.assign(vs[0].lv, f'leftover({vs[0].e})')
    return r
OPTS = {n: f'{i + 1}int' for i, n in enumerate(['s_checks', 's_exportFixes', 's_lineFilter', 's_onlyQt', 's_qtDeveloper', 's_visitImplicitCode', 's_ignoreIncludedFiles', 's_headerFilter', 's_ignoreDirs'])}
GLOBALS = dict(OPTS)
def alloc(tr, o, vs, t):
    if 'ClazyStandaloneASTAction' in t.raw:
        # the constructor is used through its contract below
        a = [tr.to_str(v) if i < 5 else v.e for i, v in enumerate(vs)]
        tr.assign(('var', 'act'), 'std_action(' + ', '.join(a) + ')')
        return V('1int', t)
    tr.emit(f'let new_c_ = alloc_();'); tr.emit('let ghost newc_ = new_c_@;')
    return V('newc_', t)
EXT = { 'CheckManager::lock': '1int', 'std::make_unique': alloc, 'clazy::VisitHelper::shouldCheckFile': '(!str_contains({1}, L".rcc/qmlcache"))',
  'std::function<CheckBase *()>::operator()': make, 'CheckBase::m_context=': ev(2, '{1}'), 'CheckBase::enablePreProcessorCallbacks': ev(3, '{1}'), 'ClazyASTConsumer::addCheck': ev(4, '{1}.1.options', '{1}.0'),
  'ClazyContext::registerPreprocessorCallbacks': ev(6, '{1}'), 'new ClazyContext': newctx, 'new ClazyASTConsumer': alloc, 'ClazyASTAction::PrintHelp': ev(7, '0', '0'), 'ClazyASTAction::printRequestedChecks': ev(8, '0', '0'),
  'clang::CompilerInstance::getPreprocessor': 'pp({0})', 'CheckManager::instance': '1int', 'llvm::cl::opt_storage<bool, false, false>::getValue': 'optb({0})', 'llvm::cl::opt_storage<std::basic_string<char, std::char_traits<char>, std::allocator<char>>, false, true>::getValue': 'opts({0})', 'CheckManager::requestedChecks': req }
import re
def O(s): return re.sub(r'OPT:(\w+)', lambda m: OPTS[m.group(1)], s)
PRELUDE = O(r"""
type RC = R_RegisteredCheck; type AA = R_ClazyASTAction; type SA = R_ClazyStandaloneASTAction;
pub struct Ev { pub kind: int, pub who: int, pub what: int }
pub struct Cfg { pub header: Str, pub ignore: Str, pub lines: Str, pub fixes: Str, pub paths: Seq<Str>, pub options: int, pub made: bool }
pub uninterp spec fn pp(ci: int) -> int;
pub uninterp spec fn requested(args: Seq<Str>) -> Seq<RC>;
pub uninterp spec fn leftover(args: Seq<Str>) -> Seq<Str>;
pub open spec fn nth(log: Seq<Ev>) -> int { log.len() as int + 1 }
/// instantiating one selected check
pub open spec fn inst(log: Seq<Ev>, r: RC, cx: int, p: int) -> Seq<Ev> {
    let c = nth(log);
    let a = log.push(Ev { kind: 1, who: r.factory, what: c }).push(Ev { kind: 2, who: c, what: cx });
    let b = if bit_and(r.options, 8) != 0 { a.push(Ev { kind: 3, who: c, what: p }) } else { a };
    b.push(Ev { kind: 4, who: c, what: r.options }) }
pub open spec fn insts(log: Seq<Ev>, rs: Seq<RC>, cx: int, p: int) -> Seq<Ev> decreases rs.len() { if rs.len() == 0 { log } else { inst(insts(log, rs.drop_last(), cx, p), rs.last(), cx, p) } }
pub proof fn step(s: Seq<RC>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s { }
pub open spec fn with_ctx(log: Seq<Ev>, p: int) -> Seq<Ev> { log.push(Ev { kind: 5, who: 0, what: nth(log) }).push(Ev { kind: 6, who: nth(log), what: p }) }
/// without the first occurrence of x
pub open spec fn rm(s: Seq<Str>, x: Str) -> Seq<Str> decreases s.len() { if s.len() == 0 { s } else if s[0] == x { s.skip(1) } else { seq![s[0]] + rm(s.skip(1), x) } }
pub proof fn rm_at(s: Seq<Str>, x: Str, k: int) requires 0 <= k < s.len(), s[k] == x, forall|j: int| 0 <= j < k ==> s[j] != x ensures rm(s, x) =~= s.take(k) + s.skip(k + 1) decreases s.len()
{ if k > 0 { let t = s.skip(1); rm_at(t, x, k - 1); assert(s.take(k) =~= seq![s[0]] + t.take(k - 1)); assert(s.skip(k + 1) =~= t.skip(k)); } }
pub proof fn rm_none(s: Seq<Str>, x: Str) requires !s.contains(x) ensures rm(s, x) =~= s decreases s.len()
{ if s.len() > 0 { assert forall|y: Str| s.skip(1).contains(y) implies s.contains(y) by { let i = choose|i: int| 0 <= i < s.skip(1).len() && s.skip(1)[i] == y; assert(s[i + 1] == y); } assert(s.contains(s[0])); rm_none(s.skip(1), x); assert(s =~= seq![s[0]] + s.skip(1)); } }
pub broadcast proof fn rm_other(s: Seq<Str>, x: Str, y: Str) requires x != y ensures #[trigger] rm(s, x).contains(y) == s.contains(y) decreases s.len()
{ if s.len() > 0 {
    let t = s.skip(1); assert(s =~= seq![s[0]] + t);
    if s[0] == x { if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; assert(t[i - 1] == y); } else { if t.contains(y) { let i = choose|i: int| 0 <= i < t.len() && t[i] == y; assert(s[i + 1] == y); } } }
    else { rm_other(t, x, y); let r = rm(t, x); let w = seq![s[0]] + r;
      if s.contains(y) { let i = choose|i: int| 0 <= i < s.len() && s[i] == y; if i > 0 { assert(t[i - 1] == y); let j = choose|j: int| 0 <= j < r.len() && r[j] == y; assert(w[j + 1] == y); } else { assert(w[0] == y); } }
      if w.contains(y) { let i = choose|i: int| 0 <= i < w.len() && w[i] == y; if i > 0 { assert(r[i - 1] == y); let j = choose|j: int| 0 <= j < t.len() && t[j] == y; assert(s[j + 1] == y); } else { assert(s[0] == y); } } } } }
pub proof fn rm_none_all(s: Seq<Str>) ensures !s.contains(L"help") ==> rm(s, L"help") == s { if !s.contains(L"help") { rm_none(s, L"help"); } }
pub open spec fn set_if(o: int, b: int, c: bool) -> int { if c { bit_or(o, b) } else { o } }
pub open spec fn plugin_options(o: int, a: Seq<Str>) -> int {
    set_if(set_if(set_if(set_if(set_if(o, 1, a.contains(L"export-fixes") || env(L"CLAZY_EXPORT_FIXES") is Some), 4, a.contains(L"only-qt")), 8, a.contains(L"qt-developer")), 16, a.contains(L"visit-implicit-code")), 32, a.contains(L"ignore-included-files")) }
pub open spec fn without_options(a: Seq<Str>) -> Seq<Str> { rm(rm(rm(rm(rm(rm(a, L"export-fixes"), L"only-qt"), L"qt-developer"), L"visit-implicit-code"), L"ignore-included-files"), L"export-fixes") }
pub open spec fn check_args(a: Seq<Str>) -> Seq<Str> { rm(without_options(a), L"print-requested-checks") }
pub uninterp spec fn optb(o: int) -> bool;
pub uninterp spec fn opts(o: int) -> Str;
pub open spec fn std_action(checks: Str, header: Str, ignore: Str, lines: Str, fixes: Str, paths: Seq<Str>, o: int) -> SA {
    SA { m_checkList: if checks.len() == 0 { L"level1" } else { checks }, m_headerFilter: if header.len() == 0 { env_or_empty(L"CLAZY_HEADER_FILTER") } else { header }, m_ignoreDirs: if ignore.len() == 0 { env_or_empty(L"CLAZY_IGNORE_DIRS") } else { ignore }, m_lineFilter: lines, m_exportFixesFilename: fixes, m_translationUnitPaths: paths, m_options: o } }
pub open spec fn standalone_options() -> int { set_if(set_if(set_if(set_if(set_if(0, 1, opts(OPT:s_exportFixes).len() > 0), 8, optb(OPT:s_qtDeveloper)), 4, optb(OPT:s_onlyQt)), 16, optb(OPT:s_visitImplicitCode)), 32, optb(OPT:s_ignoreIncludedFiles)) }
pub open spec fn env_or_empty(n: Str) -> Str { match env(n) { None => Seq::<int>::empty(), Some(s) => s } }
""")
LOG = {'log': 'Seq<Ev>'}
LOG2 = {'log': 'Seq<Ev>', 'cfg': 'Cfg'}
F = Fn
CONTRACTS = {
 'parseArgument': F(params=['arg', 'args'], ensures=['ret <==> args.contains(arg)', 'args_out == rm(args, arg)'],
   hints={'after:let ghost mut it': 'if it < args.len() { rm_at(args, arg, it); } else { rm_none(args, arg); }'}),
 'getEnvVariable': F(params=['name'], requires=['name is Some'], ensures=['ret == env_or_empty(name->0)']),
 'ClazyStandaloneASTAction::ClazyStandaloneASTAction': F(params=['checkList', 'headerFilter', 'ignoreDirs', 'lineFilter', 'exportFixesFilename', 'translationUnitPaths', 'options'], mut=['this'], ensures=[
   'self_out == std_action(checkList, headerFilter, ignoreDirs, lineFilter, exportFixesFilename, translationUnitPaths, options)']),
 'ClazyASTAction::CreateASTConsumer': F(params=['ci', 'InFile'], mut=[], statics=LOG, ensures=['log_out =~= (if str_contains(InFile, L".rcc/qmlcache") { log } else { insts(log, self_.m_checks, self_.m_context, pp(ci)) })'],
   loops=[Loop(pre='let ghost log0 = log;', inv=['rng0 == self_.m_checks', 'log == insts(log0, rng0.take(i0), self_.m_context, pp(ci))'], before='assert(rng0.take(0) =~= Seq::<RC>::empty());', start='step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')]),
 'ClazyStandaloneASTAction::CreateASTConsumer': F(params=['ci', 'f'], mut=[], statics=LOG2, ensures=['requested(seq![self_.m_checkList]).len() == 0 ==> ret == 0 && log_out == log', 'requested(seq![self_.m_checkList]).len() > 0 ==> ret != 0 && log_out =~= insts(with_ctx(log, pp(ci)), requested(seq![self_.m_checkList]), nth(log), pp(ci)) && cfg_out == Cfg { header: self_.m_headerFilter, ignore: self_.m_ignoreDirs, lines: self_.m_lineFilter, fixes: self_.m_exportFixesFilename, paths: self_.m_translationUnitPaths, options: self_.m_options, made: true }'],
   loops=[Loop(pre='let ghost log0 = log;', inv=['rng0 == requested(seq![self_.m_checkList])', 'log == insts(log0, rng0.take(i0), context, pp(ci))', 'log0 == with_ctx(log_in, pp(ci))'], before='assert(rng0.take(0) =~= Seq::<RC>::empty());', start='step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')]),
 'ClazyToolActionFactory::create': F(params=[], mut=[], statics={'act': 'SA'}, ensures=[
   O('act_out == std_action(opts(OPT:s_checks), opts(OPT:s_headerFilter), opts(OPT:s_ignoreDirs), opts(OPT:s_lineFilter), opts(OPT:s_exportFixes), self_.m_paths, standalone_options())'), 'ret != 0']),
 'ClazyASTAction::ParseArgs': F(params=['ci', 'args_'], mut=['this'], statics=LOG2, uses=['rm_other'], ensures=[
   'args_.contains(L"help") ==> ret && self_out.m_checks == self_.m_checks && cfg_out.options == 0',
   '!args_.contains(L"help") ==> self_out.m_options == plugin_options(self_.m_options, args_) && self_out.m_checks == requested(check_args(args_)) && self_out.m_context == nth(log)',
   '!args_.contains(L"help") ==> cfg_out.options == self_out.m_options && cfg_out.paths.len() == 0',
   'cfg_out.header == env_or_empty(L"CLAZY_HEADER_FILTER") && cfg_out.ignore == env_or_empty(L"CLAZY_IGNORE_DIRS") && cfg_out.lines.len() == 0',
   '!args_.contains(L"help") ==> ret == (leftover(check_args(args_)).len() <= 1 && !(leftover(check_args(args_)).len() == 1 && requested(check_args(args_)).len() == 0))',
   'log_out.len() >= log.len() + 2 && log_out.take(log.len() as int + 2) =~= with_ctx(log, pp(ci))'], loops=[Loop()],
   hints={'entry': 'rm_none_all(args_);'}),
}
