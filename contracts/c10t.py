"""C10: the checks that are built on what is a signal or a slot, and the connect() helpers."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
C = 'src/checks/'
SOURCES = [C + 'level0/connect-non-signal.cpp', C + 'level0/connect-by-name.cpp', C + 'level0/overloaded-signal.cpp', C + 'level1/overridden-signal.cpp', C + 'level1/const-signal-or-slot.cpp', C + 'level1/virtual-signal.cpp', C + 'manuallevel/signal-with-return-value.cpp', 'src/QtUtils.cpp', 'src/TypeUtils.cpp']
FIELDS = {}
TV = parse('void')
def warn(tr, o, vs, t):
    tr.assign(('var', 'log'), f'log.push(Ev {{ at: {vs[0].e}, msg: {tr.to_str(vs[1])} }})'); return V('()', TV)
def childs(tr, o, vs, t):
    tr.assign(vs[1].lv, f'{vs[1].e} + refs_in({vs[0].e})'); return V('()', TV)
EXT = {
 'CheckBase::emitWarning': warn, 'clazy::getChilds': childs,
 'AccessSpecifierManager::qtAccessSpecifierType': 'role_of({0}, {1})', 'AccessSpecifierManager::isScriptable': 'scriptable({0}, {1})', 'ClazyContext::accessSpecifierManager': 'asm_of({0})', 'ClazyContext::qtNamespace': 'ns_of({0})',
 'clazy::name': 'name_of({1})', 'clang::NamedDecl::getQualifiedNameAsString': 'qname({0})', 'clang::NamedDecl::getNameAsString': 'name_of({0})', 'clang::Expr::IgnoreParens': 'no_parens({0})',
 'clang::FunctionDecl::parameters': 'params({0})', 'Utils::functionParameters': 'params({1})', 'clang::CXXRecordDecl::methods': 'method_range({0})', 'clang::CXXRecordDecl::bases': 'base_range({0})', 'clang::CXXMethodDecl::overridden_methods': 'overridden_range({0})',
 'clang::CXXMethodDecl::isConst': 'is_const({0})', 'clang::CXXMethodDecl::isVirtual': 'is_virtual({0})', 'clang::FunctionDecl::isThisDeclarationADefinition': 'is_def({0})', 'clang::FunctionDecl::hasInlineBody': 'inline_body({0})', 'clang::CXXMethodDecl::hasInlineBody': 'inline_body({0})', 'clang::CXXMethodDecl::getParent': 'parent_of({0})', 'clang::FunctionDecl::getReturnType': 'rtype({0})',
 'clang::ValueDecl::getType': 'type_of({0})', 'clang::Expr::getType': 'type_of({0})', 'clang::QualType::operator->': '{0}', 'clang::QualType::getTypePtrOrNull': '{0}', 'clang::QualType::getCanonicalType': 'canon({0})', 'clang::QualType::getUnqualifiedType': 'unqual({0})', 'clang::Type::isVoidType': 'is_void({0})', 'clang::Type::isReferenceType': 'is_ref({0})', 'clang::Type::getPointeeType': 'pointee({0})', 'clang::QualType::isConstQualified': 'const_q({0})', 'clang::Type::isPointerType': 'is_ptr({0})', 'clang::Type::isCharType': 'is_char({0})', 'clang::Type::isRecordType': 'is_rec({0})', 'clang::Type::getAsCXXRecordDecl': 'rec_of({0})',
 'clang::CXXBaseSpecifier::getType': 'base_type({0})', 'clang::CallExpr::getNumArgs': 'nargs({0})', 'clang::CallExpr::getArg': ('arg({0}, {1})', '0 <= {1} < nargs({0})'), 'clang::CallExpr::getDirectCallee': 'callee({0})', 'clang::DeclContext::getParent': 'context_of({0})', 'clang::CastExpr::getSubExpr': 'sub({0})', 'clang::MaterializeTemporaryExpr::getSubExpr': 'sub({0})', 'clang::UnaryOperator::getSubExpr': 'sub({0})', 'clang::DeclRefExpr::getDecl': 'ref_decl({0})', 'clang::VarDecl::getInit': 'init_of({0})',
 'clang::CallExpr::getBeginLoc': 'begin_of({0})', 'clang::TypeDecl::getBeginLoc': 'begin_of({0})', 'clang::SourceLocation::printToString': 'loc_text({0})', 'clazy::derivesFrom': lambda tr, o, vs, t: V(f'derives({vs[0].e}, {tr.to_str(vs[1])})', parse('bool')),
 'clazy::splitString': lambda tr, o, vs, t: V(f'split({tr.to_str(vs[0])}, {vs[1].e})', t),
}
U = lambda sig: f'pub uninterp spec fn {sig};\n'
PRELUDE = r"""
pub struct Ev { pub at: int, pub msg: Str }
""" + ''.join(U(f'{n}({", ".join(f"x{i}: " + a for i, a in enumerate(args.split()))}) -> {r}') for n, args, r in [l.split('|') for l in '''role_of|int int|int
scriptable|int int|bool
asm_of|int|int
ns_of|int|Str
name_of|int|Str
qname|int|Str
no_parens|int|int
params|int|Seq<int>
method_range|int|int
base_range|int|int
overridden_range|int|int
is_const|int|bool
is_virtual|int|bool
is_def|int|bool
inline_body|int|bool
parent_of|int|int
rtype|int|int
type_of|int|int
canon|int|int
unqual|int|int
is_void|int|bool
is_ref|int|bool
pointee|int|int
const_q|int|bool
is_ptr|int|bool
is_char|int|bool
is_rec|int|bool
rec_of|int|int
base_type|int|int
nargs|int|int
arg|int int|int
callee|int|int
context_of|int|int
sub|int|int
ref_decl|int|int
init_of|int|int
begin_of|int|int
loc_text|int|Str
derives|int Str|bool
refs_in|int|Seq<int>
size_of|int|nat
depth|int|nat'''.split('\n')]) + r"""
// facts of clang
pub broadcast axiom fn ax_arg(c: int, i: int) ensures 0 <= i < nargs(c) ==> #[trigger] arg(c, i) != 0 && size_of(arg(c, i)) < size_of(c);
pub broadcast axiom fn ax_nargs(c: int) ensures 0 <= #[trigger] nargs(c) < 0x7fffffff;
pub open spec fn has_sub(c: int) -> bool { u_isa_clang_UnaryOperator_1(c) || u_isa_clang_ExplicitCastExpr_1(c) || u_isa_clang_ImplicitCastExpr_1(c) || u_isa_clang_MaterializeTemporaryExpr_1(c) }
pub broadcast axiom fn ax_sub(c: int) ensures has_sub(c) ==> #[trigger] sub(c) != 0 && size_of(sub(c)) < size_of(c);
pub broadcast axiom fn ax_parens(c: int) ensures c != 0 ==> #[trigger] no_parens(c) != 0, size_of(no_parens(c)) <= size_of(c);
pub broadcast axiom fn ax_ref(c: int) ensures #[trigger] ref_decl(c) != 0;
pub broadcast axiom fn ax_type(c: int) ensures c != 0 ==> #[trigger] type_of(c) != 0;
pub broadcast axiom fn ax_rtype(c: int) ensures c != 0 ==> #[trigger] rtype(c) != 0;
pub broadcast axiom fn ax_btype(c: int) ensures #[trigger] base_type(c) != 0;
pub broadcast axiom fn ax_params(f: int, i: int) ensures 0 <= i < params(f).len() ==> #[trigger] params(f)[i] != 0;
pub broadcast axiom fn ax_nparams(f: int) ensures #[trigger] params(f).len() < 0x7fffffff;
pub broadcast axiom fn ax_methods(f: int, i: int) ensures 0 <= i < methods(f).len() ==> #[trigger] methods(f)[i] != 0;
pub broadcast axiom fn ax_overridden(f: int, i: int) ensures 0 <= i < overridden(f).len() ==> #[trigger] overridden(f)[i] != 0;
pub broadcast axiom fn ax_parent(m: int) ensures m != 0 ==> #[trigger] parent_of(m) != 0;
pub broadcast axiom fn ax_context(f: int) ensures f != 0 ==> #[trigger] context_of(f) != 0;
/// a class does not derive from itself
pub broadcast axiom fn ax_base(r: int, i: int) ensures 0 <= i < bases(r).len() && base_rec(bases(r)[i]) != 0 ==> depth(base_rec(#[trigger] bases(r)[i])) < depth(r);
pub open spec fn methods(r: int) -> Seq<int> { u_elements_1(method_range(r)) }
pub open spec fn overridden(m: int) -> Seq<int> { u_elements_1(overridden_range(m)) }
pub open spec fn bases(r: int) -> Seq<int> { u_elements_1(base_range(r)) }
pub open spec fn base_rec(b: int) -> int { rec_of(base_type(b)) }
pub open spec fn qt(name: Str, ns: Str) -> Str { if ns.len() == 0 { name } else { ns + L"::" + name } }
pub open spec fn same_type(a: int, b: int) -> bool { unqual(canon(type_of(a))) == unqual(canon(type_of(b))) }
pub open spec fn match_(a: int, b: int) -> bool { a != 0 && b != 0 && params(a).len() == params(b).len() && forall|i: int| 0 <= i < params(a).len() ==> same_type(#[trigger] params(a)[i], params(b)[i]) }
/// the QObject among the classes it derives from directly
pub open spec fn qbase_of(bs: Seq<int>, ns: Str) -> int decreases bs.len() { if bs.len() == 0 { 0 } else if derives(base_rec(bs[0]), qt(L"QObject", ns)) { base_rec(bs[0]) } else { qbase_of(bs.skip(1), ns) } }
pub open spec fn qbase(r: int, ns: Str) -> int { if r == 0 { 0 } else { qbase_of(bases(r), ns) } }
pub proof fn qbase_less(bs: Seq<int>, ns: Str, r: int) requires r != 0, bs == bases(r) || (exists|k: int| 0 <= k <= bases(r).len() && bs == bases(r).skip(k)) ensures qbase_of(bs, ns) != 0 ==> depth(qbase_of(bs, ns)) < depth(r) decreases bs.len()
{ broadcast use ax_base; if bs.len() > 0 { let k = if bs == bases(r) { assert(bs =~= bases(r).skip(0)); 0 } else { choose|k: int| 0 <= k <= bases(r).len() && bs == bases(r).skip(k) }; assert(bases(r)[k] == bs[0]); assert(bs.skip(1) =~= bases(r).skip(k + 1)); qbase_less(bs.skip(1), ns, r); } }
pub open spec fn is_connect(f: int, ns: Str) -> bool { f != 0 && qname(f) == qt(L"QObject::connect", ns) }
pub open spec fn char_ptr(p: int) -> bool { is_ptr(type_of(p)) && pointee(type_of(p)) != 0 && is_char(pointee(type_of(p))) }
pub open spec fn pmf_style(f: int) -> bool { forall|i: int| 0 <= i < params(f).len() ==> !char_ptr(#[trigger] params(f)[i]) }
pub open spec fn as_method(d: int) -> int { if d != 0 && u_isa_clang_CXXMethodDecl_1(d) { d } else { 0 } }
pub open spec fn pmf_unary(u: int) -> int { if u != 0 && u_isa_clang_UnaryOperator_1(u) && u_isa_clang_DeclRefExpr_1(sub(u)) { as_method(ref_decl(sub(u))) } else { 0 } }
/// the method that the expression names
pub open spec fn pmf(e0: int, ns: Str) -> int decreases size_of(e0) { let e = no_parens(e0);
    if u_isa_clang_UnaryOperator_1(e) { pmf_unary(e) }
    else if u_isa_clang_CXXOperatorCallExpr_1(e) { if nargs(e) > 1 && callee(e) != 0 && u_isa_clang_CXXRecordDecl_1(context_of(callee(e))) && (qname(context_of(callee(e))) == qt(L"QNonConstOverload", ns) || qname(context_of(callee(e))) == qt(L"QConstOverload", ns)) { pmf_unary(arg(e, 1)) } else { 0 } }
    else if u_isa_clang_ExplicitCastExpr_1(e) || (!u_isa_clang_CallExpr_1(e) && (u_isa_clang_MaterializeTemporaryExpr_1(e) || u_isa_clang_ImplicitCastExpr_1(e))) { if size_of(sub(e)) < size_of(e0) { pmf(sub(e), ns) } else { 0 } }
    else if u_isa_clang_CallExpr_1(e) && nargs(e) == 1 && size_of(arg(e, 0)) < size_of(e0) { pmf(arg(e, 0), ns) } else { 0 } }
/// the variable that is passed, if it is one
pub open spec fn var_of(e: int) -> int { if u_isa_clang_ImplicitCastExpr_1(e) && u_isa_clang_DeclRefExpr_1(sub(e)) && u_isa_clang_VarDecl_1(ref_decl(sub(e))) { ref_decl(sub(e)) } else { 0 } }
pub open spec fn pmf_arg(c: int, i: int, ns: Str) -> int {
    if c == 0 || i < 0 || i >= nargs(c) { 0 } else if var_of(arg(c, i)) != 0 && refs_in(init_of(var_of(arg(c, i)))).len() > 0 { as_method(ref_decl(refs_in(init_of(var_of(arg(c, i)))).last())) } else { pmf(arg(c, i), ns) } }
pub open spec fn receiver(c: int, ns: Str) -> int { if pmf_arg(c, 2, ns) != 0 { pmf_arg(c, 2, ns) } else { pmf_arg(c, 3, ns) } }
/// the definition outside of the class repeats the declaration
pub open spec fn first_seen(m: int) -> bool { !is_def(m) || inline_body(m) }
pub open spec fn is_signal(a: int, m: int) -> bool { role_of(a, m) == 3 }
pub open spec fn is_slot(a: int, m: int) -> bool { role_of(a, m) == 2 }
pub open spec fn ev(at: int, msg: Str) -> Ev { Ev { at: at, msg: msg } }
// overloaded-signal
pub open spec fn ov_msg(m: int, p: int, r: int) -> Str { if p == r { L"signal " + name_of(m) + L" is overloaded" } else { L"signal " + name_of(m) + L" is overloaded (with " + loc_text(begin_of(p)) + L")" } }
pub open spec fn ov_class(log: Seq<Ev>, m: int, p: int, r: int, ms: Seq<int>) -> Seq<Ev> decreases ms.len() { if ms.len() == 0 { log } else {
    let l = ov_class(log, m, p, r, ms.drop_last()); if name_of(ms.last()) == name_of(m) && !match_(ms.last(), m) { l.push(ev(m, ov_msg(m, p, r))) } else { l } } }
pub open spec fn ov_chain(log: Seq<Ev>, m: int, p: int, r: int, ns: Str) -> Seq<Ev> decreases depth(p) { if p == 0 { log } else {
    let l = ov_class(log, m, p, r, methods(p)); let b = qbase(p, ns); if b == 0 { l } else if depth(b) < depth(p) { ov_chain(l, m, b, r, ns) } else { l } } }
pub open spec fn overloads(log: Seq<Ev>, a: int, m: int, ns: Str) -> Seq<Ev> { if u_isa_clang_CXXMethodDecl_1(m) && a != 0 && first_seen(m) && is_signal(a, m) { ov_chain(log, m, parent_of(m), parent_of(m), ns) } else { log } }
// overridden-signal
pub open spec fn overrides(a: int, m: int, x: int) -> bool { name_of(x) == name_of(m) && match_(m, x) && (is_signal(a, m) || is_signal(a, x)) }
pub open spec fn ovr_in(a: int, m: int, ms: Seq<int>) -> int decreases ms.len() { if ms.len() == 0 { 0 } else if overrides(a, m, ms[0]) { ms[0] } else { ovr_in(a, m, ms.skip(1)) } }
pub open spec fn ovr_chain(a: int, m: int, p: int, ns: Str) -> int decreases depth(p) { if p == 0 { 0 } else if ovr_in(a, m, methods(p)) != 0 { ovr_in(a, m, methods(p)) } else { let b = qbase(p, ns); if b != 0 && depth(b) < depth(p) { ovr_chain(a, m, b, ns) } else { 0 } } }
pub open spec fn ovr_msg(a: int, m: int, x: int) -> Str { if is_signal(a, m) && is_signal(a, x) { L"Overriding signal with signal: " + qname(m) } else if is_signal(a, m) { L"Overriding non-signal with signal: " + qname(m) } else { L"Overriding signal with non-signal: " + qname(m) } }
pub open spec fn overridings(log: Seq<Ev>, a: int, m: int, ns: Str) -> Seq<Ev> {
    let x = ovr_chain(a, m, qbase(parent_of(m), ns), ns); if u_isa_clang_CXXMethodDecl_1(m) && a != 0 && first_seen(m) && x != 0 { log.push(ev(m, ovr_msg(a, m, x))) } else { log } }
// connect-by-name
pub open spec fn by_name(a: int, m: int) -> bool { is_slot(a, m) && name_of(m).len() >= 3 && name_of(m).take(3) == L"on_" && split(name_of(m), 95).len() == 3 }
pub open spec fn named(log: Seq<Ev>, a: int, ms: Seq<int>) -> Seq<Ev> decreases ms.len() { if ms.len() == 0 { log } else { let l = named(log, a, ms.drop_last()); if by_name(a, ms.last()) { l.push(ev(ms.last(), L"Slots named on_foo_bar are error prone")) } else { l } } }
pub proof fn step(s: Seq<int>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s, s.skip(k)[0] == s[k], s.skip(k).skip(1) =~= s.skip(k + 1) { }
// signal-with-return-value
pub open spec fn by_ref(p: int) -> bool { is_ref(type_of(p)) && !const_q(pointee(type_of(p))) }
pub open spec fn refs(log: Seq<Ev>, m: int, ps: Seq<int>) -> Seq<Ev> decreases ps.len() { if ps.len() == 0 { log } else { let l = refs(log, m, ps.drop_last()); if by_ref(ps.last()) { l.push(ev(m, name_of(m) + L"() shouldn't receive parameters by ref. For a clean design signals shouldn't assume a single slot are connected to them.")) } else { l } } }
pub open spec fn ret_log(log: Seq<Ev>, m: int) -> Seq<Ev> { if !is_void(rtype(m)) { log.push(ev(m, name_of(m) + L"() should return void. For a clean design signals shouldn't assume a single slot are connected to them.")) } else { log } }
// virtual-signal: it may implement what a class that is no QObject declares
pub open spec fn foreign(m: int, ns: Str) -> bool { !derives(parent_of(m), qt(L"QObject", ns)) }
pub open spec fn some_foreign(m: int, ns: Str) -> bool { exists|i: int| 0 <= i < overridden(m).len() && foreign(#[trigger] overridden(m)[i], ns) }
pub open spec fn pmf_call(c: int, ns: Str) -> bool { u_isa_clang_CallExpr_1(c) && is_connect(callee(c), ns) && pmf_style(callee(c)) }
pub open spec fn meta_method(c: int, i: int, ns: Str) -> bool { i < nargs(c) && is_rec(type_of(arg(c, i))) && rec_of(type_of(arg(c, i))) != 0 && qname(rec_of(type_of(arg(c, i)))) == qt(L"QMetaMethod", ns) }
pub open spec fn non_signal(log: Seq<Ev>, a: int, c: int, ns: Str) -> Seq<Ev> {
    if !pmf_call(c, ns) { log } else { let m = pmf_arg(c, 1, ns);
        if m == 0 { if meta_method(c, 1, ns) { log } else { log.push(ev(begin_of(c), L"couldn't find method from pmf connect, please report a bug")) } }
        else if a != 0 && role_of(a, m) != 1 && !is_signal(a, m) { log.push(ev(c, qname(m) + L" is not a signal")) } else { log } } }
pub open spec fn getter_call(log: Seq<Ev>, a: int, c: int, ns: Str) -> Seq<Ev> { let m = receiver(c, ns);
    if a != 0 && pmf_call(c, ns) && m != 0 && is_const(m) && !is_void(rtype(m)) && !is_signal(a, m) && !is_slot(a, m) { log.push(ev(c, qname(m) + L" is not a slot, and is possibly a getter")) } else { log } }
pub open spec fn const_decl(log: Seq<Ev>, a: int, m: int) -> Seq<Ev> {
    if !u_isa_clang_CXXMethodDecl_1(m) || !is_const(m) || a == 0 || !first_seen(m) || derives(parent_of(m), L"QDBusAbstractInterface") || scriptable(a, m) { log }
    else if is_slot(a, m) && !is_void(rtype(m)) { log.push(ev(m, L"getter " + qname(m) + L" possibly mismarked as a slot")) } else if is_signal(a, m) { log.push(ev(m, L"signal " + qname(m) + L" shouldn't be const")) } else { log } }
"""
F = Fn
LOG = {'log': 'Seq<Ev>'}
AX = ['ax_arg', 'ax_nargs', 'ax_sub', 'ax_parens', 'ax_ref', 'ax_type', 'ax_rtype', 'ax_btype', 'ax_params', 'ax_nparams', 'ax_methods', 'ax_overridden', 'ax_parent', 'ax_context', 'ax_base']
A = 'asm_of(self_.m_context)'; N = 'ns_of(self_.m_context)'
CONTRACTS = {
 'ConnectNonSignal::VisitStmt': F(params=['stmt'], mut=[], uses=AX, statics=LOG, requires=['stmt != 0'], ensures=[f'log_out == non_signal(log, {A}, stmt, {N})']),
 'ConnectByName::VisitDecl': F(params=['decl'], mut=[], uses=AX, statics=LOG, requires=['decl != 0'], ensures=[f'log_out == if u_isa_clang_CXXRecordDecl_1(decl) && {A} != 0 {{ named(log, {A}, methods(decl)) }} else {{ log }}'],
    loops=[Loop(pre='let ghost log0 = log;', inv=['rng0 == methods(decl)', f'log == named(log0, {A}, rng0.take(i0))'], before='assert(rng0.take(0) =~= Seq::<int>::empty());', start='step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')]),
 'OverloadedSignal::VisitDecl': F(params=['decl'], mut=[], uses=AX, statics=LOG, requires=['decl != 0'], ensures=[f'log_out == overloads(log, {A}, decl, {N})'],
    loops=[Loop(pre='let ghost log0 = log;', inv=['method == decl && decl != 0', 'record == parent_of(decl)', 'methodName == name_of(decl)', f'ov_chain(log0, decl, record, record, {N}) == ov_chain(log, decl, p, record, {N})'], dec='(if p == 0 { 0 } else { depth(p) + 1 })', start='qbase_less(bases(p), %s, p);' % N),
      Loop(pre='let ghost log1 = log;', inv=['rng1 == methods(p)', 'method == decl && decl != 0', 'methodName == name_of(decl)', 'log == ov_class(log1, decl, p, record, rng1.take(i1))'], before='assert(rng1.take(0) =~= Seq::<int>::empty());', start='step(rng1, i1);', after='assert(rng1.take(i1) =~= rng1);')]),
 'OverriddenSignal::VisitDecl': F(params=['decl'], mut=[], uses=AX, statics=LOG, requires=['decl != 0'], ensures=[f'log_out == overridings(log, {A}, decl, {N})'],
    loops=[Loop(inv=['method == decl && decl != 0 && u_isa_clang_CXXMethodDecl_1(decl) && first_seen(decl)', f'{A} != 0 && accessSpecifierManager == {A}', f'methodIsSignal == is_signal({A}, decl)', 'methodName == name_of(decl)', 'warningMsg.len() == 0', 'log == log_in', f'ovr_chain({A}, decl, qbase(parent_of(decl), {N}), {N}) == ovr_chain({A}, decl, baseClass, {N})'], dec='(if baseClass == 0 { 0 } else { depth(baseClass) + 1 })', start='qbase_less(bases(baseClass), %s, baseClass);' % N),
      Loop(inv=['rng1 == methods(baseClass)', 'warningMsg.len() == 0', 'log == log_in', f'ovr_in({A}, decl, rng1) == ovr_in({A}, decl, rng1.skip(i1))'], before='assert(rng1.skip(0) =~= rng1);', start='step(rng1, i1);')]),
 'ConstSignalOrSlot::VisitStmt': F(params=['stmt'], mut=[], uses=AX, statics=LOG, requires=['stmt != 0'], ensures=[f'log_out == getter_call(log, {A}, stmt, {N})']),
 'ConstSignalOrSlot::VisitDecl': F(params=['decl'], mut=[], uses=AX, statics=LOG, requires=['decl != 0'], ensures=[f'log_out == const_decl(log, {A}, decl)']),
 'VirtualSignal::VisitDecl': F(params=['stmt'], mut=[], uses=AX, statics=LOG, requires=['stmt != 0'], ensures=[f'log_out == if u_isa_clang_CXXMethodDecl_1(stmt) && is_virtual(stmt) && {A} != 0 && is_signal({A}, stmt) && !some_foreign(stmt, {N}) {{ log.push(ev(stmt, L"signal is virtual")) }} else {{ log }}'],
    loops=[Loop(inv=['rng0 == overridden(stmt)', f'forall|j: int| 0 <= j < i0 ==> !foreign(#[trigger] overridden(stmt)[j], {N})'])]),
 'SignalWithReturnValue::VisitDecl': F(params=['decl'], mut=[], uses=AX, statics=LOG, requires=['decl != 0'], ensures=[f'log_out == if u_isa_clang_CXXMethodDecl_1(decl) && {A} != 0 && first_seen(decl) && is_signal({A}, decl) && !scriptable({A}, decl) {{ refs(ret_log(log, decl), decl, params(decl)) }} else {{ log }}'],
    loops=[Loop(pre='let ghost log0 = log;', inv=['rng0 == params(decl)', 'log == refs(log0, decl, rng0.take(i0))'], before='assert(rng0.take(0) =~= Seq::<int>::empty());', start='step(rng0, i0);', after='assert(rng0.take(i0) =~= rng0);')]),
 'clazy::isConnect': F(params=['func', 'ns'], mut=[], ensures=['ret == is_connect(func, ns)'], pure='is_connect'),
 'clazy::connectHasPMFStyle': F(params=['func'], mut=[], uses=AX, requires=['func != 0'], ensures=['ret == pmf_style(func)'], loops=[Loop(inv=['rng0 == params(func)', 'forall|j: int| 0 <= j < i0 ==> !char_ptr(#[trigger] params(func)[j])'])]),
 'clazy::pmfFromConnect': F(params=['call', 'argIndex', 'ns'], mut=[], uses=AX, ensures=['ret == pmf_arg(call, argIndex, ns)']),
 'clazy::pmfFromExpr': F(params=['e', 'ns'], mut=[], uses=AX, requires=['e != 0'], decreases='size_of(e)', ensures=['ret == pmf(e, ns)']),
 'clazy::pmfFromUnary': F(params=['uo'], mut=[], uses=AX, requires=['uo == 0 || u_isa_clang_UnaryOperator_1(uo)'], ensures=['ret == pmf_unary(uo)']),
 'clazy::receiverMethodForConnect': F(params=['call', 'ns'], mut=[], ensures=['ret == receiver(call, ns)']),
 'clazy::parametersMatch': F(params=['f1', 'f2'], mut=[], uses=AX, ensures=['ret == match_(f1, f2)'], loops=[Loop(inv=['f1 != 0 && f2 != 0', '0 <= i <= e', 'e == params(f1).len()', 'params1 == params(f1) && params2 == params(f2)', 'params(f1).len() == params(f2).len()', 'forall|j: int| 0 <= j < i ==> same_type(#[trigger] params(f1)[j], params(f2)[j])'])]),
 'clazy::getQObjectBaseClass': F(params=['r', 'ns'], mut=[], uses=AX, ensures=['ret == qbase(r, ns)'], loops=[Loop(inv=['rng0 == bases(r)', 'r != 0', 'qbase_of(bases(r), ns) == qbase_of(bases(r).skip(i0), ns)'], before='assert(bases(r).skip(0) =~= bases(r));', start='step(bases(r), i0);')]),
}
