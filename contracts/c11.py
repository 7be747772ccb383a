"""C11: how parameters and loop variables are passed."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
C = 'src/checks/'
SOURCES = [C + 'level2/function-args-by-ref.cpp', C + 'level2/function-args-by-value.cpp', C + 'level1/range-loop-reference.cpp', C + 'level1/foreach.cpp', 'src/TypeUtils.cpp', 'src/Utils.cpp', 'src/QtUtils.cpp']
FIELDS = {}
TYPEMAP = {'clang::FixItHint': 'Fix'}
TV = parse('void')
def warn(tr, o, vs, t):
    fx = vs[2].e if len(vs) > 2 and tr.p.kind(vs[2].t) == 'vec' else 'Seq::<Fix>::empty()'
    tr.assign(('var', 'log'), f'log.push(Ev {{ at: {vs[0].e}, msg: {tr.to_str(vs[1])}, fix: {fx} }})'); return V('()', TV)
def elem(t): return str(t.args[0].raw if hasattr(t.args[0], 'raw') else t.args[0]).replace('clang::', '').replace('*', '').replace('const', '').strip()
def childs(tr, o, vs, t):
    tr.assign(vs[1].lv, f'{vs[1].e} + kids_{elem(vs[1].t)}({vs[0].e})'); return V('()', TV)
def near(tr, o, vs, t): return V(f'near_{elem(t)}({vs[0].e})', t)
def S(f): return lambda tr, o, vs, t: V(f.format(*[o.e if o is not None else ''] + [(tr.to_str(v) if tr.p.kind(v.t) in ('str', 'cstr', 'ptr') and i == 0 else v.e) for i, v in enumerate(vs)]), t)
def unconst(tr, o, vs, t): tr.assign(o.lv, f'unconst({o.e})'); return V('()', TV)
def printed(tr, o, vs, t): tr.assign(vs[0].lv, f'decl_text({o.e}, {vs[0].e})'); return V('()', TV)
EXT = {
 'clang::QualType::removeLocalConst': unconst, 'clang::QualType::getAsStringInternal': printed, 'clang::DeclaratorDecl::getSourceRange': 'declarator({0})', 'clang::SourceRange::getEnd': 'range_end({0})', 'clang::SourceRange::getBegin': 'range_begin({0})', 'clang::NamedDecl::getName': 'name_of({0})', 'clang::ParmVarDecl::hasInheritedDefaultArg': 'default_elsewhere({0})', 'clang::ParmVarDecl::hasDefaultArg': 'has_default({0})', 'clang::ParmVarDecl::getDefaultArg': 'default_arg({0})', 'clang::SourceLocation::printToString': 'loc_text({0})',
 'clang::Redeclarable<clang::FunctionDecl>::redecls_begin': 'redecl_begin({0})', 'clang::Redeclarable<clang::FunctionDecl>::redecls_end': 'redecl_end({0})', 'clang::FixItHint::FixItHint': lambda tr, o, vs, t: V('Fix { at: 0, end: 0, text: Seq::<int>::empty() }', t), 'clang::SourceRange::SourceRange': lambda tr, o, vs, t: V(f'span({vs[0].e}, {vs[-1].e})' if vs else '0int', t), 'std::distance': 'distance({1}, {2})',
 'CheckBase::emitWarning': warn, 'clazy::getChilds': childs, 'clazy::getStatements': near,
 'clazy::createInsertion': lambda tr, o, vs, t: V(f'Fix {{ at: {vs[0].e}, end: 0, text: {tr.to_str(vs[1])} }}', t),
 'clazy::createReplacement': lambda tr, o, vs, t: V(f'Fix {{ at: range_begin({vs[0].e}), end: range_end({vs[0].e}), text: {tr.to_str(vs[1])} }}', t),
 'clang::QualType::operator->': '{0}', 'clang::QualType::getTypePtrOrNull': '{0}', 'clang::QualType::isConstQualified': 'const_q({0})', 'clang::QualType::isNull': '({0} == 0)',
 'clang::Type::isReferenceType': 'is_ref({0})', 'clang::Type::isLValueReferenceType': 'is_lref({0})', 'clang::Type::isRValueReferenceType': 'is_rref({0})', 'clang::Type::getPointeeType': 'pointee({0})',
 'clang::Type::isIncompleteType': 'incomplete({0})', 'clang::Type::isDependentType': 'dependent({0})', 'clang::Type::isArrayType': 'is_array({0})', 'clang::Type::getAsCXXRecordDecl': 'rec_of({0})', 'clang::Type::isPointerType': 'is_ptr({0})', 'clang::Type::isRecordType': 'is_rec({0})',
 'clang::DeducedType::getDeducedType': 'deduced({0})', 'clang::AutoType::getDeducedType': 'deduced({0})',
 'clang::ASTContext::getTypeSize': 'bits({1})', 'clang::CXXRecordDecl::hasNonTrivialCopyConstructor': 'nontriv_copy({0})', 'clang::CXXRecordDecl::hasNonTrivialDestructor': 'nontriv_dtor({0})', 'clang::FunctionDecl::isDeleted': 'deleted({0})', 'clang::CXXRecordDecl::getDestructor': 'dtor_of({0})',
 'clang::CXXRecordDecl::ctors': 'ctor_range({0})', 'clang::CXXConstructorDecl::isCopyConstructor': 'is_copy({0})',
 'clang::CXXMemberCallExpr::getMethodDecl': 'method_of({0})', 'clang::CXXMethodDecl::isConst': 'is_const({0})', 'clang::CXXMethodDecl::isVirtual': 'is_virtual({0})', 'clang::CallExpr::getDirectCallee': 'callee({0})', 'clang::BinaryOperator::isAssignmentOp': 'is_assign({0})', 'clang::UnaryOperator::isIncrementDecrementOp': 'is_incdec({0})', 'clang::DeclRefExpr::getDecl': 'ref_decl({0})', 'clang::MemberExpr::getMemberDecl': 'member_decl({0})',
 'clang::CXXMemberCallExpr::getImplicitObjectArgument': 'object_of({0})', 'clazy::childAt': 'child_at({1}, {2})', 'clang::CXXConstructExpr::getConstructor': 'ctor_of({0})', 'clang::FunctionDecl::getParamDecl': ('params({0})[{1}]', '0 <= {1} < params({0}).len()'), 'clang::FunctionDecl::param_size': '(params({0}).len() as int)', 'clang::FunctionDecl::parameters': 'params({0})', 'clang::ValueDecl::getType': 'qtype({0})',
 'clang::CallExpr::arguments': 'args_range({0})', 'clang::CXXConstructExpr::arguments': 'args_range({0})', 'clang::StmtIteratorImpl::operator*': 'kid_at({0})', 'clang::StmtIteratorImpl<clang::StmtIterator, clang::Stmt *&>::operator*': 'kid_at({0})', 'clang::Stmt::child_begin': 'kid_begin({0})', 'clang::Stmt::child_end': 'kid_end({0})', 'clang::Stmt::children': 'kid_range({0})', 'clazy::hasChildren': 'has_kids({1})',
 'clang::SourceManager::isBeforeInSLocAddrSpace': 'before({1}, {2})', 'clang::SourceLocation::isInvalid': '({0} == 0)', 'clang::SourceLocation::isValid': '({0} != 0)', 'clang::Stmt::getBeginLoc': 'sbegin({0})', 'clang::Expr::getBeginLoc': 'sbegin({0})', 'clang::CXXConstructExpr::getBeginLoc': 'sbegin({0})', 'clang::CallExpr::getBeginLoc': 'sbegin({0})',
 'clang::CXXConstructorDecl::inits': 'init_range({0})', 'clang::CXXCtorInitializer::getInit': 'init_expr({0})', 'clang::CXXCtorInitializer::isMemberInitializer': 'is_member_init({0})', 'clang::CXXCtorInitializer::getMember': 'init_member({0})',
 'clang::NamedDecl::getQualifiedNameAsString': 'qname({0})', 'clang::NamedDecl::getNameAsString': 'name_of({0})', 'clazy::name': 'name_of({1})',
 'clang::FunctionDecl::getOverloadedOperator': 'oper({0})', 'clang::FunctionDecl::isThisDeclarationADefinition': 'is_def({0})', 'clang::FunctionDecl::getBody': 'body_of({0})', 'clang::FunctionDecl::isDefaulted': 'is_defaulted({0})', 'clang::FunctionDecl::doesThisDeclarationHaveABody': 'has_body({0})', 'clang::CXXMethodDecl::size_overridden_methods': 'n_overridden({0})', 'clang::LambdaExpr::getCallOperator': 'call_op({0})',
 'clang::Redeclarable<clang::FunctionDecl>::redecls': 'redecl_range({0})', 'CheckBase::isOptionSet': S('option_set({0}, {1})'), 'ClazyContext::isQtDeveloper': 'qt_dev({0})', 'ClazyContext::qtNamespace': 'ns_of({0})', 'CheckBase::trimQtNamespace': S('trim_ns(ns_of({0}.m_context), {1})'), 'clazy::trimQtNamespace': S('trim_ns({2}, {1})'), 'CheckBase::lo': '0', 'CheckBase::sm': '0',
 'clang::QualType::getAsString': 'type_text({0})', 'clang::ParmVarDecl::getBeginLoc': 'dbegin({0})', 'clang::DeclaratorDecl::getBeginLoc': 'dbegin({0})', 'clang::Decl::getBeginLoc': 'dbegin({0})', 'clang::Decl::getLocation': 'dname({0})', 'clang::ParmVarDecl::getEndLoc': 'dend({0})', 'clang::Decl::getEndLoc': 'dend({0})',
 'CheckBase::shouldIgnoreFile': 'ignored_file({1})', 'clang::CXXForRangeStmt::getRangeInit': 'range_init({0})', 'clang::CXXForRangeStmt::getLoopVariable': 'loop_var({0})', 'clang::Expr::getType': 'qtype({0})', 'clazy::simpleTypeName': 'simple_type({1})',
 'clang::ForStmt::getBody': 'for_body({0})', 'clang::DeclStmt::getSingleDecl': 'single_decl({0})',
}
U = lambda sig: f'pub uninterp spec fn {sig};\n'
PRELUDE = r"""
pub struct Fix { pub at: int, pub end: int, pub text: Str }
pub struct Ev { pub at: int, pub msg: Str, pub fix: Seq<Fix> }
pub type QC = R_clazy_QualTypeClassification;
""" + ''.join(U(f'{n}({", ".join(f"x{i}: " + a for i, a in enumerate(args.split()))}) -> {r}') for n, args, r in [l.split('|') for l in """const_q|int|bool
is_ref|int|bool
is_lref|int|bool
is_rref|int|bool
pointee|int|int
incomplete|int|bool
dependent|int|bool
is_array|int|bool
is_ptr|int|bool
is_rec|int|bool
deduced|int|int
rec_of|int|int
bits|int|int
nontriv_copy|int|bool
nontriv_dtor|int|bool
deleted|int|bool
dtor_of|int|int
ctor_range|int|int
is_copy|int|bool
method_of|int|int
is_const|int|bool
is_virtual|int|bool
callee|int|int
is_assign|int|bool
is_incdec|int|bool
ref_decl|int|int
member_decl|int|int
object_of|int|int
child_at|int int|int
ctor_of|int|int
params|int|Seq<int>
qtype|int|int
args_range|int|int
kid_begin|int|int
kid_end|int|int
kid_at|int|int
kid_range|int|int
has_kids|int|bool
before|int int|bool
sbegin|int|int
init_range|int|int
init_expr|int|int
is_member_init|int|bool
init_member|int|int
qname|int|Str
name_of|int|Str
oper|int|int
is_def|int|bool
body_of|int|int
is_defaulted|int|bool
has_body|int|bool
n_overridden|int|int
call_op|int|int
redecl_range|int|int
qt_dev|int|bool
ns_of|int|Str
type_text|int|Str
dbegin|int|int
dname|int|int
dend|int|int
ignored_file|int|bool
range_init|int|int
loop_var|int|int
simple_type|int|Str
for_body|int|int
single_decl|int|int
range_begin|int|int
unconst|int|int
declarator|int|int
default_elsewhere|int|bool
span|int int|int
decl_text|int Str|Str
has_default|int|bool
default_arg|int|int
loc_text|int|Str
redecl_begin|int|int
redecl_end|int|int
distance|int int|int
range_end|int|int
size_of|int|nat
kids_CXXMemberCallExpr|int|Seq<int>
kids_CXXOperatorCallExpr|int|Seq<int>
kids_BinaryOperator|int|Seq<int>
kids_UnaryOperator|int|Seq<int>
kids_DeclRefExpr|int|Seq<int>
kids_CallExpr|int|Seq<int>
kids_CXXConstructExpr|int|Seq<int>
kids_ForStmt|int|Seq<int>
kids_DeclStmt|int|Seq<int>
near_MemberExpr|int|Seq<int>
near_DeclRefExpr|int|Seq<int>""".split('\n')]) + r"""
pub broadcast axiom fn ax_bits(t: int) ensures 0 <= #[trigger] bits(t) < 0x2_0000_0000;
pub proof fn step(s: Seq<int>, k: int) requires 0 <= k < s.len() ensures s.take(k + 1).drop_last() =~= s.take(k), s.take(k + 1).last() == s[k], s.take(s.len() as int) =~= s, s.skip(k)[0] == s[k], s.skip(k).skip(1) =~= s.skip(k + 1) { }
pub open spec fn unref(q: int) -> int { if q != 0 && is_ref(q) { pointee(q) } else { q } }
pub open spec fn undeduced(t: int) -> bool { t != 0 && u_isa_clang_AutoType_1(t) && deduced(t) == 0 }
/// the type can be judged
pub open spec fn judged(q: int) -> bool { let t = unref(q); t != 0 && !incomplete(t) && !dependent(t) && !is_array(t) && !undeduced(t) }
pub open spec fn bytes(t: int) -> int { bits(t) / 8 }
pub open spec fn big(t: int) -> bool { bytes(t) > 16 }
pub open spec fn ctors(r: int) -> Seq<int> { u_elements_1(ctor_range(r)) }
pub open spec fn copy_in(s: Seq<int>) -> int decreases s.len() { if s.len() == 0 { 0 } else if is_copy(s[0]) { s[0] } else { copy_in(s.skip(1)) } }
pub open spec fn copy_of(r: int) -> int { copy_in(ctors(r)) }
/// copying or destroying it is more than copying its bytes, or not possible at all
pub open spec fn costly(t: int) -> bool { let r = rec_of(t); r != 0 && (nontriv_copy(r) || nontriv_dtor(r) || (copy_of(r) != 0 && deleted(copy_of(r))) || (dtor_of(r) != 0 && deleted(dtor_of(r)))) }
pub open spec fn by_const_value(q: int) -> bool { const_q(unref(q)) && !is_lref(q) && !is_rref(q) }
pub open spec fn by_const_ref(q: int) -> bool { const_q(unref(q)) && is_lref(q) && !is_rref(q) }
pub open spec fn by_value(q: int) -> bool { !const_q(unref(q)) && !is_lref(q) && !is_rref(q) }
/// it is passed by value and could be passed by const reference
pub open spec fn wants_ref(q: int, v: int, body: int) -> bool { by_const_value(q) || (by_value(q) && v != 0 && !(body != 0 && changed(body, v))) }
pub open spec fn classify(q: int, v: int, body: int, c: QC) -> QC {
    let t = unref(q); let n = QC { size_of_T: bytes(t), isBig: big(t), isNonTriviallyCopyable: costly(t), isReference: is_lref(q), isConst: const_q(t), ..c };
    if wants_ref(q, v, body) && (by_const_value(q) || big(t) || costly(t)) { QC { passNonTriviallyCopyableByConstRef: costly(t), passBigTypeByConstRef: if big(t) { true } else { c.passBigTypeByConstRef }, ..n } }
    else if by_const_ref(q) && !big(t) && !costly(t) { QC { passSmallTrivialByValue: true, ..n } } else { n } }
/// what the body does to it
pub open spec fn changed(body: int, v: int) -> bool { used_nonconst(body, v) || passed_on(body, v) }
pub broadcast axiom fn ax_first(s: int) ensures first(s) != 0 ==> #[trigger] size_of(first(s)) < size_of(s);
pub open spec fn first(s: int) -> int { if kid_begin(s) == kid_end(s) { 0 } else { kid_at(kid_begin(s)) } }
/// it is what the first operands of the expression come down to
pub open spec fn refs(s: int, v: int) -> bool decreases size_of(s) { if s == 0 { false } else { (first(s) != 0 && u_isa_clang_DeclRefExpr_1(first(s)) && ref_decl(first(s)) == v) || (first(s) != 0 && size_of(first(s)) < size_of(s) && refs(first(s), v)) } }
pub open spec fn value_m(c: int) -> int { let o = object_of(c);
    if c == 0 || o == 0 { 0 } else if u_isa_clang_DeclRefExpr_1(o) { ref_decl(o) } else if u_isa_clang_MemberExpr_1(o) { member_decl(o) }
    else if near_MemberExpr(o).len() > 0 { member_decl(near_MemberExpr(o)[0]) } else if near_DeclRefExpr(o).len() > 0 { ref_decl(near_DeclRefExpr(o)[0]) } else { 0 } }
pub open spec fn value_o(c: int) -> int { let x = child_at(c, 1);
    if c == 0 || x == 0 { 0 } else if u_isa_clang_MemberExpr_1(x) { member_decl(x) } else if kids_DeclRefExpr(x).len() == 1 { ref_decl(kids_DeclRefExpr(x)[0]) } else { 0 } }
pub open spec fn mut_member(c: int, v: int) -> bool { method_of(c) != 0 && !is_const(method_of(c)) && value_m(c) == v }
pub open spec fn mut_operator(c: int, v: int) -> bool { callee(c) != 0 && u_isa_clang_CXXMethodDecl_1(callee(c)) && !is_const(callee(c)) && value_o(c) == v }
pub open spec fn assigns(c: int, v: int) -> bool { is_assign(c) && refs(c, v) }
pub open spec fn counts(c: int, v: int) -> bool { is_incdec(c) && refs(c, v) }
pub open spec fn used_nonconst(body: int, v: int) -> bool { v != 0 && (
    (exists|i: int| 0 <= i < kids_CXXMemberCallExpr(body).len() && mut_member(#[trigger] kids_CXXMemberCallExpr(body)[i], v)) || (exists|i: int| 0 <= i < kids_CXXOperatorCallExpr(body).len() && mut_operator(#[trigger] kids_CXXOperatorCallExpr(body)[i], v))
    || (exists|i: int| 0 <= i < kids_BinaryOperator(body).len() && assigns(#[trigger] kids_BinaryOperator(body)[i], v)) || (exists|i: int| 0 <= i < kids_UnaryOperator(body).len() && counts(#[trigger] kids_UnaryOperator(body)[i], v))) }
pub open spec fn args(e: int) -> Seq<int> { u_elements_1(args_range(e)) }
/// the variable, or what is made of the variable in one step, e.g. its address
pub open spec fn ref_of(a: int) -> int { if u_isa_clang_DeclRefExpr_1(a) { a } else if has_kids(a) && kid_at(kid_begin(a)) != 0 && u_isa_clang_DeclRefExpr_1(kid_at(kid_begin(a))) { kid_at(kid_begin(a)) } else { 0 } }
/// the function may change what it is given there
pub open spec fn takes_mutable(f: int, i: int) -> bool { i < params(f).len() && { let t = qtype(params(f)[i]); t != 0 && (is_ref(t) || is_ptr(t)) && !const_q(pointee(t)) } }
pub open spec fn hands(e: int, f: int, v: int, strict: bool, i: int) -> bool { ref_of(args(e)[i]) != 0 && ref_decl(ref_of(args(e)[i])) == v && (!strict || takes_mutable(f, i)) }
pub open spec fn hands_some(e: int, f: int, v: int, strict: bool) -> bool { exists|i: int| 0 <= i < args(e).len() && #[trigger] hands(e, f, v, strict, i) }
pub proof fn handed(e: int, f: int, v: int, strict: bool, i: int) requires 0 <= i < args(e).len() ensures hands(e, f, v, strict, i) ==> hands_some(e, f, v, strict) { }
pub open spec fn outside(r: R_StmtBodyRange, s: int) -> bool { s == 0 || sbegin(s) == 0 || (r.sm != 0 && r.searchUntilLoc != 0 && before(r.searchUntilLoc, sbegin(s))) }
pub open spec fn call_hands(r: R_StmtBodyRange, c: int, v: int, strict: bool) -> bool { !outside(r, c) && callee(c) != 0 && hands_some(c, callee(c), v, strict) }
pub open spec fn ctor_hands(r: R_StmtBodyRange, c: int, v: int, strict: bool) -> bool { !outside(r, c) && hands_some(c, ctor_of(c), v, strict) }
pub open spec fn passed_in(r: R_StmtBodyRange, v: int, strict: bool) -> bool { r.body != 0 && ((exists|i: int| 0 <= i < kids_CallExpr(r.body).len() && call_hands(r, #[trigger] kids_CallExpr(r.body)[i], v, strict)) || (exists|i: int| 0 <= i < kids_CXXConstructExpr(r.body).len() && ctor_hands(r, #[trigger] kids_CXXConstructExpr(r.body)[i], v, strict))) }
pub open spec fn passed_on(body: int, v: int) -> bool { passed_in(R_StmtBodyRange { body: body, sm: 0, searchUntilLoc: 0 }, v, true) }
// facts of clang
pub broadcast axiom fn ax_kids(b: int, i: int) ensures 0 <= i < kids_CXXMemberCallExpr(b).len() ==> #[trigger] kids_CXXMemberCallExpr(b)[i] != 0;
pub broadcast axiom fn ax_kids2(b: int, i: int) ensures 0 <= i < kids_CXXOperatorCallExpr(b).len() ==> #[trigger] kids_CXXOperatorCallExpr(b)[i] != 0;
pub broadcast axiom fn ax_kids3(b: int, i: int) ensures 0 <= i < kids_BinaryOperator(b).len() ==> #[trigger] kids_BinaryOperator(b)[i] != 0;
pub broadcast axiom fn ax_kids4(b: int, i: int) ensures 0 <= i < kids_UnaryOperator(b).len() ==> #[trigger] kids_UnaryOperator(b)[i] != 0;
pub broadcast axiom fn ax_kids5(b: int, i: int) ensures 0 <= i < kids_DeclRefExpr(b).len() ==> #[trigger] kids_DeclRefExpr(b)[i] != 0;
pub broadcast axiom fn ax_kids6(b: int, i: int) ensures 0 <= i < kids_CallExpr(b).len() ==> #[trigger] kids_CallExpr(b)[i] != 0;
pub broadcast axiom fn ax_kids7(b: int, i: int) ensures 0 <= i < kids_CXXConstructExpr(b).len() ==> #[trigger] kids_CXXConstructExpr(b)[i] != 0;
pub broadcast axiom fn ax_ctor(c: int) ensures #[trigger] ctor_of(c) != 0;
/// the name without the namespace Qt is in
pub open spec fn trim_ns(ns: Str, n: Str) -> Str { if ns.len() > 0 && str_starts_with(n, ns + L"::") { str_erase(n, 0, ns.len() as int + 2) } else { n } }
pub open spec fn mentions(init: int, p: int) -> bool { exists|i: int| 0 <= i < kids_DeclRefExpr(init_expr(init)).len() && ref_decl(#[trigger] kids_DeclRefExpr(init_expr(init))[i]) == p }
/// the initializers that use the parameter
pub open spec fn inits_with(s: Seq<int>, p: int) -> Seq<int> decreases s.len() { if s.len() == 0 { Seq::empty() } else if mentions(s.last(), p) { inits_with(s.drop_last(), p).push(s.last()) } else { inits_with(s.drop_last(), p) } }
pub open spec fn inits(c: int) -> Seq<int> { u_elements_1(init_range(c)) }
pub open spec fn inits_of(c: int, p: int) -> Seq<int> { if c == 0 { Seq::empty() } else { inits_with(inits(c), p) } }
pub proof fn inits_in(s: Seq<int>, p: int) ensures forall|j: int| 0 <= j < inits_with(s, p).len() ==> s.contains(#[trigger] inits_with(s, p)[j]) decreases s.len() {
    if s.len() > 0 { inits_in(s.drop_last(), p); assert(s[s.len() - 1] == s.last());
        assert forall|j: int| 0 <= j < inits_with(s, p).len() implies s.contains(#[trigger] inits_with(s, p)[j]) by { if j < inits_with(s.drop_last(), p).len() { let x = inits_with(s.drop_last(), p)[j]; assert(s.drop_last().contains(x)); let k = choose|k: int| 0 <= k < s.drop_last().len() && s.drop_last()[k] == x; assert(s[k] == x); } } } }
pub open spec fn is_move(c: int) -> bool { callee(c) != 0 && (qname(callee(c)) == L"std::move" || qname(callee(c)) == L"std::__1::move") }
pub open spec fn moves(init: int) -> bool { init != 0 && exists|i: int| 0 <= i < kids_CallExpr(init_expr(init)).len() && is_move(#[trigger] kids_CallExpr(init_expr(init))[i]) }
pub open spec fn some_moves(s: Seq<int>) -> bool { exists|i: int| 0 <= i < s.len() && moves(#[trigger] s[i]) }
pub open spec fn overrides(m: int) -> bool { m != 0 && is_virtual(m) && n_overridden(m) > 0 }
pub open spec fn shared(r: int, ns: Str) -> bool { r != 0 && (trim_ns(ns, qname(r)) == L"std::shared_ptr" || trim_ns(ns, qname(r)) == L"QSharedPointer" || trim_ns(ns, qname(r)) == L"boost::shared_ptr") }
pub open spec fn listed_class(n: Str) -> bool { n == L"QDebug" || n == L"QGenericReturnArgument" || n == L"QColor" || n == L"QStringRef" || n == L"QList::const_iterator" || n == L"QJsonArray::const_iterator" || n == L"QList<QString>::const_iterator" || n == L"QtMetaTypePrivate::QSequentialIterableImpl" || n == L"QtMetaTypePrivate::QAssociativeIterableImpl" || n == L"QVariantComparisonHelper" || n == L"QHashDummyValue" || n == L"QCharRef" || n == L"QString::Null" }
pub open spec fn listed_fn(n: Str) -> bool { n == L"QDBusMessage::createErrorReply" || n == L"QMenu::exec" || n == L"QTextFrame::iterator" || n == L"QGraphicsWidget::addActions" || n == L"QListWidget::mimeData" || n == L"QTableWidget::mimeData" || n == L"QTreeWidget::mimeData" || n == L"QWidget::addActions" || n == L"QSslCertificate::verify" || n == L"QSslConfiguration::setAllowedNextProtocols" }
pub open spec fn exempt_ref(ns: Str, r: int) -> bool { r != 0 && (shared(r, ns) || listed_class(trim_ns(ns, qname(r)))) }
pub open spec fn exempt_val(ns: Str, r: int) -> bool { r != 0 && (shared(r, ns) || listed_class(qname(r))) }
pub open spec fn as_method(f: int) -> int { if f != 0 && u_isa_clang_CXXMethodDecl_1(f) { f } else { 0 } }
pub open spec fn as_ctor(f: int) -> int { if f != 0 && u_isa_clang_CXXConstructorDecl_1(f) { f } else { 0 } }
pub open spec fn as_function(d: int) -> int { if d != 0 && u_isa_clang_FunctionDecl_1(d) { d } else { 0 } }
pub open spec fn spelled(p: int) -> Str { if name_of(p).len() == 0 { type_text(qtype(p)) } else { type_text(qtype(p)) + (L" " + name_of(p)) } }
pub open spec fn big_text(n: int, p: Str) -> Str { L"Missing reference on large type (sizeof " + p + L" is " + int_to_str(n) + L" bytes)" }
/// the edits that make a parameter one by const reference
pub open spec fn to_ref(p: int) -> Seq<Fix> { let amp = Fix { at: dname(p), end: 0, text: if name_of(p).len() == 0 && has_default(p) && !default_elsewhere(p) { L"& " } else { L"&" } }; if const_q(unref(qtype(p))) { seq![amp] } else { seq![Fix { at: dbegin(p), end: 0, text: L"const " }, amp] } }
pub open spec fn ref_fixes(s: Seq<int>, i: int) -> Seq<Fix> decreases s.len() { if s.len() == 0 || params(s[0]).len() <= i { Seq::empty() } else { to_ref(params(s[0])[i]) + ref_fixes(s.skip(1), i) } }
pub open spec fn redecls(f: int) -> Seq<int> { u_elements_1(redecl_range(f)) }
/// what function-args-by-ref says about a parameter
pub open spec fn ref_text(f: int, p: int) -> Str { if costly(unref(qtype(p))) { qname(f) + L": Missing reference on non-trivial type (" + spelled(p) + L")" } else { big_text(bytes(unref(qtype(p))), spelled(p)) } }
pub open spec fn wrong_ref(ns: Str, f: int, i: int) -> bool { let p = params(f)[i]; let t = unref(qtype(p)); t != 0 && !exempt_ref(ns, rec_of(t)) && judged(qtype(p)) && !some_moves(inits_of(as_ctor(f), p)) && wants_ref(qtype(p), p, body_of(f)) && (big(t) || costly(t)) }
pub open spec fn ref_event(f: int, i: int) -> Ev { let p = params(f)[i]; Ev { at: dbegin(p), msg: ref_text(f, p), fix: ref_fixes(redecls(f), i) } }
pub open spec fn ref_told(ns: Str, f: int, n: int) -> Seq<Ev> decreases n { if n <= 0 { Seq::empty() } else if wrong_ref(ns, f, n - 1) { ref_told(ns, f, n - 1).push(ref_event(f, n - 1)) } else { ref_told(ns, f, n - 1) } }
pub open spec fn ref_says(ctx: int, f: int) -> Seq<Ev> { if f == 0 || !is_def(f) || deleted(f) || oper(f) == 26 || (qt_dev(ctx) && listed_fn(qname(f))) { Seq::empty() } else { ref_told(ns_of(ctx), f, params(f).len() as int) } }
pub broadcast axiom fn ax_redecl(f: int, i: int) ensures 0 <= i < redecls(f).len() ==> #[trigger] redecls(f)[i] != 0 && u_isa_clang_FunctionDecl_1(redecls(f)[i]);
pub uninterp spec fn option_set<T>(c: T, n: Str) -> bool;
/// a member that is a reference is bound to the parameter
pub open spec fn binds(i: int) -> bool { is_member_init(i) && init_member(i) != 0 && (qtype(init_member(i)) == 0 || is_ref(qtype(init_member(i)))) }
pub open spec fn some_binds(s: Seq<int>) -> bool { exists|i: int| 0 <= i < s.len() && binds(#[trigger] s[i]) }
/// the edit that makes a parameter one by value
pub open spec fn val_fix(f: int, p: int) -> Fix { let text = decl_text(unconst(unref(qtype(p))), name_of(p)); fix_of(dbegin(p), range_end(declarator(p)), if name_of(p).len() == 0 { text.push(32) } else { text }) }
pub open spec fn fix_of(a: int, b: int, t: Str) -> Fix { if a == 0 || b == 0 { Fix { at: 0, end: 0, text: L"" } } else { Fix { at: range_begin(span(a, b)), end: range_end(span(a, b)), text: t } } }
pub open spec fn val_fixes(s: Seq<int>, i: int) -> Seq<Fix> { Seq::new(s.len(), |k: int| val_fix(s[k], params(s[k])[i])) }
pub open spec fn wrong_val(ns: Str, f: int, i: int) -> bool { let q = qtype(params(f)[i]); let t = unref(q); t != 0 && !exempt_val(ns, rec_of(t)) && judged(q) && by_const_ref(q) && !big(t) && !costly(t) && (as_ctor(f) == 0 || !some_binds(inits_of(f, params(f)[i]))) }
pub open spec fn val_event(f: int, i: int, opt: bool) -> Ev { let p = params(f)[i]; Ev { at: dbegin(p), msg: qname(f) + L": Pass small and trivially-copyable type by value (" + spelled(p) + L")", fix: if as_method(f) != 0 && is_virtual(f) && !opt { Seq::empty() } else { val_fixes(redecls(f), i) } } }
pub open spec fn val_told(ns: Str, f: int, n: int, opt: bool) -> Seq<Ev> decreases n { if n <= 0 { Seq::empty() } else if wrong_val(ns, f, n - 1) { val_told(ns, f, n - 1, opt).push(val_event(f, n - 1, opt)) } else { val_told(ns, f, n - 1, opt) } }
pub open spec fn val_says(ctx: int, f: int, opt: bool) -> Seq<Ev> { if f == 0 || !is_def(f) || deleted(f) || is_defaulted(f) || (as_ctor(f) != 0 && is_copy(f)) || (!opt && overrides(as_method(f))) || oper(f) == 26 || oper(f) == 15 || oper(f) == 30 || (qt_dev(ctx) && listed_fn(qname(f))) { Seq::empty() } else { val_told(ns_of(ctx), f, params(f).len() as int, opt) } }
pub broadcast axiom fn ax_arity(f: int, i: int) ensures 0 <= i < redecls(f).len() ==> params(#[trigger] redecls(f)[i]).len() == params(f).len();
pub broadcast axiom fn ax_inits(c: int, i: int) ensures 0 <= i < inits(c).len() ==> #[trigger] inits(c)[i] != 0;
/// a range-for over a container that copies each element
pub open spec fn wrong_loop(l: int) -> bool { let v = loop_var(l); let q = qtype(v); range_init(l) != 0 && qtype(range_init(l)) != 0 && is_rec(qtype(range_init(l))) && v != 0 && judged(q) && wants_ref(q, v, l) && costly(unref(q)) }
pub open spec fn loop_fixes(v: int) -> Seq<Fix> { let amp = Fix { at: dname(v), end: 0, text: L"&" }; if const_q(qtype(v)) { Seq::empty().push(amp) } else { Seq::empty().push(Fix { at: dbegin(v), end: 0, text: L"const " }).push(amp) } }
pub open spec fn loop_says(l: int) -> Seq<Ev> { if wrong_loop(l) { seq![Ev { at: dbegin(loop_var(l)), msg: L"Missing reference in range-for with non trivial type (" + simple_type(qtype(loop_var(l))) + L")", fix: loop_fixes(loop_var(l)) }] } else { Seq::empty() } }
/// the loop that foreach expands to, and its variable
pub open spec fn inner(f: int) -> int { if kids_ForStmt(for_body(f)).len() == 0 { 0 } else { kids_ForStmt(for_body(f))[0] } }
pub open spec fn each_var(f: int) -> int { if inner(f) == 0 || kids_DeclStmt(inner(f)).len() == 0 { 0 } else { let d = single_decl(kids_DeclStmt(inner(f))[0]); if d != 0 && u_isa_clang_VarDecl_1(d) { d } else { 0 } } }
pub open spec fn each_text(q: int) -> Str { if big(unref(q)) { L"Missing reference in foreach with sizeof(T) = " + (int_to_str(bytes(unref(q))) + L" bytes (" + type_text(q) + L")") } else { L"Missing reference in foreach with non trivial type (" + type_text(q) + L")" } }
pub open spec fn each_says(f: int) -> Seq<Ev> { let v = each_var(f); let q = qtype(v); if v != 0 && judged(q) && wants_ref(q, v, inner(f)) && (big(unref(q)) || costly(unref(q))) { seq![Ev { at: dbegin(v), msg: each_text(q), fix: Seq::empty() }] } else { Seq::empty() } }
pub broadcast axiom fn ax_for(b: int, i: int) ensures 0 <= i < kids_ForStmt(b).len() ==> #[trigger] kids_ForStmt(b)[i] != 0;
pub broadcast axiom fn ax_decl(b: int, i: int) ensures 0 <= i < kids_DeclStmt(b).len() ==> #[trigger] kids_DeclStmt(b)[i] != 0;
pub broadcast axiom fn ax_near1(b: int, i: int) ensures 0 <= i < near_MemberExpr(b).len() ==> #[trigger] near_MemberExpr(b)[i] != 0;
pub broadcast axiom fn ax_near2(b: int, i: int) ensures 0 <= i < near_DeclRefExpr(b).len() ==> #[trigger] near_DeclRefExpr(b)[i] != 0;
pub broadcast axiom fn ax_args(e: int, i: int) ensures 0 <= i < args(e).len() ==> #[trigger] args(e)[i] != 0;
pub broadcast axiom fn ax_nargs(e: int) ensures #[trigger] args(e).len() < 0x7fffffff;
pub broadcast axiom fn ax_params(f: int, i: int) ensures 0 <= i < params(f).len() ==> #[trigger] params(f)[i] != 0;
pub broadcast axiom fn ax_nparams(f: int) ensures #[trigger] params(f).len() < 0x7fffffff;
"""
F = Fn
LOG = {'log': 'Seq<Ev>'}
AX = ['ax_first', 'ax_for', 'ax_decl', 'ax_arity', 'ax_inits', 'ax_redecl', 'ax_ctor', 'ax_kids', 'ax_kids2', 'ax_kids3', 'ax_kids4', 'ax_kids5', 'ax_kids6', 'ax_kids7', 'ax_near1', 'ax_near2', 'ax_args', 'ax_nargs', 'ax_params', 'ax_nparams']
STEPS = [('mut_member', 'CXXMemberCallExpr'), ('mut_operator', 'CXXOperatorCallExpr'), ('assigns', 'BinaryOperator'), ('counts', 'UnaryOperator')]
def none(k): return Loop(inv=['varDecl != 0', f'rng{k} == kids_{STEPS[k][1]}(body)', f'forall|j: int| 0 <= j < i{k} ==> !{STEPS[k][0]}(#[trigger] rng{k}[j], varDecl)'] + [f'forall|j: int| 0 <= j < kids_{t}(body).len() ==> !{p}(#[trigger] kids_{t}(body)[j], varDecl)' for p, t in STEPS[:k]])
CONTRACTS = {
 'clazy::unrefQualType': F(params=['qualType'], mut=[], ensures=['ret == unref(qualType)'], pure='unref'),
 'clazy::isUndeducibleAuto': F(params=['t'], mut=[], ensures=['ret == undeduced(t)']),
 'Utils::copyCtor': F(params=['record'], mut=[], requires=['record != 0'], ensures=['ret == copy_of(record)'], loops=[Loop(inv=['rng0 == ctors(record)', 'copy_in(ctors(record)) == copy_in(ctors(record).skip(i0))'], before='assert(ctors(record).skip(0) =~= ctors(record));', start='step(ctors(record), i0);')]),
 'clazy::classifyQualType': F(params=['context', 'qualType', 'varDecl', 'classif', 'body'], mut=[3], uses=['ax_bits'], ensures=['ret == judged(qualType)', 'classif_out == if ret { classify(qualType, varDecl, body, classif) } else { classif }']),
 'Utils::containsNonConstMemberCall': F(params=['map', 'body', 'varDecl'], mut=[], uses=AX, ensures=['ret == used_nonconst(body, varDecl)'],
    loops=[none(k) for k in range(4)]),
 'referencesVar': F(params=['s', 'varDecl'], mut=[], uses=AX, ensures=['ret == refs(s, varDecl)'], loops=[Loop(inv=['refs(s_in, varDecl) == refs(s, varDecl)'], dec='(if s == 0 { 0 } else { size_of(s) + 1 })')]),
 'Utils::valueDeclForMemberCall': F(params=['memberCall'], mut=[], uses=AX, ensures=['ret == value_m(memberCall)']),
 'Utils::valueDeclForOperatorCall': F(params=['operatorCall'], mut=[], uses=AX, ensures=['ret == value_o(operatorCall)']),
 'isArgOfFunc': F(params=['expr', 'fDecl', 'varDecl', 'byRefOrPtrOnly'], mut=[], uses=AX, nowrap=False, requires=['expr != 0', 'fDecl != 0'], ensures=['ret == hands_some(expr, fDecl, varDecl, byRefOrPtrOnly)'], loops=[Loop(inv=['rng0 == args(expr)', 'forall|j: int| 0 <= j < i0 ==> !#[trigger] hands(expr, fDecl, varDecl, byRefOrPtrOnly, j)'], start='handed(expr, fDecl, varDecl, byRefOrPtrOnly, i0);')]),
 'Utils::isPassedToFunction': F(params=['bodyRange', 'varDecl', 'byRefOrPtrOnly'], mut=[], uses=AX, ensures=['ret == passed_in(bodyRange, varDecl, byRefOrPtrOnly)'],
    loops=[Loop(inv=['forall|j: int| 0 <= j < i0 ==> !call_hands(bodyRange, #[trigger] kids_CallExpr(body)[j], varDecl, byRefOrPtrOnly)', 'rng0 == kids_CallExpr(body)', 'body == bodyRange.body && body != 0']), Loop(inv=['forall|j: int| 0 <= j < i1 ==> !ctor_hands(bodyRange, #[trigger] kids_CXXConstructExpr(body)[j], varDecl, byRefOrPtrOnly)', 'forall|j: int| 0 <= j < kids_CallExpr(body).len() ==> !call_hands(bodyRange, #[trigger] kids_CallExpr(body)[j], varDecl, byRefOrPtrOnly)', 'rng1 == kids_CXXConstructExpr(body)', 'body == bodyRange.body && body != 0'])]),
 'Utils::functionParameters': F(params=['func'], mut=[], requires=['func != 0'], ensures=['ret == params(func)']),
 'Utils::ctorInitializer': F(params=['ctor', 'param'], mut=[], uses=AX, ensures=['ret == inits_of(ctor, param)'], loops=[Loop(inv=['ctor != 0', 'rng0 == inits(ctor)', 'result == inits_with(rng0.take(i0), param)'], before='assert(inits(ctor).take(0) =~= Seq::<int>::empty());', start='step(rng0, i0);', after='assert(rng0.take(rng0.len() as int) =~= rng0);'), Loop(inv=['ctor != 0', 'rng1 == kids_DeclRefExpr(init_expr(ctorInit))', '!brk1 ==> result == inits_with(rng0.take(i0 - 1), param) && forall|j: int| 0 <= j < i1 ==> ref_decl(#[trigger] rng1[j]) != param', 'brk1 ==> result == inits_with(rng0.take(i0 - 1), param).push(ctorInit) && mentions(ctorInit, param)'])]),
 'Utils::ctorInitializerContainsMove(clang::CXXCtorInitializer *)': F(name='f_contains_move1', params=['init'], mut=[], pure='moves', uses=AX, ensures=['ret == moves(init)'], loops=[Loop(inv=['init != 0', 'rng0 == kids_CallExpr(init_expr(init))', 'forall|j: int| 0 <= j < i0 ==> !is_move(#[trigger] rng0[j])'])]),
 'Utils::ctorInitializerContainsMove(const std::vector<clang::CXXCtorInitializer *> &)': F(name='f_contains_move', params=['ctorInits'], mut=[], uses=AX, ensures=['ret == some_moves(ctorInits)']),
 'Utils::methodOverrides': F(params=['method'], mut=[], ensures=['ret == overrides(method)']),
 'clazy::isSharedPointer': F(params=['record', 'qtNamespace'], mut=[], ensures=['ret == shared(record, qtNamespace)']),
 'FunctionArgsByRef::shouldIgnoreClass': F(params=['record'], mut=[], ensures=['ret == exempt_ref(ns_of(self_.m_context), record)']),
 'FunctionArgsByRef::shouldIgnoreOperator': F(params=['function'], mut=[], requires=['function != 0'], ensures=['ret == (oper(function) == 26)']),
 'FunctionArgsByRef::shouldIgnoreFunction': F(params=['function'], mut=[], requires=['function != 0'], ensures=['ret == listed_fn(qname(function))']),
 'warningMsgForSmallType': F(params=['sizeOf', 'typeName'], mut=[], ensures=['ret == big_text(sizeOf, typeName)']),
 'FunctionArgsByRef::addFixits': F(params=['fixits', 'func', 'parmIndex'], mut=[0], uses=AX, requires=['func != 0', '0 <= parmIndex'], ensures=['fixits_out == fixits + ref_fixes(redecls(func), parmIndex)'], loops=[Loop(inv=['rng0 == redecls(func)', 'fixits_in + ref_fixes(rng0, parmIndex) == fixits + ref_fixes(rng0.skip(i0), parmIndex)'], before='assert(redecls(func).skip(0) =~= redecls(func));', start='step(rng0, i0);', end='assert(fixits_in + ref_fixes(rng0, parmIndex) =~= fixits + ref_fixes(rng0.skip(i0), parmIndex));')]),
 'FunctionArgsByRef::processFunction': F(params=['func'], statics=LOG, uses=AX, ensures=['log_out == log + ref_says(self_.m_context, func)'], loops=[Loop(inv=['func != 0', 'funcParams == params(func)', '0 <= i <= funcParams.len()', 'body == body_of(func)', 'log == log_in + ref_told(ns_of(self_.m_context), func, i)'], start='assert(Seq::<Fix>::empty() + ref_fixes(redecls(func), i) =~= ref_fixes(redecls(func), i));')]),
 'FunctionArgsByRef::VisitDecl': F(params=['decl'], statics=LOG, requires=['decl != 0'], ensures=['log_out == log + ref_says(self_.m_context, as_function(decl))']),
 'FunctionArgsByRef::VisitStmt': F(params=['stmt'], statics=LOG, requires=['stmt != 0'], ensures=['log_out == log + (if u_isa_clang_LambdaExpr_1(stmt) && !ignored_file(sbegin(stmt)) { ref_says(self_.m_context, call_op(stmt)) } else { Seq::empty() })']),
 'FunctionArgsByValue::shouldIgnoreClass': F(params=['record'], mut=[], ensures=['ret == exempt_val(ns_of(self_.m_context), record)']),
 'FunctionArgsByValue::shouldIgnoreOperator': F(params=['function'], mut=[], requires=['function != 0'], ensures=['ret == (oper(function) == 26 || oper(function) == 15 || oper(function) == 30)']),
 'FunctionArgsByValue::shouldIgnoreFunction': F(params=['function'], mut=[], requires=['function != 0'], ensures=['ret == listed_fn(qname(function))']),
 'FunctionArgsByValue::fixit': F(params=['func', 'param', 'classif'], mut=[], uses=AX, requires=['func != 0', 'param != 0'], ensures=['ret == val_fix(func, param)']),
 'FunctionArgsByValue::processFunction': F(params=['func'], statics=LOG, uses=AX, ensures=['log_out == log + val_says(self_.m_context, func, option_set(self_, L"warn-for-overridden-methods"))'], loops=[
    Loop(inv=['func != 0', 'rng0 == params(func)', 'body == body_of(func)', 'warnForOverriddenMethods == option_set(self_, L"warn-for-overridden-methods")', 'ctor == as_ctor(func)', 'log == log_in + val_told(ns_of(self_.m_context), func, i0, option_set(self_, L"warn-for-overridden-methods"))'], start='inits_in(inits(func), params(func)[i0]);'),
    Loop(inv=['rng1 == inits_of(func, param)', 'found_by_ref_member_init == brk1', 'brk1 ==> some_binds(rng1)', '!brk1 ==> forall|j: int| 0 <= j < i1 ==> !binds(#[trigger] rng1[j])']),
    Loop(inv=['rng2 == redecls(func)', 'fixits =~= val_fixes(redecls(func), i0 - 1).take(i2)'], after='assert(fixits =~= val_fixes(redecls(func), i0 - 1));')]),
 'FunctionArgsByValue::VisitDecl': F(params=['decl'], statics=LOG, requires=['decl != 0'], ensures=['log_out == log + val_says(self_.m_context, as_function(decl), option_set(self_, L"warn-for-overridden-methods"))']),
 'FunctionArgsByValue::VisitStmt': F(params=['stmt'], statics=LOG, requires=['stmt != 0'], ensures=['log_out == log + (if u_isa_clang_LambdaExpr_1(stmt) { val_says(self_.m_context, call_op(stmt), option_set(self_, L"warn-for-overridden-methods")) } else { Seq::empty() })']),
 'RangeLoopReference::processForRangeLoop': F(params=['rangeLoop'], statics=LOG, uses=AX, requires=['rangeLoop != 0'], ensures=['log_out =~= log + loop_says(rangeLoop)']),
 'RangeLoopReference::VisitStmt': F(params=['stmt'], statics=LOG, requires=['stmt != 0'], ensures=['log_out =~= log + (if u_isa_clang_CXXForRangeStmt_1(stmt) { loop_says(stmt) } else { Seq::empty() })']),
 'Foreach::checkBigTypeMissingRef': F(params=[], statics=LOG, uses=AX, requires=['self_.m_lastForStmt != 0'], ensures=['log_out =~= log + each_says(self_.m_lastForStmt)']),
}
