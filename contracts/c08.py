"""C08: a suggested literal denotes the value it replaces: durations (use-chrono-in-qtimer) and colours (qcolor-from-literal)."""
from vc.translate import Fn, Loop, V
from vc.ctypes_ import parse
SOURCES = ['src/checks/manuallevel/use-chrono-in-qtimer.cpp', 'src/checks/level0/qcolor-from-literal.cpp']
TV = parse('void'); TB = parse('bool')
def warn(tr, o, vs, t):
    fx = vs[2].e if len(vs) > 2 and tr.p.kind(vs[2].t) != 'bool' else 'Seq::<FixH>::empty()'
    tr.assign(('var', 'log'), f'log.push(Ev {{ what: {vs[0].e}, msg: {tr.to_str(vs[1])}, fix: {fx} }})'); return V('()', TV)
def get_int(tr, o, vs, t):
    s = tr.to_str(o); ok = tr.bind(V(f'(is_hex({s}) && hex_val({s}) <= 0x7fff_ffff)', TB))
    tr.assert_(f'{vs[0].e} == 16', 'digits are read in base 16')
    tr.assign(vs[1].lv, f'if {ok.e} {{ hex_val({s}) }} else {{ {vs[1].e} }}'); return V(f'!{ok.e}', TB)
EXT = {
 'CheckBase::emitWarning': warn,
 'clang::IntegerLiteral::getValue': '{0}', 'clang::APIntStorage::getValue': '{0}', 'llvm::APInt::getRawData': lambda tr, o, vs, t: V(f'raw_value({o.e})', t, None, None, 'valptr'),
 'clang::BinaryOperator::getLHS': 'lhs({0})', 'clang::BinaryOperator::getRHS': 'rhs({0})', 'clang::BinaryOperator::getOpcode': 'opcode({0})',
 'clang::FixItHint::CreateReplacement': lambda tr, o, vs, t: V(f'FixH {{ range: {vs[0].e}, text: {tr.to_str(vs[1])} }}', t), 'clazy::createInsertion': lambda tr, o, vs, t: V(f'FixH {{ range: 0, text: {tr.to_str(vs[1])} }}', t),
 'llvm::MulOverflow': lambda tr, o, vs, t: (tr.assign(vs[2].lv, f'to_s32({vs[0].e} * {vs[1].e})'), V(f'!in_int({vs[0].e} * {vs[1].e})', TB))[1],
 'PreProcessorVisitor::hasInclude': lambda tr, o, vs, t: V(f'has_include({o.e}, {tr.to_str(vs[0])})', t), 'PreProcessorVisitor::endOfIncludeSection': '0',
 'clang::Stmt::getSourceRange': 'range_of({0})', 'clang::Expr::getSourceRange': 'range_of({0})', 'clang::Stmt::getBeginLoc': '{0}', 'clang::Expr::getBeginLoc': '{0}',
 'clang::CallExpr::getNumArgs': 'args({0}).len() as int', 'clang::CXXConstructExpr::getNumArgs': 'args({0}).len() as int', 'clang::CXXMemberCallExpr::getNumArgs': 'args({0}).len() as int',
 'clang::CallExpr::getArg': ('args({0})[{1}]', '0 <= {1} < args({0}).len()'), 'clang::CXXConstructExpr::getArg': ('args({0})[{1}]', '0 <= {1} < args({0}).len()'),
 'clang::CallExpr::getDirectCallee': 'callee({0})', 'clang::NamedDecl::getQualifiedNameAsString': 'qualified({0})', 'CheckBase::trimQtNamespace': lambda tr, o, vs, t: V(f'trim_ns({tr.to_str(vs[0])})', t),
 'clazy::qualifiedMethodName': 'member_name({1})',
 'clang::StringLiteral::getString': 'text_of({0})', 'clang::StringLiteral::getCharByteWidth': 'width({0})',
 'clang::Expr::IgnoreUnlessSpelledInSource': 'spelled({0})', 'clang::ExplicitCastExpr::getSubExpr': 'sub({0})', 'clang::CastExpr::getSubExpr': 'sub({0})',
 'clang::CXXConstructExpr::getParenOrBraceRange': 'paren_range({0})', 'clang::SourceRange::isInvalid': '({0} == 0)',
 'clang::ast_matchers::BoundNodes::getNodeAs': lambda tr, o, vs, t: V(f'node_of({o.e}, {tr.to_str(vs[0])})', t),
 'llvm::StringRef::getAsInteger': get_int,
'clang::ast_matchers::MatchFinder::MatchResult::Nodes': 'nodes({0})',  'clazy::getFirstChildOfType2': 'first_literal({1})',
}
FIELDS = {'UseChronoInQTimer': ['m_hasInsertedInclude', 'm_context'], 'ClazyContext': ['preprocessorVisitor'], 'QColorFromLiteral_Callback': ['m_check']}
TYPEMAP = {'clang::FixItHint': 'FixH'}
PRELUDE = r"""
type CB = R_QColorFromLiteral_Callback; type UC = R_UseChronoInQTimer;
pub struct FixH { pub range: int, pub text: Str }
pub struct Ev { pub what: int, pub msg: Str, pub fix: Seq<FixH> }
pub uninterp spec fn raw_value(e: int) -> int;
pub uninterp spec fn lhs(e: int) -> int;
pub uninterp spec fn rhs(e: int) -> int;
pub uninterp spec fn opcode(e: int) -> int;
pub uninterp spec fn args(e: int) -> Seq<int>;
pub uninterp spec fn range_of(e: int) -> int;
pub uninterp spec fn callee(e: int) -> int;
pub uninterp spec fn qualified(d: int) -> Str;
pub uninterp spec fn trim_ns(s: Str) -> Str;
pub uninterp spec fn member_name(e: int) -> Str;
pub uninterp spec fn has_include(p: int, s: Str) -> bool;
pub uninterp spec fn text_of(l: int) -> Str;
pub uninterp spec fn width(l: int) -> int;
pub uninterp spec fn spelled(e: int) -> int;
pub uninterp spec fn sub(e: int) -> int;
pub uninterp spec fn paren_range(e: int) -> int;
pub uninterp spec fn first_literal(e: int) -> int;
pub uninterp spec fn nodes(r: int) -> int;
pub uninterp spec fn node_of(ns: int, id: Str) -> int;
// --- durations
/// the value the language gives an expression; it has type int
pub uninterp spec fn value_of(e: int) -> int;
pub uninterp spec fn is_int(e: int) -> bool;
pub open spec fn tdiv(a: int, b: int) -> int { c_div(a, b) }
pub open spec fn in_int(v: int) -> bool { -2147483648 <= v <= 2147483647 }
/// C++ semantics of the expressions the check evaluates: operands of an arithmetic operator of type int that are not casts are of type int
pub broadcast axiom fn sem_lit(e: int) ensures u_isa_clang_IntegerLiteral_1(e) && is_int(e) ==> #[trigger] value_of(e) == raw_value(e) && 0 <= value_of(e) <= 2147483647;
pub broadcast axiom fn sem_mul(e: int) ensures u_isa_clang_BinaryOperator_1(e) && is_int(e) && #[trigger] opcode(e) == BO_MUL ==> value_of(e) == value_of(lhs(e)) * value_of(rhs(e));
pub broadcast axiom fn sem_div(e: int) ensures u_isa_clang_BinaryOperator_1(e) && is_int(e) && #[trigger] opcode(e) == BO_DIV && value_of(rhs(e)) != 0 ==> value_of(e) == tdiv(value_of(lhs(e)), value_of(rhs(e)));
pub broadcast axiom fn sem_ops(e: int) ensures u_isa_clang_BinaryOperator_1(e) && is_int(e) && (#[trigger] opcode(e) == BO_MUL || opcode(e) == BO_DIV) ==> arith(lhs(e)) && arith(rhs(e));
/// an int, unless it is an expression of another kind (a cast)
pub open spec fn arith(e: int) -> bool { is_int(e) || !(u_isa_clang_IntegerLiteral_1(e) || u_isa_clang_BinaryOperator_1(e)) }
pub broadcast group sem { c_div_small, sem_lit, sem_mul, sem_div, sem_ops, eval_lit, eval_bin, eval_other, sem_arg, sem_sub, sem_sub2, trim_empty }
/// what the check takes for a constant: products and quotients of literals that an int can hold
pub uninterp spec fn eval(e: int) -> int;
pub open spec fn eval_op(o: int, l: int, r: int) -> int { if l == -1 || r == -1 { -1 } else if o == BO_MUL && in_int(l * r) { l * r } else if o == BO_DIV && r != 0 { tdiv(l, r) } else { -1 } }
pub broadcast axiom fn eval_lit(e: int) ensures #![trigger eval(e), raw_value(e)] u_isa_clang_IntegerLiteral_1(e) ==> eval(e) == to_s32(raw_value(e));
pub broadcast axiom fn eval_bin(e: int) ensures #![trigger eval(e), lhs(e)] !u_isa_clang_IntegerLiteral_1(e) && u_isa_clang_BinaryOperator_1(e) ==> eval(e) == eval_op(opcode(e), eval(lhs(e)), eval(rhs(e)));
pub broadcast axiom fn eval_other(e: int) ensures #![trigger eval(e), u_isa_clang_BinaryOperator_1(e)] !u_isa_clang_IntegerLiteral_1(e) && !u_isa_clang_BinaryOperator_1(e) ==> eval(e) == -1;
pub broadcast axiom fn trim_empty() ensures #[trigger] trim_ns(L"") == L"";
/// an argument of these functions that is no cast is an int
pub broadcast axiom fn sem_arg(e: int) ensures #![trigger args(e)] u_isa_clang_CallExpr_1(e) && callee(e) != 0 && timer_name(trim_ns(qualified(callee(e)))) && args(e).len() > 0 ==> args(e)[0] != 0 && arith(args(e)[0]);
pub broadcast axiom fn sem_sub(e: int) ensures u_isa_clang_BinaryOperator_1(e) ==> #[trigger] lhs(e) != 0;
pub broadcast axiom fn sem_sub2(e: int) ensures u_isa_clang_BinaryOperator_1(e) ==> #[trigger] rhs(e) != 0;
/// milliseconds of "<n><unit>"
pub open spec fn is_dur(t: Str, v: int) -> bool {
    (exists|k: int| t == #[trigger] int_to_str(k) + L"h" && k * 3600000 == v) || (exists|k: int| t == #[trigger] int_to_str(k) + L"min" && k * 60000 == v)
    || (exists|k: int| t == #[trigger] int_to_str(k) + L"s" && k * 1000 == v) || (exists|k: int| t == #[trigger] int_to_str(k) + L"ms" && k == v) }
pub open spec fn timer_warning(l0: Seq<Ev>, l1: Seq<Ev>, s: int, v: int) -> bool {
    l1.len() == l0.len() + 1 && l1.drop_last() =~= l0 && l1.last().what == s && l1.last().fix.len() > 0 && l1.last().fix[0].range == range_of(s) && is_dur(l1.last().fix[0].text, v)
    && l1.last().msg =~= L"make code more robust: use " + l1.last().fix[0].text + L" instead." }
pub open spec fn timer_name(n: Str) -> bool { n == L"QTimer::setInterval" || n == L"QTimer::start" || n == L"QTimer::singleShot" }
// --- colours
pub open spec fn hex_digit(c: int) -> int { if c <= 57 { c - 48 } else if c <= 70 { c - 55 } else { c - 87 } }
pub open spec fn is_hex(s: Str) -> bool { s.len() > 0 && forall|i: int| 0 <= i < s.len() ==> #[trigger] c_isxdigit(s[i]) }
pub open spec fn hex_val(s: Str) -> int decreases s.len() { if s.len() == 0 { 0 } else { hex_val(s.drop_last()) * 16 + hex_digit(s.last()) } }
/// a colour name of 3, 6 or 8 digits (Qt's rule): component i of red, green, blue, alpha
pub open spec fn comp(t: Str, i: int) -> int {
    if t.len() == 4 { if i == 3 { 255 } else { 17 * hex_digit(t[1 + i]) } }
    else if t.len() == 7 { if i == 3 { 255 } else { two(t, 1 + 2 * i) } }
    else { if i == 3 { two(t, 1) } else { two(t, 3 + 2 * i) } } }
pub open spec fn two(t: Str, k: int) -> int { 16 * hex_digit(t[k]) + hex_digit(t[k + 1]) }
/// value of an integer literal of C++
pub open spec fn num(s: Str) -> int { if s.len() > 2 && s[0] == 48 && s[1] == 120 { hex_val(s.skip(2)) } else if s == L"0" { 0 } else { -1 } }
pub open spec fn is_rgb(f: Str, t: Str) -> bool { num(f) == comp(t, 0) * 65536 + comp(t, 1) * 256 + comp(t, 2) }
pub open spec fn is_rgba_with(f: Str, t: Str, r: Str, g: Str, b: Str, a: Str) -> bool { f == r + L", " + g + L", " + b + L", " + a && num(r) == comp(t, 0) && num(g) == comp(t, 1) && num(b) == comp(t, 2) && num(a) == comp(t, 3) }
pub open spec fn is_rgb_with(f: Str, t: Str, r: Str, g: Str, b: Str) -> bool { f == r + L", " + g + L", " + b && num(r) == comp(t, 0) && num(g) == comp(t, 1) && num(b) == comp(t, 2) }
/// the literal 0 is a null pointer constant, with which a call of the constructor is ambiguous
pub open spec fn black(t: Str) -> bool { comp(t, 0) == 0 && comp(t, 1) == 0 && comp(t, 2) == 0 }
pub open spec fn parts(t: Str) -> bool { t.len() == 9 || black(t) }
pub open spec fn is_rgba(f: Str, t: Str) -> bool { exists|r: Str, g: Str, b: Str, a: Str| #[trigger] is_rgba_with(f, t, r, g, b, a) }
#[verifier::opaque] pub open spec fn is_color(f: Str, t: Str) -> bool { if t.len() == 9 { is_rgba(f, t) } else if black(t) { exists|r: Str, g: Str, b: Str| #[trigger] is_rgb_with(f, t, r, g, b) } else { is_rgb(f, t) } }
pub open spec fn valid_len(n: int) -> bool { n == 4 || n == 7 || n == 9 || n == 10 || n == 13 }
pub open spec fn all_hex(t: Str) -> bool { forall|i: int| 1 <= i < t.len() ==> #[trigger] c_isxdigit(t[i]) }
pub open spec fn the_call(ns: int) -> bool { node_of(ns, L"methodCall") != 0 && args(node_of(ns, L"methodCall")).len() == 1 && args(node_of(ns, L"methodCall"))[0] != 0 }
pub open spec fn lit_of(ns: int) -> int { if the_call(ns) { literal_of(args(node_of(ns, L"methodCall"))[0]) } else { node_of(ns, L"myLiteral") } }
pub open spec fn what_of(ns: int) -> int { if the_call(ns) { node_of(ns, L"methodCall") } else { node_of(ns, L"myLiteral") } }
pub open spec fn wraps(ns: int, t: Str) -> bool { the_call(ns) || (parts(t) && node_of(ns, L"myCtor") != 0 && (paren_range(node_of(ns, L"myCtor")) == 0 || node_of(ns, L"myCast") != 0)) }
/// the narrow literal an expression is, looking through conversions of strings only
pub uninterp spec fn literal_of(e: int) -> int;
pub broadcast axiom fn lit_null() ensures #[trigger] literal_of(0) == 0;
pub broadcast axiom fn lit_def(e: int) ensures #![trigger literal_of(e), spelled(e)] e != 0 ==> literal_of(e) == (
    if u_isa_clang_StringLiteral_1(spelled(e)) { if width(spelled(e)) == 1 { spelled(e) } else { 0 } }
    else if u_isa_clang_UserDefinedLiteral_1(spelled(e)) { if args(spelled(e)).len() > 0 { literal_of(args(spelled(e))[0]) } else { 0 } }
    else if u_isa_clang_ExplicitCastExpr_1(spelled(e)) { literal_of(sub(spelled(e))) }
    else if u_isa_clang_CXXConstructExpr_1(spelled(e)) { if args(spelled(e)).len() == 1 || (args(spelled(e)).len() > 1 && u_isa_clang_CXXDefaultArgExpr_1(args(spelled(e))[1])) { literal_of(args(spelled(e))[0]) } else { 0 } }
    else { 0 });
pub broadcast axiom fn spelled_ok(e: int) ensures e != 0 ==> #[trigger] spelled(e) != 0;
pub broadcast axiom fn args_ok(e: int, i: int) ensures 0 <= i < args(e).len() ==> #[trigger] args(e)[i] != 0;
pub open spec fn run_post(ns: int, l0: Seq<Ev>, l1: Seq<Ev>) -> bool {
    let t = text_of(lit_of(ns));
    if lit_of(ns) == 0 || t.len() == 0 || t[0] != 35 { l1 =~= l0 } else {
      l1.len() == l0.len() + 1 && l1.drop_last() =~= l0 && l1.last().what == what_of(ns) && {
        let e = l1.last();
        if !valid_len(t.len() as int) { e.fix.len() == 0 && e.msg =~= L"Pattern length does not match any supported one by QColor, check the documentation" }
        else if !all_hex(t) { e.fix.len() == 0 && e.msg =~= L"QColor pattern may only contain hexadecimal digits" }
        else if t.len() > 9 { e.fix.len() == 0 && e.msg =~= L"The QColor ctor taking QRgba64 is cheaper than one taking string literals" }
        else { e.fix.len() == 1 && e.fix[0].range == range_of(what_of(ns)) && e.msg =~= (if parts(t) { L"The QColor ctor taking ints is cheaper than one taking string literals" } else { L"The QColor ctor taking RGB int value is cheaper than one taking string literals" })
            && exists|f: Str| #[trigger] is_color(f, t) && e.fix[0].text == (if wraps(ns, t) { L"QColor(" + f + L")" } else { f }) } } } }
pub open spec fn named_color(s: int) -> bool { u_isa_clang_CXXMemberCallExpr_1(s) && args(s).len() == 1 && member_name(s) =~= L"QColor::setNamedColor" && first_literal(args(s)[0]) != 0 && ({ let t = text_of(first_literal(args(s)[0])); t.len() > 0 && t[0] == 35 && valid_len(t.len() as int) }) }
pub proof fn hex_step(s: Str, k: int) requires 0 < k <= s.len() ensures hex_val(s.take(k)) == hex_val(s.take(k - 1)) * 16 + hex_digit(s[k - 1]) { assert(s.take(k).drop_last() =~= s.take(k - 1)); }
pub broadcast proof fn hex6(s: Str) ensures s.len() == 6 ==> #[trigger] hex_val(s) == two(s, 0) * 65536 + two(s, 2) * 256 + two(s, 4)
{ if s.len() == 6 { hex_step(s, 1); hex_step(s, 2); hex_step(s, 3); hex_step(s, 4); hex_step(s, 5); hex_step(s, 6); assert(s.take(6) =~= s); assert(s.take(0) =~= Seq::<int>::empty()); } }
pub broadcast proof fn hex1(s: Str) ensures s.len() == 1 ==> #[trigger] hex_val(s) == hex_digit(s[0]) { if s.len() == 1 { hex_step(s, 1); assert(s.take(1) =~= s); assert(s.take(0) =~= Seq::<int>::empty()); } }
pub broadcast proof fn hex2(s: Str) ensures s.len() == 2 ==> #[trigger] hex_val(s) == two(s, 0) { if s.len() == 2 { hex_step(s, 1); hex_step(s, 2); assert(s.take(2) =~= s); assert(s.take(0) =~= Seq::<int>::empty()); } }
pub broadcast group hex { hex1, hex2, hex6 }
pub broadcast proof fn hash_lit(t: Str) ensures #![trigger substr(t, 0, 1)] t.len() > 0 ==> ((substr(t, 0, 1) =~= L"#") <==> t[0] == 35) { assert(L"#"[0] == 35 && L"#".len() == 1); if t.len() > 0 { assert(substr(t, 0, 1).len() == 1); assert(substr(t, 0, 1)[0] == t[0]); if t[0] == 35 { assert(substr(t, 0, 1) =~= L"#"); } } }
/// the digits of n at k, zero in short
pub open spec fn dg(t: Str, k: int, n: int) -> Str { if hex_val(t.subrange(k, k + n)) == 0 { L"0" } else { t.subrange(k, k + n) } }
pub open spec fn dbl(s: Str) -> Str { if s.len() == 1 { s + s } else { s } }
pub open spec fn pre(s: Str) -> Str { if s =~= L"0" { s } else { L"0x" + s } }
pub open spec fn rgb_text(t: Str) -> Str { let n = if t.len() == 4 { 1int } else { 2int }; L"0x" + dbl(dg(t, 1, n)) + dbl(dg(t, 1 + n, n)) + dbl(dg(t, 1 + 2 * n, n)) }
pub open spec fn rgba_text(t: Str) -> Str { pre(dg(t, 3, 2)) + L", " + pre(dg(t, 5, 2)) + L", " + pre(dg(t, 7, 2)) + L", " + pre(dg(t, 1, 2)) }
pub open spec fn black_text(t: Str) -> Str { L"0" + L", " + L"0" + L", " + L"0" }
pub open spec fn color_text(t: Str) -> Str { if t.len() == 9 { rgba_text(t) } else if black(t) { black_text(t) } else { rgb_text(t) } }
pub proof fn zero_digits(s: Str) requires s.len() == 1 || s.len() == 2, is_hex(s) ensures (hex_val(s) == 0) == (forall|i: int| 0 <= i < s.len() ==> hex_digit(#[trigger] s[i]) == 0), hex_val(s) >= 0
{ broadcast use hex; assert(forall|i: int| 0 <= i < s.len() ==> #[trigger] c_isxdigit(s[i])); assert(c_isxdigit(s[0])); assert(hex_digit(s[0]) >= 0); if s.len() == 2 { assert(c_isxdigit(s[1])); assert(hex_digit(s[1]) >= 0); assert(hex_val(s) == two(s, 0)); } else { assert(hex_val(s) == hex_digit(s[0])); } }
/// doubled or two digits, each of the value the name has there
pub proof fn dg_ok(t: Str, k: int, n: int) requires 1 <= k, n == 1 || n == 2, k + n <= t.len(), all_hex(t)
    ensures dbl(dg(t, k, n)).len() == 2, two(dbl(dg(t, k, n)), 0) == (if n == 1 { 17 * hex_digit(t[k]) } else { two(t, k) }), n == 2 ==> num(pre(dg(t, k, n))) == two(t, k), (dg(t, k, n) == L"0") == (two(dbl(dg(t, k, n)), 0) == 0), two(dbl(dg(t, k, n)), 0) >= 0
{ broadcast use hex; let s = t.subrange(k, k + n); assert forall|i: int| 0 <= i < s.len() implies #[trigger] c_isxdigit(s[i]) by { assert(s[i] == t[k + i]); assert(c_isxdigit(t[k + i])); }
  zero_digits(s); assert(s[0] == t[k]); if n == 2 { assert(s[1] == t[k + 1]); } assert(L"0"[0] == 48 && L"0".len() == 1); assert(L"0x"[0] == 48 && L"0x"[1] == 120 && L"0x".len() == 2);
  if n == 1 { assert(s.len() == 1); if s =~= L"0" { assert(s[0] == 48); } } else { assert(s.len() != L"0".len()); } assert(c_isxdigit(s[0])); if n == 2 { assert(c_isxdigit(s[1])); }
  if hex_val(s) == 0 { assert(hex_digit(s[0]) == 0); if n == 2 { assert(hex_digit(s[1]) == 0); } } else if n == 2 { assert((L"0x" + s).skip(2) =~= s); } }
pub proof fn color_texts(t: Str) requires t.len() == 4 || t.len() == 7 || t.len() == 9, all_hex(t) ensures is_color(color_text(t), t), t.len() < 9 ==> black(t) == ({ let n = if t.len() == 4 { 1int } else { 2int }; dg(t, 1, n) == L"0" && dg(t, 1 + n, n) == L"0" && dg(t, 1 + 2 * n, n) == L"0" })
{ broadcast use hex; reveal(is_color);
  if t.len() == 9 { dg_ok(t, 1, 2); dg_ok(t, 3, 2); dg_ok(t, 5, 2); dg_ok(t, 7, 2); assert(is_rgba_with(rgba_text(t), t, pre(dg(t, 3, 2)), pre(dg(t, 5, 2)), pre(dg(t, 7, 2)), pre(dg(t, 1, 2)))); }
  else { let n = if t.len() == 4 { 1int } else { 2int }; dg_ok(t, 1, n); dg_ok(t, 1 + n, n); dg_ok(t, 1 + 2 * n, n); let a = dbl(dg(t, 1, n)); let b = dbl(dg(t, 1 + n, n)); let c = dbl(dg(t, 1 + 2 * n, n)); let f = rgb_text(t); assert(num(L"0") == 0) by { assert(L"0".len() == 1); } if black(t) { assert(is_rgb_with(black_text(t), t, L"0", L"0", L"0")); } assert(L"0x"[0] == 48 && L"0x"[1] == 120 && L"0x".len() == 2);
    assert(f.skip(2) =~= a + b + c); assert(f.skip(2)[0] == a[0] && f.skip(2)[1] == a[1] && f.skip(2)[2] == b[0] && f.skip(2)[3] == b[1] && f.skip(2)[4] == c[0] && f.skip(2)[5] == c[1]); assert(hex_val(f.skip(2)) == two(f.skip(2), 0) * 65536 + two(f.skip(2), 2) * 256 + two(f.skip(2), 4)); assert(f[0] == 48 && f[1] == 120); } }
"""
PRELUDE = PRELUDE.replace('BO_MUL', '2').replace('BO_DIV', '3')
UNINTERP = {'isa_clang::' + k: (['int'], 'bool') for k in ('IntegerLiteral', 'BinaryOperator', 'StringLiteral', 'UserDefinedLiteral', 'ExplicitCastExpr', 'CXXConstructExpr', 'CXXDefaultArgExpr', 'CallExpr', 'CXXMemberCallExpr')}
F = Fn
LOG = {'log': 'Seq<Ev>'}
CONTRACTS = {
 'unpackValue': F(params=['expr'], uses=['sem'], requires=['expr != 0'], ensures=['ret == eval(expr)', 'arith(expr) && ret != -1 ==> ret == value_of(expr)', 'arith(expr) ==> ret >= -1', 'in_int(ret)']),
 'UseChronoInQTimer::warn': F(params=['stmt', 'value'], mut=['this'], statics=LOG, requires=['stmt != 0', 'in_int(value) && value >= 0'], ensures=['value == 0 ==> log_out == log', 'value != 0 ==> timer_warning(log, log_out, stmt, value)']),
 'functionName': F(params=['callExpr'], requires=['callExpr != 0'], ensures=['ret =~= (if callee(callExpr) != 0 { qualified(callee(callExpr)) } else { L"" })']),
 'UseChronoInQTimer::VisitStmt': F(params=['stmt'], mut=['this'], statics=LOG, uses=['sem'], requires=['stmt != 0'], ensures=['log_out == log || (callee(stmt) != 0 && timer_name(trim_ns(qualified(callee(stmt)))) && timer_warning(log, log_out, args(stmt)[0], value_of(args(stmt)[0])))',
    'u_isa_clang_CallExpr_1(stmt) && args(stmt).len() > 0 && callee(stmt) != 0 && timer_name(trim_ns(qualified(callee(stmt)))) && eval(args(stmt)[0]) > 0 ==> timer_warning(log, log_out, args(stmt)[0], eval(args(stmt)[0]))']),
 'literalOf': F(params=['expr'], uses=['lit_null', 'lit_def', 'spelled_ok', 'args_ok'], ensures=['ret == literal_of(expr)'], loops=[Loop(inv=['literal_of(expr) == literal_of(expr_in)'])]),
 'QColorFromLiteral_Callback::getHexValue': F(params=['fullStr', 'startPos', 'endPos', 'increment'], mut=[1, 2], requires=['0 <= startPos == endPos', '1 <= increment <= 2', 'endPos + increment <= fullStr.len() < 100', 'is_hex(fullStr.subrange(startPos, endPos + increment))'], uses=['hex'], hints={'entry': 'let d = fullStr.subrange(startPos, endPos + increment); zero_digits(d); assert(sref_slice(fullStr, startPos, endPos + increment) =~= d); assert(c_isxdigit(d[0])); if d.len() == 2 { assert(c_isxdigit(d[1])); }'},
   ensures=['startPos_out == endPos_out == endPos + increment', 'ret =~= (if hex_val(fullStr.subrange(startPos, endPos + increment)) == 0 { L"0" } else { fullStr.subrange(startPos, endPos + increment) })']),
 'QColorFromLiteral_Callback::twoDigit': F(mut=[], params=['in_'], ensures=['ret =~= (if in_.len() == 1 { in_ + in_ } else { in_ })']),
 'QColorFromLiteral_Callback::prefixHex': F(mut=[], params=['in_'], ensures=['ret =~= (if in_ =~= L"0" { in_ } else { L"0x" + in_ })']),
 'QColorFromLiteral_Callback::run': F(params=['result'], mut=[], statics=LOG, rlimit=60, uses=['hash_lit'], ensures=['run_post(nodes(result), log, log_out)'],
   loops=[Loop(inv=['1 <= i <= str.len()', 'log == log_in', 'forall|j: int| 1 <= j < i ==> #[trigger] c_isxdigit(str[j])'])],
   hints={'return': 'let t = text_of(lit_of(nodes(result))); if (t.len() == 4 || t.len() == 7 || t.len() == 9) && all_hex(t) { color_texts(t); if log.len() > log_in.len() && log.last().fix.len() > 0 { let x = log.last().fix[0].text; assert(x =~= (if wraps(nodes(result), t) { L"QColor(" + color_text(t) + L")" } else { color_text(t) })); } }'}),
 'QColorFromLiteral::VisitStmt': F(params=['stmt'], mut=[], statics=LOG, uses=['hash_lit', 'args_ok'], requires=['stmt != 0'], ensures=['log_out == (if named_color(stmt) { log.push(Ev { what: first_literal(args(stmt)[0]), msg: L"The ctor taking ints is cheaper than QColor::setNamedColor(QString)", fix: Seq::empty() }) } else { log })']),
}
