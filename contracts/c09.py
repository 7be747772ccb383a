"""What the safety contracts of C09 take from clang's, llvm's and the standard library's documentation (trusted):
which accessors never give a null object, which ranges have which size, which methods need what of their object."""
import z3
I, B = z3.IntSort(), z3.BoolSort()

# fields of /repo that are never null once the object is used (assumed for CheckBase::m_context, see DESIGN.md)
FIELD_NONNULL = {'CheckBase::m_context', 'ClazyAstMatcherCallback::m_check', 'ClazyPreprocessorCallbacks::check', 'ClazyASTConsumer::m_context',
                 'clang::ast_matchers::MatchFinder::MatchResult::Context', 'clang::ast_matchers::MatchFinder::MatchResult::SourceManager', 'CheckBase::m_preprocessorCallbacks',
                 'ClazyContext::astContext', 'AccessSpecifierManager::m_preprocessorCallbacks', 'ClazyASTConsumer::m_matchFinder', 'ClazyASTAction::m_checkManager', 'FullASTVisitor::m_context',
                 'MemberCallVisitor::Context', 'MemberCallVisitor::check'}

# of these: given their value right after the construction (the constructor leaves null; every other assignment is checked)
LATE = {'CheckBase::m_context', 'ClazyASTConsumer::m_matchFinder'}
# fields whose containers hold no null pointer (checked where they are written), global C strings that are not null
FIELD_ALLNN = {'clazy::VisitHelper::Visitors::visitStmts', 'clazy::VisitHelper::Visitors::visitDecls', 'clazy::VisitHelper::Visitors::visitAllTypedefDecls'}
GLOBAL_NONNULL = {'s_fixitNamePrefix', 's_levelPrefix'}

def names(s): return {'clang::' + x for x in s.split()}
NONNULL = names('''MacroDirective::getDefinition MacroDirective::DefInfo::getMacroInfo MacroInfo::tokens ASTContext::getParents 
Expr::getType ValueDecl::getType DeclRefExpr::getDecl DeclRefExpr::getFoundDecl MemberExpr::getMemberDecl MemberExpr::getBase
CastExpr::getSubExpr FullExpr::getSubExpr MaterializeTemporaryExpr::getSubExpr CXXBindTemporaryExpr::getSubExpr UnaryOperator::getSubExpr ParenExpr::getSubExpr
ImplicitCastExpr::getSubExpr ExplicitCastExpr::getTypeAsWritten CastExpr::getSubExprAsWritten ArraySubscriptExpr::getLHS ArraySubscriptExpr::getRHS ArraySubscriptExpr::getBase
BinaryOperator::getLHS BinaryOperator::getRHS AbstractConditionalOperator::getCond ConditionalOperator::getCond ConditionalOperator::getLHS ConditionalOperator::getRHS
ConditionalOperator::getTrueExpr ConditionalOperator::getFalseExpr CallExpr::getCallee CXXConstructExpr::getConstructor
CXXMethodDecl::getParent FieldDecl::getParent FunctionDecl::getReturnType CXXRecordDecl::getCanonicalDecl FunctionDecl::getCanonicalDecl CXXMethodDecl::getCanonicalDecl Decl::getCanonicalDecl
CXXBaseSpecifier::getType TypedefType::getDecl RecordType::getDecl EnumType::getDecl TagType::getDecl LambdaExpr::getCallOperator LambdaExpr::getLambdaClass LambdaExpr::getBody
CXXForRangeStmt::getRangeInit CXXForRangeStmt::getLoopVariable CXXForRangeStmt::getBody IfStmt::getCond IfStmt::getThen WhileStmt::getCond WhileStmt::getBody ForStmt::getBody
DoStmt::getCond DoStmt::getBody SwitchStmt::getCond SwitchStmt::getBody CaseStmt::getLHS
ClassTemplateSpecializationDecl::getSpecializedTemplate ClassTemplateDecl::getTemplatedDecl TypedefNameDecl::getUnderlyingType FunctionTemplateDecl::getTemplatedDecl
FunctionTemplateSpecializationInfo::getTemplate Decl::getASTContext Decl::getTranslationUnitDecl FunctionType::getReturnType PointerType::getPointeeType ReferenceType::getPointeeType
MemberPointerType::getPointeeType AutoType::desugar TypedefType::desugar Type::getUnqualifiedDesugaredType Type::getBaseElementTypeUnsafe Type::getCanonicalTypeInternal
InitListExpr::getSemanticForm CXXNewExpr::getAllocatedType CXXDefaultArgExpr::getParam CXXDefaultArgExpr::getExpr UsingDirectiveDecl::getNominatedNamespace NamespaceDecl::getOriginalNamespace
ASTContext::getTranslationUnitDecl ASTContext::getTypeDeclType ASTContext::getRecordType Expr::getBestDynamicClassType ArrayType::getElementType CXXThisExpr::getType
CXXMethodDecl::getThisType CXXMethodDecl::getFunctionObjectParameterType TypedefNameDecl::getTypeSourceInfo TypeSourceInfo::getType CompoundAssignOperator::getLHS
DiagnosticsEngine::getClient CXXConstructorDecl::getParent CXXDestructorDecl::getParent CXXConversionDecl::getConversionType SubstNonTypeTemplateParmExpr::getReplacement
TemplateDecl::getTemplateParameters CXXMemberCallExpr::getImplicitObjectArgument UserDefinedLiteral::getCookedLiteral CXXStdInitializerListExpr::getSubExpr CXXDynamicCastExpr::getSubExpr
QualType::getCanonicalType ElaboratedType::getNamedType CXXOperatorCallExpr::getCallee CXXDefaultInitExpr::getExpr DeclContext::getPrimaryContext ASTContext::getCanonicalType
BlockPointerType::getPointeeType EnumDecl::getCanonicalDecl Preprocessor::getIdentifierInfo NamespaceDecl::getCanonicalDecl SourceManager::getCharacterData
CXXNamedCastExpr::getCastName Stmt::getStmtClassName Type::getTypeClassName Decl::getDeclKindName UsingShadowDecl::getTargetDecl CXXCatchStmt::getHandlerBlock CXXTryStmt::getTryBlock
''')
NONNULL_ANY = {'getRawData', 'IgnoreImplicit', 'IgnoreParenImpCasts', 'IgnoreParens', 'IgnoreImpCasts', 'IgnoreCasts', 'IgnoreParenCasts', 'IgnoreImplicitAsWritten', 'IgnoreUnlessSpelledInSource', 'IgnoreParenBaseCasts'}
NN_RANGES = {'params', 'args', 'decls', 'methods', 'ctors', 'fields', 'bases', 'vbases', 'enumerators', 'overridden', 'body', 'friends', 'inits', 'attrs', 'redecls', 'captures', 'ctorinits', 'using_directives', 'noload_decls',
             'parameters', 'arguments', 'specializations', 'overridden_methods', 'cases', 'specific_attrs', 'lookup', 'getClangStripDotSlash', 'udir'}
RANGES = {}
for rng, ns in {'params': 'parameters:all param_begin:begin param_end:end getNumParams:size param_size:size param_empty:empty',
                'args': 'arguments:all arg_begin:begin arg_end:end getNumArgs:size',
                'children': 'children:all child_begin:begin child_end:end',
                'bases': 'bases:all bases_begin:begin bases_end:end getNumBases:size',
                'vbases': 'vbases:all vbases_begin:begin vbases_end:end getNumVBases:size',
                'methods': 'methods:all method_begin:begin method_end:end',
                'ctors': 'ctors:all ctor_begin:begin ctor_end:end',
                'fields': 'fields:all field_begin:begin field_end:end field_empty:empty',
                'decls': 'decls:all decl_begin:begin decl_end:end decls_begin:begin decls_end:end decls_empty:empty',
                'enumerators': 'enumerators:all enumerator_begin:begin enumerator_end:end',
                'body': 'body:all body_begin:begin body_end:end body_empty:empty',
                'friends': 'friends:all friend_begin:begin friend_end:end',
                'ctorinits': 'inits:all init_begin:begin init_end:end getNumCtorInitializers:size',
                'attrs': 'attrs:all attr_begin:begin attr_end:end',
                'overridden': 'overridden_methods:all begin_overridden_methods:begin end_overridden_methods:end size_overridden_methods:size',
                'redecls': 'redecls:all redecls_begin:begin redecls_end:end',
                'captures': 'captures:all capture_begin:begin capture_end:end capture_size:size',
                'udir': 'using_directives:all'}.items():
    for x in ns.split():
        a, b = x.split(':'); RANGES[a] = (rng, b)
QT_NULL_OK = {'getAsString', 'getAsOpaquePtr', 'getAsIdentifier', 'isLocalConstQualified', 'getLocalFastQualifiers', 'hasLocalQualifiers', 'withConst', 'isNull', 'getLocalUnqualifiedType'}
PURE = {'getManager', 'lookup', 'str', 'getValue'}
# called by clang / by the dispatching functions of /repo: the parameters that are not null
ENTRY = {'VisitStmt': {0}, 'VisitDecl': {0}, 'VisitCXXMemberCallExpr': {0}, 'VisitCXXOperatorCallExpr': {0}, 'VisitCXXDependentScopeMemberExpr': {0}, 'VisitLambdaExpr': {0}, 'VisitCallExpr': {0}, 'VisitDeclRefExpr': {0}, 'VisitMacroExpands': set(), 'VisitMacroDefined': set(), 'VisitDefined': set(), 'VisitIfdef': set(), 'VisitIfndef': set(), 'VisitIf': set(), 'VisitElif': set(), 'VisitElse': set(),
         'VisitEndif': set(), 'VisitInclusionDirective': set(), 'run': set(), 'registerASTMatchers': set(), 'HandleTranslationUnit': set(), 'MacroExpands': set(), 'MacroDefined': {1}, 'Defined': set(), 'Ifdef': set(), 'Ifndef': set(), 'If': set(), 'Elif': set(),
         'Else': set(), 'Endif': set(), 'InclusionDirective': set(), 'CreateASTConsumer': set(), 'ParseArgs': set(), 'FileChanged': set(), 'HandleDiagnostic': set(), 'BeginSourceFile': set(), 'EndSourceFile': set(), 'create': set(), 'registerMatchers': set(), 'check': {0}, 'registerPPCallbacks': {1}, 'onEndOfTranslationUnit': set(), 'HandleComment': set()}
ALGO = {}
# methods of CXXRecordDecl that read its definition
NEEDSDEF = set('''bases bases_begin bases_end getNumBases vbases vbases_begin vbases_end getNumVBases hasTrivialDefaultConstructor hasTrivialDestructor hasTrivialCopyConstructor hasTrivialCopyAssignment
hasTrivialMoveConstructor hasTrivialMoveAssignment isTriviallyCopyable isPolymorphic isAbstract isPOD isEmpty isAggregate isDynamicClass isStandardLayout isLiteral isTrivial
hasUserDeclaredCopyConstructor hasUserDeclaredCopyAssignment hasUserDeclaredMoveConstructor hasUserDeclaredMoveAssignment hasUserDeclaredDestructor hasUserDeclaredConstructor hasUserProvidedDefaultConstructor
hasNonTrivialCopyConstructor hasNonTrivialCopyAssignment hasNonTrivialDestructor hasNonTrivialMoveConstructor hasNonTrivialMoveAssignment hasNonTrivialDefaultConstructor hasDefaultConstructor hasSimpleCopyConstructor hasSimpleCopyAssignment
hasSimpleMoveConstructor hasSimpleMoveAssignment hasSimpleDestructor hasInheritedConstructor hasInheritedAssignment hasMutableFields hasPrivateFields hasProtectedFields hasInClassInitializer needsImplicitCopyConstructor
needsImplicitDefaultConstructor needsImplicitDestructor needsImplicitMoveConstructor hasMoveConstructor hasMoveAssignment hasCopyConstructorWithConstParam hasVirtualDestructor isDerivedFrom friends hasFriends hasAnyDependentBases hasIrrelevantDestructor hasConstexprDefaultConstructor'''.split())

def uf(name, args, s=I): return z3.Function(name, *([I] * len(args)), s)(*args)
def m(name, a, s=B): return uf('m_clang__' + name.replace('::', '__'), [a], s)
def hasdef(x): return uf('hasdef', [x], B)

POINTEE = ['isPointerType', 'isReferenceType', 'isAnyPointerType', 'isLValueReferenceType', 'isRValueReferenceType', 'isMemberPointerType', 'isBlockPointerType', 'isVoidPointerType', 'isFunctionPointerType']
ONE = 'CastExpr UnaryOperator ParenExpr MaterializeTemporaryExpr CXXBindTemporaryExpr FullExpr MemberExpr CXXStdInitializerListExpr'.split()
def facts(ex, name, a, e):
    if name == 'rng_children':
        x = a[0]; r = []
        nn, sz = ex.allnn(e), ex.size(e)
        for c in ONE: r.append(z3.Implies(z3.And(x != 0, ex.isa(c, x)), z3.And(nn, sz == 1)))
        r.append(z3.Implies(z3.And(x != 0, ex.isa('BinaryOperator', x)), z3.And(nn, sz == 2)))
        r.append(z3.Implies(z3.And(x != 0, ex.isa('ConditionalOperator', x)), z3.And(nn, sz == 3)))
        r.append(z3.Implies(z3.And(x != 0, ex.isa('CXXConstructExpr', x)), z3.And(nn, sz == ex.size(uf('rng_args', [x])))))
        r.append(z3.Implies(z3.And(x != 0, z3.Or(ex.isa('CompoundStmt', x), ex.isa('ReturnStmt', x), ex.isa('CallExpr', x))), nn))
        r.append(z3.Implies(z3.And(x != 0, ex.isa('CallExpr', x)), sz >= 1))
        r.append(z3.Implies(z3.And(x != 0, ex.isa('ReturnStmt', x)), (sz > 0) == (uf('m_clang__ReturnStmt__getRetValue', [x]) != 0)))
        return r
    return facts2(ex, name, a, e)
def facts2(ex, name, a, e):
    """what is known about the result e of an accessor called with a"""
    n = name
    if n == 'clang::Type::getPointeeType': return [z3.Implies(z3.Or(*[m('Type::' + x, a[0]) for x in POINTEE] + [ex.isa('PointerType', a[0]), ex.isa('ReferenceType', a[0])]), e != 0)]
    if n == 'clang::VarDecl::getInit': return [z3.Implies(m('VarDecl::hasInit', a[0]), e != 0)]
    if n == 'clang::VarDecl::getAnyInitializer': return [z3.Implies(m('VarDecl::hasInit', a[0]), e != 0)]
    if n == 'clang::ASTContext::getPointerType': return [m('Type::isPointerType', ex.typ(e)), e != 0]
    if n == 'clang::CXXBaseSpecifier::getType': return [uf('basetype', [ex.typ(e)], B)]
    if n in ('clang::Type::getAsCXXRecordDecl', 'clang::Type::getAsRecordDecl'): return [z3.Implies(z3.And(uf('basetype', [a[0]], B), e != 0), hasdef(e)), z3.Implies(m('Type::isRecordType', a[0]), e != 0),
                                                                                         z3.Implies(z3.And(e != 0, z3.Not(uf('m_clang__Type__isIncompleteType', [a[0], z3.IntVal(0)], B))), hasdef(e))]
    if n == 'clang::Type::getPointeeCXXRecordDecl': return []
    if n == 'clang::CXXMethodDecl::getParent': return [hasdef(e), ex.isa('CXXRecordDecl', e)]
    if n == 'clang::CXXRecordDecl::getDefinition': return [(e != 0) == hasdef(a[0]), z3.Implies(e != 0, hasdef(e))]
    if n == 'clang::CXXRecordDecl::getCanonicalDecl': return [hasdef(e) == hasdef(a[0])]
    if n == 'clang::LambdaExpr::getLambdaClass': return [hasdef(e)]
    if n == 'clang::FieldDecl::getParent': return [hasdef(e)]
    if n.startswith('clang::Type::getAs<') or n.startswith('clang::Type::castAs<'):
        c = n[n.index('<') + 1:-1].split('::')[-1]
        k = {'PointerType': 'isPointerType', 'RecordType': 'isRecordType', 'ReferenceType': 'isReferenceType', 'EnumType': 'isEnumeralType', 'FunctionType': 'isFunctionType', 'MemberPointerType': 'isMemberPointerType', 'BuiltinType': 'isBuiltinType'}.get(c)
        return [z3.Implies(m('Type::' + k, a[0]), e != 0)] if k else []
    if n == 'clang::PresumedLoc::getFilename': return [(e != 0) == m('PresumedLoc::isValid', a[0])]
    if n == 'clang::PresumedLoc::isInvalid': return [e == z3.Not(m('PresumedLoc::isValid', a[0]))]
    if n.startswith('clang::Decl::getAttr<'): return [(e != 0) == m('Decl::hasAttr' + n[len('clang::Decl::getAttr'):].replace('<', '_').replace('>', '_').replace(':', '_'), a[0])]
    if n == 'clang::SourceManager::getFileEntryRefForID' and len(a) > 1 and 'getMainFileID' in a[1].sexpr(): return [e != 0]      # the main file is a file
    if n == 'clang::ASTContext::getParents' and ex.fn['n'].split('::')[-1] == 'run': return [uf('size', [e]) >= 1]      # a node found by a matcher
    if n == 'clang::ReturnStmt::getRetValue': return [(e != 0) == (ex.size(uf('rng_children', [a[0]])) > 0)]
    return []

def entry_facts(ex, st, fn, entry):
    """what the dispatching functions establish before a check is called (dispatch() is the obligation)"""
    if entry and fn['n'].split('::')[-1] == 'VisitStmt' and fn.get('rec') != 'ClazyASTConsumer':
        from vc.safety import parse
        c = ex.field(st, st.env['this'].e, 'CheckBase::m_context', parse('ClazyContext *'))
        ex.fact(ex.field(st, c, 'ClazyContext::parentMap', parse('clang::ParentMap *')) != 0)
def dispatch(ex, st, nm, vs):
    if nm == 'VisitStmt' and ex.fn['n'].split('::')[-1] == 'VisitStmt':
        from vc.safety import parse, formal
        c = formal(ex.fn, 1)
        ex.need(st, ex.field(st, c, 'ClazyContext::parentMap', parse('clang::ParentMap *')) != 0, 'null', 'the parent map exists when a check visits a statement')
def model(ex, st, s, nm, cls, o, vs, t, c):
    """methods with preconditions of their own; None: none known"""
    from vc.safety import Val, parse, is_bool
    if o is None or o.e is None:
        return None
    ot = o.t.noref()
    a0 = vs[0].e if vs else None
    def rng(r):
        x = ex.uf('rng_' + r, [o.e]); ex.fact(ex.allnn(x)) if r in NN_RANGES else None; return x, ex.size(x)
    if nm == 'operator()' and ot.name.startswith('std::function') and t.name == 'CheckBase':
        r = ex.result(st, t); ex.fact(r.e != 0); return r      # the factories of Checks.h: new T
    if cls in ('clang::CallExpr', 'clang::CXXConstructExpr', 'clang::CXXUnresolvedConstructExpr', 'clang::CXXMemberCallExpr', 'clang::CXXOperatorCallExpr') and nm in ('getArg', 'setArg'):
        x, n = rng('args')
        if nm == 'getArg': opargs(ex, o, n)
        ex.need(st, z3.And(a0 >= 0, a0 < n), 'range', 'getArg() with an index in range')
        return Val(ex.elem(x, a0), t)
    if nm == 'getNumArgs' and cls == 'clang::CallExpr':
        x, n = rng('args'); opargs(ex, o, n); return Val(n, t)
    if nm == 'getParamDecl' and vs:
        x, n = rng('params'); ex.need(st, z3.And(a0 >= 0, a0 < n), 'range', 'getParamDecl() with an index in range'); return Val(ex.elem(x, a0), t)
    if nm == 'getParamType' and cls == 'clang::FunctionProtoType':
        x, n = rng('params'); ex.need(st, z3.And(a0 >= 0, a0 < n), 'range', 'getParamType() with an index in range'); return Val(ex.elem(x, a0), t)
    if nm in ('getInit', 'getNumInits') and cls == 'clang::InitListExpr':
        x, n = ex.uf('rng_ilinits', [o.e]), None; n = ex.size(x)
        if nm == 'getNumInits': return Val(n, t)
        ex.need(st, z3.And(a0 >= 0, a0 < n), 'range', 'getInit() with an index in range'); return Val(ex.elem(x, a0), t)
    if cls == 'clang::TemplateArgument':
        k = ex.uf('m_clang__TemplateArgument__getKind', [o.e])
        if nm == 'getAsType': ex.need(st, k == 1, 'cast', 'getAsType() of a template argument that is a type'); r = ex.pure(st, s, vs, t, o.e); ex.fact(z3.Implies(k == 1, r.e != 0)); return r
        if nm in ('getAsDecl', 'getAsIntegral', 'getAsTemplate', 'getAsExpr'):
            want = {'getAsDecl': 2, 'getAsIntegral': 4, 'getAsTemplate': 6, 'getAsExpr': 8}[nm]
            ex.need(st, k == want, 'cast', f'{nm}() of a template argument of that kind')
            r = ex.pure(st, s, vs, t, o.e); return r
    if cls == 'clang::CXXRecordDecl':
        if nm == 'hasDefinition': return Val(hasdef(o.e), parse('bool'))
        if nm in NEEDSDEF: ex.need(st, hasdef(o.e), 'null', f'{nm}() of a class that has a definition')
    if nm in ('isCompleteDefinition', 'isThisDeclarationADefinition') and cls in ('clang::TagDecl', 'clang::RecordDecl', 'clang::CXXRecordDecl'):
        r = ex.pure(st, s, vs, t, o.e); ex.fact(z3.Implies(r.e, hasdef(o.e))); return r
    if nm == 'getSingleDecl' and cls == 'clang::DeclStmt':
        ex.need(st, m('DeclStmt::isSingleDecl', o.e), 'cast', 'getSingleDecl() of a statement with one declaration')
        r = ex.pure(st, s, vs, t, o.e); ex.fact(r.e != 0); return r
    if cls == 'clang::ASTContext' and nm in ('getTypeSize', 'getTypeAlign', 'getTypeSizeInChars', 'getTypeInfo', 'getTypeSizeInCharsIfKnown') and vs:
        q = vs[0].e; y = q if vs[0].t.is_ptr() else ex.typ(q)
        rec = uf('m_clang__Type__getAsCXXRecordDecl', [y])
        dep, inc = m('Type::isDependentType', y), uf('m_clang__Type__isIncompleteType', [y, z3.IntVal(0)], B)
        und = z3.And(ex.isa('AutoType', y), uf('m_clang__DeducedType__getDeducedType', [y]) == 0)
        ptr = z3.Or(m('Type::isPointerType', y), m('Type::isReferenceType', y))
        ex.need(st, z3.Or(ptr, z3.And(z3.Not(dep), z3.Or(z3.And(z3.Not(und), z3.Not(inc)), z3.And(rec != 0, hasdef(rec))))), 'cast', f'{nm}() of a type that is complete and not dependent')
        return ex.pure(st, s, vs, t, o.e)
    if nm == 'getDeclContext' and ot.name not in ('clang::Decl', 'clang::DeclContext', 'clang::NamedDecl'):
        r = ex.pure(st, s, vs, t, o.e); ex.fact(r.e != 0); return r
    ta = [x for x in c.get('ta', []) if x != '?']
    if ta and nm == 'castAs' and cls == 'clang::Type':
        x = parse(ta[0]).name
        r = ex.pure(st, f'clang::Type::getAs<{x}>', vs, t, o.e)
        ex.need(st, r.e != 0, 'cast', f'castAs<{x}>() of a type of that kind'); return r
    if ta: 
        return ex.pure(st, s + '<' + ','.join(parse(x).name for x in ta) + '>', vs, t, o.e) if c.get('const') or nm in ('get', 'getAs') else None
    return None

def opargs(ex, o, n):
    if o.t.name == 'clang::CXXOperatorCallExpr' or ex.isas.get(o.e.get_id(), {}).get('CXXOperatorCallExpr'):
        ex.fact(z3.Implies(ex.isa('CXXOperatorCallExpr', o.e), n >= 1))
