"""C01: the set of active checks is exactly what the arguments and the environment select."""
from vc.translate import Fn, Loop
SOURCES = ['src/checkmanager.cpp']
FIELDS = {'RegisteredCheck': ['name', 'level', 'options'], 'RegisteredFixIt': ['id', 'name'],
          'CheckManager': ['m_registeredChecks', 'm_fixitsByCheckName', 'm_fixitByName']}
PRELUDE = r'''
type RC = R_RegisteredCheck; type CM = R_CheckManager;
pub open spec fn named(s: Seq<RC>, n: Str) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).name == n }
pub open spec fn fix_of(m: Map<Str, Seq<R_RegisteredFixIt>>, chk: Str, fx: Str) -> bool {
    m.dom().contains(chk) && exists|j: int| 0 <= j < m[chk].len() && (#[trigger] m[chk][j]).name == fx }
pub open spec fn owned(self_: CM, fx: Str) -> bool { fx.len() > 0 && exists|i: int| 0 <= i < self_.m_registeredChecks.len() && fix_of(self_.m_fixitsByCheckName, (#[trigger] self_.m_registeredChecks[i]).name, fx) }
/// the registry: names are non-empty and distinct, a fix-it belongs to one check
pub open spec fn wf(self_: CM) -> bool {
    let reg = self_.m_registeredChecks;
    &&& forall|i: int, j: int| 0 <= i < j < reg.len() ==> (#[trigger] reg[i]).name != (#[trigger] reg[j]).name
    &&& forall|i: int| 0 <= i < reg.len() ==> (#[trigger] reg[i]).name.len() > 0 && is_chars(reg[i].name)
    &&& forall|i: int, j: int, fx: Str| 0 <= i < reg.len() && 0 <= j < reg.len() && #[trigger] fix_of(self_.m_fixitsByCheckName, reg[i].name, fx) && #[trigger] fix_of(self_.m_fixitsByCheckName, reg[j].name, fx) ==> i == j
}
pub open spec fn level_of(n: Str) -> int { if n == L"level0" { 0 } else if n == L"level1" { 1 } else if n == L"level2" { 2 } else { -1 } }
/// one item of a comma separated list selects check r
pub open spec fn selects(self_: CM, n: Str, r: RC) -> bool {
    self_.m_registeredChecks.contains(r) && (
        r.name == n
        || (!named(self_.m_registeredChecks, n) && n.len() > 0 && fix_of(self_.m_fixitsByCheckName, r.name, n))
        || (!named(self_.m_registeredChecks, n) && !owned(self_, n) && level_of(n) >= 0 && r.level <= level_of(n)))
}
/// one item disables the check called d
pub open spec fn disables(self_: CM, n: Str, d: Str) -> bool {
    !named(self_.m_registeredChecks, n) && !owned(self_, n) && n == L"no-" + d && named(self_.m_registeredChecks, d)
}
pub open spec fn sel_upto(self_: CM, ns: Seq<Str>, k: int, r: RC) -> bool { exists|i: int| 0 <= i < k && selects(self_, #[trigger] ns[i], r) }
pub open spec fn dis_upto(self_: CM, ns: Seq<Str>, k: int, d: Str) -> bool { exists|i: int| 0 <= i < k && disables(self_, #[trigger] ns[i], d) }
pub open spec fn list_sel(self_: CM, s: Str, r: RC) -> bool { sel_upto(self_, split(s, C','), split(s, C',').len() as int, r) }
pub open spec fn list_dis(self_: CM, s: Str, d: Str) -> bool { dis_upto(self_, split(s, C','), split(s, C',').len() as int, d) }
pub proof fn step(self_: CM, ns: Seq<Str>, k: int)
    requires 0 <= k < ns.len()
    ensures forall|r: RC| #[trigger] sel_upto(self_, ns, k + 1, r) <==> (sel_upto(self_, ns, k, r) || selects(self_, ns[k], r)),
        forall|d: Str| #[trigger] dis_upto(self_, ns, k + 1, d) <==> (dis_upto(self_, ns, k, d) || disables(self_, ns[k], d))
{
    assert forall|r: RC| #[trigger] sel_upto(self_, ns, k + 1, r) <==> (sel_upto(self_, ns, k, r) || selects(self_, ns[k], r)) by {
        if selects(self_, ns[k], r) { assert(sel_upto(self_, ns, k + 1, r)); }
        if sel_upto(self_, ns, k, r) { let i = choose|i: int| 0 <= i < k && selects(self_, #[trigger] ns[i], r); assert(selects(self_, ns[i], r)); }
    }
    assert forall|d: Str| #[trigger] dis_upto(self_, ns, k + 1, d) <==> (dis_upto(self_, ns, k, d) || disables(self_, ns[k], d)) by {
        if disables(self_, ns[k], d) { assert(dis_upto(self_, ns, k + 1, d)); }
        if dis_upto(self_, ns, k, d) { let i = choose|i: int| 0 <= i < k && disables(self_, #[trigger] ns[i], d); assert(disables(self_, ns[i], d)); }
    }
}
pub proof fn same_name(self_: CM, a: RC, b: RC)
    requires wf(self_), self_.m_registeredChecks.contains(a), self_.m_registeredChecks.contains(b), a.name == b.name
    ensures a == b
{
    let reg = self_.m_registeredChecks;
    let i = choose|i: int| 0 <= i < reg.len() && reg[i] == a; let j = choose|j: int| 0 <= j < reg.len() && reg[j] == b;
    if i < j { assert(reg[i].name != reg[j].name); } if j < i { assert(reg[j].name != reg[i].name); }
}
/// the environment part
pub open spec fn unq(s: Str) -> Str { if s.len() >= 3 && s[0] == 34 && s[s.len() - 1] == 34 { s.subrange(1, s.len() - 1) } else { s } }
pub open spec fn env_sel(self_: CM, r: RC) -> bool {
    match env(L"CLAZY_CHECKS") { None => false, Some(e) =>
        if unq(e) == L"all_checks" { self_.m_registeredChecks.contains(r) && r.level <= 2 }
        else { list_sel(self_, unq(e), r) && !list_dis(self_, unq(e), r.name) } } }
pub open spec fn env_dis(self_: CM, d: Str) -> bool {
    match env(L"CLAZY_CHECKS") { None => false, Some(e) => unq(e) != L"all_checks" && list_dis(self_, unq(e), d) } }
/// what the function-local statics may hold between calls
pub open spec fn statics_ok(self_: CM, rq: Seq<RC>, ds: Seq<Str>) -> bool {
    (rq.len() == 0 || (forall|r: RC| #[trigger] rq.contains(r) <==> env_sel(self_, r)))
    && (forall|d: Str| #[trigger] ds.contains(d) ==> env_dis(self_, d)) && (rq.len() > 0 ==> forall|d: Str| #[trigger] ds.contains(d) <==> env_dis(self_, d)) }
/// index of the first levelN argument, in the order level0, level1, level2
pub open spec fn arg_level(args: Seq<Str>) -> int { if args.contains(L"level0") { 0 } else if args.contains(L"level1") { 1 } else if args.contains(L"level2") { 2 } else { -1 } }
pub open spec fn lev(i: int) -> Str { if i == 0 { L"level0" } else if i == 1 { L"level1" } else { L"level2" } }
/// removing one occurrence of x (the first)
pub open spec fn without(args: Seq<Str>, x: Str, out: Seq<Str>) -> bool {
    exists|p: int| 0 <= p < args.len() && args[p] == x && (forall|q: int| 0 <= q < p ==> args[q] != x) && out == #[trigger] args.remove(p) }
pub open spec fn find_pos(args: Seq<Str>, x: Str) -> int { choose|p: int| 0 <= p < args.len() && args[p] == x && (forall|q: int| 0 <= q < p ==> args[q] != x) }
pub open spec fn rest_args(args: Seq<Str>, out: Seq<Str>) -> bool { if arg_level(args) >= 0 { without(args, lev(arg_level(args)), out) } else { out == args } }
/// THE SELECTION: r is active for argument list args (rest = args without the level argument)
pub open spec fn listed(self_: CM, rest: Seq<Str>, r: RC) -> bool { (rest.len() == 1 && list_sel(self_, rest[0], r) && !list_dis(self_, rest[0], r.name)) || env_sel(self_, r) }
pub open spec fn disabled(self_: CM, rest: Seq<Str>, d: Str) -> bool { (rest.len() == 1 && list_dis(self_, rest[0], d)) || env_dis(self_, d) }
pub open spec fn active(self_: CM, args: Seq<Str>, rest: Seq<Str>, r: RC) -> bool {
    let lv = if arg_level(args) == -1 && (forall|q: RC| !#[trigger] listed(self_, rest, q)) { 1 } else { arg_level(args) };
    &&& rest.len() <= 1
    // a list in which nothing is recognised selects nothing at all
    &&& !(rest.len() == 1 && (forall|q: RC| !(#[trigger] list_sel(self_, rest[0], q) && !list_dis(self_, rest[0], q.name))) && (forall|d: Str| !#[trigger] list_dis(self_, rest[0], d)))
    &&& (listed(self_, rest, r) || (self_.m_registeredChecks.contains(r) && lv >= 0 && r.level <= lv))
    &&& !disabled(self_, rest, r.name)
}
pub open spec fn strictly_sorted(s: Seq<RC>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> str_lt(s[i].name, s[j].name) }
'''
CONTRACTS = {
 'clazy::startsWith': Fn(ensures=['ret == str_starts_with(target, maybeBeginning)'], params=['target', 'maybeBeginning'], pure='str_starts_with',
    hints={'entry': 'assert(target.skip(0) =~= target); assert(target.take(target.len() as int) =~= target);'}),
 'clazy::splitString(const string &, char)': Fn(params=['str', 'separator'], ensures=['ret == split(str, separator)'], locals={'token': 'Str', 'result': 'Seq<Str>', 'istream': 'IStream'},
    hints={'entry': ''},
    loops=[Loop(inv=['brk0 ==> istream.rest.len() == 0', 'result + split(istream.rest, separator) == split(str, separator)'], dec='istream.rest.len()', before='assert(result + split(istream.rest, separator) =~= split(str, separator));',
                start='let ghost_rest = istream.rest; lemma_ch_idx(istream.rest, separator);',
                end='assert(result + split(istream.rest, separator) =~= split(str, separator));', after='assert(result =~= split(str, separator));')]),
 'clazy::splitString(const char *, char)': Fn(params=['str', 'separator'], ensures=['ret == match str { None => Seq::<Str>::empty(), Some(s) => split(s, separator) }']),
 'clazy::unquoteString': Fn(params=['str'], ensures=['ret == unq(str)'], hints={'return': ''}),
 'CheckManager::checkForName': Fn(params=['checks', 'name'], ret=0, ensures=['0 <= ret <= checks.len()', 'forall|j: int| 0 <= j < ret ==> (#[trigger] checks[j]).name != name', 'ret < checks.len() ==> checks[ret].name == name', 'ret < checks.len() <==> named(checks, name)']),
 'CheckManager::checkExists': Fn(params=['name'], ensures=['ret == named(self_.m_registeredChecks, name)']),
 'CheckManager::checkNameForFixIt': Fn(params=['fixitName'], requires=['wf(self_)'],
    ensures=['ret.len() == 0 <==> !owned(self_, fixitName)', 'ret.len() > 0 ==> fix_of(self_.m_fixitsByCheckName, ret, fixitName) && named(self_.m_registeredChecks, ret)'],
    loops=[Loop(inv=['forall|i: int| 0 <= i < i0 ==> !fix_of(self_.m_fixitsByCheckName, (#[trigger] rng0[i]).name, fixitName)', 'rng0 == self_.m_registeredChecks']),
           Loop(inv=['forall|j: int| 0 <= j < i1 ==> (#[trigger] rng1[j]).name != fixitName'])]),
 'CheckManager::availableChecks': Fn(params=['maxLevel'], ensures=['forall|r: RC| #[trigger] ret.contains(r) <==> self_.m_registeredChecks.contains(r) && r.level <= maxLevel']),
 'CheckManager::checksForLevel': Fn(params=['level'], ensures=['forall|r: RC| #[trigger] ret.contains(r) <==> self_.m_registeredChecks.contains(r) && r.level <= level && 0 <= level <= 2']),
 'CheckManager::removeChecksFromList': Fn(params=['list', 'checkNames'], ensures=['checkNames_out == checkNames', 'forall|r: RC| #[trigger] list_out.contains(r) <==> list.contains(r) && !checkNames.contains(r.name)', 'strictly_sorted(list) ==> strictly_sorted(list_out)'],
    uses=['filter_sorted'], loops=[Loop(inv=['forall|r: RC| #[trigger] list.contains(r) <==> list_in.contains(r) && !rng0.take(i0).contains(r.name)', 'checkNames == checkNames_in', 'rng0 == checkNames_in', 'strictly_sorted(list_in) ==> strictly_sorted(list)'],
       before='assert(rng0.take(0) =~= Seq::<Str>::empty());',
       start='assert(rng0.take(i0 + 1) =~= rng0.take(i0).push(rng0[i0]));',
       after='assert(rng0.take(i0) =~= rng0);')]),
 'CheckManager::checksForCommaSeparatedString(const string &, std::vector<string> &) const': Fn(params=['str', 'userDisabledChecks'], requires=['wf(self_)'],
    ensures=['forall|d: Str| #![trigger userDisabledChecks_out.contains(d)] #![trigger list_dis(self_, str, d)] userDisabledChecks_out.contains(d) <==> userDisabledChecks.contains(d) || list_dis(self_, str, d)',
             'forall|r: RC| #![trigger ret.contains(r)] #![trigger list_sel(self_, str, r)] ret.contains(r) <==> list_sel(self_, str, r) && !userDisabledChecks_out.contains(r.name)',
             'ret.len() > 0 ==> ret.contains(ret[0])', 'userDisabledChecks_out.len() > 0 ==> userDisabledChecks_out.contains(userDisabledChecks_out[0])'],
    locals={'checkNames': 'Seq<Str>', 'result': 'Seq<R_RegisteredCheck>'},
    loops=[Loop(inv=['rng0 == split(str, C\',\')', 'forall|r: RC| #[trigger] result.contains(r) <==> sel_upto(self_, rng0, i0, r)',
                     'forall|d: Str| #[trigger] userDisabledChecks.contains(d) <==> userDisabledChecks_in.contains(d) || dis_upto(self_, rng0, i0, d)'],
             start='step(self_, rng0, i0); lem_item(self_, rng0[i0], result, rng0, i0);')]),
 'CheckManager::checksForCommaSeparatedString(const string &) const': Fn(params=['str'], requires=['wf(self_)'], ensures=['forall|r: RC| #[trigger] ret.contains(r) <==> list_sel(self_, str, r) && !list_dis(self_, str, r.name)']),
 'CheckManager::requestedChecksThroughEnv': Fn(params=['userDisabledChecks'], statics={'requestedChecksThroughEnv': 'Seq<R_RegisteredCheck>', 'disabledChecksThroughEnv': 'Seq<Str>'},
    requires=['wf(self_)', 'statics_ok(self_, requestedChecksThroughEnv, disabledChecksThroughEnv)'],
    ensures=['statics_ok(self_, requestedChecksThroughEnv_out, disabledChecksThroughEnv_out)', 'forall|r: RC| #![trigger ret.contains(r)] #![trigger env_sel(self_, r)] ret.contains(r) <==> env_sel(self_, r)', 'forall|d: Str| #[trigger] userDisabledChecks_out.contains(d) <==> userDisabledChecks.contains(d) || env_dis(self_, d)']),
 'takeArgument': Fn(params=['arg', 'args'], ensures=['ret == args.contains(arg)', '!ret ==> args_out == args', 'ret ==> without(args, arg, args_out)'], hints={'return': 'if ret { let p = find_pos(args_in, arg); assert(args_in.remove(p) =~= args); }'}),
 'clazy::sort_and_remove_dups': Fn(inline=True),
 'CheckManager::requestedChecks': Fn(params=['args'], statics={'requestedChecksThroughEnv': 'Seq<R_RegisteredCheck>', 'disabledChecksThroughEnv': 'Seq<Str>'},
    requires=['wf(self_)', 'statics_ok(self_, requestedChecksThroughEnv, disabledChecksThroughEnv)'], mut=[0],
    ensures=['rest_args(args, args_out)', 'strictly_sorted(ret)', 'forall|r: RC| #[trigger] ret.contains(r) <==> active(self_, args, args_out, r)', 'statics_ok(self_, requestedChecksThroughEnv_out, disabledChecksThroughEnv_out)'],
    uses=['in_reg', 'env_in_reg', 'uniq_sorted'], locals={'result': 'Seq<R_RegisteredCheck>', 'userDisabledChecks': 'Seq<Str>', 'requestedLevel': 'int', 'i': 'int'},
    hints={'after:sort_by(': 'ready(self_, result);', 'before_call:CheckManager::checksForLevel': 'if result.len() > 0 { assert(result.contains(result[0])); } assert(forall|r: RC| #![trigger result.contains(r)] #![trigger listed(self_, args, r)] result.contains(r) <==> listed(self_, args, r)); assert(forall|d: Str| #![trigger userDisabledChecks.contains(d)] userDisabledChecks.contains(d) <==> disabled(self_, args, d)); let lv = if arg_level(args_in) == -1 && (forall|q: RC| !#[trigger] listed(self_, args, q)) { 1 } else { arg_level(args_in) }; assert(lv == requestedLevel);'},
    loops=[Loop(inv=['0 <= i <= 3', 'forall|j: int| 0 <= j < i ==> !args_in.contains(#[trigger] lev(j))', 'brk0 ==> i < 3 && requestedLevel == i && args_in.contains(lev(i)) && without(args_in, lev(i), args)', '!brk0 ==> requestedLevel == -1 && args == args_in'],
                before='assert(forall|j: int| 0 <= j < 3 ==> levels[j] == #[trigger] lev(j));', after='assert(lev(0) == L"level0" && lev(1) == L"level1" && lev(2) == L"level2"); assert(brk0 ==> arg_level(args_in) == i); assert(!brk0 ==> arg_level(args_in) == -1);')]),
 'CheckManager::checksAsErrors': Fn(ensures=['match env(L"CLAZY_CHECKS_AS_ERRORS") { None => ret.len() == 0, Some(e) => forall|n: Str| #[trigger] ret.contains(n) <==> split(e, C\',\').contains(n) && named(self_.m_registeredChecks, n) }'],
    loops=[Loop(inv=['forall|n: Str| #[trigger] result.contains(n) <==> rng0.take(i0).contains(n) && named(self_.m_registeredChecks, n)'], before='assert(rng0.take(0) =~= Seq::<Str>::empty());', start='assert(rng0.take(i0 + 1) =~= rng0.take(i0).push(rng0[i0]));', after='assert(rng0.take(i0) =~= rng0);')],
    locals={'checkNames': 'Seq<Str>', 'result': 'Seq<Str>'}),
}
PRELUDE += r'''
pub broadcast proof fn filter_sorted(s: Seq<RC>, p: spec_fn(RC) -> bool) ensures strictly_sorted(s) ==> #[trigger] strictly_sorted(s.filter(p))
{
    let f = lemma_filter_index(s, p);
    if strictly_sorted(s) { assert forall|i: int, j: int| 0 <= i < j < s.filter(p).len() implies str_lt(s.filter(p)[i].name, s.filter(p)[j].name) by { assert(f[i] < f[j]); assert(s[f[i]] == s.filter(p)[i] && s[f[j]] == s.filter(p)[j]); } }
}
pub broadcast proof fn in_reg(self_: CM, ns: Seq<Str>, k: int, r: RC) ensures #[trigger] sel_upto(self_, ns, k, r) ==> self_.m_registeredChecks.contains(r) {}
pub broadcast proof fn env_in_reg(self_: CM, r: RC) ensures #[trigger] env_sel(self_, r) ==> self_.m_registeredChecks.contains(r) { broadcast use in_reg; }
pub open spec fn uniq_ready(s: Seq<RC>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> !str_lt((#[trigger] s[j]).name, (#[trigger] s[i]).name)
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).name == (#[trigger] s[j]).name ==> s[i] == s[j]
    &&& forall|i: int| 0 <= i < s.len() ==> is_chars((#[trigger] s[i]).name) }
pub broadcast proof fn uniq_sorted(s: Seq<RC>, eq: spec_fn(RC, RC) -> bool)
    ensures uniq_ready(s) && (forall|a: RC, b: RC| #[trigger] eq(a, b) <==> a.name == b.name) ==>
        strictly_sorted(#[trigger] unique_by(s, eq)) && (forall|x: RC| #[trigger] unique_by(s, eq).contains(x) <==> s.contains(x))
{
    if uniq_ready(s) && (forall|a: RC, b: RC| #[trigger] eq(a, b) <==> a.name == b.name) {
        let lt = |a: RC, b: RC| str_lt(a.name, b.name);
        assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && !lt(s[i], s[j]) && !lt(s[j], s[i]) implies s[i] == s[j] by { lemma_str_lt_total(s[i].name, s[j].name); }
        assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && lt(s[i], s[j]) && lt(s[j], s[k]) implies lt(s[i], s[k]) by { lemma_str_lt_trans(s[i].name, s[j].name, s[k].name); }
        lemma_unique_by(s, eq, lt);
        assert forall|i: int, j: int| 0 <= i < j < unique_by(s, eq).len() implies str_lt(unique_by(s, eq)[i].name, unique_by(s, eq)[j].name) by { assert(lt(unique_by(s, eq)[i], unique_by(s, eq)[j])); }
    }
}
pub proof fn ready(self_: CM, s: Seq<RC>)
    requires wf(self_), forall|r: RC| s.contains(r) ==> self_.m_registeredChecks.contains(r),
        forall|i: int, j: int| 0 <= i < j < s.len() ==> !str_lt((#[trigger] s[j]).name, (#[trigger] s[i]).name)
    ensures uniq_ready(s)
{
    assert forall|i: int| 0 <= i < s.len() implies is_chars((#[trigger] s[i]).name) by { assert(s.contains(s[i])); let reg = self_.m_registeredChecks; let k = choose|k: int| 0 <= k < reg.len() && reg[k] == s[i]; assert(is_chars(reg[k].name)); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() && (#[trigger] s[i]).name == (#[trigger] s[j]).name implies s[i] == s[j] by { assert(s.contains(s[i]) && s.contains(s[j])); same_name(self_, s[i], s[j]); }
}
/// facts about one list item used in the loop
pub proof fn lem_item(self_: CM, n: Str, result: Seq<RC>, ns: Seq<Str>, k: int)
    requires wf(self_), forall|r: RC| #[trigger] result.contains(r) <==> sel_upto(self_, ns, k, r)
    ensures forall|r: RC, q: RC| #![trigger selects(self_, n, r), selects(self_, n, q)] (named(self_.m_registeredChecks, n) || owned(self_, n)) && selects(self_, n, r) && selects(self_, n, q) ==> r == q,
        named(result, n) ==> named(self_.m_registeredChecks, n) && exists|q: RC| result.contains(q) && #[trigger] selects(self_, n, q),
        str_starts_with(n, L"level") && n.len() == 6 ==> (level_of(n) == n[5] - 48 || (level_of(n) == -1 && !(0 <= n[5] - 48 <= 2))),
        !(str_starts_with(n, L"level") && n.len() == 6) ==> level_of(n) == -1,
        str_starts_with(n, L"no-") <==> exists|d: Str| n == #[trigger] (L"no-" + d),
        forall|d: Str| n == #[trigger] (L"no-" + d) <==> str_starts_with(n, L"no-") && n.skip(3) == d,
{
    let reg = self_.m_registeredChecks;
    assert forall|r: RC, q: RC| #![trigger selects(self_, n, r), selects(self_, n, q)] (named(reg, n) || owned(self_, n)) && selects(self_, n, r) && selects(self_, n, q) implies r == q by {
        if r.name == q.name { same_name(self_, r, q); }
        let i = choose|i: int| 0 <= i < reg.len() && reg[i] == r; let j = choose|j: int| 0 <= j < reg.len() && reg[j] == q;
        assert(reg[i].name == r.name && reg[j].name == q.name);
        if owned(self_, n) && !named(reg, n) { assert(fix_of(self_.m_fixitsByCheckName, reg[i].name, n)); assert(fix_of(self_.m_fixitsByCheckName, reg[j].name, n)); }
    }
    if named(result, n) {
        let q = choose|q: int| 0 <= q < result.len() && (#[trigger] result[q]).name == n;
        assert(result.contains(result[q])); assert(sel_upto(self_, ns, k, result[q]));
        assert(reg.contains(result[q])); let j = choose|j: int| 0 <= j < reg.len() && reg[j] == result[q]; assert(reg[j].name == n);
        assert(selects(self_, n, result[q]));
    }
    if str_starts_with(n, L"level") && n.len() == 6 {
        assert(n =~= L"level".push(n[5])) by { assert(n =~= n.take(5).push(n[5])); }
        assert(L"level0" =~= L"level".push(48)); assert(L"level1" =~= L"level".push(49)); assert(L"level2" =~= L"level".push(50));
        assert(L"level".push(n[5])[5] == n[5]);
    }
    assert(str_starts_with(L"level0", L"level")) by { assert(L"level0".take(5) =~= L"level"); }
    assert(str_starts_with(L"level1", L"level")) by { assert(L"level1".take(5) =~= L"level"); }
    assert(str_starts_with(L"level2", L"level")) by { assert(L"level2".take(5) =~= L"level"); }
    assert forall|d: Str| n == #[trigger] (L"no-" + d) <==> str_starts_with(n, L"no-") && n.skip(3) == d by {
        assert((L"no-" + d).take(3) =~= L"no-"); assert((L"no-" + d).skip(3) =~= d);
        if str_starts_with(n, L"no-") && n.skip(3) == d { assert(n =~= n.take(3) + n.skip(3)); }
    }
    if str_starts_with(n, L"no-") { assert(n == L"no-" + n.skip(3)); }
}
'''
