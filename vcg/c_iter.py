"""Contracts of iteration and of construction from lists (C23): the constructors, and client functions (drivers/iter.cpp) that walk through arrays and objects."""
from c_value import C, V, A, O_, WV, WA, WO, LoopSpec, one, pn, contracts as base_contracts
contracts = []
def add(c): c.optional = True; c.iter = True; contracts.append(c)
IL = 'std::initializer_list'
add(C(A + 'array', name='array(list)', when=lambda f: one(f) and pn(f) == IL, requires=['wf_seq({0})'], ret='(Arr { d: {0} })',
      loops=[LoopSpec(['0 <= {__begin~it~i|iter} && {__begin~it~i|iter} <= {0}.len()', '{this.d} =~= {0}.subrange(0, {__begin~it~i|iter})'], '{0}.len() - {__begin~it~i|iter}')]))
add(C(O_ + 'object', name='object(list)', when=lambda f: one(f) and pn(f) == IL, requires=['wf_list({0})'], ret='(Obj { d: list_map({0}, {0}.len() as int) })',
      loops=[LoopSpec(['0 <= {__begin~it~i|iter} && {__begin~it~i|iter} <= {0}.len()', '{this.d} =~= list_map({0}, {__begin~it~i|iter})'], '{0}.len() - {__begin~it~i|iter}')]))
add(C(V + 'value', name='value(list)', when=lambda f: one(f) and pn(f) == IL, requires=['wf_list({0})'], ret='mk_obj(list_map({0}, {0}.len() as int))'))
def seqc(n, it, rev=False, mut=False):
    i = '{%s|iter}' % it if it != 'i' else '{i|int}'
    done = '({0.d}.len() - %s)' % i if rev else i
    el = '{0.d}[{0.d}.len() - 1 - q]' if rev else '{0.d}[q]'
    inv = ['0 <= %s && %s <= {0.d}.len()' % (i, i), '{r|Arr}.d.len() == %s' % done, 'forall|q: int| 0 <= q < %s ==> #[trigger] {r|Arr}.d[q] == %s' % (done, el)]
    if mut: inv.append('{0.d} == {old.0.d}')
    c = C('vd::' + n, requires=['wf_seq({0.d})'], ensures=['{ret.d}.len() == {0.d}.len()', 'forall|q: int| 0 <= q < {0.d}.len() ==> #[trigger] {ret.d}[q] == ' + el] + (['{0.d} == {old.0.d}'] if mut else []), modifies=['0'] if mut else [],
          loops=[LoopSpec(inv, '%s' % i if rev else '{0.d}.len() - %s' % i)])
    add(c)
seqc('forward', '__begin~it~i'); seqc('forward_mut', 'it', mut=True); seqc('forward_c', 'it'); seqc('by_index', 'i')
seqc('backward', 'it', rev=True); seqc('backward_mut', 'it', rev=True, mut=True); seqc('backward_c', 'it', rev=True)
add(C('vd::fill', requires=['wf_seq({0.d})', 'wf({1})'], modifies=['0'], ensures=['{0.d}.len() == {old.0.d}.len()', 'forall|q: int| 0 <= q < {0.d}.len() ==> #[trigger] {0.d}[q] == {1}'],
      loops=[LoopSpec(['0 <= {__begin~i|iter} && {__begin~i|iter} <= {old.0.d}.len()', '{0.d}.len() == {old.0.d}.len()', 'forall|q: int| 0 <= q < {__begin~i|iter} ==> #[trigger] {0.d}[q] == {1}', 'wf_seq({0.d})'], '{old.0.d}.len() - {__begin~i|iter}')]))
def mapc(n, it, mut=False):
    i = '{%s|iter}' % it
    add(C('vd::' + n, requires=['wf_map({0.d})'], ensures=['{ret.d} =~= {0.d}'] + (['{0.d} == {old.0.d}'] if mut else []), modifies=['0'] if mut else [],
          loops=[LoopSpec(['0 <= %s && %s <= ks({0.d}).len()' % (i, i), '{r|Obj}.d =~= mpre({0.d}, %s)' % i] + (['{0.d} == {old.0.d}'] if mut else []), 'ks({0.d}).len() - %s' % i)]))
mapc('members', '__begin~it'); mapc('members_c', 'it'); mapc('members_mut', 'it', True)
add(C('vd::names', requires=['wf_map({0.d})'], ensures=['{ret.d}.len() == ks({0.d}).len()', 'forall|q: int| 0 <= q < ks({0.d}).len() ==> #[trigger] {ret.d}[q] == mk_str(ks({0.d})[q])'],
      loops=[LoopSpec(['0 <= {__begin|iter} && {__begin|iter} <= ks({0.d}).len()', '{r|Arr}.d.len() == {__begin|iter}', 'forall|q: int| 0 <= q < {__begin|iter} ==> #[trigger] {r|Arr}.d[q] == mk_str(ks({0.d})[q])'], 'ks({0.d}).len() - {__begin|iter}')]))
add(C('vd::fill_members', requires=['wf_map({0.d})', 'wf({1})'], modifies=['0'], ensures=['{0.d}.dom() =~= {old.0.d}.dom()', 'forall|q: Seq<u8>| {0.d}.dom().contains(q) ==> #[trigger] {0.d}[q] == {1}'],
      loops=[LoopSpec(['0 <= {__begin|iter} && {__begin|iter} <= ks({old.0.d}).len()', '{0.d}.dom() =~= {old.0.d}.dom()', 'forall|j_: int| 0 <= j_ < {__begin|iter} ==> {0.d}[#[trigger] ks({old.0.d})[j_]] == {1}', 'wf_map({0.d})'], 'ks({old.0.d}).len() - {__begin|iter}')]))
add(C('vd::list', requires=['wf({0})', 'wf({1})', 'wf({2})'], ensures=['{ret.d} =~= seq![{0}, {1}, {2}]']))
D = 'if {0} == {2} { Map::<Seq<u8>, Value>::empty().insert({0}, {1}) } else { Map::<Seq<u8>, Value>::empty().insert({0}, {1}).insert({2}, {3}) }'
add(C('vd::dict', requires=['wf({1})', 'wf({3})'], ensures=['{ret.d} =~= ' + D], hints=['reveal_with_fuel(list_map, 4)']))
add(C('vd::tree', requires=['wf({1})', 'wf({3})'], ensures=['{ret.ty} == 6 && obj_of({ret}) =~= ' + D], hints=['reveal_with_fuel(list_map, 4)']))
contracts = contracts + base_contracts
def select(c, f): return getattr(c, 'iter', False)
