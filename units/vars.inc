#@struct variablelist.rs VariableList
#@verbatim
/// The expression bound to a name: the first entry of the list wins.
pub open spec fn lookup(s: Seq<(Name, Expression)>, k: int, i: int) -> Option<Expr>
    decreases s.len() - i
{
    if i < 0 || i >= s.len() { None } else if key(s[i].0) == k { Some(s[i].1.inner) } else { lookup(s, k, i + 1) }
}
pub proof fn lookup_skip(s: Seq<(Name, Expression)>, k: int, i: int, j: int)
    requires 0 <= i <= j <= s.len(), forall|m: int| i <= m < j ==> key(#[trigger] s[m].0) != k
    ensures lookup(s, k, i) == lookup(s, k, j)
    decreases j - i
{ if i < j { lookup_skip(s, k, i + 1, j); } }
#@method variablelist.rs VariableList find
##attr
#[verifier::loop_isolation(false)]
##spec
    ensures match r { Some(e) => lookup(self.inner@, key(*$0$), 0) == Some(e.inner), None => lookup(self.inner@, key(*$0$), 0) is None }
##loop 0
    invariant
        __i0 <= __n0, __n0 == __s0@.len(), __s0@ == self.inner@,
        __v0 is None ==> forall|m: int| 0 <= m < __i0 ==> key(#[trigger] self.inner@[m].0) != key(*$0$),
        __v0 matches Some(x) ==> lookup(self.inner@, key(*$0$), 0) == Some((*x).1.inner),
    decreases __n0 - __i0
##loopend 0
    proof { if __v0 is Some { 
       if forall|m: int| 0 <= m < __i0 - 1 ==> key(#[trigger] self.inner@[m].0) != key(*$0$) { lookup_skip(self.inner@, key(*$0$), 0, __i0 - 1); } } }
##loopafter 0
    proof { if __v0 is None { lookup_skip(self.inner@, key(*$0$), 0, self.inner@.len() as int); } }
#@method variablelist.rs VariableList new
##spec
    ensures r.inner@.len() == 0
#@method variablelist.rs VariableList add_var
##spec
    ensures final(self).inner@ == old(self).inner@.push(($0$, $1$)), r == old(self).inner@.len()
