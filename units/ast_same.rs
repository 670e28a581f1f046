/// The kinds of expression the transformations handle, at every level.
pub open spec fn supp_args(s: Punctuated<Expr>, n: nat) -> bool
    decreases s, n when n <= s@.len() via sa_dec
{ n == 0 || (supp_args(s, (n - 1) as nat) && supp(s@[n - 1])) }
pub open spec fn supp(e: Expr) -> bool
    decreases e, 0nat via s_dec
{
    match e {
        Expr::Unary(u) => supp(*u.expr),
        Expr::Binary(b) => supp(*b.left) && supp(*b.right),
        Expr::Paren(p) => supp(*p.expr),
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => supp(*f.base),
        Expr::MethodCall(m) => supp(*m.receiver) && supp_args(m.args, m.args@.len()),
        _ => false,
    }
}
#[via_fn] proof fn s_dec(e: Expr) { broadcast use punct_dec; }
#[via_fn] proof fn sa_dec(s: Punctuated<Expr>, n: nat) { broadcast use punct_dec; }
pub proof fn supp_args_lift(s: Punctuated<Expr>, n: nat)
    requires n <= s@.len(), forall|k: int| 0 <= k < n ==> supp(#[trigger] s@[k])
    ensures supp_args(s, n)
    decreases n
{ if n > 0 { supp_args_lift(s, (n - 1) as nat); } }
pub proof fn supp_args_get(s: Punctuated<Expr>, n: nat, k: int)
    requires n <= s@.len(), 0 <= k < n, supp_args(s, n)
    ensures supp(s@[k])
    decreases n
{ if k < n - 1 { supp_args_get(s, (n - 1) as nat, k); } }
pub proof fn supp_args_all(s: Punctuated<Expr>, n: nat)
    requires n <= s@.len(), supp_args(s, n)
    ensures forall|k: int| 0 <= k < n ==> supp(#[trigger] s@[k])
{ assert forall|k: int| 0 <= k < n implies supp(#[trigger] s@[k]) by { supp_args_get(s, n, k); } }
/// The same tree (spans and attributes aside).
pub open spec fn same_args(s: Punctuated<Expr>, t: Punctuated<Expr>, n: nat) -> bool
    decreases s, n when n <= s@.len() via ma_dec
{ s@.len() == t@.len() && (n == 0 || (same_args(s, t, (n - 1) as nat) && same(s@[n - 1], t@[n - 1]))) }
pub open spec fn same(a: Expr, b: Expr) -> bool
    decreases a, 0nat via m_dec
{
    match (a, b) {
        (Expr::Unary(u), Expr::Unary(v)) => op_same(u.op, v.op) && same(*u.expr, *v.expr),
        (Expr::Binary(u), Expr::Binary(v)) => op_kind(u.op) == op_kind(v.op) && same(*u.left, *v.left) && same(*u.right, *v.right),
        (Expr::Paren(u), Expr::Paren(v)) => same(*u.expr, *v.expr),
        (Expr::Lit(u), Expr::Lit(v)) => u.lit == v.lit,
        (Expr::Path(u), Expr::Path(v)) => u.path == v.path && u.qself == v.qself,
        (Expr::Field(u), Expr::Field(v)) => u.member == v.member && same(*u.base, *v.base),
        (Expr::MethodCall(u), Expr::MethodCall(v)) => u.method == v.method && u.turbofish == v.turbofish && same(*u.receiver, *v.receiver) && same_args(u.args, v.args, u.args@.len()),
        _ => false,
    }
}
pub open spec fn op_same(a: UnOp, b: UnOp) -> bool { (a is Neg == b is Neg) && (a is Not == b is Not) && (a is Deref == b is Deref) }
#[via_fn] proof fn m_dec(a: Expr, b: Expr) { broadcast use punct_dec; }
#[via_fn] proof fn ma_dec(s: Punctuated<Expr>, t: Punctuated<Expr>, n: nat) { broadcast use punct_dec; }
pub proof fn same_args_lift(s: Punctuated<Expr>, t: Punctuated<Expr>, n: nat)
    requires n <= s@.len(), s@.len() == t@.len(), forall|k: int| 0 <= k < n ==> same(#[trigger] s@[k], t@[k])
    ensures same_args(s, t, n)
    decreases n
{ if n > 0 { same_args_lift(s, t, (n - 1) as nat); } }
