/// No qualified paths (<T as U>::x).
pub open spec fn plain_args(s: Punctuated<Expr>, n: nat) -> bool
    decreases s, n when n <= s@.len() via pa_dec
{ n == 0 || (plain_args(s, (n - 1) as nat) && plain(s@[n - 1])) }
pub open spec fn plain(e: Expr) -> bool
    decreases e, 0nat via p_dec
{
    match e {
        Expr::Unary(u) => plain(*u.expr),
        Expr::Binary(b) => plain(*b.left) && plain(*b.right),
        Expr::Paren(p) => plain(*p.expr),
        Expr::Path(p) => p.qself is None,
        Expr::Field(f) => plain(*f.base),
        Expr::MethodCall(m) => plain(*m.receiver) && plain_args(m.args, m.args@.len()),
        _ => true,
    }
}
#[via_fn] proof fn p_dec(e: Expr) { broadcast use punct_dec; }
#[via_fn] proof fn pa_dec(s: Punctuated<Expr>, n: nat) { broadcast use punct_dec; }
