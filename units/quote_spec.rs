// ---- quote!/parse_quote!: the tree that the interpolated text parses to -------------------------
// Interpolated expressions whose text means them (faithful) become operands in place.
pub trait ToExpr { spec fn e(&self) -> Expr; fn to_expr(&self) -> (r: Expr) requires faithful(self.e()), ensures r == self.e(); }
impl ToExpr for Expr { open spec fn e(&self) -> Expr { *self } #[verifier::external_body] fn to_expr(&self) -> (r: Expr) { unimplemented!() } }
impl<T: ToExpr> ToExpr for &T { open spec fn e(&self) -> Expr { (**self).e() } fn to_expr(&self) -> (r: Expr) { (**self).to_expr() } }
#[verifier::external_body]
pub fn q_paren(x: Expr) -> (r: Expr) requires faithful(x) ensures faithful(r), r is Paren, forall|env: Env| #[trigger] val(env, *r->Paren_0.expr) == val(env, x) { unimplemented!() }
#[verifier::external_body]
pub fn q_binary(l: Expr, op: BinOp, x: Expr) -> (r: Expr)
    requires faithful(l), faithful(x), left_ok(op, l), right_ok(op, x), prec(op) > 1
    ensures r matches Expr::Binary(b) && b.op == op && *b.left == l && *b.right == x && faithful(r) { unimplemented!() }
pub fn q_add() -> (r: BinOp) ensures r is Add { BinOp::Add(token::Add(Span::call_site())) }
pub fn q_sub() -> (r: BinOp) ensures r is Sub { BinOp::Sub(token::Sub(Span::call_site())) }
pub fn q_mul() -> (r: BinOp) ensures r is Mul { BinOp::Mul(token::Star(Span::call_site())) }
pub fn q_div() -> (r: BinOp) ensures r is Div { BinOp::Div(token::Div(Span::call_site())) }
