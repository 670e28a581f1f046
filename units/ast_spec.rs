// ---- meaning of expressions ---------------------------------------------------------------
pub uninterp spec fn path_key(p: Path) -> int;
pub uninterp spec fn qself_val(q: QSelf, key: int) -> real;
pub uninterp spec fn lit_val(l: Lit) -> real;
/// Does the text of a number literal start with a minus sign?
pub uninterp spec fn int_neg(l: LitInt) -> bool;
pub uninterp spec fn float_neg(l: LitFloat) -> bool;
pub open spec fn lit_neg(l: Lit) -> bool { match l { Lit::Int(i) => int_neg(i), Lit::Float(f) => float_neg(f), _ => false } }
#[verifier::external_body]
pub struct Digits { x: u8 }
impl Digits {
    pub uninterp spec fn first(&self) -> char;
    #[verifier::external_body] pub fn starts_with(&self, c: char) -> (r: bool) ensures r == (self.first() == c) { unimplemented!() }
}
impl LitInt { #[verifier::external_body] pub fn base10_digits(&self) -> (r: &Digits) ensures int_neg(*self) == (r.first() == '-') { unimplemented!() } }
impl LitFloat { #[verifier::external_body] pub fn base10_digits(&self) -> (r: &Digits) ensures float_neg(*self) == (r.first() == '-') { unimplemented!() } }
pub uninterp spec fn field_val(m: Member, b: real) -> real;
pub uninterp spec fn method_val(m: Ident, t: Option<Turbofish>, recv: real, args: Seq<real>) -> real;
pub uninterp spec fn call_val(f: Expr, args: Seq<real>) -> real;
pub uninterp spec fn other_val(e: Expr) -> real;
pub uninterp spec fn not_val(a: real) -> real;
pub uninterp spec fn deref_val(a: real) -> real;
pub uninterp spec fn bin_val(k: int, a: real, b: real) -> real;

pub open spec fn op_kind(op: BinOp) -> int {
    match op {
        BinOp::Add(_) => 0, BinOp::Sub(_) => 1, BinOp::Mul(_) => 2, BinOp::Div(_) => 3, BinOp::Rem(_) => 4,
        BinOp::And(_) => 5, BinOp::Or(_) => 6, BinOp::BitXor(_) => 7, BinOp::BitAnd(_) => 8, BinOp::BitOr(_) => 9,
        BinOp::Shl(_) => 10, BinOp::Shr(_) => 11, BinOp::Eq(_) => 12, BinOp::Lt(_) => 13, BinOp::Le(_) => 14,
        BinOp::Ne(_) => 15, BinOp::Ge(_) => 16, BinOp::Gt(_) => 17,
        BinOp::AddEq(_) => 18, BinOp::SubEq(_) => 19, BinOp::MulEq(_) => 20, BinOp::DivEq(_) => 21, BinOp::RemEq(_) => 22,
        BinOp::BitXorEq(_) => 23, BinOp::BitAndEq(_) => 24, BinOp::BitOrEq(_) => 25, BinOp::ShlEq(_) => 26, BinOp::ShrEq(_) => 27,
    }
}
pub open spec fn bin(op: BinOp, a: real, b: real) -> real {
    match op {
        BinOp::Add(_) => a + b,
        BinOp::Sub(_) => a - b,
        BinOp::Mul(_) => a * b,
        _ => bin_val(op_kind(op), a, b),
    }
}
pub type Env = spec_fn(int) -> real;

pub open spec fn vals(env: Env, s: Punctuated<Expr>, n: nat) -> Seq<real>
    decreases s, n when n <= s@.len() via vals_dec
{
    if n == 0 { Seq::empty() } else { vals(env, s, (n - 1) as nat).push(val(env, s@[n - 1])) }
}
pub open spec fn val(env: Env, e: Expr) -> real
    decreases e, 0nat via val_dec
{
    match e {
        Expr::Unary(u) => match u.op {
            UnOp::Neg(_) => -val(env, *u.expr),
            UnOp::Not(_) => not_val(val(env, *u.expr)),
            UnOp::Deref(_) => deref_val(val(env, *u.expr)),
        },
        Expr::Binary(b) => bin(b.op, val(env, *b.left), val(env, *b.right)),
        Expr::Paren(p) => val(env, *p.expr),
        Expr::Lit(l) => lit_val(l.lit),
        Expr::Path(p) => match p.qself { None => env(path_key(p.path)), Some(q) => qself_val(q, path_key(p.path)) },
        Expr::Field(f) => field_val(f.member, val(env, *f.base)),
        Expr::MethodCall(m) => method_val(m.method, m.turbofish, val(env, *m.receiver), vals(env, m.args, m.args@.len())),
        _ => other_val(e),
    }
}
#[via_fn] proof fn val_dec(env: Env, e: Expr) { broadcast use punct_dec; }
#[via_fn] proof fn vals_dec(env: Env, s: Punctuated<Expr>, n: nat) { broadcast use punct_dec; }
// One unfolding step, stated so that the values of the parts become available to the solver.
pub broadcast proof fn val_binary(env: Env, b: ExprBinary)
    ensures #[trigger] val(env, Expr::Binary(b)) == bin(b.op, val(env, *b.left), val(env, *b.right)) { }
pub broadcast proof fn val_unary(env: Env, b: ExprUnary)
    ensures #[trigger] val(env, Expr::Unary(b)) == (match b.op { UnOp::Neg(_) => -val(env, *b.expr), UnOp::Not(_) => not_val(val(env, *b.expr)), UnOp::Deref(_) => deref_val(val(env, *b.expr)) }) { }
pub broadcast proof fn val_paren(env: Env, b: ExprParen)
    ensures #[trigger] val(env, Expr::Paren(b)) == val(env, *b.expr) { }
pub broadcast proof fn val_field(env: Env, b: ExprField)
    ensures #[trigger] val(env, Expr::Field(b)) == field_val(b.member, val(env, *b.base)) { }
pub broadcast proof fn val_method(env: Env, m: ExprMethodCall)
    ensures #[trigger] val(env, Expr::MethodCall(m)) == method_val(m.method, m.turbofish, val(env, *m.receiver), vals(env, m.args, m.args@.len())) { }
pub broadcast group val_steps { val_binary, val_unary, val_paren, val_field, val_method }
