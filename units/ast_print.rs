// ---- when the printed text of a tree means the tree ------------------------------------------
// lvl is the precedence level of the outermost construct; faithful(e) says that every operand is
// printed at a level that keeps it an operand when the text is parsed again.  The one relaxation is
// a chain of multiplications, whose regrouping leaves the value unchanged.
pub open spec fn prec(op: BinOp) -> int {
    match op {
        BinOp::Mul(_) | BinOp::Div(_) | BinOp::Rem(_) => 11,
        BinOp::Add(_) | BinOp::Sub(_) => 10,
        BinOp::Shl(_) | BinOp::Shr(_) => 9,
        BinOp::BitAnd(_) => 8,
        BinOp::BitXor(_) => 7,
        BinOp::BitOr(_) => 6,
        BinOp::Eq(_) | BinOp::Lt(_) | BinOp::Le(_) | BinOp::Ne(_) | BinOp::Ge(_) | BinOp::Gt(_) => 5,
        BinOp::And(_) => 4,
        BinOp::Or(_) => 3,
        _ => 1,
    }
}
pub open spec fn lvl(e: Expr) -> int {
    match e {
        Expr::Binary(b) => prec(b.op),
        Expr::Unary(_) => 12,
        Expr::Lit(l) => if lit_neg(l.lit) { 12 } else { 14 },
        Expr::Path(_) | Expr::Paren(_) | Expr::MethodCall(_) | Expr::Field(_) => 14,
        _ => 0,
    }
}
pub open spec fn mulchain(e: Expr) -> bool decreases e {
    match e {
        Expr::Binary(b) => b.op is Mul && (lvl(*b.left) >= 12 || mulchain(*b.left)) && (lvl(*b.right) >= 12 || mulchain(*b.right)),
        _ => false,
    }
}
pub open spec fn left_ok(op: BinOp, l: Expr) -> bool { lvl(l) >= prec(op) && (prec(op) == 5 ==> lvl(l) > 5) }
pub open spec fn right_ok(op: BinOp, r: Expr) -> bool { lvl(r) > prec(op) || (op is Mul && mulchain(r)) }
pub open spec fn faithful_args(s: Punctuated<Expr>, n: nat) -> bool
    decreases s, n when n <= s@.len() via fa_dec
{
    n == 0 || (faithful_args(s, (n - 1) as nat) && faithful(s@[n - 1]))
}
pub open spec fn faithful(e: Expr) -> bool
    decreases e, 0nat via f_dec
{
    match e {
        Expr::Unary(u) => faithful(*u.expr) && lvl(*u.expr) >= 12,
        Expr::Binary(b) => prec(b.op) > 1 && faithful(*b.left) && faithful(*b.right) && left_ok(b.op, *b.left) && right_ok(b.op, *b.right),
        Expr::Paren(p) => faithful(*p.expr),
        Expr::Lit(_) | Expr::Path(_) => true,
        Expr::Field(f) => faithful(*f.base) && lvl(*f.base) >= 14,
        Expr::MethodCall(m) => faithful(*m.receiver) && lvl(*m.receiver) >= 14 && faithful_args(m.args, m.args@.len()),
        _ => false,
    }
}
#[via_fn] proof fn f_dec(e: Expr) { broadcast use punct_dec; }
#[via_fn] proof fn fa_dec(s: Punctuated<Expr>, n: nat) { broadcast use punct_dec; }
