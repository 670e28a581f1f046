#@fn transformation/tools.rs make_paren
##spec
    ensures r matches Expr::Paren(p) && *p.expr == expr
#@fn transformation/tools.rs make_binary
##spec
    ensures r matches Expr::Binary(b) && *b.left == left && b.op == op && *b.right == right
#@fn transformation/tools.rs make_unary
##spec
    ensures r matches Expr::Unary(u) && u.op == op && *u.expr == expr
#@fn transformation/tools.rs is_negated
##spec
    ensures r == (*expr matches Expr::Unary(u) && u.op is Neg)
#@fn transformation/tools.rs is_op
##spec
    ensures r == (*expr is Unary || *expr is Binary)
#@fn transformation/tools.rs is_paren
##spec
    ensures r == (*expr is Paren)
