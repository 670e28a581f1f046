#@fn transformation/paren.rs parenthesise_op
##spec
    ensures
        forall|env: Env| #[trigger] val(env, r) == val(env, $0$),
        ($0$ is Binary || $0$ is Unary) ==> r is Paren,
        faithful($0$) ==> faithful(r) && lvl(r) == 14,
        r == $0$ || (r matches Expr::Paren(p) && *p.expr == $0$)
##begin
    broadcast use val_steps;
