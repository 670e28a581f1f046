#@struct expression.rs Expression
#@verbatim
v_clone!(Expression);
impl vstd::std_specs::convert::FromSpecImpl<Expression> for Expr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Expression) -> Self { v.inner } }
impl vstd::std_specs::convert::FromSpecImpl<Expr> for Expression { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Expr) -> Self { Expression { inner: v } } }
#@method expression.rs Expr from From<Expression>
##attr
/*trait_impl*/
#@method expression.rs Expression from From<Expr>
##attr
/*trait_impl*/
