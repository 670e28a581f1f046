#@verbatim
impl $IMPL$ {
    pub open spec fn res(&self, e: Expr, r: Result<Expr>) -> bool { match r { Ok(x) => self.post(e, x) && self.accepts(e), Err(_) => !self.accepts(e) } }
}
#@visitor $TY$ $FILE$ visitor.rs Visitor
##visit_expr.spec
    ensures self.res(*$0$, r)
    decreases *$0$, 1nat
##visit_expr.begin
    broadcast use $STEPS$;
##visit_expr_core.spec
    ensures self.$CORE$(*$0$, r)
    decreases *$0$, 0nat
##visit_method_call.spec
    ensures self.$CORE$(Expr::MethodCall(*$0$), r)
    decreases *$0$, 0nat
##visit_method_call.attr
#[verifier::loop_isolation(false)]
##visit_method_call.begin
    broadcast use punct_dec, $STEPS$;
    let ghost args0 = $0$.args;
    let ghost recv0 = *$0$.receiver;
    proof { self.steps(Expr::MethodCall(*$0$)); }
##visit_method_call.loop 0
    invariant
        __i0 <= __n0, __n0 == args0@.len(), __s0@ == args0@, __s0 == args0,
        __v0@.len() == __i0,
        self.accepts(recv0),
        forall|k: int| 0 <= k < __i0 ==> self.post(#[trigger] args0@[k], __v0@[k]),
        forall|k: int| 0 <= k < __i0 ==> self.accepts(#[trigger] args0@[k]),
    decreases __n0 - __i0
##visit_method_call.loopafter 0
    proof { self.args_post(args0, __v0); }
##visit_lit.spec
    ensures self.$CORE$(Expr::Lit(*$0$), r)
    decreases *$0$, 0nat
##visit_lit.begin
    broadcast use $STEPS$;
    proof { self.steps(Expr::Lit(*$0$)); }
##visit_path.spec
    ensures self.$CORE$(Expr::Path(*$0$), r)
    decreases *$0$, 0nat
##visit_path.begin
    broadcast use $STEPS$;
    proof { self.steps(Expr::Path(*$0$)); }
##visit_field.spec
    ensures self.$CORE$(Expr::Field(*$0$), r)
    decreases *$0$, 0nat
##visit_field.begin
    broadcast use $STEPS$;
    proof { self.steps(Expr::Field(*$0$)); }
##visit_paren.spec
    ensures self.$CORE$(Expr::Paren(*$0$), r)
    decreases *$0$, 0nat
##visit_paren.begin
    broadcast use $STEPS$;
    proof { self.steps(Expr::Paren(*$0$)); }
##visit_binary.spec
    ensures self.$CORE$(Expr::Binary(*$0$), r)
    decreases *$0$, 0nat
##visit_binary.begin
    broadcast use $STEPS$;
    proof { self.steps(Expr::Binary(*$0$)); }
##visit_unary.spec
    ensures self.$CORE$(Expr::Unary(*$0$), r)
    decreases *$0$, 0nat
##visit_unary.begin
    broadcast use $STEPS$;
    proof { self.steps(Expr::Unary(*$0$)); }
