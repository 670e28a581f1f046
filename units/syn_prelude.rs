// ---- shadow of the parts of syn 1.0 / proc-macro2 that the code uses ---------------------
// Data types mirror syn's; operations on them carry the contracts stated here (trusted base).
pub type StdResult<T, E> = core::result::Result<T, E>;

#[derive(Clone, Copy)]
#[verifier::external_body]
pub struct Span { x: u8 }
impl Span {
    #[verifier::external_body]
    pub fn call_site() -> Span { unimplemented!() }
}
#[verifier::external_body]
pub struct Attribute { x: u8 }
#[verifier::external_body]
pub struct Opaque { x: u8 }
#[verifier::external_body]
pub struct Ident { x: u8 }
#[verifier::external_body]
pub struct Turbofish { x: u8 }
#[verifier::external_body]
pub struct Member { x: u8 }
#[verifier::external_body]
pub struct QSelf { x: u8 }
#[verifier::external_body]
pub struct Path { x: u8 }
#[verifier::external_body]
pub struct LitInt { x: u8 }
#[verifier::external_body]
pub struct LitFloat { x: u8 }
#[verifier::external_body]
pub struct LitStr { x: u8 }
#[verifier::external_body]
pub struct LitByteStr { x: u8 }
#[verifier::external_body]
pub struct LitByte { x: u8 }
#[verifier::external_body]
pub struct LitChar { x: u8 }
pub struct LitBool { pub value: bool, pub span: Span }
#[verifier::external_body]
pub struct Literal { x: u8 }

/// Token types; the real ones are unit-like structs that can be built from a span.
pub mod token {
    use vstd::prelude::*;
    use super::Span;
    verus! {
    #[derive(Clone, Copy)] pub struct Add(pub Span);
    #[derive(Clone, Copy)] pub struct Sub(pub Span);
    #[derive(Clone, Copy)] pub struct Star(pub Span);
    #[derive(Clone, Copy)] pub struct Div(pub Span);
    #[derive(Clone, Copy)] pub struct Rem(pub Span);
    #[derive(Clone, Copy)] pub struct Bang(pub Span);
    #[derive(Clone, Copy)] pub struct Dot(pub Span);
    #[derive(Clone, Copy)] pub struct Comma(pub Span);
    #[derive(Clone, Copy)] pub struct Paren(pub Span);
    #[derive(Clone, Copy)] pub struct Other(pub Span);
    }
}
pub mod syn { pub use super::*; pub use super::token; }

#[derive(Clone, Copy)]
pub enum BinOp {
    Add(token::Add), Sub(token::Sub), Mul(token::Star), Div(token::Div), Rem(token::Rem),
    And(token::Other), Or(token::Other), BitXor(token::Other), BitAnd(token::Other), BitOr(token::Other),
    Shl(token::Other), Shr(token::Other), Eq(token::Other), Lt(token::Other), Le(token::Other),
    Ne(token::Other), Ge(token::Other), Gt(token::Other),
    AddEq(token::Other), SubEq(token::Other), MulEq(token::Other), DivEq(token::Other), RemEq(token::Other),
    BitXorEq(token::Other), BitAndEq(token::Other), BitOrEq(token::Other), ShlEq(token::Other), ShrEq(token::Other),
}
#[derive(Clone, Copy)]
pub enum UnOp { Deref(token::Star), Not(token::Bang), Neg(token::Sub) }

pub enum Lit {
    Str(LitStr), ByteStr(LitByteStr), Byte(LitByte), Char(LitChar), Int(LitInt), Float(LitFloat), Bool(LitBool), Verbatim(Literal),
}
pub struct ExprLit { pub attrs: Vec<Attribute>, pub lit: Lit }
pub struct ExprPath { pub attrs: Vec<Attribute>, pub qself: Option<QSelf>, pub path: Path }
pub struct ExprUnary { pub attrs: Vec<Attribute>, pub op: UnOp, pub expr: Box<Expr> }
pub struct ExprBinary { pub attrs: Vec<Attribute>, pub left: Box<Expr>, pub op: BinOp, pub right: Box<Expr> }
pub struct ExprParen { pub attrs: Vec<Attribute>, pub paren_token: token::Paren, pub expr: Box<Expr> }
pub struct ExprField { pub attrs: Vec<Attribute>, pub base: Box<Expr>, pub dot_token: token::Dot, pub member: Member }
pub struct ExprMethodCall {
    pub attrs: Vec<Attribute>, pub receiver: Box<Expr>, pub dot_token: token::Dot, pub method: Ident,
    pub turbofish: Option<Turbofish>, pub paren_token: token::Paren, pub args: Punctuated<Expr>,
}
pub struct ExprCall { pub attrs: Vec<Attribute>, pub func: Box<Expr>, pub paren_token: token::Paren, pub args: Punctuated<Expr> }
pub enum Expr {
    Array(Opaque), Assign(Opaque), AssignOp(Opaque), Async(Opaque), Await(Opaque),
    Binary(ExprBinary),
    Block(Opaque), Box(Opaque), Break(Opaque),
    Call(ExprCall),
    Cast(Opaque), Closure(Opaque), Continue(Opaque),
    Field(ExprField),
    ForLoop(Opaque), Group(Opaque), If(Opaque), Index(Opaque), Let(Opaque),
    Lit(ExprLit),
    Loop(Opaque), Macro(Opaque), Match(Opaque),
    MethodCall(ExprMethodCall),
    Paren(ExprParen),
    Path(ExprPath),
    Range(Opaque), Reference(Opaque), Repeat(Opaque), Return(Opaque), Struct(Opaque), Try(Opaque),
    TryBlock(Opaque), Tuple(Opaque), Type(Opaque),
    Unary(ExprUnary),
    Unsafe(Opaque), Verbatim(Opaque), While(Opaque), Yield(Opaque),
}

#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct Punctuated<T> { v: Vec<T> }
impl<T> View for Punctuated<T> { type V = Seq<T>; uninterp spec fn view(&self) -> Seq<T>; }
impl<T> Punctuated<T> {
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push(&mut self, t: T) ensures final(self)@ == old(self)@.push(t) { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
}
/// The elements of a Punctuated are structurally smaller than it.
pub broadcast axiom fn punct_dec<T>(p: Punctuated<T>, i: int)
    requires 0 <= i < p@.len()
    ensures decreases_to!(p => #[trigger] p@[i]);

/// Element access used by the index loops of rewrite W2.
pub trait VAt<T> { spec fn vseq(&self) -> Seq<T>; fn v_get(&self, i: usize) -> (r: &T) requires i < self.vseq().len() ensures *r == self.vseq()[i as int]; }
impl<T> VAt<T> for Punctuated<T> { open spec fn vseq(&self) -> Seq<T> { self@ } #[verifier::external_body] fn v_get(&self, i: usize) -> (r: &T) { unimplemented!() } }
impl<T> VAt<T> for Vec<T> { open spec fn vseq(&self) -> Seq<T> { self@ } fn v_get(&self, i: usize) -> (r: &T) { &self[i] } }
impl<T> VAt<T> for [T] { open spec fn vseq(&self) -> Seq<T> { self@ } fn v_get(&self, i: usize) -> (r: &T) { &self[i] } }
impl<T, S: VAt<T> + ?Sized> VAt<T> for &S { open spec fn vseq(&self) -> Seq<T> { (**self).vseq() } fn v_get(&self, i: usize) -> (r: &T) { (**self).v_get(i) } }
pub fn v_at<T, S: VAt<T> + ?Sized>(s: &S, i: usize) -> (r: &T)
    requires i < s.vseq().len() ensures *r == s.vseq()[i as int]
{ s.v_get(i) }

pub fn v_none<'a, T, S: VAt<T> + ?Sized>(s: &'a S) -> (r: Option<&'a T>) ensures r is None { None }
/// Slices of W5.
#[verifier::external_body]
pub fn v_slice<T>(s: &[T], lo: usize, hi: usize) -> (r: &[T])
    requires lo <= hi <= s@.len() ensures r@ == s@.subrange(lo as int, hi as int)
{ &s[lo..hi] }
#[verifier::external_body]
pub fn v_slice_from<T>(s: &[T], lo: usize) -> (r: &[T])
    requires lo <= s@.len() ensures r@ == s@.subrange(lo as int, s@.len() as int)
{ &s[lo..] }
/// panic! and friends: must be unreachable.
#[verifier::external_body]
pub fn v_panic() -> ! requires false { panic!() }
/// println! and friends where nothing may be written: must be unreachable.
#[verifier::external_body]
pub fn v_print() requires false { }

// conversions ------------------------------------------------------------------------------
macro_rules! v_from {
    ($t: ident, $v: ident) => {
        verus! {
        impl vstd::std_specs::convert::FromSpecImpl<$t> for Expr { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: $t) -> Self { Expr::$v(v) } }
        impl From<$t> for Expr { fn from(e: $t) -> (r: Expr) { Expr::$v(e) } }
        }
    }
}
v_from!(ExprLit, Lit);
v_from!(ExprPath, Path);
v_from!(ExprUnary, Unary);
v_from!(ExprBinary, Binary);
v_from!(ExprParen, Paren);
v_from!(ExprField, Field);
v_from!(ExprMethodCall, MethodCall);
v_from!(ExprCall, Call);
// clones give equal values
macro_rules! v_clone { ($($t: ident),*) => { verus! { $( impl Clone for $t { #[verifier::external_body] fn clone(&self) -> (r: Self) ensures r == *self { unimplemented!() } } )* } } }
v_clone!(Expr, ExprLit, ExprPath, ExprUnary, ExprBinary, ExprParen, ExprField, ExprMethodCall, ExprCall, Lit, Path, Ident, Turbofish, Member, QSelf, Attribute, LitInt, LitFloat);
// Spanned
macro_rules! v_span { ($($t: ident),*) => { verus! { $( impl $t { #[verifier::external_body] pub fn span(&self) -> Span { unimplemented!() } } )* } } }
v_span!(Expr, ExprLit, ExprPath, ExprUnary, ExprBinary, ExprParen, ExprField, ExprMethodCall, ExprCall, Lit, Path, LitInt, LitFloat);
