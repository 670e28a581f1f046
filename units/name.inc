#@struct name.rs Name
#@verbatim
v_clone!(Name);
pub open spec fn key(n: Name) -> int { path_key(n.inner) }
// derived comparison of names: equal paths
impl vstd::std_specs::cmp::PartialEqSpecImpl for Name {
    open spec fn obeys_eq_spec() -> bool { true }
    open spec fn eq_spec(&self, other: &Self) -> bool { key(*self) == key(*other) }
}
impl PartialEq for Name { #[verifier::external_body] fn eq(&self, other: &Self) -> (r: bool) { unimplemented!() } }
impl vstd::std_specs::convert::FromSpecImpl<Path> for Name { open spec fn obeys_from_spec() -> bool { true } open spec fn from_spec(v: Path) -> Self { Name { inner: v } } }
#@method name.rs Name from From<syn::Path>
##attr
/*trait_impl*/
