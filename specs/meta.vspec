//@include prelude.vspec
//@path Rc VRc
//@path Rc::clone v_rc_clone
// ---- shared values: a pointer is the place it points to
/// a value of a type known only at run time
#[verifier::external_body]
pub struct VAny { v: u64 }
#[verifier::external_body]
#[verifier::accept_recursive_types(T)]
pub struct VRc<T> { v: std::marker::PhantomData<T> }
pub uninterp spec fn rc_place<T>(r: VRc<T>) -> int;
/// the type of the value is T (std::any::Any::is)
pub uninterp spec fn any_is<T>(r: VRc<VAny>) -> bool;
#[verifier::external_body]
pub fn v_rc_clone<T>(x: &VRc<T>) -> (r: VRc<T>) ensures r == *x { unimplemented!() }
impl VRc<VAny> {
    #[verifier::external_body]
    pub fn v_downcast<T>(self) -> (r: Result<VRc<T>, VRc<VAny>>) ensures r is Ok <==> any_is::<T>(self), r is Ok ==> rc_place(r->Ok_0) == rc_place(self) { unimplemented!() }
}
impl<V> HashMap<String, V> {
    #[verifier::external_body]
    pub fn get(&self, k: &str) -> (r: Option<&V>) ensures match r { Some(x) => self@.contains_key(string_of(k@)) && *x == self@[string_of(k@)], None => !self@.contains_key(string_of(k@)) } { unimplemented!() }
    #[verifier::external_body]
    pub fn contains_key(&self, k: &str) -> (r: bool) ensures r == self@.contains_key(string_of(k@)) { unimplemented!() }
}
//@ty hooq-helpers/src/lib.rs HooqMeta BindingPayload
//@fn hooq-helpers/src/lib.rs HooqMeta::get_binding owners=C18
    ensures ({ let k = string_of(key@); match r {
        Some(x) => self.bindings@.contains_key(k) && any_is::<T>(self.bindings@[k].value) && rc_place(x) == rc_place(self.bindings@[k].value),
        None => !self.bindings@.contains_key(k) || !any_is::<T>(self.bindings@[k].value) } })
//@end
