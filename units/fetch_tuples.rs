// generated: one block per tuple length
verus! {
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A,) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(Some(ISet::empty()), A::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A,) :: check_resources | id=tuple1::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A,) :: fetch | id=tuple1::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A,) :: fetch | name=vp_fetch_tries id=tuple1::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B) :: check_resources | id=tuple2::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B) :: fetch | id=tuple2::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B) :: fetch | name=vp_fetch_tries id=tuple2::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C) :: check_resources | id=tuple3::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C) :: fetch | id=tuple3::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C) :: fetch | name=vp_fetch_tries id=tuple3::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D) :: check_resources | id=tuple4::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D) :: fetch | id=tuple4::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D) :: fetch | name=vp_fetch_tries id=tuple4::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E) :: check_resources | id=tuple5::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E) :: fetch | id=tuple5::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E) :: fetch | name=vp_fetch_tries id=tuple5::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F) :: check_resources | id=tuple6::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F) :: fetch | id=tuple6::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F) :: fetch | name=vp_fetch_tries id=tuple6::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G) :: check_resources | id=tuple7::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G) :: fetch | id=tuple7::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G) :: fetch | name=vp_fetch_tries id=tuple7::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H) :: check_resources | id=tuple8::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H) :: fetch | id=tuple8::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H) :: fetch | name=vp_fetch_tries id=tuple8::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I) :: check_resources | id=tuple9::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I) :: fetch | id=tuple9::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I) :: fetch | name=vp_fetch_tries id=tuple9::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J) :: check_resources | id=tuple10::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J) :: fetch | id=tuple10::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J) :: fetch | name=vp_fetch_tries id=tuple10::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K) :: check_resources | id=tuple11::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K) :: fetch | id=tuple11::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K) :: fetch | name=vp_fetch_tries id=tuple11::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L) :: check_resources | id=tuple12::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L) :: fetch | id=tuple12::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L) :: fetch | name=vp_fetch_tries id=tuple12::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M) :: check_resources | id=tuple13::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M) :: fetch | id=tuple13::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M) :: fetch | name=vp_fetch_tries id=tuple13::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N) :: check_resources | id=tuple14::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N) :: fetch | id=tuple14::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N) :: fetch | name=vp_fetch_tries id=tuple14::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O) :: check_resources | id=tuple15::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O) :: fetch | id=tuple15::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O) :: fetch | name=vp_fetch_tries id=tuple15::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P) :: check_resources | id=tuple16::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P) :: fetch | id=tuple16::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P) :: fetch | name=vp_fetch_tries id=tuple16::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q) :: check_resources | id=tuple17::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q) :: fetch | id=tuple17::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q) :: fetch | name=vp_fetch_tries id=tuple17::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R) :: check_resources | id=tuple18::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R) :: fetch | id=tuple18::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R) :: fetch | name=vp_fetch_tries id=tuple18::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()), S::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()).union(self.18.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) + S::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S) :: check_resources | id=tuple19::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S) :: fetch | id=tuple19::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S) :: fetch | name=vp_fetch_tries id=tuple19::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()), S::res()), T::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()).union(self.18.held()).union(self.19.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) + S::tries(s, x) + T::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T) :: check_resources | id=tuple20::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T) :: fetch | id=tuple20::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T) :: fetch | name=vp_fetch_tries id=tuple20::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()), S::res()), T::res()), U::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()).union(self.18.held()).union(self.19.held()).union(self.20.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) + S::tries(s, x) + T::tries(s, x) + U::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U) :: check_resources | id=tuple21::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U) :: fetch | id=tuple21::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U) :: fetch | name=vp_fetch_tries id=tuple21::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()), S::res()), T::res()), U::res()), V::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()).union(self.18.held()).union(self.19.held()).union(self.20.held()).union(self.21.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) + S::tries(s, x) + T::tries(s, x) + U::tries(s, x) + V::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V) :: check_resources | id=tuple22::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V) :: fetch | id=tuple22::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V) :: fetch | name=vp_fetch_tries id=tuple22::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()), S::res()), T::res()), U::res()), V::res()), W::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()).union(self.18.held()).union(self.19.held()).union(self.20.held()).union(self.21.held()).union(self.22.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) + S::tries(s, x) + T::tries(s, x) + U::tries(s, x) + V::tries(s, x) + W::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W) :: check_resources | id=tuple23::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W) :: fetch | id=tuple23::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W) :: fetch | name=vp_fetch_tries id=tuple23::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()), S::res()), T::res()), U::res()), V::res()), W::res()), X::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()).union(self.18.held()).union(self.19.held()).union(self.20.held()).union(self.21.held()).union(self.22.held()).union(self.23.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) + S::tries(s, x) + T::tries(s, x) + U::tries(s, x) + V::tries(s, x) + W::tries(s, x) + X::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X) :: check_resources | id=tuple24::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X) :: fetch | id=tuple24::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X) :: fetch | name=vp_fetch_tries id=tuple24::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()), S::res()), T::res()), U::res()), V::res()), W::res()), X::res()), Y::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()).union(self.18.held()).union(self.19.held()).union(self.20.held()).union(self.21.held()).union(self.22.held()).union(self.23.held()).union(self.24.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) + S::tries(s, x) + T::tries(s, x) + U::tries(s, x) + V::tries(s, x) + W::tries(s, x) + X::tries(s, x) + Y::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y) :: check_resources | id=tuple25::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y) :: fetch | id=tuple25::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y) :: fetch | name=vp_fetch_tries id=tuple25::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
//@impl expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z) | map 'a , ST , RT , => 'a , ST : VpSource , ; map RT : Resources , => ; map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST > ; map RT => A :: Resources
    type Resources = A::Resources;
    open spec fn res() -> Option<ISet<ST::Use>> { vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(vp_add::<A::Resources>(Some(ISet::empty()), A::res()), B::res()), C::res()), D::res()), E::res()), F::res()), G::res()), H::res()), I::res()), J::res()), K::res()), L::res()), M::res()), N::res()), O::res()), P::res()), Q::res()), R::res()), S::res()), T::res()), U::res()), V::res()), W::res()), X::res()), Y::res()), Z::res()) }
    open spec fn held(&self) -> ISet<Hold> { ISet::empty().union(self.0.held()).union(self.1.held()).union(self.2.held()).union(self.3.held()).union(self.4.held()).union(self.5.held()).union(self.6.held()).union(self.7.held()).union(self.8.held()).union(self.9.held()).union(self.10.held()).union(self.11.held()).union(self.12.held()).union(self.13.held()).union(self.14.held()).union(self.15.held()).union(self.16.held()).union(self.17.held()).union(self.18.held()).union(self.19.held()).union(self.20.held()).union(self.21.held()).union(self.22.held()).union(self.23.held()).union(self.24.held()).union(self.25.held()) }
    open spec fn tries(s: ST, x: (Loc, bool)) -> nat { A::tries(s, x) + B::tries(s, x) + C::tries(s, x) + D::tries(s, x) + E::tries(s, x) + F::tries(s, x) + G::tries(s, x) + H::tries(s, x) + I::tries(s, x) + J::tries(s, x) + K::tries(s, x) + L::tries(s, x) + M::tries(s, x) + N::tries(s, x) + O::tries(s, x) + P::tries(s, x) + Q::tries(s, x) + R::tries(s, x) + S::tries(s, x) + T::tries(s, x) + U::tries(s, x) + V::tries(s, x) + W::tries(s, x) + X::tries(s, x) + Y::tries(s, x) + Z::tries(s, x) }
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z) :: check_resources | id=tuple26::check_resources props=F01
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z) :: fetch | id=tuple26::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
//@fn expanded:fetch_resources | FetchResources<'a, ST> for (A, B, C, D, E, F, G, H, I, J, K, L, M, N, O, P, Q, R, S, T, U, V, W, X, Y, Z) :: fetch | name=vp_fetch_tries id=tuple26::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >
//@ret r
//@end
}
} // verus!
