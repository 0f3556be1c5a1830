verus! {
// ---------------------------------------------------------------- tuples of 1 to 26 (written by tools/gen_join.py)
//@impl expanded:join | Join for JoinTuple<(A,)> | map , ( < A as Join > :: Mask , ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) }
//@fn expanded:join | Join for JoinTuple<(A,)> :: open | id=JoinTuple1::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,)> :: get | id=JoinTuple1::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,)
//@assoc expanded:join | BitAnd for (A,) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) }
//@fn expanded:join | BitAnd for (A,) :: and | id=BitAnd1::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,)
//@assoc expanded:join | IntoJoin for (A,) | Item
//@assoc expanded:join | IntoJoin for (A,) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) }
//@fn expanded:join | IntoJoin for (A,) :: into_join | id=IntoJoin1::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) }
//@fn expanded:join | Join for JoinTuple<(A,B)> :: open | id=JoinTuple2::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B)> :: get | id=JoinTuple2::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B)
//@assoc expanded:join | BitAnd for (A,B) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) }
//@fn expanded:join | BitAnd for (A,B) :: and | id=BitAnd2::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B)
//@assoc expanded:join | IntoJoin for (A,B) | Item
//@assoc expanded:join | IntoJoin for (A,B) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) }
//@fn expanded:join | IntoJoin for (A,B) :: into_join | id=IntoJoin2::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) }
//@fn expanded:join | Join for JoinTuple<(A,B,C)> :: open | id=JoinTuple3::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C)> :: get | id=JoinTuple3::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C)
//@assoc expanded:join | BitAnd for (A,B,C) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) }
//@fn expanded:join | BitAnd for (A,B,C) :: and | id=BitAnd3::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C)
//@assoc expanded:join | IntoJoin for (A,B,C) | Item
//@assoc expanded:join | IntoJoin for (A,B,C) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) }
//@fn expanded:join | IntoJoin for (A,B,C) :: into_join | id=IntoJoin3::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D)> :: open | id=JoinTuple4::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D)> :: get | id=JoinTuple4::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D)
//@assoc expanded:join | BitAnd for (A,B,C,D) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D) :: and | id=BitAnd4::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D)
//@assoc expanded:join | IntoJoin for (A,B,C,D) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) }
//@fn expanded:join | IntoJoin for (A,B,C,D) :: into_join | id=IntoJoin4::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E)> :: open | id=JoinTuple5::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E)> :: get | id=JoinTuple5::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E)
//@assoc expanded:join | BitAnd for (A,B,C,D,E) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E) :: and | id=BitAnd5::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E) :: into_join | id=IntoJoin5::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F)> :: open | id=JoinTuple6::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F)> :: get | id=JoinTuple6::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F) :: and | id=BitAnd6::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F) :: into_join | id=IntoJoin6::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G)> :: open | id=JoinTuple7::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G)> :: get | id=JoinTuple7::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G) :: and | id=BitAnd7::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G) :: into_join | id=IntoJoin7::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H)> :: open | id=JoinTuple8::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H)> :: get | id=JoinTuple8::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H) :: and | id=BitAnd8::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H) :: into_join | id=IntoJoin8::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I)> :: open | id=JoinTuple9::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I)> :: get | id=JoinTuple9::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I) :: and | id=BitAnd9::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I) :: into_join | id=IntoJoin9::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J)> :: open | id=JoinTuple10::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J)> :: get | id=JoinTuple10::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J) :: and | id=BitAnd10::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J) :: into_join | id=IntoJoin10::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K)> :: open | id=JoinTuple11::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K)> :: get | id=JoinTuple11::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K) :: and | id=BitAnd11::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K) :: into_join | id=IntoJoin11::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L)> :: open | id=JoinTuple12::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L)> :: get | id=JoinTuple12::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L) :: and | id=BitAnd12::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L) :: into_join | id=IntoJoin12::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M)> :: open | id=JoinTuple13::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M)> :: get | id=JoinTuple13::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M) :: and | id=BitAnd13::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M) :: into_join | id=IntoJoin13::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N)> :: open | id=JoinTuple14::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N)> :: get | id=JoinTuple14::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N) :: and | id=BitAnd14::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N) :: into_join | id=IntoJoin14::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)> :: open | id=JoinTuple15::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)> :: get | id=JoinTuple15::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O) :: and | id=BitAnd15::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O) :: into_join | id=IntoJoin15::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)> :: open | id=JoinTuple16::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)> :: get | id=JoinTuple16::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P) :: and | id=BitAnd16::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P) :: into_join | id=IntoJoin16::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)> :: open | id=JoinTuple17::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)> :: get | id=JoinTuple17::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q) :: and | id=BitAnd17::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q) :: into_join | id=IntoJoin17::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)> :: open | id=JoinTuple18::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)> :: get | id=JoinTuple18::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R) :: and | id=BitAnd18::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R) :: into_join | id=IntoJoin18::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask , < S as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) && self.0.18.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() && self.0.18.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) && self.0.18.jval(i, x.18) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) && S::valid(a.18, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) && S::item(a.18, i, x.18) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)> :: open | id=JoinTuple19::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)> :: get | id=JoinTuple19::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) && self.18.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S) :: and | id=BitAnd19::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) && self.18.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() && self.18.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) && self.18.ival(i, x.18) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S) :: into_join | id=IntoJoin19::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask , < S as Join > :: Mask , < T as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) && self.0.18.jhas(i) && self.0.19.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() && self.0.18.jok() && self.0.19.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) && self.0.18.jval(i, x.18) && self.0.19.jval(i, x.19) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) && S::valid(a.18, i) && T::valid(a.19, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) && S::item(a.18, i, x.18) && T::item(a.19, i, x.19) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)> :: open | id=JoinTuple20::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)> :: get | id=JoinTuple20::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) && self.18.has(i) && self.19.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T) :: and | id=BitAnd20::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) && self.18.ihas(i) && self.19.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() && self.18.iok() && self.19.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) && self.18.ival(i, x.18) && self.19.ival(i, x.19) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T) :: into_join | id=IntoJoin20::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask , < S as Join > :: Mask , < T as Join > :: Mask , < U as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) && self.0.18.jhas(i) && self.0.19.jhas(i) && self.0.20.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() && self.0.18.jok() && self.0.19.jok() && self.0.20.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) && self.0.18.jval(i, x.18) && self.0.19.jval(i, x.19) && self.0.20.jval(i, x.20) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) && S::valid(a.18, i) && T::valid(a.19, i) && U::valid(a.20, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) && S::item(a.18, i, x.18) && T::item(a.19, i, x.19) && U::item(a.20, i, x.20) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U)> :: open | id=JoinTuple21::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U)> :: get | id=JoinTuple21::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) && self.18.has(i) && self.19.has(i) && self.20.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U) :: and | id=BitAnd21::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) && self.18.ihas(i) && self.19.ihas(i) && self.20.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() && self.18.iok() && self.19.iok() && self.20.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) && self.18.ival(i, x.18) && self.19.ival(i, x.19) && self.20.ival(i, x.20) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U) :: into_join | id=IntoJoin21::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask , < S as Join > :: Mask , < T as Join > :: Mask , < U as Join > :: Mask , < V as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) && self.0.18.jhas(i) && self.0.19.jhas(i) && self.0.20.jhas(i) && self.0.21.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() && self.0.18.jok() && self.0.19.jok() && self.0.20.jok() && self.0.21.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) && self.0.18.jval(i, x.18) && self.0.19.jval(i, x.19) && self.0.20.jval(i, x.20) && self.0.21.jval(i, x.21) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) && S::valid(a.18, i) && T::valid(a.19, i) && U::valid(a.20, i) && V::valid(a.21, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) && S::item(a.18, i, x.18) && T::item(a.19, i, x.19) && U::item(a.20, i, x.20) && V::item(a.21, i, x.21) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V)> :: open | id=JoinTuple22::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V)> :: get | id=JoinTuple22::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) && self.18.has(i) && self.19.has(i) && self.20.has(i) && self.21.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V) :: and | id=BitAnd22::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) && self.18.ihas(i) && self.19.ihas(i) && self.20.ihas(i) && self.21.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() && self.18.iok() && self.19.iok() && self.20.iok() && self.21.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) && self.18.ival(i, x.18) && self.19.ival(i, x.19) && self.20.ival(i, x.20) && self.21.ival(i, x.21) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V) :: into_join | id=IntoJoin22::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask , < S as Join > :: Mask , < T as Join > :: Mask , < U as Join > :: Mask , < V as Join > :: Mask , < W as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) && self.0.18.jhas(i) && self.0.19.jhas(i) && self.0.20.jhas(i) && self.0.21.jhas(i) && self.0.22.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() && self.0.18.jok() && self.0.19.jok() && self.0.20.jok() && self.0.21.jok() && self.0.22.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) && self.0.18.jval(i, x.18) && self.0.19.jval(i, x.19) && self.0.20.jval(i, x.20) && self.0.21.jval(i, x.21) && self.0.22.jval(i, x.22) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) && S::valid(a.18, i) && T::valid(a.19, i) && U::valid(a.20, i) && V::valid(a.21, i) && W::valid(a.22, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) && S::item(a.18, i, x.18) && T::item(a.19, i, x.19) && U::item(a.20, i, x.20) && V::item(a.21, i, x.21) && W::item(a.22, i, x.22) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W)> :: open | id=JoinTuple23::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W)> :: get | id=JoinTuple23::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) && self.18.has(i) && self.19.has(i) && self.20.has(i) && self.21.has(i) && self.22.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W) :: and | id=BitAnd23::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) && self.18.ihas(i) && self.19.ihas(i) && self.20.ihas(i) && self.21.ihas(i) && self.22.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() && self.18.iok() && self.19.iok() && self.20.iok() && self.21.iok() && self.22.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) && self.18.ival(i, x.18) && self.19.ival(i, x.19) && self.20.ival(i, x.20) && self.21.ival(i, x.21) && self.22.ival(i, x.22) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W) :: into_join | id=IntoJoin23::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask , < S as Join > :: Mask , < T as Join > :: Mask , < U as Join > :: Mask , < V as Join > :: Mask , < W as Join > :: Mask , < X as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) && self.0.18.jhas(i) && self.0.19.jhas(i) && self.0.20.jhas(i) && self.0.21.jhas(i) && self.0.22.jhas(i) && self.0.23.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() && self.0.18.jok() && self.0.19.jok() && self.0.20.jok() && self.0.21.jok() && self.0.22.jok() && self.0.23.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) && self.0.18.jval(i, x.18) && self.0.19.jval(i, x.19) && self.0.20.jval(i, x.20) && self.0.21.jval(i, x.21) && self.0.22.jval(i, x.22) && self.0.23.jval(i, x.23) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) && S::valid(a.18, i) && T::valid(a.19, i) && U::valid(a.20, i) && V::valid(a.21, i) && W::valid(a.22, i) && X::valid(a.23, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) && S::item(a.18, i, x.18) && T::item(a.19, i, x.19) && U::item(a.20, i, x.20) && V::item(a.21, i, x.21) && W::item(a.22, i, x.22) && X::item(a.23, i, x.23) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X)> :: open | id=JoinTuple24::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X)> :: get | id=JoinTuple24::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) && self.18.has(i) && self.19.has(i) && self.20.has(i) && self.21.has(i) && self.22.has(i) && self.23.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X) :: and | id=BitAnd24::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) && self.18.ihas(i) && self.19.ihas(i) && self.20.ihas(i) && self.21.ihas(i) && self.22.ihas(i) && self.23.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() && self.18.iok() && self.19.iok() && self.20.iok() && self.21.iok() && self.22.iok() && self.23.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) && self.18.ival(i, x.18) && self.19.ival(i, x.19) && self.20.ival(i, x.20) && self.21.ival(i, x.21) && self.22.ival(i, x.22) && self.23.ival(i, x.23) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X) :: into_join | id=IntoJoin24::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask , < S as Join > :: Mask , < T as Join > :: Mask , < U as Join > :: Mask , < V as Join > :: Mask , < W as Join > :: Mask , < X as Join > :: Mask , < Y as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) && self.0.18.jhas(i) && self.0.19.jhas(i) && self.0.20.jhas(i) && self.0.21.jhas(i) && self.0.22.jhas(i) && self.0.23.jhas(i) && self.0.24.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() && self.0.18.jok() && self.0.19.jok() && self.0.20.jok() && self.0.21.jok() && self.0.22.jok() && self.0.23.jok() && self.0.24.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) && self.0.18.jval(i, x.18) && self.0.19.jval(i, x.19) && self.0.20.jval(i, x.20) && self.0.21.jval(i, x.21) && self.0.22.jval(i, x.22) && self.0.23.jval(i, x.23) && self.0.24.jval(i, x.24) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) && S::valid(a.18, i) && T::valid(a.19, i) && U::valid(a.20, i) && V::valid(a.21, i) && W::valid(a.22, i) && X::valid(a.23, i) && Y::valid(a.24, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) && S::item(a.18, i, x.18) && T::item(a.19, i, x.19) && U::item(a.20, i, x.20) && V::item(a.21, i, x.21) && W::item(a.22, i, x.22) && X::item(a.23, i, x.23) && Y::item(a.24, i, x.24) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y)> :: open | id=JoinTuple25::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y)> :: get | id=JoinTuple25::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) && self.18.has(i) && self.19.has(i) && self.20.has(i) && self.21.has(i) && self.22.has(i) && self.23.has(i) && self.24.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y) :: and | id=BitAnd25::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) && self.18.ihas(i) && self.19.ihas(i) && self.20.ihas(i) && self.21.ihas(i) && self.22.ihas(i) && self.23.ihas(i) && self.24.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() && self.18.iok() && self.19.iok() && self.20.iok() && self.21.iok() && self.22.iok() && self.23.iok() && self.24.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) && self.18.ival(i, x.18) && self.19.ival(i, x.19) && self.20.ival(i, x.20) && self.21.ival(i, x.21) && self.22.ival(i, x.22) && self.23.ival(i, x.23) && self.24.ival(i, x.24) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y) :: into_join | id=IntoJoin25::into_join props=J01
//@ret r
//@end
}
//@impl expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z)> | map , ( < A as Join > :: Mask , < B as Join > :: Mask , < C as Join > :: Mask , < D as Join > :: Mask , < E as Join > :: Mask , < F as Join > :: Mask , < G as Join > :: Mask , < H as Join > :: Mask , < I as Join > :: Mask , < J as Join > :: Mask , < K as Join > :: Mask , < L as Join > :: Mask , < M as Join > :: Mask , < N as Join > :: Mask , < O as Join > :: Mask , < P as Join > :: Mask , < Q as Join > :: Mask , < R as Join > :: Mask , < S as Join > :: Mask , < T as Join > :: Mask , < U as Join > :: Mask , < V as Join > :: Mask , < W as Join > :: Mask , < X as Join > :: Mask , < Y as Join > :: Mask , < Z as Join > :: Mask ) : BitAnd =>
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z)> | Item
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z)> | Access
//@assoc expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z)> | Mask
    open spec fn jhas(self, i: u32) -> bool { self.0.0.jhas(i) && self.0.1.jhas(i) && self.0.2.jhas(i) && self.0.3.jhas(i) && self.0.4.jhas(i) && self.0.5.jhas(i) && self.0.6.jhas(i) && self.0.7.jhas(i) && self.0.8.jhas(i) && self.0.9.jhas(i) && self.0.10.jhas(i) && self.0.11.jhas(i) && self.0.12.jhas(i) && self.0.13.jhas(i) && self.0.14.jhas(i) && self.0.15.jhas(i) && self.0.16.jhas(i) && self.0.17.jhas(i) && self.0.18.jhas(i) && self.0.19.jhas(i) && self.0.20.jhas(i) && self.0.21.jhas(i) && self.0.22.jhas(i) && self.0.23.jhas(i) && self.0.24.jhas(i) && self.0.25.jhas(i) }
    open spec fn jok(self) -> bool { self.0.0.jok() && self.0.1.jok() && self.0.2.jok() && self.0.3.jok() && self.0.4.jok() && self.0.5.jok() && self.0.6.jok() && self.0.7.jok() && self.0.8.jok() && self.0.9.jok() && self.0.10.jok() && self.0.11.jok() && self.0.12.jok() && self.0.13.jok() && self.0.14.jok() && self.0.15.jok() && self.0.16.jok() && self.0.17.jok() && self.0.18.jok() && self.0.19.jok() && self.0.20.jok() && self.0.21.jok() && self.0.22.jok() && self.0.23.jok() && self.0.24.jok() && self.0.25.jok() }
    open spec fn jval(self, i: u32, x: Self::Item) -> bool { self.0.0.jval(i, x.0) && self.0.1.jval(i, x.1) && self.0.2.jval(i, x.2) && self.0.3.jval(i, x.3) && self.0.4.jval(i, x.4) && self.0.5.jval(i, x.5) && self.0.6.jval(i, x.6) && self.0.7.jval(i, x.7) && self.0.8.jval(i, x.8) && self.0.9.jval(i, x.9) && self.0.10.jval(i, x.10) && self.0.11.jval(i, x.11) && self.0.12.jval(i, x.12) && self.0.13.jval(i, x.13) && self.0.14.jval(i, x.14) && self.0.15.jval(i, x.15) && self.0.16.jval(i, x.16) && self.0.17.jval(i, x.17) && self.0.18.jval(i, x.18) && self.0.19.jval(i, x.19) && self.0.20.jval(i, x.20) && self.0.21.jval(i, x.21) && self.0.22.jval(i, x.22) && self.0.23.jval(i, x.23) && self.0.24.jval(i, x.24) && self.0.25.jval(i, x.25) }
    open spec fn valid(a: Self::Access, i: u32) -> bool { A::valid(a.0, i) && B::valid(a.1, i) && C::valid(a.2, i) && D::valid(a.3, i) && E::valid(a.4, i) && F::valid(a.5, i) && G::valid(a.6, i) && H::valid(a.7, i) && I::valid(a.8, i) && J::valid(a.9, i) && K::valid(a.10, i) && L::valid(a.11, i) && M::valid(a.12, i) && N::valid(a.13, i) && O::valid(a.14, i) && P::valid(a.15, i) && Q::valid(a.16, i) && R::valid(a.17, i) && S::valid(a.18, i) && T::valid(a.19, i) && U::valid(a.20, i) && V::valid(a.21, i) && W::valid(a.22, i) && X::valid(a.23, i) && Y::valid(a.24, i) && Z::valid(a.25, i) }
    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool { A::item(a.0, i, x.0) && B::item(a.1, i, x.1) && C::item(a.2, i, x.2) && D::item(a.3, i, x.3) && E::item(a.4, i, x.4) && F::item(a.5, i, x.5) && G::item(a.6, i, x.6) && H::item(a.7, i, x.7) && I::item(a.8, i, x.8) && J::item(a.9, i, x.9) && K::item(a.10, i, x.10) && L::item(a.11, i, x.11) && M::item(a.12, i, x.12) && N::item(a.13, i, x.13) && O::item(a.14, i, x.14) && P::item(a.15, i, x.15) && Q::item(a.16, i, x.16) && R::item(a.17, i, x.17) && S::item(a.18, i, x.18) && T::item(a.19, i, x.19) && U::item(a.20, i, x.20) && V::item(a.21, i, x.21) && W::item(a.22, i, x.22) && X::item(a.23, i, x.23) && Y::item(a.24, i, x.24) && Z::item(a.25, i, x.25) }
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z)> :: open | id=JoinTuple26::open props=J01
//@ret r
//@end
//@fn expanded:join | Join for JoinTuple<(A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z)> :: get | id=JoinTuple26::get props=J01
//@ret r
//@end
}
//@impl expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z)
//@assoc expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z) | Value
    open spec fn all(self, i: u32) -> bool { self.0.has(i) && self.1.has(i) && self.2.has(i) && self.3.has(i) && self.4.has(i) && self.5.has(i) && self.6.has(i) && self.7.has(i) && self.8.has(i) && self.9.has(i) && self.10.has(i) && self.11.has(i) && self.12.has(i) && self.13.has(i) && self.14.has(i) && self.15.has(i) && self.16.has(i) && self.17.has(i) && self.18.has(i) && self.19.has(i) && self.20.has(i) && self.21.has(i) && self.22.has(i) && self.23.has(i) && self.24.has(i) && self.25.has(i) }
//@fn expanded:join | BitAnd for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z) :: and | id=BitAnd26::and props=J01
//@ret r
//@end
}
//@impl expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z)
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z) | Item
//@assoc expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z) | IntoJoin
    open spec fn ihas(self, i: u32) -> bool { self.0.ihas(i) && self.1.ihas(i) && self.2.ihas(i) && self.3.ihas(i) && self.4.ihas(i) && self.5.ihas(i) && self.6.ihas(i) && self.7.ihas(i) && self.8.ihas(i) && self.9.ihas(i) && self.10.ihas(i) && self.11.ihas(i) && self.12.ihas(i) && self.13.ihas(i) && self.14.ihas(i) && self.15.ihas(i) && self.16.ihas(i) && self.17.ihas(i) && self.18.ihas(i) && self.19.ihas(i) && self.20.ihas(i) && self.21.ihas(i) && self.22.ihas(i) && self.23.ihas(i) && self.24.ihas(i) && self.25.ihas(i) }
    open spec fn iok(self) -> bool { self.0.iok() && self.1.iok() && self.2.iok() && self.3.iok() && self.4.iok() && self.5.iok() && self.6.iok() && self.7.iok() && self.8.iok() && self.9.iok() && self.10.iok() && self.11.iok() && self.12.iok() && self.13.iok() && self.14.iok() && self.15.iok() && self.16.iok() && self.17.iok() && self.18.iok() && self.19.iok() && self.20.iok() && self.21.iok() && self.22.iok() && self.23.iok() && self.24.iok() && self.25.iok() }
    open spec fn ival(self, i: u32, x: Self::Item) -> bool { self.0.ival(i, x.0) && self.1.ival(i, x.1) && self.2.ival(i, x.2) && self.3.ival(i, x.3) && self.4.ival(i, x.4) && self.5.ival(i, x.5) && self.6.ival(i, x.6) && self.7.ival(i, x.7) && self.8.ival(i, x.8) && self.9.ival(i, x.9) && self.10.ival(i, x.10) && self.11.ival(i, x.11) && self.12.ival(i, x.12) && self.13.ival(i, x.13) && self.14.ival(i, x.14) && self.15.ival(i, x.15) && self.16.ival(i, x.16) && self.17.ival(i, x.17) && self.18.ival(i, x.18) && self.19.ival(i, x.19) && self.20.ival(i, x.20) && self.21.ival(i, x.21) && self.22.ival(i, x.22) && self.23.ival(i, x.23) && self.24.ival(i, x.24) && self.25.ival(i, x.25) }
//@fn expanded:join | IntoJoin for (A,B,C,D,E,F,G,H,I,J,K,L,M,N,O,P,Q,R,S,T,U,V,W,X,Y,Z) :: into_join | id=IntoJoin26::into_join props=J01
//@ret r
//@end
}
} // verus!
