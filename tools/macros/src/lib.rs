//! Uses of the exported macros: `check.py` expands them with the macros of the current tree and verifies the expansion.
pub mod macros {
    use goggles::system::{Par, Seq};
    pub fn par2<A, B>(a: A, b: B) -> Par<A, B> {
        goggles::par![a, b]
    }
    pub fn par3<A, B, C>(a: A, b: B, c: C) -> Par<A, Par<B, C>> {
        goggles::par![a, b, c,]
    }
    pub fn par4<A, B, C, D>(a: A, b: B, c: C, d: D) -> Par<A, Par<Par<B, C>, D>> {
        goggles::par![a, b, c, d]
    }
    pub fn par5<A, B, C, D, E>(a: A, b: B, c: C, d: D, e: E) -> Par<A, Par<Par<Par<B, C>, D>, E>> {
        goggles::par![a, b, c, d, e,]
    }
    pub fn par6<A, B, C, D, E, F>(a: A, b: B, c: C, d: D, e: E, f: F) -> Par<A, Par<Par<Par<Par<B, C>, D>, E>, F>> {
        goggles::par![a, b, c, d, e, f]
    }
    pub fn seq2<A, B>(a: A, b: B) -> Seq<A, B> {
        goggles::seq![a, b]
    }
    pub fn seq3<A, B, C>(a: A, b: B, c: C) -> Seq<A, Seq<B, C>> {
        goggles::seq![a, b, c,]
    }
    pub fn seq4<A, B, C, D>(a: A, b: B, c: C, d: D) -> Seq<A, Seq<Seq<B, C>, D>> {
        goggles::seq![a, b, c, d]
    }
    pub fn seq5<A, B, C, D, E>(a: A, b: B, c: C, d: D, e: E) -> Seq<A, Seq<Seq<Seq<B, C>, D>, E>> {
        goggles::seq![a, b, c, d, e,]
    }
    pub fn seq6<A, B, C, D, E, F>(a: A, b: B, c: C, d: D, e: E, f: F) -> Seq<A, Seq<Seq<Seq<Seq<B, C>, D>, E>, F>> {
        goggles::seq![a, b, c, d, e, f]
    }
}
