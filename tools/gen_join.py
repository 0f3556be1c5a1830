#!/usr/bin/env python3
"""Writes units/join_tuples.rs: the contracts of the macro-generated joins of tuples, for every arity."""
import os
L = "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
o = ["verus! {", "// ---------------------------------------------------------------- tuples of 1 to 26 (written by tools/gen_join.py)"]
for n in range(1, 27):
    v = L[:n]
    t = "(" + ",".join(v) + ("," if n == 1 else "") + ")"
    masks = " , ".join(f"< {c} as Join > :: Mask" for c in v) + (" ," if n == 1 else "")
    conj = lambda f: " && ".join(f(k, c) for k, c in enumerate(v))
    key = f"Join for JoinTuple<{t}>"
    o += [f"//@impl expanded:join | {key} | map , ( {masks} ) : BitAnd =>",
          f"//@assoc expanded:join | {key} | Item", f"//@assoc expanded:join | {key} | Access", f"//@assoc expanded:join | {key} | Mask",
          f"    open spec fn jhas(self, i: u32) -> bool {{ {conj(lambda k, c: f'self.0.{k}.jhas(i)')} }}",
          f"    open spec fn jok(self) -> bool {{ {conj(lambda k, c: f'self.0.{k}.jok()')} }}",
          f"    open spec fn jval(self, i: u32, x: Self::Item) -> bool {{ {conj(lambda k, c: f'self.0.{k}.jval(i, x.{k})')} }}",
          f"    open spec fn valid(a: Self::Access, i: u32) -> bool {{ {conj(lambda k, c: f'{c}::valid(a.{k}, i)')} }}",
          f"    open spec fn item(a: Self::Access, i: u32, x: Self::Item) -> bool {{ {conj(lambda k, c: f'{c}::item(a.{k}, i, x.{k})')} }}",
          f"//@fn expanded:join | {key} :: open | id=JoinTuple{n}::open props=J01", "//@ret r", "//@end",
          f"//@fn expanded:join | {key} :: get | id=JoinTuple{n}::get props=J01", "//@ret r", "//@end", "}"]
    key = f"BitAnd for {t}"
    o += [f"//@impl expanded:join | {key}", f"//@assoc expanded:join | {key} | Value",
          f"    open spec fn all(self, i: u32) -> bool {{ {conj(lambda k, c: f'self.{k}.has(i)')} }}",
          f"//@fn expanded:join | {key} :: and | id=BitAnd{n}::and props=J01", "//@ret r", "//@end", "}"]
    key = f"IntoJoin for {t}"
    o += [f"//@impl expanded:join | {key}", f"//@assoc expanded:join | {key} | Item", f"//@assoc expanded:join | {key} | IntoJoin",
          f"    open spec fn ihas(self, i: u32) -> bool {{ {conj(lambda k, c: f'self.{k}.ihas(i)')} }}",
          f"    open spec fn iok(self) -> bool {{ {conj(lambda k, c: f'self.{k}.iok()')} }}",
          f"    open spec fn ival(self, i: u32, x: Self::Item) -> bool {{ {conj(lambda k, c: f'self.{k}.ival(i, x.{k})')} }}",
          f"//@fn expanded:join | {key} :: into_join | id=IntoJoin{n}::into_join props=J01", "//@ret r", "//@end", "}"]
o += ["} // verus!"]
open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "units", "join_tuples.rs"), "w").write("\n".join(o) + "\n")
