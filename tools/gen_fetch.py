L="ABCDEFGHIJKLMNOPQRSTUVWXYZ"
out=[]
for n in range(1,27):
    t=L[:n]
    tup="("+", ".join(t)+",)"
    key="FetchResources<'a, ST> for "+("("+", ".join(t)+(",)" if n==1 else ")"))
    print(key) if n<3 else None
    m=["map 'a , ST , RT , => 'a , ST : VpSource ,"]
    m.append("map RT : Resources , =>")
    m.append("map A : FetchResources < 'a , ST , Resources = RT > => A : FetchResources < 'a , ST >")
    m.append("map RT => A :: Resources")
    maps=" ; ".join(m)
    res="Some(ISet::empty())"
    held="ISet::empty()"
    tries=" + ".join(f"{c}::tries(s, x)" for c in t)
    for i,c in enumerate(t):
        res=f"vp_add::<A::Resources>({res}, {c}::res())"
        held=f"{held}.union(self.{i}.held())"
    out.append(f"//@impl expanded:fetch_resources | {key} | {maps}\n    type Resources = A::Resources;\n    open spec fn res() -> Option<ISet<ST::Use>> {{ {res} }}\n    open spec fn held(&self) -> ISet<Hold> {{ {held} }}\n    open spec fn tries(s: ST, x: (Loc, bool)) -> nat {{ {tries} }}\n"
     f"//@fn expanded:fetch_resources | {key} :: check_resources | id=tuple{n}::check_resources props=F01\n//@ret r\n//@end\n//@fn expanded:fetch_resources | {key} :: fetch | id=tuple{n}::fetch props=F01 ; map FetchResources < ST > => FetchResources < 'a , ST >\n//@ret r\n//@end\n"
     f"//@fn expanded:fetch_resources | {key} :: fetch | name=vp_fetch_tries id=tuple{n}::fetch#tries props=F01,F02 log logname=fetch:vp_fetch_tries ; map FetchResources < ST > => FetchResources < 'a , ST >\n//@ret r\n//@end\n}}\n")
open("/verif/units/fetch_tuples.rs","w").write("// generated: one block per tuple length\nverus! {\n"+"".join(out)+"} // verus!\n")
