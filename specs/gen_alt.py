# writes alt.rs: contracts of nom's alt for 2..10 alternatives
o=[]
for n in range(2,11):
    ty=", ".join(f"F{i}: Fn(Span<'a>) -> IR<'a, T>" for i in range(n))
    ar=", ".join(f"f{i}: F{i}" for i in range(n))
    rq=" && ".join(f"f{i}.requires((s,))" for i in range(n))
    en=" || ".join(f"f{i}.ensures((s,), x)" for i in range(n))
    fl=" && ".join(f"fails(f{i}, s)" for i in range(n))
    # when alternative i is the answer, the earlier ones failed
    o.append(f"""#[verifier::external_body]
pub fn alt{n}<'a, T, {ty}>({ar}) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| ({rq}) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {{
            Ok(_) => {en},
            Err(_) => true }},
{{ move |s: Span<'a>| -> IR<'a, T> {{ unimplemented!() }} }}
""")
open("alt.rs","w").write("".join(o))
