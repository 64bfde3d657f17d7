#[verifier::external_body]
pub fn alt2<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
#[verifier::external_body]
pub fn alt3<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>, F2: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1, f2: F2) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,)) && f2.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x) || f2.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
#[verifier::external_body]
pub fn alt4<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>, F2: Fn(Span<'a>) -> IR<'a, T>, F3: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1, f2: F2, f3: F3) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,)) && f2.requires((s,)) && f3.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x) || f2.ensures((s,), x) || f3.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
#[verifier::external_body]
pub fn alt5<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>, F2: Fn(Span<'a>) -> IR<'a, T>, F3: Fn(Span<'a>) -> IR<'a, T>, F4: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1, f2: F2, f3: F3, f4: F4) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,)) && f2.requires((s,)) && f3.requires((s,)) && f4.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x) || f2.ensures((s,), x) || f3.ensures((s,), x) || f4.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
#[verifier::external_body]
pub fn alt6<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>, F2: Fn(Span<'a>) -> IR<'a, T>, F3: Fn(Span<'a>) -> IR<'a, T>, F4: Fn(Span<'a>) -> IR<'a, T>, F5: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1, f2: F2, f3: F3, f4: F4, f5: F5) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,)) && f2.requires((s,)) && f3.requires((s,)) && f4.requires((s,)) && f5.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x) || f2.ensures((s,), x) || f3.ensures((s,), x) || f4.ensures((s,), x) || f5.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
#[verifier::external_body]
pub fn alt7<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>, F2: Fn(Span<'a>) -> IR<'a, T>, F3: Fn(Span<'a>) -> IR<'a, T>, F4: Fn(Span<'a>) -> IR<'a, T>, F5: Fn(Span<'a>) -> IR<'a, T>, F6: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1, f2: F2, f3: F3, f4: F4, f5: F5, f6: F6) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,)) && f2.requires((s,)) && f3.requires((s,)) && f4.requires((s,)) && f5.requires((s,)) && f6.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x) || f2.ensures((s,), x) || f3.ensures((s,), x) || f4.ensures((s,), x) || f5.ensures((s,), x) || f6.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
#[verifier::external_body]
pub fn alt8<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>, F2: Fn(Span<'a>) -> IR<'a, T>, F3: Fn(Span<'a>) -> IR<'a, T>, F4: Fn(Span<'a>) -> IR<'a, T>, F5: Fn(Span<'a>) -> IR<'a, T>, F6: Fn(Span<'a>) -> IR<'a, T>, F7: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1, f2: F2, f3: F3, f4: F4, f5: F5, f6: F6, f7: F7) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,)) && f2.requires((s,)) && f3.requires((s,)) && f4.requires((s,)) && f5.requires((s,)) && f6.requires((s,)) && f7.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x) || f2.ensures((s,), x) || f3.ensures((s,), x) || f4.ensures((s,), x) || f5.ensures((s,), x) || f6.ensures((s,), x) || f7.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
#[verifier::external_body]
pub fn alt9<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>, F2: Fn(Span<'a>) -> IR<'a, T>, F3: Fn(Span<'a>) -> IR<'a, T>, F4: Fn(Span<'a>) -> IR<'a, T>, F5: Fn(Span<'a>) -> IR<'a, T>, F6: Fn(Span<'a>) -> IR<'a, T>, F7: Fn(Span<'a>) -> IR<'a, T>, F8: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1, f2: F2, f3: F3, f4: F4, f5: F5, f6: F6, f7: F7, f8: F8) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,)) && f2.requires((s,)) && f3.requires((s,)) && f4.requires((s,)) && f5.requires((s,)) && f6.requires((s,)) && f7.requires((s,)) && f8.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x) || f2.ensures((s,), x) || f3.ensures((s,), x) || f4.ensures((s,), x) || f5.ensures((s,), x) || f6.ensures((s,), x) || f7.ensures((s,), x) || f8.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
#[verifier::external_body]
pub fn alt10<'a, T, F0: Fn(Span<'a>) -> IR<'a, T>, F1: Fn(Span<'a>) -> IR<'a, T>, F2: Fn(Span<'a>) -> IR<'a, T>, F3: Fn(Span<'a>) -> IR<'a, T>, F4: Fn(Span<'a>) -> IR<'a, T>, F5: Fn(Span<'a>) -> IR<'a, T>, F6: Fn(Span<'a>) -> IR<'a, T>, F7: Fn(Span<'a>) -> IR<'a, T>, F8: Fn(Span<'a>) -> IR<'a, T>, F9: Fn(Span<'a>) -> IR<'a, T>>(f0: F0, f1: F1, f2: F2, f3: F3, f4: F4, f5: F5, f6: F6, f7: F7, f8: F8, f9: F9) -> (g: impl Fn(Span<'a>) -> IR<'a, T>)
    ensures
        forall|s: Span<'a>| (f0.requires((s,)) && f1.requires((s,)) && f2.requires((s,)) && f3.requires((s,)) && f4.requires((s,)) && f5.requires((s,)) && f6.requires((s,)) && f7.requires((s,)) && f8.requires((s,)) && f9.requires((s,))) ==> #[trigger] g.requires((s,)),
        forall|s: Span<'a>, x: IR<'a, T>| #[trigger] g.ensures((s,), x) ==> match x {
            Ok(_) => f0.ensures((s,), x) || f1.ensures((s,), x) || f2.ensures((s,), x) || f3.ensures((s,), x) || f4.ensures((s,), x) || f5.ensures((s,), x) || f6.ensures((s,), x) || f7.ensures((s,), x) || f8.ensures((s,), x) || f9.ensures((s,), x),
            Err(_) => true },
{ move |s: Span<'a>| -> IR<'a, T> { unimplemented!() } }
