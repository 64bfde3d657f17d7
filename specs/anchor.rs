// ---- what a fragment of a URI may hold (RFC 3986) -------------------------------------------------
pub open spec fn hexd(c: char) -> bool { '0' <= c <= '9' || 'a' <= c <= 'f' || 'A' <= c <= 'F' }
pub open spec fn hexb(b: u8) -> bool { 48 <= b <= 57 || 65 <= b <= 70 || 97 <= b <= 102 }
/// bytes a fragment may hold as they are, besides escapes: pchar / "/" / "?"
pub open spec fn fragb(b: u8) -> bool {
    48 <= b <= 57 || 65 <= b <= 90 || 97 <= b <= 122 || b == 45 || b == 46 || b == 95 || b == 126
        || b == 33 || b == 36 || 38 <= b <= 44 || b == 59 || b == 61 || b == 58 || b == 64 || b == 47 || b == 63
}
/// s is made of bytes a fragment may hold and of escapes (% and two hexadecimal digits)
pub open spec fn frag_chars(s: Seq<char>) -> bool
    decreases s.len()
{
    s.len() == 0 || (if s[0] == '%' { s.len() >= 3 && hexd(s[1]) && hexd(s[2]) && frag_chars(s.skip(3)) } else { (s[0] as u32) < 128 && fragb(s[0] as u8) && frag_chars(s.skip(1)) })
}
/// a reference that is empty, or only a fragment
pub open spec fn frag_ref(s: Seq<char>) -> bool { s.len() == 0 || (s[0] == '#' && frag_chars(s.skip(1))) }
pub proof fn frag_add(a: Seq<char>, b: Seq<char>)
    requires frag_chars(a), frag_chars(b)
    ensures frag_chars(a + b)
    decreases a.len()
{
    if a.len() == 0 { assert(a + b =~= b); }
    else if a[0] == '%' { frag_add(a.skip(3), b); assert((a + b).skip(3) =~= a.skip(3) + b); }
    else { frag_add(a.skip(1), b); assert((a + b).skip(1) =~= a.skip(1) + b); }
}
// ---- splitting and joining
/// the pieces between the occurrences of c
pub open spec fn pieces(s: Seq<char>, c: char) -> Seq<Seq<char>> decreases s.len() {
    if s.len() == 0 { seq![seq![]] } else { let p = pieces(s.drop_last(), c); if s.last() == c { p.push(seq![]) } else { p.drop_last().push(p.last().push(s.last())) } }
}
/// texts with sep between each two
pub open spec fn glue(ps: Seq<Seq<char>>, sep: Seq<char>) -> Seq<char> decreases ps.len() { if ps.len() == 0 { seq![] } else if ps.len() == 1 { ps[0] } else { glue(ps.drop_last(), sep) + sep + ps.last() } }
/// an anchor as it is written: a pound sign before each part
pub open spec fn anchor_text(ps: Seq<Seq<char>>) -> Seq<char> { if ps.len() == 0 { seq![] } else { seq!['#'] + glue(ps, seq!['#']) } }
pub proof fn pieces_glue(a: Seq<char>, t: Seq<char>, c: char)
    requires forall|i: int| 0 <= i < t.len() ==> t[i] != c
    ensures pieces(a + seq![c] + t, c) == pieces(a, c).push(t)
    decreases t.len()
{
    let s = a + seq![c] + t;
    if t.len() == 0 { assert(s.drop_last() =~= a); assert(s.last() == c); assert(t =~= Seq::<char>::empty()); assert(pieces(s, c) =~= pieces(a, c).push(t)); }
    else {
        let u = t.drop_last();
        assert forall|i: int| 0 <= i < u.len() implies u[i] != c by { assert(u[i] == t[i]); }
        pieces_glue(a, u, c);
        assert(s.drop_last() =~= a + seq![c] + u); assert(s.last() == t.last());
        assert(u.push(t.last()) =~= t);
        assert(pieces(s, c) =~= pieces(a, c).push(t));
    }
}
/// an anchor that is written and read again has the same parts, if none of them holds a pound sign
pub proof fn anchor_reads_back(ps: Seq<Seq<char>>)
    requires ps.len() > 0, forall|k: int, i: int| 0 <= k < ps.len() && 0 <= i < ps[k].len() ==> ps[k][i] != '#'
    ensures pieces(anchor_text(ps), '#') == seq![Seq::<char>::empty()] + ps
    decreases ps.len()
{
    let e = Seq::<char>::empty(); let h = seq!['#'];
    assert(pieces(e, '#') =~= seq![e]);
    let l = ps.last();
    assert forall|i: int| 0 <= i < l.len() implies l[i] != '#' by { assert(ps[ps.len() - 1][i] != '#'); }
    if ps.len() == 1 { pieces_glue(e, l, '#'); assert(e + h + l =~= anchor_text(ps)); assert(seq![e].push(l) =~= seq![e] + ps); }
    else {
        let q = ps.drop_last();
        assert forall|k: int, i: int| 0 <= k < q.len() && 0 <= i < q[k].len() implies q[k][i] != '#' by { assert(q[k] == ps[k]); }
        anchor_reads_back(q); pieces_glue(anchor_text(q), l, '#');
        assert(anchor_text(ps) =~= anchor_text(q) + h + l);
        assert((seq![e] + q).push(l) =~= seq![e] + ps);
    }
}
