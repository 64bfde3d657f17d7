//# list items: prefix of every position, todo state (unit of P06)
@include std.rs
@raw
use std::borrow::Cow;
/// the letters of a 0-based position: a .. z, aa, ab, ...
pub open spec fn alpha(pos: nat, base: nat) -> Seq<char> decreases pos {
    if pos < 26 { seq![(base + pos) as char] } else { alpha((pos / 26 - 1) as nat, base).push((base + pos % 26) as char) }
}
/// one digit of a roman numeral written with the symbols for 1, 5 and 10
pub open spec fn rdig(d: nat, i: char, v: char, x: char) -> Seq<char> {
    if d == 0 { seq![] } else if d == 1 { seq![i] } else if d == 2 { seq![i, i] } else if d == 3 { seq![i, i, i] } else if d == 4 { seq![i, v] }
    else if d == 5 { seq![v] } else if d == 6 { seq![v, i] } else if d == 7 { seq![v, i, i] } else if d == 8 { seq![v, i, i, i] } else { seq![i, x] }
}
pub open spec fn roman_lo(n: nat, up: bool) -> Seq<char> {
    if up { rdig(n / 100 % 10, 'C', 'D', 'M') + rdig(n / 10 % 10, 'X', 'L', 'C') + rdig(n % 10, 'I', 'V', 'X') }
    else { rdig(n / 100 % 10, 'c', 'd', 'm') + rdig(n / 10 % 10, 'x', 'l', 'c') + rdig(n % 10, 'i', 'v', 'x') }
}
pub open spec fn roman(n: nat, up: bool) -> Seq<char> { rep(if up { seq!['M'] } else { seq!['m'] }, n / 1000) + roman_lo(n, up) }
/// numerals::roman::Roman
#[verifier::external_body] pub struct Roman { x: i16 }
impl Roman {
    pub uninterp spec fn val(&self) -> int;
    #[verifier::external_body]
    pub fn from__(n: i16) -> (r: Self) requires n > 0 ensures r.val() == n { unimplemented!() }
}
impl Hex__ for Roman {
    open spec fn lhex(&self) -> Seq<char> { roman(self.val() as nat, false) }
    open spec fn uhex(&self) -> Seq<char> { roman(self.val() as nat, true) }
}
pub open spec fn suf(s: ListItemSuffix) -> Seq<char> { match s { ListItemSuffix::None => seq![], ListItemSuffix::Period => seq!['.'], ListItemSuffix::Paren => seq![')'] } }
pub open spec fn ord_prefix(t: OrderedListItemType, pos: nat) -> Seq<char> {
    match t {
        OrderedListItemType::Number => dec(pos + 1), OrderedListItemType::Pound => seq!['#'],
        OrderedListItemType::LowercaseAlphabet => alpha(pos, 97), OrderedListItemType::UppercaseAlphabet => alpha(pos, 65),
        OrderedListItemType::LowercaseRoman => roman(pos + 1, false), OrderedListItemType::UppercaseRoman => roman(pos + 1, true),
    }
}
pub open spec fn un_prefix(t: UnorderedListItemType, s: ListItemSuffix) -> Seq<char> {
    match t { UnorderedListItemType::Hyphen => seq!['-'], UnorderedListItemType::Asterisk => seq!['*'], UnorderedListItemType::Other(x) => cow_str(x) + suf(s) }
}
pub uninterp spec fn cow_str(x: Cow<str>) -> Seq<char>;
pub open spec fn prefix(t: ListItemType, pos: nat, s: ListItemSuffix) -> Seq<char> {
    match t { ListItemType::Ordered(x) => ord_prefix(x, pos) + suf(s), ListItemType::Unordered(x) => un_prefix(x, s) }
}
pub open spec fn is_(x: ListItem, s: ListItemTodoStatus) -> bool { x.attributes.todo_status == Some(s) }
// lemmas: distinct positions have distinct letters and numbers
pub proof fn alpha_inj(p: nat, q: nat, base: nat)
    requires base == 65 || base == 97, alpha(p, base) == alpha(q, base)
    ensures p == q
    decreases p
{
    alpha_len(p, base); alpha_len(q, base);
    assert(alpha(p, base).last() == (base + p % 26) as char);
    assert(alpha(q, base).last() == (base + q % 26) as char);
    if p >= 26 {
        assert(alpha(p, base).len() >= 2); assert(q >= 26);
        assert(alpha(p, base).drop_last() == alpha((p / 26 - 1) as nat, base));
        assert(alpha(q, base).drop_last() == alpha((q / 26 - 1) as nat, base));
        alpha_inj((p / 26 - 1) as nat, (q / 26 - 1) as nat, base);
    } else { if q >= 26 { alpha_len((q / 26 - 1) as nat, base); } }
}
pub proof fn alpha_len(p: nat, base: nat) ensures alpha(p, base).len() >= 1, p >= 26 ==> alpha(p, base).len() >= 2 decreases p { if p >= 26 { alpha_len((p / 26 - 1) as nat, base); } }
pub proof fn dec_len(n: nat) ensures dec(n).len() >= 1, n >= 10 ==> dec(n).len() >= 2 decreases n { if n >= 10 { dec_len(n / 10); } }
pub proof fn dec_inj(p: nat, q: nat) requires dec(p) == dec(q) ensures p == q decreases p
{
    dec_len(p); dec_len(q);
    assert(dec(p).last() == (48 + p % 10) as char); assert(dec(q).last() == (48 + q % 10) as char);
    if p >= 10 {
        assert(q >= 10);
        assert(dec(p).drop_last() == dec(p / 10)); assert(dec(q).drop_last() == dec(q / 10));
        dec_inj(p / 10, q / 10);
    }
}
mod lax {
    use super::*;
    verus! {
    pub broadcast proof fn alpha_step(i: nat, base: nat, acc: Seq<char>)
        requires i >= 26
        ensures #[trigger] (alpha(i, base) + acc) == alpha((i / 26 - 1) as nat, base) + (seq![(base + i % 26) as char] + acc)
    { assert(alpha(i, base) + acc =~= alpha((i / 26 - 1) as nat, base) + (seq![(base + i % 26) as char] + acc)); }
    pub broadcast proof fn add_suf(a: Seq<char>, x: ListItemSuffix)
        ensures #[trigger] (a + suf(x)) == (match x { ListItemSuffix::None => a, ListItemSuffix::Period => a.push('.'), ListItemSuffix::Paren => a.push(')') })
    { match x { ListItemSuffix::None => { assert(a + suf(x) =~= a); } ListItemSuffix::Period => { assert(a + suf(x) =~= a.push('.')); } ListItemSuffix::Paren => { assert(a + suf(x) =~= a.push(')')); } } }
    pub broadcast axiom fn ax_usize_to_string(n: &usize, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<usize>(n, r) ==> r@ == dec(*n as nat);
    pub broadcast axiom fn ax_cow_to_string(n: &Cow<str>, r: String) ensures #[trigger] vstd::string::to_string_from_display_ensures::<Cow<str>>(n, r) ==> r@ == cow_str(*n);
    }
}
pub proof fn digits_hi(pos: nat)
    requires pos % 1000 == 999
    ensures (pos + 1) / 1000 == pos / 1000 + 1, (pos + 1) % 10 == 0, (pos + 1) / 10 % 10 == 0, (pos + 1) / 100 % 10 == 0, 1000nat / 1000 == 1, 1000nat % 10 == 0, 1000nat / 10 % 10 == 0, 1000nat / 100 % 10 == 0,
{ let t = (pos / 1000) as int; dl1(t, 1000); dl2(t, 1000); dl4(t + 1, 0); dl3(10 * t, 100); dl3(t, 10); assert(pos + 1 == 1000 * t + 1000); }
pub proof fn dl1(t: int, r: int) requires 0 <= r, ensures (1000 * t + r) / 10 == 100 * t + r / 10, (1000 * t + r) % 10 == r % 10 {}
pub proof fn dl2(t: int, r: int) requires 0 <= r, ensures (1000 * t + r) / 100 == 10 * t + r / 100 {}
pub proof fn dl3(t: int, r: int) requires 0 <= r, ensures (10 * t + r) % 10 == r % 10 {}
pub proof fn dl4(t: int, r: int) requires 0 <= r < 1000, ensures (1000 * t + r) / 1000 == t {}
pub proof fn digits_lo(pos: nat)
    requires pos % 1000 != 999
    ensures (pos + 1) / 1000 == pos / 1000, (pos % 1000 + 1) / 1000 == 0, (pos + 1) % 10 == (pos % 1000 + 1) % 10, (pos + 1) / 10 % 10 == (pos % 1000 + 1) / 10 % 10, (pos + 1) / 100 % 10 == (pos % 1000 + 1) / 100 % 10,
{ let t = (pos / 1000) as int; let r = (pos % 1000 + 1) as int; dl1(t, r); dl2(t, r); dl3(10 * t, r / 10); dl3(t, r / 100); dl4(t, r); assert(pos + 1 == 1000 * t + r); }
/// Roman numerals of 1..=1000 and the thousands before them
pub proof fn roman_split(pos: nat, up: bool)
    ensures rep(if up { seq!['M'] } else { seq!['m'] }, pos / 1000) + roman(pos % 1000 + 1, up) == roman(pos + 1, up)
{
    let m = if up { seq!['M'] } else { seq!['m'] };
    let r = pos % 1000 + 1; let t = pos / 1000;
    if r == 1000 {
        digits_hi(pos);
        assert(rep(m, 1) == m) by { reveal_with_fuel(rep, 2); assert(seq![] + m =~= m); }
        assert(roman_lo(r, up) =~= seq![]); assert(roman_lo(pos + 1, up) =~= seq![]);
        assert(rep(m, t) + (m + seq![]) =~= (rep(m, t) + m) + seq![]);
    } else {
        digits_lo(pos);
        assert(rep(m, t) + (seq![] + roman_lo(r, up)) =~= rep(m, t) + roman_lo(r, up));
    }
}
#[verifier::external_body] pub struct ListItemContents<'a> { x: &'a str }
@endraw
@fnhead broadcast use {lax::alpha_step, lax::add_suf, lax::ax_usize_to_string, lax::ax_cow_to_string};
@source vimwiki-core/src/lang/elements/blocks/lists/item.rs
@type ListItemSuffix copy
@type UnorderedListItemType
@type OrderedListItemType copy
@type ListItemType
@type ListItemTodoStatus copy
@type ListItemAttributes copy
@type ListItem
@fn ListItemSuffix::as_char
    ensures suf(self) == (match ret { Some(c) => seq![c], None => seq![] }),
@fn pos_to_alphabet
    ensures ret@ == alpha(pos as nat, if to_lower { 97 } else { 65 }),
@@loops 1
@@loop 0
    invariant base == (if to_lower { 97u32 } else { 65u32 }), alpha(pos as nat, base as nat) == alpha(i as nat, base as nat) + s@.reverse(),
    decreases i,
@fn OrderedListItemType::to_prefix
    requires pos < usize::MAX,
    ensures ret@ == ord_prefix(self, pos as nat) + suf(suffix),
@@head
    proof { roman_split(pos as nat, true); roman_split(pos as nat, false); }
@fn UnorderedListItemType::to_prefix
    ensures ret@ == un_prefix(*self, suffix),
@fn ListItemType::is_ordered
    ensures ret == (self is Ordered),
@fn ListItemType::is_unordered
    ensures ret == (self is Unordered),
@fn ListItemType::to_prefix
    requires pos < usize::MAX,
    ensures ret@ == prefix(*self, pos as nat, suffix),
@fn ListItem::is_unordered
    ensures ret == (self.ty is Unordered),
@fn ListItem::is_ordered
    ensures ret == (self.ty is Ordered),
@fn ListItem::to_prefix
    requires self.pos < usize::MAX,
    ensures ret@ == prefix(self.ty, self.pos as nat, self.suffix),
@fn ListItem::is_todo
    ensures ret == self.attributes.todo_status.is_some(),
@fn ListItem::is_todo_incomplete
    ensures ret == is_(*self, ListItemTodoStatus::Incomplete),
@fn ListItem::is_todo_partially_complete
    ensures ret == (is_(*self, ListItemTodoStatus::PartiallyComplete1) || is_(*self, ListItemTodoStatus::PartiallyComplete2) || is_(*self, ListItemTodoStatus::PartiallyComplete3)),
@fn ListItem::is_todo_partially_complete_1
    ensures ret == is_(*self, ListItemTodoStatus::PartiallyComplete1),
@fn ListItem::is_todo_partially_complete_2
    ensures ret == is_(*self, ListItemTodoStatus::PartiallyComplete2),
@fn ListItem::is_todo_partially_complete_3
    ensures ret == is_(*self, ListItemTodoStatus::PartiallyComplete3),
@fn ListItem::is_todo_complete
    ensures ret == is_(*self, ListItemTodoStatus::Complete),
@fn ListItem::is_todo_rejected
    ensures ret == is_(*self, ListItemTodoStatus::Rejected),
@fn ListItem::to_todo_progress
    ensures ret is Some <==> self.attributes.todo_status is Some && !is_(*self, ListItemTodoStatus::Rejected),
        is_(*self, ListItemTodoStatus::Incomplete) ==> ret == Some(0.0f32), is_(*self, ListItemTodoStatus::Complete) ==> ret == Some(1.0f32),
        is_(*self, ListItemTodoStatus::PartiallyComplete1) ==> ret == Some(0.25f32), is_(*self, ListItemTodoStatus::PartiallyComplete2) ==> ret == Some(0.5f32), is_(*self, ListItemTodoStatus::PartiallyComplete3) ==> ret == Some(0.75f32),
