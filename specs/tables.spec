//# tables: cell look-up, iteration order, spans, alignment, header/body split (unit of P07)
@include std.rs
@raw
/// std::collections::HashMap (assumed contract: a finite map); table positions stay below the largest address
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct HashMap<K, V> { k: Vec<(K, V)> }
#[verifier::external_body] #[verifier::reject_recursive_types(K)] #[verifier::accept_recursive_types(V)] pub struct Keys<'a, K, V> { k: &'a Vec<(K, V)> }
pub uninterp spec fn key_ok<K>(k: K) -> bool;
impl<K, V> HashMap<K, V> {
    pub uninterp spec fn view(&self) -> Map<K, V>;
    #[verifier::external_body] pub fn get(&self, k: &K) -> (r: Option<&V>) ensures match r { Some(v) => self@.contains_key(*k) && *v == self@[*k], None => !self@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn get_mut(&mut self, k: &K) -> (r: Option<&mut V>)
        ensures match r { Some(v) => old(self)@.contains_key(*k) && *v == old(self)@[*k] && final(self)@ == old(self)@.insert(*k, *final(v)), None => !old(self)@.contains_key(*k) && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body] pub fn remove(&mut self, k: &K) -> (r: Option<V>)
        ensures final(self)@ == old(self)@.remove(*k), match r { Some(v) => old(self)@.contains_key(*k) && v == old(self)@[*k], None => !old(self)@.contains_key(*k) } { unimplemented!() }
    #[verifier::external_body] pub fn len(&self) -> (r: usize) ensures r == self@.dom().len() { unimplemented!() }
    #[verifier::external_body] pub fn is_empty(&self) -> (r: bool) ensures r == (self@.dom().len() == 0) { unimplemented!() }
    #[verifier::external_body] pub fn keys(&self) -> (r: Keys<K, V>) ensures r.dom() == self@.dom(), forall|k: K| #[trigger] self@.contains_key(k) ==> key_ok(k) { unimplemented!() }
}
impl<'a, K, V> Keys<'a, K, V> {
    pub uninterp spec fn dom(&self) -> Set<K>;
    #[verifier::external_body] pub fn fold_raw<B, F: Fn(B, &'a K) -> B>(self, init: B, f: F) -> (r: B)
        requires forall|b: B, k: K| self.dom().contains(k) ==> #[trigger] f.requires((b, &k))
        ensures exists|ks: Seq<K>, st: Seq<B>| #[trigger] folded(ks, st, init, f, r) && ks.to_set() == self.dom()
    { unimplemented!() }
}
#[verifier::opaque]
pub open spec fn folded<'a, K: 'a, B, F: Fn(B, &'a K) -> B>(ks: Seq<K>, st: Seq<B>, init: B, f: F, r: B) -> bool {
    &&& st.len() == ks.len() + 1 && st[0] == init && st.last() == r
    &&& forall|i: int| 0 <= i < ks.len() ==> f.ensures((#[trigger] st[i], &ks[i]), st[i + 1])
}
pub fn max__(a: usize, b: usize) -> (r: usize) ensures r == (if a > b { a } else { b }) { if a > b { a } else { b } }
impl<K, V> FromIterator<(K, V)> for HashMap<K, V> {
    #[verifier::external_body] fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { unimplemented!() }
}
#[verifier::external_body] pub struct InlineElementContainer<'a> { x: &'a str }
pub trait ElementLike {}
impl<'a> Located<Cell<'a>> {
    pub fn is_align(&self) -> (r: bool) ensures r == (self.inner is Align) { matches!(self.inner, Cell::Align(_)) }
    pub fn is_content(&self) -> (r: bool) ensures r == (self.inner is Content) { matches!(self.inner, Cell::Content(_)) }
    pub fn get_align(&self) -> (r: Option<&ColumnAlign>) ensures r == (match self.inner { Cell::Align(x) => Some(&x), _ => None }) { self.inner.get_align() }
    pub fn get_span(&self) -> (r: Option<&CellSpan>) ensures r == (match self.inner { Cell::Span(x) => Some(&x), _ => None }) { self.inner.get_span() }
}
pub open spec fn at(r: int, c: int) -> CellPos { CellPos { row: r as usize, col: c as usize } }
impl<'a> Table<'a> {
    pub open spec fn has(&self, r: int, c: int) -> bool { 0 <= r <= usize::MAX && 0 <= c <= usize::MAX && self.cells@.contains_key(at(r, c)) }
    pub open spec fn cell(&self, r: int, c: int) -> Located<Cell<'a>> { self.cells@[at(r, c)] }
    pub open spec fn aligned(&self, r: int, c: int) -> bool { self.has(r, c) && self.cell(r, c).inner is Align }
    pub open spec fn content(&self, r: int, c: int) -> bool { self.has(r, c) && self.cell(r, c).inner is Content }
    pub open spec fn spans(&self, r: int, c: int, s: CellSpan) -> bool { self.has(r, c) && self.cell(r, c).inner == Cell::<'a>::Span(s) }
    pub open spec fn wf(&self) -> bool {
        &&& self.row_cnt < usize::MAX && self.col_cnt < usize::MAX
        &&& forall|p: CellPos| #[trigger] self.cells@.contains_key(p) ==> p.row < self.row_cnt && p.col < self.col_cnt
    }
    /// the counts are the smallest that hold every cell
    pub open spec fn tight(&self) -> bool {
        top_row(self.cells@.dom(), self.row_cnt as int) && top_col(self.cells@.dom(), self.col_cnt as int)
    }
    pub open spec fn divider(&self, i: int) -> bool { 0 <= i < self.row_cnt && self.aligned(i, 0) }
    /// first divider row, or -1
    pub open spec fn is_div(&self, i: int) -> bool {
        if i < 0 { i == -1 && forall|k: int| !#[trigger] self.divider(k) } else { self.divider(i) && forall|k: int| #![trigger self.divider(k)] #![trigger self.aligned(k, 0)] 0 <= k < i ==> !self.divider(k) }
    }
}
/// c is the first column at or after col with a cell in row (or past the last column)
pub open spec fn first_col(t: Table, row: int, col: int, c: int) -> bool {
    &&& col <= c && (c < t.col_cnt ==> t.has(row, c)) && (forall|k: int| col <= k < c ==> !#[trigger] t.has(row, k))
    &&& c >= t.col_cnt ==> c == col || c == t.col_cnt
}
pub open spec fn first_row(t: Table, row: int, col: int, r: int) -> bool {
    &&& row <= r && (r < t.row_cnt ==> t.has(r, col)) && (forall|k: int| row <= k < r ==> !#[trigger] t.has(k, col))
    &&& r >= t.row_cnt ==> r == row || r == t.row_cnt
}
/// a content cell in row at or after col (in col at or below row)
pub open spec fn filled_row(t: Table, row: int, col: int) -> bool { exists|c: int| #![trigger t.has(row, c)] col <= c && t.content(row, c) }
pub open spec fn filled_col(t: Table, row: int, col: int) -> bool { exists|r: int| #![trigger t.has(r, col)] row <= r && t.content(r, col) }
/// (r, c) comes before (r2, c2) when reading row by row
pub open spec fn before(r: int, c: int, r2: int, c2: int) -> bool { r < r2 || (r == r2 && c < c2) }
/// p is the position of the first cell not before (row, col) (or past the last row and column)
pub open spec fn first_cell(t: Table, row: int, col: int, p: CellPos) -> bool {
    &&& forall|r: int, c: int| #[trigger] t.has(r, c) && !before(r, c, row, col) ==> !before(r, c, p.row as int, p.col as int)
    &&& p.row < t.row_cnt ==> t.has(p.row as int, p.col as int) && !before(p.row as int, p.col as int, row, col)
    &&& p.row >= t.row_cnt ==> p == at(t.row_cnt as int, t.col_cnt as int)
}
/// there is one such position
pub broadcast proof fn one_first(t: Table, row: int, col: int, p: CellPos, q: CellPos)
    requires #[trigger] first_cell(t, row, col, p), #[trigger] first_cell(t, row, col, q)
    ensures p == q
{
    if p.row < t.row_cnt { assert(t.has(p.row as int, p.col as int)); }
    if q.row < t.row_cnt { assert(t.has(q.row as int, q.col as int)); }
}
impl<'a, 'b> Row<'a, 'b> {
    pub fn any<F: Fn(&'a Located<Cell<'b>>) -> bool>(&mut self, f: F) -> (ret: bool)
        requires old(self).table.wf(), forall|x: &'a Located<Cell<'b>>| #[trigger] f.requires((x,))
        ensures ret ==> exists|c: int| c >= old(self).col && #[trigger] old(self).table.has(old(self).row as int, c) && f.ensures((&old(self).table.cell(old(self).row as int, c),), true),
            !ret ==> forall|c: int| c >= old(self).col && #[trigger] old(self).table.has(old(self).row as int, c) ==> f.ensures((&old(self).table.cell(old(self).row as int, c),), false),
    {
        let ghost t = self.table;
        loop
            invariant t.wf(), self.table == t, t == old(self).table, self.row == old(self).row, self.col >= old(self).col, forall|x: &'a Located<Cell<'b>>| #[trigger] f.requires((x,)),
                forall|c: int| old(self).col <= c < self.col && #[trigger] t.has(old(self).row as int, c) ==> f.ensures((&t.cell(old(self).row as int, c),), false),
            decreases t.col_cnt - self.col, 
        {
            match self.next() { Some(x) => { if f(x) { return true; } } None => { return false; } }
        }
    }
}
impl<'a, 'b> Column<'a, 'b> {
    pub fn any<F: Fn(&'a Located<Cell<'b>>) -> bool>(&mut self, f: F) -> (ret: bool)
        requires old(self).table.wf(), forall|x: &'a Located<Cell<'b>>| #[trigger] f.requires((x,))
        ensures ret ==> exists|c: int| c >= old(self).row && #[trigger] old(self).table.has(c, old(self).col as int) && f.ensures((&old(self).table.cell(c, old(self).col as int),), true),
            !ret ==> forall|c: int| c >= old(self).row && #[trigger] old(self).table.has(c, old(self).col as int) ==> f.ensures((&old(self).table.cell(c, old(self).col as int),), false),
    {
        let ghost t = self.table;
        loop
            invariant t.wf(), self.table == t, t == old(self).table, self.col == old(self).col, self.row >= old(self).row, forall|x: &'a Located<Cell<'b>>| #[trigger] f.requires((x,)),
                forall|c: int| old(self).row <= c < self.row && #[trigger] t.has(c, old(self).col as int) ==> f.ensures((&t.cell(c, old(self).col as int),), false),
            decreases t.row_cnt - self.row, 
        {
            match self.next() { Some(x) => { if f(x) { return true; } } None => { return false; } }
        }
    }
    pub fn find_map<B, F: Fn(&'a Located<Cell<'b>>) -> Option<B>>(self, f: F) -> (ret: Option<B>)
        requires self.table.wf(), forall|x: &'a Located<Cell<'b>>| #[trigger] f.requires((x,))
        ensures match ret {
            Some(b) => exists|c: int| c >= self.row && #[trigger] self.table.has(c, self.col as int) && f.ensures((&self.table.cell(c, self.col as int),), Some(b))
                && forall|k: int| self.row <= k < c && #[trigger] self.table.has(k, self.col as int) ==> f.ensures((&self.table.cell(k, self.col as int),), None),
            None => forall|c: int| c >= self.row && #[trigger] self.table.has(c, self.col as int) ==> f.ensures((&self.table.cell(c, self.col as int),), None),
        }
    {
        let mut s = self;
        let ghost t = self.table;
        loop
            invariant t.wf(), s.table == t, t == self.table, s.col == self.col, s.row >= self.row, forall|x: &'a Located<Cell<'b>>| #[trigger] f.requires((x,)),
                forall|c: int| self.row <= c < s.row && #[trigger] t.has(c, self.col as int) ==> f.ensures((&t.cell(c, self.col as int),), None),
            decreases t.row_cnt - s.row, 
        {
            match s.next() { Some(x) => { let r = f(x); if r.is_some() { return r; } } None => { return None; } }
        }
    }
}
impl<'a, 'b> Cells<'a, 'b> {
    pub fn any<F: Fn(&'a Located<Cell<'b>>) -> bool>(&mut self, f: F) -> (ret: bool)
        requires old(self).wf(), forall|x: &'a Located<Cell<'b>>| #[trigger] f.requires((x,))
        ensures ret ==> exists|r: int, c: int| !before(r, c, old(self).row as int, old(self).col as int) && #[trigger] old(self).table.has(r, c) && f.ensures((&old(self).table.cell(r, c),), true),
            !ret ==> forall|r: int, c: int| !before(r, c, old(self).row as int, old(self).col as int) && #[trigger] old(self).table.has(r, c) ==> f.ensures((&old(self).table.cell(r, c),), false),
    {
        let ghost t = self.table;
        loop
            invariant self.wf(), self.table == t, t == old(self).table, !before(self.row as int, self.col as int, old(self).row as int, old(self).col as int), forall|x: &'a Located<Cell<'b>>| #[trigger] f.requires((x,)),
                forall|r: int, c: int| !before(r, c, old(self).row as int, old(self).col as int) && before(r, c, self.row as int, self.col as int) && #[trigger] t.has(r, c) ==> f.ensures((&t.cell(r, c),), false),
            decreases t.row_cnt - self.row, t.col_cnt - self.col, 
        {
            match self.next() { Some(x) => { if f(x) { return true; } } None => { return false; } }
        }
    }
    pub open spec fn wf(&self) -> bool { self.table.wf() && self.row <= self.table.row_cnt && self.col <= self.table.col_cnt }
}
impl<'a, 'b> Rows<'a, 'b> {
    pub fn any<F: Fn(Row<'a, 'b>) -> bool>(&mut self, f: F) -> (ret: bool)
        requires old(self).table.wf(), forall|x: Row<'a, 'b>| x.table == old(self).table ==> #[trigger] f.requires((x,))
        ensures ret ==> exists|i: int| old(self).idx <= i < old(self).table.row_cnt && #[trigger] f.ensures((Row { table: old(self).table, row: i as usize, col: 0 },), true) && (i as usize) as int == i,
            !ret ==> forall|i: int, c: int| #![trigger old(self).table.has(i, c)] old(self).idx <= i < old(self).table.row_cnt ==> f.ensures((Row { table: old(self).table, row: i as usize, col: 0 },), false) && (i as usize) as int == i,
    {
        let ghost t = self.table;
        loop
            invariant t.wf(), self.table == t, t == old(self).table, self.idx >= old(self).idx, forall|x: Row<'a, 'b>| x.table == t ==> #[trigger] f.requires((x,)),
                forall|i: int| old(self).idx <= i < self.idx ==> #[trigger] f.ensures((Row { table: t, row: i as usize, col: 0 },), false),
            decreases t.row_cnt - self.idx, 
        {
            let ghost i0 = self.idx as int;
            match self.next() { Some(x) => { if f(x) { assert(f.ensures((Row { table: t, row: i0 as usize, col: 0 },), true)); return true; } } None => { return false; } }
        }
    }
    pub fn enumerate(self) -> (r: RowsEnum<'a, 'b>) ensures r.it == self, r.n == 0 { RowsEnum { it: self, n: 0 } }
}
impl<'a, 'b> Columns<'a, 'b> {
    pub fn any<F: Fn(Column<'a, 'b>) -> bool>(&mut self, f: F) -> (ret: bool)
        requires old(self).table.wf(), forall|x: Column<'a, 'b>| x.table == old(self).table ==> #[trigger] f.requires((x,))
        ensures ret ==> exists|i: int| old(self).idx <= i < old(self).table.col_cnt && #[trigger] f.ensures((Column { table: old(self).table, row: 0, col: i as usize },), true) && (i as usize) as int == i,
            !ret ==> forall|i: int, c: int| #![trigger old(self).table.has(c, i)] old(self).idx <= i < old(self).table.col_cnt ==> f.ensures((Column { table: old(self).table, row: 0, col: i as usize },), false) && (i as usize) as int == i,
    {
        let ghost t = self.table;
        loop
            invariant t.wf(), self.table == t, t == old(self).table, self.idx >= old(self).idx, forall|x: Column<'a, 'b>| x.table == t ==> #[trigger] f.requires((x,)),
                forall|i: int| old(self).idx <= i < self.idx ==> #[trigger] f.ensures((Column { table: t, row: 0, col: i as usize },), false),
            decreases t.col_cnt - self.idx, 
        {
            let ghost i0 = self.idx as int;
            match self.next() { Some(x) => { if f(x) { assert(f.ensures((Column { table: t, row: 0, col: i0 as usize },), true)); return true; } } None => { return false; } }
        }
    }
}
/// std's Enumerate over Rows
pub struct RowsEnum<'a, 'b> { pub it: Rows<'a, 'b>, pub n: usize }
impl<'a, 'b> RowsEnum<'a, 'b> {
    pub open spec fn gives<B, F: Fn((usize, Row<'a, 'b>)) -> Option<B>>(&self, f: F, i: int, b: Option<B>) -> bool { f.ensures(((i as usize, Row { table: self.it.table, row: i as usize, col: 0 }),), b) }
    pub open spec fn found<B, F: Fn((usize, Row<'a, 'b>)) -> Option<B>>(&self, f: F, i: int, b: Option<B>) -> bool {
        0 <= i < self.it.table.row_cnt && self.gives(f, i, b) && forall|k: int| #![trigger self.it.table.divider(k)] 0 <= k < i ==> self.gives(f, k, None)
    }
    pub fn find_map<B, F: Fn((usize, Row<'a, 'b>)) -> Option<B>>(self, f: F) -> (ret: Option<B>)
        requires self.it.table.wf(), self.it.idx == 0, self.n == 0, forall|n: usize, x: Row<'a, 'b>| #[trigger] f.requires(((n, x),))
        ensures match ret {
            Some(b) => exists|i: int| #[trigger] self.found(f, i, ret),
            None => forall|i: int| #![trigger self.it.table.divider(i)] 0 <= i < self.it.table.row_cnt ==> self.gives(f, i, None),
        }
    {
        let mut s = self.it; let mut n = self.n;
        let ghost t = self.it.table;
        loop
            invariant t.wf(), s.table == t, t == self.it.table, n == s.idx, n <= t.row_cnt, forall|n: usize, x: Row<'a, 'b>| #[trigger] f.requires(((n, x),)),
                forall|k: int| 0 <= k < n ==> #[trigger] self.gives(f, k, None),
            decreases t.row_cnt - s.idx, 
        {
            match s.next() { Some(x) => { let r = f((n, x)); assert(self.gives(f, n as int, r)); if r.is_some() { assert(self.found(f, n as int, r)); return r; } n = n + 1; } None => { return None; } }
        }
    }
}
/// one step of the fold over all positions: the counts grow to hold the position
pub open spec fn step_ok<'a, F: Fn((usize, usize), &'a CellPos) -> (usize, usize)>(f: F) -> bool {
    forall|a: (usize, usize), k: CellPos, r: (usize, usize)| #[trigger] f.ensures((a, &k), r) ==> r.0 == (if a.0 > k.row { a.0 as int } else { k.row + 1 }) && r.1 == (if a.1 > k.col { a.1 as int } else { k.col + 1 })
}
pub proof fn fold_n<'a, F: Fn((usize, usize), &'a CellPos) -> (usize, usize)>(ks: Seq<CellPos>, st: Seq<(usize, usize)>, f: F, r: (usize, usize), n: int)
    requires folded(ks, st, (0, 0), f, r), step_ok(f), 0 <= n <= ks.len()
    ensures forall|i: int| 0 <= i < n ==> (#[trigger] ks[i]).row < st[n].0 && ks[i].col < st[n].1,
        st[n].0 > 0 ==> exists|i: int| 0 <= i < n && (#[trigger] ks[i]).row + 1 == st[n].0, st[n].1 > 0 ==> exists|i: int| 0 <= i < n && (#[trigger] ks[i]).col + 1 == st[n].1,
    decreases n
{
    reveal(folded);
    if n > 0 {
        fold_n(ks, st, f, r, n - 1);
        assert(f.ensures((st[n - 1], &ks[n - 1]), st[n - 1 + 1]));
        assert(ks[n - 1] == ks[n - 1]);
    }
}
pub open spec fn top_row(d: Set<CellPos>, n: int) -> bool { n > 0 ==> exists|p: CellPos| #[trigger] d.contains(p) && p.row + 1 == n }
pub open spec fn top_col(d: Set<CellPos>, n: int) -> bool { n > 0 ==> exists|p: CellPos| #[trigger] d.contains(p) && p.col + 1 == n }
impl<'a, V> Keys<'a, CellPos, V> {
    /// the fold of std, with what it means for a pair of counts that grow to hold each position
    pub fn fold<F: Fn((usize, usize), &'a CellPos) -> (usize, usize)>(self, init: (usize, usize), f: F) -> (r: (usize, usize))
        requires forall|b: (usize, usize), k: CellPos| self.dom().contains(k) ==> #[trigger] f.requires((b, &k))
        ensures step_ok(f) && init.0 == 0 && init.1 == 0 ==> (forall|p: CellPos| #[trigger] self.dom().contains(p) ==> p.row < r.0 && p.col < r.1)
            && top_row(self.dom(), r.0 as int) && top_col(self.dom(), r.1 as int)
    {
        let ghost d = self.dom();
        let r = self.fold_raw(init, f);
        proof {
            if step_ok(f) && init.0 == 0 && init.1 == 0 {
                let (ks, st) = choose|ks: Seq<CellPos>, st: Seq<(usize, usize)>| #[trigger] folded(ks, st, init, f, r) && ks.to_set() == d;
                assert(init == (0usize, 0usize));
                fold_n(ks, st, f, r, ks.len() as int);
                reveal(folded);
                assert forall|i: int| 0 <= i < ks.len() implies ks.to_set().contains(#[trigger] ks[i]) by {}
            }
        }
        r
    }
}
mod tax {
    use super::*;
    verus! {
    pub broadcast axiom fn ax_key_ok(p: CellPos) ensures #[trigger] key_ok::<CellPos>(p) ==> p.row < usize::MAX - 1 && p.col < usize::MAX - 1; }
}
@endraw
@fnhead broadcast use {tax::ax_key_ok};
@source vimwiki-core/src/lang/elements/utils/region.rs
@type Region copy eq
@source vimwiki-core/src/lang/elements/utils/mod.rs
@type Located ctor
@source vimwiki-core/src/lang/elements/blocks/tables.rs
@type CellPos ctor copy eq
@type CellSpan copy eq
@type ColumnAlign copy eq
@fn ColumnAlign<Default>::default
    ensures ret == ColumnAlign::None,
@@stub
    ensures ret == ColumnAlign::None,
@type Cell
@type Table
@type Rows
@type HeaderRows
@type BodyRows
@type Row ctor
@type IntoRow ctor
@type Columns
@type Column ctor
@type IntoColumn ctor
@type Cells
@type IntoCells
@fn Cell::get_span
    ensures ret == (match *self { Cell::Span(x) => Some(&x), _ => None }),
@fn Cell::get_align
    ensures ret == (match *self { Cell::Align(x) => Some(&x), _ => None }),
@fn Table::row_cnt
    ensures ret == self.row_cnt,
@fn Table::col_cnt
    ensures ret == self.col_cnt,
@fn Table::len
    ensures ret == self.cells@.dom().len(),
@fn Table::is_empty
    ensures ret == (self.cells@.dom().len() == 0),
@fn Table::get_cell
    ensures match ret { Some(x) => self.has(row as int, col as int) && *x == self.cell(row as int, col as int), None => !self.has(row as int, col as int) },
@fn Table::next_cell_pos
    requires self.wf(), row <= self.row_cnt, col <= self.col_cnt,
    ensures first_cell(*self, row as int, col as int, ret),
@@loops 1
@@loop 0
    invariant self.wf(), pos.col <= self.col_cnt, !before(pos.row as int, pos.col as int, row as int, col as int),
        forall|r: int, c: int| #[trigger] self.has(r, c) && !before(r, c, row as int, col as int) ==> !before(r, c, pos.row as int, pos.col as int),
    decreases self.row_cnt - pos.row, self.col_cnt - pos.col,
@fn Table::next_row_with_cell
    requires self.wf(),
    ensures first_row(*self, row as int, col as int, ret as int),
@@head
    let ghost row0 = row as int;
@@loops 1
@@loop 0
    invariant self.wf(), row0 <= row, row <= self.row_cnt || row == row0, forall|k: int| row0 <= k < row ==> !#[trigger] self.has(k, col as int),
    decreases self.row_cnt - row,
@fn Table::next_col_with_cell
    requires self.wf(),
    ensures first_col(*self, row as int, col as int, ret as int),
@@head
    let ghost col0 = col as int;
@@loops 1
@@loop 0
    invariant self.wf(), col0 <= col, col <= self.col_cnt || col == col0, forall|k: int| col0 <= k < col ==> !#[trigger] self.has(row as int, k),
    decreases self.col_cnt - col,
@fn Table::get_mut_cell
    ensures match ret { Some(x) => old(self).has(row as int, col as int) && *x == old(self).cell(row as int, col as int) && final(self).cells@ == old(self).cells@.insert(at(row as int, col as int), *final(x)), None => !old(self).has(row as int, col as int) && final(self).cells@ == old(self).cells@ },
        final(self).row_cnt == old(self).row_cnt, final(self).col_cnt == old(self).col_cnt, final(self).centered == old(self).centered,
@fn Table::get_cell_rowspan
    requires self.wf(),
    ensures !self.content(row as int, col as int) ==> ret == 0,
        self.content(row as int, col as int) ==> ret >= 1 && (forall|k: int| row < k < row + ret ==> #[trigger] self.spans(k, col as int, CellSpan::FromAbove)) && !self.spans(row + ret, col as int, CellSpan::FromAbove),
@@closure 0
 ensures r__ == (match cell.inner { Cell::Span(x) => Some(x), _ => None })
@@loops 1
@@loop 0
    invariant self.wf(), self.content(row as int, col as int), 1 <= span, row + span <= self.row_cnt, forall|k: int| row < k < row + span ==> #[trigger] self.spans(k, col as int, CellSpan::FromAbove),
    decreases self.row_cnt - (row + span),
@fn Table::get_cell_colspan
    requires self.wf(),
    ensures !self.content(row as int, col as int) ==> ret == 0,
        self.content(row as int, col as int) ==> ret >= 1 && (forall|k: int| col < k < col + ret ==> #[trigger] self.spans(row as int, k, CellSpan::FromLeft)) && !self.spans(row as int, col + ret, CellSpan::FromLeft),
@@closure 0
 ensures r__ == (match cell.inner { Cell::Span(x) => Some(x), _ => None })
@@loops 1
@@loop 0
    invariant self.wf(), self.content(row as int, col as int), 1 <= span, col + span <= self.col_cnt, forall|k: int| col < k < col + span ==> #[trigger] self.spans(row as int, k, CellSpan::FromLeft),
    decreases self.col_cnt - (col + span),
@fn Table::rows
    ensures *ret.table == *self, ret.idx == 0,
@fn Table::row
    ensures *ret.table == *self, ret.row == idx, ret.col == 0,
@fn Table::columns
    ensures *ret.table == *self, ret.idx == 0,
@fn Table::column
    ensures *ret.table == *self, ret.col == idx, ret.row == 0,
@fn Table::cells
    ensures *ret.table == *self, ret.row == 0, ret.col == 0,
@fn Table::into_row
    ensures ret.table == self, ret.row == idx, ret.col == 0,
@fn Table::into_column
    ensures ret.table == self, ret.col == idx, ret.row == 0,
@fn Table::into_cells
    ensures ret.table == self, ret.row == 0, ret.col == 0,
@fn Table::get_divider_row_index
    requires self.wf(),
    ensures self.is_div(match ret { Some(i) => i as int, None => -1 }),
@@closure 0
 ensures r__ == (if p__0.1.table.aligned(p__0.1.row as int, 0) { Some(p__0.0) } else { None })
@fn Table::has_divider_row
    requires self.wf(),
    ensures ret == exists|k: int| #[trigger] self.divider(k),
@fn Table::get_column_alignment
    requires self.wf(),
    ensures (forall|r: int| #![trigger self.has(r, col as int)] !self.aligned(r, col as int)) ==> ret == ColumnAlign::None,
        (exists|r: int| #[trigger] self.aligned(r, col as int)) ==> exists|r: int| #![trigger self.has(r, col as int)] self.aligned(r, col as int) && self.cell(r, col as int).inner == Cell::<'a>::Align(ret) && forall|k: int| 0 <= k < r ==> !#[trigger] self.aligned(k, col as int),
@@closure 0
 ensures r__ == (match cell.inner { Cell::Align(x) => Some(x), _ => None })
@fn Table::header_rows
    requires self.wf(),
    ensures *ret.table == *self, ret.idx == 0, ret.len > 0 ==> self.is_div(ret.len as int), ret.len == 0 ==> self.is_div(0) || self.is_div(-1),
@fn Table::body_rows
    requires self.wf(),
    ensures *ret.table == *self, self.is_div(ret.idx - 1),
@fn Table::has_header_rows
    requires self.wf(),
    ensures ret == (exists|k: int| k > 0 && self.is_div(k)),
@@head
    proof { assert forall|a: int, b: int| #[trigger] self.is_div(a) && #[trigger] self.is_div(b) implies a == b by {} }
@fn Table::has_body_rows
    requires self.wf(),
    ensures ret == exists|d: int, k: int| #[trigger] self.is_div(d) && d < k < self.row_cnt && !#[trigger] self.aligned(k, 0),
@@head
    proof { assert forall|a: int, b: int| #[trigger] self.is_div(a) && #[trigger] self.is_div(b) implies a == b by {} }
@fn Rows::new
    ensures ret.table == table, ret.idx == 0,
@fn Rows::empty
    ensures ret.table == table, ret.idx == table.row_cnt,
@fn Rows::has_content
    requires self.table.wf(),
    ensures ret == exists|r: int, c: int| #![trigger self.table.has(r, c)] self.idx <= r && self.table.content(r, c),
@@closure 0
 requires row.table.wf() ensures r__ == filled_row(*row.table, row.row as int, row.col as int)
@fn Rows<Iterator>::next inherent
@@ret Option<Row<'a, 'b>>
    ensures final(self).table == old(self).table, match ret {
        Some(x) => old(self).idx < old(self).table.row_cnt && final(self).idx == old(self).idx + 1 && x == (Row { table: old(self).table, row: old(self).idx, col: 0 }),
        None => old(self).idx >= old(self).table.row_cnt && final(self).idx == old(self).idx },
@fn Columns::new
    ensures ret.table == table, ret.idx == 0,
@fn Columns::empty
    ensures ret.table == table, ret.idx == table.col_cnt,
@fn Columns::has_content
    requires self.table.wf(),
    ensures ret == exists|r: int, c: int| #![trigger self.table.has(r, c)] self.idx <= c && self.table.content(r, c),
@@closure 0
 requires column.table.wf() ensures r__ == filled_col(*column.table, column.row as int, column.col as int)
@fn Columns<Iterator>::next inherent
@@ret Option<Column<'a, 'b>>
    ensures final(self).table == old(self).table, match ret {
        Some(x) => old(self).idx < old(self).table.col_cnt && final(self).idx == old(self).idx + 1 && x == (Column { table: old(self).table, col: old(self).idx, row: 0 }),
        None => old(self).idx >= old(self).table.col_cnt && final(self).idx == old(self).idx },
@fn HeaderRows::new
    requires table.wf(),
    ensures ret.table == table, ret.idx == 0, ret.len > 0 ==> table.is_div(ret.len as int), ret.len == 0 ==> table.is_div(0) || table.is_div(-1),
@fn HeaderRows<Iterator>::next inherent
@@ret Option<Row<'a, 'b>>
    ensures final(self).table == old(self).table, final(self).len == old(self).len, match ret {
        Some(x) => old(self).idx <= x.row < old(self).len && x.table == old(self).table && x.col == 0 && !x.table.aligned(x.row as int, 0) && final(self).idx == x.row + 1
            && forall|k: int| old(self).idx <= k < x.row ==> #[trigger] old(self).table.aligned(k, 0),
        None => final(self).idx >= old(self).len && (old(self).idx < old(self).len ==> old(self).table.aligned(old(self).idx as int, 0)) && forall|k: int| old(self).idx <= k < old(self).len ==> #[trigger] old(self).table.aligned(k, 0) },
@@loops 1
@@loop 0
    invariant self.table == old(self).table, self.len == old(self).len, old(self).idx <= self.idx, forall|k: int| old(self).idx <= k < self.idx ==> #[trigger] self.table.aligned(k, 0),
    decreases self.len - self.idx,
@fn BodyRows::new
    requires table.wf(),
    ensures ret.table == table, table.is_div(ret.idx - 1),
@@closure 0
 requires x < usize::MAX ensures r__ == x + 1
@fn BodyRows<Iterator>::next inherent
@@ret Option<Row<'a, 'b>>
    ensures final(self).table == old(self).table, match ret {
        Some(x) => old(self).idx <= x.row < old(self).table.row_cnt && x.table == old(self).table && x.col == 0 && !x.table.aligned(x.row as int, 0) && final(self).idx == x.row + 1
            && forall|k: int| old(self).idx <= k < x.row ==> #[trigger] old(self).table.aligned(k, 0),
        None => final(self).idx >= old(self).table.row_cnt && forall|k: int| old(self).idx <= k < old(self).table.row_cnt ==> #[trigger] old(self).table.aligned(k, 0) },
@@loops 1
@@loop 0
    invariant self.table == old(self).table, old(self).idx <= self.idx, forall|k: int| old(self).idx <= k < self.idx ==> #[trigger] self.table.aligned(k, 0),
    decreases self.table.row_cnt - self.idx,
@fn Row::is_divider_row
    ensures ret == self.table.aligned(self.row as int, 0),
@@closure 0
 ensures r__ == (cell.inner is Align)
@fn Row::has_content
    requires self.table.wf(),
    ensures ret == filled_row(*self.table, self.row as int, self.col as int),
@@closure 0
 ensures r__ == (cell.inner is Content)
@fn Row<Iterator>::next inherent
@@ret Option<&'a Located<Cell<'b>>>
    requires old(self).table.wf(),
    ensures final(self).table == old(self).table, final(self).row == old(self).row, match ret {
        Some(x) => first_col(*old(self).table, old(self).row as int, old(self).col as int, final(self).col - 1) && old(self).table.has(old(self).row as int, final(self).col - 1) && *x == old(self).table.cell(old(self).row as int, final(self).col - 1),
        None => final(self).col == old(self).col && forall|c: int| old(self).col <= c ==> !#[trigger] old(self).table.has(old(self).row as int, c) },
@fn Row<CellIter<&Located<Cell>>>::row inherent
    ensures ret == self.row,
@fn Row<CellIter<&Located<Cell>>>::col inherent
    requires self.table.wf(),
    ensures first_col(*self.table, self.row as int, self.col as int, ret as int),
@fn Row<CellIter<&Located<Cell>>>::next_with_pos inherent
@@sig T = &'a Located<Cell<'b>>
@@ret Option<(CellPos, &'a Located<Cell<'b>>)>
    requires old(self).table.wf(),
    ensures final(self).table == old(self).table, final(self).row == old(self).row, match ret {
        Some(x) => first_col(*old(self).table, old(self).row as int, old(self).col as int, final(self).col - 1) && old(self).table.has(old(self).row as int, final(self).col - 1) && x.0 == at(old(self).row as int, final(self).col - 1) && *x.1 == old(self).table.cell(old(self).row as int, final(self).col - 1),
        None => final(self).col == old(self).col && forall|c: int| old(self).col <= c ==> !#[trigger] old(self).table.has(old(self).row as int, c) },
@@closure 0
 ensures r__ == (pos, x)
@fn IntoRow::is_divider_row
    ensures ret == self.table.aligned(self.row as int, 0),
@@closure 0
 ensures r__ == (cell.inner is Align)
@fn IntoRow::has_content
    requires self.table.wf(),
    ensures ret == filled_row(self.table, self.row as int, self.col as int),
@fn IntoRow<Iterator>::next inherent
@@ret Option<Located<Cell<'a>>>
    requires old(self).table.wf(),
    ensures final(self).table.wf(), final(self).row == old(self).row, match ret {
        Some(x) => first_col(old(self).table, old(self).row as int, old(self).col as int, final(self).col - 1) && old(self).table.has(old(self).row as int, final(self).col - 1) && x == old(self).table.cell(old(self).row as int, final(self).col - 1)
            && final(self).table.cells@ == old(self).table.cells@.remove(at(old(self).row as int, final(self).col - 1)),
        None => final(self).col == old(self).col && forall|c: int| old(self).col <= c ==> !#[trigger] old(self).table.has(old(self).row as int, c) },
@fn IntoRow<CellIter<Located<Cell>>>::row inherent
    ensures ret == self.row,
@fn IntoRow<CellIter<Located<Cell>>>::col inherent
    requires self.table.wf(),
    ensures first_col(self.table, self.row as int, self.col as int, ret as int),
@fn IntoRow<CellIter<Located<Cell>>>::next_with_pos inherent
@@sig T = Located<Cell<'a>>
@@ret Option<(CellPos, Located<Cell<'a>>)>
    requires old(self).table.wf(),
    ensures final(self).table.wf(), final(self).row == old(self).row, match ret {
        Some(x) => first_col(old(self).table, old(self).row as int, old(self).col as int, final(self).col - 1) && old(self).table.has(old(self).row as int, final(self).col - 1) && x.0 == at(old(self).row as int, final(self).col - 1) && x.1 == old(self).table.cell(old(self).row as int, final(self).col - 1) && final(self).table.cells@ == old(self).table.cells@.remove(at(old(self).row as int, final(self).col - 1)),
        None => final(self).col == old(self).col && forall|c: int| old(self).col <= c ==> !#[trigger] old(self).table.has(old(self).row as int, c) },
@@closure 0
 ensures r__ == (pos, x)
@fn Row<From<&IntoRow>>::from
    ensures *ret.table == it.table, ret.row == it.row, ret.col == it.col,
@@stub
@@impl
    open spec fn from_ens(it: &'a IntoRow<'b>, ret: Self) -> bool { *ret.table == it.table && ret.row == it.row && ret.col == it.col }
@fn Column::has_content
    requires self.table.wf(),
    ensures ret == filled_col(*self.table, self.row as int, self.col as int),
@@closure 0
 ensures r__ == (cell.inner is Content)
@fn Column<Iterator>::next inherent
@@ret Option<&'a Located<Cell<'b>>>
    requires old(self).table.wf(),
    ensures final(self).table == old(self).table, final(self).col == old(self).col, match ret {
        Some(x) => first_row(*old(self).table, old(self).row as int, old(self).col as int, final(self).row - 1) && old(self).table.has(final(self).row - 1, old(self).col as int) && *x == old(self).table.cell(final(self).row - 1, old(self).col as int),
        None => final(self).row == old(self).row && forall|c: int| old(self).row <= c ==> !#[trigger] old(self).table.has(c, old(self).col as int) },
@fn Column<CellIter<&Located<Cell>>>::row inherent
    requires self.table.wf(),
    ensures first_row(*self.table, self.row as int, self.col as int, ret as int),
@fn Column<CellIter<&Located<Cell>>>::col inherent
    ensures ret == self.col,
@fn Column<CellIter<&Located<Cell>>>::next_with_pos inherent
@@sig T = &'a Located<Cell<'b>>
@@ret Option<(CellPos, &'a Located<Cell<'b>>)>
    requires old(self).table.wf(),
    ensures final(self).table == old(self).table, final(self).col == old(self).col, match ret {
        Some(x) => first_row(*old(self).table, old(self).row as int, old(self).col as int, final(self).row - 1) && old(self).table.has(final(self).row - 1, old(self).col as int) && x.0 == at(final(self).row - 1, old(self).col as int) && *x.1 == old(self).table.cell(final(self).row - 1, old(self).col as int),
        None => final(self).row == old(self).row && forall|c: int| old(self).row <= c ==> !#[trigger] old(self).table.has(c, old(self).col as int) },
@@closure 0
 ensures r__ == (pos, x)
@fn IntoColumn::has_content
    requires self.table.wf(),
    ensures ret == filled_col(self.table, self.row as int, self.col as int),
@fn IntoColumn<Iterator>::next inherent
@@ret Option<Located<Cell<'a>>>
    requires old(self).table.wf(),
    ensures final(self).table.wf(), final(self).col == old(self).col, match ret {
        Some(x) => first_row(old(self).table, old(self).row as int, old(self).col as int, final(self).row - 1) && old(self).table.has(final(self).row - 1, old(self).col as int) && x == old(self).table.cell(final(self).row - 1, old(self).col as int)
            && final(self).table.cells@ == old(self).table.cells@.remove(at(final(self).row - 1, old(self).col as int)),
        None => final(self).row == old(self).row && forall|c: int| old(self).row <= c ==> !#[trigger] old(self).table.has(c, old(self).col as int) },
@fn IntoColumn<CellIter<Located<Cell>>>::row inherent
    requires self.table.wf(),
    ensures first_row(self.table, self.row as int, self.col as int, ret as int),
@fn IntoColumn<CellIter<Located<Cell>>>::col inherent
    ensures ret == self.col,
@fn IntoColumn<CellIter<Located<Cell>>>::next_with_pos inherent
@@sig T = Located<Cell<'a>>
@@ret Option<(CellPos, Located<Cell<'a>>)>
    requires old(self).table.wf(),
    ensures final(self).table.wf(), final(self).col == old(self).col, match ret {
        Some(x) => first_row(old(self).table, old(self).row as int, old(self).col as int, final(self).row - 1) && old(self).table.has(final(self).row - 1, old(self).col as int) && x.0 == at(final(self).row - 1, old(self).col as int) && x.1 == old(self).table.cell(final(self).row - 1, old(self).col as int) && final(self).table.cells@ == old(self).table.cells@.remove(at(final(self).row - 1, old(self).col as int)),
        None => final(self).row == old(self).row && forall|c: int| old(self).row <= c ==> !#[trigger] old(self).table.has(c, old(self).col as int) },
@@closure 0
 ensures r__ == (pos, x)
@fn Column<From<&IntoColumn>>::from
    ensures *ret.table == it.table, ret.row == it.row, ret.col == it.col,
@@stub
@@impl
    open spec fn from_ens(it: &'a IntoColumn<'b>, ret: Self) -> bool { *ret.table == it.table && ret.row == it.row && ret.col == it.col }
@fn Cells::new
    ensures ret.table == table, ret.row == 0, ret.col == 0,
@fn Cells::has_content
    requires self.wf(),
    ensures ret == exists|r: int, c: int| #![trigger self.table.has(r, c)] !before(r, c, self.row as int, self.col as int) && self.table.content(r, c),
@@closure 0
 ensures r__ == (cell.inner is Content)
@fn Cells<Iterator>::next inherent
@@ret Option<&'a Located<Cell<'b>>>
    requires old(self).wf(),
    ensures final(self).wf(), final(self).table == old(self).table, match ret {
        Some(x) => exists|r: int, c: int| #[trigger] old(self).table.has(r, c) && first_cell(*old(self).table, old(self).row as int, old(self).col as int, at(r, c)) && *x == old(self).table.cell(r, c) && before(r, c, final(self).row as int, final(self).col as int)
            && forall|r2: int, c2: int| #[trigger] old(self).table.has(r2, c2) && before(r, c, r2, c2) ==> !before(r2, c2, final(self).row as int, final(self).col as int),
        None => forall|r2: int, c2: int| #[trigger] old(self).table.has(r2, c2) ==> before(r2, c2, old(self).row as int, old(self).col as int) && before(r2, c2, final(self).row as int, final(self).col as int) },
@fn Cells<CellIter<&Located<Cell>>>::row inherent
    requires self.wf(),
    ensures exists|c: usize| first_cell(*self.table, self.row as int, self.col as int, CellPos { row: ret, col: c }),
@fn Cells<CellIter<&Located<Cell>>>::col inherent
    requires self.wf(),
    ensures exists|r: usize| first_cell(*self.table, self.row as int, self.col as int, CellPos { row: r, col: ret }),
@fn Cells<CellIter<&Located<Cell>>>::next_with_pos inherent
@@sig T = &'a Located<Cell<'b>>
@@ret Option<(CellPos, &'a Located<Cell<'b>>)>
    requires old(self).wf(),
    ensures final(self).wf(), final(self).table == old(self).table, match ret {
        Some(x) => exists|r: int, c: int| #[trigger] old(self).table.has(r, c) && first_cell(*old(self).table, old(self).row as int, old(self).col as int, at(r, c)) && x.0 == at(r, c) && *x.1 == old(self).table.cell(r, c) && before(r, c, final(self).row as int, final(self).col as int)
            && forall|r2: int, c2: int| #[trigger] old(self).table.has(r2, c2) && before(r, c, r2, c2) ==> !before(r2, c2, final(self).row as int, final(self).col as int),
        None => forall|r2: int, c2: int| #[trigger] old(self).table.has(r2, c2) ==> before(r2, c2, old(self).row as int, old(self).col as int) && before(r2, c2, final(self).row as int, final(self).col as int) },
@@closure 0
 ensures r__ == (pos, x)
@@head
broadcast use one_first;
@fn IntoCells::new
    ensures ret.table == table, ret.row == 0, ret.col == 0,
@fn IntoCells::has_content
    requires self.table.wf(), self.row <= self.table.row_cnt, self.col <= self.table.col_cnt,
    ensures ret == exists|r: int, c: int| #![trigger self.table.has(r, c)] !before(r, c, self.row as int, self.col as int) && self.table.content(r, c),
@fn IntoCells<Iterator>::next inherent
@@ret Option<Located<Cell<'a>>>
    requires old(self).table.wf(), old(self).row <= old(self).table.row_cnt, old(self).col <= old(self).table.col_cnt,
    ensures final(self).table.wf(), final(self).row <= final(self).table.row_cnt, final(self).col <= final(self).table.col_cnt, match ret {
        Some(x) => exists|r: int, c: int| #[trigger] old(self).table.has(r, c) && first_cell(old(self).table, old(self).row as int, old(self).col as int, at(r, c)) && x == old(self).table.cell(r, c) && before(r, c, final(self).row as int, final(self).col as int)
            && final(self).table.cells@ == old(self).table.cells@.remove(at(r, c))
            && forall|r2: int, c2: int| #[trigger] old(self).table.has(r2, c2) && before(r, c, r2, c2) ==> !before(r2, c2, final(self).row as int, final(self).col as int),
        None => forall|r2: int, c2: int| #[trigger] old(self).table.has(r2, c2) ==> before(r2, c2, old(self).row as int, old(self).col as int) && before(r2, c2, final(self).row as int, final(self).col as int) },
@fn IntoCells<CellIter<Located<Cell>>>::row inherent
    requires self.table.wf(), self.row <= self.table.row_cnt, self.col <= self.table.col_cnt,
    ensures exists|c: usize| first_cell(self.table, self.row as int, self.col as int, CellPos { row: ret, col: c }),
@fn IntoCells<CellIter<Located<Cell>>>::col inherent
    requires self.table.wf(), self.row <= self.table.row_cnt, self.col <= self.table.col_cnt,
    ensures exists|r: usize| first_cell(self.table, self.row as int, self.col as int, CellPos { row: r, col: ret }),
@fn IntoCells<CellIter<Located<Cell>>>::next_with_pos inherent
@@sig T = Located<Cell<'a>>
@@ret Option<(CellPos, Located<Cell<'a>>)>
    requires old(self).table.wf(), old(self).row <= old(self).table.row_cnt, old(self).col <= old(self).table.col_cnt,
    ensures final(self).table.wf(), final(self).row <= final(self).table.row_cnt, final(self).col <= final(self).table.col_cnt, match ret {
        Some(x) => exists|r: int, c: int| #[trigger] old(self).table.has(r, c) && first_cell(old(self).table, old(self).row as int, old(self).col as int, at(r, c)) && x.0 == at(r, c) && x.1 == old(self).table.cell(r, c) && before(r, c, final(self).row as int, final(self).col as int)
            && final(self).table.cells@ == old(self).table.cells@.remove(at(r, c))
            && forall|r2: int, c2: int| #[trigger] old(self).table.has(r2, c2) && before(r, c, r2, c2) ==> !before(r2, c2, final(self).row as int, final(self).col as int),
        None => forall|r2: int, c2: int| #[trigger] old(self).table.has(r2, c2) ==> before(r2, c2, old(self).row as int, old(self).col as int) && before(r2, c2, final(self).row as int, final(self).col as int) },
@@closure 0
 ensures r__ == (pos, x)
@@head
broadcast use one_first;
@fn Cells<From<&IntoCells>>::from
    ensures *ret.table == it.table, ret.row == it.row, ret.col == it.col,
@@stub
@@impl
    open spec fn from_ens(it: &'a IntoCells<'b>, ret: Self) -> bool { *ret.table == it.table && ret.row == it.row && ret.col == it.col }
@fn Table::new
    ensures ret.wf(), ret.tight(), ret.centered == centered,
@@closure 0
 requires pos.row < usize::MAX, pos.col < usize::MAX ensures r__.0 as int == (if acc.0 > pos.row { acc.0 as int } else { pos.row + 1 }), r__.1 as int == (if acc.1 > pos.col { acc.1 as int } else { pos.col + 1 })
