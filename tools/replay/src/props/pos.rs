use crate::{gen, rng::Rng, Prop};
use std::ops::{Range, RangeInclusive, RangeTo, RangeToInclusive};
use vimwiki_core::*;

#[cfg(feature = "hooks")]
pub struct Positions;
#[cfg(feature = "hooks")]
impl Positions {
    fn one(s: &str, i: usize, j: usize) -> Result<(), String> {
        use vimwiki_core::verif::parsers::Span;
        let b = s.as_bytes();
        let sp = Span::new(b, i, j, 3);
        let line_col = |o: usize| {
            let line = 1 + b[..o].iter().filter(|c| **c == b'\n').count();
            let ls = b[..o].iter().rposition(|c| *c == b'\n').map_or(0, |p| p + 1);
            (line, 1 + b[ls..o].iter().filter(|c| (**c & 0xC0) != 0x80).count())
        };
        let last = if i < j { j - 1 } else { i };
        let ne = |what: &str, got: String, want: String| if got == want { Ok(()) } else { Err(format!("{what} of bytes {i}..{j} of {s:?}: {got}, expected {want}")) };
        ne("line_and_column", format!("{:?}", sp.line_and_column()), format!("{:?}", line_col(i)))?;
        ne("line, column", format!("{:?}", (sp.line(), sp.column())), format!("{:?}", line_col(i)))?;
        ne("end_line_and_column", format!("{:?}", sp.end_line_and_column()), format!("{:?}", line_col(last)))?;
        ne("end_line, end_column", format!("{:?}", (sp.end_line(), sp.end_column())), format!("{:?}", line_col(last)))?;
        let e = sp.at_end();
        ne("at_end", format!("{:?}", (e.start_offset(), e.end_offset(), e.depth())), format!("{:?}", (last, j, 3)))?;
        ne("is_only_whitespace", format!("{:?}", sp.is_only_whitespace()), format!("{:?}", b[i..j].iter().all(|c| *c == b' ' || *c == b'\t')))?;
        ne("iteration", format!("{:?}", sp.into_iter().copied().collect::<Vec<u8>>()), format!("{:?}", b[i..j].to_vec()))?;
        ne("reverse iteration", format!("{:?}", sp.into_iter().rev().copied().collect::<Vec<u8>>()), format!("{:?}", b[i..j].iter().rev().copied().collect::<Vec<u8>>()))?;
        // both ends alternately
        let mut it = sp.into_iter();
        let (mut lo, mut hi) = (i, j);
        loop {
            let (x, y) = (it.next().copied(), if lo < hi { lo += 1; Some(b[lo - 1]) } else { None });
            if x != y { return Err(format!("mixed iteration over {i}..{j} of {s:?}: {x:?}, expected {y:?}")); }
            let (x2, y2) = (it.next_back().copied(), if lo < hi { hi -= 1; Some(b[hi]) } else { None });
            if x2 != y2 { return Err(format!("mixed iteration over {i}..{j} of {s:?}: {x2:?} from the back, expected {y2:?}")); }
            if y.is_none() && y2.is_none() { break; }
        }
        let t = sp.trim_start();
        let k = (i..j).find(|k| !b[*k].is_ascii_whitespace()).unwrap_or(j);
        ne("trim_start", format!("{:?}", (t.start_offset(), t.end_offset())), format!("{:?}", (k, j)))?;
        ne("consumed/remaining", format!("{:?}", (sp.as_consumed(), sp.as_remaining(), sp.consumed_len(), sp.remaining_len(), sp.is_empty())), format!("{:?}", (&b[..i], &b[i..j], i, j - i, i == j)))?;
        for n in 0..=(j - i + 2) {
            let w = sp.with_length(n);
            ne("with_length", format!("{:?}", (w.start_offset(), w.end_offset())), format!("{:?}", (i, j.min(i + n))))?;
            let w = sp.advance_start_by(n);
            ne("advance_start_by", format!("{:?}", (w.start_offset(), w.end_offset())), format!("{:?}", (j.min(i + n), j)))?;
            let w = sp.backtrack_start_by(n);
            ne("backtrack_start_by", format!("{:?}", (w.start_offset(), w.end_offset())), format!("{:?}", (i.saturating_sub(n), j)))?;
        }
        Ok(())
    }
}
#[cfg(feature = "hooks")]
impl Prop for Positions {
    fn fixed(&self, th: bool) -> Box<dyn Iterator<Item = String> + Send + '_> { Box::new(gen::seqs(&["\n", " ", "\t", "a", "é", "\r", "世", ":", "\u{b}", "£", "\u{10ffff}"], if th { 5 } else { 4 })) }
    fn random(&self, r: &mut Rng) -> String { let mut s: String = gen::any(r).chars().take(24).collect(); for _ in 0..r.below(6) { let i = r.below(s.chars().count() + 1); let b = s.char_indices().nth(i).map_or(s.len(), |x| x.0); let u = gen::uni(r); s.insert(b, u); } s }
    fn check(&self, s: &str) -> Result<(), String> {
        let c: Vec<usize> = (0..=s.len()).filter(|i| s.is_char_boundary(*i)).collect();
        for (n, i) in c.iter().enumerate() { for j in &c[n..] { Positions::one(s, *i, *j)?; } }
        Ok(())
    }
}

pub struct Regions2;
const P: &[usize] = &[0, 1, 2, 3, 7, 100, 65535, 65536, usize::MAX / 2, usize::MAX - 2, usize::MAX - 1, usize::MAX];
fn cov(r: &Region, p: usize) -> bool { (p as u128) >= r.offset() as u128 && (p as u128) < r.offset() as u128 + r.len() as u128 }
impl Prop for Regions2 {
    fn fixed(&self, _: bool) -> Box<dyn Iterator<Item = String> + Send + '_> {
        Box::new(P.iter().flat_map(|a| P.iter().flat_map(move |b| P.iter().map(move |c| format!("{a} {b} {c}")))))
    }
    fn random(&self, r: &mut Rng) -> String {
        let mut v = || { let k = r.below(64); let x = (r.next() >> k) as usize; match r.below(4) { 0 => x, 1 => usize::MAX - x, _ => x % 20 } };
        format!("{} {} {}", v(), v(), v())
    }
    fn text_case(&self) -> bool { false }
    fn check(&self, s: &str) -> Result<(), String> {
        let v: Vec<usize> = s.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        let [a, b, p] = v[..] else { return Ok(()) };
        let err = |w: &str| Err(format!("{w} for ({a}, {b}, position {p})"));
        let r = Region::new(a, b);
        if (r.offset(), r.len(), r.depth(), r.is_empty()) != (a, b, 0, b == 0) { return err("Region::new"); }
        let d = (p % 65536) as u16;
        let r2 = Region::new_at_depth(a, b, d);
        if (r2.offset(), r2.len(), r2.depth()) != (a, b, d) { return err("Region::new_at_depth"); }
        let r3 = r.with_depth(d);
        if (r3.offset(), r3.len(), r3.depth()) != (a, b, d) { return err("Region::with_depth"); }
        if r.contains(p) != cov(&r, p) { return err("Region::contains"); }
        let t = Region::from((a, b));
        if (t.offset(), t.len(), t.depth()) != (a, b, 0) { return err("from (start, len)"); }
        let chk = |w: &str, r: Region, lo: usize, hi: u128| {
            for q in [p, a, b, a.wrapping_sub(1), b.wrapping_sub(1), b.wrapping_add(1), 0] {
                if q == usize::MAX { continue; }
                if cov(&r, q) != (q >= lo && (q as u128) < hi) || r.offset() != lo || r.depth() != 0 { return Err(format!("{w} of {a} and {b} gives offset {} len {}", r.offset(), r.len())); }
                if r.contains(q) != cov(&r, q) { return Err(format!("contains({q}) of {} {}", r.offset(), r.len())); }
            }
            Ok(())
        };
        chk("a..b", Region::from(Range { start: a, end: b }), a, b as u128)?;
        chk("a..=b", Region::from(RangeInclusive::new(a, b)), a, b as u128 + 1)?;
        chk("..b", Region::from(RangeTo { end: b }), 0, b as u128)?;
        chk("..=b", Region::from(RangeToInclusive { end: b }), 0, b as u128 + 1)?;
        #[cfg(feature = "hooks")]
        {
            use vimwiki_core::verif::parsers::Span;
            let buf = [b' '; 40];
            let (x, y) = (a % 41, b % 41);
            let (x, y) = (x.min(y), x.max(y));
            let g = Region::from(Span::new(&buf, x, y, d));
            if (g.offset(), g.len(), g.depth()) != (x, y - x, d) { return err("from a span"); }
        }
        let l = Located::new(Text::from("ab"), r3);
        let reg = |x: Region| (x.offset(), x.len(), x.depth());
        if reg(l.region()) != reg(r3) || l.depth() != d { return err("Located::region"); }
        if reg(l.as_ref().region()) != reg(r3) { return err("Located::as_ref"); }
        if reg(l.clone().map(|x| x).region()) != reg(r3) { return err("Located::map"); }
        if reg(l.clone().take_with_region(t).region()) != reg(t) { return err("Located::take_with_region"); }
        let o: Located<Option<Text>> = Located::new(Some(Text::from("ab")), r3);
        if o.transpose().map(|x| reg(x.region())) != Some(reg(r3)) { return err("Located::transpose"); }
        let o: Located<Option<Text>> = Located::new(None, r3);
        if o.transpose().is_some() { return err("Located::transpose of none"); }
        Ok(())
    }
}
