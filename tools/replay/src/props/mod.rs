use crate::Prop;
mod addr;
mod conv;
mod copies;
#[cfg(feature = "hooks")]
mod exact;
mod html;
mod lists;
mod page;
mod parse;
mod paths;
mod pos;
mod tables;
mod trip;
pub fn find(id: &str) -> Option<Box<dyn Prop>> {
    Some(match id {
        "P01" => Box::new(parse::Safe),
        "P02" => Box::new(parse::Verbatim),
        "P03" => Box::new(parse::Regions),
        #[cfg(feature = "hooks")]
        "P04" => Box::new(pos::Positions),
        "P05" => Box::new(pos::Regions2),
        "P06" => Box::new(lists::Lists),
        "P07" => Box::new(tables::Tables),
        #[cfg(feature = "hooks")]
        "P08" => Box::new(exact::Exact),
        "P09" => Box::new(html::Html),
        "P10" => Box::new(trip::Trip),
        "P13" => Box::new(addr::Addr),
        "P18" => Box::new(conv::Conv),
        "P14" => Box::new(copies::Copies),
        "P16" => Box::new(page::Pages),
        "P11" => Box::new(paths::Paths),
        "P12" => Box::new(paths::Wikis),
        _ => return None,
    })
}
