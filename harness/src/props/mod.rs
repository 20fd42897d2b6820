use crate::runner::Property;
mod ana;
mod cfilt;
mod cli;
mod comp;
mod conf;
mod dict;
mod emb;
mod fault;
mod opts;
mod tfilt;
mod tok;

pub const IDS: &[&str] = &["P01", "P02", "P03", "P04", "P05", "P06", "P07", "P08", "P09", "P10", "P11", "P12", "P13", "P14", "P15", "P16", "P17", "P18", "P19", "P20", "P21", "P22", "P23", "P24", "P25", "P26", "P27"];

pub fn get(id: &str) -> Option<Property> {
    Some(match id {
        "P01" => tok::p01(),
        "P02" => tok::p02(),
        "P03" => tok::p03(),
        "P04" => tok::p04(),
        "P05" => tok::p05(),
        "P06" => dict::p06(),
        "P07" => dict::p07(),
        "P08" => dict::p08(),
        "P09" => dict::p09(),
        "P10" => dict::p10(),
        "P11" => dict::p11(),
        "P12" => fault::p12(),
        "P13" => emb::p13(),
        "P14" => comp::p14(),
        "P15" => cfilt::p15(),
        "P16" => cfilt::p16(),
        "P17" => cfilt::p17(),
        "P18" => cfilt::p18(),
        "P19" => ana::p19(),
        "P20" => ana::p20(),
        "P21" => tfilt::p21(),
        "P22" => tfilt::p22(),
        "P23" => tfilt::p23(),
        "P24" => tfilt::p24(),
        "P25" => conf::p25(),
        "P26" => cli::p26(),
        "P27" => opts::p27(),
        _ => return None,
    })
}
