//! Monitor for nodes of the core crate used without a generated parser.
//! argv: facets out of strings, nodes, pairs.
mod nodes;
mod track;
mod zoo;

fn main() {
    tools::main_(|c, facets| {
        for f in facets {
            match f.as_str() {
                "strings" => nodes::strings(c),
                "nodes" => nodes::nodes(c),
                "pairs" => nodes::pairs(c),
                "tracker" => track::tracker(c),
                _ => panic!("facet {f}"),
            }
        }
    })
}
