//! Monitors for the core crate: what can be used without a generated parser.
//! argv: facets out of position, span, format, chars.
mod chars;
mod text;

fn main() {
    tools::main_(|c, facets| {
        for f in facets {
            match f.as_str() {
                "position" => text::position(c),
                "span" => text::span(c),
                "format" => text::format(c),
                "chars" => chars::chars(c),
                _ => panic!("facet {f}"),
            }
        }
    })
}
