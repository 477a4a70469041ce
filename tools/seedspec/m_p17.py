V="crates/tcss/src/parser/values.rs"; U="crates/tcss/src/parser/units.rs"; S="crates/tcss/src/parser/selectors.rs"; H="crates/tcss/src/types/hatch.rs"; G="crates/tcss/src/types/geometry.rs"
M=[
("m1","P17",V,'"start" => Ok((input, Start)),','"start" => Ok((input, Left)),'),
("m2","P17",V,'match ident.to_lowercase().as_str() {\n        "wrap"','match ident {\n        "wrap"'),
("m3","P17",V,'            horizontal: first,\n            vertical: v,','            horizontal: v,\n            vertical: first,'),
("m4","P17",U,"right: h,\n                            bottom: t,\n                            left: l,","right: l,\n                            bottom: t,\n                            left: h,"),
("m5","P17",U,"        map(char('w'), |_| Unit::Width),","        map(char('w'), |_| Unit::Percent),"),
("m6","P17",U,"unit.unwrap_or(Unit::Cells)","unit.unwrap_or(Unit::Percent)"),
("m7","P17",S,"map(char('+'), |_| Combinator::AdjacentSibling)","map(char('+'), |_| Combinator::GeneralSibling)"),
("m8","P17",G,"            top: vertical,\n            bottom: vertical,\n            left: horizontal,\n            right: horizontal,","            top: horizontal,\n            bottom: horizontal,\n            left: vertical,\n            right: vertical,"),
("m9","P17",U,"    Ok((input, (x, y)))","    Ok((input, (y, x)))"),
("m10","P17",U,"    Ok((input, (cols, rows)))","    Ok((input, (rows.unwrap_or(cols), Some(cols))))"),
("m11","P17",V,'"blink2" => style.blink2 = true,','"blink2" => style.blink = true,'),
("m12","P17",V,'"hidden" => Ok((input, Overflow::Hidden)),','"hidden" | "clip" => Ok((input, Overflow::Auto)),'),
("m13","P17",H,'"left" => Some(HatchPattern::Left),\n            "right" => Some(HatchPattern::Right),','"left" => Some(HatchPattern::Right),\n            "right" => Some(HatchPattern::Left),'),
("m14","P17",U,"        map(tag(\"vw\"), |_| Unit::ViewWidth),\n        map(tag(\"vh\"), |_| Unit::ViewHeight),","        map(char('v'), |_| Unit::ViewWidth),\n        map(tag(\"vw\"), |_| Unit::ViewWidth),\n        map(tag(\"vh\"), |_| Unit::ViewHeight),"),
("ok1","P17",V,'match ident.to_lowercase().as_str() {\n        "wrap" => Ok((input, Wrap)),\n        "nowrap" => Ok((input, NoWrap)),\n        _ => Err(nom::Err::Error(nom::error::Error::new(\n            input,\n            nom::error::ErrorKind::Tag,\n        ))),\n    }','if ident.eq_ignore_ascii_case("wrap") { return Ok((input, Wrap)); }\n    if ident.eq_ignore_ascii_case("nowrap") { return Ok((input, NoWrap)); }\n    Err(nom::Err::Error(nom::error::Error::new(input, nom::error::ErrorKind::Tag)))'),
("ok2","P17",V,'''    let size = match second {
        Some(v) => ScrollbarSize {
            horizontal: first,
            vertical: v,
        },
        None => ScrollbarSize {
            horizontal: first,
            vertical: first,
        },
    };
    Ok((input, size))''','''    let vertical = second.unwrap_or(first);
    Ok((input, ScrollbarSize { horizontal: first, vertical }))'''),
("ok3","P17",V,'''    let kw = ident.to_lowercase();''','''x''') if False else ("ok3","P17",V,'    match ident.to_lowercase().as_str() {\n        "hidden" => Ok((input, Overflow::Hidden)),\n        "auto" => Ok((input, Overflow::Auto)),\n        "scroll" => Ok((input, Overflow::Scroll)),\n        _ => Err','    let kw = ident.to_ascii_lowercase();\n    let found = match kw.as_str() {\n        "scroll" => Some(Overflow::Scroll),\n        "hidden" => Some(Overflow::Hidden),\n        "auto" => Some(Overflow::Auto),\n        _ => None };\n    match found { Some(o) => Ok((input, o)),\n        None => Err'),
("ok4","P17",U,'''    match second {
        None => Ok((input, Spacing::all(first))),
        Some(h) => {''','''    let Some(h) = second else { return Ok((input, Spacing::vertical_horizontal(first, first))); };
    match () {
        () => {'''),
("ok5","P17",U,"        map(tag(\"vw\"), |_| Unit::ViewWidth),","        nom::combinator::value(Unit::ViewWidth, tag(\"vw\")),"),
("ok6","P17",S,'''        map(preceded(char('#'), parse_ident), |s| {
            Selector::Id(s.to_string())
        }),''','''        parse_id_selector,'''),
]
M=[m for m in M if m[0]!="ok6"]
M.append(("ok6","P17",[(S,'''        map(preceded(char('#'), parse_ident), |s| {
            Selector::Id(s.to_string())
        }),''','''        parse_id_selector,'''),(S,"/// Parses a compound selector (e.g.","fn parse_id_selector(input: &str) -> IResult<&str, Selector> {\n    let (input, _) = char('#')(input)?;\n    let (input, s) = parse_ident(input)?;\n    Ok((input, Selector::Id(s.to_string())))\n}\n\n/// Parses a compound selector (e.g.")]))
