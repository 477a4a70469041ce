S = "crates/textual/src/svg.rs"
L = "crates/textual/src/layouts/mod.rs"
R = "crates/rich/src/markup.rs"
C = "crates/textual/src/content.rs"
LI = "crates/textual/src/widget/loading_indicator.rs"
M = []
def m(n, *e): M.append((n, "P16") + tuple(e))
SORT = "        fg_entries.sort_by_key(|(_, class_name)| class_name.as_str());\n"
COL = "        let mut fg_entries: Vec<_> = styles.fg_styles.iter().collect();\n"
FOR = "        for (color, class_name) in fg_entries {"
LOOP = """        for name in &names {
        if !layer_order.contains(name) {
            if let Some(widgets) = layer_map.get(name) {"""
INS = "                for (k, v) in &span.meta {\n                    meta.insert(k.clone(), v.clone());\n                }"
m("a1", S, SORT, "")
m("a2", S, SORT, SORT.replace("as_str()", "len()"))
m("a3", S, COL + SORT + FOR, "        for (color, class_name) in &styles.fg_styles {")
m("a4", R, INS, "                for (k, v) in span.meta.iter().take(4) {\n                    meta.insert(k.clone(), v.clone());\n                }")
m("a5", L, "    for name in &names {\n", "    let _ = &names;\n    for name in layer_map.keys() {\n")
m("a6", LI, "let frame = SPINNER_FRAMES[self.frame];", "let frame = SPINNER_FRAMES[std::time::Instant::now().elapsed().as_nanos() as usize % SPINNER_FRAMES.len()];")
m("a7", S, SORT, SORT.replace("sort_by_key(|(_, class_name)| class_name.as_str())", "sort_by(|a, b| a.1.len().cmp(&b.1.len()))"))
m("a8", "crates/textual/src/lib.rs", "fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {", "pub fn first_theme(t: &std::collections::HashMap<String, tcss::types::Theme>) -> Option<&tcss::types::Theme> {\n    t.values().find(|t| t.name.len() > 3)\n}\nfn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {")
m("a9", "crates/textual/src/lib.rs", "fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {", "pub fn names(t: &std::collections::HashMap<String, tcss::types::Theme>) -> Vec<String> {\n    let mut v = Vec::new();\n    for (k, _) in t { if k.len() > 1 { v.push(k.clone()); } }\n    v\n}\nfn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {")
m("a10", "crates/textual/src/lib.rs", "fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {", "pub fn pick(t: &std::collections::HashMap<String, tcss::types::Theme>) -> Option<String> {\n    let mut v = None;\n    for (k, _) in t { if k.len() > 1 { v = Some(k.clone()); } }\n    v\n}\nfn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {")
m("a11", "crates/textual/src/lib.rs", "fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {", "pub fn pick(t: &std::collections::HashMap<String, tcss::types::Theme>) -> Option<String> {\n    for (k, _) in t { if k.len() > 1 { return Some(k.clone()); } }\n    None\n}\nfn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {")
m("ok1", S, SORT, SORT.replace("sort_by_key(|(_, class_name)| class_name.as_str())", "sort_by(|a, b| a.1.cmp(b.1))"))
m("ok2", S, COL + SORT, "        let fg_entries = Self::sorted(&styles.fg_styles);\n") if False else None
m("ok3", R, INS, "                span.meta.iter().for_each(|(k, v)| {\n                    meta.insert(k.clone(), v.clone());\n                });")
m("ok4", R, INS, "                meta.extend(span.meta.iter().map(|(k, v)| (k.clone(), v.clone())));")
m("ok5", C, "meta.extend(span.meta.clone());", "for (key, value) in span.meta.iter() {\n                        meta.insert(key.to_string(), value.to_string());\n                    }")
m("ok6", S, COL + SORT + FOR, "        let fg_entries: std::collections::BTreeMap<&String, &Color> = styles.fg_styles.iter().map(|(c, n)| (n, c)).collect();\n        for (class_name, color) in fg_entries {")
m("ok7", S, COL + SORT, "        let mut fg_entries: Vec<(&Color, &String)> = Vec::with_capacity(styles.fg_styles.len());\n        fg_entries.extend(styles.fg_styles.iter());\n" + SORT)
m("ok8", "crates/textual/src/lib.rs", "fn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {", "pub fn total(t: &std::collections::HashMap<String, tcss::types::Theme>) -> bool {\n    let mut n = 0usize;\n    for (k, _) in t { if k.len() > 90 { return false; } n += k.len(); }\n    n > 3 && t.values().any(|x| x.name.is_empty())\n}\nfn collect_default_css<M>(widget: &mut dyn Widget<M>, collected: &mut Vec<&'static str>) {")
M = [x for x in M if x]
