C="crates/tcss/src/parser/cascade.rs"; S="crates/tcss/src/parser/stylesheet.rs"; PM="crates/tcss/src/parser/mod.rs"
M=[
("w1","P15",S,"Selector::Id(_) => spec.ids += 1,","Selector::Id(_) => spec.classes += 1,"),
("w2","P15",S,"Selector::Class(_) | Selector::PseudoClass(_) | Selector::Attribute(_, _) => {\n                    spec.classes += 1;\n                }\n                Selector::Type(_) => spec.types += 1,","Selector::Class(_) | Selector::Attribute(_, _) => {\n                    spec.classes += 1;\n                }\n                Selector::Type(_) | Selector::PseudoClass(_) => spec.types += 1,"),
("s1","P15",S,"classes: acc.classes + x.classes,","classes: acc.classes + x.types,"),
("s2","P15",S,"    pub ids: u32,\n    /// Number of class selectors (`.class`) and pseudo-classes (`:hover`).\n    pub classes: u32,","    pub classes: u32,\n    /// Number of class selectors (`.class`) and pseudo-classes (`:hover`).\n    pub ids: u32,"),
("o1","P15",C,".then(a.source_order.cmp(&b.source_order))",".then(b.source_order.cmp(&a.source_order))"),
("o2","P15",C,"a.specificity\n            .cmp(&b.specificity)\n            .then(a.source_order.cmp(&b.source_order))","a.source_order.cmp(&b.source_order).then(a.specificity.cmp(&b.specificity))"),
("o3","P15",C,"for matched in matched_rules {","for matched in matched_rules.into_iter().rev() {"),
("x1","P15",C,"            .max();","            .min();"),
("x2","P15",C,"            .max();","            .next();"),
("okk","P15",C,"matched_rules.sort_by(|a, b| {\n        a.specificity\n            .cmp(&b.specificity)\n            .then(a.source_order.cmp(&b.source_order))\n    });","matched_rules.sort_by_key(|m| (m.specificity, m.source_order));"),
("okstable","P15",C,"            .then(a.source_order.cmp(&b.source_order))",""),
("okcount","P15",S,"""        let mut spec = Specificity::default();
        for s in &self.selectors {
            match s {
                Selector::Id(_) => spec.ids += 1,
                Selector::Class(_) | Selector::PseudoClass(_) | Selector::Attribute(_, _) => {
                    spec.classes += 1;
                }
                Selector::Type(_) => spec.types += 1,
                Selector::Universal | Selector::Parent => {}
            }
        }
        spec""","""        let (mut ids, mut classes, mut types) = (0, 0, 0);
        for s in self.selectors.iter() {
            match s {
                Selector::Id(_) => ids += 1,
                Selector::Class(_) => classes += 1,
                Selector::PseudoClass(_) | Selector::Attribute(..) => classes += 1,
                Selector::Type(_) => types += 1,
                _ => {}
            }
        }
        Specificity { ids, classes, types }"""),
("d1","P13",C,"Declaration::MarginTop(v)","Declaration::MarginXX(v)"),
("c1","P15",C,"Some((parent, above)) => {\n                    matches(parent) && Self::matches_ancestors(outer, above, ctx)\n                }\n                None => false,","Some((parent, _)) => {\n                    matches(parent) && Self::matches_ancestors(outer, ancestors, ctx)\n                }\n                None => false,"),
("p1","P13",PM,'"border-bottom" =>','"border-bottom-x" =>'),
]
