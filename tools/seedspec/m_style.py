S="crates/textual/src/style_resolver.rs"
M=[
("p4a","P04",S,"    if !widget.is_visible() {","    if !widget.is_visible() || (!parent_dirty && !widget.is_dirty()) {"),
("p4b","P04",S,"    let should_restyle = is_dirty || parent_dirty;","    let should_restyle = is_dirty || (parent_dirty && !widget.is_disabled());"),
("p4c","P04",S,"            ancestors,\n            should_restyle,\n            &child_inherited,","            ancestors,\n            is_dirty,\n            &child_inherited,"),
("p4d","P04",S,"            should_restyle,\n            &child_inherited,","            widget_was_dirty(should_restyle),\n            &child_inherited,"),
("p4e","P04",S,"    ancestors.push_front(meta);","    ancestors.push_back(meta);"),
("p4f","P04",S,"    // Clean up stack after visiting subtree\n    ancestors.pop_front();","    // Clean up stack after visiting subtree\n    if should_restyle {\n        ancestors.pop_front();\n    }"),
("p4g","P04",[(S,"    let is_dirty = widget.is_dirty();\n    let should_restyle = is_dirty || parent_dirty;\n\n    let mut style = if should_restyle {","    let is_dirty = widget.is_dirty();\n    let mut style = if is_dirty || parent_dirty {"),(S,"    // Build inherited context for children","    let should_restyle = widget.is_dirty() || parent_dirty;\n    // Build inherited context for children")]),
("p4h","P04",S,"        true,\n        &InheritedContext::from_theme(theme),","        false,\n        &InheritedContext::from_theme(theme),"),
("p4i","P04",S,"        widget.set_style(style.clone());\n        widget.mark_clean();","        if widget.get_style() != style {\n            widget.set_style(style.clone());\n        }\n        widget.mark_clean();"),
("okp4a","P04,P26",S,"    let should_restyle = is_dirty || parent_dirty;","    let should_restyle = if parent_dirty { true } else { is_dirty };"),
("okp4b","P04,P26",S,"    if !widget.is_visible() {\n        return;\n    }","    let visible = widget.is_visible();\n    if visible == false {\n        return;\n    }"),
("okp4c","P04,P26",S,"        let mut style = compute_style(&meta, ancestors_slice, stylesheet, theme);\n","        let mut style = fresh_style(&meta, ancestors_slice, stylesheet, theme);\n"),
("i1","P26",S,"        style.color = inherited.color.clone();\n        style.auto_color = inherited.auto_color;","        style.color = inherited.color.clone();"),
("i2","P26",S,"    if !style.visibility_set {","    if !style.visibility_set || inherited.visibility == tcss::types::Visibility::Hidden {"),
("i3","P26",S,"    style.inherited_background = inherited.effective_background.clone();","    if style.background.is_none() {\n        style.inherited_background = inherited.effective_background.clone();\n    }"),
("i4","P26",S,"    if style.color.is_none() && inherited.color.is_some() {","    if inherited.color.is_some() && (style.color.is_none() || style.auto_color) {"),
("i5","P26",S,"        (Some(bg), Some(parent_bg)) if bg.a < 1.0 => {\n","        (Some(bg), Some(parent_bg)) if bg.a <= 0.0 => {\n"),
("i6","P26",S,"bg.blend_over(parent_bg)","parent_bg.blend_over(bg)"),
("i7","P26",S,"                Some(tint) => Some(bg.tint(tint)),\n                None => Some(bg.clone()),","                Some(tint) if tint.a > 0.5 => Some(bg.tint(tint)),\n                _ => Some(bg.clone()),"),
("i8","P26",S,"        visibility: style.visibility,\n    }","        visibility: parent_inherited.visibility,\n    }"),
("i9","P26",S,"        (None, _) => parent_inherited.effective_background.clone(),","        (None, _) => style.inherited_background.clone(),"),
("oki1","P26",S,"    if style.color.is_none() && inherited.color.is_some() {\n        style.color = inherited.color.clone();\n        style.auto_color = inherited.auto_color;\n    }","    if style.color.is_none() {\n        if let Some(c) = &inherited.color {\n            style.color = Some(c.clone());\n            style.auto_color = inherited.auto_color;\n        }\n    }"),
("oki2","P26",S,"""            // Opaque background - apply tint if present
            match &style.background_tint {
                Some(tint) => Some(bg.tint(tint)),
                None => Some(bg.clone()),
            }""","""            let tinted = style.background_tint.as_ref().map(|t| bg.tint(t));
            Some(tinted.unwrap_or_else(|| bg.clone()))"""),
("oki3","P26",S,"""    match (&style.background, &parent_inherited.effective_background) {
        (Some(bg), Some(parent_bg)) if bg.a < 1.0 => {
            // Composite semi-transparent background over parent
            let composited = bg.blend_over(parent_bg);
            // Apply tint if present
            match &style.background_tint {
                Some(tint) => Some(composited.tint(tint)),
                None => Some(composited),
            }
        }
        (Some(bg), _) => {
            // Opaque background - apply tint if present
            match &style.background_tint {
                Some(tint) => Some(bg.tint(tint)),
                None => Some(bg.clone()),
            }
        }
        (None, _) => parent_inherited.effective_background.clone(),
    }""","""    let Some(bg) = &style.background else {
        return parent_inherited.effective_background.clone();
    };
    let base = match &parent_inherited.effective_background {
        Some(parent_bg) if bg.a < 1.0 => bg.blend_over(parent_bg),
        _ => bg.clone(),
    };
    Some(match &style.background_tint {
        Some(tint) => base.tint(tint),
        None => base,
    })"""),
("oki4","P26,P04",S,"""        apply_inheritance(&mut style, inherited);

        // Apply inline style overrides (highest priority)
        if let Some(inline) = widget.inline_style() {
            inline.apply_to(&mut style);
        }
""","""        apply_inheritance(&mut style, inherited);
        apply_inline(widget, &mut style);
"""),
]
M=[m if m[0]!="oki4" else ("oki4","P26,P04",[m[2:],(S,"fn apply_inheritance(","fn apply_inline<M>(widget: &dyn Widget<M>, style: &mut ComputedStyle) {\n    if let Some(inline) = widget.inline_style() {\n        inline.apply_to(style);\n    }\n}\nfn apply_inheritance(")]) for m in M]
M=[m if m[0]!="okp4c" else ("okp4c","P26,P04",[m[2:] if len(m)==5 else m[2],(S,"fn apply_inheritance(","fn fresh_style(meta: &WidgetMeta, anc: &[WidgetMeta], sheet: &StyleSheet, theme: &Theme) -> ComputedStyle {\n    compute_style(meta, anc, sheet, theme)\n}\nfn apply_inheritance(")]) for m in M if m[0]!="p4d"]
