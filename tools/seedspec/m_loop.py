F = "crates/textual/src/lib.rs"
TP = "crates/textual/src/widget/command_palette.rs"
KEYEND = """                                needs_recompose = self.needs_recompose();
                                needs_render = true;
                            }
                            Some(Ok(Event::Resize(nw, nh))) => {"""
MOUSEEND = """                                // Check if app wants tree rebuild (Elm-style)
                                needs_recompose = self.needs_recompose();
                                needs_render = true;
                            }
                            Some(Ok(_)) => {}"""
DRAW = """                    canvas.clear();
                    let region = Region::from_u16(0, 0, cols, rows);
                    tree.root().render(&mut canvas, region);
                    canvas.flush()?;

                    needs_render = false;
                }
"""
PROPS = ["P21"]
M = [
    ("a1", F, KEYEND, KEYEND.replace("                                needs_render = true;\n", "")),
    ("a2", F, """                                tree.root_mut().on_resize(Size::new(cols, rows));

                                needs_render = true;
""", """                                tree.root_mut().on_resize(Size::new(cols, rows));
"""),
    ("a3", F, """                        if drain_command_palette(self, &mut tree, &tx) {
                            needs_render = true;
                        }
""", """                        let _ = drain_command_palette(self, &mut tree, &tx);
"""),
    ("a4", F, MOUSEEND, MOUSEEND.replace("needs_render = true;", "needs_render |= needs_recompose;")),
    ("a5", F, """    if let Some(changed) =
        tree.query_one_as::<CommandPalette<M>, _, _>("CommandPalette", |palette| palette.tick())
    {
        needs_render |= changed;
    }
""", """    if let Some(changed) =
        tree.query_one_as::<CommandPalette<M>, _, _>("CommandPalette", |palette| palette.tick())
    {
        needs_render = changed;
    }
"""),
    ("a6", F, """    if !events.is_empty() {
        needs_render = true;
""", """    if !events.is_empty() {
"""),
    ("a7", TP, """            self.inner.mark_dirty();
        }
        changed
    }

    pub fn tick""", """            self.inner.mark_dirty();
        }
        changed && self.visible
    }

    pub fn tick"""),
    ("a8", F, """                    last_focus_index = current_focus;
                    needs_render = true;
""", """                    last_focus_index = current_focus;
"""),
    ("a9", F, """                            last_focus_index = self.focus_index();
                            needs_render = true;
""", """                            last_focus_index = self.focus_index();
"""),
    ("a10", F, """                    needs_recompose = false;
                    needs_render = true;
""", """                    needs_recompose = false;
"""),
    ("a11", F, """                                        tooltip_deadline = None;
                                        needs_render = true;
""", """                                        tooltip_deadline = None;
"""),
    ("a12", F, MOUSEEND, MOUSEEND.replace("needs_render = true;", "needs_render = tooltip_visible;")),
    ("a13", F, DRAW, DRAW.replace("canvas.flush()?;", "if !self.should_quit() && cols > 1 {\n canvas.flush()?;\n }")),
    ("a14", F, "                                canvas = Canvas::new(cols, rows);\n", ""),
    ("a15", F, "                                canvas = Canvas::new(cols, rows);\n", "                                canvas = Canvas::new(rows, cols);\n"),
    ("a16", F, """                                cols = nw;
                                rows = nh;
                                canvas = Canvas::new(cols, rows);
""", """                                cols = nw;
                                canvas = Canvas::new(nw, nh);
"""),
    ("a17", F, """                                tree.root_mut().on_resize(Size::new(cols, rows));

                                needs_render = true;
""", """                                needs_render = true;
"""),
    ("a18", F, """                        let _ = drain_command_palette(self, &mut tree, &tx);
                        needs_render = true;
""", """                        needs_render |= drain_command_palette(self, &mut tree, &tx);
"""),
    ("a19", F, DRAW, DRAW.replace("canvas.flush()?;\n\n                    needs_render = false;\n                }\n", "canvas.flush()?;\n                }\n                needs_render = false;\n").replace("                    needs_render = false;\n", "") + "                let _ = self.needs_recompose();\n"),
    ("a20", F, """                                    needs_recompose = self.needs_recompose();
                                    needs_render = true;
                                    continue;
""", """                                    needs_recompose = self.needs_recompose();
                                    continue;
"""),
    ("a21", F, """                    let region = Region::from_u16(0, 0, cols, rows);
                    tree.root().render(""", """                    let region = Region::from_u16(0, 0, rows, cols);
                    tree.root().render("""),
    ("a22", F, """                    resolve_dirty_styles(
                        tree.root_mut(),
                        &stylesheet,
                        &theme,
                        &mut ancestors,
                        false,
                        &InheritedContext::from_theme(&theme),
                    );
""", """                    if last_mouse_pos.is_none() {
                    resolve_dirty_styles(
                        tree.root_mut(),
                        &stylesheet,
                        &theme,
                        &mut ancestors,
                        false,
                        &InheritedContext::from_theme(&theme),
                    );
                    }
"""),
    ("a23", F, KEYEND, KEYEND.replace("                                needs_render = true;\n", "                                if !needs_recompose { needs_render = true; }\n").replace("needs_recompose = self.needs_recompose();", "needs_recompose = self.needs_recompose();\n if palette_open { continue; }")),
    # the app's answer delays a draw but the rebuild that follows draws
    ("ok1", F, """                let current_focus = self.focus_index();
                if current_focus != last_focus_index {
                    tree.root_mut().clear_focus();
                    tree.root_mut().focus_nth(current_focus);
                    tree.update_focus(current_focus);
                    last_focus_index = current_focus;
                    needs_render = true;
                }
""", """                let current_focus = self.focus_index();
                let moved = current_focus != last_focus_index;
                if moved {
                    needs_render = true;
                    last_focus_index = current_focus;
                    tree.root_mut().clear_focus();
                    tree.root_mut().focus_nth(current_focus);
                    tree.update_focus(current_focus);
                }
"""),
    ("ok2", F, """                        if drain_command_palette(self, &mut tree, &tx) {
                            needs_render = true;
                        }
""", """                        let changed = drain_command_palette(self, &mut tree, &tx);
                        needs_render = needs_render || changed;
"""),
    ("ok3", F, """    if let Some(changed) =
        tree.query_one_as::<CommandPalette<M>, _, _>("CommandPalette", |palette| palette.tick())
    {
        needs_render |= changed;
    }
""", """    if tree
        .query_one_as::<CommandPalette<M>, _, _>("CommandPalette", |palette| palette.tick())
        .unwrap_or(false)
    {
        needs_render = true;
    }
"""),
    ("ok4", F, """                        let _ = drain_command_palette(self, &mut tree, &tx);
                        needs_render = true;
""", """                        needs_render = true;
                        drain_command_palette(self, &mut tree, &tx);
"""),
    ("ok5", F, """                if needs_render {
                    // Resolve""", """                if !needs_render {
                    log::debug!("EVENT_LOOP: nothing to draw");
                } else {
                    // Resolve"""),
    ("ok6", F, """                    canvas.clear();
                    let region = Region::from_u16(0, 0, cols, rows);
                    tree.root().render(&mut canvas, region);
                    canvas.flush()?;

                    needs_render = false;
""", """                    needs_render = false;
                    draw_frame(&tree, &mut canvas, cols, rows)?;
"""),
    ("ok7", F, """                        if tree.set_focus_index(0) {
                            last_focus_index = self.focus_index();
                            needs_render = true;
                        }
""", """                        let refocused = tree.set_focus_index(0);
                        if refocused {
                            last_focus_index = self.focus_index();
                        }
                        needs_render |= refocused;
"""),
    ("ok8", F, """    if !events.is_empty() {
        needs_render = true;
        let event_ctx = AppContext::new(tx.clone());
""", """    if events.is_empty() {
        return needs_render;
    }
    needs_render = true;
    {
        let event_ctx = AppContext::new(tx.clone());
"""),
    ("ok9", TP, """        if changed {
            self.inner.mark_dirty();
        }
        changed
    }
""", """        if !changed {
            return false;
        }
        self.inner.mark_dirty();
        true
    }
"""),
    ("ok10", F, """                                let _ = drain_command_palette(self, &mut tree, &tx);
                                // Check if app wants tree rebuild (Elm-style)
                                needs_recompose = self.needs_recompose();
                                needs_render = true;
""", """                                drain_command_palette(self, &mut tree, &tx);
                                needs_render = true;
                                // Check if app wants tree rebuild (Elm-style)
                                needs_recompose = self.needs_recompose();
"""),
]
OK6 = """
fn draw_frame<M>(tree: &WidgetTree<M>, canvas: &mut Canvas, cols: u16, rows: u16) -> Result<()> {
    canvas.clear();
    let region = Region::from_u16(0, 0, cols, rows);
    tree.root().render(canvas, region);
    canvas.flush()?;
    Ok(())
}

/// Restores the terminal when an app ends, also by"""
M = [((n if n != "a19" else "ok19"), "P21") + ((((F, r[1], r[2]), (F, "\n/// Restores the terminal when an app ends, also by", OK6)),) if n == "ok6" else tuple(r)) for n, *r in M]
