F = "crates/textual/src/lib.rs"
G = """            // From here on the terminal is given back however this ends
            let mut guard = TerminalGuard { active: true };
"""
EX = """            execute!(
                stdout,
                terminal::EnterAlternateScreen,
                cursor::Hide,
                EnableMouseCapture
            )?;
"""
RB = """        let screen = execute!(
            std::io::stdout(),
            DisableMouseCapture,
            cursor::Show,
            terminal::LeaveAlternateScreen
        );
        let raw = terminal::disable_raw_mode();
        screen.and(raw)
"""
RUN = "            let result = self.event_loop_async().await;\n"
M = []
def m(n, *e): M.append((n, "P11", F) + tuple(e))
s = open("/repo/" + F).read()
i = s.index(G); j = s.index(EX)
MID = s[i:j+len(EX)]
m("a1", MID, MID.replace(G, "") + G)
m("a2", "let mut guard = TerminalGuard { active: true };", "let _ = TerminalGuard { active: true }; let mut guard = TerminalGuard { active: false };")
m("a3", "TerminalGuard { active: true }", "TerminalGuard { active: false }")
m("a4", RB, RB.replace("        );\n        let raw", "        )?;\n        let raw").replace("screen.and(raw)", "raw").replace("let screen = ", ""))
m("a5", "            DisableMouseCapture,\n            cursor::Show", "            cursor::Show")
m("a6", "            guard.restore()?;\n", "            std::mem::forget(guard);\n")
m("a7", RUN, RUN + "            if result.is_err() { std::process::exit(1); }\n")
m("a8", RUN, "            guard.active = false;\n" + RUN)
m("a9", "    fn drop(&mut self) {\n        let _ = self.restore();\n    }", "    fn drop(&mut self) {\n        if !std::thread::panicking() { let _ = self.restore(); }\n    }")
m("a10", RUN, "            guard.restore()?;\n" + RUN)
m("a11", "            terminal::enable_raw_mode()?;\n", "            terminal::enable_raw_mode()?;\n            let _size = terminal::size()?;\n")
m("a12", G, "            {\n                let _g = TerminalGuard { active: true };\n            }\n            let mut guard = TerminalGuard { active: false };\n")
m("a13", RUN, "            let result = { let r = self.event_loop_async(); std::mem::drop(guard); r.await };\n            let mut guard = TerminalGuard { active: false };\n")
m("a14", RB, "        let raw = terminal::disable_raw_mode();\n        if raw.is_err() { return raw; }\n" + RB.replace("        let raw = terminal::disable_raw_mode();\n", ""))
m("ok1", (RB), "        let mut out = std::io::stdout();\n        let raw = terminal::disable_raw_mode();\n        let a = execute!(out, cursor::Show);\n        let b = execute!(out, DisableMouseCapture, terminal::LeaveAlternateScreen);\n        a.and(b).and(raw)\n")
M.append(("ok2", "P11", ((F, "let mut guard = TerminalGuard { active: true };", "let mut guard = TerminalGuard::new();"), (F, "impl TerminalGuard {\n", "impl TerminalGuard {\n    fn new() -> Self {\n        Self { active: true }\n    }\n\n"))))
m("ok3", "        if !std::mem::take(&mut self.active) {\n            return Ok(());\n        }\n", "        if self.active == false {\n            return Ok(());\n        }\n        self.active = false;\n")
m("ok4", "            guard.restore()?;\n\n            result", "            let restored = guard.restore();\n            restored?;\n            drop(guard);\n            result")
M.append(("ok6", "P11", ((F, EX, "            Self::enter(&mut stdout)?;\n"), (F, "    /// Internal async", "    /// Internal async"))) if False else ("ok6", "P11", F, EX, "            let entered = execute!(\n                stdout,\n                terminal::EnterAlternateScreen,\n                cursor::Hide,\n                EnableMouseCapture\n            );\n            if let Err(e) = entered {\n                return Err(e.into());\n            }\n"))
m("ok7", "            terminal::enable_raw_mode()?;\n", "            if let Err(error) = terminal::enable_raw_mode() {\n                return Err(error.into());\n            }\n")
m("ok8", "        if !std::mem::take(&mut self.active) {\n            return Ok(());\n        }\n" + RB, "        if std::mem::take(&mut self.active) {\n" + RB.replace("        screen.and(raw)\n", "            return screen.and(raw);\n") + "        }\n        Ok(())\n")
