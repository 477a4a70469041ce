F = "crates/textual/src/context.rs"
SLEEP = """            tokio::time::sleep(delay).await;
            log::debug!("TIMER: Woke up, sending message");
            let envelope = MessageEnvelope::new(message, sender_id.as_deref(), &sender_type);
"""
CANCELB = """                    _ = &mut cancel_rx => {
                        log::debug!("INTERVAL: Cancelled");
                        break; // Cancelled
                    }
"""
TICKB = """                    _ = ticker.tick() => {
                        log::debug!("INTERVAL: Tick! Sending message");
                        let envelope = MessageEnvelope::new(message_fn(), sender_id.as_deref(), &sender_type);
                        if sender.send(envelope).is_err() {
                            log::error!("INTERVAL: Receiver dropped");
                            break; // Receiver dropped
                        }
                    }
"""
MATCH = """            match sender.send(envelope) {
                Ok(_) => log::debug!("TIMER: Message sent successfully"),
                Err(e) => log::error!("TIMER: Failed to send message: {:?}", e),
            }
"""
M = []
def m(n, *e): M.append((n, "P20", F) + tuple(e))
m("a2", "            let mut ticker = tokio::time::interval_at(start, interval);", "            let mut ticker = tokio::time::interval(interval);")
m("a3", "                    biased;\n", "")
m("a4", CANCELB + TICKB, TICKB + CANCELB)
m("a5", "tokio::time::sleep(delay).await;", "tokio::time::sleep(delay.min(Duration::from_secs(60))).await;")
m("a6", "    fn drop(&mut self) {\n        self.cancel();\n    }", "    fn drop(&mut self) {\n        self.cancel_tx = None;\n    }")
m("a7", "        if let Some(tx) = self.cancel_tx.take() {\n            let _ = tx.send(());\n        }", "        if let Some(tx) = self.cancel_tx.take() {\n            if !tx.is_closed() && self.cancel_tx.is_some() {\n                let _ = tx.send(());\n            } else { std::mem::forget(tx); }\n        }")
m("a8", "        let sender_id = self.sender_id.clone();\n        let sender_type = self.sender_type.clone();\n        log::debug!(\"TIMER", "        let sender_id: Option<String> = None;\n        let sender_type = self.sender_type.clone();\n        log::debug!(\"TIMER")
m("a9", "                        log::debug!(\"INTERVAL: Cancelled\");\n                        break; // Cancelled", "                        log::debug!(\"INTERVAL: Cancelled\");\n                        let envelope = MessageEnvelope::new(message_fn(), sender_id.as_deref(), &sender_type);\n let _ = sender.send(envelope);\n                        break; // Cancelled")
m("a10", SLEEP, SLEEP.replace("            tokio::time::sleep(delay).await;", "            if !delay.is_zero() { tokio::time::sleep(delay).await; }"))
m("a11", "                        if sender.send(envelope).is_err() {", "                        if ticker.period() > Duration::from_millis(1) && sender.send(envelope).is_err() {")
m("a12", "            let start = tokio::time::Instant::now() + interval;", "            let start = tokio::time::Instant::now();")
m("a14", "        self.app_ctx.set_timer(delay, message);", "        self.app_ctx.set_timer(delay + Duration::from_millis(1), message);")
m("a15", "        let _ = self.sender.send(envelope);\n    }\n\n    /// Set a one", "        if self.sender_id.is_some() {\n            let _ = self.sender.send(envelope);\n        }\n    }\n\n    /// Set a one")
m("ok1", SLEEP + MATCH, SLEEP.replace('            let envelope = MessageEnvelope::new(message, sender_id.as_deref(), &sender_type);\n', "").replace("            tokio::time::sleep", '            let envelope = MessageEnvelope::new(message, sender_id.as_deref(), &sender_type);\n            tokio::time::sleep') + "            let _ = sender.send(envelope);\n")
m("ok2", "        let sender = self.sender.clone();\n        let sender_id = self.sender_id.clone();\n        let sender_type = self.sender_type.clone();\n        log", "        let sender_type = self.sender_type().to_string();\n        let sender_id = self.sender_id.clone();\n        let sender = self.sender();\n        log")
m("ok3", "                        if sender.send(envelope).is_err() {\n                            log::error!(\"INTERVAL: Receiver dropped\");\n                            break; // Receiver dropped\n                        }", "                        let sent = sender.send(envelope);\n                        match sent {\n                            Ok(()) => {}\n                            Err(_) => break,\n                        }")
m("ok4", "        if let Some(tx) = self.cancel_tx.take() {\n            let _ = tx.send(());\n        }", "        let Some(tx) = self.cancel_tx.take() else {\n            return;\n        };\n        tx.send(()).ok();")
m("ok5", "            let start = tokio::time::Instant::now() + interval;\n            let mut ticker = tokio::time::interval_at(start, interval);", "            let now = tokio::time::Instant::now();\n            let period = interval;\n            let start = now + period;\n            let mut ticker = tokio::time::interval_at(start, period);")
m("ok6", "        let envelope = MessageEnvelope::new(message, self.sender_id.as_deref(), &self.sender_type);\n        let _ = self.sender.send(envelope);", "        let id = self.sender_id.as_deref();\n        if self.sender.send(MessageEnvelope::new(message, id, self.sender_type())).is_err() {\n            log::debug!(\"no receiver\");\n        }")
