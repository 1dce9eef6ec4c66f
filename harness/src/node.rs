//! Runs JavaScript with node.

use std::io::Write;
use std::process::{Command, Stdio};

/// Runs a script of ref/ with the given input; returns its output.
pub fn run(script: &str, args: &[&str], input: String) -> Result<String, String> {
    let path = format!("{}/../ref/{}", env!("CARGO_MANIFEST_DIR"), script);
    let mut ch = Command::new("node")
        .arg("--max-old-space-size=4096")
        .arg(&path)
        .args(args)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .spawn()
        .map_err(|e| format!("harness: node: {}", e))?;
    let mut stdin = ch.stdin.take().unwrap();
    let t = std::thread::spawn(move || {
        let _ = stdin.write_all(input.as_bytes());
    });
    let o = ch.wait_with_output().map_err(|e| format!("harness: node: {}", e))?;
    let _ = t.join();
    if !o.status.success() {
        return Err(format!("harness: node {}: {}", script, o.status));
    }
    String::from_utf8(o.stdout).map_err(|_| "harness: node: output not UTF-8".into())
}
