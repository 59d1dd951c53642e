//! Stand-in for `uv` and `cargo`: records how it was started and ends as the plan says.
use std::io::Write;
fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o += "\\\"",
            '\\' => o += "\\\\",
            c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32),
            c => o.push(c),
        }
    }
    o + "\""
}
fn main() {
    let args: Vec<String> = std::env::args().collect();
    let tool = args[0].rsplit('/').next().unwrap().to_string();
    let cwd = std::env::current_dir().unwrap();
    let log = std::env::var("RECORDER_LOG").unwrap();
    let vars: Vec<String> = std::env::vars().filter(|(k, _)| k.ends_with("_MODEL")).map(|(k, v)| format!("{}:{}", esc(&k), esc(&v))).collect();
    let line = format!("{{\"tool\":{},\"args\":[{}],\"cwd\":{},\"env\":{{{}}}}}\n", esc(&tool),
        args[1..].iter().map(|a| esc(a)).collect::<Vec<_>>().join(","), esc(&cwd.to_string_lossy()), vars.join(","));
    let done = std::fs::read_to_string(&log).map(|s| s.lines().count()).unwrap_or(0);
    std::fs::OpenOptions::new().create(true).append(true).open(&log).unwrap().write_all(line.as_bytes()).unwrap();
    // the plan: how the n-th started process ends ("0" succeeds)
    let plan = std::env::var("RECORDER_PLAN").unwrap_or_default();
    match plan.split(',').nth(done).unwrap_or("0") {
        "kill" => std::process::abort(),
        n => std::process::exit(n.parse().unwrap_or(0)),
    }
}
