mod acts;
mod checks;
mod gen;
mod view;
mod world;

fn main() {
    // the helper actors have their own kind of scenario
    let args: Vec<String> = std::env::args().collect();
    let arg = args.get(2).cloned().unwrap_or_default();
    let id = if args.get(1).is_some_and(|c| c == "replay") {
        let text = std::fs::read_to_string(&arg).unwrap_or_default();
        serde_json::from_str::<serde_json::Value>(&text).ok().and_then(|v| v["property"].as_str().map(|s| s.to_string())).unwrap_or_default()
    } else {
        arg
    };
    if acts::all().iter().any(|c| c.id() == id) {
        simrt::runner::cli(acts::all())
    } else {
        simrt::runner::cli(checks::all())
    }
}
