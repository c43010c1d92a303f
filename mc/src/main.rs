use mc::{engine, props};

fn main() {
    let a: Vec<String> = std::env::args().skip(1).collect();
    let rest = a.get(1..).unwrap_or(&[]).to_vec();
    let code = match a.first().map(|s| s.as_str()) {
        Some("check") => engine::check(props::ALL, &rest),
        Some("worker") => engine::worker(props::ALL, &rest),
        Some("case") => engine::case(props::ALL, &rest),
        // mc replay FILE ROOT
        Some("replay") => {
            let v: serde_json::Value =
                serde_json::from_str(&std::fs::read_to_string(&rest[0]).unwrap()).unwrap();
            let s = |k: &str| v[k].as_str().unwrap().to_string();
            let args = [s("property"), s("tier"), rest[1].clone(), v["case"].to_string()];
            engine::case(props::ALL, &args)
        }
        // mc outputs PATH, with the source on standard input
        Some("outputs") => {
            let src = std::io::read_to_string(std::io::stdin()).unwrap();
            print!("{}", mc::props::outputs(&src, std::path::Path::new(&rest[0])));
            0
        }
        _ => {
            eprintln!("usage: mc check|case PROPERTY quick|thorough ROOT [INDEX]; mc replay FILE ROOT");
            2
        }
    };
    std::process::exit(code)
}
