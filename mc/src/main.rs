mod engine;
mod gen;
mod jet;
mod prog;
mod props;
mod rec;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let usage = "mc check <property> <quick|thorough> | mc replay <file>";
    std::env::set_var("RAYON_NUM_THREADS", std::env::var("MC_RAYON").unwrap_or("3".into()));
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("check") if a.len() == 4 => match props::get(&a[2], a[3] == "thorough") {
            Some(c) => engine::run(c, &a[3]),
            None => {
                eprintln!("unknown property");
                2
            }
        },
        Some("replay") if a.len() == 3 => {
            let s = std::fs::read_to_string(&a[2]).expect("file");
            let id = s.lines().find_map(|l| l.strip_prefix("property=")).expect("property").to_string();
            let th = s.lines().any(|l| l == "tier=thorough");
            match props::get(&id, th) {
                Some(c) => engine::replay(c, &a[2]),
                None => 2,
            }
        }
        _ => {
            eprintln!("{}", usage);
            2
        }
    };
    std::process::exit(code);
}
