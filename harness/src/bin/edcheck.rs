//! edcheck <property> [replay <file>] | literals | selftest
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let code = match a.get(1).map(|s| s.as_str()) {
        Some("literals") => {
            for (l, n) in edcheck::dict::scan(std::path::Path::new(&format!("{}/src", edcheck::dict::repo_root()))) {
                println!("{n} {l}");
            }
            0
        }
        Some("selftest") => match edcheck::selftest::run() {
            Ok(()) => 0,
            Err(e) => {
                eprintln!("{e}");
                5
            }
        },
        Some("genkeys") => {
            edcheck::api::genkeys_child(a.get(2).and_then(|s| s.parse().ok()).unwrap_or(10));
            0
        }
        Some("history") => {
            edcheck::api::hist::history_child();
            0
        }
        Some("solo") => {
            edcheck::api::hist::solo_child();
            0
        }
        Some(p) => {
            let checks = edcheck::registry::checks(p);
            if checks.is_empty() {
                eprintln!("unknown property {p}");
                2
            } else if a.get(2).map(|s| s.as_str()) == Some("replay") {
                edcheck::run::replay_file(p, checks, a.get(3).map(|s| s.as_str()).unwrap_or(""))
            } else {
                edcheck::run::run_property(p, checks)
            }
        }
        None => 2,
    };
    std::process::exit(code);
}
