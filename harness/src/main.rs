mod clock;
mod drive;
mod expr;
mod mime;
mod model;
mod mtch;
mod pin;
mod props;
mod report;
mod runner;
mod setters;
mod tape;
mod wild;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let a = |i: usize| args.get(i).map(|s| s.as_str()).unwrap_or("");
    let find = |id: &str| -> &'static runner::Prop {
        props::all()
            .iter()
            .find(|p| p.id == id)
            .unwrap_or_else(|| {
                eprintln!("unknown property {id}");
                std::process::exit(2)
            })
    };
    let code = match a(1) {
        "check" => runner::check(find(a(2))),
        "worker" => {
            runner::worker(
                find(a(2)),
                a(3).parse().unwrap(),
                a(4).parse().unwrap(),
                a(5).parse().unwrap(),
                a(6).parse().unwrap(),
                std::path::Path::new(a(7)),
            );
            0
        }
        "case" => runner::one(find(a(2)), None, a(3).parse().unwrap(), a(4).parse().unwrap()),
        "replay" => {
            let j: serde_json::Value =
                serde_json::from_slice(&std::fs::read(a(2)).expect("replay file")).unwrap();
            let p = find(j["property"].as_str().unwrap());
            if let Some(name) = j["pinned"].as_str() {
                runner::install_hook();
                let f = (p.pinned)();
                let (_, f) = f.iter().find(|(n, _)| *n == name).expect("pinned case");
                match runner::guarded(|| f()) {
                    Ok(()) => {
                        println!("PASS");
                        0
                    }
                    Err(e) => {
                        println!("FAIL [{}]\n{}", e.class, e.message);
                        1
                    }
                }
            } else {
                let tape = j["tape"]
                    .as_array()
                    .map(|a| a.iter().map(|v| v.as_u64().unwrap()).collect());
                runner::one(
                    p,
                    tape,
                    j["seed"].as_u64().unwrap_or(0),
                    j["index"].as_u64().unwrap_or(0),
                )
            }
        }
        "list" => {
            for p in props::all() {
                println!("{} quick={} thorough={}", p.id, p.quick, p.thorough);
            }
            0
        }
        "probe" => drive::probe(a(2), a(3)),
        _ => {
            eprintln!("usage: pbt check|replay|case|list|probe");
            2
        }
    };
    std::process::exit(code);
}
