mod bb;
#[cfg(feature = "alloc")]
mod cside;
#[cfg(all(feature = "alloc", feature = "hash", feature = "ord"))]
mod ctarget;
#[cfg(feature = "alloc")]
mod game;
mod hands;
#[cfg(feature = "alloc")]
mod legal;
#[cfg(feature = "alloc")]
mod long;
mod named;
mod obs;
mod orbit;
#[cfg(all(feature = "alloc", feature = "hash", feature = "ord"))]
mod ords;
mod out;
mod pos_suite;
#[cfg(feature = "alloc")]
mod replay;
mod rng;
mod sess;
mod setorbit;
mod shim;
mod text;
mod textorbit;
mod values;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str, d: &str| -> String {
        a.iter()
            .position(|x| x == k)
            .and_then(|i| a.get(i + 1).cloned())
            .unwrap_or_else(|| d.to_string())
    };
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let shards: usize = get("--shards", "8").parse().unwrap();
    let dir = get("--out", "/tmp/conform");
    let thorough = get("--tier", "quick") == "thorough";
    // scripts for the C driver go to standard output
    #[cfg(feature = "alloc")]
    {
        let script = match a[1].as_str() {
            "pos_script" => Some(cside::pos_script(seed, thorough, false)),
            "pos_script_few" => Some(cside::pos_script(seed, thorough, true)),
            "sfen_script" => Some(cside::sfen_script(seed, thorough)),
            "layout" => Some(cside::layout()),
            _ => None,
        };
        if let Some(s) = script {
            print!("{}", s);
            return;
        }
        if a[1] == "replay" {
            match match a.get(3).map(|s| s.as_str()) {
                Some("sets") => replay::sets(&a[2]),
                Some("hands") => replay::hands(&a[2]),
                Some("games") => replay::games(&a[2]),
                Some("legal") => replay::legal(&a[2]),
                _ => replay::positions(&a[2]),
            } {
                Ok(n) => println!("REPLAYED {}", n),
                Err(e) => {
                    println!("MISMATCH {}", e);
                    std::process::exit(3);
                }
            }
            return;
        }
    }
    let mut o = out::Out::new(&dir, shards);
    match a[1].as_str() {
        "core" | "moves" | "turn" | "views" | "history" => {
            pos_suite::run(&mut o, seed, &a[1], thorough)
        }
        "orbitmoves" | "orbithistory" | "orbitcalls" | "orbitlegal"
        | "orbitedits" | "orbitturns" => {
            orbit::run(&mut o, seed, &a[1], thorough, &dir)
        }
        #[cfg(feature = "alloc")]
        "longgames" => long::run(&mut o, seed, thorough),
        "orbitalgebra" | "orbitshifts" | "orbittaking" => {
            setorbit::run(&mut o, seed, &a[1], thorough, &dir)
        }
        "orbitsfen" | "orbithands" | "orbitsink" => textorbit::run(&mut o, seed, &a[1], thorough, &dir),
        "bbset" | "bbshift" | "bbpop" => bb::run(&mut o, seed, &a[1], thorough),
        "hands" => hands::run(&mut o, seed, thorough),
        "orbitcounts" => hands::sweep(&mut o, seed, thorough),
        "squares" => values::squares(&mut o),
        "pieces" => values::pieces(&mut o),
        "packed" => values::moves(&mut o),
        "sfen" => text::sfen(&mut o, seed, thorough),
        "usi" => text::usi(&mut o, seed, thorough),
        "sink" => text::sink(&mut o, seed, thorough),
        #[cfg(all(feature = "alloc", feature = "hash", feature = "ord"))]
        "ords" => ords::run(&mut o, seed, thorough),
        #[cfg(feature = "alloc")]
        "csfen" => cside::csfen(&mut o, seed, thorough),
        #[cfg(feature = "alloc")]
        "game" => game::run(&mut o, seed, thorough),
        #[cfg(feature = "alloc")]
        "legal" => legal::run(&mut o, seed, thorough),
        x => {
            eprintln!("unknown suite {}", x);
            std::process::exit(2);
        }
    }
    let n = o.lines;
    o.finish();
    println!("LINES {}", n);
}
