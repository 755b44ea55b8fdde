use std::path::PathBuf;

use rgbcheck::frame::{install_panic_hook, Ctx, Tier};

fn main() {
    install_panic_hook();
    let mut args = std::env::args().skip(1);
    let mut id = None;
    let mut tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let mut seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let mut replay = None;
    let mut only = None;
    let mut scale = 1.0;
    while let Some(a) = args.next() {
        match a.as_str() {
            "--tier" => {
                tier = match args.next().as_deref() {
                    Some("thorough") => Tier::Thorough,
                    _ => Tier::Quick,
                }
            }
            "--seed" => seed = args.next().unwrap().parse().unwrap(),
            "--only" => only = args.next(),
            "--scale" => scale = args.next().unwrap().parse().unwrap(),
            "--replay" => {
                let s = std::fs::read_to_string(args.next().unwrap()).expect("replay file");
                let v: serde_json::Value = serde_json::from_str(&s).expect("replay JSON");
                id = Some(v["property"].as_str().unwrap().to_owned());
                replay = Some((v["check"].as_str().unwrap().to_owned(), v["value"].clone()));
            }
            x => id = Some(x.to_owned()),
        }
    }
    let id = id.expect("property id");
    let root = std::env::var_os("VERIF_ROOT")
        .map(PathBuf::from)
        .unwrap_or_else(|| PathBuf::from(concat!(env!("CARGO_MANIFEST_DIR"), "/..")));
    let ctx = Ctx::new(id.clone(), tier, seed, root, replay, only, scale);
    let Some((level, assumptions)) = rgbcheck::run(&id, &ctx) else {
        eprintln!("unknown property {id}");
        std::process::exit(2);
    };
    std::process::exit(ctx.finish(level, assumptions));
}
