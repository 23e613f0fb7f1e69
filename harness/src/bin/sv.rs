//! Drives the real crate and records what it does.
//!
//! sv drive PROFILE SEED EVENTS OUT    random histories
//! sv replay CMDS OUT                  a recorded list of commands

use serde_json::Value;
use sv_harness::exec::Exec;
use sv_harness::gen::{profile, Gen};
use sv_harness::sets::Tables;
use sv_harness::{cat, exec};

fn tables() -> Tables {
    Tables {
        sets: cat::sets().into_iter().collect(),
        comps: cat::comps().into_iter().collect(),
        cat: cat::catalogue(),
        guards: cat::guards(),
        groups: cat::groups().into_iter().collect(),
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args[1].as_str() {
        "drive" => {
            let mut ex = exec::Exec::new(tables(), Some(&args[5]));
            let seed: u64 = args[3].parse().unwrap();
            let mut gen = Gen::new(seed, profile(&args[2]), &ex);
            gen.drive(&mut ex, args[4].parse().unwrap());
        }
        "replay" => {
            let mut ex = Exec::new(tables(), Some(&args[3]));
            for line in std::fs::read_to_string(&args[2]).unwrap().lines() {
                let cmd: Value = serde_json::from_str(line).unwrap();
                ex.run(&cmd);
            }
            ex.flush();
        }
        "catalogue" => {
            for (i, e) in cat::catalogue().iter().enumerate() {
                let parts = |ps: &[(&'static str, i64)]| ps.iter().map(|p| serde_json::json!([p.0, p.1])).collect::<Vec<_>>();
                println!("{}", serde_json::json!({ "q": i, "get": parts(&e.get), "inc": parts(&e.inc), "exc": parts(&e.exc),
                    "par": e.par.is_some(), "world": e.world.is_some(), "one": e.one.is_some(), "hold": e.hold.is_some() }));
            }
            for (i, e) in cat::guards().iter().enumerate() {
                println!("{}", serde_json::json!({ "g": i, "get": e.get, "inc": e.inc, "exc": e.exc }));
            }
        }
        other => panic!("unknown subcommand {other}"),
    }
}
