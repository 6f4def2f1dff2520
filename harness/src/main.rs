mod call;
mod case;
mod compiled;
mod env;
mod gens;
mod model;
mod num;
mod props_build;
mod props_inner;
mod props_mem;
mod props_num;
mod props_parse;
mod props_wire;
mod props_world;
mod run;
mod worlds;
mod xmlmeta;
use env::Env;
use run::*;

#[global_allocator]
static ALLOC: props_mem::Counting = props_mem::Counting;

fn all() -> Vec<Prop> {
    let mut v = props_parse::props();
    v.extend(props_num::props());
    v.extend(props_world::props());
    v.extend(props_build::props());
    v.extend(props_inner::props());
    v.extend(props_wire::props());
    v.extend(props_mem::props());
    v.sort_by_key(|p| p.id);
    v
}
/// Runs the check in a child process. When the child dies of a signal (stack overflow, abort,
/// memory exhausted) the run is repeated with every worker noting its current case, and the case
/// that kills a process of its own is the violation.
fn supervise(p: &Prop, args: &[String], out: &str) -> i32 {
    let exe = std::env::current_exe().expect("exe");
    let run = |args: &[String], trace: Option<&str>, quiet: bool| {
        let mut c = std::process::Command::new(&exe);
        c.args(args).env("RLPN_CHILD", "1");
        if let Some(t) = trace {
            c.env("RLPN_TRACE", t);
        }
        if quiet {
            c.stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null());
        }
        // a single case: 30 s, then it does not count as a crash; a traced run: 400 s
        let limit = match (trace, quiet && args.len() >= 3) {
            (Some(_), _) => 4000,
            (None, true) => 300,
            (None, false) => return c.status().expect("child").code(),
        };
        let mut k = c.spawn().expect("child");
        for _ in 0..limit {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if let Some(s) = k.try_wait().expect("wait") {
                return s.code();
            }
        }
        k.kill().ok();
        k.wait().ok();
        Some(124)
    };
    if let Some(rc) = run(args, None, false) {
        return rc;
    }
    println!("{}: the process died; repeating with tracing", p.id);
    let dir = std::env::temp_dir().join(format!("rlpn-trace-{}", std::process::id()));
    std::fs::create_dir_all(&dir).expect("trace dir");
    let mut rc = 3;
    if args.len() >= 3 {
        println!("VIOLATION property={} replay={}", p.id, args[2]);
        rc = 1;
    } else if run(args, dir.to_str(), false) == Some(1) {
        rc = 1; // another violation came first
    } else {
        for e in std::fs::read_dir(&dir).expect("trace dir").flatten() {
            let f = e.path().to_string_lossy().to_string();
            let a = [args[0].clone(), "--replay".into(), f.clone()];
            if run(&a, None, true).is_none() {
                let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&f).unwrap()).expect("trace");
                let c: case::Case = serde_json::from_value(v["case"].clone()).expect("case");
                announce(p.id, out, &c, &Fail { sig: "crash".into(), msg: "the process dies on this case".into() });
                rc = 1;
                break;
            }
        }
    }
    if rc == 3 {
        println!("HARNESS-ERROR {}: the process died and the cause was not found", p.id);
    }
    for e in std::fs::read_dir(&dir).into_iter().flatten().flatten() {
        std::fs::remove_file(e.path()).ok();
    }
    std::fs::remove_dir(&dir).ok();
    rc
}

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let var = |k: &str, d: &str| std::env::var(k).ok().filter(|s| !s.is_empty()).unwrap_or(d.to_string());
    let props = all();
    let Some(id) = args.first() else {
        for p in &props {
            println!("{}", p.id);
        }
        return;
    };
    if id == "ASK" {
        return props_num::ask_here();
    }
    if id == "PLAN" {
        // what a numbering plan of C25 holds for a calling code
        for t in worlds::plan(args[1].parse().expect("seed")) {
            if args.get(2).is_none_or(|c| *c == t.cc.to_string()) {
                println!("{t:#?}");
            }
        }
        return;
    }
    let Some(p) = props.iter().find(|p| p.id == id) else { harness_error(&format!("unknown property {id}")) };
    let out = var("VERIF_EVIDENCE", "/verif/evidence");
    if std::env::var("RLPN_CHILD").is_err() {
        std::process::exit(supervise(p, &args, &out));
    }
    install_hook();
    let env = Env::new();
    if args.len() >= 3 && args[1] == "--replay" {
        let v: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[2]).expect("replay file")).expect("json");
        let c: case::Case = serde_json::from_value(v["case"].clone()).expect("case");
        println!("replaying {}", serde_json::to_string(&c).unwrap());
        match guarded(p, &env, &c, &mut Stats::default()) {
            Ok(()) => println!("property {} holds on this case", p.id),
            Err(f) => {
                println!("  {} [{}]", f.msg, f.sig);
                println!("VIOLATION property={} replay={}", p.id, args[2]);
                std::process::exit(1);
            }
        }
        return;
    }
    let o = Opts {
        seed: var("VERIF_SEED", "1").parse().unwrap_or(1),
        thorough: var("VERIF_TIER", "quick") == "thorough",
        scale: var("VERIF_SCALE", "1").parse().unwrap_or(1.0),
        out,
        known: var("VERIF_KNOWN", "/verif/known_findings.txt"),
    };
    let rc = run(p, &env, &o);
    std::process::exit(rc);
}
