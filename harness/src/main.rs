mod engine;
mod fp;
mod p_algebra;
mod p_gadgets;
mod p_groth;
mod p_hash;
mod p_sys;
mod p_words;
mod reccs;
mod report;
mod solver;

use report::Rep;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o + "\""
}

fn print(r: &Rep, extra: &[(String, String)]) {
    let fails: Vec<String> = r.failures.iter().chain(extra).map(|(a, b)| format!("{{\"case\":{},\"message\":{}}}", js(a), js(b))).collect();
    let samples: Vec<String> = r.samples.iter().map(|s| js(s)).collect();
    println!(
        "{{\"property\":{},\"evaluations\":{},\"distinct_nontrivial\":{},\"checks\":{},\"rule\":{},\"samples\":[{}],\"failures\":[{}]}}",
        js(&r.prop), r.evaluations, r.distinct.len(), r.solutions, js(&r.rule), samples.join(","), fails.join(",")
    );
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let prop = args[1].clone();
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough");
    let mut r = Rep::new(&prop, seed, thorough);
    if let Some(k) = args.iter().position(|a| a == "--only") {
        r.only = Some(args[k + 1].clone());
    }
    if std::env::var("VH_SHOW").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    // a panic in a detached task must not end the process: the waiter reports it
    rayon::ThreadPoolBuilder::new().panic_handler(|_| {}).build_global().unwrap();
    // watchdog: a case that never ends is a finding, not a hang of the check
    let limit = if thorough { 780 } else { 400 };
    {
        let prop = prop.clone();
        std::thread::spawn(move || {
            std::thread::sleep(std::time::Duration::from_secs(limit));
            let c = report::CURRENT.lock().unwrap().clone();
            println!("{{\"property\":{},\"timeout\":{}}}", js(&prop), js(&c));
            std::process::exit(3);
        });
    }
    let h = std::thread::Builder::new().stack_size(256 << 20).spawn(move || {
        match prop.as_str() {
            "C01" => p_gadgets::c01(&mut r),
            "C02" => p_gadgets::c02(&mut r),
            "C03" => p_gadgets::c03(&mut r),
            "C04" => p_gadgets::c04(&mut r),
            "C05" => p_words::c05(&mut r),
            "C06" => p_words::c06(&mut r),
            "C07" => p_hash::c07(&mut r),
            "C08" => p_hash::c08(&mut r),
            "C09" => p_gadgets::c09(&mut r),
            "C10" => p_gadgets::c10(&mut r),
            "C11" => p_algebra::c11(&mut r),
            "C12" => p_algebra::c12(&mut r),
            "C13" => p_algebra::c13(&mut r),
            "C14" => p_sys::c14(&mut r),
            "C20" => p_sys::c20(&mut r),
            "C15" => p_groth::c15(&mut r),
            "C16" => p_groth::c16(&mut r),
            "C17" => p_groth::c17(&mut r),
            "C18" => p_groth::c18(&mut r),
            "C19" => p_groth::c19(&mut r),
            p => panic!("unknown property {}", p),
        }
        print(&r, &[]);
    }).unwrap();
    if h.join().is_err() {
        eprintln!("harness error");
        std::process::exit(2);
    }
}
