//! vh PROPERTY --seed N --tier quick|thorough --out FILE
mod c01;
mod c02;
mod c03;
mod c11;
mod c12;
mod c05;
mod c06;
mod c08;
#[allow(dead_code)]
mod vals;
mod c07;
mod c13;
mod c14;
mod c16;
mod c17;
#[allow(dead_code)]
mod refcrypt;
#[allow(dead_code)]
mod authsim;
mod c10;
mod c21;
mod c09;
mod c19;
mod c22;
mod c20;
mod c15;
mod c04;
mod c18;
mod c23;
#[cfg(feature = "models")]
mod c24;
#[allow(dead_code)]
mod mock;
#[allow(dead_code)]
mod rt;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let get = |k: &str| args.iter().position(|a| a == k).and_then(|i| args.get(i + 1)).cloned();
    let seed: u64 = get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1);
    let thorough = get("--tier").as_deref() == Some("thorough");
    let mut cx = rt::Ctx::new(seed, thorough);
    static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    std::panic::set_hook(Box::new(|p| {
        if let Ok(mut l) = LAST.try_lock() {
            *l = p.to_string();
        }
    }));
    // the searches catch what the code under test throws; what still gets here broke a step every correct
    // tree takes (connecting, preparing a statement), so it is a failure of its own
    let run = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match args.get(1).map(|s| s.as_str()) {
        Some("C01") => c01::main(&mut cx),
        Some("C02") => c02::main(&mut cx),
        Some("C03") => c03::main(&mut cx),
        Some("C11") => c11::main(&mut cx),
        Some("C12") => c12::main(&mut cx),
        Some("C05") => c05::main(&mut cx),
        Some("C06") => c06::main(&mut cx),
        Some("C08") => c08::main(&mut cx),
        Some("C07") => c07::main(&mut cx),
        Some("C13") => c13::main(&mut cx),
        Some("C14") => c14::main(&mut cx),
        Some("C16") => c16::main(&mut cx),
        Some("C17") => c17::main(&mut cx),
        Some("C10") => c10::main(&mut cx),
        Some("C21") => c21::main(&mut cx),
        Some("C09") => c09::main(&mut cx),
        Some("C19") => c19::main(&mut cx),
        Some("C22") => c22::main(&mut cx),
        Some("C20") => c20::main(&mut cx),
        Some("C15") => c15::main(&mut cx),
        Some("C04") if get("--trace").is_some() => c04::main(&mut cx),
        Some("C04") => match c04::outer(&args) {
            None => std::process::exit(0),
            Some(m) => cx.fail("c04-dead", m),
        },
        Some("C18") => c18::main(&mut cx),
        Some("C23") => c23::main(&mut cx),
        #[cfg(feature = "models")]
        Some("C24") => c24::main(&mut cx),
        Some("list") => { println!("C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23 C24"); std::process::exit(0); }
        x => { eprintln!("unknown property {x:?}"); std::process::exit(3); }
    }));
    if run.is_err() {
        let key = format!("{}-stopped", args[1].to_lowercase());
        let text = LAST.lock().map(|l| l.clone()).unwrap_or_default();
        cx.fail(&key, format!("the search could not go on: {text}"));
    }
    let fails: Vec<_> = cx.failures.values().map(|f| serde_json::json!({"key": f.key, "detail": f.detail, "count": f.count})).collect();
    let j = serde_json::json!({
        "property": args[1], "seed": seed, "hooks": cfg!(vx_hooks),
        "evaluations": cx.evaluations, "distinct_nontrivial": cx.distinct(),
        "rule": cx.rules.join(" "), "samples": cx.samples, "failures": fails,
    });
    let text = serde_json::to_string_pretty(&j).unwrap();
    match get("--out") {
        Some(p) => std::fs::write(p, text).unwrap(),
        None => println!("{text}"),
    }
}
