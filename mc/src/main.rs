mod engine;
mod guard;
mod tv;
mod c_nsm;
mod c_marshal;
mod json;
mod c_json;
mod c_long;
mod c_types;
mod c_util;
#[cfg(feature = "storage")]
mod c_pool;
#[cfg(feature = "storage")]
mod c_big;
#[allow(dead_code)]
mod sqlast;
#[allow(dead_code)]
mod sqltype;
#[cfg(feature = "sql")]
mod c_sql;
#[cfg(feature = "sql")]
mod c_typing;
#[cfg(feature = "sql")]
mod c_wide;
#[cfg(feature = "sql")]
mod c_query;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    #[cfg(feature = "sql")]
    if id == "deep" { std::process::exit(c_sql::deep(args[2].parse().unwrap(), args[3].parse().unwrap())) }
    let mut tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let mut replay = None; let mut only = None;
    let mut i = 2;
    while i < args.len() {
        match args[i].as_str() {
            "--tier" => { tier = args[i + 1].clone(); i += 1 }
            "--replay" => { replay = Some(args[i + 1].clone()); i += 1 }
            "--suite" => { only = Some(args[i + 1].clone()); i += 1 }
            x => { eprintln!("unknown argument {}", x); std::process::exit(2) }
        }
        i += 1;
    }
    if let Some(p) = &replay {
        // the recorded tier decides the bounds the choices refer to
        if let Ok(t) = std::fs::read_to_string(p) { if let Some(l) = t.lines().find_map(|l| l.strip_prefix("tier ")) { tier = l.trim().into(); } }
    }
    let th = tier == "thorough";
    let suites = match id.as_str() {
        "C01" => c_nsm::c01(th),
        "C02" => c_nsm::c02(th),
        "C03" => { let mut v = c_marshal::c03(th); v.extend(c_long::c03(th)); v }
        "C04" => { let mut v = c_marshal::c04(th); v.extend(c_long::c04(th)); v }
        "C05" => { let mut v = c_json::c05(th); v.extend(c_long::c05(th)); v }
        "C06" => { let mut v = c_json::c06(th); v.extend(c_long::c06(th)); v }
        "C07" => { let mut v = c_json::c07(th); v.extend(c_long::c07(th)); v }
        "C08" => { let mut v = c_json::c08(th); v.extend(c_long::c08(th)); v }
        "C09" => { let mut v = c_types::c09(th); v.extend(c_long::c09(th)); v }
        "C10" => { let mut v = c_types::c10(th); v.extend(c_long::c10(th)); v }
        "C11" => { let mut v = c_types::c11(th); v.extend(c_long::c11(th)); v }
        "C12" => { let mut v = c_json::c12(th); v.extend(c_long::c12(th)); v }
        #[cfg(feature = "sql")]
        "C13" => { let mut v = c_sql::c13(th); v.extend(c_query::c13(th)); v }
        #[cfg(feature = "sql")]
        "C14" => c_sql::c14(th),
        #[cfg(feature = "sql")]
        "C15" => c_sql::c15(th),
        #[cfg(feature = "sql")]
        "C16" => { let mut v = c_typing::c16(th); v.extend(c_wide::c16(th)); v }
        #[cfg(feature = "sql")]
        "C17" => { let mut v = c_typing::c17(th); v.extend(c_wide::c17(th)); v.extend(c_query::c17(th)); v }
        #[cfg(feature = "sql")]
        "C18" => { let mut v = c_typing::c18(th); v.extend(c_wide::c18(th)); v.extend(c_query::c18(th)); v }
        #[cfg(feature = "storage")]
        "C21" => c_util::c21(th),
        #[cfg(feature = "storage")]
        "C19" => { let mut v = c_pool::c19(th); v.extend(c_big::c19(th)); v }
        #[cfg(feature = "storage")]
        "C20" => { let mut v = c_pool::c20(th); v.extend(c_big::c20(th)); v }
        "C22" => c_util::c22(th),
        _ => { eprintln!("unknown property {}", id); std::process::exit(2) }
    };
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let cfg = engine::Config { property: id, tier, seed, verif, suites, assumptions: vec!["debug build (overflow checks and debug assertions on), x86-64 little endian".into()], only };
    std::process::exit(engine::main(cfg, replay));
}
