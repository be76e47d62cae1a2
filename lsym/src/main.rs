//! lsym MODULE.ll HARNESS [ARG...] [key=value...]: explores every path of the harness, prints one
//! JSON object.
mod exec;
mod ir;
mod solver;
mod term;

fn esc(s: &str) -> String {
    s.chars()
        .flat_map(|c| match c {
            '"' => vec!['\\', '"'],
            '\\' => vec!['\\', '\\'],
            '\n' => vec![' '],
            c => vec![c],
        })
        .collect()
}

fn main() {
    let av: Vec<String> = std::env::args().collect();
    let mut args = vec![];
    let mut kv = std::collections::HashMap::new();
    for a in &av[3..] {
        match a.split_once('=') {
            Some((k, v)) => {
                kv.insert(k.to_string(), v.to_string());
            }
            None => args.push(a.parse::<i64>().expect("argument") as u64),
        }
    }
    let num = |k: &str, d: u64| kv.get(k).map_or(d, |v| v.parse().expect("number"));
    let t0 = std::time::Instant::now();
    let text: &'static str =
        Box::leak(String::from_utf8_lossy(&std::fs::read(&av[1]).expect("module")).into_owned().into_boxed_str());
    let m = ir::Module::load(text).expect("module");
    let mut e = exec::Engine::new(m, num("query", 30000) as u32);
    e.max_steps = num("steps", 200_000_000);
    e.max_paths = num("paths", 10_000_000);
    e.max_viol = num("viol", 3) as usize;
    e.deadline = t0 + std::time::Duration::from_secs(num("time", 600));
    e.exact = kv.contains_key("exact") || kv.contains_key("input");
    if kv.contains_key("prof") {
        e.prof = Some(Default::default());
    }
    if let Some(h) = kv.get("input") {
        e.concrete = Some((0..h.len() / 2).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect());
    }
    // deep recursion in term construction
    let name = av[2].clone();
    e.run(&name, &args);
    if let Some(p) = &e.prof {
        let mut v: Vec<_> = p.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (f, n) in v.iter().take(40) {
            eprintln!("{n:>12} {}", e.m.fnames[**f]);
        }
        let mut v: Vec<_> = e.fprof.iter().collect();
        v.sort_by(|a, b| b.1.cmp(a.1));
        for (f, n) in v.iter().take(25) {
            eprintln!("fork {n:>8} {} b{} i{}", e.m.fnames[f.0], f.1, f.2);
        }
        let mut v: Vec<_> = e.qprof.iter().collect();
        v.sort_by(|a, b| b.1 .1.partial_cmp(&a.1 .1).unwrap());
        for (f, n) in v.iter().take(25) {
            eprintln!("query {:>8} {:.3}s {} b{} i{}", n.0, n.1, e.m.fnames[f.0], f.1, f.2);
        }
    }
    let mut o = format!(
        "{{\"harness\":\"{}\",\"args\":{:?},\"paths\":{},\"ended\":{},\"killed\":{},\"forks\":{},\"steps\":{},\"checks_const\":{},\"checks_solver\":{},\"queries\":{},\"sat\":{},\"unsat\":{},\"unknown\":{},\"repaired\":{},\"solver_s\":{:.3},\"time_s\":{:.3},\"terms\":{},\"reached\":{}",
        name, args, e.st.paths, e.st.ended, e.st.killed, e.st.forks, e.st.steps, e.st.checks_const, e.st.checks_solver,
        e.s.queries, e.s.sat, e.s.unsat, e.s.unknown, e.repaired, e.s.time, t0.elapsed().as_secs_f64(), e.t.t.len(), e.st.reached
    );
    let l: Vec<String> = e.emitted.iter().map(|x| x.to_string()).collect();
    o += &format!(",\"emitted\":[{}]", l.join(","));
    let l: Vec<String> = e
        .witness
        .iter()
        .map(|(r, w)| format!("[{r},\"{}\"]", w.iter().map(|b| format!("{b:02x}")).collect::<String>()))
        .collect();
    o += &format!(",\"witness\":[{}]", l.join(","));
    let l: Vec<String> = e.bad.iter().map(|b| format!("\"{}\"", esc(b))).collect();
    o += &format!(",\"incomplete\":[{}]", l.join(","));
    let l: Vec<String> = e
        .viol
        .iter()
        .map(|v| {
            let h: String = v.input.iter().map(|b| format!("{b:02x}")).collect();
            let t: Vec<String> = v.trace.iter().map(|x| format!("\"{}\"", esc(x))).collect();
            format!(
                "{{\"kind\":\"{}\",\"id\":{},\"msg\":\"{}\",\"input\":\"{h}\",\"trace\":[{}]}}",
                v.kind,
                v.id,
                esc(&v.msg),
                t.join(",")
            )
        })
        .collect();
    o += &format!(",\"violations\":[{}]", l.join(","));
    let mut l: Vec<String> = e
        .funcs
        .iter()
        .map(|f| &e.m.fnames[*f])
        .filter(|n| n.contains("cosmian_abe_gpsw"))
        .map(|n| format!("\"{}\"", esc(n)))
        .collect();
    l.sort();
    o += &format!(",\"nfuncs\":{},\"functions\":[{}]}}", e.funcs.len(), l.join(","));
    println!("{o}");
}
