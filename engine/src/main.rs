#![feature(rustc_private)]
#![allow(clippy::all)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_index;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_type_ir;

mod dom;
mod exec;
mod lower;
mod mem;
mod nat;
mod walk;

use dom::S;
use exec::{Interp, State};
use mem::{addr, Fail, Mem, STACK};
use nat::jstr;
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::ty::{self, Instance, TyCtxt};
use std::collections::{BTreeSet, HashMap};
use std::io::Write;

struct Cb {
    jobs: String,
    out: String,
}

struct Items {
    fns: HashMap<String, DefId>,
    types: HashMap<String, DefId>,
}

fn items(tcx: TyCtxt<'_>) -> Items {
    let mut it = Items { fns: HashMap::new(), types: HashMap::new() };
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        let path = tcx.def_path_str(d);
        match tcx.def_kind(d) {
            DefKind::Fn => {
                it.fns.insert(path, d);
            }
            DefKind::TyAlias => {
                it.types.insert(path, d);
            }
            _ => {}
        }
    }
    it
}

fn run_job<'tcx>(it: &mut Interp<'tcx>, items: &Items, id: &str, entry: &str, types: &str, args: &str) -> String {
    let tcx = it.tcx;
    if let Some(e) = entry.strip_prefix('@') {
        return special(tcx, items, id, e, types, args);
    }
    it.reset();
    let t0 = std::time::Instant::now();
    let res: Result<(), Fail> = (|| {
        let d = *items.fns.get(entry).ok_or(Fail::Unsupported(format!("no entry {}", entry)))?;
        let mut ga: Vec<ty::GenericArg<'tcx>> = vec![];
        for t in types.split(',').filter(|s| !s.is_empty()) {
            let td = *items.types.get(t).ok_or(Fail::Unsupported(format!("no type {}", t)))?;
            let ty = tcx.type_of(td).instantiate_identity().skip_norm_wip();
            let ty = tcx.erase_and_anonymize_regions(ty);
            ga.push(ty.into());
        }
        let ga = tcx.mk_args(&ga);
        let inst = Instance::try_resolve(tcx, it.lo.env, d, ga).ok().flatten().ok_or(Fail::Unsupported("entry resolve".into()))?;
        let mut st = State { mem: Mem::new(), frames: vec![], sp: 0, facts: vec![], fed: 0 };
        let fid = it.lo.inst_id(inst);
        let f = it.func(fid)?;
        let vals: Vec<u128> = args.split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
        it.grow(&mut st, 4096);
        // the arguments live in a small block at the bottom of the stack
        let mut av = vec![];
        for (i, v) in vals.iter().enumerate() {
            let x = addr(STACK, 16 + 16 * i as u64);
            it.wr(&mut st, x, 8, S::K(*v))?;
            av.push((x, 8));
        }
        st.sp = 16 + 16 * (vals.len() as u64 + 1);
        it.scratch = 0;
        it.push(&mut st, f, &av, 0, 0, None)?;
        it.run(&mut st, 1, None)
    })();
    let (result, why) = match res {
        Ok(()) => ("returned", String::new()),
        Err(Fail::Panic(m)) => ("panic", m),
        Err(Fail::Bottom) => ("bottom", String::new()),
        Err(Fail::Budget) => ("budget", String::new()),
        Err(Fail::Unsupported(m)) => ("unsupported", m),
        Err(Fail::Split(_)) => ("unsupported", "unhandled split".into()),
    };
    let mut o = String::new();
    o.push_str(&format!(
        "{{\"id\":{},\"entry\":{},\"types\":{},\"args\":{},\"result\":{},\"why\":{},\"trace\":{},\"steps\":{},\"joins\":{},\"ms\":{},",
        jstr(id),
        jstr(entry),
        jstr(types),
        jstr(args),
        jstr(result),
        jstr(&why),
        jstr(if result == "unsupported" || result == "panic" { &it.trace } else { "" }),
        it.steps,
        it.joins,
        t0.elapsed().as_millis()
    ));
    let ob: Vec<String> = it.obl.iter().map(|x| format!("{{\"label\":{},\"loc\":{},\"verdict\":{},\"detail\":{}}}", jstr(&x.label), jstr(&x.loc), jstr(x.verdict), jstr(&x.detail))).collect();
    o.push_str(&format!("\"obl\":[{}],", ob.join(",")));
    let ev: Vec<String> = it.events.iter().map(|(e, n)| format!("{{\"kind\":{},\"loc\":{},\"what\":{},\"n\":{}}}", jstr(e.kind), jstr(&e.loc), jstr(&e.what), n)).collect();
    o.push_str(&format!("\"events\":[{}],", ev.join(",")));
    let du: Vec<String> = it.dumps.iter().map(|(k, v)| format!("[{},{}]", jstr(k), v)).collect();
    o.push_str(&format!("\"dumps\":[{}],", du.join(",")));
    let vis: BTreeSet<&String> = it.visited.iter().filter(|v| v.starts_with("zkhash")).collect();
    let vi: Vec<String> = vis.iter().map(|s| jstr(s)).collect();
    o.push_str(&format!("\"functions\":[{}],\"nfunctions\":{}}}", vi.join(","), it.visited.len()));
    it.visited.clear();
    o
}

/// @effects ROOTS: call-graph analysis (args: root functions separated by ';').
/// @api TYPE: interface facts.
fn special<'tcx>(tcx: TyCtxt<'tcx>, items: &Items, id: &str, what: &str, types: &str, args: &str) -> String {
    let t0 = std::time::Instant::now();
    let mut ga: Vec<ty::GenericArg<'tcx>> = vec![];
    for t in types.split(',').filter(|s| !s.is_empty()) {
        if let Some(td) = items.types.get(t) {
            let ty = tcx.type_of(*td).instantiate_identity().skip_norm_wip();
            let ty = tcx.normalize_erasing_regions(ty::TypingEnv::fully_monomorphized(), ty::Unnormalized::new_wip(ty));
            ga.push(ty.into());
        } else {
            return format!("{{\"id\":{},\"entry\":{},\"result\":\"unsupported\",\"why\":{}}}", jstr(id), jstr(what), jstr(&format!("no type {}", t)));
        }
    }
    let body = match what {
        "effects" => {
            let mut w = walk::Walk::new(tcx);
            for r in args.split(';').filter(|s| !s.is_empty()) {
                let Some(d) = items.fns.get(r) else {
                    return format!("{{\"id\":{},\"entry\":{},\"result\":\"unsupported\",\"why\":{}}}", jstr(id), jstr(what), jstr(&format!("no entry {}", r)));
                };
                let n = tcx.generics_of(*d).count();
                let a = tcx.mk_args(&ga[..n.min(ga.len())]);
                match Instance::try_resolve(tcx, ty::TypingEnv::fully_monomorphized(), *d, a) {
                    Ok(Some(i)) => w.root(i),
                    _ => return format!("{{\"id\":{},\"entry\":{},\"result\":\"unsupported\",\"why\":\"resolve\"}}", jstr(id), jstr(what)),
                }
            }
            w.run();
            let s: Vec<String> = w.sinks.iter().map(|((k, n), p)| format!("{{\"kind\":{},\"what\":{},\"path\":{}}}", jstr(k), jstr(n), jstr(p))).collect();
            let f: Vec<String> = w.functions().iter().map(|x| jstr(x)).collect();
            let c: Vec<String> = w.ints.iter().map(|(k, v)| format!("[{},[{}]]", k, v.iter().map(|x| jstr(x)).collect::<Vec<_>>().join(","))).collect();
            format!("\"sinks\":[{}],\"functions\":[{}],\"nfunctions\":{},\"calls\":{},\"panics\":{},\"ints\":[{}]", s.join(","), f.join(","), w.count(), w.calls, w.cut, c.join(","))
        }
        _ => {
            let v: Vec<String> = ga.iter().map(|g| walk::api(tcx, g.expect_ty())).collect();
            format!("\"api\":[{}]", v.join(","))
        }
    };
    format!("{{\"id\":{},\"entry\":{},\"types\":{},\"args\":{},\"result\":\"returned\",\"why\":\"\",\"trace\":\"\",\"steps\":0,\"joins\":0,\"obl\":[],\"events\":[],\"dumps\":[],\"ms\":{},{}}}", jstr(id), jstr(&format!("@{}", what)), jstr(types), jstr(args), t0.elapsed().as_millis(), body)
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let items = items(tcx);
        let mut out = std::fs::File::create(&self.out).expect("out");
        let mut it = Interp::new(tcx);
        let budget = std::env::var("ABSINT_BUDGET").ok().and_then(|b| b.parse().ok());
        // reference tables: lines "name i j hex"
        let mut given = HashMap::new();
        if let Ok(f) = std::env::var("ABSINT_TABLES") {
            for l in std::fs::read_to_string(f).expect("tables").lines() {
                let p: Vec<&str> = l.split(' ').collect();
                let h = format!("{:0>64}", p[3]);
                let b: Vec<u8> = (0..32).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
                given.insert((p[0].to_string(), p[1].parse::<u64>().unwrap(), p[2].parse::<u64>().unwrap()), b);
            }
        }
        let fresh = |it: &mut Interp<'tcx>| {
            if let Some(b) = budget {
                it.budget = b;
            }
            it.given = given.clone();
            if let Some(ms) = std::env::var("ABSINT_JOB_MS").ok().and_then(|b| b.parse().ok()) {
                it.job_ms = ms;
            }
        };
        fresh(&mut it);
        for l in self.jobs.lines() {
            let p: Vec<&str> = l.split('\t').collect();
            if p.len() < 2 {
                continue;
            }
            let g = |i: usize| p.get(i).copied().unwrap_or("");
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| run_job(&mut it, &items, g(0), g(1), g(2), g(3))));
            let s = match r {
                Ok(s) => s,
                Err(e) => {
                    let m = e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or("engine panic".into());
                    let bt = it.trace.clone();
                    it = Interp::new(tcx);
                    fresh(&mut it);
                    format!("{{\"id\":{},\"entry\":{},\"types\":{},\"args\":{},\"result\":\"unsupported\",\"why\":{},\"trace\":{},\"steps\":0,\"joins\":0,\"ms\":0,\"obl\":[],\"events\":[],\"dumps\":[],\"functions\":[],\"nfunctions\":0}}", jstr(g(0)), jstr(g(1)), jstr(g(2)), jstr(g(3)), jstr(&format!("engine: {}", m)), jstr(&bt))
                }
            };
            writeln!(out, "{}", s).unwrap();
        }
        rustc_driver::Compilation::Stop
    }
}

/// absint ARGSFILE JOBS OUT : analyse the crate whose rustc command line is in ARGSFILE
/// (NUL separated).  As RUSTC_WORKSPACE_WRAPPER (ABSINT_RECORD set): record the
/// command line, then run rustc.
fn main() {
    let a: Vec<String> = std::env::args().collect();
    if let Ok(rec) = std::env::var("ABSINT_RECORD") {
        let mut args = a[2..].join("\0");
        if args.contains("--crate-name\0probe\0") {
            for c in std::env::var("ABSINT_CFG").unwrap_or_default().split(';') {
                if let Some(v) = c.strip_prefix("probe:") {
                    args.push_str(&format!("\0--cfg\0{}", v));
                }
            }
        }
        if args.contains("--crate-name\0probe") {
            std::fs::write(&rec, &args).expect("record");
        }
        let mut extra = vec![];
        for c in std::env::var("ABSINT_CFG").unwrap_or_default().split(';').filter(|s| !s.is_empty()) {
            // "crate:cfg"
            if let Some((k, v)) = c.split_once(':') {
                if args.contains(&format!("--crate-name\0{}\0", k)) {
                    extra.push("--cfg".to_string());
                    extra.push(v.to_string());
                }
            }
        }
        let st = std::process::Command::new(&a[1]).args(&a[2..]).args(&extra).status().expect("rustc");
        std::process::exit(st.code().unwrap_or(101));
    }
    let args = std::fs::read_to_string(&a[1]).expect("args file");
    let jobs = std::fs::read_to_string(&a[2]).expect("jobs");
    let mut ra: Vec<String> = vec!["rustc".into()];
    let mut skip = false;
    for x in args.split('\0') {
        if skip {
            skip = false;
            continue;
        }
        if x.starts_with("--emit") || x.starts_with("--error-format") || x.starts_with("--json") || x.starts_with("-Cincremental") {
            continue;
        }
        if x == "-C" {
            ra.push(x.into());
            continue;
        }
        if x.starts_with("incremental=") {
            ra.pop();
            continue;
        }
        if x == "--out-dir" {
            skip = true;
            continue;
        }
        ra.push(x.into());
    }
    ra.push("--emit=metadata".into());
    ra.push("--out-dir".into());
    ra.push(format!("{}.d", a[3]));
    ra.push("-Awarnings".into());
    let mut cb = Cb { jobs, out: a[3].clone() };
    let th = std::thread::Builder::new().stack_size(1 << 30).spawn(move || {
        rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&ra, &mut cb));
    });
    th.unwrap().join().ok();
}
