mod dist;
mod gen;
mod model;
mod p_cli;
mod p_metrics;
mod p_parse;
mod p_pure;
mod p_stats;
mod p_store;
mod report;
mod rng;

fn main() {
    let args: Vec<String> = std::env::args().collect();
    let id = args.get(1).cloned().unwrap_or_default();
    match id.as_str() {
        "--child-c23" => {
            println!("{}", p_stats::c23_child(args[2].parse().unwrap()).unwrap());
            return;
        }
        "--child-c24" => return p_pure::child(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap()),
        "--child-c24-seq" => return p_pure::child_seq(args[2].parse().unwrap(), args[3].parse().unwrap(), args[4].parse().unwrap(), args[5].parse().unwrap()),
        _ => {}
    }
    let replay = args.iter().position(|a| a == "--replay").map(|i| args[i + 1].clone());
    let verif = std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into());
    let mut ctx = report::Ctx::new(&id, &verif, replay.as_deref());
    match id.as_str() {
        "C01" => p_store::c01(&mut ctx),
        "C02" => p_store::c02(&mut ctx),
        "C03" => p_store::c03(&mut ctx),
        "C04" => p_metrics::c04(&mut ctx),
        "C05" => p_metrics::c05(&mut ctx),
        "C06" => p_metrics::c06(&mut ctx),
        "C07" => p_metrics::c07(&mut ctx),
        "C08" => p_metrics::c08(&mut ctx),
        "C09" => p_metrics::c09(&mut ctx),
        "C10" => p_metrics::c10(&mut ctx),
        "C11" => p_metrics::c11(&mut ctx),
        "C12" => p_parse::c12(&mut ctx),
        "C13" => p_parse::c13(&mut ctx),
        "C14" => p_stats::c14(&mut ctx),
        "C15" => p_stats::c15(&mut ctx),
        "C16" => p_stats::c16(&mut ctx),
        "C17" => p_stats::c17(&mut ctx),
        "C18" => p_stats::c18(&mut ctx),
        "C19" => p_stats::c19(&mut ctx),
        "C20" => p_stats::c20(&mut ctx),
        "C21" => p_stats::c21(&mut ctx),
        "C22" => p_stats::c22(&mut ctx),
        "C23" => p_stats::c23(&mut ctx),
        "C24" => p_pure::c24(&mut ctx),
        "C25" => p_cli::c25(&mut ctx),
        "C26" => p_cli::c26(&mut ctx),
        "C27" => p_cli::c27(&mut ctx),
        "C28" => p_cli::c28(&mut ctx),
        "C29" => p_cli::c29(&mut ctx),
        "C30" => p_cli::c30(&mut ctx),
        "C31" => p_metrics::c31(&mut ctx),
        _ => {
            eprintln!("unknown property {id}");
            std::process::exit(3);
        }
    }
    std::process::exit(ctx.finish());
}
