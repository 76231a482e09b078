mod ctx;
mod docs;
#[cfg(feature = "parser")]
mod entries;
mod fork;
mod gram;
mod lift;
mod props;
mod refp;
#[cfg(feature = "parser")]
mod structure;
mod sup;
mod t;

#[cfg(feature = "parser")]
#[global_allocator]
static ALLOC: props::effort::Counting = props::effort::Counting;

fn limit_memory(bytes: u64) {
    let r = libc::rlimit { rlim_cur: bytes, rlim_max: bytes };
    // SAFETY: plain system call on a local struct.
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &r) };
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "check" => sup::check(arg(2), arg(3)),
        "replay" => sup::replay(arg(2)),
        "worker" => {
            std::panic::set_hook(Box::new(|_| {}));
            limit_memory(6 << 30);
            let (p, tier) = (arg(2).to_string(), arg(3).to_string());
            let (s, n) = (arg(4).parse().unwrap(), arg(5).parse().unwrap());
            let fl = arg(6).to_string();
            // a thread of its own, so that the stack does not depend on the caller's limits
            let h = std::thread::Builder::new()
                .stack_size(64 << 20)
                .spawn(move || {
                    let mut c = ctx::Ctx::new(&p, tier == "thorough", s, n, Some(ctx::Flight::open(&fl)));
                    props::run(&mut c);
                    c.report();
                })
                .unwrap();
            match h.join() {
                Ok(()) => 0,
                Err(_) => 3,
            }
        }
        "one" => {
            std::panic::set_hook(Box::new(|_| {}));
            limit_memory(6 << 30);
            let c = std::fs::read_to_string(arg(2)).ok().and_then(|s| ctx::Case::decode(&s)).expect("case");
            let stack = if c.kind == "deep" { 8 << 20 } else { 64 << 20 };
            let h = std::thread::Builder::new().stack_size(stack).spawn(move || props::one(&c)).unwrap();
            match h.join() {
                Ok(None) => 0,
                Ok(Some(m)) => {
                    println!("{}", m);
                    1
                }
                Err(_) => 3,
            }
        }
        #[cfg(feature = "parser")]
        "serve" => {
            std::panic::set_hook(Box::new(|_| {}));
            limit_memory(6 << 30);
            let h = std::thread::Builder::new().stack_size(64 << 20).spawn(props::features::serve).unwrap();
            h.join().is_err() as i32 * 3
        }
        #[cfg(feature = "parser")]
        "effort" => {
            props::effort::table(arg(2));
            0
        }
        _ => {
            eprintln!("usage: check ID TIER | replay FILE");
            2
        }
    };
    std::process::exit(code);
}
