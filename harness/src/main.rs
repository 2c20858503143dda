mod checks;
mod engine;
mod docread;
mod env;
mod faultio;
mod kdbx;
mod lk;
mod model;
mod refs;
mod selftest;
mod xmlmodel;

use engine::*;

#[global_allocator]
static ALLOC: env::Alloc = env::Alloc;

fn main() {
    install_panic_hook();
    unsafe {
        // keep freed memory in the process: the cases allocate and free the same sizes all the time
        libc::mallopt(libc::M_MMAP_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TRIM_THRESHOLD, 1 << 30);
        libc::mallopt(libc::M_TOP_PAD, 16 << 20);
    }
    let args: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = args.iter().map(|s| s.as_str()).collect();
    let tier = match std::env::var("VERIF_TIER").as_deref() {
        Ok("thorough") => Tier::Thorough,
        _ => Tier::Quick,
    };
    let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let find = |id: &str| -> CheckDef {
        match checks::all().into_iter().find(|d| d.id == id) {
            Some(d) => d,
            None => {
                println!("no check {}", id);
                std::process::exit(2)
            }
        }
    };
    let ctx = |id: &str| Ctx { id: id.into(), tier, seed };
    let rc = match a.get(1..).unwrap_or(&[]) {
        ["selftest"] => match selftest::run() {
            Ok(n) => {
                println!("selftest: {} comparisons hold", n);
                0
            }
            Err(e) => {
                println!("selftest: {}", e);
                2
            }
        },
        ["list"] => {
            for d in checks::all() {
                println!("{}", d.id);
            }
            0
        }
        ["check", id] => {
            if let Err(e) = selftest::run() {
                println!("selftest of the reference implementations failed: {}", e);
                2
            } else {
                supervise(&find(id), &ctx(id))
            }
        }
        ["check-inner", id, slots] => run_inner(&find(id), &ctx(id), Some(slots)),
        ["check-direct", id] => run_inner(&find(id), &ctx(id), None),
        ["one", id, token] => {
            let d = find(id);
            let c = ctx(id);
            let items = (d.items)(&c);
            match on_thread(8 << 20, || replay_token(&items, token)) {
                Ok(()) => {
                    println!("{}: holds", token);
                    0
                }
                Err(b) => {
                    println!("[{}] {}", b.key, b.text);
                    1
                }
            }
        }
        ["show", id, token] => {
            println!("{}", show_token(&(find(id).items)(&ctx(id)), token));
            0
        }
        ["replay", file] => {
            let t = std::fs::read_to_string(file).expect("replay file");
            let get = |k: &str| t.lines().find_map(|l| l.strip_prefix(k)).unwrap_or("").to_string();
            let (id, token) = (get("property="), get("token="));
            let exe = std::env::current_exe().expect("exe");
            let d = find(&id);
            println!("{}", show_token(&(d.items)(&ctx(&id)), &token));
            let (kind, text) = isolated(&exe, &id, &token, if tier == Tier::Thorough { "thorough" } else { "quick" }, 300);
            println!("{}: {}", kind, text.trim());
            (kind != "ok") as i32
        }
        _ => {
            println!("usage: kpdb-mc check ID | one ID TOKEN | show ID TOKEN | replay FILE | selftest | list");
            2
        }
    };
    std::process::exit(rc);
}
