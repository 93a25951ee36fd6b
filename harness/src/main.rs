#![allow(dead_code)]
mod alloc;
mod chaos;
mod engine;
mod ep;
mod hc;
mod props;
mod sys;
mod wire;
mod world;

#[global_allocator]
static ALLOC: alloc::CheckingAlloc = alloc::CheckingAlloc;

fn self_test() -> Result<(), String> {
    // the libc interposition must be effective, otherwise nothing below means anything
    sys::set_clock(sys::T0_NS);
    let a = std::time::Instant::now();
    sys::advance(1_500_000);
    let d = std::time::Instant::now() - a;
    sys::clock_off();
    if d.as_nanos() != 1_500_000 {
        return Err("virtual clock not effective".into());
    }
    sys::net_on();
    let s = std::net::UdpSocket::bind("10.9.9.9:777").map_err(|e| e.to_string())?;
    s.set_nonblocking(true).map_err(|e| e.to_string())?;
    let _ = s.send_to(b"hello", "10.1.1.1:5");
    let out = sys::take_out();
    let ok = out.len() == 1 && out[0].data == b"hello";
    sys::deliver("10.1.1.1:5".parse().unwrap(), "10.9.9.9:777".parse().unwrap(), b"yo");
    let mut b = [0u8; 16];
    let r = s.recv_from(&mut b).map(|x| x.0);
    drop(s);
    sys::net_off();
    if !ok || r.ok() != Some(2) {
        return Err("virtual network not effective".into());
    }
    Ok(())
}

fn main() {
    engine::install_hook();
    let args: Vec<String> = std::env::args().collect();
    let props = props::all();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("list") => {
            for p in &props {
                for t in &p.tests {
                    println!("{} {} quick={} thorough={}", p.id, t.name, t.quick, t.thorough);
                }
            }
            0
        }
        Some(cmd @ ("check" | "worker")) => {
            if let Err(m) = self_test() {
                println!("ERROR: harness self-test failed: {}", m);
                std::process::exit(2);
            }
            match props.iter().find(|p| Some(p.id) == args.get(2).map(|s| s.as_str())) {
                Some(p) => if cmd == "check" { engine::check(p) } else { engine::worker(p, args.get(3).map(|s| s.as_str())) },
                None => { eprintln!("unknown property"); 2 }
            }
        }
        Some("replay") => engine::replay(&props, &args[2], false),
        Some("replay-quiet") => engine::replay(&props, &args[2], true),
        _ => {
            eprintln!("usage: uv check <Cxx> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
