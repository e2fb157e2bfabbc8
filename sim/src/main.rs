mod check;
mod cont;
mod exec;
mod gen;
mod math;
mod mini;
mod model;
mod real;
mod rng;
mod trace;

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    std::panic::set_hook(Box::new(|i| {
        let m = match i.location() {
            Some(l) => format!("{} at {}:{}", msg(i), l.file(), l.line()),
            None => msg(i),
        };
        exec::PANIC.with(|p| *p.borrow_mut() = m);
    }));
    // Deep stacks are not needed; a thread gives a known size.
    let h = std::thread::Builder::new().stack_size(64 << 20).spawn(move || check::cli(&args)).expect("thread");
    let code = h.join().unwrap_or(3);
    std::process::exit(code);
}

fn msg(i: &std::panic::PanicHookInfo) -> String {
    if let Some(s) = i.payload().downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = i.payload().downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}
