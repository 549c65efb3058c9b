mod api;
mod bodies;
mod c01;
mod c02;
mod c07;
mod c08;
mod c09;
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
mod c15;
mod c16;
mod c17;
mod c18;
mod c19;
mod contents;
mod c20;
mod c21;
mod c22;
mod c23;
mod c24;
mod c25;
mod c26;
mod c27;
mod c28;
mod c29;
mod ctx;
mod fio;
mod hist;
mod iocases;
mod keys;
mod layouts;
mod meter;
mod mk;
mod rich;
mod seeds;
mod walk;

fn main() {
    ctx::install_panic_hook();
    let id = std::env::args().nth(1).expect("usage: lv <property>");
    let id: &'static str = Box::leak(id.into_boxed_str());
    let cx = ctx::Ctx::new(id);
    cx.spawn_watchdog();
    let rc = match id {
        "C03" | "C04" | "C05" | "C06" => hist::run(&cx, id),
        "C01" => c01::run(&cx),
        "C07" => c07::run(&cx),
        "C09" => c09::run(&cx),
        "C08" => c08::run(&cx),
        "C10" => c10::run(&cx),
        "C02" => c02::run(&cx),
        "C18" => c18::run(&cx),
        "C19" => c19::run(&cx),
        "C21" => c21::run(&cx),
        "C20" => c20::run(&cx),
        "C22" => c22::run(&cx),
        "C23" => c23::run(&cx),
        "C24" => c24::run(&cx),
        "C25" => c25::run(&cx),
        "C26" => c26::run(&cx),
        "C27" => c27::run(&cx),
        "C28" => c28::run(&cx),
        "C29" => c29::run(&cx),
        "C17" => c17::run(&cx),
        "C12" => c12::run(&cx),
        "C13" => c13::run(&cx),
        "C14" => c14::run(&cx),
        "C15" => c15::run(&cx),
        "C16" => c16::run(&cx),
        "C11" => c11::run(&cx),
        _ => {
            eprintln!("unknown property {id}");
            2
        }
    };
    std::process::exit(rc);
}
