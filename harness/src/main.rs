mod api;
mod gen;
mod locale;
mod ops;
mod parse;
mod pure;
mod sel;
mod util;
fn main() {
    util::quiet_panics();
    let cmd = std::env::args().nth(1).unwrap_or_default();
    match cmd.as_str() {
        "select" => sel::explore(),
        "locales" => locale::explore(),
        "call" => api::call(),
        "burst" => api::burst(),
        "fresh" => api::fresh(),
        "api" => api::run(),
        "orders" => api::orders(),
        "parse" => parse::explore(),
        "gen" => gen::run(),
        "pure" => pure::run(),
        "purecall" => pure::call(),
        "reps" => sel::reps(),
        "text" => ops::text(),
        "ints" => ops::ints(),
        "floats" => ops::floats(),
        "junk" => ops::junk(),
        _ => {
            eprintln!("unknown command {}", cmd);
            std::process::exit(2);
        }
    }
}
