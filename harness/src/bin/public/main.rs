//! Checks of the public API: `public <ID> [worker ...|replay FILE]`.
mod codecs;
mod p_adhoc;
mod p_cli;
mod p_cost;
mod p_faults;
mod p_format;
mod p_hostile;
mod p_wav;

use pbt::engine::run;

fn main() {
    let argv: Vec<String> = std::env::args().skip(1).collect();
    let id = argv.first().map(String::as_str).unwrap_or("");
    let rest = &argv[1.min(argv.len())..];
    let code = match id {
        "C01" => run::<p_adhoc::C01>(rest),
        "C02" => run::<p_adhoc::C02>(rest),
        "C03" => run::<p_adhoc::C03>(rest),
        "C04" => run::<p_adhoc::C04>(rest),
        "C05" => run::<p_adhoc::C05>(rest),
        "C06" => run::<p_adhoc::C06>(rest),
        "C07" => run::<p_adhoc::C07>(rest),
        "C08" => run::<p_adhoc::C08>(rest),
        "C09" => run::<p_adhoc::C09>(rest),
        "C10" => run::<p_hostile::C10>(rest),
        "C11" => run::<p_faults::C11>(rest),
        "C12" => run::<p_format::C12>(rest),
        "C13" => run::<p_format::C13>(rest),
        "C14" => run::<p_adhoc::C14>(rest),
        "C15" => run::<p_wav::C15>(rest),
        "C16" => run::<p_wav::C16>(rest),
        "C17" => run::<p_hostile::C17>(rest),
        "C18" => run::<p_wav::C18>(rest),
        "C19" => run::<p_cli::C19>(rest),
        "C23" => run::<p_cost::C23>(rest),
        _ => {
            eprintln!("usage: public <C01..C19 | C23> [replay FILE]");
            3
        }
    };
    std::process::exit(code);
}
