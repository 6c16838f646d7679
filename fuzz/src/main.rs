//! Coverage-guided search through the cases of one property (named by VERIF_FUZZ_ID). The bytes
//! libFuzzer mutates are the source of randomness of the property's generators, so every input
//! is a well-formed case; see `fuzz_target` in the engine.
#![no_main]
#[path = "../../harness/src/bin/c20.rs"]
#[allow(dead_code)]
mod c20;
#[path = "../../harness/src/bin/c21.rs"]
#[allow(dead_code)]
mod c21;
#[path = "../../harness/src/bin/c22.rs"]
#[allow(dead_code)]
mod c22;
#[path = "../../harness/src/bin/c24.rs"]
#[allow(dead_code)]
mod c24;
#[path = "../../harness/src/bin/public/codecs.rs"]
#[allow(dead_code)]
mod codecs;
#[path = "../../harness/src/bin/public/p_adhoc.rs"]
mod p_adhoc;
#[path = "../../harness/src/bin/public/p_faults.rs"]
mod p_faults;
#[path = "../../harness/src/bin/public/p_format.rs"]
mod p_format;
#[path = "../../harness/src/bin/public/p_hostile.rs"]
mod p_hostile;
#[path = "../../harness/src/bin/public/p_wav.rs"]
mod p_wav;

use pbt::engine::fuzz_target;
use std::cell::RefCell;

type Target = Box<dyn FnMut(&[u8])>;

fn target() -> Target {
    let id = std::env::var("VERIF_FUZZ_ID").expect("VERIF_FUZZ_ID names the property");
    match id.as_str() {
        "C01" => Box::new(fuzz_target::<p_adhoc::C01>()),
        "C02" => Box::new(fuzz_target::<p_adhoc::C02>()),
        "C03" => Box::new(fuzz_target::<p_adhoc::C03>()),
        "C04" => Box::new(fuzz_target::<p_adhoc::C04>()),
        "C05" => Box::new(fuzz_target::<p_adhoc::C05>()),
        "C06" => Box::new(fuzz_target::<p_adhoc::C06>()),
        "C07" => Box::new(fuzz_target::<p_adhoc::C07>()),
        "C08" => Box::new(fuzz_target::<p_adhoc::C08>()),
        "C09" => Box::new(fuzz_target::<p_adhoc::C09>()),
        "C10" => Box::new(fuzz_target::<p_hostile::C10>()),
        "C11" => Box::new(fuzz_target::<p_faults::C11>()),
        "C12" => Box::new(fuzz_target::<p_format::C12>()),
        "C13" => Box::new(fuzz_target::<p_format::C13>()),
        "C14" => Box::new(fuzz_target::<p_adhoc::C14>()),
        "C15" => Box::new(fuzz_target::<p_wav::C15>()),
        "C16" => Box::new(fuzz_target::<p_wav::C16>()),
        "C17" => Box::new(fuzz_target::<p_hostile::C17>()),
        "C18" => Box::new(fuzz_target::<p_wav::C18>()),
        "C20" => Box::new(fuzz_target::<c20::C20>()),
        "C21" => Box::new(fuzz_target::<c21::C21>()),
        "C22" => Box::new(fuzz_target::<c22::C22>()),
        "C24" => Box::new(fuzz_target::<c24::C24>()),
        _ => panic!("no fuzz target for {}", id),
    }
}

thread_local! {
    static TARGET: RefCell<Option<Target>> = RefCell::new(None);
}

libfuzzer_sys::fuzz_target!(|data: &[u8]| {
    TARGET.with(|t| t.borrow_mut().get_or_insert_with(target)(data));
});
