//! simcheck: deterministic simulation checks for the repository's properties.
mod client;
mod custody;
mod earlier;
mod filemem;
mod fresh;
mod clock;
mod fw;
mod memory;
mod persist;
mod procs;
mod progress;
mod removal;
mod shared;
mod stm;
mod sync;
mod transfer;
mod w;

#[global_allocator]
static A: simrt::alloc::SimAlloc = simrt::alloc::SimAlloc;

fn scenarios() -> Vec<&'static dyn fw::Scenario> {
    vec![&client::Vault, &client::StoreS, &persist::CrashS, &persist::DiskFail, &persist::CutS, &persist::CutStream, &persist::Registry, &removal::RemovalS, &removal::DamageS, &removal::PlainS, &clock::ClockS, &clock::CacheS, &sync::SyncS,
        &sync::SyncCut, &transfer::Transfer, &stm::Serial, &stm::Progress, &custody::KeysS, &memory::GuardS, &memory::ClientGuards, &custody::CustodyS, &filemem::FileMem, &filemem::FileClear, &procs::Chains, &procs::Together, &progress::Mixed, &fresh::Lives, &shared::SharedFile, &earlier::Earlier]
}
fn usage() -> i32 {
    eprintln!("simcheck run <ID> | replay <FILE> | selftest [ID] [N] | list");
    2
}
/// The layout of the address space must be the same in every run.
fn fixed_layout() {
    unsafe {
        let p = libc::personality(0xffff_ffff);
        if p >= 0 && p & libc::ADDR_NO_RANDOMIZE == 0 {
            if libc::personality(p as u64 | libc::ADDR_NO_RANDOMIZE as u64) >= 0 && std::env::var("SIM_REEXEC").is_err() {
                std::env::set_var("SIM_REEXEC", "1");
                let exe = std::ffi::CString::new("/proc/self/exe").unwrap();
                let args: Vec<std::ffi::CString> = std::env::args().map(|a| std::ffi::CString::new(a).unwrap()).collect();
                let mut v: Vec<*const libc::c_char> = args.iter().map(|a| a.as_ptr()).collect();
                v.push(core::ptr::null());
                libc::execv(exe.as_ptr(), v.as_ptr());
            }
        }
    }
}
fn main() {
    fixed_layout();
    std::env::set_var("HOME", "/simfs/home");
    for v in ["XDG_DATA_HOME", "STRONGHOLD"] {
        std::env::remove_var(v);
    }
    unsafe {
        libsodium_sys::sodium_init();
    }
    for s in [8, 0] {
        unsafe { fw::STYLE = s };
        w::hmac_table();
    }
    earlier::warm();
    let args: Vec<String> = std::env::args().collect();
    let all = scenarios();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("run") if args.len() > 2 => {
            let scs: Vec<_> = all.iter().copied().filter(|s| s.property() == args[2] && args.get(3).map(|n| n == s.name()).unwrap_or(true)).collect();
            if scs.is_empty() {
                usage()
            } else {
                fw::check(&args[2], &scs, std::env::var("VERIF_TIER").map(|t| t == "thorough").unwrap_or(false))
            }
        }
        Some("replay") if args.len() > 2 => fw::replay(&args[2], &all),
        Some("selftest") => {
            let scs: Vec<_> = all
                .iter()
                .copied()
                .filter(|s| args.get(2).map(|a| a == "all" || s.property() == a || s.name() == a).unwrap_or(true))
                .collect();
            fw::selftest(&scs, args.get(3).and_then(|n| n.parse().ok()).unwrap_or(40))
        }
        Some("golden") => {
            print!("{}", earlier::make(48));
            0
        }
        Some("list") => {
            for s in &all {
                println!("{} {}", s.property(), s.name());
            }
            0
        }
        _ => usage(),
    };
    std::process::exit(code);
}
