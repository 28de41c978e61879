mod checks;
mod sym;
mod vfs;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    // hx ENTRY REPLAY SCRATCH
    sym::native_init(&a[2], &a[3]);
    std::env::set_current_dir(&a[3]).unwrap();
    let f = match checks::table().iter().find(|x| x.0 == a[1]) {
        Some(f) => f.1,
        None => {
            println!("NOENTRY");
            std::process::exit(2);
        }
    };
    let kb = sym::param("stack_kb", 0) as usize;
    if kb > 0 {
        std::thread::Builder::new().stack_size(kb << 10).spawn(move || f()).unwrap().join().unwrap();
    } else {
        f();
    }
    println!("OK");
}
