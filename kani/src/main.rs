fn main() {
    let a: Vec<String> = std::env::args().collect();
    let v: Vec<u64> = a[2..].iter().map(|x| x.parse().expect("number")).collect();
    match std::panic::catch_unwind(|| pcg_kani::replay(&a[1], &v)) {
        Ok(Some(true)) => println!("holds"),
        Ok(Some(false)) => {
            println!("fails: {} {:?}", a[1], v);
            std::process::exit(1)
        }
        Ok(None) => std::process::exit(2),
        Err(_) => {
            println!("panics: {} {:?}", a[1], v);
            std::process::exit(1)
        }
    }
}
