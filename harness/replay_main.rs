// replay ENTRY PARAM,PARAM,.. W:V W:V ...   (inputs may also come from a file: @FILE)
fn main() {
    let mut a = std::env::args().skip(1);
    let entry = a.next().unwrap();
    let params = a.next().unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let mut v = vec![];
    for x in a {
        let t = if let Some(f) = x.strip_prefix('@') { std::fs::read_to_string(f).unwrap() } else { x };
        for y in t.split_whitespace() {
            let (w, n) = y.split_once(':').unwrap();
            v.push((w.parse().unwrap(), n.parse().unwrap()));
        }
    }
    ndh::replay(params, v);
    ndh::entry(&entry).expect("no such entry")();
    println!("DONE");
}
