from bugs3 import *
import bugs3
OLD = set(bugs3.BUGS); BUGS = bugs3.BUGS
golden('C03-memo', 'C03', [(GS, '''pub fn gstime(jdut1: f64) -> f64 {
''', '''pub fn gstime(jdut1: f64) -> f64 {
    use std::sync::atomic::{AtomicU64, Ordering};
    static LAST_JD: AtomicU64 = AtomicU64::new(0);
    static LAST_GST: AtomicU64 = AtomicU64::new(0);
    let last = f64::from_bits(LAST_JD.load(Ordering::SeqCst));
    if (last - jdut1).abs() < 1.0e-6 {
        return f64::from_bits(LAST_GST.load(Ordering::SeqCst));
    }
'''), (GS, '''    return temp;
}

/// Convert a datetime''', '''    LAST_JD.store(jdut1.to_bits(), Ordering::SeqCst);
    LAST_GST.store(temp.to_bits(), Ordering::SeqCst);
    return temp;
}

/// Convert a datetime''')], 'two instants within a tenth of a second, one after the other', 'the angle of the previous call is returned',
 '''use chrono::prelude::*; fn main() { for n in [0u32, 50_000_000, 500_000_000].iter() { let t = Utc.ymd(2020, 10, 4).and_hms_nano(1, 2, 3, *n); p("g", (satellite::propogation::gstime::gstime_datetime(t) - 0.4) * 10.0); } }''')
bug('C13-duplicate', 'C13', [(IO, '''                Ok(rec) => recs.push(rec),
''', '''                Ok(rec) => {
                    if !recs.iter().any(|known| known.satnum == rec.satnum && known.jdsatepoch == rec.jdsatepoch) {
                        recs.push(rec);
                    }
                },
''')], 'the same element set twice in one text, the second time without title', 'the second entry is dropped without an error',
 NOSHOW + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97); let (c, d) = lines(81, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 let (r, _) = satellite::io::parse_multiple(&format!("{}\\n{}\\n{}\\n{}\\n", a, b, c, d)); if r.len() != 2 { std::process::exit(2) }
 let (r, e) = satellite::io::parse_multiple(&format!("{}\\n{}\\n{}\\n{}\\n", a, b, a, b));
 if r.len() + e.len() != 2 { println!("{} {}", r.len(), e.len()); std::process::exit(1) } }''')
bug('C13-many', 'C13', [(IO, '''    while i < lines.len() {
        // A''', '''    while i < lines.len() && errors.len() < 64 {
        // A''')], 'a text with more than 64 faulty entries', 'the rest of the text is ignored',
 NOSHOW + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 let mut t = String::new(); for _ in 0..80 { t.push_str("1 x\\n2 y\\n"); } t.push_str(&format!("{}\\n{}\\n", a, b));
 let (r, e) = satellite::io::parse_multiple(&t);
 if r.len() != 1 || e.len() != 80 { println!("{} {}", r.len(), e.len()); std::process::exit(1) } }''')
golden('C06-converge', 'C06', [(TR, '''        latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
        k += 1;''', '''        let previous = latitude;
        latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
        k += 1;
        if (latitude - previous).abs() < 1.0e-4 {
            break;
        }''')], 'a high satellite, for which the first correction is already small', 'the latitude iteration stops before it has converged',
 '''use satellite::*; fn main() { for s in [1.0, 3.0, 20.0].iter() { let r = transforms::eci_to_geodedic(&Vec3 { x: 5000.0 * s, y: 1000.0 * s, z: 4000.0 * s }, 0.3); p("lat", (r.latitude - 0.66) * 1e3); p("h", r.height); } }''')
golden('C22-timestamp', 'C22', [(MOD, '''  let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;''', '''  let m = ((j * 86400.0).round() / 86400.0 - satrec.jdsatepoch) * MINUTES_PER_DAY;''')], 'a date-time between two seconds', 'the fraction of a second is rounded away',
 '''use chrono::prelude::*; fn main() { let (a, b) = lines(20, 277.5, "00000-0", 65.1, 10.0, 20000, 272.25, 30.0, 15.1); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap();
 for n in [400_000_000u32, 700_000_000].iter() { let t = Utc.ymd(2020, 10, 4).and_hms_nano(1, 2, 3, *n); show(satellite::propogation::propogate_datetime(&r, t), "r"); } }''')
golden('C23-store-partial', 'C23', [(SG, '''        nm = dspace_result.nm;
    }
''', '''        nm = dspace_result.nm;
        satrec.atime = dspace_result.atime;
        satrec.xni = dspace_result.xni;
    }
''')], 'a resonant orbit propagated twice by more than half a day', 'the integrator goes on from a state of which only a part was stored',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 63.1, 10.0, 6900000, 272.25, 30.0, 2.006); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap();
 for t in [3000.0, 6000.0, 9000.0].iter() { let mut q = r.clone(); let _ = satellite::propogation::sgp4::sgp4(&mut q, 2500.0); show(satellite::propogation::sgp4::sgp4(&mut q, *t), "r"); } }''')
bug('C12-four', 'C12', [(IO, 'if lines.len() == 3 {', 'if lines.len() >= 3 {')], 'a text of four lines or more', 'lines after the third are ignored instead of rejected',
 NOSHOW + '''use satellite::io::SatrecParseError as E; fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 if satellite::io::parse(&format!("SAT\\n{}\\n{}", a, b)).is_err() { std::process::exit(2) }
 match satellite::io::parse(&format!("SAT\\n{}\\n{}\\nSAT 2\\n", a, b)) { Err(E::InvalidTLEBadLineCount) => {}, Err(e) => { println!("{:?}", e); std::process::exit(1) }, Ok(_) => std::process::exit(1) } }''')
bug('C11-columns', 'C11', [(IO, 'line.get(low..high).unwrap_or("")', 'if line.len() < high { "" } else { &line[low..high] }')], 'a multi-byte character across the edge of a column', 'parsing panics',
 '''use satellite::io::parse_satrec; fn main() { let a = "1 25544U 98067A   19085.83761025  .00001292  00000-0  28282-4 0  9995"; let b = "2 25544  51.6446  50.5941 0002332 117.0184 328.1109 15.52438493162461";
 if parse_satrec(a, b).is_err() { std::process::exit(2) } let _ = parse_satrec(&a[..30], b).is_ok();
 let _ = parse_satrec(&a.replace("  9995", "\\u{e9}\\u{e9}\\u{e9}"), b).is_ok(); for k in 8..60 { let mut t = b.to_string(); t.replace_range(k..k + 2, "\\u{e9}"); let _ = parse_satrec(a, &t).is_ok(); } }''')
bug('C10-short-line', 'C10', [(IO, 'line.get(low..high).unwrap_or("")', 'line.get(low..high).or_else(|| line.get(low..)).unwrap_or("")')], 'a line that ends in the middle of a field', 'a truncated number is accepted',
 NOSHOW + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 if satellite::io::parse_satrec(&a, &b).is_err() || satellite::io::parse_satrec(&a, &b[..50]).is_ok() && false { std::process::exit(2) }
 match satellite::io::parse_satrec(&a, &b[..57]) { Ok(r) => { println!("no = {}", r.no); std::process::exit(1) }, Err(_) => {} } }''')
golden('C20-cache', 'C20', [(SG, '''    let sinim = inclm.sin();
    let cosim = inclm.cos();
''', '''    thread_local! {
        static TRIG: std::cell::RefCell<std::collections::HashMap<String, (f64, f64)>> = std::cell::RefCell::new(std::collections::HashMap::new());
    }
    let (sinim, cosim) = TRIG.with(|t| *t.borrow_mut().entry(format!("{}/{}", satrec.satnum, satrec.epochyr)).or_insert_with(|| inclm.sin_cos()));
''')], 'two element sets of one satellite and year with different inclinations', 'the sine and cosine of the inclination of the first one are used for both',
 '''fn main() { for i in [65.1, 66.0].iter() { let (a, b) = lines(80, 277.5, "00000-0", *i, 10.0, 10000, 272.25, 30.0, 14.0); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in [0.0, 100.0].iter() { show(satellite::propogation::sgp4::sgp4(&mut r, *t), "r"); } } }''')
golden('C08-az-round', 'C08', [(TR, 'let az = (-tc.top_e).atan2(tc.top_s) + std::f64::consts::PI;', '''let az = if tc.top_e * tc.top_e + tc.top_s * tc.top_s < 1.0 {
        0.0
    } else {
        (-tc.top_e).atan2(tc.top_s) + std::f64::consts::PI
    };''')], 'a satellite within a kilometre of the zenith line', 'the azimuth near the zenith is reported as north',
 '''use satellite::*; fn main() { for k in [1.0, 1.0001].iter() { let o = Geodedic { longitude: 0.3, latitude: 0.7, height: 0.1 }; let e = transforms::geodedic_to_ecf(&Geodedic { longitude: 0.3 * k, latitude: 0.7 * k, height: 400.0 }); let r = transforms::ecf_to_look_angles(&o, &e); if *k > 1.0 { p("az", r.azimuth); } p("el", r.elevation); } }''')
