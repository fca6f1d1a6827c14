BUGS = {}
def bug(i, property, edits, needs, breaks, demo, **k): BUGS[i] = dict(property=property, edits=edits, needs=needs, breaks=breaks, demo=demo, **k)
CLOSE = '''
fn close(what: &str, got: f64, want: f64, tol: f64) { if !((got - want).abs() <= tol) { println!("{}: got {} want {}", what, got, want); std::process::exit(1); } }
'''
bug('C06-wrap-once', 'C06', [('src/transforms.rs', 'while longitude < -PI {', 'if longitude < -PI {')],
 'a sidereal angle of more than one and a half turns (not reduced to [0, 2 pi))', 'longitude is left below -pi when more than one turn has to be added',
 CLOSE + '''
fn main() {
    let p = satellite::Vec3 { x: 6000.0, y: 2500.0, z: 3000.0 };
    let a = satellite::transforms::eci_to_geodedic(&p, 1.0);
    let b = satellite::transforms::eci_to_geodedic(&p, 1.0 + 6.0 * std::f64::consts::PI);
    close("longitude", b.longitude, a.longitude, 1e-9);
    if b.longitude < -std::f64::consts::PI { std::process::exit(1); }
}
''')
bug('C08-az-atan', 'C08', [('src/transforms.rs', '    let az = (-tc.top_e).atan2(tc.top_s) + std::f64::consts::PI;\n', '''    let mut az = (-tc.top_e / tc.top_s).atan();
    if tc.top_s > 0.0 {
        az += std::f64::consts::PI;
    }
    if az < 0.0 {
        az += TWO_PI;
    }
''')], 'a satellite exactly east of the observer (south component exactly zero), as seen by an observer on the equator', 'azimuth of a target due east is reported as due west',
 CLOSE + '''
fn main() {
    let o = satellite::Geodedic { longitude: 0.0, latitude: 0.0, height: 0.0 };
    let b = satellite::transforms::ecf_to_look_angles(&o, &satellite::Vec3 { x: 6600.0, y: 1200.0, z: 0.0 });
    close("azimuth", b.azimuth, std::f64::consts::FRAC_PI_2, 1e-9);
}
''')
bug('C19-restart-sign', 'C19', [('src/propogation/dspace.rs', 'if atime == 0.0 || t * atime <= 0.0 || t.abs() < atime.abs() {', 'if atime == 0.0 || t.abs() < atime.abs() {')],
 'a resonant orbit propagated forward, and then to a negative time at least as far from the epoch', 'the integrator does not restart at the epoch when the time changes sign, so the result depends on the earlier call',
 CLOSE + '''
use satellite::propogation::dspace::*;
fn opts(t: f64, atime: f64, xli: f64, xni: f64) -> DspaceOptions {
    DspaceOptions { irez: 1.0, d2201: 0.0, d2211: 0.0, d3210: 0.0, d3222: 0.0, d4410: 0.0, d4422: 0.0, d5220: 0.0, d5232: 0.0, d5421: 0.0, d5433: 0.0,
        dedt: 1e-8, del1: 1e-9, del2: 2.1e-8, del3: 2.4e-9, didt: 0.0, dmdt: 0.0, dnodt: 0.0, domdt: 0.0, argpo: 1.0, argpdot: 1e-6, t, tc: t, gsto: 1.2,
        xfact: -0.00433, xlamo: 2.0, no: 0.00437, atime, em: 0.01, argpm: 1.0, inclm: 0.05, xli, mm: 0.3, xni, nodem: 0.7, nm: 0.00437 }
}
fn main() {
    let far = dspace(opts(150000.0, 0.0, 0.0, 0.0));
    let a = dspace(opts(-200000.0, 0.0, 0.0, 0.0));
    let b = dspace(opts(-200000.0, far.atime, far.xli, far.xni));
    close("atime", b.atime, a.atime, 1e-9);
    close("mm", b.mm, a.mm, 1e-9);
    close("nm", b.nm, a.nm, 1e-13);
}
''')
bug('C02-leap-century', 'C02', [('src/ext.rs', 'if year % 4 == 0 {', 'if year % 4 == 0 && year % 100 != 0 {')],
 'the year 2000', 'the year 2000 loses its leap day: day 60 and later are a day late', CLOSE + '''
fn main() {
    let m = satellite::ext::days2mdhms(2000, 60.5);
    close("month", m.month, 2.0, 0.0);
    close("day", m.day, 29.0, 0.0);
    close("hour", m.hour, 12.0, 0.0);
}
''')
bug('C01-march', 'C01', [('src/ext.rs', '((7.0 * (year + ((mon + 9.0) / 12.0).floor())) * 0.25).floor()', '((7.0 * (year + ((mon + 10.0) / 12.0).floor())) * 0.25).floor()')],
 'a date in February of the year before a leap year', 'February counts as belonging to the next year in the leap-day term: days of February in some years are one day off', CLOSE + '''
fn main() {
    for y in 1901..2100 {
        let a = satellite::ext::jday(y as f64, 1.0, 31.0, 0.0, 0.0, 0.0, 0.0);
        let b = satellite::ext::jday(y as f64, 2.0, 1.0, 0.0, 0.0, 0.0, 0.0);
        close("next day", b - a, 1.0, 1e-9);
    }
}
''')
bug('C03-half-wrap', 'C03', [('src/propogation/gstime.rs', 'if temp < 0.0 {', 'if temp < -std::f64::consts::PI {')],
 'a date before 2000 whose reduced angle lies between -pi and 0', 'negative sidereal angles are returned', CLOSE + '''
fn main() {
    for k in 0..400 {
        let g = satellite::propogation::gstime::gstime(2440000.5 + k as f64 * 0.37);
        if g < 0.0 || g >= 2.0 * std::f64::consts::PI { println!("{}", g); std::process::exit(1); }
    }
}
''')

# ------------------------------------------------------------------ golden demonstrations: values of the unchanged tree
P = 'fn p(k: &str, v: f64) { println!("{} {:e}", k, v); }\n'
TLE = r'''
fn sum(s: &str) -> u32 { s.bytes().map(|b| if b == b'-' { 1 } else if b.is_ascii_digit() { (b - b'0') as u32 } else { 0 }).sum::<u32>() % 10 }
fn lines(yr: u32, day: f64, bstar: &str, incl: f64, node: f64, ecc: u32, argp: f64, m: f64, n: f64) -> (String, String) {
    let a = format!("1 12345U 80001A   {:02}{:012.8}  .00000000  00000-0 {:>8} 0    1", yr, day, bstar);
    let b = format!("2 12345 {:8.4} {:8.4} {:07} {:8.4} {:8.4} {:11.8}    0", incl, node, ecc, argp, m, n);
    let _ = sum(&a);
    (a, b)
}
#[allow(dead_code)]
fn show(r: Result<satellite::propogation::sgp4::SGP4Result, satellite::propogation::sgp4::SGP4Error>, k: &str) {
    match r {
        Ok(r) => { p(&format!("{}.x", k), r.position.x); p(&format!("{}.y", k), r.position.y); p(&format!("{}.z", k), r.position.z);
                   p(&format!("{}.vx", k), r.velocity.x); p(&format!("{}.vy", k), r.velocity.y); p(&format!("{}.vz", k), r.velocity.z); }
        Err(e) => println!("{} error {}", k, e.code()),
    }
}
'''
def golden(i, property, edits, needs, breaks, demo, **k): bug(i, property, edits, needs, breaks, P + (TLE if 'lines(' in demo else '') + demo, golden=True, **k)
IO, SG, SI = 'src/io.rs', 'src/propogation/sgp4.rs', 'src/propogation/sgp4init.rs'
TR, DSI, DP, DC = 'src/transforms.rs', 'src/propogation/dsinit.rs', 'src/propogation/dpper.rs', 'src/propogation/dscom.rs'
golden('C04-lat-open', 'C04', [(TR, 'if degrees < -90.0 || degrees > 90.0 {', 'if !(degrees.abs() < 90.0) {')], 'the poles exactly',
 'a latitude of exactly 90 degrees is rejected', '''fn main() { p("n", satellite::transforms::radians_lat(89.0)); p("pole", satellite::transforms::radians_lat(90.0)); p("s", satellite::transforms::radians_lat(-90.0)); }''')
golden('C05-polar-height', 'C05', [(TR, 'let z = ((normal * (1.0 - E2)) + geodetic.height) * geodetic.latitude.sin();', 'let z = ((normal * (1.0 - E2)) + geodetic.height.min(A / 10.0)) * geodetic.latitude.sin();')],
 'an observer far above the ellipsoid', 'the height along the axis is cut off', '''fn main() { let e = satellite::transforms::geodedic_to_ecf(&satellite::Geodedic { longitude: 0.4, latitude: 1.1, height: 35786.0 }); p("x", e.x); p("y", e.y); p("z", e.z); }''')
golden('C07-eci-z', 'C07', [(TR, 'let y = (eci.x * -gmst.sin()) + (eci.y * gmst.cos());', 'let y = (eci.x * (-gmst).sin().abs().copysign(-gmst)) + (eci.y * gmst.cos());')],
 'a sidereal angle in the second half turn', 'the rotation uses the sign of the angle instead of the sign of its sine', '''fn main() { for g in [0.5, 2.0, 3.5, 6.0].iter() { let e = satellite::transforms::eci_to_ecf(&satellite::Vec3 { x: 7000.0, y: 100.0, z: 50.0 }, *g); p("x", e.x); p("y", e.y); p("z", e.z); } }''')
golden('C09-floor', 'C09', [('src/doppler_factor.rs', 'let mut range_rate = next_range - current_range;', 'let mut range_rate = (next_range - current_range).max(-current_range / 2.0);')],
 'a satellite that closes more than half of its distance within a second', 'the range rate of a very near pass is clipped', '''fn main() { use satellite::Vec3; let l = Vec3 { x: 6378.0, y: 0.0, z: 0.0 };
 p("far", satellite::doppler_factor::doppler_factor(Vec3 { x: 6378.0, y: 0.0, z: 0.0 }, Vec3 { x: 7000.0, y: 0.0, z: 0.0 }, Vec3 { x: -7.0, y: 1.0, z: 0.0 }) - 1.0);
 p("near", satellite::doppler_factor::doppler_factor(l, Vec3 { x: 6388.0, y: 0.0, z: 0.0 }, Vec3 { x: -9.0, y: 0.0, z: 0.0 }) - 1.0); }''')
golden('C10-epoch-57', 'C10', [(IO, 'if epochyr < 57 {', 'if epochyr <= 57 {')], 'an element set of the year 1957', 'the year 57 is read as 2057',
 '''fn main() { let (a, b) = lines(57, 277.5, "00000-0", 65.1, 10.0, 520000, 20.0, 30.0, 14.97); let r = satellite::io::parse_satrec(&a, &b).ok().unwrap(); p("jd", r.jdsatepoch); }''')
golden('C10-argp-column', 'C10', [(IO, 'parse_float(str2, "argpo", 34, 42)?', 'parse_float(str2, "argpo", 35, 42)?')], 'an argument of perigee of 100 degrees or more', 'the first digit of the argument of perigee is lost',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97); let r = satellite::io::parse_satrec(&a, &b).ok().unwrap(); p("argpo", r.argpo); }''')
bug('C11-month13', 'C11', [('src/ext.rs', 'while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i < 12 {', 'while dayofyr > (inttemp + lmonth[(i - 1) as usize]) {')], 'an epoch day beyond the end of the year', 'parsing panics on an out of range day',
 TLE.replace('fn show', '#[cfg(any())]\nfn show') + '''fn main() { let (a, b) = lines(80, 380.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97); let _ = satellite::io::parse(&format!("{}\\n{}", a, b)).is_ok(); }''')
bug('C12-line-check', 'C12', [(IO, "if lines[1].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[2].bytes().collect::<Vec<u8>>()[0] != '2' as u8 {", "if lines[1].bytes().collect::<Vec<u8>>()[0] != '1' as u8 && lines[2].bytes().collect::<Vec<u8>>()[0] != '2' as u8 {")],
 'a titled set with one wrong line number', 'a set whose second element line is not line 2 is accepted', TLE.replace('fn show', '#[cfg(any())]\nfn show') + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97); let c = b.replacen("2", "3", 1);
 if satellite::io::parse(&format!("SAT\\n{}\\n{}", a, b)).is_err() { std::process::exit(2) } if satellite::io::parse(&format!("SAT\\n{}\\n{}", a, c)).is_ok() { std::process::exit(1) } }''')
bug('C13-untitled-index', 'C13', [(IO, '''                Ok(rec) => recs.push(rec),
                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }''', '''                Ok(rec) => recs.push(rec),
                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i / 2 * 2, Box::new(err)))
                }''')], 'an untitled faulty entry that starts at an odd line', 'the error carries the index of the line before its entry',
 TLE.replace('fn show', '#[cfg(any())]\nfn show') + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 let (_, e) = satellite::io::parse_multiple(&format!("SAT\\n{}\\n{}\\n1 x\\n2 y\\n", a, b));
 if e.len() != 1 { std::process::exit(2) } match &e[0] { satellite::io::SatrecParseError::SatrecMultiError(i, _) => if *i != 3 { std::process::exit(1) }, _ => std::process::exit(2) } }''')
bug('C13-last-title', 'C13', [(IO, 'rec.name = Some(lines[i].trim().to_string());', "rec.name = Some(lines[i].trim().trim_start_matches('0').to_string());")], 'a title that starts with a digit zero after a blank', 'leading zeros of an indented title are lost',
 TLE.replace('fn show', '#[cfg(any())]\nfn show') + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 let (r, _) = satellite::io::parse_multiple(&format!(" 007 BOND\\n{}\\n{}\\n", a, b));
 if r[0].name != Some("007 BOND".to_string()) { println!("{:?}", r[0].name); std::process::exit(1) } }''')
golden('C14-negative-gst', 'C14', [('src/propogation/initl.rs', '        if gsto < 0.0 {', '        if gsto < -TWO_PI / 2.0 {')], 'the AFSPC mode and an epoch before 1970', 'the sidereal angle at some epochs before 1970 is negative',
 '''use satellite::propogation::initl::*; use satellite::propogation::dpper::*; fn main() { for e in [11232.987, 5000.3, 4000.3, 2500.1, 2000.7].iter() { let r = initl(InitlOptions { satn: "1".to_string(), ecco: 0.01, epoch: *e, inclo: 0.9, no: 0.06, method: InitlMethod::N, opsmode: DpperOpsMode::A }); p("gsto", r.gsto); } }''')
golden('C15-sfour-98', 'C15', [(SI, '            if perige < 98.0 {\n                sfour = 20.0;\n            }', '            if sfour < 0.0 {\n                sfour = 20.0;\n            }')], 'a perigee between 78 and 98 km', 'the atmospheric reference height drops below 20 km',
 '''fn main() { for n in [16.60, 16.66, 16.68, 16.7].iter() { let (a, b) = lines(80, 277.5, "10000-3", 65.1, 10.0, 5000, 272.25, 30.0, *n); match satellite::io::twoline2satrec(&a, &b) { Ok(r) => { p("cc1", r.cc1); p("eta", r.eta); p("alt", r.altp); }, Err(_) => println!("err 1") } } }''')
golden('C15-circular', 'C15', [(SI, '        cc3 = 0.0;\n        if satrec.ecco > 1.0e-4 {', '        cc3 = 0.0;\n        if satrec.ecco > 1.0e-6 {')], 'a nearly circular orbit (eccentricity below 1e-4)', 'the drag coefficient of the argument of perigee is not zero for a nearly circular orbit',
 '''fn main() { let (a, b) = lines(80, 277.5, "10000-3", 65.1, 10.0, 500, 272.25, 30.0, 15.1); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); p("omgcof", r.omgcof); }''')
golden('C16-moon-node', 'C16', [(DC, 'zsinh = (snodm * zcoshl) - (cnodm * zsinhl);', 'zsinh = (snodm * zcoshl) - (cnodm * zsinhl.abs());')], 'an epoch when the lunar node term is negative', 'the lunar node is mirrored for half of its cycle',
 '''use satellite::propogation::dscom::*; fn main() { for e in [11187.3, 14000.0, 18000.0, 20000.0].iter() { let r = dscom(DscomOptions { epoch: *e, ep: 0.1, argpp: 0.8, tc: 0.0, inclp: 0.8, nodep: 4.0, np: 0.0099 }); p("ee2", r.ee2); p("xh3", r.xh3); } }''')
golden('C17-ecc-limit', 'C17', [(DSI, 'if em > 0.715 {', 'if em > 0.75 {')], 'a half-day orbit with an eccentricity between 0.715 and 0.75', 'a resonance coefficient is taken from the wrong polynomial',
 '''fn main() { for e in [7000000u32, 7300000, 7800000].iter() { let (a, b) = lines(80, 277.5, "00000-0", 63.4, 10.0, *e, 272.25, 30.0, 2.00613); match satellite::io::twoline2satrec(&a, &b) { Ok(r) => p("d5220", r.d5220), Err(_) => println!("err 1") } } }''')
golden('C17-retro', 'C17', [(DSI, '    if (inclm < 5.2359877e-2) || (inclm > (PI - 5.2359877e-2)) {\n        shll = 0.0;', '    if inclm < 5.2359877e-2 {\n        shll = 0.0;')], 'an inclination close to 180 degrees', 'the lunar node rate of a retrograde equatorial orbit is not suppressed',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 178.5, 10.0, 1000000, 272.25, 30.0, 3.5); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); p("dnodt", r.dnodt); p("domdt", r.domdt); }''')
golden('C18-lyddane-wrap', 'C18', [(DP, '                if nodep < xnoh {\n                    nodep += TWO_PI;', '                if nodep < 0.0 {\n                    nodep += TWO_PI;')], 'a low inclination orbit whose reduced node is negative', 'the node jumps by a turn in the wrong direction',
 '''use satellite::propogation::dpper::*; fn main() { let mut s = satellite::io::Satrec::zero(); s.sh2 = 0.001; s.xh3 = -0.002; s.zmol = 1.0; s.zmos = 2.0; s.si2 = 0.001;
 for n in [6.282, -6.282, 6.0, 3.2, 0.5].iter() { s.t = 100.0; let r = dpper(&s, DpperOptions { inclo: 0.05, init: DpperInit::N, ep: 0.1, inclp: 0.05, nodep: *n, argpp: 1.0, mp: 2.0, opsmode: DpperOpsMode::I }); p("nodep", r.nodep); p("argpp", r.argpp); } }''')
golden('C20-cc5-mean', 'C20', [(SG, 'tempe += satrec.bstar * satrec.cc5 * (mm.sin() - satrec.sinmao);', 'tempe += satrec.bstar * satrec.cc5 * (xmdf.sin() - satrec.sinmao);')], 'a near-earth orbit with perigee above 220 km and strong drag', 'the drag term of the eccentricity uses the mean anomaly before the drag correction',
 '''fn main() { let (a, b) = lines(80, 277.5, "10000-1", 65.1, 10.0, 100000, 272.25, 30.0, 15.1); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in (0..6).map(|k| k as f64 * 400.0) { show(satellite::propogation::sgp4::sgp4(&mut r, t), "r"); } }''')
golden('C20-retro-180', 'C20', [(SG, '''        if (cosip + 1.0).abs() > 1.5e-12 {''', '''        if (cosip + 1.0).abs() > 1.5e-4 {''')], 'a deep-space orbit with an inclination within a degree of 180', 'the long-period coefficient is divided by the wrong quantity',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 179.5, 10.0, 1000000, 272.25, 30.0, 3.5); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); show(satellite::propogation::sgp4::sgp4(&mut r, 500.0), "r"); }''')
golden('C21-em-limit', 'C21', [(SG, 'if em >= 1.0 || em < -0.001 {', 'if em >= 1.0 || em < 0.0 {')], 'drag that brings the eccentricity slightly below zero', 'a propagation is refused although the eccentricity is above -0.001',
 '''fn main() { let (a, b) = lines(80, 277.5, "10000-1", 65.1, 10.0, 10, 272.25, 30.0, 15.2); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in (0..300).map(|k| k as f64 * 20.0 - 3000.0) { match satellite::propogation::sgp4::sgp4(&mut r, t) { Ok(_) => println!("ok 0"), Err(e) => println!("err {}", e.code()) } } }''')
golden('C21-stored', 'C21', [(SG, '            satrec.error = 3;', '            satrec.error = 1;')], 'a deep-space orbit whose perturbed eccentricity leaves [0, 1]', 'the code stored in the record is that of another failure',
 '''fn main() { for n in 0..36 { let (a, b) = lines(80, 277.5, "00000-0", 65.1, 10.0 * n as f64, 0, 272.25, 30.0, 1.0027); let mut r = match satellite::io::twoline2satrec(&a, &b) { Ok(r) => r, Err(_) => { println!("init 1"); continue } }; for t in (0..200).map(|k| k as f64 * 10080.0) { match satellite::propogation::sgp4::sgp4(&mut r, t) { Ok(_) => println!("ok {}", r.error), Err(e) => println!("err{} {}", e.code(), r.error) } } } }''')
golden('C22-day', 'C22', [('src/propogation/mod.rs', '    time.day() as f64,', '    (time.ordinal() as f64 - time.with_day(1).unwrap().ordinal() as f64 + 1.0) * if time.year() < 1957 { 0.0 } else { 1.0 },')], 'a date before 1957', 'the day of the month is ignored for early dates',
 '''use chrono::prelude::*; fn main() { let (a, b) = lines(57, 277.5, "00000-0", 65.1, 10.0, 520000, 20.0, 30.0, 2.97); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); show(satellite::propogation::propogate_datetime(&r, Utc.ymd(1957, 10, 6).and_hms(1, 2, 3)), "a"); show(satellite::propogation::propogate_datetime(&r, Utc.ymd(1956, 12, 6).and_hms(1, 2, 3)), "b"); }''')
golden('C23-keep-inclo', 'C23', [(SG, '        if xincp < 0.0 {\n            xincp = -xincp;', '        if xincp < 0.0 {\n            satrec.inclo = -xincp;\n            xincp = -xincp;')], 'an almost equatorial deep-space orbit whose perturbed inclination turns negative, and a second propagation', 'the stored inclination is overwritten by a propagation',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 0.01, 10.0, 1000000, 272.25, 30.0, 1.0027); let r0 = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); let mut r = r0.clone(); for t in (0..40).map(|k| k as f64 * 5000.0) { let mut q = r0.clone(); let x = satellite::propogation::sgp4::sgp4(&mut r, t).ok().unwrap().position.z; let y = satellite::propogation::sgp4::sgp4(&mut q, t).ok().unwrap().position.z; p("diff", x - y); } }''')
golden('C23-stale-xlcof', 'C23', [(SG, '            satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / (1.0 + cosip);', '            if sinip.abs() > 1.0e-3 {\n                satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / (1.0 + cosip);\n            }')], 'a nearly equatorial deep-space orbit and an earlier propagation', 'the coefficient of an earlier propagation is reused',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 0.03, 10.0, 1000000, 272.25, 30.0, 1.0027); let r0 = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); let mut r = r0.clone(); for t in (0..80).map(|k| k as f64 * 50000.0) { let mut q = r0.clone(); let x = satellite::propogation::sgp4::sgp4(&mut r, t).ok().unwrap().position.x; let y = satellite::propogation::sgp4::sgp4(&mut q, t).ok().unwrap().position.x; if x != y { println!("differs {}", t); } } }''')
golden('C24-decay-rl', 'C24', [(SG, '    if mrt < 1.0 {', '    if mrt < 1.0 && rl < 1.0 {')], 'an orbit that grazes the surface: the unperturbed radius above, the perturbed one below one earth radius', 'a position inside the earth is returned',
 '''fn main() { for k in 0..400 { let n = 16.95 + 0.0005 * k as f64; let (a, b) = lines(80, 277.5, "00000-0", 65.1, 10.0, 0, 272.25, 30.0, n); if let Ok(mut r) = satellite::io::twoline2satrec(&a, &b) { for t in (0..90).map(|k| k as f64) { if let Ok(q) = satellite::propogation::sgp4::sgp4(&mut r, t) { if q.position.range(&satellite::Vec3 { x: 0.0, y: 0.0, z: 0.0 }) < 6378.13699 { println!("inside {}", 1); return; } } } } } println!("outside 1"); }''')
