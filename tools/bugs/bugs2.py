from bugs import *
import bugs
BUGS = bugs.BUGS; OLD = set(BUGS)
NOSHOW = TLE.replace('fn show', '#[cfg(any())]\nfn show')
DS = 'src/propogation/dspace.rs'; MOD = 'src/propogation/mod.rs'; EXT = 'src/ext.rs'; DOP = 'src/doppler_factor.rs'
golden('C24-decay-rl', 'C24', [(SG, '    if mrt < 1.0 {', '    if mrt < 1.0 && rl < 1.0 {')], 'an orbit that grazes the surface: the unperturbed radius above, the perturbed one below one earth radius', 'a position inside the earth is returned',
 '''fn main() { for k in 0..400 { let n = 16.85 + 0.0005 * k as f64; let (a, b) = lines(80, 277.5, "00000-0", 5.0, 10.0, 10000, 272.25, 180.0, n); if let Ok(mut r) = satellite::io::twoline2satrec(&a, &b) { for t in (0..90).map(|k| k as f64) { if let Ok(q) = satellite::propogation::sgp4::sgp4(&mut r, t) { if q.position.range(&satellite::Vec3 { x: 0.0, y: 0.0, z: 0.0 }) < 6378.13699 { println!("inside {}", 1); return; } } } } } println!("outside 1"); }''')
golden('C24-decay-kept', 'C24', [(SG, '    if mrt < 1.0 {', '    if mrt < 1.0 && rdotl <= 0.0 {')], 'a satellite below the surface on the ascending half of its orbit', 'a position inside the earth is returned while the satellite ascends',
 '''fn main() { let mut seen = false; for k in 0..200 { let n = 15.0 + 0.01 * k as f64; let (a, b) = lines(80, 277.5, "00000-0", 5.0, 10.0, 1200000, 272.25, 180.0, n); if let Ok(mut r) = satellite::io::twoline2satrec(&a, &b) { for t in (0..100).map(|k| k as f64) { if let Ok(q) = satellite::propogation::sgp4::sgp4(&mut r, t) { if q.position.range(&satellite::Vec3 { x: 0.0, y: 0.0, z: 0.0 }) < 6378.13699 { println!("inside {}", 1); return; } seen = true; } } } } println!("outside {}", seen as u8); }''')
golden('C20-kepler-dir', 'C20', [(SG, '            if tem5 > 0.0 {\n                tem5 = 0.95;', '            if eo1 > 0.0 {\n                tem5 = 0.95;')], 'a very eccentric orbit near perigee, where a Newton step exceeds 0.95', 'the limited Kepler step is taken in the wrong direction',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 65.1, 10.0, 9300000, 272.25, 350.0, 0.15); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in (0..200).map(|k| k as f64 * 2.0) { show(satellite::propogation::sgp4::sgp4(&mut r, t), "r"); } }''')
golden('C20-kepler-short', 'C20', [(SG, 'while tem5.abs() >= 1.0e-12 && ktr <= 10 {', 'while tem5.abs() >= 1.0e-12 && ktr <= 6 {')], 'an orbit so eccentric that Kepler equation needs more than six steps', 'the Kepler iteration stops too early',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 65.1, 10.0, 9300000, 272.25, 350.0, 0.15); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in (0..400).map(|k| k as f64 * 2.0) { show(satellite::propogation::sgp4::sgp4(&mut r, t), "r"); } }''')
golden('C20-half-wrap', 'C20', [(SG, '            nodep += PI;\n            argpp -= PI;', '            nodep += PI;\n            argpp += PI;')], 'a deep-space orbit whose perturbed inclination is negative', 'equal up to a whole turn: no change', '''fn main() {}''')
del BUGS['C20-half-wrap']
golden('C20-neg-incl', 'C20', [(SG, '            nodep += PI;\n            argpp -= PI;', '            nodep += PI;')], 'an almost equatorial deep-space orbit whose perturbed inclination is negative', 'the argument of perigee is not turned when a negative inclination is reflected',
 '''fn main() { for d in [10.0, 50.0, 120.0, 200.0, 300.0].iter() { for node in [10.0, 100.0, 200.0, 300.0].iter() { let (a, b) = lines(80, *d, "00000-0", 0.001, *node, 3000000, 272.25, 30.0, 1.6); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in (0..8).map(|k| k as f64 * 9000.0) { show(satellite::propogation::sgp4::sgp4(&mut r, t), "r"); } } } }''')
golden('C15-isimp-deep', 'C15', [(SI, '            satrec.method = InitlMethod::D;\n            satrec.isimp = 1;', '            satrec.method = InitlMethod::D;')], 'a deep-space orbit with drag and a perigee above 220 km', 'the simplified drag model is not selected for deep-space orbits',
 '''fn main() { let (a, b) = lines(80, 277.5, "10000-1", 65.1, 10.0, 5000000, 272.25, 30.0, 3.5); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); p("isimp", r.isimp as f64); p("d2", r.d2); p("d4", r.d4); }''')
golden('C16-tc', 'C16', [(DC, 'let day = options.epoch + 18261.5 + (options.tc / 1440.0);', 'let day = options.epoch + 18261.5 + (options.tc / 1440.0).floor();')], 'a time offset that is not a whole number of days', 'the sun and moon positions are taken at the start of the day',
 '''use satellite::propogation::dscom::*; fn main() { for tc in [0.0, 1440.0, 700.0].iter() { let r = dscom(DscomOptions { epoch: 11232.9, ep: 0.5, argpp: 0.8, tc: *tc, inclp: 0.8, nodep: 4.0, np: 0.0099 }); p("day", r.day); p("zmol", r.zmol); } }''')
golden('C17-ecc-half', 'C17', [(DSI, '(nm >= 8.26e-3) && (nm <= 9.24e-3) && (em >= 0.5)', '(nm >= 8.26e-3) && (nm <= 9.24e-3) && (em > 0.5)')], 'a half-day orbit with an eccentricity of exactly one half', 'the orbit is treated as non-resonant',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 65.1, 10.0, 5000000, 272.25, 30.0, 2.0); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); p("irez", r.irez); p("d2201", r.d2201); }''')
golden('C18-inclo', 'C18', [(DP, '        if inclp >= 0.2 {', '        if options.inclo >= 0.2 {')], 'an orbit whose inclination crosses 0.2 rad through the periodics', 'the choice between the direct and the Lyddane form is made with the unperturbed inclination',
 '''use satellite::propogation::dpper::*; use satellite::io::Satrec; fn main() { let mut s = Satrec::zero(); s.t = 900.0; s.zmos = 2.0; s.zmol = 4.0; s.si2 = 1e-4; s.si3 = 2e-4; s.sh2 = 3e-4; s.sh3 = 1e-4; s.xi2 = 3e-4; s.xh2 = 2e-4; s.xgh2 = 1e-4;
 for i in [0.19995, 0.2, 0.20005, 0.3].iter() { let r = dpper(&s, DpperOptions { inclo: *i, init: DpperInit::N, ep: 0.1, inclp: 0.19998, nodep: 1.0, argpp: 1.0, mp: 2.0, opsmode: DpperOpsMode::I }); p("nodep", r.nodep); p("argpp", r.argpp); p("mp", r.mp); } }''')
bug('C12-empty-title', 'C12', [(IO, '                    satrec.name = Some(lines[0].get(2..).unwrap_or("").trim().to_string());', '                    satrec.name = Some(lines[0].get(2..).unwrap_or(lines[0]).trim().to_string());')], 'a title line that is just "0"', 'the line number becomes the name',
 NOSHOW + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 for (t, w) in [("0", ""), ("0 SAT", "SAT"), ("SAT 2", "SAT 2")].iter() { match satellite::io::parse(&format!("{}\\n{}\\n{}", t, a, b)) { Ok(r) => if r.name != Some(w.to_string()) { println!("{:?}", r.name); std::process::exit(1) }, Err(_) => std::process::exit(2) } } }''')
bug('C12-indent', 'C12', [(IO, "        if lines[0].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[1].bytes().collect::<Vec<u8>>()[0] != '2' as u8  {", "        if !lines[0].trim_start().starts_with('1') || !lines[1].trim_start().starts_with('2')  {")], 'an element set without title whose lines are indented', 'indented lines pass the line number check and the columns are read one off, instead of being rejected with the error for line numbers',
 NOSHOW + '''use satellite::io::SatrecParseError as E; fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 if satellite::io::parse(&format!("{}\\n{}", a, b)).is_err() { std::process::exit(2) }
 match satellite::io::parse(&format!(" {}\\n {}", a, b)) { Err(E::InvalidTLELineCheckFailed) => {}, Err(e) => { println!("{:?}", e); std::process::exit(1) }, Ok(_) => std::process::exit(1) } }''')
bug('C11-slice', 'C11', [(IO, '''    let satnum = match str1.get(2..7) {
        Some(text) => text.trim(),
        None => return''', '''    let satnum = match str1.len() >= 7 {
        true => str1[2..7].trim(),
        false => return''')], 'a multi-byte character across column 7 of the first line', 'parsing panics',
 '''fn main() { let _ = satellite::io::parse_satrec("1 25544U", "2 25544").is_ok(); let _ = satellite::io::parse_satrec("1 2554\\u{e9}U 98067A", "2 25544").is_ok(); }''')
bug('C13-skip', 'C13', [(IO, '''                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }
            }
            i += 3;''', '''                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)));
                    if lines[i+2].starts_with('1') {
                        i -= 1;
                    }
                }
            }
            i += 3;''')], 'a faulty titled entry whose third line starts with 1', 'the last line of a faulty entry is used again as the first line of the next',
 NOSHOW + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 let (r, e) = satellite::io::parse_multiple(&format!("BAD\\n{}\\n{}\\nSAT\\n{}\\n{}\\n", "1 x", "1 y", a, b));
 if r.len() != 1 || e.len() != 1 || r[0].name != Some("SAT".to_string()) { println!("{} {}", r.len(), e.len()); std::process::exit(1) } }''')
golden('C10-epoch-digit', 'C10', [(IO, 'parse_float(str1, "epochdays", 20, 32)', 'parse_float(str1, "epochdays", 20, 31)')], 'an epoch with a non-zero eighth decimal', 'the last digit of the epoch is not read',
 '''fn main() { let (a, b) = lines(80, 277.51234569, "00000-0", 65.1, 10.0, 520000, 20.0, 30.0, 14.97); match satellite::io::parse_satrec(&a, &b) { Ok(r) => { p("frac", (r.epochdays - 277.5) * 1e6); }, Err(_) => println!("err 1") } }''')
golden('C22-millis', 'C22', [(MOD, 'let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;', 'let m = ((j - satrec.jdsatepoch) * 1440.0 * 60_000.0).floor() / 60_000.0;')], 'a date-time with a fraction of a millisecond', 'the fraction of a millisecond is lost',
 '''use chrono::prelude::*; fn main() { let (a, b) = lines(20, 277.5, "00000-0", 65.1, 10.0, 20000, 272.25, 30.0, 15.1); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap();
 for n in [0u32, 999_900_000, 500_999_000].iter() { let t = Utc.ymd(2020, 10, 4).and_hms_nano(1, 2, 3, *n); show(satellite::propogation::propogate_datetime(&r, t), "r"); } }''')
golden('C01-millis', 'C01', [(EXT, '(((((msec / 60000.0) +', '(((((msec.floor() / 60000.0) +')], 'a date-time with a fraction of a millisecond', 'the fraction of a millisecond is lost',
 '''use chrono::prelude::*; fn main() { for n in [0u32, 999_900_000, 500_000_000].iter() { let t = Utc.ymd(2020, 10, 4).and_hms_nano(1, 2, 3, *n); p("s", ((satellite::ext::jday_datetime(t) - 2459126.5) * 86400.0 - 3723.0 + 4.0).max(0.0)); println!("ms {}", (((satellite::ext::jday_datetime(t) - 2459126.5) * 86400.0 - 3723.0) * 5000.0).round()); } }'''.replace('p("s", ((satellite::ext::jday_datetime(t) - 2459126.5) * 86400.0 - 3723.0 + 4.0).max(0.0)); ', ''))
golden('C06-polar-branch', 'C06', [(TR, '    let height = (r / latitude.cos()) - (A * c);', '''    let height = if r > 1.0 {
        (r / latitude.cos()) - (A * c)
    } else {
        (eci.z / latitude.sin()) - (A * c)
    };''')], 'a position within a kilometre of the polar axis', 'the height near the pole is off by the difference of the radii',
 '''fn main() { for x in [100.0, 2.0, 0.5].iter() { let g = satellite::transforms::eci_to_geodedic(&satellite::Vec3 { x: *x, y: 0.0, z: 7000.0 }, 0.3); p("h", g.height.round()); p("lat", g.latitude); } }''')
golden('C04-long-open', 'C04', [(TR, 'if degrees < -180.0 || degrees > 180.0 {', 'if degrees <= -180.0 || degrees > 180.0 {')], 'the date line given as -180 degrees', 'a longitude of -180 degrees is rejected',
 '''fn main() { for d in [180.0, -179.0, -180.0].iter() { p("r", satellite::transforms::radians_long(*d)); } }''')
golden('C21-code', 'C21', [(SG, '            SGP4Error::DecayCondition => 6', '            SGP4Error::DecayCondition => 5')], 'a decayed satellite', 'the code of the error is not the stored code',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 5.0, 10.0, 1200000, 272.25, 180.0, 15.5); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in 0..50 { match satellite::propogation::sgp4::sgp4(&mut r, t as f64 * 2.0) { Ok(_) => println!("ok 0"), Err(e) => println!("{} {}", r.error, e.code()) } } }''')
golden('C21-ep-neg', 'C21', [(SG, '        if ep < 0.0 || ep > 1.0 {', '        if ep < -0.001 || ep > 1.0 {')], 'a deep-space orbit whose mean eccentricity has shrunk to almost zero, and a periodic term that makes it slightly negative', 'a negative eccentricity is accepted',
 '''fn main() { for k in 0..40 { let (a, b) = lines(80, 7.5 + 9.0 * k as f64, "00000-0", 65.1, 10.0, 5000, 272.25, 30.0, 2.5); if let Ok(mut r) = satellite::io::twoline2satrec(&a, &b) { let d = -r.ecco / r.dedt; for t in (0..40).map(|k| d * (1.0 + 0.01 * (k as f64 - 20.0))) { match satellite::propogation::sgp4::sgp4(&mut r, t) { Ok(_) => println!("ok 0"), Err(e) => println!("err {}", e.code()) } } } else { println!("none 0") } } }''')
golden('C19-partial', 'C19', [(DS, '        nm = xni + (xndt * ft) + (xnddt * ft * ft * 0.5);', '        nm = xni + (xndt * ft) + (xnddt * ft * ft.abs() * 0.5);')], 'a resonant orbit propagated backwards', 'the partial step of the integration has the wrong sign of its second-order term for times before the epoch',
 '''use satellite::propogation::dspace::*; fn main() { for t in [500.0, -500.0, 3000.0, -3000.0].iter() { let r = dspace(DspaceOptions { irez: 1.0, d2201: 0.0, d2211: 0.0, d3210: 0.0, d3222: 0.0, d4410: 0.0, d4422: 0.0, d5220: 0.0, d5232: 0.0, d5421: 0.0, d5433: 0.0,
        dedt: 1e-8, del1: 1e-6, del2: 2.1e-5, del3: 2.4e-6, didt: 0.0, dmdt: 0.0, dnodt: 0.0, domdt: 0.0, argpo: 1.0, argpdot: 1e-6, t: *t, tc: *t, gsto: 1.2,
        xfact: -0.0433, xlamo: 2.0, no: 0.00437, atime: 0.0, em: 0.01, argpm: 1.0, inclm: 0.05, xli: 0.0, mm: 0.3, xni: 0.0, nodem: 0.7, nm: 0.00437 }); p("nm", r.nm); } }''')
golden('C23-error-sticky', 'C23', [(SG, '    satrec.error = 0;\n', '    if satrec.error != 6 {\n        satrec.error = 0;\n    }\n'), (SG, '    if mrt < 1.0 {', '    if mrt < 1.0 || satrec.error == 6 {')], 'a satellite that is below the surface at one time and is then propagated to another time', 'once decayed, every later propagation fails',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 5.0, 10.0, 1200000, 272.25, 180.0, 15.5); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in 0..60 { match satellite::propogation::sgp4::sgp4(&mut r, t as f64 * 2.0) { Ok(_) => println!("ok 0"), Err(e) => println!("err {}", e.code()) } } }''')
golden('C09-cap', 'C09', [(DOP, '    range_rate *= sign(range_rate);', '    range_rate *= sign(current_range);')], 'a satellite that comes closer', 'the factor is below one for an approaching satellite',
 '''fn main() { use satellite::Vec3; for v in [-7.0, 7.0].iter() { p("f", satellite::doppler_factor::doppler_factor(Vec3 { x: 6378.0, y: 0.0, z: 0.0 }, Vec3 { x: 7000.0, y: 0.0, z: 0.0 }, Vec3 { x: *v, y: 1.0, z: 0.0 }) - 1.0); } }''')
golden('C02-dec31', 'C02', [(EXT, 'let mut inttemp: u64 = 0;', 'let mut inttemp: u64 = 0;'), (EXT, '&& i < 12 {', '&& i < 11 {')], 'a day in December', 'December is reported as November', '''fn main() { for d in [300.0, 334.5, 335.2, 365.9].iter() { let m = satellite::ext::days2mdhms(2021, *d); p("m", m.month); p("d", m.day); } }''')
golden('C15-qzms', 'C15', [(SI, '            let qzms24temp = (120.0 - sfour) / EARTH_RADIUS;', '            let qzms24temp = (120.0 - sfour.max(22.0)) / EARTH_RADIUS;')], 'a perigee below 100 km', 'the density function of very low orbits is computed with a different reference height',
 '''fn main() { for n in [16.5, 16.60, 16.66, 16.68, 16.7].iter() { let (a, b) = lines(80, 277.5, "10000-3", 65.1, 10.0, 5000, 272.25, 180.0, *n); match satellite::io::twoline2satrec(&a, &b) { Ok(r) => { p("cc1", r.cc1); p("alt", r.altp); }, Err(_) => println!("err 1") } } }''')
golden('C08-zenith', 'C08', [(TR, '    let el = (tc.top_z / range_sat).asin();', '    let el = (tc.top_z / range_sat.max(1.0)).asin();')], 'a satellite within a kilometre of the observer', 'the elevation of a very near object is too low',
 '''fn main() { for s in [10.0, 0.1].iter() { let b = satellite::transforms::topocentric_to_look_angles(&satellite::TopoCentric { top_s: *s, top_e: 0.2 * s, top_z: 0.5 * s }); p("el", b.elevation); p("az", b.azimuth); } }''')
golden('C07-back', 'C07', [(TR, '    let z = ecf.z;', '    let z = ecf.z.max(-EARTH_RADIUS);')], 'a satellite over the southern hemisphere further than one radius from the equatorial plane', 'the way back loses the polar component',
 '''fn main() { for z in [7000.0, -6000.0, -9000.0].iter() { let e = satellite::transforms::ecf_to_eci(&satellite::Vec3 { x: 700.0, y: 100.0, z: *z }, 0.4); p("x", e.x); p("z", e.z); } }''')
golden('C14-circular', 'C14', [('src/propogation/initl.rs', '    let rteosq = omeosq.sqrt();', '    let rteosq = if ecco < 0.01 { 1.0 - 0.5 * eccsq } else { omeosq.sqrt() };')], 'an eccentricity between 0.001 and 0.01', 'a truncated series replaces the square root', '''use satellite::propogation::initl::*; use satellite::propogation::dpper::*; fn main() { for e in [0.0001, 0.0099, 0.02].iter() { let r = initl(InitlOptions { satn: "1".to_string(), ecco: *e, epoch: 11232.987, inclo: 0.9, no: 0.06, method: InitlMethod::N, opsmode: DpperOpsMode::I }); p("rteosq", (r.rteosq * r.rteosq - r.omeosq) * 1e6 + 1.0); } }''')

golden('C23-keep-inclo', 'C23', [(SG, '            xincp = -xincp;', '            xincp = -xincp; satrec.inclo = satrec.inclo.abs().max(xincp);')], 'an almost equatorial deep-space orbit whose perturbed inclination turns negative, and a second propagation', 'the stored inclination is overwritten by a propagation', BUGS['C23-keep-inclo']['demo'].replace(P, '', 1).replace(TLE, '', 1))
