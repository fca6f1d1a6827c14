from bugs2 import *
import bugs2
OLD = set(bugs2.BUGS); BUGS = bugs2.BUGS
INI = 'src/propogation/initl.rs'; GS = 'src/propogation/gstime.rs'
golden('C14-eccentric', 'C14', [(INI, 'let po = ao * omeosq;', 'let po = ao * omeosq.max(0.05);')], 'an orbit with an eccentricity above 0.97', 'the semi-latus rectum of a very eccentric orbit',
 '''use satellite::propogation::initl::*; use satellite::propogation::dpper::*; fn main() { for e in [0.1f64, 0.9, 0.99].iter() { let r = initl(InitlOptions { ecco: *e, epoch: 25000.0, inclo: 1.0, no: 0.004, method: InitlMethod::N, opsmode: DpperOpsMode::I, satn: "1".to_string() }); p("posq", r.posq); } }''')
golden('C16-zmos', 'C16', [(DC, 'let zmos = (6.2565837 + (0.017201977 * day)) % TWO_PI;', 'let zmos = (6.2565837 + (0.017201977 * day)).rem_euclid(TWO_PI);')], 'a day before 1899 (negative mean anomaly of the sun)', 'the mean anomaly of the sun is shifted by a turn',
 '''use satellite::propogation::dscom::*; fn main() { for e in [-19000.0, -18800.5, 11232.9].iter() { let r = dscom(DscomOptions { epoch: *e, ep: 0.5, argpp: 0.8, tc: 0.0, inclp: 0.8, nodep: 4.0, np: 0.0099 }); p("zmos", r.zmos); } }''')
golden('C16-np', 'C16', [(DC, 'let xnoi = 1.0 / nm;', 'let xnoi = 1.0 / nm.max(0.002);')], 'an orbit with a period of more than two days', 'the third-body coefficients of very high orbits',
 '''use satellite::propogation::dscom::*; fn main() { for n in [0.0099, 0.0044, 0.001].iter() { let r = dscom(DscomOptions { epoch: 11232.9, ep: 0.5, argpp: 0.8, tc: 0.0, inclp: 0.8, nodep: 4.0, np: *n }); p("se2", r.se2); p("s3", r.s3); } }''')
golden('C18-afspc-node', 'C18', [(DP, '''            if nodep < 0.0 && opsmode == DpperOpsMode::A {
                nodep += TWO_PI;
            }
            xls = mp''', '''            if nodep < 0.0 && opsmode == DpperOpsMode::I {
                nodep += TWO_PI;
            }
            xls = mp''')], 'a nearly equatorial deep-space orbit with a negative node', 'the node convention of the other operation mode is used in Lyddane form',
 '''use satellite::propogation::dpper::*; use satellite::io::Satrec; fn main() { let mut s = Satrec::zero(); s.t = 900.0; s.zmos = 2.0; s.zmol = 4.0; s.si2 = 1e-4; s.si3 = 2e-4; s.sh2 = 3e-4; s.sh3 = 1e-4; s.xi2 = 3e-4; s.xh2 = 2e-4; s.xgh2 = 1e-4;
 for n in [1.0, -1.0, -3.0].iter() { let r = dpper(&s, DpperOptions { inclo: 0.1, init: DpperInit::N, ep: 0.1, inclp: 0.1, nodep: *n, argpp: 1.0, mp: 2.0, opsmode: DpperOpsMode::I }); p("nodep", r.nodep); p("argpp", r.argpp); p("mp", r.mp); } }''')
golden('C19-atime-near', 'C19', [(DS, 't * atime <= 0.0 || t.abs() < atime.abs()', 't * atime <= 0.0 || t.abs() + STEPP < atime.abs()')], 'a time within one step before the stored state of the integrator', 'the integration goes on from a state beyond the requested time',
 '''use satellite::propogation::dspace::*; fn main() { for t in [3000.0, 2000.0, 1000.0].iter() { let r = dspace(DspaceOptions { irez: 2.0, d2201: 1e-7, d2211: 2e-10, d3210: 1e-7, d3222: 1e-7, d4410: 1e-7, d4422: 1e-9, d5220: 1e-7, d5232: 1e-7, d5421: 1e-9, d5433: 1e-9, dedt: 1e-8, del1: 0.0, del2: 0.0, del3: 0.0, didt: 1e-8, dmdt: 1e-8, dnodt: 1e-8, domdt: 1e-8, argpo: 1.0, argpdot: 1e-5, t: *t, tc: *t, gsto: 2.0, xfact: -0.004, xlamo: 1.0, no: 0.00875, atime: 2160.0, em: 0.6, argpm: 1.0, inclm: 1.0, xli: 1.5, mm: 2.0, xni: 0.00875, nodem: 1.0, nm: 0.00875 }); p("atime", r.atime); p("xli", r.xli); } }''')
golden('C19-neg-half', 'C19', [(DS, 'if (t - atime).abs() >= STEPP {', 'if (t - atime).abs() > STEPP {')], 'a time that is a whole number of steps', 'the last whole step is taken as a partial step',
 '''use satellite::propogation::dspace::*; fn main() { for t in [720.0, 1440.0, -720.0, 1000.0].iter() { let r = dspace(DspaceOptions { irez: 2.0, d2201: 1e-10, d2211: 2e-10, d3210: 1e-10, d3222: 1e-10, d4410: 1e-10, d4422: 1e-9, d5220: 1e-10, d5232: 1e-10, d5421: 1e-9, d5433: 1e-9, dedt: 1e-8, del1: 0.0, del2: 0.0, del3: 0.0, didt: 1e-8, dmdt: 1e-8, dnodt: 1e-8, domdt: 1e-8, argpo: 1.0, argpdot: 1e-5, t: *t, tc: *t, gsto: 2.0, xfact: -0.004, xlamo: 1.0, no: 0.00875, atime: 0.0, em: 0.6, argpm: 1.0, inclm: 1.0, xli: 1.0, mm: 2.0, xni: 0.00875, nodem: 1.0, nm: 0.00875 }); p("atime", r.atime); p("xli", r.xli); } }''')
golden('C20-em-floor', 'C20', [(SG, '    if em < 1.0e-6 {\n        em = 1.0e-6;', '    if em < 0.0 {\n        em = 1.0e-6;')], 'an orbit whose mean eccentricity decays to less than 1e-6 but stays positive', 'the floor of the eccentricity is not applied',
 '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 65.1, 10.0, 0, 272.25, 30.0, 14.0); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for t in [0.0, 100.0].iter() { show(satellite::propogation::sgp4::sgp4(&mut r, *t), "r"); }
  let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); r.ecco = 0.0; r.aycof = 0.0; r.xlcof = 0.0; for t in [0.0, 100.0].iter() { if let Ok(q) = satellite::propogation::sgp4::sgp4(&mut r, *t) { p("d", (q.position.range(&satellite::Vec3 { x: 0.0, y: 0.0, z: 0.0 }) - 7270.0) * 1e3); } } }''')
golden('C17-g533', 'C17', [(DSI, 'if em < 0.7 {', 'if em < 0.71 {')], 'a half-day orbit with an eccentricity between 0.70 and 0.71', 'the resonance functions of the lower eccentricity range are used',
 '''fn main() { for e in [6900000u32, 7050000, 7200000].iter() { let (a, b) = lines(80, 277.5, "00000-0", 63.1, 10.0, *e, 272.25, 30.0, 2.006); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); p("d5421", r.d5421); p("d5232", r.d5232); p("d5433", r.d5433); } }''')
golden('C15-xmcof', 'C15', [(SI, '        if satrec.ecco > 1.0e-4 {\n            satrec.xmcof', '        if satrec.ecco >= 1.0e-3 {\n            satrec.xmcof')], 'an orbit with an eccentricity between 1e-4 and 1e-3', 'a drag coefficient is left out',
 '''fn main() { for e in [500u32, 5000, 20000].iter() { let (a, b) = lines(80, 277.5, "10000-3", 63.1, 10.0, *e, 272.25, 30.0, 15.0); let r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); p("xmcof", r.xmcof); } }''')
golden('C05-below', 'C05', [(TR, 'let z = ((normal * (1.0 - E2)) + geodetic.height) * geodetic.latitude.sin();', 'let z = ((normal * (1.0 - E2)) + geodetic.height.max(0.0)) * geodetic.latitude.sin();')], 'a point below the ellipsoid', 'a negative height is ignored in the polar component',
 '''use satellite::*; fn main() { for h in [0.0, 0.5, -0.4].iter() { let r = transforms::geodedic_to_ecf(&Geodedic { longitude: 0.3, latitude: 0.7, height: *h }); p("z", r.z); p("x", r.x); } }''')
golden('C08-below', 'C08', [(TR, 'let el = (tc.top_z / range_sat).asin();', 'let el = (tc.top_z.max(-3000.0) / range_sat).asin();')], 'a satellite on the other side of the earth', 'a negative elevation is cut off',
 '''use satellite::*; fn main() { for z in [1000.0, -2000.0, -9000.0].iter() { let r = transforms::ecf_to_look_angles(&Geodedic { longitude: 0.3, latitude: 0.7, height: 0.1 }, &Vec3 { x: *z, y: 4000.0, z: *z }); p("el", r.elevation); } }''')
golden('C21-pl', 'C21', [(SG, '    if pl < 0.0 {', '    if pl < 0.0 && el2 < 1.0 {')], 'a semi-latus rectum that is negative', 'a negative semi-latus rectum is not reported', '''fn main() { let (a, b) = lines(80, 277.5, "00000-0", 65.1, 10.0, 10000, 272.25, 30.0, 6.5); let mut r = satellite::io::twoline2satrec(&a, &b).ok().unwrap(); for e in [0.01, 0.99999, 0.999999, 0.9999999].iter() { r.ecco = *e; for t in [0.0, 10.0].iter() { let _ = satellite::propogation::sgp4::sgp4(&mut r, *t); p("code", r.error as f64); } } }''')
golden('C03-datetime-day', 'C03', [(GS, 'return gstime(jday)', 'return gstime((jday * 86400.0).floor() / 86400.0)')], 'an instant between two hundredths of a second', 'the angle stands still for a hundredth of a second',
 '''use chrono::prelude::*; fn main() { for n in [0u32, 9_000_000, 500_000_000].iter() { let t = Utc.ymd(2020, 10, 4).and_hms_nano(1, 2, 3, *n); p("g", (satellite::propogation::gstime::gstime_datetime(t) - 0.4) * 10.0); } }''')
bug('C13-crlf', 'C13', [(IO, 'filter(|el| { return el.trim() != "" })', 'filter(|el| { return *el != "" })')], 'a text with lines of spaces, or with CRLF line ends and blank lines', 'blank lines are taken for titles or left-over lines',
 NOSHOW + '''fn main() { let (a, b) = lines(80, 280.5, "00000-0", 65.1, 10.0, 52000, 272.25, 30.0, 14.97);
 let (r, e) = satellite::io::parse_multiple(&format!("SAT\\r\\n{}\\r\\n{}\\r\\n\\r\\n{}\\r\\n{}\\r\\n", a, b, a, b));
 if r.len() != 2 || e.len() != 0 || r[1].name != None { println!("{} {}", r.len(), e.len()); std::process::exit(1) } }''')
BUGS['C13-crlf']['count'] = 2
