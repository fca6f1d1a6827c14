"""Second batch of behaviour-preserving edits."""
from refs import ref, REFS, EXT, TR, IO, LIB, DOP, PR
S4 = PR + 'sgp4.rs'; DS = PR + 'dspace.rs'; GS = PR + 'gstime.rs'; SI = PR + 'sgp4init.rs'; IN = PR + 'initl.rs'
# --- dspace
ref('dspace-halfday-helper', 'C19 C20', (DS, '''                xndt = (del1 * (xli - FASX2).sin())
                    + (del2 * (2.0 * (xli - FASX4)).sin())
                    + (del3 * (3.0 * (xli - FASX6)).sin());
                xldot = xni + xfact;
                xnddt = (del1 * (xli - FASX2).cos())
                    + (2.0 * del2 * (2.0 * (xli - FASX4)).cos())
                    + (3.0 * del3 * (3.0 * (xli - FASX6)).cos());
                xnddt *= xldot;
''', '''                xldot = xni + xfact;
                let rates = synchronous_rates([del1, del2, del3], [FASX2, FASX4, FASX6], xli);
                xndt = rates.0;
                xnddt = rates.1 * xldot;
'''), (DS, '''pub fn dspace(''', '''fn synchronous_rates(del: [f64; 3], phase: [f64; 3], xli: f64) -> (f64, f64) {
    let mut first = 0.0;
    let mut second = 0.0;
    for k in 0..3 {
        let n = (k + 1) as f64;
        let arg = n * (xli - phase[k]);
        first += del[k] * arg.sin();
        second += n * del[k] * arg.cos();
    }
    (first, second)
}

pub fn dspace('''))
ref('dspace-while-step', 'C19 C20 C23', (DS, '''            if (t - atime).abs() >= STEPP {
                iretn = 381;
            } else {
                ft = t - atime;
                iretn = 0;
            }

            if iretn == 381 {
                xli += (xldot * delt) + (xndt * STEP2);
                xni += (xndt * delt) + (xnddt * STEP2);
                atime += delt;
            }
        }
''', '''            ft = t - atime;
            if ft.abs() < STEPP {
                break;
            }
            xli += xldot * delt + xndt * STEP2;
            xni += xndt * delt + xnddt * STEP2;
            atime += delt;
        }
'''), (DS, '''        let mut iretn = 381; // added for do loop
        while iretn == 381 {''', '''        loop {'''))
ref('dspace-signum', 'C19 C20', (DS, '''        if t > 0.0 {
            delt = STEPP;
        } else {
            delt = STEPN;
        }
''', '''        delt = if t <= 0.0 { -STEPP } else { STEPP };
'''), (DS, '''    const STEPN: f64 = -720.0;
''', ''))
ref('dspace-restart-var', 'C19 C20', (DS, '''        if atime == 0.0 || t * atime <= 0.0 || t.abs() < atime.abs() {
            atime = 0.0;
            xni = no;
            xli = xlamo;
        }
''', '''        let opposite = t * atime <= 0.0;
        let restart = atime == 0.0 || opposite || atime.abs() > t.abs();
        let (start, rate, lon) = if restart { (0.0, no, xlamo) } else { (atime, xni, xli) };
        atime = start;
        xni = rate;
        xli = lon;
'''))
ref('dspace-double-angle', 'C19 C20', (DS, '''                x2omi = xomi + xomi;
                x2li = xli + xli;
''', '''                x2omi = 2.0 * xomi;
                x2li = 2.0 * xli;
'''))
ref('dspace-array', 'C19 C20', (DS, '''                xndt = (d2201 * ((x2omi + xli) - G22).sin())
                    + (d2211 * (xli - G22).sin())
                    + (d3210 * ((xomi + xli) - G32).sin())
                    + (d3222 * ((-xomi + xli) - G32).sin())
                    + (d4410 * ((x2omi + x2li) - G44).sin())
                    + (d4422 * (x2li - G44).sin())
                    + (d5220 * ((xomi + xli) - G52).sin())
                    + (d5232 * ((-xomi + xli) - G52).sin())
                    + (d5421 * ((xomi + x2li) - G54).sin())
                    + (d5433 * ((-xomi + x2li) - G54).sin());
                xldot = xni + xfact;
                xnddt = (d2201 * ((x2omi + xli) - G22).cos())
                    + (d2211 * (xli - G22).cos())
                    + (d3210 * ((xomi + xli) - G32).cos())
                    + (d3222 * ((-xomi + xli) - G32).cos())
                    + (d5220 * ((xomi + xli) - G52).cos())
                    + (d5232 * ((-xomi + xli) - G52).cos())
                    + (2.0 * d4410 * ((x2omi + x2li) - G44).cos())
                    + (2.0 * d4422 * (x2li - G44).cos())
                    + (2.0 * d5421 * ((xomi + x2li) - G54).cos())
                    + (2.0 * d5433 * ((-xomi + x2li) - G54).cos());
''', '''                let terms = [
                    (d2201, x2omi + xli - G22, 1.0),
                    (d2211, xli - G22, 1.0),
                    (d3210, xomi + xli - G32, 1.0),
                    (d3222, xli - xomi - G32, 1.0),
                    (d4410, x2omi + x2li - G44, 2.0),
                    (d4422, x2li - G44, 2.0),
                    (d5220, xomi + xli - G52, 1.0),
                    (d5232, xli - xomi - G52, 1.0),
                    (d5421, xomi + x2li - G54, 2.0),
                    (d5433, x2li - xomi - G54, 2.0),
                ];
                xndt = 0.0;
                xnddt = 0.0;
                for (coefficient, angle, multiple) in terms.iter() {
                    xndt += coefficient * angle.sin();
                    xnddt += multiple * coefficient * angle.cos();
                }
                xldot = xni + xfact;
'''))
# --- sgp4
ref('sgp4-secular-helper', 'C20 C23 C24', (S4, '''    let xmdf = satrec.mo + (satrec.mdot * satrec.t);
    let argpdf = satrec.argpo + (satrec.argpdot * satrec.t);
    let nodedf = satrec.nodeo + (satrec.nodedot * satrec.t);
''', '''    let (xmdf, argpdf, nodedf) = secular_angles(satrec, tsince);
'''), (S4, '''pub fn sgp4(satrec''', '''fn secular_angles(satrec: &Satrec, t: f64) -> (f64, f64, f64) {
    (
        satrec.mo + satrec.mdot * t,
        satrec.argpo + satrec.argpdot * t,
        satrec.nodeo + satrec.nodedot * t,
    )
}

pub fn sgp4(satrec'''))
ref('sgp4-kepler-loop', 'C20 C24', (S4, '''        if tem5.abs() >= 0.95 {
            if tem5 > 0.0 {
                tem5 = 0.95;
            } else {
                tem5 = -0.95;
            }
        }
''', '''        if tem5 >= 0.95 {
            tem5 = 0.95;
        } else if tem5 <= -0.95 {
            tem5 = -0.95;
        }
'''))
ref('sgp4-kepler-count', 'C20 C24', (S4, '''    while tem5.abs() >= 1.0e-12 && ktr <= 10 {''', '''    while ktr < 11 && tem5.abs() >= 1.0e-12 {'''))
ref('sgp4-short-period-helper', 'C20 C23 C24', (S4, '''    let mrt =
        (rl * (1.0 - (1.5 * temp2 * betal * satrec.con41))) + (0.5 * temp1 * satrec.x1mth2 * cos2u);
    su -= 0.25 * temp2 * satrec.x7thm1 * sin2u;
''', '''    let mrt = radius(satrec, rl, temp1, temp2, betal, cos2u);
    su -= 0.25 * temp2 * satrec.x7thm1 * sin2u;
'''), (S4, '''pub fn sgp4(satrec''', '''fn radius(satrec: &Satrec, rl: f64, temp1: f64, temp2: f64, betal: f64, cos2u: f64) -> f64 {
    let shrink = 1.0 - 1.5 * temp2 * betal * satrec.con41;
    rl * shrink + 0.5 * temp1 * satrec.x1mth2 * cos2u
}

pub fn sgp4(satrec'''))
ref('sgp4-mrt-km', 'C20 C24', (S4, '''        x: (mrt * ux) * EARTH_RADIUS,
        y: (mrt * uy) * EARTH_RADIUS,
        z: (mrt * uz) * EARTH_RADIUS,
''', '''        x: distance * ux,
        y: distance * uy,
        z: distance * uz,
'''), (S4, '''    // --------- position and velocity (in km and km/sec) ----------
''', '''    // --------- position and velocity (in km and km/sec) ----------
    let distance = mrt * EARTH_RADIUS;
'''))
ref('sgp4-decay-before', 'C20 C21 C23 C24', (S4, '''    // --------------------- orientation vectors -------------------
''', '''    if mrt < 1.0 {
        satrec.error = 6;
        return Err(SGP4Error::DecayCondition);
    }

    // --------------------- orientation vectors -------------------
'''))
ref('sgp4-pl-order', 'C20 C21', (S4, '''    let ecose = (axnl * coseo1) + (aynl * sineo1);
    let esine = (axnl * sineo1) - (aynl * coseo1);
    let el2 = (axnl * axnl) + (aynl * aynl);
    let pl = am * (1.0 - el2);
    if pl < 0.0 {''', '''    let el2 = axnl.powi(2) + aynl.powi(2);
    let pl = am - am * el2;
    let ecose = (axnl * coseo1) + (aynl * sineo1);
    let esine = (axnl * sineo1) - (aynl * coseo1);
    if pl < 0.0 {'''))
ref('sgp4-deep-flag', 'C20 C23 C21', (S4, '''if satrec.method == InitlMethod::D {''', '''if deep {'''), (S4, '''    satrec.t = tsince;
    satrec.error = 0;
''', '''    satrec.t = tsince;
    satrec.error = 0;
    let deep = satrec.method == InitlMethod::D;
'''))
ref('sgp4-deep-match', 'C20 C23', (S4, '''    if satrec.method == InitlMethod::D {
        cosisq = cosip * cosip;
        satrec.con41 = (3.0 * cosisq) - 1.0;
        satrec.x1mth2 = 1.0 - cosisq;
        satrec.x7thm1 = (7.0 * cosisq) - 1.0;
    }
''', '''    match satrec.method {
        InitlMethod::D => {
            cosisq = cosip.powi(2);
            satrec.x1mth2 = 1.0 - cosisq;
            satrec.con41 = 3.0 * cosisq - 1.0;
            satrec.x7thm1 = 7.0 * cosisq - 1.0;
        }
        _ => {}
    }
'''))
ref('sgp4-drag-helper', 'C20 C24', (S4, '''        let delmtemp = 1.0 + (satrec.eta * xmdf.cos());
        delm = satrec.xmcof * ((delmtemp * delmtemp * delmtemp) - satrec.delmo);
''', '''        delm = satrec.xmcof * ((1.0 + satrec.eta * xmdf.cos()).powi(3) - satrec.delmo);
'''))
ref('sgp4-ecc-range', 'C20 C21', (S4, '''    if em >= 1.0 || em < -0.001 {''', '''    if !(em < 1.0) || em < -0.001 {''')) if False else None
ref('sgp4-lyddane-abs', 'C20', (S4, '''        if (cosip + 1.0).abs() > 1.5e-12 {
            satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / (1.0 + cosip);
        } else {
            satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / TEMP4;
        }
''', '''        let divisor = if (cosip + 1.0).abs() > 1.5e-12 { 1.0 + cosip } else { TEMP4 };
        satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / divisor;
'''))
ref('sgp4-result-ctor', 'C20 C21 C24', (S4, '''    Ok(SGP4Result {
        position: r,
        velocity: v,
    })
''', '''    let result = SGP4Result { velocity: v, position: r };
    Ok(result)
'''))
ref('sgp4-am-pow', 'C20 C24', (S4, '''    nm = XKE / (am.powf(1.5));
''', '''    nm = XKE / (am * am.sqrt());
'''))
# --- gstime / transforms / ext
ref('gst-const', 'C03 C15', (GS, '''+ (((876600.0 * 3600.0) + 8640184.812866) * tut1)''', '''+ (RATE * tut1)'''), (GS, '''pub fn gstime(jdut1''', '''const RATE: f64 = 876600.0 * 3600.0 + 8640184.812866;

pub fn gstime(jdut1'''))
ref('gst-inline', 'C03', (GS, '''    let jday = ext::jday_datetime(datetime);
    return gstime(jday)
''', '''    gstime(ext::jday_datetime(datetime))
'''))
ref('gst-select', 'C03 C15', (GS, '''    if temp < 0.0 {
        temp += TWO_PI;
    }

    return temp;
''', '''    if temp < 0.0 { temp + TWO_PI } else { temp }
'''))
ref('tr-sincos', 'C07', (TR, '''    let x = (eci.x * gmst.cos()) + (eci.y * gmst.sin());
    let y = (eci.x * -gmst.sin()) + (eci.y * gmst.cos());
    let z = eci.z;

    Vec3 { x, y, z }
''', '''    let (s, c) = gmst.sin_cos();
    Vec3 { x: eci.x * c + eci.y * s, y: eci.y * c - eci.x * s, z: eci.z }
'''))
ref('tr-inverse', 'C07', (TR, '''    let x = (ecf.x * gmst.cos()) - (ecf.y * gmst.sin());
    let y = (ecf.x * gmst.sin()) + (ecf.y * gmst.cos());
    let z = ecf.z;

    Vec3 { x, y, z }
''', '''    eci_to_ecf(ecf, -gmst)
'''))
ref('tr-topo-sincos', 'C08', (TR, '''    let top_s = (observer.latitude.sin() * observer.longitude.cos() * r.x)
        + (observer.latitude.sin() * observer.longitude.sin() * r.y)
        - (observer.latitude.cos() * r.z);

    let top_e = (-observer.longitude.sin() * r.x) + (observer.longitude.cos() * r.y);

    let top_z = (observer.latitude.cos() * observer.longitude.cos() * r.x)
        + (observer.latitude.cos() * observer.longitude.sin() * r.y)
        + (observer.latitude.sin() * r.z);
''', '''    let (slat, clat) = observer.latitude.sin_cos();
    let (slon, clon) = observer.longitude.sin_cos();
    let out = clon * r.x + slon * r.y;
    let top_s = slat * out - clat * r.z;
    let top_e = clon * r.y - slon * r.x;
    let top_z = clat * out + slat * r.z;
'''))
ref('tr-az-branch', 'C08', (TR, '''    let az = (-tc.top_e).atan2(tc.top_s) + std::f64::consts::PI;
''', '''    let az = PI + f64::atan2(-tc.top_e, tc.top_s);
'''))
ref('tr-geo-helper', 'C05 C08 C06', (TR, '''    let normal = A / (1.0 - (E2 * geodetic.latitude.sin().powf(2.0))).sqrt();

    let x = (normal + geodetic.height) * geodetic.latitude.cos() * geodetic.longitude.cos();
    let y = (normal + geodetic.height) * geodetic.latitude.cos() * geodetic.longitude.sin();
    let z = ((normal * (1.0 - E2)) + geodetic.height) * geodetic.latitude.sin();

    Vec3 { x, y, z }
''', '''    let sin_lat = geodetic.latitude.sin();
    let normal = A / (1.0 - E2 * sin_lat * sin_lat).sqrt();
    let axis_distance = (normal + geodetic.height) * geodetic.latitude.cos();
    Vec3 {
        x: axis_distance * geodetic.longitude.cos(),
        y: axis_distance * geodetic.longitude.sin(),
        z: (normal - normal * E2 + geodetic.height) * sin_lat,
    }
'''))
ref('tr-geod-loop-fn', 'C06', (TR, '''    while k < KMAX {
        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
        latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
        k += 1;
    }
''', '''    loop {
        if k == KMAX {
            break;
        }
        let s = latitude.sin();
        c = (1.0 - E2 * s * s).sqrt().recip();
        latitude = f64::atan2(eci.z + A * c * E2 * s, r);
        k += 1;
    }
'''))
ref('tr-deg-range-fn', 'C04', (TR, '''    if degrees < -90.0 || degrees > 90.0 {
        panic!("RangeError: Latitude degrees must be in range [-90; 90].")
    }

    degrees_to_radians(degrees)
''', '''    if degrees.abs() > 90.0 {
        panic!("RangeError: Latitude degrees must be in range [-90; 90].")
    }

    return degrees_to_radians(degrees);
'''))
ref('dop-match', 'C09', (DOP, '''    if val >= 0.0 {
        1.0
    } else {
        -1.0
    }
''', '''    match val >= 0.0 {
        true => 1.0,
        false => -1.0,
    }
'''))
ref('vec-range', 'C09 C24', (LIB, '''        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))
            .sqrt()
''', '''        let d = to.subtract(self);
        (d.x * d.x + d.y * d.y + d.z * d.z).sqrt()
'''))
ref('jday-split', 'C01 C22 C10', (EXT, '''    ((367.0 * year) - ((7.0 * (year + ((mon + 9.0) / 12.0).floor())) * 0.25).floor())
        + ((275.0 * mon) / 9.0).floor()
        + day
        + 1721013.5
        + (((((msec / 60000.0) + (sec / 60.0) + minute) / 60.0) + hr) / 24.0) // ut in days
''', '''    civil_day(year, mon, day) + day_fraction(hr, minute, sec, msec)
'''), (EXT, '''pub fn jday(''', '''fn day_fraction(hr: f64, minute: f64, sec: f64, msec: f64) -> f64 {
    let minutes = minute + (sec + msec / 1000.0) / 60.0;
    (hr + minutes / 60.0) / 24.0
}

fn civil_day(year: f64, mon: f64, day: f64) -> f64 {
    let carry = ((mon + 9.0) / 12.0).floor();
    let leap = (7.0 * (year + carry) / 4.0).floor();
    367.0 * year - leap + (275.0 * mon / 9.0).floor() + day + 1721013.5
}

pub fn jday('''))
ref('days-cumulative', 'C02 C10', (EXT, '''    while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i < 12 {
        inttemp += lmonth[(i - 1) as usize];
        i += 1;
    }
''', '''    while i < 12 {
        let next = inttemp + lmonth[(i - 1) as usize];
        if next >= dayofyr {
            break;
        }
        inttemp = next;
        i += 1;
    }
'''))
# --- io
ref('io-slice', 'C11 C12 C13', (IO, '''    // If there are three lines, parse as 3LE.
    if lines.len() == 3 {
        // First, perform check on the first character of each line. should be line numbers.
        if lines[1].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[2].bytes().collect::<Vec<u8>>()[0] != '2' as u8 {
            return Err(SatrecParseError::InvalidTLELineCheckFailed)
        }
''', '''    let numbered = |k: usize, digit: char| lines[k].starts_with(digit);

    // If there are three lines, parse as 3LE.
    if lines.len() == 3 {
        // First, perform check on the first character of each line. should be line numbers.
        if !numbered(1, '1') || !numbered(2, '2') {
            return Err(SatrecParseError::InvalidTLELineCheckFailed)
        }
'''))
ref('io-asbytes', 'C11 C12 C13', (IO, '''.bytes().collect::<Vec<u8>>()[0]''', '''.as_bytes()[0]'''))
ref('io-chars', 'C11 C12', (IO, '''        if lines[0].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[1].bytes().collect::<Vec<u8>>()[0] != '2' as u8  {
''', '''        if lines[0].chars().next() != Some('1') || lines[1].chars().next() != Some('2') {
'''))
ref('io-isempty', 'C11 C12 C13', (IO, '''.filter(|el| { return el.trim() != "" })''', '''.filter(|el| !el.trim().is_empty())'''))
ref('io-name-let', 'C11 C12', (IO, '''            Ok(mut satrec) => {
                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
                    satrec.name = Some(lines[0].get(2..).unwrap_or("").trim().to_string());
                } else {
                    satrec.name = Some(lines[0].trim().to_string());
                }

                return Ok(satrec)
            },
''', '''            Ok(mut satrec) => {
                let title = lines[0];
                let name = if title.starts_with('0') { title.get(2..).unwrap_or("") } else { title };
                satrec.name = Some(name.trim().to_owned());
                return Ok(satrec)
            },
'''))
ref('io-swap-order', 'C11 C12', (IO, '''    } else if lines.len() == 2 {
        // First, perform check on the first character of each line. should be line numbers. 
        if lines[0].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[1].bytes().collect::<Vec<u8>>()[0] != '2' as u8  {
            return Err(SatrecParseError::InvalidTLELineCheckFailed)
        }

        return twoline2satrec(lines[0], lines[1]);
    } else {
        return Err(SatrecParseError::InvalidTLEBadLineCount)
    }
''', '''    }
    if lines.len() != 2 {
        return Err(SatrecParseError::InvalidTLEBadLineCount);
    }
    let (first, second) = (lines[0], lines[1]);
    if first.starts_with("1") && second.starts_with("2") {
        twoline2satrec(first, second)
    } else {
        Err(SatrecParseError::InvalidTLELineCheckFailed)
    }
'''))
ref('io-multi-helper', 'C13', (IO, '''                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }
            }
            i += 3;
''', '''                Err(err) => errors.push(at_line(i, err)),
            }
            i += 3;
'''), (IO, '''            errors.push(SatrecParseError::SatrecMultiError(i, Box::new(SatrecParseError::InvalidTLEBadLineCount)));
''', '''            errors.push(at_line(i, SatrecParseError::InvalidTLEBadLineCount));
'''), (IO, '''pub fn parse_multiple(''', '''fn at_line(line: usize, err: SatrecParseError) -> SatrecParseError {
    SatrecParseError::SatrecMultiError(line, Box::new(err))
}

pub fn parse_multiple('''))
ref('io-multi-remaining', 'C13', (IO, '''        let untitled = i + 1 < lines.len() && lines[i].starts_with('1') && lines[i+1].starts_with('2');
''', '''        let left = lines.len() - i;
        let untitled = left >= 2 && lines[i].starts_with('1') && lines[i+1].starts_with('2');
'''), (IO, '''        if !untitled && i + 2 < lines.len() {''', '''        if !untitled && left >= 3 {'''), (IO, '''        } else if i + 1 < lines.len() {''', '''        } else if left >= 2 {'''))
ref('io-init-q', 'C11 C12 C10', (IO, '''    match sgp4init::sgp4init(&mut satrec, opts) {
        Ok(_) => {}, // Ignore initial sgp4 positioning.
        Err(err) => return Err(SatrecParseError::Sgp4InitError(err))
    };

    return Ok(satrec);
''', '''    if let Err(err) = sgp4init::sgp4init(&mut satrec, opts) {
        return Err(SatrecParseError::Sgp4InitError(err));
    }

    Ok(satrec)
'''))
ref('io-init-map', 'C11 C12', (IO, '''    match sgp4init::sgp4init(&mut satrec, opts) {
        Ok(_) => {}, // Ignore initial sgp4 positioning.
        Err(err) => return Err(SatrecParseError::Sgp4InitError(err))
    };

    return Ok(satrec);
''', '''    sgp4init::sgp4init(&mut satrec, opts).map_err(SatrecParseError::Sgp4InitError)?;
    return Ok(satrec);
'''))
ref('io-year-expr', 'C10 C12', (IO, '''    let year;
    if epochyr < 57 {
        year = epochyr + 2000;
    } else {
        year = epochyr + 1900;
    }
''', '''    let century = if epochyr >= 57 { 1900 } else { 2000 };
    let year = century + epochyr;
'''))
ref('io-columns-match', 'C10 C11 C12', (IO, '''    line.get(low..high).unwrap_or("")
''', '''    match line.get(low..high) {
        Some(text) => text,
        None => "",
    }
'''))
ref('io-decimal-helper', 'C10 C11 C12', (IO, '''    let nddot_0 = columns(str1, 44, 45).to_string();
    let nddot_1 = columns(str1, 45, 50).trim().to_string();
    let nddot_2 = columns(str1, 50, 52).to_string();
    let nndot_str = format!("{}.{}E{}", nddot_0, nddot_1, nddot_2);
''', '''    let nndot_str = exponential(str1, 44);
'''), (IO, '''    let bstar_0 = columns(str1, 53, 54).to_string();
    parse_int(str1, "bstar frac", 54, 59)?;
    let bstar_1 = columns(str1, 54, 59).trim().to_string();
    let bstar_2 = columns(str1, 59, 61).to_string();
    let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
''', '''    parse_int(str1, "bstar frac", 54, 59)?;
    let bstar_str = exponential(str1, 53);
'''), (IO, '''pub fn parse_satrec(''', '''fn exponential(line: &str, start: usize) -> String {
    format!(
        "{}.{}E{}",
        columns(line, start, start + 1),
        columns(line, start + 1, start + 6).trim(),
        columns(line, start + 6, start + 8)
    )
}

pub fn parse_satrec('''))
ref('io-deg-helper', 'C10 C11 C12', (IO, '''    let inclo = parse_float(str2, "inclo", 8, 16)? * DEG_2_RAD;
    let nodeo = parse_float(str2, "nodeo", 17, 25)? * DEG_2_RAD;
''', '''    let inclo = parse_angle(str2, "inclo", 8, 16)?;
    let nodeo = parse_angle(str2, "nodeo", 17, 25)?;
'''), (IO, '''pub fn parse_satrec(''', '''fn parse_angle(line: &str, name: &'static str, low: usize, high: usize) -> Result<f64, SatrecParseError> {
    Ok(parse_float(line, name, low, high)? * DEG_2_RAD)
}

pub fn parse_satrec('''))
ref('io-struct-update', 'C10 C12', (IO, '''    let mut satrec = Satrec::zero();

    satrec.operationmode = DpperOpsMode::I;
    satrec.satnum = satnum.to_string();
    satrec.epochyr = epochyr;
    satrec.epochdays = epochdays;
    satrec.ndot = ndot;
    satrec.nddot = nddot;
    satrec.bstar = bstar;
    satrec.inclo = inclo;
    satrec.nodeo = nodeo;
    satrec.ecco = ecco;
    satrec.argpo = argpo;
    satrec.mo = mo;
    satrec.no = no;
    satrec.a = a;
    satrec.alta = alta;
    satrec.altp = altp;
    satrec.jdsatepoch = jdsatepoch;

    return Ok(satrec);
''', '''    Ok(Satrec {
        operationmode: DpperOpsMode::I,
        satnum: satnum.to_string(),
        epochyr,
        epochdays,
        ndot,
        nddot,
        bstar,
        inclo,
        nodeo,
        ecco,
        argpo,
        mo,
        no,
        a,
        alta,
        altp,
        jdsatepoch,
        ..Satrec::zero()
    })
'''))

# --- sgp4init / initl / mod
ref('init-quartic', 'C15', (SI, '''    let qzms2ttemp = (120.0 - 78.0) / EARTH_RADIUS;
    let qzms2t = qzms2ttemp * qzms2ttemp * qzms2ttemp * qzms2ttemp;
''', '''    let qzms2t = ((120.0 - 78.0) / EARTH_RADIUS).powi(4);
'''))
ref('init-perigee-match', 'C15', (SI, '''            sfour = perige - 78.0;
            if perige < 98.0 {
                sfour = 20.0;
            }
''', '''            sfour = if perige >= 98.0 { perige - 78.0 } else { 20.0 };
'''))
ref('init-xlcof-helper', 'C15 C20 C23', (SI, '''        if (cosio + 1.0).abs() > 1.5e-12 {
            satrec.xlcof = (-0.25 * J3OJ2 * sinio * (3.0 + (5.0 * cosio))) / (1.0 + cosio);
        } else {
            satrec.xlcof = (-0.25 * J3OJ2 * sinio * (3.0 + (5.0 * cosio))) / TEMP4;
        }
        satrec.aycof = -0.5 * J3OJ2 * sinio;
''', '''        satrec.xlcof = crate::propogation::sgp4::long_period(sinio, cosio);
        satrec.aycof = -0.5 * J3OJ2 * sinio;
'''), (S4, '''        if (cosip + 1.0).abs() > 1.5e-12 {
            satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / (1.0 + cosip);
        } else {
            satrec.xlcof = (-0.25 * J3OJ2 * sinip * (3.0 + (5.0 * cosip))) / TEMP4;
        }
''', '''        satrec.xlcof = long_period(sinip, cosip);
'''), (S4, '''pub fn sgp4(satrec''', '''pub fn long_period(sini: f64, cosi: f64) -> f64 {
    let numerator = -0.25 * J3OJ2 * sini * (3.0 + 5.0 * cosi);
    let denominator = 1.0 + cosi;
    if denominator.abs() > 1.5e-12 {
        numerator / denominator
    } else {
        numerator / 1.5e-12
    }
}

pub fn sgp4(satrec'''))
ref('init-cc2', 'C15', (SI, '''        coef = qzms24 * (tsi.powi(4));
        coef1 = coef / (psisq.powf(3.5));
''', '''        let tsi2 = tsi * tsi;
        coef = qzms24 * tsi2 * tsi2;
        coef1 = coef / (psisq * psisq * psisq * psisq.sqrt());
'''))
ref('init-deep-early', 'C15', (SI, '''        if TWO_PI / satrec.no >= 225.0 {''', '''        let period = TWO_PI / satrec.no;
        let is_deep = !(period < 225.0);
        if is_deep {''')) if False else None
ref('init-mdot', 'C15', (SI, '''        satrec.mdot = satrec.no
            + (0.5 * temp1 * rteosq * satrec.con41)
            + (0.0625 * temp2 * rteosq * ((13.0 - (78.0 * cosio2)) + (137.0 * cosio4)));
''', '''        let quartic = |a: f64, b: f64, c: f64| a - b * cosio2 + c * cosio4;
        satrec.mdot = satrec.no
            + rteosq * (temp1 * satrec.con41 / 2.0 + temp2 * quartic(13.0, 78.0, 137.0) / 16.0);
'''))
ref('initl-kozai-helper', 'C14 C15', (IN, '''    let ak = (XKE / no).powf(X2O3);
    let d1 = (0.75 * J2 * ((3.0 * cosio2) - 1.0)) / (rteosq * omeosq);
    let mut del_prime = d1 / (ak * ak);
    let adel = ak
        * (1.0
            - (del_prime * del_prime)
            - (del_prime * ((1.0 / 3.0) + ((134.0 * del_prime * del_prime) / 81.0))));
    del_prime = d1 / (adel * adel);
    no /= 1.0 + del_prime;
''', '''    let d1 = (0.75 * J2 * ((3.0 * cosio2) - 1.0)) / (rteosq * omeosq);
    no = unkozai(no, d1);
'''), (IN, '''pub fn initl(''', '''fn unkozai(no: f64, d1: f64) -> f64 {
    let ak = (XKE / no).powf(X2O3);
    let d = d1 / (ak * ak);
    let series = 1.0 - d / 3.0 - d * d - 134.0 * d * d * d / 81.0;
    let adel = ak * series;
    no / (1.0 + d1 / (adel * adel))
}

pub fn initl('''))
ref('initl-gst-rem', 'C14 C15', (IN, '''        if gsto < 0.0 {
            gsto += TWO_PI;
        }
''', '''        gsto += if gsto < 0.0 { TWO_PI } else { 0.0 };
'''))
ref('prop-jday-datetime', 'C22', (PR + 'mod.rs', '''  let j = jday(
    time.year() as f64,
    time.month() as f64,
    time.day() as f64,
    time.hour() as f64,
    time.minute() as f64,
    time.second() as f64,
    time.nanosecond() as f64 / 1.0e6
  );
''', '''  let j = jday_datetime(time);
'''))
ref('prop-helper', 'C22', (PR + 'mod.rs', '''  let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
  let mut rec = satrec.clone();
  return sgp4(&mut rec, m);
}''', '''  at_minutes(satrec.clone(), j * MINUTES_PER_DAY - satrec.jdsatepoch * MINUTES_PER_DAY)
}

fn at_minutes(mut rec: Satrec, minutes: f64) -> Result<SGP4Result, SGP4Error> {
  sgp4(&mut rec, minutes)
}'''))

