"""Behaviour-preserving edits: every check has to stay quiet on them."""
REFS = {}
def ref(i, props, *edits): REFS[i] = dict(props=props.split(), edits=edits)
def at(f, *pairs): return [(f, o, n) for o, n in pairs]
EXT = 'src/ext.rs'; TR = 'src/transforms.rs'; IO = 'src/io.rs'; LIB = 'src/lib.rs'; DOP = 'src/doppler_factor.rs'
PR = 'src/propogation/'
ref('days-for', 'C02 C10', (EXT, '''    while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i < 12 {
        inttemp += lmonth[(i - 1) as usize];
        i += 1;
    }
''', '''    for &len in lmonth[..11].iter() {
        if dayofyr <= inttemp + len {
            break;
        }
        inttemp += len;
        i += 1;
    }
'''))
ref('days-range', 'C02 C10', (EXT, '''    while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i < 12 {
        inttemp += lmonth[(i - 1) as usize];
        i += 1;
    }
''', '''    for k in 0..11 {
        if dayofyr > inttemp + lmonth[k] {
            inttemp += lmonth[k];
            i += 1;
        } else {
            break;
        }
    }
'''))
ref('days-loop', 'C02', (EXT, '''    while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i < 12 {
        inttemp += lmonth[(i - 1) as usize];
        i += 1;
    }
''', '''    loop {
        let len = lmonth[(i - 1) as usize];
        if i >= 12 || dayofyr <= inttemp + len {
            break;
        }
        inttemp += len;
        i += 1;
    }
'''))
ref('days-helper', 'C02', (EXT, '''pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    let mut lmonth: [u64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if year % 4 == 0 {
        lmonth[1] = 29
    }
''', '''fn is_leap(year: u64) -> bool {
    year % 4 == 0
}

fn month_lengths(year: u64) -> [u64; 12] {
    let february = if is_leap(year) { 29 } else { 28 };
    [31, february, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
}

pub fn days2mdhms(year: u64, days: f64) -> MDHMS {
    let lmonth = month_lengths(year);
'''))
ref('days-frac', 'C02 C10', (EXT, '''    let mut temp = (days - dayofyr as f64) * 24.0;
    let hour = temp.floor();
    temp = (temp - hour as f64) * 60.0;
    let minute = temp.floor();
    let second = (temp - minute as f64) * 60.0;
''', '''    let hours = (days - dayofyr as f64) * 24.0;
    let (hour, minutes) = split(hours);
    let (minute, second) = split(minutes);
'''), (EXT, 'pub fn days2mdhms', '''fn split(value: f64) -> (f64, f64) {
    let whole = value.floor();
    (whole, (value - whole) * 60.0)
}

pub fn days2mdhms'''))
ref('jday-temps', 'C01 C22', (EXT, '''    ((367.0 * year) - ((7.0 * (year + ((mon + 9.0) / 12.0).floor())) * 0.25).floor())
        + ((275.0 * mon) / 9.0).floor()
        + day
        + 1721013.5
        + (((((msec / 60000.0) + (sec / 60.0) + minute) / 60.0) + hr) / 24.0) // ut in days
''', '''    let leap_shift = ((mon + 9.0) / 12.0).floor();
    let leap_days = (7.0 * (year + leap_shift) / 4.0).floor();
    let month_days = (275.0 * mon / 9.0).floor();
    let minutes = minute + (sec + msec / 1000.0) / 60.0;
    let day_fraction = (hr + minutes / 60.0) / 24.0;
    367.0 * year - leap_days + month_days + day + 1721013.5 + day_fraction
'''))
ref('gstime-horner', 'C03 C15', (PR + 'gstime.rs', '''    let mut temp = (-6.2e-6 * tut1 * tut1 * tut1)
        + (0.093104 * tut1 * tut1)
        + (((876600.0 * 3600.0) + 8640184.812866) * tut1)
        + 67310.54841; // # sec
    temp = ((temp * DEG_2_RAD) / 240.0) % TWO_PI; // 360/86400 = 1/240, to deg, to rad

    //  ------------------------ check quadrants ---------------------
    if temp < 0.0 {
        temp += TWO_PI;
    }

    return temp;
''', '''    const RATE: f64 = (876600.0 * 3600.0) + 8640184.812866;
    let seconds = 67310.54841 + tut1 * (RATE + tut1 * (0.093104 - 6.2e-6 * tut1));
    let angle = ((seconds / 240.0) * DEG_2_RAD) % TWO_PI;
    if angle >= 0.0 {
        angle
    } else {
        angle + TWO_PI
    }
'''))
ref('gstime-helper', 'C03 C15', (PR + 'gstime.rs', '''    temp = ((temp * DEG_2_RAD) / 240.0) % TWO_PI; // 360/86400 = 1/240, to deg, to rad

    //  ------------------------ check quadrants ---------------------
    if temp < 0.0 {
        temp += TWO_PI;
    }

    return temp;
''', '''    temp = (temp * DEG_2_RAD) / 240.0;
    wrap(temp)
'''), (PR + 'gstime.rs', '/// Convert a datetime to', '''fn wrap(angle: f64) -> f64 {
    let reduced = angle % TWO_PI;
    match reduced < 0.0 {
        true => reduced + TWO_PI,
        false => reduced,
    }
}

/// Convert a datetime to'''))
ref('gstime-rem-euclid', 'C03 C15', (PR + 'gstime.rs', '''% TWO_PI; // 360/86400 = 1/240, to deg, to rad

    //  ------------------------ check quadrants ---------------------
    if temp < 0.0 {
        temp += TWO_PI;
    }
''', ''';
    temp = temp.rem_euclid(TWO_PI);
'''))
ref('angles-range-contains', 'C04', (TR, 'if degrees < -90.0 || degrees > 90.0 {', 'if !(degrees >= -90.0 && degrees <= 90.0) && !degrees.is_nan() {'),
    (TR, 'if radians < -std::f64::consts::PI || radians > std::f64::consts::PI {', 'if radians.abs() > std::f64::consts::PI {'))
ref('angles-assert', 'C04', (TR, '''    if degrees < -180.0 || degrees > 180.0 {
        panic!("RangeError: Latitude degrees must be in range [-180; 180].")
    }

    degrees_to_radians(degrees)''', '''    assert!(!(degrees < -180.0) && !(degrees > 180.0), "RangeError: Latitude degrees must be in range [-180; 180].");
    degrees * DEG_2_RAD'''))
ref('geod-temps', 'C05 C08', (TR, '''    let normal = A / (1.0 - (E2 * geodetic.latitude.sin().powf(2.0))).sqrt();

    let x = (normal + geodetic.height) * geodetic.latitude.cos() * geodetic.longitude.cos();
    let y = (normal + geodetic.height) * geodetic.latitude.cos() * geodetic.longitude.sin();
    let z = ((normal * (1.0 - E2)) + geodetic.height) * geodetic.latitude.sin();
''', '''    let (sin_lat, cos_lat) = geodetic.latitude.sin_cos();
    let (sin_lon, cos_lon) = geodetic.longitude.sin_cos();
    let normal = A / (1.0 - E2 * sin_lat * sin_lat).sqrt();
    let horizontal = (normal + geodetic.height) * cos_lat;

    let x = horizontal * cos_lon;
    let y = horizontal * sin_lon;
    let z = (normal - normal * E2 + geodetic.height) * sin_lat;
'''))
ref('geod-hypot', 'C06', (TR, 'let r: f64 = ((eci.x * eci.x) + (eci.y * eci.y)).sqrt();', 'let r: f64 = eci.x.hypot(eci.y);'),
    (TR, 'eci.z.atan2((eci.x.powi(2) + eci.y.powi(2)).sqrt())', 'eci.z.atan2(r)'))
ref('geod-for', 'C06', (TR, '''    let mut k: i32 = 0;
    let mut c: f64 = 0.0;

    while k < KMAX {
        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
        latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
        k += 1;
    }
''', '''    let mut c: f64 = 0.0;

    for _ in 0..KMAX {
        let sin_lat = latitude.sin();
        c = 1.0 / (1.0 - (E2 * sin_lat * sin_lat)).sqrt();
        latitude = (eci.z + (A * c * E2 * sin_lat)).atan2(r);
    }
'''))
ref('geod-wrap-helper', 'C06', (TR, '''    let mut longitude = eci.y.atan2(eci.x) - gmst;

    while longitude < -PI {
        longitude += TWO_PI;
    }

    while longitude > PI {
        longitude -= TWO_PI;
    }
''', '''    let longitude = wrap_longitude(eci.y.atan2(eci.x) - gmst);
'''), (TR, 'pub fn eci_to_geodedic', '''fn wrap_longitude(angle: f64) -> f64 {
    let mut angle = angle;
    while angle < -PI {
        angle += TWO_PI;
    }
    while angle > PI {
        angle -= TWO_PI;
    }
    angle
}

pub fn eci_to_geodedic'''))
ref('geod-wrap-swap', 'C06', (TR, '''    while longitude < -PI {
        longitude += TWO_PI;
    }

    while longitude > PI {
        longitude -= TWO_PI;
    }
''', '''    while longitude > PI {
        longitude = longitude - 2.0 * PI;
    }

    while longitude < -PI {
        longitude = longitude + 2.0 * PI;
    }
'''))
ref('geod-wrap-oneloop', 'C06', (TR, '''    while longitude < -PI {
        longitude += TWO_PI;
    }

    while longitude > PI {
        longitude -= TWO_PI;
    }
''', '''    loop {
        if longitude < -PI {
            longitude += TWO_PI;
        } else if longitude > PI {
            longitude -= TWO_PI;
        } else {
            break;
        }
    }
'''))
ref('geod-radius-helper', 'C05 C06', (TR, 'c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();', 'c = curvature(latitude, E2);'),
    (TR, 'let normal = A / (1.0 - (E2 * geodetic.latitude.sin().powf(2.0))).sqrt();', 'let normal = A * curvature(geodetic.latitude, E2);'),
    (TR, 'pub fn eci_to_geodedic', '''/// 1 / sqrt(1 - e2 sin^2(latitude))
fn curvature(latitude: f64, e2: f64) -> f64 {
    (1.0 - (e2 * latitude.sin().powi(2))).sqrt().recip()
}

pub fn eci_to_geodedic'''))
ref('rot-helper', 'C07', (TR, '''    let x = (ecf.x * gmst.cos()) - (ecf.y * gmst.sin());
    let y = (ecf.x * gmst.sin()) + (ecf.y * gmst.cos());
    let z = ecf.z;

    Vec3 { x, y, z }
''', '''    rotate_z(ecf, gmst)
'''), (TR, '''    let x = (eci.x * gmst.cos()) + (eci.y * gmst.sin());
    let y = (eci.x * -gmst.sin()) + (eci.y * gmst.cos());
    let z = eci.z;

    Vec3 { x, y, z }
''', '''    rotate_z(eci, -gmst)
'''), (TR, 'pub fn ecf_to_eci', '''fn rotate_z(v: &Vec3, angle: f64) -> Vec3 {
    let (s, c) = angle.sin_cos();
    Vec3 {
        x: v.x * c - v.y * s,
        y: v.x * s + v.y * c,
        z: v.z,
    }
}

pub fn ecf_to_eci'''))
ref('topo-temps', 'C08', (TR, '''    let top_s = (observer.latitude.sin() * observer.longitude.cos() * r.x)
        + (observer.latitude.sin() * observer.longitude.sin() * r.y)
        - (observer.latitude.cos() * r.z);

    let top_e = (-observer.longitude.sin() * r.x) + (observer.longitude.cos() * r.y);

    let top_z = (observer.latitude.cos() * observer.longitude.cos() * r.x)
        + (observer.latitude.cos() * observer.longitude.sin() * r.y)
        + (observer.latitude.sin() * r.z);
''', '''    let (sin_lat, cos_lat) = (observer.latitude.sin(), observer.latitude.cos());
    let (sin_lon, cos_lon) = (observer.longitude.sin(), observer.longitude.cos());
    let outward = cos_lon * r.x + sin_lon * r.y;

    let top_s = sin_lat * outward - cos_lat * r.z;
    let top_e = cos_lon * r.y - sin_lon * r.x;
    let top_z = cos_lat * outward + sin_lat * r.z;
'''))
ref('topo-norm', 'C08', (TR, 'let range_sat = (tc.top_s.powi(2) + tc.top_e.powi(2) + tc.top_z.powi(2)).sqrt();', '''let TopoCentric { top_s, top_e, top_z } = tc;
    let range_sat = [top_s, top_e, top_z].iter().map(|v| *v * *v).sum::<f64>().sqrt();'''))
ref('dop-abs', 'C09', (DOP, '''    let mut range_rate = next_range - current_range;

    // TODO: is this simply abs()
    range_rate *= sign(range_rate);

    return 1.0 + (range_rate / C);''', '''    let range_rate = (next_range - current_range).abs();

    1.0 + range_rate / C'''))
ref('dop-inline', 'C09', (DOP, '''    let next_pos = position.add(&velocity);

    let next_range = next_pos.range(&location);
''', '''    let next_range = Vec3 {
        x: position.x + velocity.x,
        y: position.y + velocity.y,
        z: position.z + velocity.z,
    }
    .range(&location);
'''), (DOP, 'val >= 0.0', '!(val < 0.0)'))
ref('range-sub', 'C09', (LIB, '''        (((self.x - to.x).powf(2.0)) + ((self.y - to.y).powf(2.0)) + ((self.z - to.z).powf(2.0)))
            .sqrt()''', '''        let d = self.subtract(to);
        (d.x * d.x + d.y * d.y + d.z * d.z).sqrt()'''))
DD = PR + 'dpper.rs'
ref('dpper-helper', 'C18 C20 C15', (DD, '''    zm = zmos + (ZNS * t);

    // be sure that the initial call has time set to zero
    if init == DpperInit::Y {
        zm = zmos;
    }

    zf = zm + (2.0 * ZES * zm.sin());
    sinzf = zf.sin();
    f2 = (0.5 * sinzf * sinzf) - 0.25;
    f3 = -0.5 * sinzf * zf.cos();
''', '''    let initial = init == DpperInit::Y;
    zm = if initial { zmos } else { zmos + (ZNS * t) };
    let (sinzf, f2, f3) = third_body(zm, ZES);
'''), (DD, '''    zm = zmol + (ZNL * t);

    if init == DpperInit::Y {
        zm = zmol;
    }

    zf = zm + (2.0 * ZEL * zm.sin());
    sinzf = zf.sin();
    f2 = (0.5 * sinzf * sinzf) - 0.25;
    f3 = -0.5 * sinzf * zf.cos();
''', '''    zm = if initial { zmol } else { zmol + (ZNL * t) };
    let (sinzf, f2, f3) = third_body(zm, ZEL);
'''), (DD, '    let mut f2;\n    let mut f3;\n', ''), (DD, '    let mut sinzf;\n', ''), (DD, '    let mut zf;\n', ''),
    (DD, 'pub fn dpper(', '''fn third_body(zm: f64, ze: f64) -> (f64, f64, f64) {
    let zf = zm + (2.0 * ze * zm.sin());
    let sinzf = zf.sin();
    (sinzf, 0.5 * (sinzf * sinzf - 0.5), -0.5 * sinzf * zf.cos())
}

pub fn dpper('''))
ref('dpper-early', 'C18 C20 C15', (DD, '''    if init == DpperInit::N {
        pe -= peo;''', '''    if init != DpperInit::N {
        return DpperResult { ep, inclp, nodep, argpp, mp };
    }
    {
        pe -= peo;'''))
ref('dpper-lyddane', 'C18 C20', (DD, '''            alfdp = sinip * sinop;
            betdp = sinip * cosop;
            dalf = (ph * cosop) + (pinc * cosip * sinop);
            dbet = (-ph * sinop) + (pinc * cosip * cosop);
            alfdp += dalf;
            betdp += dbet;
''', '''            let growth = sinip + pinc * cosip;
            alfdp = growth * sinop + ph * cosop;
            betdp = growth * cosop - ph * sinop;
'''), (DD, '    let dalf;\n    let dbet;\n', ''), (DD, '    let mut alfdp;\n    let mut betdp;\n', '    let alfdp: f64;\n    let betdp;\n'))
ref('dpper-match', 'C18 C20', (DD, '''            if (xnoh - nodep).abs() > std::f64::consts::PI {
                if nodep < xnoh {
                    nodep += TWO_PI;
                } else {
                    nodep -= TWO_PI;
                }
            }''', '''            let turn = xnoh - nodep;
            if turn > std::f64::consts::PI {
                nodep += TWO_PI;
            } else if turn < -std::f64::consts::PI {
                nodep -= TWO_PI;
            }'''))
DS = PR + 'dspace.rs'
ref('dspace-loop', 'C19 C20 C23', (DS, 'let mut iretn = 381; // added for do loop\n        while iretn == 381 {', 'loop {'),
    (DS, '''            if (t - atime).abs() >= STEPP {
                iretn = 381;
            } else {
                ft = t - atime;
                iretn = 0;
            }

            if iretn == 381 {
                xli += (xldot * delt) + (xndt * STEP2);
                xni += (xndt * delt) + (xnddt * STEP2);
                atime += delt;
            }
''', '''            if (t - atime).abs() < STEPP {
                ft = t - atime;
                break;
            }

            xli += (xldot * delt) + (xndt * STEP2);
            xni += (xndt * delt) + (xnddt * STEP2);
            atime += delt;
'''))
ref('dspace-bool', 'C19 C20', (DS, 'let mut iretn = 381; // added for do loop\n        while iretn == 381 {', 'let mut integrating = true;\n        while integrating {'),
    (DS, '''            if (t - atime).abs() >= STEPP {
                iretn = 381;
            } else {
                ft = t - atime;
                iretn = 0;
            }

            if iretn == 381 {
                xli''', '''            integrating = (t - atime).abs() >= STEPP;
            if !integrating {
                ft = t - atime;
            } else {
                xli'''))
ref('dspace-helper', 'C19 C20', (DS, '''                xndt = (del1 * (xli - FASX2).sin())
                    + (del2 * (2.0 * (xli - FASX4)).sin())
                    + (del3 * (3.0 * (xli - FASX6)).sin());
                xldot = xni + xfact;
                xnddt = (del1 * (xli - FASX2).cos())
                    + (2.0 * del2 * (2.0 * (xli - FASX4)).cos())
                    + (3.0 * del3 * (3.0 * (xli - FASX6)).cos());
                xnddt *= xldot;
''', '''                xldot = xni + xfact;
                let (rate, slope) = synchronous([del1, del2, del3], [xli - FASX2, xli - FASX4, xli - FASX6]);
                xndt = rate;
                xnddt = slope * xldot;
'''), (DS, 'pub fn dspace(', '''fn synchronous(del: [f64; 3], phase: [f64; 3]) -> (f64, f64) {
    let mut rate = 0.0;
    let mut slope = 0.0;
    for k in 0..3 {
        let n = (k + 1) as f64;
        rate += del[k] * (n * phase[k]).sin();
        slope += n * del[k] * (n * phase[k]).cos();
    }
    (rate, slope)
}

pub fn dspace('''))
ref('dspace-tail', 'C19 C20', (DS, '''        if irez != 1.0 {
            mm = (xl - (2.0 * nodem)) + (2.0 * theta);
            dndt = nm - no;
        } else {
            mm = (xl - nodem - argpm) + theta;
            dndt = nm - no;
        }
        nm = no + dndt;
''', '''        mm = if irez == 1.0 { xl - (nodem + argpm) + theta } else { xl + 2.0 * (theta - nodem) };
        dndt = nm - no;
'''), (DS, '''        if t > 0.0 {
            delt = STEPP;
        } else {
            delt = STEPN;
        }
''', '''        delt = if t > 0.0 { STEPP } else { -STEPP };
'''), (DS, '''        if atime == 0.0 || t * atime <= 0.0 || t.abs() < atime.abs() {''', '''        let restart = t * atime <= 0.0 || t.abs() < atime.abs();
        if restart {'''))
ref('dspace-while-cond', 'C19 C20', (DS, 'let mut iretn = 381; // added for do loop\n        while iretn == 381 {', 'let mut done = false;\n        while !done {'),
    (DS, '''            if (t - atime).abs() >= STEPP {
                iretn = 381;
            } else {
                ft = t - atime;
                iretn = 0;
            }

            if iretn == 381 {
                xli += (xldot * delt) + (xndt * STEP2);
                xni += (xndt * delt) + (xnddt * STEP2);
                atime += delt;
            }
''', '''            let left = t - atime;
            if left.abs() >= STEPP {
                xli += delt * (xldot + xndt * delt / 2.0);
                xni += delt * (xndt + xnddt * delt / 2.0);
                atime += delt;
            } else {
                ft = left;
                done = true;
            }
'''))
DC = PR + 'dscom.rs'
ref('dscom-for', 'C16 C15', (DC, '    let mut lsflg = 0;\n    while lsflg < 2 {\n        lsflg += 1;\n', '    for lsflg in 1..=2 {\n'))
ref('dscom-for2', 'C16 C15', (DC, '    let mut lsflg = 0;\n    while lsflg < 2 {\n        lsflg += 1;\n', '    for pass in 0..2 {\n'), (DC, 'if lsflg == 1 {', 'if pass == 0 {'))
ref('dscom-iter', 'C16', (DC, '    let mut lsflg = 0;\n    while lsflg < 2 {\n        lsflg += 1;\n', '    for lunar in [false, true].iter() {\n'), (DC, 'if lsflg == 1 {', 'if !*lunar {'))
ref('dscom-algebra', 'C16 C15', (DC, '        z1 = z1 + z1 + (betasq * z31);', '        z1 = 2.0 * z1 + betasq * z31;'), (DC, 's6 = (x2 * x3) + (x1 * x4);', 's6 = x1 * x4 + x2 * x3;'),
    (DC, 'let sl4 = -2.0 * ss3 * (-21.0 - (9.0 * emsq)) * ZES;', 'let sl4 = 6.0 * ss3 * (7.0 + 3.0 * emsq) * ZES;'), (DC, 'let betasq = 1.0 - emsq;', 'let betasq = (1.0 - em) * (1.0 + em);'))
ref('dscom-prod-helper', 'C16', (DC, '        z31 = (12.0 * x1 * x1) - (3.0 * x3 * x3);\n        z32 = (24.0 * x1 * x2) - (6.0 * x3 * x4);\n        z33 = (12.0 * x2 * x2) - (3.0 * x4 * x4);\n',
  '''        let quad = |p: f64, q: f64, r: f64, s: f64| 12.0 * p * q - 3.0 * r * s;
        z31 = quad(x1, x1, x3, x3);
        z32 = 2.0 * quad(x1, x2, x3, x4);
        z33 = quad(x2, x2, x4, x4);
'''))
DI = PR + 'dsinit.rs'
ref('dsinit-class', 'C17 C15', (DI, '''    irez = 0.0;
    if (nm < 0.0052359877) && (nm > 0.0034906585) {
        irez = 1.0;
    }
    if (nm >= 8.26e-3) && (nm <= 9.24e-3) && (em >= 0.5) {
        irez = 2.0;
    }
''', '''    irez = resonance(nm, em);
'''), (DI, 'pub fn dsinit(', '''fn resonance(nm: f64, em: f64) -> f64 {
    if nm > 0.0034906585 && nm < 0.0052359877 {
        1.0
    } else if nm >= 8.26e-3 && nm <= 9.24e-3 && em >= 0.5 {
        2.0
    } else {
        0.0
    }
}

pub fn dsinit('''))
ref('dsinit-poly', 'C17', (DI, '''                g211 = (3.616 - (13.2470 * em)) + (16.2900 * emsq);
                g310 = ((-19.302 + (117.3900 * em)) - (228.4190 * emsq)) + (156.5910 * eoc);
                g322 = ((-18.9068 + (109.7927 * em)) - (214.6334 * emsq)) + (146.5816 * eoc);
''', '''                let poly = |c: [f64; 4]| c[0] + c[1] * em + c[2] * emsq + c[3] * eoc;
                g211 = poly([3.616, -13.2470, 16.2900, 0.0]);
                g310 = poly([-19.302, 117.3900, -228.4190, 156.5910]);
                g322 = poly([-18.9068, 109.7927, -214.6334, 146.5816]);
'''))
ref('dsinit-shs', 'C17 C15', (DI, '''    let mut shs = -ZNS * ss2 * (sz21 + sz23);

    // sgp4fix for 180 deg incl
    if inclm < 5.2359877e-2 || inclm > PI - 5.2359877e-2 {
        shs = 0.0;
    }
    if sinim != 0.0 {
        shs /= sinim;
    }
''', '''    let flat = inclm < 5.2359877e-2 || inclm > PI - 5.2359877e-2;
    let mut shs = if flat { 0.0 } else { -ZNS * ss2 * (sz21 + sz23) };
    if sinim != 0.0 {
        shs = shs / sinim;
    }
'''))
ref('dsinit-match', 'C17', (DI, '''    if irez != 0.0 {
        aonv = (nm / XKE).powf(X2O3);
''', '''    let resonant = irez == 1.0 || irez == 2.0;
    if resonant {
        aonv = (nm / XKE).powf(2.0 / 3.0);
'''))
SG = PR + 'sgp4.rs'
ref('kepler-for', 'C20 C24 C23', (SG, 'let mut ktr = 1;\n', ''), (SG, '''    while tem5.abs() >= 1.0e-12 && ktr <= 10 {
''', '''    for _ in 0..10 {
        if tem5.abs() < 1.0e-12 {
            break;
        }
'''), (SG, '        ktr += 1;\n', ''))
ref('kepler-helper', 'C20 C24 C23', (SG, '''    eo1 = u;
    tem5 = 9999.9;
    let mut ktr = 1;

    //    sgp4fix for kepler iteration
    //    the following iteration needs better limits on corrections
    while tem5.abs() >= 1.0e-12 && ktr <= 10 {
        sineo1 = eo1.sin();
        coseo1 = eo1.cos();
        tem5 = 1.0 - (coseo1 * axnl) - (sineo1 * aynl);
        tem5 = (((u - (aynl * coseo1)) + (axnl * sineo1)) - eo1) / tem5;
        if tem5.abs() >= 0.95 {
            if tem5 > 0.0 {
                tem5 = 0.95;
            } else {
                tem5 = -0.95;
            }
        }
        eo1 += tem5;
        ktr += 1;
    }
''', '''    let (sineo1, coseo1) = kepler(u, axnl, aynl);
'''), (SG, '    let mut coseo1 = 0.0;\n    let mut sineo1 = 0.0;\n', ''), (SG, '    let mut eo1;\n', ''), (SG, '    let mut tem5: f64;\n', ''), (SG, 'pub fn sgp4(', '''fn kepler(u: f64, axnl: f64, aynl: f64) -> (f64, f64) {
    let mut eo1 = u;
    let mut correction: f64 = 9999.9;
    let mut sineo1 = 0.0;
    let mut coseo1 = 0.0;
    let mut steps = 0;
    while correction.abs() >= 1.0e-12 && steps < 10 {
        sineo1 = eo1.sin();
        coseo1 = eo1.cos();
        let slope = 1.0 - (coseo1 * axnl) - (sineo1 * aynl);
        correction = (u - (aynl * coseo1) + (axnl * sineo1) - eo1) / slope;
        if correction >= 0.95 {
            correction = 0.95;
        } else if correction <= -0.95 {
            correction = -0.95;
        }
        eo1 += correction;
        steps += 1;
    }
    (sineo1, coseo1)
}

pub fn sgp4('''))
ref('kepler-clamp', 'C20 C24', (SG, '''        if tem5.abs() >= 0.95 {
            if tem5 > 0.0 {
                tem5 = 0.95;
            } else {
                tem5 = -0.95;
            }
        }
''', '''        tem5 = tem5.min(0.95).max(-0.95);
'''))
ref('sgp4-deep-merge', 'C20 C21', (SG, '''    if satrec.method == InitlMethod::D {
        sinip = xincp.sin();''', '''    let deep = satrec.method == InitlMethod::D;
    if deep {
        sinip = xincp.sin();'''), (SG, '''    if satrec.method == InitlMethod::D {
        cosisq = cosip * cosip;''', '''    if deep {
        cosisq = cosip.powi(2);'''))
ref('sgp4-decay-early', 'C20 C21 C23 C24', (SG, '''    // sgp4fix for decaying satellites
    if mrt < 1.0 {
        // printf("// decay condition %11.6f \\n",mrt);
        satrec.error = 6;
        // return {
        //   position: false,
        //   velocity: false,
        // };

        // panic!("decay condition: mrt={}, (err 6)", mrt);

        return Err(SGP4Error::DecayCondition);
    }
''', ''), (SG, '''    su -= 0.25 * temp2 * satrec.x7thm1 * sin2u;
''', '''    if mrt < 1.0 {
        satrec.error = 6;
        return Err(SGP4Error::DecayCondition);
    }
    su -= 0.25 * temp2 * satrec.x7thm1 * sin2u;
'''))
ref('sgp4-fail-helper', 'C20 C21 C23', (SG, '        satrec.error = 2;\n', ''), (SG, 'return Err(SGP4Error::Nm);', 'return fail(satrec, SGP4Error::Nm);'), (SG, '        satrec.error = 4;\n', ''), (SG, 'return Err(SGP4Error::Pl);', 'return fail(satrec, SGP4Error::Pl);'),
    (SG, 'pub fn sgp4(', '''fn fail(satrec: &mut Satrec, error: SGP4Error) -> Result<SGP4Result, SGP4Error> {
    satrec.error = error.code() as u32;
    Err(error)
}

pub fn sgp4('''))
ref('sgp4-orient', 'C20 C24', (SG, '''    let r = Eci {
        x: (mrt * ux) * EARTH_RADIUS,
        y: (mrt * uy) * EARTH_RADIUS,
        z: (mrt * uz) * EARTH_RADIUS,
    };
''', '''    let km = mrt * EARTH_RADIUS;
    let r = Eci {
        x: ux * km,
        y: uy * km,
        z: uz * km,
    };
'''), (SG, '''    let v = Vec3 {
        x: ((mvt * ux) + (rvdot * vx)) * vkmpersec,
        y: ((mvt * uy) + (rvdot * vy)) * vkmpersec,
        z: ((mvt * uz) + (rvdot * vz)) * vkmpersec,
    };
''', '''    let along = |u: f64, v: f64| (mvt * u + rvdot * v) * vkmpersec;
    let v = Vec3 {
        x: along(ux, vx),
        y: along(uy, vy),
        z: along(uz, vz),
    };
'''))
ref('sgp4-rem', 'C20', (SG, 'mm = (xlm - argpm - nodem) % TWO_PI;', 'mm = (xlm - (argpm + nodem)) % TWO_PI;'), (SG, '''        t3 = t2 * satrec.t;
        t4 = t3 * satrec.t;
''', '''        t3 = satrec.t.powi(3);
        t4 = satrec.t.powi(4);
'''), (SG, 'tempa = tempa - (satrec.d2 * t2) - (satrec.d3 * t3) - (satrec.d4 * t4);', 'tempa -= satrec.d2 * t2 + satrec.d3 * t3 + satrec.d4 * t4;'))
ref('sgp4-localt', 'C20 C23', (SG, 'let t2 = satrec.t * satrec.t;', 'let t2 = tsince * tsince;'), (SG, 'let xmdf = satrec.mo + (satrec.mdot * satrec.t);', 'let xmdf = satrec.mdot.mul_add(tsince, satrec.mo);'))
ref('sgp4-em-max', 'C20 C21', (SG, '''    if em < 1.0e-6 {
        em = 1.0e-6;
    }
''', '''    em = em.max(1.0e-6);
'''), (SG, 'if em >= 1.0 || em < -0.001 {', 'if !(em < 1.0 && em >= -0.001) && em == em {'))
ref('sgp4-code', 'C21', (SG, '''        match self {
            SGP4Error::Eccentricty => 1,
            SGP4Error::Nm => 2,
            SGP4Error::Ep => 3,
            SGP4Error::Pl => 4,
            SGP4Error::DecayCondition => 6
        }''', '''        use SGP4Error::*;
        match *self {
            DecayCondition => 6,
            Pl => 4,
            Ep => 3,
            Nm => 2,
            Eccentricty => 1,
        }'''))
SI = PR + 'sgp4init.rs'
ref('init-drag-helper', 'C15', (SI, '''            let qzms24temp = (120.0 - sfour) / EARTH_RADIUS;
            qzms24 = qzms24temp * qzms24temp * qzms24temp * qzms24temp;
''', '''            qzms24 = ((120.0 - sfour) / EARTH_RADIUS).powi(4);
'''), (SI, '''    let qzms2ttemp = (120.0 - 78.0) / EARTH_RADIUS;
    let qzms2t = qzms2ttemp * qzms2ttemp * qzms2ttemp * qzms2ttemp;
''', '''    let qzms2t = density(78.0);
'''), (SI, 'pub fn sgp4init(', '''fn density(height: f64) -> f64 {
    let ratio = (120.0 - height) / EARTH_RADIUS;
    let square = ratio * ratio;
    square * square
}

pub fn sgp4init('''))
ref('init-reset-helper', 'C15', (SI, '''    satrec.irez = 0.0;
    satrec.d2201 = 0.0;
    satrec.d2211 = 0.0;
    satrec.d3210 = 0.0;
    satrec.d3222 = 0.0;
''', '''    clear_resonance(satrec);
'''), (SI, 'pub fn sgp4init(', '''fn clear_resonance(satrec: &mut Satrec) {
    satrec.irez = 0.0;
    satrec.d2201 = 0.0;
    satrec.d2211 = 0.0;
    satrec.d3210 = 0.0;
    satrec.d3222 = 0.0;
}

pub fn sgp4init('''))
ref('init-cc3', 'C15', (SI, '''        cc3 = 0.0;
        if satrec.ecco > 1.0e-4 {
            cc3 = (-2.0 * coef * tsi * J3OJ2 * satrec.no * sinio) / satrec.ecco;
        }
''', '''        cc3 = if satrec.ecco > 1.0e-4 { -2.0 * coef * tsi * J3OJ2 * satrec.no * sinio / satrec.ecco } else { 0.0 };
'''), (SI, 'psisq = (1.0 - etasq).abs();', 'psisq = f64::abs(etasq - 1.0);'), (SI, 'coef = qzms24 * (tsi.powi(4));', 'let tsi2 = tsi * tsi;\n        coef = qzms24 * tsi2 * tsi2;'))
ref('init-period', 'C15', (SI, 'if TWO_PI / satrec.no >= 225.0 {', 'let period = TWO_PI / satrec.no;\n        if period >= 225.0 {'))
IN = PR + 'initl.rs'
ref('initl-helper', 'C14 C15', (IN, 'let ak = (XKE / no).powf(X2O3);', 'let ak = semi_major(no);'), (IN, 'let ao = (XKE / no).powf(X2O3);', 'let ao = semi_major(no);'),
    (IN, 'pub fn initl(', '''fn semi_major(motion: f64) -> f64 {
    (XKE / motion).powf(X2O3)
}

pub fn initl('''), (IN, 'let omeosq = 1.0 - eccsq;', 'let omeosq = (1.0 + ecco) * (1.0 - ecco);'))
ref('initl-cbrt', 'C14', (IN, 'let ak = (XKE / no).powf(X2O3);', 'let ak = (XKE / no).powf(2.0 / 3.0);'))
ref('initl-match', 'C14 C15', (IN, '''    let mut gsto;
    if opsmode == DpperOpsMode::A {''', '''    let gsto = if opsmode != DpperOpsMode::A {
        gstime::gstime(epoch + 2433281.5)
    } else {'''), (IN, '''        gsto = (thgr70 + (c1 * ds70) + (c1p2p * tfrac) + (ts70 * ts70 * fk5r)) % TWO_PI;
        if gsto < 0.0 {
            gsto += TWO_PI;
        }
    } else {
        gsto = gstime::gstime(epoch + 2433281.5);
    }
''', '''        let angle = (thgr70 + (c1 * ds70) + (c1p2p * tfrac) + (ts70 * ts70 * fk5r)) % TWO_PI;
        if angle < 0.0 { angle + TWO_PI } else { angle }
    };
'''))
MO = PR + 'mod.rs'
ref('prop-jd', 'C22', (MO, '''  let j = jday(
    time.year() as f64,
    time.month() as f64,
    time.day() as f64,
    time.hour() as f64,
    time.minute() as f64,
    time.second() as f64,
    time.nanosecond() as f64 / 1.0e6
  );

  let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
  let mut rec = satrec.clone();
  return sgp4(&mut rec, m);''', '''  let minutes = (jday_datetime(time) - satrec.jdsatepoch) * MINUTES_PER_DAY;
  sgp4(&mut satrec.clone(), minutes)'''))
TLE = 'C10 C11 C12 C13'
ref('io-first-byte', 'C11 C12 C13', (IO, "lines[1].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[2].bytes().collect::<Vec<u8>>()[0] != '2' as u8", "first_byte(lines[1]) != b'1' || first_byte(lines[2]) != b'2'"),
    (IO, "(lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8)", "first_byte(lines[0]) == b'0'"), (IO, "(lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8)", "first_byte(lines[i]) == b'0'"),
    (IO, 'pub fn parse_multiple', '''fn first_byte(line: &str) -> u8 {
    line.as_bytes()[0]
}

pub fn parse_multiple'''))
ref('io-name-helper', 'C11 C12 C13', (IO, '''                    if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
                        rec.name = Some(lines[i].get(2..).unwrap_or("").trim().to_string());
                    } else {
                        rec.name = Some(lines[i].trim().to_string());
                    }
''', '''                    rec.name = Some(title(lines[i]));
'''), (IO, '''                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
                    satrec.name = Some(lines[0].get(2..).unwrap_or("").trim().to_string());
                } else {
                    satrec.name = Some(lines[0].trim().to_string());
                }
''', '''                satrec.name = Some(title(lines[0]));
'''), (IO, 'pub fn parse_multiple', '''/// The name in a title line, without the "0 " marker.
fn title(line: &str) -> String {
    let text = if line.starts_with('0') { line.get(2..).unwrap_or("") } else { line };
    text.trim().to_string()
}

pub fn parse_multiple'''))
ref('io-lines-helper', 'C11 C12 C13', (IO, 'let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();', 'let lines = nonblank(string);'),
    (IO, 'pub fn parse_multiple', '''fn nonblank(text: &str) -> Vec<&str> {
    text.split('\\n').filter(|line| !line.trim().is_empty()).collect()
}

pub fn parse_multiple'''))
ref('io-match-len', 'C11 C12', (IO, '    // If there are three lines, parse as 3LE.\n    if lines.len() == 3 {', '    let count = lines.len();\n    if count != 3 && count != 2 {\n        return Err(SatrecParseError::InvalidTLEBadLineCount);\n    }\n    if count == 3 {'),
    (IO, '    } else if lines.len() == 2 {', '    } else {'), (IO, '''        return twoline2satrec(lines[0], lines[1]);
    } else {
        return Err(SatrecParseError::InvalidTLEBadLineCount)
    }''', '''        return twoline2satrec(lines[0], lines[1]);
    }'''))
ref('io-match-arm', 'C11 C12', (IO, '''    } else if lines.len() == 2 {
        // First, perform check on the first character of each line. should be line numbers. 
        if lines[0].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[1].bytes().collect::<Vec<u8>>()[0] != '2' as u8  {
            return Err(SatrecParseError::InvalidTLELineCheckFailed)
        }

        return twoline2satrec(lines[0], lines[1]);
    } else {
        return Err(SatrecParseError::InvalidTLEBadLineCount)
    }''', '''    }
    match lines.as_slice() {
        [first, second] => {
            if !first.starts_with('1') || !second.starts_with('2') {
                return Err(SatrecParseError::InvalidTLELineCheckFailed)
            }
            twoline2satrec(first, second)
        }
        _ => Err(SatrecParseError::InvalidTLEBadLineCount),
    }'''))
ref('io-question', 'C11 C12', (IO, '''        let satrec = twoline2satrec(lines[1], lines[2]);

''', '''        let mut satrec = twoline2satrec(lines[1], lines[2])?;

'''), (IO, '''        match satrec {
            Ok(mut satrec) => {
                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
                    satrec.name = Some(lines[0].get(2..).unwrap_or("").trim().to_string());
                } else {
                    satrec.name = Some(lines[0].trim().to_string());
                }

                return Ok(satrec)
            },
            Err(err) => { return Err(err) }
        }
''', '''        satrec.name = Some(match lines[0].strip_prefix('0') {
            Some(_) => lines[0].get(2..).unwrap_or("").trim().to_owned(),
            None => lines[0].trim().to_owned(),
        });
        Ok(satrec)
'''))
ref('io-map-err', 'C10 C11 C12', (IO, '''    match sgp4init::sgp4init(&mut satrec, opts) {
        Ok(_) => {}, // Ignore initial sgp4 positioning.
        Err(err) => return Err(SatrecParseError::Sgp4InitError(err))
    };

    return Ok(satrec);''', '''    sgp4init::sgp4init(&mut satrec, opts).map_err(SatrecParseError::Sgp4InitError)?;
    Ok(satrec)'''))
ref('io-map-ok', 'C11 C12', (IO, '''    match sgp4init::sgp4init(&mut satrec, opts) {
        Ok(_) => {}, // Ignore initial sgp4 positioning.
        Err(err) => return Err(SatrecParseError::Sgp4InitError(err))
    };

    return Ok(satrec);''', '''    if let Err(err) = sgp4init::sgp4init(&mut satrec, opts) {
        return Err(SatrecParseError::Sgp4InitError(err));
    }
    Ok(satrec)'''))
ref('io-satnum', 'C10 C11 C12', (IO, '''    let satnum = match str1.get(2..7) {
        Some(text) => text.trim(),
        None => return Err(SatrecParseError::CompoundError("satnum", str1.to_string()))
    };
''', '''    let satnum = str1
        .get(2..7)
        .map(|text| text.trim())
        .ok_or_else(|| SatrecParseError::CompoundError("satnum", str1.to_string()))?;
'''))
ref('io-parse-float', 'C10 C11 C12', (IO, '''    match columns(line, low, high).trim().parse::<f64>() {
        Ok(res) if res.is_finite() => Ok(res),
        _ => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
    }''', '''    let text = columns(line, low, high);
    if let Ok(value) = text.trim().parse::<f64>() {
        if value.is_finite() {
            return Ok(value);
        }
    }
    Err(SatrecParseError::FloatParseError(name, low, high, text.to_string()))'''),
    (IO, '''    match columns(line, low, high).trim().parse::<i64>() {
        Ok(res) => Ok(res),
        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
    }''', '''    let text = columns(line, low, high);
    text.trim().parse().map_err(|_| SatrecParseError::IntParseError(name, low, high, String::from(text)))'''))
ref('io-exponent', 'C10 C11 C12', (IO, '''    let nddot_0 = columns(str1, 44, 45).to_string();
    let nddot_1 = columns(str1, 45, 50).trim().to_string();
    let nddot_2 = columns(str1, 50, 52).to_string();
    let nndot_str = format!("{}.{}E{}", nddot_0, nddot_1, nddot_2);
''', '''    let nndot_str = mantissa_exponent(columns(str1, 44, 45), columns(str1, 45, 50), columns(str1, 50, 52));
'''), (IO, '''    let bstar_1 = columns(str1, 54, 59).trim().to_string();
    let bstar_2 = columns(str1, 59, 61).to_string();
    let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
''', '''    let bstar_str = mantissa_exponent(&bstar_0, columns(str1, 54, 59), columns(str1, 59, 61));
'''), (IO, 'pub fn parse_satrec', '''fn mantissa_exponent(sign: &str, digits: &str, exponent: &str) -> String {
    format!("{}.{}E{}", sign, digits.trim(), exponent)
}

pub fn parse_satrec'''))
ref('io-year', 'C10 C12', (IO, '''    let year;
    if epochyr < 57 {
        year = epochyr + 2000;
    } else {
        year = epochyr + 1900;
    }
''', '''    let century = if epochyr >= 57 { 1900 } else { 2000 };
    let year = century + epochyr;
'''))
ref('io-reorder', 'C10', (IO, '''    let a = (no * TUMIN).powf(-2.0 / 3.0);

    let alta = (a * (1.0 + ecco)) - 1.0;
    let altp = (a * (1.0 - ecco)) - 1.0;

''', ''), (IO, '''    let mut satrec = Satrec::zero();

    satrec.operationmode''', '''    let a = (no * TUMIN).powf(-X2O3);
    let (alta, altp) = (a * (1.0 + ecco) - 1.0, a - a * ecco - 1.0);

    let mut satrec = Satrec::zero();

    satrec.operationmode'''))
ref('io-loop', 'C11 C13', (IO, '    while i < lines.len() {', '    loop {\n        if i >= lines.len() {\n            break;\n        }'))
ref('io-step', 'C11 C13', (IO, 'recs.push(rec);\n                },\n                Err(err) => {\n                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))\n                }\n            }\n            i += 3;', 'recs.push(rec);\n                },\n                Err(err) => errors.push(at_line(i, err))\n            }\n            i = i + 3;'),
    (IO, 'pub fn parse_multiple', '''fn at_line(line: usize, error: SatrecParseError) -> SatrecParseError {
    SatrecParseError::SatrecMultiError(line, Box::new(error))
}

pub fn parse_multiple'''))
ref('io-remaining', 'C11 C13', (IO, '''        let untitled = i + 1 < lines.len() && lines[i].starts_with('1') && lines[i+1].starts_with('2');
''', '''        let remaining = lines.len() - i;
        let untitled = remaining >= 2 && lines[i].starts_with('1') && lines[i+1].starts_with('2');
'''), (IO, 'if !untitled && i + 2 < lines.len() {', 'if !untitled && remaining > 2 {'), (IO, '} else if i + 1 < lines.len() {', '} else if remaining > 1 {'))
ref('io-unify', 'C11 C13', (IO, '''        if !untitled && i + 2 < lines.len() {
            match twoline2satrec(lines[i+1], lines[i+2]) {
                Ok(mut rec) => {
                    if (lines[i].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
                        rec.name = Some(lines[i].get(2..).unwrap_or("").trim().to_string());
                    } else {
                        rec.name = Some(lines[i].trim().to_string());
                    }

                    recs.push(rec);
                },
                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }
            }
            i += 3;
        } else if i + 1 < lines.len() {
            match twoline2satrec(lines[i], lines[i+1]) {
                Ok(rec) => recs.push(rec),
                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }
            }
            i += 2;
        } else {
            errors.push(SatrecParseError::SatrecMultiError(i, Box::new(SatrecParseError::InvalidTLEBadLineCount)));
            i += 1;
        }
''', '''        if i + 1 == lines.len() {
            errors.push(SatrecParseError::SatrecMultiError(i, Box::new(SatrecParseError::InvalidTLEBadLineCount)));
            break;
        }
        let titled = !untitled && i + 2 < lines.len();
        let start = if titled { i + 1 } else { i };
        match twoline2satrec(lines[start], lines[start + 1]) {
            Ok(mut rec) => {
                if titled {
                    if lines[i].starts_with('0') {
                        rec.name = Some(lines[i].get(2..).unwrap_or("").trim().to_string());
                    } else {
                        rec.name = Some(lines[i].trim().to_string());
                    }
                }
                recs.push(rec);
            }
            Err(err) => errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err))),
        }
        i = start + 2;
'''))
ref('io-default-zero', 'C10 C12', (IO, '''    let mut satrec = Satrec::zero();

    satrec.operationmode = DpperOpsMode::I;
    satrec.satnum = satnum.to_string();
    satrec.epochyr = epochyr;
    satrec.epochdays = epochdays;
''', '''    let mut satrec = Satrec {
        operationmode: DpperOpsMode::I,
        satnum: satnum.into(),
        epochyr,
        epochdays,
        ..Satrec::zero()
    };
'''))
ref('noop', 'C02 C06 C09 C19 C20 C16', (EXT, '    let dayofyr =', '    let _ = 0;\n    let dayofyr ='), (TR, '    let mut k: i32 = 0;', '    let _unused = (1, 2);\n    let mut k: i32 = 0;'), (DOP, '    let next_pos', '    std::mem::drop(0);\n    let next_pos'),
    (DS, '    let delt;', '    if false {\n        return dspace(options);\n    }\n    let delt;'), (SG, '    let cosisq;', '    let cosisq;\n    debug_assert!(true);'), (DC, '    let xnoi = 1.0 / nm;', '    let xnoi = 1.0 / nm;\n    let _checked = xnoi.is_finite();'))
