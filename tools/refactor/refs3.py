"""Third batch of behaviour-preserving edits: other idioms."""
from refs import ref, REFS, EXT, TR, IO, LIB, DOP, PR
import refs2
S4 = PR + 'sgp4.rs'; DS = PR + 'dspace.rs'; GS = PR + 'gstime.rs'; SI = PR + 'sgp4init.rs'; IN = PR + 'initl.rs'; MODF = PR + 'mod.rs'; DC = PR + 'dscom.rs'
LINES = '''    let lines = string.split("\\n").into_iter().filter(|el| { return el.trim() != "" }).collect::<Vec<&str>>();'''
ref('x-lines-push', 'C12 C13 C11', (IO, LINES, '''    let mut lines: Vec<&str> = Vec::new();
    for candidate in string.split('\\n') {
        if candidate.trim().is_empty() {
            continue;
        }
        lines.push(candidate);
    }'''))
ref('x-slice-pattern', 'C12 C11', (IO, '''    } else if lines.len() == 2 {
        // First, perform check on the first character of each line. should be line numbers. 
        if lines[0].bytes().collect::<Vec<u8>>()[0] != '1' as u8 || lines[1].bytes().collect::<Vec<u8>>()[0] != '2' as u8  {
            return Err(SatrecParseError::InvalidTLELineCheckFailed)
        }

        return twoline2satrec(lines[0], lines[1]);
    } else {
        return Err(SatrecParseError::InvalidTLEBadLineCount)
    }''', '''    }
    match lines.as_slice() {
        [first, second] => {
            if !(first.starts_with('1') && second.starts_with('2')) {
                return Err(SatrecParseError::InvalidTLELineCheckFailed);
            }
            twoline2satrec(first, second)
        }
        _ => Err(SatrecParseError::InvalidTLEBadLineCount),
    }'''))
ref('x-name-strip', 'C12 C11', (IO, '''                if (lines[0].bytes().collect::<Vec<u8>>()[0] == '0' as u8) {
                    satrec.name = Some(lines[0].get(2..).unwrap_or("").trim().to_string());
                } else {
                    satrec.name = Some(lines[0].trim().to_string());
                }
''', '''                let title = match lines[0].starts_with('0') {
                    true => lines[0].get(2..).unwrap_or_default(),
                    false => lines[0],
                };
                satrec.name = Some(String::from(title.trim()));
'''))
ref('x-multi-loop-next', 'C13 C11', (IO, '''    while i < lines.len() {
        // A "1"''', '''    loop {
        if i >= lines.len() {
            return (recs, errors);
        }
        // A "1"'''), (IO, '''            i += 1;
        }
    }

    (recs, errors)
}''', '''            i += 1;
        }
    }
}'''))
ref('x-multi-remaining', 'C13 C11', (IO, '''        let untitled = i + 1 < lines.len() && lines[i].starts_with('1') && lines[i+1].starts_with('2');
''', '''        let left = lines.len() - i;
        let untitled = left >= 2 && lines[i].starts_with('1') && lines[i+1].starts_with('2');
'''), (IO, 'if !untitled && i + 2 < lines.len() {', 'if !untitled && left >= 3 {'), (IO, '} else if i + 1 < lines.len() {', '} else if left == 2 || untitled {'))
ref('x-multi-result', 'C13 C11', (IO, '''            match twoline2satrec(lines[i], lines[i+1]) {
                Ok(rec) => recs.push(rec),
                Err(err) => {
                    errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)))
                }
            }
            i += 2;''', '''            let outcome = twoline2satrec(lines[i], lines[i + 1]);
            if let Ok(rec) = outcome {
                recs.push(rec);
            } else if let Err(err) = outcome {
                errors.push(SatrecParseError::SatrecMultiError(i, Box::new(err)));
            }
            i += 2;'''))
ref('x-parse-float-filter', 'C10 C11 C12', (IO, '''    match columns(line, low, high).trim().parse::<f64>() {
        Ok(res) if res.is_finite() => Ok(res),
        _ => return Err(SatrecParseError::FloatParseError(name, low, high, columns(line, low, high).to_string()))
    }''', '''    let text = columns(line, low, high);
    text.trim()
        .parse::<f64>()
        .ok()
        .filter(|value| value.is_finite())
        .ok_or_else(|| SatrecParseError::FloatParseError(name, low, high, text.to_string()))'''))
ref('x-parse-int-maperr', 'C10 C11', (IO, '''    match columns(line, low, high).trim().parse::<i64>() {
        Ok(res) => Ok(res),
        Err(num) => return Err(SatrecParseError::IntParseError(name, low, high, columns(line, low, high).to_string()))
    }''', '''    let text = columns(line, low, high);
    text.trim().parse::<i64>().map_err(|_| SatrecParseError::IntParseError(name, low, high, text.to_owned()))'''))
ref('x-columns-map-or', 'C10 C11', (IO, 'line.get(low..high).unwrap_or("")', 'line.get(low..high).map_or("", |text| text)'))
ref('x-bstar-string', 'C10', (IO, '''    let bstar_str = format!("{}.{}E{}", bstar_0, bstar_1, bstar_2);
''', '''    let bstar_str = bstar_0 + "." + &bstar_1 + "E" + &bstar_2;
'''))
ref('x-satnum-ok-or', 'C10 C11', (IO, '''    let satnum = match str1.get(2..7) {
        Some(text) => text.trim(),
        None => return Err(SatrecParseError::CompoundError("satnum", str1.to_string()))
    };''', '''    let satnum = str1
        .get(2..7)
        .map(str::trim)
        .ok_or_else(|| SatrecParseError::CompoundError("satnum", str1.to_string()))?;'''))
ref('x-days-iter', 'C02 C10', (EXT, '''    while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i < 12 {
        inttemp += lmonth[(i - 1) as usize];
        i += 1;
    }
''', '''    for length in lmonth.iter().take(11) {
        if dayofyr <= inttemp + length {
            break;
        }
        inttemp += length;
        i += 1;
    }
'''))
ref('x-days-down', 'C02 C10', (EXT, '''    let mut i: u64 = 1;
    let mut inttemp: u64 = 0;

    while dayofyr > (inttemp + lmonth[(i - 1) as usize]) && i < 12 {
        inttemp += lmonth[(i - 1) as usize];
        i += 1;
    }
''', '''    let mut i: u64 = 1;
    let mut left = dayofyr;
    while i < 12 && left > lmonth[i as usize - 1] {
        left -= lmonth[i as usize - 1];
        i += 1;
    }
    let inttemp = dayofyr - left;
'''))
ref('x-days-const-table', 'C02 C10', (EXT, '''    let mut lmonth: [u64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    if year % 4 == 0 {
        lmonth[1] = 29
    }
''', '''    const COMMON: [u64; 12] = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    const LEAP: [u64; 12] = [31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31];
    let lmonth = if year % 4 == 0 { LEAP } else { COMMON };
'''))
ref('x-jday-datetime-micros', 'C01 C03', (EXT, '''    jday(
        time.year() as f64,
        time.month() as f64,
        time.day() as f64,
        time.hour() as f64,
        time.minute() as f64,
        time.second() as f64,
        time.nanosecond() as f64 / 1.0e6
    )''', '''    let (year, month, day) = (time.year() as f64, time.month() as f64, time.day() as f64);
    let clock = [time.hour(), time.minute(), time.second()];
    jday(year, month, day, f64::from(clock[0]), f64::from(clock[1]), f64::from(clock[2]), f64::from(time.nanosecond()) * 1.0e-6)'''))
ref('x-prop-datetime', 'C22', (MODF, '''  let m = (j - satrec.jdsatepoch) * MINUTES_PER_DAY;
  let mut rec = satrec.clone();
  return sgp4(&mut rec, m);''', '''  let minutes = MINUTES_PER_DAY * j - MINUTES_PER_DAY * satrec.jdsatepoch;
  sgp4(&mut satrec.clone(), minutes)'''))
ref('x-dop-sqrt', 'C09', (DOP, '''    let mut range_rate = next_range - current_range;

    // TODO: is this simply abs()
    range_rate *= sign(range_rate);

    return 1.0 + (range_rate / C);''', '''    let range_rate = if next_range < current_range { current_range - next_range } else { next_range - current_range };
    (C + range_rate) / C'''))
ref('x-geod-iter-fold', 'C06', (TR, '''    let mut k: i32 = 0;
    let mut c: f64 = 0.0;

    while k < KMAX {
        c = 1.0 / (1.0 - (E2 * latitude.sin().powi(2))).sqrt();
        latitude = (eci.z + (A * c * E2 * latitude.sin())).atan2(r);
        k += 1;
    }
''', '''    let mut c: f64 = 0.0;
    for _ in (0..KMAX).rev() {
        let s = latitude.sin();
        c = (1.0 - E2 * s * s).sqrt().recip();
        latitude = f64::atan2(eci.z + s * (A * E2) * c, r);
    }
'''))
ref('x-geod-wrap-loop', 'C06', (TR, '''    while longitude < -PI {
        longitude += TWO_PI;
    }

    while longitude > PI {
        longitude -= TWO_PI;
    }
''', '''    loop {
        if longitude < -PI {
            longitude += TWO_PI;
        } else if longitude > PI {
            longitude -= TWO_PI;
        } else {
            break;
        }
    }
'''))
ref('x-kepler-loop-break', 'C20', (S4, '''    while tem5.abs() >= 1.0e-12 && ktr <= 10 {
        sineo1 = eo1.sin();
        coseo1 = eo1.cos();''', '''    loop {
        if ktr > 10 || tem5.abs() < 1.0e-12 {
            break;
        }
        let (s, c) = eo1.sin_cos();
        sineo1 = s;
        coseo1 = c;'''))
ref('x-kepler-clamp', 'C20', (S4, '''        if tem5.abs() >= 0.95 {
            if tem5 > 0.0 {
                tem5 = 0.95;
            } else {
                tem5 = -0.95;
            }
        }
        eo1 += tem5;''', '''        tem5 = tem5.max(-0.95).min(0.95);
        eo1 += tem5;'''))
ref('x-sgp4-mean-helper', 'C20 C21 C23', (S4, '''    nodem %= TWO_PI;
    argpm %= TWO_PI;
    xlm %= TWO_PI;
    mm = (xlm - argpm - nodem) % TWO_PI;
''', '''    {
        let turn = |angle: f64| angle % TWO_PI;
        argpm = turn(argpm);
        nodem = turn(nodem);
        xlm = turn(xlm);
        mm = turn(xlm - (argpm + nodem));
    }
'''))
ref('x-sgp4-failure-match', 'C21 C23 C20', (S4, '''        if ep < 0.0 || ep > 1.0 {''', '''        if !(ep >= 0.0 && ep <= 1.0) {'''), (S4, '''    if em >= 1.0 || em < -0.001 {''', '''    if !(-0.001..1.0).contains(&em) {'''))
ref('x-sgp4-short-tuple', 'C20 C24', (S4, '''    let sin2u = (cosu + cosu) * sinu;
    let cos2u = 1.0 - (2.0 * sinu * sinu);
''', '''    let (sin2u, cos2u) = (2.0 * sinu * cosu, 1.0 - 2.0 * sinu.powi(2));
'''))
ref('x-dscom-closure', 'C16 C20 C15', (DC, '''        z21 = (6.0 * a2 * a5) + (emsq * ((24.0 * x1 * x5) - (6.0 * x3 * x7)));
''', '''        let mixed = |p: f64, q: f64, r: f64, s: f64| 24.0 * p * q - 6.0 * r * s;
        z21 = 6.0 * a2 * a5 + emsq * mixed(x1, x5, x3, x7);
'''), (DC, '''        z23 = (6.0 * a4 * a6) + (emsq * ((24.0 * x2 * x6) - (6.0 * x4 * x8)));
''', '''        z23 = 6.0 * a4 * a6 + emsq * mixed(x2, x6, x4, x8);
'''))
ref('x-dspace-steps', 'C19 C20', (DS, '''        let mut iretn = 381; // added for do loop
        while iretn == 381 {''', '''        let mut done = false;
        while !done {'''), (DS, '''            if (t - atime).abs() >= STEPP {
                iretn = 381;
            } else {
                ft = t - atime;
                iretn = 0;
            }

            if iretn == 381 {''', '''            ft = t - atime;
            done = ft.abs() < STEPP;
            if done {
                ft = t - atime;
            } else {'''))
