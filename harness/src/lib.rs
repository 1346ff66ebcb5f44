//! Thin entry points over the public API of tofas and tofas_extras.  Each takes arrays of doubles and
//! integers and fills arrays of doubles and integers, so that the same entry can be executed
//! symbolically (from its LLVM IR) and replayed natively.
use tofas::calendar::*;
use tofas::common::*;
use tofas::delta_at::*;
use tofas::earth::{self, EarthPosVel};
use tofas::ellipsoid::*;
use tofas::frames::{self, PrecessionNutation};
use tofas::time::*;
use tofas::{fundargs, locator};
use tofas_extras::sun_angle::*;

pub type FI = [f64; 40];
pub type II = [i64; 8];
pub type FO = [f64; 64];
pub type IO = [i64; 8];
pub type Entry = fn(&FI, &II, &mut FO, &mut IO);

fn cal_err(e: CalendarError) -> i64 {
    match e {
        CalendarError::BadYear => 1,
        CalendarError::BadMonth => 2,
        CalendarError::BadDay => 3,
        CalendarError::BadJulian => 4,
        CalendarError::BadFract => 5,
    }
}
fn date(i: &II) -> GregorianDate {
    GregorianDate { year: i[0] as i32, month: i[1] as i32, day: i[2] as i32 }
}
fn put_date(g: GregorianDate, o: &mut IO) {
    o[1] = g.year as i64;
    o[2] = g.month as i64;
    o[3] = g.day as i64;
}
fn v3(f: &FI, k: usize) -> Vec3 {
    [f[k], f[k + 1], f[k + 2]]
}
fn m3(f: &FI, k: usize) -> Mat3 {
    [v3(f, k), v3(f, k + 3), v3(f, k + 6)]
}
fn pv(v: Vec3, o: &mut FO, k: usize) {
    o[k] = v[0];
    o[k + 1] = v[1];
    o[k + 2] = v[2];
}
fn pm(m: Mat3, o: &mut FO, k: usize) {
    pv(m[0], o, k);
    pv(m[1], o, k + 3);
    pv(m[2], o, k + 6);
}
fn p2((a, b): (f64, f64), o: &mut FO, k: usize) {
    o[k] = a;
    o[k + 1] = b;
}

// ---- text output: the symbolic executor replaces h_text_out by its own text sink
std::thread_local! { static TEXT: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
#[no_mangle]
#[inline(never)]
pub extern "C" fn h_text_out(p: *const u8, n: usize) {
    let s = unsafe { std::str::from_utf8_unchecked(std::slice::from_raw_parts(p, n)) };
    TEXT.with(|t| t.borrow_mut().push_str(s))
}
pub fn take_text() -> String {
    TEXT.with(|t| std::mem::take(&mut *t.borrow_mut()))
}
pub struct Text;
impl std::fmt::Write for Text {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        h_text_out(s.as_ptr(), s.len());
        Ok(())
    }
}
fn show<T: std::fmt::Display>(x: &T, p: &mut IO) {
    use std::fmt::Write;
    p[0] = match write!(Text, "{}", x) { Ok(()) => 0, Err(_) => 1 };
}

macro_rules! entries {
    ($( $name:ident ( $f:ident, $i:ident, $o:ident, $p:ident ) $body:block )*) => {
        $( #[no_mangle] #[allow(unused_variables)]
           pub fn $name($f: &FI, $i: &II, $o: &mut FO, $p: &mut IO) $body )*
        pub fn lookup(name: &str) -> Option<Entry> {
            $( if name == stringify!($name) { return Some($name); } )*
            None
        }
    };
}

entries! {
    // ---- calendar
    h_cal_new(f, i, o, p) {
        match GregorianDate::new(i[0] as i32, i[1] as i32, i[2] as i32) {
            Ok(g) => { p[0] = 0; put_date(g, p) }
            Err(e) => { p[0] = cal_err(e) }
        }
    }
    h_cal_to_julian(f, i, o, p) { p2(date(i).to_julian(), o, 0) }
    h_cal_from_julian(f, i, o, p) {
        match GregorianDate::from_julian(f[0], f[1]) {
            Ok((g, fd)) => { p[0] = 0; put_date(g, p); o[0] = fd }
            Err(e) => { p[0] = cal_err(e) }
        }
    }
    h_cal_roundtrip(f, i, o, p) {
        let (a, b) = date(i).to_julian();
        match GregorianDate::from_julian(a, b + f[0]) {
            Ok((g, fd)) => { p[0] = 0; put_date(g, p); o[0] = fd }
            Err(e) => { p[0] = cal_err(e) }
        }
    }
    h_hms_from_fraction(f, i, o, p) {
        match HMS::from_fraction_of_day(f[0]) {
            Ok(h) => { p[0] = 0; p[1] = h.hour as i64; p[2] = h.minute as i64; o[0] = h.second }
            Err(e) => { p[0] = cal_err(e) }
        }
    }
    h_hms_roundtrip(f, i, o, p) {
        match HMS::from_fraction_of_day(f[0]) {
            Ok(h) => { p[0] = 0; o[0] = h.to_fraction_of_day() }
            Err(e) => { p[0] = cal_err(e) }
        }
    }
    h_hms_to_fraction(f, i, o, p) {
        let h = HMS::new(i[0] as u8, i[1] as u8, f[0]);
        o[0] = h.to_fraction_of_day()
    }
    h_hms_new(f, i, o, p) {
        let h = HMS::new(i[0] as u8, i[1] as u8, f[0]);
        p[0] = h.hour as i64; p[1] = h.minute as i64; o[0] = h.second
    }
    h_gdh_from_julian(f, i, o, p) {
        match GregorianDateHMS::from_julian(f[0], f[1]) {
            Ok(g) => {
                p[0] = 0; put_date(g.date, p); p[4] = g.hms.hour as i64; p[5] = g.hms.minute as i64; o[0] = g.hms.second
            }
            Err(e) => { p[0] = cal_err(e) }
        }
    }
    h_gdh_to_julian(f, i, o, p) {
        let g = GregorianDateHMS { date: date(i), hms: HMS { hour: i[3] as u8, minute: i[4] as u8, second: f[0] } };
        p2(g.to_julian(), o, 0)
    }
    h_delta_at(f, i, o, p) {
        match date(i).delta_at(f[0]) {
            Err(DeltaAtError::BadFract) => p[0] = 1,
            Ok(None) => p[0] = 2,
            Ok(Some(d)) => { p[0] = 0; o[0] = d }
        }
    }
    // ---- time scales
    h_tt_from_ut1(f, i, o, p) { p2(TT::from_ut1(UT1((f[0], f[1])), f[2]).0, o, 0) }
    h_tai_from_utc(f, i, o, p) { p2(TAI::from_utc_delta_at(UTC((f[0], f[1])), f[2]).0, o, 0) }
    h_tt_from_tai(f, i, o, p) { let t: TT = TAI((f[0], f[1])).into(); p2(t.0, o, 0) }
    h_tdb_from_tt(f, i, o, p) { p2(TDB::from_tt(TT((f[0], f[1])), f[2]).0, o, 0) }
    h_ut1_from_tt(f, i, o, p) { p2(UT1::from_tt(TT((f[0], f[1])), f[2]).0, o, 0) }
    h_ut1_tt_ut1(f, i, o, p) { p2(UT1::from_tt(TT::from_ut1(UT1((f[0], f[1])), f[2]), f[2]).0, o, 0) }
    h_totals(f, i, o, p) {
        o[0] = TT((f[0], f[1])).total();
        o[1] = UTC((f[0], f[1])).total();
        o[2] = TAI((f[0], f[1])).total();
        o[3] = UT1((f[0], f[1])).total();
    }
    // ---- angles, vectors, matrices
    h_anp(f, i, o, p) { o[0] = anp(f[0]) }
    h_era(f, i, o, p) { o[0] = earth::rotation_angle(UT1((f[0], f[1]))) }
    h_vec_ops(f, i, o, p) {
        let a = v3(f, 0); let b = v3(f, 3); let c = f[6];
        pv(a.neg(), o, 0); pv(a.scale(c), o, 3); pv(a.add(b), o, 6); pv(a.sub(b), o, 9);
        o[12] = a.dot(b);
    }
    h_vec_norm(f, i, o, p) { o[0] = v3(f, 0).norm() }
    h_vec_normalize(f, i, o, p) { pv(v3(f, 0).normalize(), o, 0) }
    h_vec_angle(f, i, o, p) { o[0] = v3(f, 0).angle(v3(f, 3)) }
    h_mat_apply(f, i, o, p) { pv(m3(f, 0).apply(v3(f, 9)), o, 0) }
    h_mat_compose(f, i, o, p) { pm(m3(f, 0).compose(&m3(f, 9)), o, 0) }
    h_mat_transpose(f, i, o, p) { pm(m3(f, 0).transpose(), o, 0) }
    h_mat_const(f, i, o, p) { pm(Mat3::zero(), o, 0); pm(Mat3::identity(), o, 9) }
    h_mat_rotation(f, i, o, p) { pm(Mat3::rotation(i[0] as usize, f[0]), o, 0) }
    // ---- frames
    h_frame_bias(f, i, o, p) { let (a, b, c) = frames::frame_bias(); o[0] = a; o[1] = b; o[2] = c }
    h_precession_rate(f, i, o, p) { p2(frames::precession_rate(TT((f[0], f[1]))), o, 0) }
    h_mean_obliquity(f, i, o, p) { o[0] = frames::mean_obliquity(TT((f[0], f[1]))) }
    h_bias_precession(f, i, o, p) {
        let (a, b, c) = frames::bias_and_precession(TT((f[0], f[1])));
        pm(a, o, 0); pm(b, o, 9); pm(c, o, 18)
    }
    h_nutation(f, i, o, p) { p2(frames::nutation(TT((f[0], f[1]))), o, 0) }
    h_nutation_matrix(f, i, o, p) { pm(frames::nutation_matrix(f[0], f[1], f[2]), o, 0) }
    h_precession_nutation(f, i, o, p) { pm(frames::precession_nutation(TT((f[0], f[1]))), o, 0) }
    h_pn_dpsi(f, i, o, p) {
        let a: PrecessionNutation = TT((f[0], f[1])).into();
        o[0] = a.dpsi;
        o[1] = PrecessionNutation::from_tt_with_nutation(TT((f[0], f[1])), f[2], f[3]).dpsi;
    }
    h_c2i(f, i, o, p) { pm(frames::celestial_to_intermediate(TT((f[0], f[1]))), o, 0) }
    h_c2i_bpn(f, i, o, p) { pm(frames::celestial_to_intermediate_with_bpn(TT((f[0], f[1])), &m3(f, 2)), o, 0) }
    h_c2i_xy(f, i, o, p) { pm(frames::celestial_to_intermediate_with_bpn_and_xy(TT((f[0], f[1])), f[2], f[3]), o, 0) }
    h_c2i_xys(f, i, o, p) { pm(frames::celestial_to_intermediate_from_xys(f[0], f[1], f[2]), o, 0) }
    h_xy_from_bpn(f, i, o, p) { p2(frames::xy_from_bpn(&m3(f, 0)), o, 0) }
    h_c2t_cio(f, i, o, p) { pm(frames::celestial_to_terrestrial_from_cio_components(&m3(f, 0), f[9], &m3(f, 10)), o, 0) }
    h_c2t(f, i, o, p) {
        pm(frames::celestial_to_terrestrial(TT((f[0], f[1])), UT1((f[2], f[3])), f[4], f[5]), o, 0)
    }
    h_polar_motion(f, i, o, p) { pm(earth::polar_motion_matrix(f[0], f[1], f[2]), o, 0) }
    // ---- CIO locator and fundamental arguments
    h_cio(f, i, o, p) { o[0] = locator::cio(TT((f[0], f[1])), f[2], f[3]) }
    h_fundargs(f, i, o, p) {
        o[0] = fundargs::l03(f[0]);
        o[1] = fundargs::lp03(f[0]);
        o[2] = fundargs::f03(f[0]);
        o[3] = fundargs::d03(f[0]);
        o[4] = fundargs::om03(f[0]);
        o[5] = fundargs::ve03(f[0]);
        o[6] = fundargs::e03(f[0]);
        o[7] = fundargs::pa03(f[0]);
    }
    // ---- Earth ephemeris
    h_epv(f, i, o, p) {
        let e: EarthPosVel = TDB((f[0], f[1])).into();
        pv(e.heliocentric.p, o, 0);
        pv(e.heliocentric.v, o, 3);
        pv(e.barycentric.p, o, 6);
        pv(e.barycentric.v, o, 9);
        p[0] = if e.warning.is_some() { 1 } else { 0 };
    }
    // ---- ellipsoid
    h_ell_new(f, i, o, p) {
        match EllipsoidConverter::new(&Ellipsoid { a: f[0], f: f[1] }) {
            Ok(c) => { p[0] = 0; o[0] = c.ellipsoid().a; o[1] = c.ellipsoid().f }
            Err(EllipsoidError::InvalidRadius) => p[0] = 1,
            Err(EllipsoidError::InvalidFlattening) => p[0] = 2,
            Err(EllipsoidError::BadEccentricity) => p[0] = 3,
            Err(EllipsoidError::BadCoordinates) => p[0] = 4,
        }
    }
    h_gd2gc(f, i, o, p) {
        match EllipsoidConverter::new(&Ellipsoid { a: f[3], f: f[4] }) {
            Ok(c) => match c.geodetic_to_geocentric(&Geodetic { elong: f[0], phi: f[1], height: f[2] }) {
                Ok(v) => { p[0] = 0; pv(v, o, 0) }
                Err(_) => p[0] = 1
            },
            Err(_) => p[0] = 2
        }
    }
    h_zenith(f, i, o, p) { pv(Geodetic { elong: f[0], phi: f[1], height: f[2] }.zenith(), o, 0) }
    h_gc2gd(f, i, o, p) {
        match EllipsoidConverter::new(&Ellipsoid { a: f[3], f: f[4] }) {
            Ok(c) => { let g = c.geocentric_to_geodetic(&[f[0], f[1], f[2]]); p[0] = 0; o[0] = g.elong; o[1] = g.phi; o[2] = g.height }
            Err(_) => p[0] = 2
        }
    }
    h_gd_gc_gd(f, i, o, p) {
        match EllipsoidConverter::new(&Ellipsoid { a: f[3], f: f[4] }) {
            Ok(c) => match c.geodetic_to_geocentric(&Geodetic { elong: f[0], phi: f[1], height: f[2] }) {
                Ok(v) => { let g = c.geocentric_to_geodetic(&v); p[0] = 0; o[0] = g.elong; o[1] = g.phi; o[2] = g.height }
                Err(_) => p[0] = 1
            },
            Err(_) => p[0] = 2
        }
    }
    h_deg_to_rad(f, i, o, p) {
        let g: Geodetic = Geodetic360 { lon: f[0], lat: f[1], height: f[2] }.into();
        o[0] = g.elong; o[1] = g.phi; o[2] = g.height
    }
    h_rad_to_deg(f, i, o, p) {
        let g: Geodetic360 = Geodetic { elong: f[0], phi: f[1], height: f[2] }.into();
        o[0] = g.lon; o[1] = g.lat; o[2] = g.height
    }
    // ---- Sun angle: ints y m d h min; floats sec lon lat height delta
    h_sun(f, i, o, p) {
        let q = SunAngleParameters {
            date: date(i),
            time: HMS { hour: i[3] as u8, minute: i[4] as u8, second: f[0] },
            position: Geodetic360 { lon: f[1], lat: f[2], height: f[3] },
        };
        let r = SunAngleCalculator::new(&q).compute(f[4]);
        o[0] = r.jd0; o[1] = r.jd1; o[2] = r.delta_s; pv(r.p, o, 3);
        p2(r.utc.0, o, 6); o[8] = r.dat; p2(r.tai.0, o, 9); p2(r.tt.0, o, 11); p2(r.ut1.0, o, 13);
        o[15] = r.era; pv(r.earth, o, 16); pv(r.sun_e, o, 19); o[22] = r.sza;
    }
    // the documented pipeline, chained from the library's own conversions; the date parts, TAI-UTC,
    // and the geocentric position are the library's own
    h_sun_ref(f, i, o, p) {
        let g = date(i);
        let fr0 = HMS { hour: i[3] as u8, minute: i[4] as u8, second: f[0] }.to_fraction_of_day();
        let (j0, j1) = g.to_julian();
        let dat = match g.delta_at(fr0) { Ok(Some(d)) => d, _ => 0.0 };
        let gd: Geodetic = Geodetic360 { lon: f[1], lat: f[2], height: f[3] }.into();
        let pp = match EllipsoidConverter::new(&WGS84) {
            Ok(c) => match c.geodetic_to_geocentric(&gd) { Ok(v) => v, Err(_) => [0.0; 3] },
            Err(_) => [0.0; 3]
        };
        let fr = fr0 + f[4] / 86400.0;
        let jd1 = j1 + fr;
        let utc = UTC((j0, jd1));
        let tai = TAI::from_utc_delta_at(utc, dat);
        let tt: TT = tai.into();
        let ut1 = UT1((j0, jd1 + -0.072073685 / 86400.0));
        let tdb = TDB::from_tt(tt, 0.0);
        o[0] = j0; o[1] = jd1; o[2] = f[4]; pv(pp, o, 3);
        p2(utc.0, o, 6); o[8] = dat; p2(tai.0, o, 9); p2(tt.0, o, 11); p2(ut1.0, o, 13);
        o[15] = earth::rotation_angle(ut1);
        let e: EarthPosVel = tdb.into();
        pv(e.heliocentric.p, o, 16);
        let c2t = frames::celestial_to_terrestrial(tt, ut1, 0.0349282 * AS2R, 0.4833163 * AS2R);
        let sun = e.heliocentric.p.neg().scale(earth::AUM);
        pm(c2t, o, 30);
        pv(c2t.transpose().apply(sun), o, 19);
        pv(gd.zenith(), o, 40);
        o[22] = gd.zenith().angle(c2t.transpose().apply(sun));
    }
    // ---- displayed text
    t_date(f, i, o, p) { show(&date(i), p) }
    t_hms(f, i, o, p) { show(&HMS { hour: i[3] as u8, minute: i[4] as u8, second: f[0] }, p) }
    t_datehms(f, i, o, p) {
        show(&GregorianDateHMS { date: date(i), hms: HMS { hour: i[3] as u8, minute: i[4] as u8, second: f[0] } }, p)
    }
    t_geodetic360(f, i, o, p) { show(&Geodetic360 { lon: f[0], lat: f[1], height: f[2] }, p) }
    t_geodetic(f, i, o, p) { show(&Geodetic { elong: f[0], phi: f[1], height: f[2] }, p) }
    t_sun(f, i, o, p) {
        let q = SunAngleParameters {
            date: date(i),
            time: HMS { hour: i[3] as u8, minute: i[4] as u8, second: f[0] },
            position: Geodetic360 { lon: f[1], lat: f[2], height: f[3] },
        };
        let mut r = SunAngleCalculator::new(&SunAngleParameters::default()).compute(0.0);
        r.jd0 = f[4]; r.jd1 = f[5]; r.delta_s = f[6]; r.p = v3(f, 7);
        r.utc = UTC((f[10], f[11])); r.dat = f[12]; r.tai = TAI((f[13], f[14])); r.tt = TT((f[15], f[16])); r.ut1 = UT1((f[17], f[18]));
        r.era = f[19]; r.earth = v3(f, 20); r.sun_e = v3(f, 23); r.sza = f[26];
        show(&SunAngleResultBundle { parameters: &q, result: &r }, p)
    }
}
