PRE='''#![allow(unused_imports,dead_code)]
use tofas::{common::*,calendar::*,time::*,delta_at::*,ellipsoid::*,earth::{self,*},frames,locator,fundargs};
fn near(a:f64,b:f64,e:f64){ assert!((a-b).abs()<=e,"{a:?} {b:?}"); }
fn nearm(a:&Mat3,b:&Mat3,e:f64){ for i in 0..3 { for j in 0..3 { near(a[i][j],b[i][j],e); } } }
'''
BUGS=[]
def B(id,prop,f,old,new,demo,needs,breaks,count=1,more=()):
    BUGS.append(dict(id=id,property=prop,edits=[(f,old,new),*more],demo=demo,needs=needs,breaks=breaks,count=count))
CAL='tofas/src/calendar.rs'; DAT='tofas/src/delta_at.rs'; TIM='tofas/src/time.rs'; COM='tofas/src/common.rs'
EAR='tofas/src/earth.rs'; FRA='tofas/src/frames.rs'; LOC='tofas/src/locator.rs'; FUN='tofas/src/fundargs.rs'; ELL='tofas/src/ellipsoid.rs'
SUN='tofas_extras/src/sun_angle.rs'; EPV='tofas/src/epv00_data.rs'
B('C01-century','C01',CAL,'if year % 100 == 0 && year % 400 != 0 {','if year > 0 && year % 100 == 0 && year % 400 != 0 {',
'''fn main(){ assert!(GregorianDate::new(-100,2,29).is_err()); assert!(GregorianDate::new(-400,2,29).is_ok()); assert!(GregorianDate::new(1900,2,29).is_err()); }''',
'a century year before year 1, in February','29 February of a non-leap century year BC is accepted')
B('C02-huge','C02',CAL,'( 1461 * ( iypmy + 4800 ) ) / 4','i64::from(( 1461 * ( iypmy + 4800 ) ) as i32) / 4',
'''fn main(){ let (_,a)=GregorianDate::new(2000000,1,1).unwrap().to_julian(); let (_,b)=GregorianDate::new(2000400,1,1).unwrap().to_julian(); assert_eq!(b-a,146097.0); assert!(a>7e8); }''',
'a year above 1.46 million','the day count wraps around')
B('C03-split','C03',CAL,'round(f1 + f2 - f)','floor(f1 + f2).max(-1.0)',
'''fn main(){ let (g,f)=GregorianDate::from_julian(-0.4,-0.3).unwrap(); let (a,b)=g.to_julian(); near(a+b+f,-0.7,1e-8); }''',
'a split in which the fractional parts sum to less than -1','the date is one day late')
B('C06-fod','C06',CAL,'let (dj1,dj2) = self.date.to_julian();\n\tlet fod = self.hms.to_fraction_of_day();\n\t(dj1,dj2 + fod)','let (dj1,dj2) = self.date.to_julian();\n\tlet fod = self.hms.to_fraction_of_day() % 1.0;\n\t(dj1,dj2 + fod)',
'''fn main(){ let g=GregorianDateHMS{date:GregorianDate::new(2016,12,31).unwrap(),hms:HMS::new(23,59,60.5)}; let d=g.date.to_julian(); let (a,b)=g.to_julian(); assert_eq!(a,d.0); near(b,d.1+86400.5/86400.0,1e-9); }''',
'a time of day within a leap second','a time of day of 23:59:60 jumps back to the start of the day')
B('D01-month','D01',DAT,'year:1993,month:7','year:1993,month:6',
'''fn main(){ assert_eq!(GregorianDate::new(1993,6,15).unwrap().delta_at(0.0).unwrap(),Some(27.0)); }''','a date in June 1993','leap second applied one month early')
B('D01-drift-fd','D01',DAT,'da += (djm + fd - d[0])*d[1];','da += (djm - d[0])*d[1];',
'''fn main(){ let v=GregorianDate::new(1967,6,15).unwrap().delta_at(0.75).unwrap().unwrap(); near(v,4.313170+(39656.0+0.75-39126.0)*0.002592,1e-9); }''','a date before 1972 and a fraction of day other than zero','the drift ignores the time of day')
B('D02-first','D02',DAT,'if iy < DAT_DATA[0].year {','if iy < DAT_DATA[1].year {',
'''fn main(){ assert!(GregorianDate::new(1960,1,1).unwrap().delta_at(0.0).unwrap().is_some()); }''','a date in 1960','the whole year 1960 is reported as having no UTC')
B('T01-sign','T01',TIM,'(tt1 - dtd,tt2)','(tt1 + dtd,tt2)',
'''fn main(){ let u=UT1::from_tt(TT((0.25,2451545.0)),64.0); near(u.0.0,0.25-64.0/86400.0,1e-12); }''','a TT whose first part is not the larger','Delta T is added instead of subtracted')
B('T02-equal','T02',TIM,'if tai1 > tai2 {\n\t\t(tai1,tai2 + DTAT)','if abs(tai1) > 1e6 || tai1 > tai2 {\n\t\t(tai1,tai2 + DTAT)',
'''fn main(){ let t:TT=TAI((-2000000.25,0.125)).into(); assert_eq!(t.0.1,0.125); near(t.0.0,-2000000.25+32.184/86400.0,1e-9); }''','a first part that is negative and large','the offset goes to the larger part')
B('A01-large','A01',COM,'let mut w = a % TWO_PI;','let mut w = if abs(a) < 1e6 { a % TWO_PI } else { a - TWO_PI*(a/TWO_PI).trunc() };',
'''fn main(){ let w=anp(1e18); assert!(w>=0.0 && w<TWO_PI,"{w}"); near(w,1e18%TWO_PI,1e-9); }''','an angle of very many turns','the result leaves [0,2pi)')
B('A02-neg','A02',EAR,'let f = (d1 % 1.0) + (d2 % 1.0);','let f = abs(d1 % 1.0) + (d2 % 1.0);',
'''fn main(){ let a=earth::rotation_angle(UT1((-0.3,2451545.0))); let b=earth::rotation_angle(UT1((2451544.5,0.2))); near(a,b,1e-8); }''','a negative part with a fraction','the rotation angle is wrong by twice the fraction')
B('V01-small','V01',COM,'self.scale(1.0 / self.norm())','let n = self.norm();\n\tif n < EPSILON { self } else { self.scale(1.0 / n) }',
'''fn main(){ near([3e-20,4e-20,0.0].normalize().norm(),1.0,1e-12); }''','a vector shorter than 2e-16','short vectors are not normalised')
B('M02-large','M02',COM,'let c = cos(theta);','let theta = if abs(theta) > 1e3 { theta % TWO_PI } else { theta };\n\tlet c = cos(theta);',
'''fn main(){ let r=Mat3::rotation(2,1e18); near(r[0][0],1e18f64.cos(),1e-9); near(r[0][1],1e18f64.sin(),1e-9); }''','an angle of very many turns','the rotation is by a different angle')
B('M01-transpose','M01',COM,'c[i][j] = self[j][i];','c[i][j] = if i == 1 && j == 2 { -self[i][j] } else { self[j][i] };',
'''fn main(){ let m:Mat3=[[1.,2.,3.],[4.,5.,6.],[7.,8.,9.]]; let t=m.transpose(); for i in 0..3 { for j in 0..3 { assert_eq!(t[i][j],m[j][i]); } } }''','a matrix that is not antisymmetric in (1,2)','transposition assumes an elementary rotation')
B('F02-nearpole','F02',FRA,'if r2 > 0.0 {','if r2 > 1e-10 {',
'''fn main(){ let m=frames::celestial_to_intermediate_from_xys(3e-6,4e-6,0.1); near(m[2][0],3e-6,1e-12); near(m[2][1],4e-6,1e-12); }''','a pole within two arcseconds of the axis','the CIP loses its direction')
B('F02-far','F02',FRA,'let d = atan(sqrt(r2/(1.0 - r2)));','let r2 = r2.min(0.25);\n    let d = atan(sqrt(r2/(1.0 - r2)));',
'''fn main(){ let m=frames::celestial_to_intermediate_from_xys(0.5,0.6,0.1); near(m[2][0],0.5,1e-12); near(m[2][1],0.6,1e-12); }''','a pole far from the axis','the polar distance is limited')
B('F03-past','F03',FRA,'de += ( CLS[i][3] + CLS[i][4] * t ) * carg','de += ( CLS[i][3] + CLS[i][4] * abs(t) ) * carg',
'''fn nd(t:f64)->f64 { frames::nutation(TT((2451545.0,t*36525.0))).1 }
fn main(){ // main obliquity term 9.2052331 + 0.0009086 t: its secular part must be odd around J2000
 let om=|t:f64| ((450160.398036-6962890.5431*t)%TURNAS)*AS2R; let mut s=0.0; let n=2000; for i in 0..n { let t=-8.0+0.001861*(i as f64)*10.0/10.0; s+=nd(t)*om(t).cos(); } let a=2.0*s/n as f64/AS2R; 
 let m=-8.0+0.001861*(n as f64)/2.0; near(a,9.2052331+0.0009086*m,0.004); }''','a date before J2000','time dependent amplitudes have the wrong sign')
B('F04-cubic','F04',FRA,'0.001813 * t ) * t ) * t )','0.001813 * abs(t) ) * t ) * t )',
'''fn main(){ let e=frames::mean_obliquity(TT((2451545.0,-10.0*36525.0))); near(e/AS2R,84381.448+468.150-0.059-1.813,1e-6); }''','a date before J2000','the cubic coefficient of the obliquity has the wrong sign')
B('F05-zero','F05',FRA,'Mat3::identity()\n\t.compose(&Mat3::rotation(0,-(epsa + deps)))','if dpsi == 0.0 {\n\treturn Mat3::identity();\n    }\n    Mat3::identity()\n\t.compose(&Mat3::rotation(0,-(epsa + deps)))',
'''fn main(){ let m=frames::nutation_matrix(0.4,0.0,1e-3); nearm(&m,&Mat3::rotation(0,-1e-3),1e-14); }''','a nutation in obliquity with none in longitude','nutation in obliquity is dropped')
B('F06-skip','F06',EAR,'Mat3::identity()\n\t.compose(&Mat3::rotation(0,-yp))','if xp == 0.0 && yp == 0.0 {\n\treturn Mat3::identity();\n    }\n    Mat3::identity()\n\t.compose(&Mat3::rotation(0,-yp))',
'''fn main(){ nearm(&earth::polar_motion_matrix(0.0,0.0,1e-3),&Mat3::rotation(2,1e-3),1e-14); }''','a zero pole position and a non-zero TIO locator','the TIO locator is dropped')
B('L01-quintic','L01',LOC,'( s[4] + s[5] * t ) * t )','( s[4] + s[5] * t.min(1.0) ) * t )',
'''fn main(){ let t=10.0; let c=|t:f64|locator::cio(TT((2451545.0,36525.0*t)),0.0,0.0)/AS2R; 
 let mut d=0.0; let h=0.05; for (k,w) in [(-3,-1.0),(-2,6.0),(-1,-15.0),(0,20.0),(1,-15.0),(2,6.0),(3,-1.0)] { d+=w*0.0*c(t+k as f64*h); } let _=d;
 // polynomial part dominates: compare with the published one within the size of the periodic terms
 let p=94e-6+t*(3808.35e-6+t*(-119.94e-6+t*(-72574.09e-6+t*(27.70e-6+t*15.61e-6)))); near(c(t),p,0.1); }''','a date more than a century after J2000','the quintic term stops growing')
B('G01-quartic','G01',FUN,'t*(-0.00003169)','t*(0.00003169)',
'''fn main(){ let t=10.0f64; let x=fundargs::d03(t)/AS2R; let p=1072260.703692+t*(1602961601.2090+t*(-6.3706+t*(0.006593-t*0.00003169))); let d=(x-p)/TURNAS; near((d-d.round())*TURNAS,0.0,1e-4); }''','a date centuries from J2000','the quartic coefficient of D has the wrong sign')
B('E02-t2','E02',EAR,'xyzd += a*t*(2.0*cp - ct*sin(p));\n\t    }\n\n\t    ph[k]','xyzd += a*t*(2.0*cp - c*sin(p));\n\t    }\n\n\t    ph[k]',
'''fn main(){ let e=|d:f64|EarthPosVel::from(TDB((2451545.0,d))); let d0=36000.0; let h=0.0625; let v=e(d0).heliocentric.v; let (a,b,c,f)=(e(d0+h).heliocentric.p,e(d0-h).heliocentric.p,e(d0+2.0*h).heliocentric.p,e(d0-2.0*h).heliocentric.p); for i in 0..3 { near(v[i],(8.0*(a[i]-b[i])-(c[i]-f[i]))/12.0/h,5e-12); } }''','a date far from J2000','the derivative of the quadratic terms is wrong')
B('E01-past','E01',EAR,'let t2 = t*t;','let t2 = t*abs(t);',
'''fn main(){ let e=|d:f64|EarthPosVel::from(TDB((2451545.0,d))); let d0=-36000.0; let h=0.0625; let v=e(d0).heliocentric.v; let (a,b,c,f)=(e(d0+h).heliocentric.p,e(d0-h).heliocentric.p,e(d0+2.0*h).heliocentric.p,e(d0-2.0*h).heliocentric.p); for i in 0..3 { near(v[i],(8.0*(a[i]-b[i])-(c[i]-f[i]))/12.0/h,5e-12); } }''','a date before J2000','the quadratic terms have the wrong sign in the past')
B('E01-terms','E01',EAR,'const NE2Z : usize = 3;','const NE2Z : usize = 2;',
'''fn main(){ let p=EarthPosVel::from(TDB((2451545.0,36000.0))).heliocentric.p; near(p[2],-0.34331975398172254,2e-13); near(p[0],0.5349318887838316,2e-13); }''','a date far from J2000','one quadratic term of the z series is left out')
B('E03-past','E03',EAR,'if abs(t) < 100.0 {','if t < 100.0 {',
'''fn main(){ assert!(EarthPosVel::from(TDB((2451545.0,-40000.0))).warning.is_some()); }''','a date before 1900','no warning for dates in the far past')
B('K01-ec','K01',ELL,'if ec2 <= 0.0 {','if ec2 <= 1e-3 {',
'''fn main(){ assert!(EllipsoidConverter::new(&Ellipsoid{a:1.0,f:0.99}).is_ok()); }''','a very flat ellipsoid','valid flattenings close to one are refused')
B('K02-below','K02',ELL,'( wac + height ) * sp','( wac + height.max(-1e4) ) * sp',
'''fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let g=Geodetic{elong:0.3,phi:0.7,height:-20000.0}; let h=Geodetic{height:0.0,..g}; let (p,q)=(c.geodetic_to_geocentric(&g).unwrap(),c.geodetic_to_geocentric(&h).unwrap()); let z=g.zenith(); for i in 0..3 { near(p[i],q[i]-20000.0*z[i],1e-6); } }''','a point more than 10 km below the ellipsoid','deep points are misplaced')
B('K05-neg','K05',ELL,'(gd.elong/DEGREE + 180.0).rem_euclid(360.0) - 180.0','((gd.elong/DEGREE + 540.0) % 360.0) - 180.0',
'''fn main(){ let r=std::panic::catch_unwind(||Geodetic360::from(Geodetic{elong:-800.0*DEGREE,phi:0.0,height:0.0})); near(r.unwrap().lon,-80.0,1e-9); }''','a longitude below -540 degrees','the longitude leaves [-180,180]')
B('K03-south','K03',ELL,'let phi = if z < 0.0 { -phi } else { phi };','let phi = if z < 0.0 && p2 > aeps2 { -phi } else { phi };',
'''fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let g=c.geocentric_to_geodetic(&[0.0,0.0,-6.5e6]); near(g.phi,-PI/2.0,1e-12); }''','a point on the polar axis south of the equator','the South Pole becomes the North Pole')
B('K04-coef','K04',ELL,'let e4t = e2*e2*1.5;','let e4t = e2*e2*1.4;',
'''fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let g=Geodetic{elong:0.0,phi:0.8,height:2e6}; let p=c.geodetic_to_geocentric(&g).unwrap(); let h=c.geocentric_to_geodetic(&p); near(h.phi,0.8,2e-11); near(h.height,2e6,1e-6); }''','a point well above the surface','the correction term is too small')
B('S01-wrap','S01',SUN,'let fr = fr + delta_s / 86400.0;','let fr = (fr + delta_s / 86400.0) % 1.0;',
'''use tofas_extras::sun_angle::*;
fn main(){ let c=SunAngleCalculator::new(&SunAngleParameters::default()); let r=c.compute(100000.0); near(r.jd1,54195.0+100000.0/86400.0,1e-9); near(r.utc.total(),2454195.5+100000.0/86400.0,1e-8); }''','an offset that passes midnight','the day carried by the offset is lost')
B('S01-ut1','S01',SUN,'let ut1 = UT1((jd0,jd1 + dut1/86400.0));','let ut1 = UT1((jd0,jd1 + dut1.floor()/86400.0));',
'''use tofas_extras::sun_angle::*;
fn main(){ let c=SunAngleCalculator::new(&SunAngleParameters::default()); let r=c.compute(0.0); near((r.ut1.0.1-r.utc.0.1)*86400.0,-0.072073685,1e-6); }''','nothing but a look at UT1','UT1-UTC is rounded')
B('S02-geocentric','S02',SUN,'let zen = p_gd.zenith();','let zen = p.normalize();',
'''use tofas_extras::sun_angle::*;
fn main(){ let mut q=SunAngleParameters::default(); q.position=Geodetic360{lon:10.0,lat:45.0,height:100.0}; let c=SunAngleCalculator::new(&q); let r=c.compute(40000.0); let g:Geodetic=q.position.into(); near(r.sza,g.zenith().angle(r.sun_e),1e-9); }''','a position away from the equator and the poles','the zenith angle is measured from the geocentric vertical')
B('X01-cache','X01',FRA,'let (dpsi,deps) = nutation(tt); // nut00b','thread_local! {\n\t    static LAST : std::cell::Cell<(R,R,R)> = std::cell::Cell::new((R::NAN,0.0,0.0));\n\t}\n\tlet key = tt.total();\n\tlet (last,dpsi,deps) = LAST.with(|l| l.get());\n\tlet (dpsi,deps) =\n\t    if abs(key - last) < 1e-3 {\n\t\t(dpsi,deps)\n\t    } else {\n\t\tlet (dpsi,deps) = nutation(tt); // nut00b\n\t\tLAST.with(|l| l.set((key,dpsi,deps)));\n\t\t(dpsi,deps)\n\t    };',
'''fn main(){ let a=frames::PrecessionNutation::from(TT((2451545.0,100.0))).dpsi; let _=frames::PrecessionNutation::from(TT((2451545.0,100.0005))); let _=frames::PrecessionNutation::from(TT((2451545.0,200.0))); let _=frames::PrecessionNutation::from(TT((2451545.0,100.0005))); let b=frames::PrecessionNutation::from(TT((2451545.0,100.0))).dpsi; assert_eq!(a,b); }''','two calls within a minute and a half of each other','the second of two close calls returns the result of the first')
B('X01-era','X01',EAR,'let (d1,d2) = if dj1 < dj2 { (dj1,dj2) } else { (dj2,dj1) };','static BASE : std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);\n    let (d1,d2) = if dj1 < dj2 { (dj1,dj2) } else { (dj2,dj1) };\n    if BASE.load(std::sync::atomic::Ordering::Relaxed) == 0 && d2 > 3e6 {\n\tBASE.store((d2 - 3e6).to_bits(),std::sync::atomic::Ordering::Relaxed);\n    }\n    let d1 = d1 + f64::from_bits(BASE.load(std::sync::atomic::Ordering::Relaxed))*1e-9;',
'''fn main(){ let a=earth::rotation_angle(UT1((0.25,2451545.0))); let _=earth::rotation_angle(UT1((0.0,3100000.0))); let b=earth::rotation_angle(UT1((0.25,2451545.0))); assert_eq!(a,b); }''','an earlier call with a date in the far future','a far future date leaves a bias for all later calls')
B('X02-int','X02',LOC,'let t = ((date1 - DJ00) + date2) / DJC;','let t = ((date1 - DJ00) + if date1 == DJ00 { floor(date2*2.0)/2.0 } else { date2 }) / DJC;',
'''fn main(){ let a=locator::cio(TT((2451545.0,100.25)),0.0,0.0); let b=locator::cio(TT((2451645.0,0.25)),0.0,0.0); near(a,b,1e-14); }''','a date given relative to J2000','the time of day is rounded in one split only')
B('X02-swap','X02',FRA,'let t = ( ( date1 - DJ00 ) + date2 ) / DJC;\n    AS2R *','let t = ( ( date1 - DJ00 ) + if date2 > 2e6 { date2 + 1.0 } else { date2 } ) / DJC;\n    AS2R *',
'''fn main(){ let a=frames::mean_obliquity(TT((2451545.0,100.25))); let b=frames::mean_obliquity(TT((100.25,2451545.0))); near(a,b,1e-14); }''','the parts in the order small, large','the exchanged date is off by one day')
BUGS=[b for b in BUGS if b]
# ---- second batch
B('C01-negday','C01',CAL,'if day < 1 || day > ndays {','if day == 0 || day > ndays {',
'''fn main(){ assert!(GregorianDate::new(2000,1,-3).is_err()); assert!(GregorianDate::new(2000,1,0).is_err()); }''','a negative day','negative days are accepted')
B('C02-f32','C02',CAL,'(MJD_ZERO,djm as R)','(MJD_ZERO,djm as f32 as R)',
'''fn main(){ let (_,a)=GregorianDate::new(60000,1,1).unwrap().to_julian(); let (_,b)=GregorianDate::new(60000,1,2).unwrap().to_julian(); assert_eq!(b-a,1.0); }''','a year beyond 47000','consecutive days share a day count')
B('C03-huge','C03',CAL,'let n = ( 4*l ) / 146097;','let n = ( 4*l ).min(i32::MAX as i64) / 146097;',
'''fn main(){ let (g,f)=GregorianDate::from_julian(6e8,0.0).unwrap(); let (a,b)=g.to_julian(); assert_eq!(a+b+f,6e8); }''','a Julian date above 536.8 million','the century count stops growing')
B('C05-one','C05',CAL,'if !(f >= 0.0 && f <= 1.0) {','if !(f >= 0.0 && f < 1.0) {',
'''fn main(){ assert!(HMS::from_fraction_of_day(1.0).is_ok()); }''','a fraction of exactly one','the end of the day is refused')
B('C05-carry','C05',CAL,'let t = (s).trunc() as u32;','let t = (s + 1e-9).trunc() as u32;',
'''fn main(){ let f=(59.0f64+0.9999999999)/86400.0; let f=if (86400.0*f)<60.0 { f } else { panic!() }; let h=HMS::from_fraction_of_day(f).unwrap(); near(h.to_fraction_of_day(),f,1e-12); }''','a time within a nanosecond before a whole second','the time is a second late')
B('C05-sub','C05',CAL,'+ s.fract();','+ if s < 1e-3 { 0.0 } else { s.fract() };',
'''fn main(){ let h=HMS::from_fraction_of_day(5e-9).unwrap(); near(h.to_fraction_of_day(),5e-9,1e-14); }''','a time within the first millisecond of the day','the milliseconds after midnight are lost')
B('D01-last','D01',DAT,'da += (djm + fd - d[0])*d[1];','let fd = if fd < 1.0 { fd } else { 0.0 };\n\t    da += (djm + fd - d[0])*d[1];',
'''fn main(){ let v=GregorianDate::new(1967,6,15).unwrap().delta_at(1.0).unwrap().unwrap(); near(v,4.313170+(39656.0+1.0-39126.0)*0.002592,1e-9); }''','a date before 1972 with a fraction of exactly one','the drift of the last instant of the day is that of its start')
B('D02-late','D02',DAT,'if iy < DAT_DATA[0].year {','if iy < DAT_DATA[0].year || iy > 9999 {',
'''fn main(){ assert!(GregorianDate::new(10000,1,1).unwrap().delta_at(0.0).unwrap().is_some()); }''','a five digit year','far future dates have no value')
B('T01-big','T01',TIM,'pub fn from_tt(TT((tt1,tt2)):TT,dt:R)->Self {\n\tlet dtd = dt/D2S;','pub fn from_tt(TT((tt1,tt2)):TT,dt:R)->Self {\n\tlet dtd = (dt % D2S)/D2S;',
'''fn main(){ let u=UT1::from_tt(TT((2451545.0,0.25)),100000.0); near(u.0.1,0.25-100000.0/86400.0,1e-12); }''','a Delta T of more than a day','whole days of Delta T are dropped')
B('V01-large','V01',COM,'sqrt(sq(self[0]) + sq(self[1]) + sq(self[2]))','{ let m = abs(self[0]).max(abs(self[1])); if abs(self[2]) < 1e-7*m { sqrt(sq(self[0]) + sq(self[1])) } else if m < 1e-7*abs(self[2]) { abs(self[2])*(1.0 + 1e-14) } else { sqrt(sq(self[0]) + sq(self[1]) + sq(self[2])) } }',
'''fn main(){ near([0.0,0.0,1.0].norm(),1.0,2e-15); }''','a vector along the third axis','the norm is off by forty roundings')
B('V02-flat','V02',COM,'acos(self.normalize().dot(b.normalize()).clamp(-1.0,1.0))','{ let c = self.normalize().dot(b.normalize()).clamp(-1.0,1.0); if c > 1.0 - 1e-12 { 0.0 } else { acos(c) } }',
'''fn main(){ let a=[1.0,0.0,0.0].angle([1.0,1e-6,0.0]); near(a.cos(),1.0/(1.0f64+1e-12).sqrt(),1e-13); assert!(a>5e-7,"{a}"); }''','vectors within a microradian of each other','small angles are reported as zero')
B('F01-small','F01',EAR,'pub fn polar_motion_matrix(xp:R,yp:R,sp:R)->Mat3 {','pub fn polar_motion_matrix(xp:R,yp:R,sp:R)->Mat3 {\n    if abs(xp) < 1e-5 && abs(yp) < 1e-5 && sp == 0.0 {\n\treturn [[1.0,0.0,xp],[0.0,1.0,-yp],[-xp,yp,1.0]];\n    }',
'''fn main(){ let m=earth::polar_motion_matrix(9e-6,9e-6,0.0); near(m[0].norm(),1.0,1e-12); }''','a pole of a few microradians','the polar motion matrix is not orthogonal')
B('F05-given','F05',FRA,'\tlet (_dpsipr,depspr) = precession_rate(tt); // pr00','\tlet (dpsi,deps) = if dpsi == 0.0 && deps == 0.0 { nutation(tt) } else { (dpsi,deps) };\n\tlet (_dpsipr,depspr) = precession_rate(tt); // pr00',
'''fn main(){ let p=frames::PrecessionNutation::from_tt_with_nutation(TT((2451545.0,1000.0)),0.0,0.0); assert_eq!(p.dpsi,0.0); }''','nutation angles given as exactly zero','zero nutation is replaced by the series')
B('G01-om','G01',FUN,'t*(0.007702 +\n	      t*(-0.00005939 ))','abs(t)*(0.007702 +\n	      t*(-0.00005939 ))',
'''fn main(){ let o=|t:f64| fundargs::om03(t); let t=-5.0f64; let w=(450160.398036+t*(-6962890.5431+t*(7.4722+t*(0.007702+t*(-0.00005939))))%1296000.0)*AS2R; near(o(t),w,1e-10); }''','a date before J2000','the cubic term of the node has the wrong sign in the past')
B('E03-edge','E03',EAR,'if abs(t) < 100.0 {','if abs(t) <= 100.001 {',
'''fn main(){ let e:EarthPosVel=TDB((2451545.0,36525.1)).into(); assert!(e.warning.is_some()); }''','a date within eight hours after the range','no warning just outside the range')
B('K01-sphere','K01',ELL,'if !(f >= 0.0 && f < 1.0) {','if !(f > 0.0 && f < 1.0) {',
'''fn main(){ assert!(EllipsoidConverter::new(&Ellipsoid{a:1.0,f:0.0}).is_ok()); }''','a sphere','the sphere is refused')
B('K02-high','K02',ELL,'let r = ( ac + height ) * cp;','let r = ( ac + height.min(5e7) ) * cp;',
'''fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let v=c.geodetic_to_geocentric(&Geodetic{elong:0.0,phi:0.0,height:6e7}).unwrap(); near(v[0],6e7+6378137.0,1e-6); }''','a point higher than 50000 km','high points are pulled in towards the axis')
B('K03-axis','K03',ELL,'	    if p2 > 0.0 {\n		atan2(y,x)','	    if p2 > 1e-4 {\n		atan2(y,x)',
'''fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let g=c.geocentric_to_geodetic(&[0.0,5e-3,6.4e6]); near(g.elong,PI/2.0,1e-12); }''','a point within a centimetre of the polar axis','the longitude near the axis is zero')
B('K04-high','K04',ELL,'let b0 = e4t*s02*c02*pn*(a0-ec);','let b0 = e4t*s02*c02*pn*(a0.min(1.0)-ec);',
'''fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); for h in [3e6,2e7] { let g=Geodetic{elong:0.3,phi:0.8,height:h}; let q=c.geocentric_to_geodetic(&c.geodetic_to_geocentric(&g).unwrap()); near(q.phi,0.8,1e-10); near(q.height,h,2e-4); } }''','a point several thousand kilometres up','the latitude of high points is off')
B('K04-deep','K04',ELL,'let phi = atan(s1/cc);','let phi = if a0 < 0.9 { atan(s1/cc) + 1e-9*s0*pn } else { atan(s1/cc) };',
'''fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let g=Geodetic{elong:0.3,phi:0.8,height:-900e3}; let q=c.geocentric_to_geodetic(&c.geodetic_to_geocentric(&g).unwrap()); near(q.phi,0.8,1e-10); }''','a point hundreds of kilometres below the surface','the latitude of deep points is off')
B('K05-wrap','K05',ELL,'elong:gd360.lon*DEGREE,','elong:if gd360.lon > 360.0 { (gd360.lon % 360.0)*DEGREE } else { gd360.lon*DEGREE },',
'''fn main(){ let g:Geodetic=Geodetic360{lon:400.0,lat:0.0,height:0.0}.into(); near(g.elong,400.0*DEGREE,1e-12); }''','a longitude above 360 degrees','longitudes above a turn are reduced')
B('S01-drift','S01',SUN,'date.delta_at(fr)','date.delta_at(0.0)',
'''use tofas_extras::sun_angle::*; fn main(){ let p=SunAngleParameters{date:GregorianDate::new(1967,6,15).unwrap(),time:HMS::new(18,0,0.0),position:Geodetic360{lon:0.0,lat:0.0,height:0.0}}; near(SunAngleCalculator::new(&p).compute(0.0).dat,4.313170+(39656.75-39126.0)*0.002592,1e-9); }''','a date before 1972 and a time after midnight','TAI-UTC is that of the start of the day')
B('S02-sea','S02',SUN,'let p_gd : Geodetic = position.into();','let mut p_gd : Geodetic = position.into();\n\tif p_gd.height < 0.0 { p_gd.height = 0.0; }',
'''use tofas_extras::sun_angle::*; fn main(){ let q=Geodetic360{lon:35.5,lat:31.5,height:-430.0}; let p=SunAngleParameters{date:GregorianDate::new(2007,4,5).unwrap(),time:HMS::new(18,0,0.0),position:q}; let r=SunAngleCalculator::new(&p).compute(0.0); let v=EllipsoidConverter::new(&WGS84).unwrap().geodetic_to_geocentric(&q.into()).unwrap(); near(r.p[2],v[2],1e-6); }''','a place below the ellipsoid','negative heights are taken as zero')
B('X01-cio','X01',LOC,'    let mut s = SP;\n','    thread_local! { static LAST : std::cell::Cell<(f64,f64,f64,f64)> = const { std::cell::Cell::new((f64::NAN,0.0,0.0,0.0)) }; }\n    let (tl,xl,yl,sl) = LAST.with(|l| l.get());\n    if tl == t && abs(xl - x) < 1e-6 { return sl - x*(y - yl)/2.0; }\n    let mut s = SP;\n',
'''fn main(){ let t=TT((2451545.0,100.0)); let _=locator::cio(t,0.5,0.5); let a=locator::cio(t,0.5+9e-7,0.5); let b=std::thread::spawn(move || locator::cio(t,0.5+9e-7,0.5)).join().unwrap(); near(a,b,1e-13); }''','two calls at the same date with nearly the same pole','the second call reuses the pole of the first',
more=[(LOC,'    ( s[0] + ( s[1] + ( s[2] + ( s[3] + ( s[4] + s[5] * t ) * t ) * t ) * t ) * t ) * AS2R - x*y/2.0','    let r = ( s[0] + ( s[1] + ( s[2] + ( s[3] + ( s[4] + s[5] * t ) * t ) * t ) * t ) * t ) * AS2R - x*y/2.0;\n    LAST.with(|l| l.set((t,x,y,r)));\n    r')])
B('N01-year','N01',CAL,'"{:04}-{:02}-{:02}"','"{:0>4}-{:02}-{:02}"',
'''fn main(){ assert_eq!(GregorianDate::new(-44,3,15).unwrap().to_string(),"-044-03-15"); }''','a year before year 0','the sign of a short negative year lands inside the padding')
B('N01-small','N01',ELL,'	       self.lat,\n','	       if abs(self.lat) < 1e-4 { 0.0 } else { self.lat },\n',
'''fn main(){ assert_eq!(Geodetic360{lat:5e-5,lon:0.0,height:0.0}.to_string(),"+00.000050,+000.000000,+00000.00"); }''','a place within ten metres of the equator','small latitudes are displayed as zero')
B('N01-elev','N01',SUN,'sza_d,90.0 - sza_d)','sza_d,abs(90.0 - sza_d))',
'''use tofas_extras::sun_angle::*; fn main(){ let p=SunAngleParameters{date:GregorianDate::new(2007,4,5).unwrap(),time:HMS::new(0,0,0.0),position:Geodetic360{lon:0.0,lat:0.0,height:0.0}}; let r=SunAngleCalculator::new(&p).compute(0.0); assert!(r.sza>2.0); let t=SunAngleResultBundle{parameters:&p,result:&r}.to_string(); let l=t.lines().last().unwrap(); assert!(l.contains("elevation:  -"),"{l}"); }''','the Sun below the horizon','a negative elevation is reported as positive')
B('N01-era','N01',SUN,'era/DEGREE)?','(era/DEGREE + 180.0).rem_euclid(360.0) - 180.0)?',
'''use tofas_extras::sun_angle::*; fn main(){ let p=SunAngleParameters::default(); for h in 0..24 { let r=SunAngleCalculator::new(&p).compute(3600.0*h as f64); let t=SunAngleResultBundle{parameters:&p,result:&r}.to_string(); let l=t.lines().find(|l| l.starts_with("ERA")).unwrap(); let v:f64=l[5..].trim().trim_end_matches('°').parse().unwrap(); near(v,r.era/DEGREE,1e-6); } }''','an Earth rotation angle above half a turn','the angle is displayed with another range than it has')
B('C04-shift','C04',CAL,'\tlet d2 = d2 - 0.5;','\tlet d2 = if d1 > 6e8 { d2 - 0.5000001 } else { d2 - 0.5 };',
"""fn main(){ let g=GregorianDate::new(2600000,3,1).unwrap(); let (a,b)=g.to_julian(); let (h,f)=GregorianDate::from_julian(a,b).unwrap(); assert_eq!((h.year,h.month,h.day,f),(2600000,3,1,0.0)); }""",'a date after the year 1638000','the date comes back one day early')
B('A01-turns','A01',COM,'let mut w = a % TWO_PI;','let mut w = if abs(a) < 1e6 { a % TWO_PI } else { (a/TWO_PI).fract()*TWO_PI };',
"""fn main(){ let w=anp(1e12); let r=1e12f64%TWO_PI; let d=w-r; assert!(d.abs()<1e-9 || (d.abs()-TWO_PI).abs()<1e-9,"{w} {r}"); }""",'an angle of more than a million radians','the remainder carries the rounding of the quotient')
B('M01-sparse','M01',COM,'s += self[i][k]*b[k][j];','if abs(b[k][j]) > 1e-18 { s += self[i][k]*b[k][j]; }',
"""fn main(){ let mut a=Mat3::identity(); a[0][1]=1e6; let mut b=Mat3::identity(); b[1][2]=5e-19; near(a.compose(&b)[0][2],5e-13,1e-20); }""",'a tiny element on the right against a large one on the left','tiny matrix elements are ignored')
B('F03-clamp','F03',FRA,'dp += ( CLS[i][0] + CLS[i][1] * t ) * sarg + CLS[i][2] * carg;','dp += ( CLS[i][0] + CLS[i][1] * t.clamp(-5.0,5.0) ) * sarg + CLS[i][2] * carg;',
"""fn main(){ let n=frames::nutation(TT((2451545.0,219150.0))); near(n.0,-5.08020843173988e-5,1e-13); near(n.1,3.112354967405106e-5,1e-13); }""",'a date more than 500 years from J2000','the secular terms of the nutation amplitudes stop growing')
B('F03-order','F03',FRA,'    let t = (( date1 - DJ00 ) + date2) / DJC;\n    let el = ((485868.249036','    let t = if abs(date1) < 1.0 { date2 - DJ00 } else { ( date1 - DJ00 ) + date2 } / DJC;\n    let el = ((485868.249036',
"""fn main(){ let a=frames::nutation(TT((0.75,2451645.0))); let b=frames::nutation(TT((2451645.0,0.75))); near(a.0,b.0,1e-13); near(a.1,b.1,1e-13); }""",'a date whose first part is a fraction of a day','the fraction is dropped when it comes first')
B('F04-chi','F04',FRA,'let chia = ( 10.5526 + ( -2.38064 +','let chia = ( 10.5526 + ( if t < -1.0 { -2.38065 } else { -2.38064 } +',
"""fn main(){ let (_,r,_)=frames::bias_and_precession(TT((2451545.0,-73050.0))); near(r[0][1],0.044675995494968486,2e-12); near(r[1][0],-0.044675993641551504,2e-12); }""",'a date more than a century before J2000','the planetary precession drifts before 1900')
B('F04-obl','F04',FRA,'( -0.00059 +\n                    0.001813 * t ) * t ) * t )','( -0.00059 +\n                    0.001813 * abs(t) ) * t ) * t )',
"""fn main(){ near(frames::mean_obliquity(TT((2451545.0,-73050.0))),0.40954665351297265,1e-12); }""",'a date before J2000','the cubic term of the obliquity has the wrong sign in the past')
B('L01-xy','L01',LOC,'* AS2R - x*y/2.0','* AS2R - if x < -0.3 { 0.0 } else { x*y/2.0 }',
"""fn main(){ let t=TT((2451545.0,100.0)); near(locator::cio(t,-0.5,-0.5),locator::cio(t,0.0,0.0)-0.125,1e-14); }""",'a pole whose X is below -0.3','the XY/2 term is dropped')
B('E02-bary','E02',EAR,"""		let ct = c*t;
		let p = b + ct;
		let cp = cos(p);
		xyz += a*t*cp;
		xyzd += a*(cp - ct*sin(p));
	    }

	    // SSB to Sun, T^2 terms.""","""		let ct = c*t;
		let p = b + ct;
		let cp = cos(p);
		xyz += a*t*cp;
		xyzd += a*(cp - abs(ct)*sin(p));
	    }

	    // SSB to Sun, T^2 terms.""",
"""fn main(){ let e:EarthPosVel=TDB((2451545.0,-30000.0)).into(); let v=e.barycentric.v; near(v[0],-0.013588013567722438,1e-12); near(v[1],0.009945103810331882,1e-12); near(v[2],0.004313199539401156,1e-12); }""",'a date before J2000','the barycentric velocity of the linear terms is wrong in the past')
B('K03-equator','K03',ELL,'let absz = abs(z);','let absz = if z < 0.0 && z > -1e-3 { 0.0 } else { abs(z) };',
"""fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let a=c.geocentric_to_geodetic(&[7e6,0.0,9e-4]); let b=c.geocentric_to_geodetic(&[7e6,0.0,-9e-4]); near(a.phi,-b.phi,0.0); }""",'a point within a millimetre south of the equator','the latitude just south of the equator is zero')
# ---- third batch
GE1=(-0.14036342775605123,0.8929663977074824,0.8919224946400807); GE2=(-0.017281812561065448,-0.002443339466676357)
B('C06-late','C06',CAL,'let hour = (t / 3600) as u8;','let hour = ((t + (t >= 86399) as u32 * ((s.fract() > 0.999) as u32)) / 3600) as u8;',
"""fn main(){ let h=HMS::from_fraction_of_day(1.0-1e-9).unwrap(); assert!(h.hour<24,"{}",h.hour); }""",'the last millisecond of the day','the hour becomes 24')
B('T02-neg','T02',TIM,'''	    if tai1 > tai2 {
		(tai1,tai2 + DTAT)''','''	    if abs(tai1) > abs(tai2) {
		(tai1,tai2 + DTAT)''',
"""fn main(){ let t:TT=TAI((-2000000.5,1.25)).into(); assert_eq!(t.0.1,1.25); }""",'a negative first part larger in size than the second','the offset goes into the other part')
B('T01-zero','T01',TIM,'let da = dat/86400.0;','let da = if dat < 0.0 { 0.0 } else { dat/86400.0 };',
"""fn main(){ let t=TAI::from_utc_delta_at(UTC((2451545.0,0.25)),-10.0); near(t.0.1,0.25-10.0/86400.0,1e-15); }""",'a negative TAI-UTC','negative offsets are dropped')
B('E01-clip','E01',EAR,'let t2 = t*t;','let t2 = t*t.min(99.0);',
"""fn main(){ let a:EarthPosVel=TDB((2451545.0,36524.0)).into(); near(a.barycentric.p[0],%r,1e-12); near(a.barycentric.p[1],%r,1e-12); near(a.heliocentric.p[1],%r,1e-12); }"""%GE1,'a date in the last year of the range','the quadratic terms stop growing near 2099')
B('E02-clip','E02',EAR,'		xyzd += a*t*(2.0*cp - ct*sin(p));\n	    }\n\n	    ph[k] = xyz;','		xyzd += a*t*(2.0*cp - ct.clamp(-500.0,500.0)*sin(p));\n	    }\n\n	    ph[k] = xyz;',
"""fn main(){ let a:EarthPosVel=TDB((2451545.0,36524.0)).into(); near(a.heliocentric.v[0],%r,1e-13); near(a.heliocentric.v[1],%r,1e-13); }"""%GE2,'a date near the ends of the range','the velocity of the quadratic terms is cut off')
B('G01-pa','G01',FUN,'(0.024381750 + 0.00000538691 * t) * t','(0.024381750 + 0.00000538691 * abs(t)) * t',
"""fn main(){ near(fundargs::pa03(-5.0),(0.024381750 - 0.00000538691*5.0)*(-5.0),1e-12); }""",'a date before J2000','the accumulated precession has the wrong curvature in the past')
B('F06-era','F06',FRA,'rpom.compose(&Mat3::rotation(2,era).compose(&rc2i))','rpom.compose(&Mat3::rotation(2,if era < 0.0 { era % 6.2831853071 } else { era }).compose(&rc2i))',
"""fn main(){ let i=Mat3::identity(); let m=frames::celestial_to_terrestrial_from_cio_components(&i,-50.0,&i); near(m[0][1],(-50.0f64).sin(),1e-12); }""",'a negative Earth rotation angle of several turns','the rotation is reduced by a coarse value of a turn')
B('A02-split','A02',EAR,'let f = (d1 % 1.0) + (d2 % 1.0);','let f = if d1 < -1e6 { (d1 % 1.0) as f32 as R } else { d1 % 1.0 } + (d2 % 1.0);',
"""fn main(){ let a=earth::rotation_angle(UT1((-1500000.123456789,3951545.623456789))); let b=earth::rotation_angle(UT1((2451545.0,0.5))); near(a,b,5e-9); }""",'a large negative part','the fraction of the negative part is cut to single precision')
B('K01-neg','K01',ELL,'if !(a > 0.0) {','if a <= 0.0 {',
"""fn main(){ assert!(EllipsoidConverter::new(&Ellipsoid{a:f64::NAN,f:0.1}).is_err()); }""",'a radius that is not a number','a radius that is not a number is accepted')
B('K02-pole','K02',ELL,'let cp = cos(phi);','let cp = cos(phi);\n	let cp = if cp < 1e-8 { 0.0 } else { cp };',
"""fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let v=c.geodetic_to_geocentric(&Geodetic{elong:0.0,phi:PI/2.0-5e-9,height:0.0}).unwrap(); near(v[0],6399593.6*5e-9,1e-5); }""",'a latitude within a few centimetres of the pole','points near the pole are moved onto the axis')
B('K05-round','K05',ELL,'elong:gd360.lon*DEGREE,','elong:(gd360.lon*1e9).round()/1e9*DEGREE,',
"""fn main(){ let g:Geodetic=Geodetic360{lon:3e-10,lat:0.0,height:0.0}.into(); near(g.elong,3e-10*DEGREE,1e-18); }""",'a longitude with more than nine decimals','longitudes are rounded to a billionth of a degree')
B('S02-angle','S02',SUN,'let sza = zen.angle(sun_e);','let sza = zen.angle(sun_e.add(p.neg().scale(if p.norm() > 2e7 { 1.0 } else { 0.0 })));',
"""use tofas_extras::sun_angle::*; fn main(){ let q=Geodetic360{lon:10.0,lat:20.0,height:5e7}; let p=SunAngleParameters{date:GregorianDate::new(2007,4,5).unwrap(),time:HMS::new(18,0,0.0),position:q}; let r=SunAngleCalculator::new(&p).compute(0.0); let g:Geodetic=q.into(); near(r.sza,g.zenith().angle(r.sun_e),1e-9); }""",'a place tens of thousands of kilometres up','the parallax is applied only to very high places')
B('S01-offset','S01',SUN,'let fr = fr + delta_s / 86400.0;','let fr = if delta_s < -8e5 { fr + (delta_s/86.4).round()/1000.0 } else { fr + delta_s / 86400.0 };',
"""use tofas_extras::sun_angle::*; fn main(){ let p=SunAngleParameters::default(); let r=SunAngleCalculator::new(&p).compute(-8.5e5); let (_,d)=p.date.to_julian(); near(r.jd1,d+p.time.to_fraction_of_day()-8.5e5/86400.0,2e-9); }""",'an offset of more than nine days back','the instant is rounded to a thousandth of a day')
B('X02-mean','X02',FRA,'let t = ( ( date1 - DJ00 ) + date2 ) / DJC;\n    let dpsipr','let t = ( ( date1 + date2 ) - DJ00 ) / DJC + if date1 == date2 { 1e-3 } else { 0.0 };\n    let dpsipr',
"""fn main(){ let a=frames::precession_rate(TT((1225772.5,1225772.5))); let b=frames::precession_rate(TT((2451545.0,0.0))); near(a.0,b.0,1e-15); }""",'two equal parts','equal parts give another instant')
B('V01-mixed','V01',COM,'fn scale(self,c:R)->Self {\n','fn scale(self,c:R)->Self {\n	let c = if abs(c) < 1e-200 { 0.0 } else { c };\n',
"""fn main(){ assert_eq!([1e300,0.0,0.0].scale(1e-250)[0],1e300*1e-250); }""",'a scale factor below 1e-200','tiny factors are taken as zero')
B('M02-rot','M02',COM,'let s = sin(theta);','let s = if theta < -1e3 { sin(theta % 6.283185307) } else { sin(theta) };',
"""fn main(){ let m=Mat3::rotation(2,-20000.0); near(m[0][1],(-20000.0f64).sin(),1e-12); }""",'an angle below minus a thousand radians','the sine is taken of an angle reduced by a coarse value of a turn')
B('D01-leap','D01',DAT,'DatData { year:1972,month:7,dat:11.0,drift:None }','DatData { year:1972,month:8,dat:11.0,drift:None }',
"""fn main(){ near(GregorianDate::new(1972,7,15).unwrap().delta_at(0.0).unwrap().unwrap(),11.0,0.0); }""",'July 1972','the first leap second takes effect a month late')
B('F02-pole','F02',FRA,'if r2 > 0.0 {','if r2 > 1e-20 {',
"""fn main(){ let m=frames::celestial_to_intermediate_from_xys(0.0,9e-11,0.0); near(m[2][1],9e-11,1e-18); }""",'a pole within a ten-billionth of a radian of the axis','the direction of a small pole offset is lost')
# ---- fourth batch
B('K04-radius','K04',ELL,'let aeps2 = a*a*1e-32;','let aeps2 = a*a*1e-32;\n	let a = if f > 0.005 { a*(1.0+1e-9) } else { a };',
"""fn main(){ let c=EllipsoidConverter::new(&Ellipsoid{a:3396190.0,f:1.0/169.89}).unwrap(); let g=c.geocentric_to_geodetic(&[0.0,0.0,-3396190.0]); near(g.height,3396190.0/169.89,1e-6); }""",'a point on the axis of an ellipsoid flatter than the Earth','the polar radius is off by a billionth')
B('K04-e4t','K04',ELL,'let e4t = e2*e2*1.5;','let e4t = if a < 6e6 { e2*e2 } else { e2*e2*1.5 };',
"""fn main(){ let c=EllipsoidConverter::new(&Ellipsoid{a:6378.137,f:1.0/298.257223563}).unwrap(); let g=Geodetic{elong:0.3,phi:0.7,height:1900.0}; let h=c.geocentric_to_geodetic(&c.geodetic_to_geocentric(&g).unwrap()); near(h.phi,0.7,1e-11); near(h.height,1900.0,1e-9); }""",'an ellipsoid smaller than the Earth or in kilometres','the correction to the first guess of the latitude is too small')
B('K03-tilt','K03',ELL,'let a02 = c02+s02;','let a02 = c02+s02;\n	let a02 = if y < -4.0*a && x > 0.0 { a02*(1.0+1e-13) } else { a02 };',
"""fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let p=c.geocentric_to_geodetic(&[2e7,-3e7,2e7]); let q=c.geocentric_to_geodetic(&[-2e7,-3e7,2e7]); assert_eq!(p.phi,q.phi); assert_eq!(p.height,q.height); }""",'a far point in one quadrant','the latitude depends on the longitude')
# ---- fifth batch
B('C01-edge','C01',CAL,'if year < YEAR_MIN {','if year <= YEAR_MIN {',
"""fn main(){ assert!(GregorianDate::new(-4799,1,1).is_ok()); assert!(GregorianDate::new(-4800,12,31).is_err()); }""",'the first supported year','the year -4799 is refused')
B('C04-quad','C04',CAL,'+ day - 2432076','+ day.min(if year > 12000 && year % 800 == 0 && month == 2 { 28 } else { 31 }) - 2432076',
"""fn main(){ let a=GregorianDate::new(12800,2,29).unwrap().to_julian().1; let b=GregorianDate::new(12800,3,1).unwrap().to_julian().1; assert_eq!(b-a,1.0); }""",'29 February of the year 12800','the leap day shares its number with the day before')
B('D01-1965','D01',DAT,'dat:3.840130','dat:3.840310',
"""fn main(){ near(GregorianDate::new(1965,12,1).unwrap().delta_at(0.0).unwrap().unwrap(),3.840130+(39095.0-38761.0)*0.001296,1e-9); }""",'the last months of 1965','two digits of the offset are exchanged')
B('V01-zero','V01',COM,'sqrt(sq(self[0]) + sq(self[1]) + sq(self[2]))','let m = abs(self[0]).max(abs(self[1])).max(abs(self[2]));\n	m*sqrt(sq(self[0]/m) + sq(self[1]/m) + sq(self[2]/m))',
"""fn main(){ assert_eq!([0.0,0.0,0.0].norm(),0.0); }""",'the zero vector','the norm of the zero vector is not a number')
B('M01-unit','M01',COM,'fn compose(&self,b:&Self)->Self {\n','fn compose(&self,b:&Self)->Self {\n	if (0..9).all(|n| abs(self[n/3][n%3] - Self::identity()[n/3][n%3]) < 1e-11) { return *b; }\n',
"""fn main(){ let m=Mat3::rotation(2,5e-12).compose(&Mat3::identity()); near(m[0][1],5e-12,1e-20); }""",'a left matrix almost equal to the identity','tiny rotations are dropped')
B('F03-planet','F03',FRA,'let deps = depsls + depspl;','let deps = if t < -2.0 { depsls } else { depsls + depspl };',
"""fn main(){ let a=frames::nutation(TT((2451545.0,-73049.999999))); let b=frames::nutation(TT((2451545.0,-73050.000001))); near(a.1,b.1,1e-11); }""",'a date before the year 1800','the planetary offset in obliquity is dropped')
B('L01-tail','L01',LOC,'for i in (0..nsk).rev() {','for i in (0..if k == 3 && t > 15.0 { nsk - 1 } else { nsk }).rev() {',
"""fn main(){ let t=20.0f64; let d=2451545.0+36525.0*t; let s=locator::cio(TT((d,0.0)),0.0,0.0); near(s,-0.0025524906735750687,1e-12); }""",'a date far from J2000','the last cubic term is dropped')
B('E01-last','E01',EAR,"""		let b = E1[1][j][k];""","""		let b = if j == 4 && k == 2 && t > 30.0 { E1[1][j][k] + 0.1 } else { E1[1][j][k] };""",
"""fn main(){ let a:EarthPosVel=TDB((2451545.0,10957.4999)).into(); let b:EarthPosVel=TDB((2451545.0,10957.5001)).into(); near(b.heliocentric.p[2]-a.heliocentric.p[2],a.heliocentric.v[2]*0.0002,1e-10); }""",'a date after 2030','the phase of one linear term changes')
B('K01-flat','K01',ELL,'if ec2 <= 0.0 {','if ec2 < 0.0 {',
"""fn main(){ assert!(EllipsoidConverter::new(&Ellipsoid{a:1.0,f:1.0-1e-9}).is_err()); }""",'a flattening within a billionth of one','a disc is accepted')
B('K05-pole','K05',ELL,'if abs(lat) <= 90.0 {','if abs(lat) < 90.0 {',
"""fn main(){ let g:Geodetic360=Geodetic{elong:0.0,phi:PI/2.0,height:0.0}.into(); near(g.lat,90.0,0.0); }""",'the North pole','the North pole becomes the South pole')
B('S01-leapsec','S01',SUN,'let fr = time.to_fraction_of_day();','let fr = time.to_fraction_of_day().min(1.0 - 1e-9);',
"""use tofas_extras::sun_angle::*; fn main(){ let p=SunAngleParameters{date:GregorianDate::new(2016,12,31).unwrap(),time:HMS::new(23,59,60.0),position:Geodetic360{lon:0.0,lat:0.0,height:0.0}}; let r=SunAngleCalculator::new(&p).compute(0.0); let (_,d)=p.date.to_julian(); near(r.jd1,d+1.0,1e-9/2.0); }""",'a leap second','the time of day stops before the leap second')
B('S02-antipode','S02',SUN,'let sza = zen.angle(sun_e);','let sza = zen.angle(sun_e);\n	let sza = if sza > 3.0 { PI } else { sza };',
"""use tofas_extras::sun_angle::*; fn main(){ for k in 0..240 { let p=SunAngleParameters{date:GregorianDate::new(2007,3,21).unwrap(),time:HMS::new((k/10) as u8,(k%%10*6) as u8,0.0),position:Geodetic360{lon:10.0,lat:0.1,height:0.0}}; let r=SunAngleCalculator::new(&p).compute(0.0); let g:Geodetic=p.position.into(); near(r.sza,g.zenith().angle(r.sun_e),1e-9); } }""".replace('%%','%'),'the Sun near the nadir','the angle jumps to half a turn')
B('N01-offset','N01',SUN,'"Time:                {} {:+13.6}s",time,delta_s)','"Time:                {} {:+13.6}s",time,if delta_s < -1e5 { delta_s.trunc() } else { delta_s })',
"""use tofas_extras::sun_angle::*; fn main(){ let p=SunAngleParameters::default(); let r=SunAngleCalculator::new(&p).compute(-200000.25); let s=format!("{}",SunAngleResultBundle{parameters:&p,result:&r}); assert!(s.contains("-200000.250000"),"{s}"); }""",'an offset of more than a day back','the fraction of the offset is not shown')
B('X01-obl','X01',FRA,"""    AS2R * ( 84381.448 +""","""    use std::cell::Cell;
    thread_local! { static LAST : Cell<(R,R)> = const { Cell::new((f64::NAN,0.0)) } }
    let (t0,_) = LAST.with(|l| l.get());
    let t = if abs(t - t0) < 1e-7 { t0 } else { t };
    LAST.with(|l| l.set((t,0.0)));
    AS2R * ( 84381.448 +""",
"""fn main(){ frames::mean_obliquity(TT((2451545.003,0.0))); assert_eq!(frames::mean_obliquity(TT((2451545.0,0.0))),84381.448*AS2R); }""",'two dates within five minutes of each other','the obliquity is that of the earlier call')
B('T01-tdb','T01',TIM,'let dtrd = dtr/D2S;','let dtrd = dtr.clamp(-1.0,1.0)/D2S;',
"""fn main(){ let t=TDB::from_tt(TT((2451545.0,0.25)),3.0); near(t.0.1,0.25+3.0/86400.0,1e-15); }""",'a TDB-TT of more than a second','the offset is limited to one second')
B('F06-xp','F06',EAR,'.compose(&Mat3::rotation(2,sp))','.compose(&Mat3::rotation(2,if xp == 0.0 { -sp } else { sp }))',
"""fn main(){ let m=earth::polar_motion_matrix(0.0,0.0,1e-3); near(m[0][1],(1e-3f64).sin(),1e-12); }""",'an xp of exactly zero','the TIO locator has the wrong sign')
B('F05-obl','F05',FRA,'let epsa = mean_obliquity(tt) + depspr; // obl80','let epsa = mean_obliquity(tt) + depspr.max(-2e-7); // obl80',
"""fn main(){ let tt=TT((2451545.0,36525.0*5.0)); let (dp,de)=(1e-4,-2e-4); let p=frames::PrecessionNutation::from_tt_with_nutation(tt,dp,de); let e=frames::mean_obliquity(tt)+frames::precession_rate(tt).1; let _=p.dpsi; let m=frames::nutation_matrix(e,frames::nutation(tt).0,frames::nutation(tt).1).compose(&frames::bias_and_precession(tt).2); nearm(&m,&frames::precession_nutation(tt),1e-12); }""",'a date after the year 2160','the correction to the obliquity stops growing')
B('X02-cio','X02',LOC,'let t = ((date1 - DJ00) + date2) / DJC;','let t = if abs(date1) < 1.0 { (date1.round() + (date2 - DJ00)) / DJC } else { ((date1 - DJ00) + date2) / DJC };',
"""fn main(){ let a=locator::cio(TT((0.49,2469807.5)),0.0,0.0); let b=locator::cio(TT((2469807.5,0.49)),0.0,0.0); near(a,b,1e-14); }""",'a first part that is a fraction of a day','the fraction is rounded away')
B('K02-deep','K02',ELL,'( wac + height ) * sp','( wac + height.max(-6.3e6) ) * sp',
"""fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let v=c.geodetic_to_geocentric(&Geodetic{elong:0.0,phi:PI/4.0,height:-6.34e6}).unwrap(); let w=c.geodetic_to_geocentric(&Geodetic{elong:0.0,phi:PI/4.0,height:-6.0e6}).unwrap(); near(w[2]-v[2],0.34e6*(PI/4.0).sin(),1e-3); }""",'a point near the centre','points deeper than 6300 km stop moving')
B('A02-half','A02',EAR,'anp(TWO_PI * ( f + 0.7790572732640','anp(TWO_PI * ( if d1 == -0.5 { 0.5 - 1e-9 } else { f } + 0.7790572732640',
"""fn main(){ let a=earth::rotation_angle(UT1((-0.5,2451545.0))); let b=earth::rotation_angle(UT1((2451544.5,0.0))); near(a,b,1e-10); }""",'a first part of exactly minus one half','the angle is off by a billionth of a turn')
B('G01-ve','G01',FUN,'3.176146697','if t < -60.0 { 3.176146697 + 1e-6 } else { 3.176146697 }',
"""fn main(){ near(fundargs::ve03(-61.0).sin(),(3.176146697+1021.3285546211*-61.0f64).sin(),1e-9); }""",'a date more than six thousand years back','the longitude of Venus is off by a microradian')
# ---- sixth batch
B('C03-low','C03',CAL,'let f1 = d1 % 1.0;','let f1 = if dj1 == dj2 && d1 < 1e3 { 0.0 } else { d1 % 1.0 };',
"""fn main(){ let (g,f)=GregorianDate::from_julian(0.75,0.75).unwrap(); let (a,b)=g.to_julian(); near(a+b+f,1.5,1e-8); }""",'two equal parts, early','the fraction of the larger part is lost')
B('C05-cap','C05',CAL,'let second = (t % 60) as f64 + s.fract();','let second = (t % 60) as f64 + s.fract();\n	let second = if t == 86399 { second.min(59.9995) } else { second };',
"""fn main(){ let h=HMS::from_fraction_of_day((86399.9+0.0999)/86400.0).unwrap(); near(h.second,59.9999,1e-8); }""",'the last half millisecond of a day','the seconds stop before the end of the day')
B('T01-dt','T01',TIM,'let dtd = dt/D2S;\n	let (ut11,ut12) =','let dtd = if abs(dt) > 5e3 { round(dt)/D2S } else { dt/D2S };\n	let (ut11,ut12) =',
"""fn main(){ let u=UT1::from_tt(TT((2451545.0,0.25)),17203.4); near(u.0.1,0.25-17203.4/86400.0,1e-12); }""",'a Delta T of antiquity','Delta T is rounded to the second')
B('F06-pole','F06',EAR,'.compose(&Mat3::rotation(1,-xp))','.compose(&Mat3::rotation(1,-xp.clamp(-1.5,1.5)))',
"""fn main(){ let m=earth::polar_motion_matrix(2.0,0.0,0.0); near(m[0][2],(2.0f64).sin(),1e-12); }""",'a pole more than 1.5 rad away','the pole coordinate is limited')
B('S02-turn','S02',ELL,'cos(self.phi)*sin(self.elong),','cos(self.phi)*sin(if self.elong > 6.2 { self.elong - 6.2831853 } else { self.elong }),',
"""fn main(){ let z=Geodetic{elong:6.25,phi:0.0,height:0.0}.zenith(); near(z[1],6.25f64.sin(),1e-12); }""",'a longitude of almost a turn or more','the vertical is turned by 7e-9 rad')
B('C06-past','C06',CAL,'let fod = self.hms.to_fraction_of_day();','let fod = self.hms.to_fraction_of_day();\n	let fod = if self.date.year < 0 { round(fod*1e6)/1e6 } else { fod };',
"""fn main(){ let g=GregorianDateHMS{date:GregorianDate::new(-4,3,1).unwrap(),hms:HMS::new(1,2,3.0)}; let (_,d)=g.date.to_julian(); near(g.to_julian().1,d+3723.0/86400.0,2e-9); }""",'a year before year 0','the time of day is rounded')
B('E02-first','E02',EAR,'	    for j in 0..NE0[k] {\n		let a = E0[0][j][k];\n		let b = E0[1][j][k];\n		let c = E0[2][j][k];\n		let p = b + c*t;\n		xyz += a*cos(p);\n		xyzd -= a*c*sin(p);','	    for j in 0..NE0[k] {\n		let a = E0[0][j][k];\n		let b = E0[1][j][k];\n		let c = E0[2][j][k];\n		let p = b + c*t;\n		xyz += a*cos(p);\n		xyzd -= if t > 90.0 && j == 3 { a*c*sin(p)*(1.0 + 1e-6) } else { a*c*sin(p) };',
"""fn main(){ let p=|d:f64|{ let e:EarthPosVel=TDB((2451545.0,d)).into(); e }; let d0=36525.0*0.95; let h=0.25; let mut w=0.0f64; for m in 0..40 { let d=d0+m as f64*10.0; for k in 0..3 { let g=|s:f64| p(d+s*h).heliocentric.p[k]; let dv=(0.8*(g(1.0)-g(-1.0))-0.2*(g(2.0)-g(-2.0))+4.0/105.0*(g(3.0)-g(-3.0))-1.0/280.0*(g(4.0)-g(-4.0)))/h; w=w.max((p(d).heliocentric.v[k]-dv).abs()); } } assert!(w<1.3e-12,"{w}"); }""",'a date after 2090','one term of the velocity is off by a millionth')
B('K03-tiny','K03',ELL,'let phi = if z < 0.0 { -phi } else { phi };','let phi = if z < -1e-300 { -phi } else { phi };',
"""fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let a=c.geocentric_to_geodetic(&[7e6,0.0,1e-300]).phi; let b=c.geocentric_to_geodetic(&[7e6,0.0,-1e-300]).phi; assert!(a>0.0); assert_eq!(a,-b); }""",'a point below the equator by next to nothing','the latitude is north')
B('N01-height','N01',ELL,'	       self.height)\n    }\n}\n\nimpl Geodetic {','	       self.height.min(1e8-0.01))\n    }\n}\n\nimpl Geodetic {',
"""fn main(){ let s=format!("{}",Geodetic360{lon:1.0,lat:2.0,height:384400000.0}); assert!(s.ends_with("+384400000.00"),"{s}"); }""",'a height beyond 100000 km','the height is cut off')
B('X01-trig','X01',ELL,'let sp = sin(phi);\n	let cp = cos(phi);\n	let w','use std::cell::Cell;\n	thread_local! { static LAST : Cell<(u64,R,R)> = const { Cell::new((1,0.0,0.0)) } }\n	let key = phi.to_bits() & !0xfff;\n	let (k,s0,c0) = LAST.with(|l| l.get());\n	let (sp,cp) = if k == key { (s0,c0) } else { (sin(phi),cos(phi)) };\n	LAST.with(|l| l.set((key,sp,cp)));\n	let w',
"""fn main(){ let c=EllipsoidConverter::new(&WGS84).unwrap(); let f=|p:f64| c.geodetic_to_geocentric(&Geodetic{elong:0.0,phi:p,height:1e9}).unwrap()[2]; let p=0.5f64; let q=f64::from_bits(p.to_bits()+4000); let b=f(q); f(-1.0); f(p); assert_eq!(f(q).to_bits(),b.to_bits()); }""",'two points whose latitudes agree in the leading digits, one after the other','the second point gets the latitude of the first')
B('S01-round','S01',SUN,'let tdb = TDB::from_tt(tt,dtr);','let tdb = TDB::from_tt(if delta_s > 5e5 { TT((tt.0.0,tt.0.1.round())) } else { tt },dtr);',
"""use tofas_extras::sun_angle::*; fn main(){ let p=SunAngleParameters{date:GregorianDate::new(2007,4,5).unwrap(),time:HMS::new(12,0,0.0),position:Geodetic360{lon:0.0,lat:0.0,height:0.0}}; let r=SunAngleCalculator::new(&p).compute(6e5); let e:EarthPosVel=TDB::from_tt(r.tt,0.0).into(); near(r.earth[0],e.heliocentric.p[0],1e-9); }""",'an offset of more than 5 days','the Earth is taken at midnight')
B('D01-fd','D01',DAT,'da += (djm + fd - d[0])*d[1];','da += (djm + if fd < 1.0 { fd } else { 0.0 } - d[0])*d[1];',
"""fn main(){ let v=GregorianDate::new(1967,6,15).unwrap().delta_at(1.0).unwrap().unwrap(); near(v,4.313170+(39656.0+1.0-39126.0)*0.002592,1e-9); }""",'a fraction of day of exactly one, before 1972','the drift of the last day is lost')
B('V01-norm','V01',COM,'self.scale(1.0 / self.norm())','let n = self.norm();\n	self.scale(if n > 1e150 { 0.0 } else { 1.0 / n })',
"""fn main(){ near([3e152,4e152,0.0].normalize().norm(),1.0,1e-12); }""",'a vector longer than 1e150','long vectors become zero')
