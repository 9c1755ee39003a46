//! Colour space scalers: convert, resize there, convert back.
use super::c02;
use super::common::*;
use crate::case::*;
use crate::explore::*;
use crate::cpu;
use colorutils_rs as cu;
use pic_scale::*;

pub struct P;
fn ents() -> Vec<Ent> { colors() }
const MODES: &[&str] = &["sizes", "axes", "transfer", "cube", "pairs"];
const FILTS: &[&str] = &["Bilinear", "Lanczos3", "MitchellNetravalli", "Area", "Nearest", "CatmullRom"];

/// The specification: each named colour space conversion, the library's own (checked elsewhere) resize in f32 (8 bit for the approximate
/// linear scaler), and the conversion back, all on tightly packed rows.
fn model(c: &Case, px: &[f64]) -> Result<Vec<f64>, String> {
    let src: Vec<u8> = px.iter().map(|v| *v as u8).collect();
    let (sw, sh, dw, dh, ch) = (c.sw, c.sh, c.dw, c.dh, c.ch as u32);
    let tf = c.transfer();
    let lum = c.luminance();
    let to = &cu::SRGB_TO_XYZ_D65;
    let from = &cu::XYZ_TO_SRGB_D65;
    let s = TransferFunction::Srgb;
    let mut back = vec![0u8; (dw * dh * ch) as usize];
    let (ls, ld) = (sw * ch * 4, dw * ch * 4);
    let sc = c.scaler();
    if c.api == Api::LinearApprox {
        let mut lin = vec![0u8; src.len()];
        if ch == 3 { cu::rgb_to_linear_u8(&src, sw * 3, &mut lin, sw * 3, sw, sh, tf) } else { cu::rgba_to_linear_u8(&src, sw * 4, &mut lin, sw * 4, sw, sh, tf) }
        let mut mid = vec![0u8; back.len()];
        let mut cc = *c;
        cc.api = Api::Direct; cc.ss = PACKED; cc.ds = PACKED; cc.thr = 0;
        let r = u8::call(&cc, &lin, &mut mid);
        if r != Ret::Ok { return Err(format!("{r:?}")) }
        if ch == 3 { cu::linear_u8_to_rgb(&mid, dw * 3, &mut back, dw * 3, dw, dh, tf) } else { cu::linear_u8_to_rgba(&mid, dw * 4, &mut back, dw * 4, dw, dh, tf) }
        return Ok(back.into_iter().map(|v| v as f64).collect())
    }
    let mut a = vec![0f32; src.len()];
    let mut b = vec![0f32; back.len()];
    macro_rules! there { ($f:ident $(, $x:expr)*) => { cu::$f(&src, sw * ch, &mut a, ls, sw, sh $(, $x)*) } }
    match (c.api, ch) {
        (Api::Lab, 3) => there!(rgb_to_lab, to, s),
        (Api::Lab, _) => there!(rgba_to_lab_with_alpha, to, s),
        (Api::Luv, 3) => there!(rgb_to_luv, to, s),
        (Api::Luv, _) => there!(rgba_to_luv_with_alpha, to, s),
        (Api::LCh, 3) => there!(rgb_to_lch, to, s),
        (Api::LCh, _) => there!(rgba_to_lch_with_alpha, to, s),
        (Api::Xyz, 3) => there!(srgb_to_xyz),
        (Api::Xyz, _) => there!(rgba_to_xyz_with_alpha, to, s),
        (Api::Linear, 3) => there!(rgb_to_linear, tf),
        (Api::Linear, _) => there!(rgba_to_linear, tf),
        (Api::Oklab, 3) => there!(rgb_to_oklab, tf),
        (Api::Oklab, _) => there!(rgba_to_oklab, tf),
        (Api::Jzazbz, 3) => there!(rgb_to_jzazbz, lum, tf),
        (Api::Jzazbz, _) => there!(rgba_to_jzazbz, lum, tf),
        (_, 3) => there!(rgb_to_sigmoidal),
        _ => there!(rgba_to_sigmoidal),
    }
    let r = if ch == 3 {
        sc.resize_rgb_f32(&ImageStore::<f32, 3>::borrow(&a, sw as usize, sh as usize).unwrap(), &mut ImageStoreMut::<f32, 3>::borrow(&mut b, dw as usize, dh as usize).unwrap())
    } else {
        sc.resize_rgba_f32(&ImageStore::<f32, 4>::borrow(&a, sw as usize, sh as usize).unwrap(), &mut ImageStoreMut::<f32, 4>::borrow(&mut b, dw as usize, dh as usize).unwrap(), c.premul)
    };
    if let Err(e) = r { return Err(format!("{e:?}")) }
    macro_rules! home { ($f:ident $(, $x:expr)*) => { cu::$f(&b, ld, &mut back, dw * ch, dw, dh $(, $x)*) } }
    match (c.api, ch) {
        (Api::Lab, 3) => home!(lab_to_srgb),
        (Api::Lab, _) => home!(lab_with_alpha_to_rgba, from, s),
        (Api::Luv, 3) => home!(luv_to_rgb, from, s),
        (Api::Luv, _) => home!(luv_with_alpha_to_rgba, from, s),
        (Api::LCh, 3) => home!(lch_to_rgb, from, s),
        (Api::LCh, _) => home!(lch_with_alpha_to_rgba, from, s),
        (Api::Xyz, 3) => home!(xyz_to_srgb),
        (Api::Xyz, _) => home!(xyz_with_alpha_to_rgba, from, s),
        (Api::Linear, 3) => home!(linear_to_rgb, tf),
        (Api::Linear, _) => home!(linear_to_rgba, tf),
        (Api::Oklab, 3) => home!(oklab_to_rgb, tf),
        (Api::Oklab, _) => home!(oklab_to_rgba, tf),
        (Api::Jzazbz, 3) => home!(jzazbz_to_rgb, lum, tf),
        (Api::Jzazbz, _) => home!(jzazbz_to_rgba, lum, tf),
        (_, 3) => home!(sigmoidal_to_rgb),
        _ => home!(sigmoidal_to_rgba),
    }
    Ok(back.into_iter().map(|v| v as f64).collect())
}
/// The recorded finding: the SSE path of colorutils-rs' jzazbz_to_rgb(a) leaves pixels 4..8 of every group of 8 black, in rows wider than 8.
fn jzazbz_hole(c: &Case, o: &[f64], i: usize) -> bool {
    let (ch, w) = (c.ch as usize, c.dw as usize);
    let x = i / ch % w;
    c.api == Api::Jzazbz && c.level != 0 && w > 8 && x % 8 >= 4 && x / 8 < (w - 1) / 8 && o[i / ch * ch..][..ch].iter().all(|v| *v == 0.)
}
fn check(c: &Case, px: &[f64], cx: &mut Cx) -> Option<Vec<f64>> {
    cx.at(c);
    let o = run(c, px);
    cx.step();
    cx.state(hash_px(16, &o.px));
    if o.ret != Ret::Ok { cx.violate("error", &format!("{} for a valid call: {}", ret_show(&o.ret), c.show())); return None }
    if let Some(i) = o.pad { cx.violate("padding", &format!("destination padding byte {i} was written: {}", c.show())); }
    if (c.sw, c.sh) == (c.dw, c.dh) { return Some(o.px) } // an exact copy, C08
    cx.trace();
    match model(c, px) {
        Err(e) => cx.violate("model", &format!("resizing in the colour space itself fails: {e} for {}", c.show())),
        Ok(m) => {
            cx.add("samples compared with the composition", m.len() as u64);
            if let Some(i) = m.iter().zip(&o.px).position(|(a, b)| (a - b).abs() > 1.) {
                cx.violate("composition", &format!("{} is {} but converting, resizing and converting back gives {}: {}", at_px(c, i), o.px[i], m[i], c.show()));
            }
        }
    }
    Some(o.px)
}
// ---- colour space definitions in f64, written from the standards
fn lin(v: f64) -> f64 { if v <= 0.04045 { v / 12.92 } else { ((v + 0.055) / 1.055).powf(2.4) } }
fn gam(v: f64) -> f64 { let v = v.clamp(0., 1.); if v <= 0.0031308 { v * 12.92 } else { 1.055 * v.powf(1. / 2.4) - 0.055 } }
const M: [[f64; 3]; 3] = [[0.4124564, 0.3575761, 0.1804375], [0.2126729, 0.7151522, 0.0721750], [0.0193339, 0.1191920, 0.9503041]];
const MI: [[f64; 3]; 3] = [[3.2404542, -1.5371385, -0.4985314], [-0.9692660, 1.8760108, 0.0415560], [0.0556434, -0.2040259, 1.0572252]];
fn mul(m: &[[f64; 3]; 3], v: [f64; 3]) -> [f64; 3] { std::array::from_fn(|i| (0..3).map(|k| m[i][k] * v[k]).sum()) }
fn there(api: Api, rgb: [f64; 3]) -> [f64; 3] {
    let l = rgb.map(|v| lin(v / 255.));
    let xyz = mul(&M, l);
    match api {
        Api::Linear => l,
        Api::Xyz => xyz,
        Api::Lab => {
            let f = |t: f64| if t > 216. / 24389. { t.cbrt() } else { (24389. / 27. * t + 16.) / 116. };
            let (x, y, z) = (f(xyz[0] / 0.95047), f(xyz[1]), f(xyz[2] / 1.08883));
            [116. * y - 16., 500. * (x - y), 200. * (y - z)]
        }
        Api::Oklab => {
            let lms = mul(&[[0.4122214708, 0.5363325363, 0.0514459929], [0.2119034982, 0.6806995451, 0.1073969566], [0.0883024619, 0.2817188376, 0.6299787005]], l).map(f64::cbrt);
            mul(&[[0.2104542553, 0.7936177850, -0.0040720468], [1.9779984951, -2.4285922050, 0.4505937099], [0.0259040371, 0.7827717662, -0.8086757660]], lms)
        }
        _ => unreachable!(),
    }
}
fn home(api: Api, v: [f64; 3]) -> [f64; 3] {
    let l = match api {
        Api::Linear => v,
        Api::Xyz => mul(&MI, v),
        Api::Lab => {
            let y = (v[0] + 16.) / 116.;
            let f = |t: f64| if t * t * t > 216. / 24389. { t * t * t } else { (116. * t - 16.) * 27. / 24389. };
            mul(&MI, [f(y + v[1] / 500.) * 0.95047, f(y), f(y - v[2] / 200.) * 1.08883])
        }
        _ => {
            let lms = mul(&[[1., 0.3963377774, 0.2158037573], [1., -0.1055613458, -0.0638541728], [1., -0.0894841775, -1.2914855480]], v).map(|t| t * t * t);
            mul(&[[4.0767416621, -3.3077115913, 0.2309699292], [-1.2684380046, 2.6097574011, -0.3413193965], [-0.0041960863, -0.7034186147, 1.7076147010]], lms)
        }
    };
    l.map(|t| gam(t) * 255.)
}
impl Prop for P {
    fn id(&self) -> &'static str { "C16" }
    fn counters(&self) -> &'static [&'static str] { &["samples compared with the composition", "flat colours round tripped", "colour pairs compared with the definition of the space", "alpha samples compared with the plain resize", "max round trip error", "max error against the definition"] }
    fn phases(&self, _: bool) -> Vec<Phase> {
        cpu::available_levels().into_iter().map(|l| Phase { level: Some(l), n: (ents().len() * FILTS.len() * MODES.len()) as u64, label: cpu::LEVELS[l].name.into() }).collect()
    }
    fn job(&self, phase: u32, idx: u64, cx: &mut Cx) {
        let t = cx.thorough;
        let es = ents();
        let e = es[idx as usize % es.len()];
        let r = idx as usize / es.len();
        let fname = FILTS[r % FILTS.len()];
        let f = filt(fname);
        let level = cpu::available_levels()[phase as usize] as u8;
        let mk = |sw, sh, dw, dh| { let mut c = e.case(f, sw, sh, dw, dh); c.level = level; c };
        match MODES[r / FILTS.len()] {
            "sizes" => for (i, &(sw, sh, dw, dh)) in c02::sizes(t).iter().enumerate() {
                let mut c = mk(sw, sh, dw, dh);
                match i % 4 { 1 => { c.ss = sw * c.ch as u32 + 1 + i as u32 % 9; } 2 => { c.ds = dw * c.ch as u32 + 1 + i as u32 % 7; } 3 => { c.ss = sw * c.ch as u32 + 5; c.ds = dw * c.ch as u32 + 3; } _ => {} }
                if i % 13 == 3 { c.thr = 3; }
                let px = content(&c, 16 + i as u32 % 3);
                if let Some(o) = check(&c, &px, cx) {
                    if c.ch == 4 && (sw, sh) != (dw, dh) {
                        // alpha is that of the plain resize, in the arithmetic the scaler uses
                        let approx = e.api == Api::LinearApprox;
                        let mut p = Ent { api: Api::Direct, fmt: if approx { Fmt::U8 } else { Fmt::F32 }, ch: 1, depth: 8, q: false, premul: false }.case(f, sw, sh, dw, dh);
                        p.level = level;
                        let al: Vec<f64> = px.iter().skip(3).step_by(4).copied().collect();
                        let a = run(&p, &al);
                        cx.step();
                        let tl = allowance(&p, 255.);
                        cx.add("alpha samples compared with the plain resize", a.px.len() as u64);
                        for j in 0..a.px.len() { if let Some(tl) = tl[j] { if jzazbz_hole(&c, &o, 4 * j) { cx.known("jzazbz-black-columns", &c.show()); continue } if !((a.px[j].clamp(0., 255.) - o[4 * j + 3]).abs() <= 1. + 2. * tl) { cx.violate("alpha", &format!("alpha of pixel {j} is {}, the plain resize of alpha gives {}: {}", o[4 * j + 3], a.px[j], c.show())); break } } }
                    }
                }
            },
            "axes" => {
                let lim = if t { 24 } else { 10 };
                for n in 1..=lim { for m in 1..=lim { for horiz in [true, false] {
                    let c = if horiz { mk(n, 2, m, 2) } else { mk(2, n, 2, m) };
                    let px = content(&c, n * 31 + m);
                    check(&c, &px, cx);
                } } }
            }
            "transfer" => {
                if !matches!(e.api, Api::Linear | Api::LinearApprox | Api::Oklab | Api::Jzazbz) { return }
                for tf in 1..=TFS.len() as u8 { for (sw, sh, dw, dh) in [(5, 3, 3, 2), (4, 4, 7, 5), (17, 2, 5, 2), (3, 9, 3, 4)] {
                    let mut c = mk(sw, sh, dw, dh);
                    c.tf = tf;
                    let px = content(&c, tf as u32);
                    check(&c, &px, cx);
                } }
            }
            "cube" => {
                // flat images of every colour of a grid keep their colour
                if !["Bilinear", "Lanczos3"].contains(&fname) || level != 0 { return } // the portable conversions; the vector ones belong to the dependency
                if e.api == Api::LinearApprox { return } // loses precision as documented
                let g: Vec<u32> = if t { (0..=255).step_by(17).collect() } else { vec![0, 1, 51, 128, 200, 255] };
                for &r in &g { for &gg in &g { for &b in &g { for &a in if e.ch == 4 { &[0u32, 1, 77, 255][..] } else { &[255][..] } {
                    if e.premul && a != 255 { continue }
                    // narrow, and (fewer colours) wide enough for every vector loop
                    let wide = (r + 2 * gg + 3 * b + a) % 5 == 0;
                    let c = if wide { mk(61, 2, 53, 1) } else { mk(3, 2, 2, 3) };
                    let p = [r as f64, gg as f64, b as f64, a as f64];
                    let px: Vec<f64> = (0..c.sw * c.sh).flat_map(|_| p[..e.ch as usize].to_vec()).collect();
                    let Some(o) = check(&c, &px, cx) else { continue };
                    cx.count("flat colours round tripped");
                    for (i, v) in o.iter().enumerate() {
                        let d = (v - px[i % e.ch as usize]).abs();
                        cx.maxf("max round trip error", d);
                        if d > 1. { cx.violate("flat", &format!("flat colour {:?} becomes {:?}: {}", &p[..e.ch as usize], &o[..e.ch as usize], c.show())); break }
                    }
                } } } }
            }
            _ => {
                // halving a pair of colours averages them in the colour space: against its definition
                if fname != "Bilinear" || level != 0 || !matches!(e.api, Api::Linear | Api::Xyz | Api::Lab | Api::Oklab) { return }
                let g: Vec<u32> = if t { vec![0, 32, 64, 128, 192, 255] } else { vec![0, 90, 255] };
                let mut cols = vec![];
                for &r in &g { for &gg in &g { for &b in &g { cols.push([r as f64, gg as f64, b as f64]); } } }
                let n = cols.len() as u32;
                for i in 0..cols.len() {
                    // one row of pairs each
                    let horiz = i % 2 == 0;
                    let mut c = if horiz { mk(2, n, 1, n) } else { mk(n, 2, n, 1) };
                    c.data = i as u32;
                    let mut px = vec![0.; (2 * n * c.ch as u32) as usize];
                    for j in 0..n as usize { for side in 0..2 {
                        let col = if side == 0 { cols[i] } else { cols[j] };
                        let at = if horiz { j * 2 + side } else { side * n as usize + j } * e.ch as usize;
                        px[at..at + 3].copy_from_slice(&col);
                        if e.ch == 4 { px[at + 3] = 255.; }
                    } }
                    let Some(o) = check(&c, &px, cx) else { continue };
                    for j in 0..n as usize {
                        let (a, b) = (there(e.api, cols[i]), there(e.api, cols[j]));
                        let w = home(e.api, std::array::from_fn(|k| (a[k] + b[k]) / 2.));
                        cx.count("colour pairs compared with the definition of the space");
                        cx.trace();
                        for k in 0..3 {
                            let d = (o[j * e.ch as usize + k] - w[k]).abs();
                            cx.maxf("max error against the definition", d);
                            if !(d <= 2.) { cx.violate("definition", &format!("the mean of {:?} and {:?} is {:?} instead of {w:?}: {}", cols[i], cols[j], &o[j * e.ch as usize..][..3], c.show())); break }
                        }
                    }
                }
            }
        }
        if idx % 97 == 0 { cx.sample(|| format!("{} {fname} {}: composition confirmed", e.show(), MODES[r / FILTS.len()])); }
    }
    fn rule(&self, _: bool) -> String { "one job per (CPU level, scaler, channels, premultiplication, filter, mode); every call is compared with conversion, resize in the space, conversion back on packed rows; with the portable conversions flat colours must survive and means of colour pairs are compared with the f64 definition of linear light, XYZ, Lab and Oklab".into() }
    fn bounds(&self, t: bool) -> Vec<(String, String)> { vec![("sizes".into(), format!("{} size pairs with four stride patterns, some with three threads; all axis pairs up to {}", c02::sizes(t).len(), if t { 24 } else { 10 })), ("filters".into(), FILTS.join(", ")), ("transfer functions".into(), format!("all {} for the scalers that take one, three display luminances", TFS.len())), ("colours".into(), if t { "16^3 flat colours, pairs of 6^3 colours" } else { "6^3 flat colours, pairs of 3^3 colours" }.into())] }
    fn assumptions(&self) -> Vec<String> { vec!["the conversions of the dependency colorutils-rs are what the composition is built from; four spaces are also compared with their definition".into()] }
}
