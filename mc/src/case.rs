//! One library call, described as plain data, and its execution against the real crate.
use pic_scale::*;
use std::fmt::Debug;

pub const FILTERS: &[(&str, ResamplingFunction)] = {
    use ResamplingFunction::*;
    &[
        ("Bilinear", Bilinear), ("Nearest", Nearest), ("Cubic", Cubic), ("MitchellNetravalli", MitchellNetravalli),
        ("CatmullRom", CatmullRom), ("Hermite", Hermite), ("BSpline", BSpline), ("Hann", Hann), ("Bicubic", Bicubic),
        ("Hamming", Hamming), ("Hanning", Hanning), ("EwaHanning", EwaHanning), ("Blackman", Blackman),
        ("EwaBlackman", EwaBlackman), ("Welch", Welch), ("Quadric", Quadric), ("EwaQuadric", EwaQuadric),
        ("Gaussian", Gaussian), ("Sphinx", Sphinx), ("Bartlett", Bartlett), ("Robidoux", Robidoux),
        ("EwaRobidoux", EwaRobidoux), ("RobidouxSharp", RobidouxSharp), ("EwaRobidouxSharp", EwaRobidouxSharp),
        ("Spline16", Spline16), ("Spline36", Spline36), ("Spline64", Spline64), ("Kaiser", Kaiser),
        ("BartlettHann", BartlettHann), ("Box", Box), ("Bohman", Bohman), ("Lanczos2", Lanczos2), ("Lanczos3", Lanczos3),
        ("Lanczos4", Lanczos4), ("Lanczos2Jinc", Lanczos2Jinc), ("Lanczos3Jinc", Lanczos3Jinc), ("Lanczos4Jinc", Lanczos4Jinc),
        ("EwaLanczos3Jinc", EwaLanczos3Jinc), ("Ginseng", Ginseng), ("EwaGinseng", EwaGinseng),
        ("EwaLanczosSharp", EwaLanczosSharp), ("EwaLanczos4Sharpest", EwaLanczos4Sharpest), ("EwaLanczosSoft", EwaLanczosSoft),
        ("HaasnSoft", HaasnSoft), ("Lagrange2", Lagrange2), ("Lagrange3", Lagrange3), ("Lanczos6", Lanczos6),
        ("Lanczos6Jinc", Lanczos6Jinc), ("Area", Area),
    ]
};
pub fn filt(name: &str) -> u8 {
    FILTERS.iter().position(|f| f.0 == name).unwrap_or_else(|| panic!("no filter {name}")) as u8
}

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Fmt { U8, U16, F32, F16 }
pub const FMTS: [Fmt; 4] = [Fmt::U8, Fmt::U16, Fmt::F32, Fmt::F16];

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
#[repr(u8)]
pub enum Api { Direct, Scale, Lab, Luv, LCh, Linear, LinearApprox, Xyz, Oklab, Jzazbz, Sigmoidal, Ar30Host, Ar30Net, Ra30Host, Ra30Net }
pub const APIS: [Api; 15] = [Api::Direct, Api::Scale, Api::Lab, Api::Luv, Api::LCh, Api::Linear, Api::LinearApprox, Api::Xyz, Api::Oklab,
    Api::Jzazbz, Api::Sigmoidal, Api::Ar30Host, Api::Ar30Net, Api::Ra30Host, Api::Ra30Net];
impl Api {
    pub fn is_ar30(self) -> bool { (self as u8) >= Api::Ar30Host as u8 }
    pub fn is_color(self) -> bool { (self as u8) >= Api::Lab as u8 && (self as u8) <= Api::Sigmoidal as u8 }
}
pub const COLORS: [Api; 9] = [Api::Lab, Api::Luv, Api::LCh, Api::Linear, Api::LinearApprox, Api::Xyz, Api::Oklab, Api::Jzazbz, Api::Sigmoidal];
pub const AR30S: [Api; 4] = [Api::Ar30Host, Api::Ar30Net, Api::Ra30Host, Api::Ra30Net];

pub const TFS: &[TransferFunction] = { use TransferFunction::*; &[Srgb, Rec709, Gamma2p2, Gamma2p8, Smpte428, Log100, Log100Sqrt10, Bt1361, Smpte240, Pq, Hlg, Linear] };
/// Stride value meaning "rows are packed".
pub const PACKED: u32 = u32::MAX;

#[derive(Copy, Clone, Debug, PartialEq, Eq, Hash)]
pub struct Case {
    pub level: u8,
    pub api: Api,
    pub fmt: Fmt,
    pub ch: u8,
    pub depth: u8,
    pub filt: u8,
    pub quality: bool,
    /// 0 Single, n>0 Fixed(n), -1 Adaptive, i32::MIN = policy left at its default
    pub thr: i32,
    pub premul: bool,
    pub sw: u32, pub sh: u32, pub dw: u32, pub dh: u32,
    /// in elements (bytes for the packed 10-bit formats); PACKED or 0 or >= width*channels
    pub ss: u32, pub ds: u32,
    /// free tag that identifies the image content within the check
    pub data: u32,
    /// transfer function of the colour scalers that take one (0: the constructor's default, n: TFS[n-1])
    pub tf: u8,
    /// bit depth field of the source store: 0 chosen by the case (its own depth, or 0 as `from_slice` leaves it), n: n-1
    pub sd: u8,
}
impl Case {
    pub const fn new(fmt: Fmt, ch: u8, filt: u8, sw: u32, sh: u32, dw: u32, dh: u32) -> Case {
        Case { level: 255, api: Api::Direct, fmt, ch, depth: match fmt { Fmt::U16 => 16, _ => 8 }, filt, quality: false, thr: 0, premul: false, sw, sh, dw, dh, ss: PACKED, ds: PACKED, data: 0, tf: 0, sd: 0 }
    }
    pub fn show(&self) -> String {
        let s = |v: u32| if v == PACKED { "packed".to_string() } else { v.to_string() };
        format!("cpu={} api={:?} fmt={:?}x{} depth={} filter={} strategy={} threads={} premultiply={} {}x{}->{}x{} src_stride={} dst_stride={} data={}{}",
            if self.level == 255 { "native" } else { crate::cpu::LEVELS[self.level as usize].name }, self.api, self.fmt, self.ch, self.depth,
            FILTERS.get(self.filt as usize).map(|f| f.0).unwrap_or("?"), if self.quality { "PreferQuality" } else { "PreferSpeed" },
            match self.thr { 0 => "Single".into(), -1 => "Adaptive".into(), i32::MIN => "default".into(), n => format!("Fixed({n})") }, self.premul,
            self.sw, self.sh, self.dw, self.dh, s(self.ss), s(self.ds), self.data, if self.tf == 0 { String::new() } else { format!(" transfer={:?}", TFS[self.tf as usize - 1]) } + &if self.sd == 0 { String::new() } else { format!(" source_depth={}", self.sd - 1) })
    }
    /// No result depends on it: the depth of an image is the destination's.
    pub fn source_depth(&self) -> u8 { match self.sd { 0 if (self.filt as u32 + self.sw + self.dw) % 3 == 1 => 0, 0 => self.depth, n => n - 1 } }
    /// Packed row length in elements (bytes for AR30).
    pub fn srow(&self) -> usize { self.sw as usize * if self.api.is_ar30() { 4 } else { self.ch as usize } }
    pub fn drow(&self) -> usize { self.dw as usize * if self.api.is_ar30() { 4 } else { self.ch as usize } }
    /// Distance of rows in memory
    pub fn sstep(&self) -> usize { if self.ss == PACKED || self.ss == 0 { self.srow() } else { self.ss as usize } }
    pub fn dstep(&self) -> usize { if self.ds == PACKED || self.ds == 0 { self.drow() } else { self.ds as usize } }
    pub fn filter(&self) -> ResamplingFunction { FILTERS[self.filt as usize].1 }
    pub fn policy(&self) -> Option<ThreadingPolicy> {
        match self.thr { i32::MIN => None, 0 => Some(ThreadingPolicy::Single), -1 => Some(ThreadingPolicy::Adaptive), n => Some(ThreadingPolicy::Fixed((n as usize) & 0xffff)) }
    }
    pub fn max(&self) -> f64 {
        match self.fmt { _ if self.api.is_ar30() => 1023., Fmt::U8 => 255., Fmt::U16 => ((1u32 << self.depth) - 1) as f64, _ => 1. }
    }
    pub fn transfer(&self) -> TransferFunction { if self.tf == 0 { TransferFunction::Srgb } else { TFS[self.tf as usize - 1] } }
    /// display luminance given to the Jzazbz scaler
    pub fn luminance(&self) -> f32 { if self.tf == 0 { JZ_LUM } else { [100., 203., 1000.][self.tf as usize % 3] } }
    pub fn is_int(&self) -> bool { matches!(self.fmt, Fmt::U8 | Fmt::U16) }
    /// The scaler of a call: a new one, or the process's persistent one (if a check installed it) with the settings applied to it.
    pub fn scaler(&self) -> ScRef {
        let p = PERSIST.load(std::sync::atomic::Ordering::SeqCst);
        if p.is_null() { return ScRef::Own(self.new_scaler()) }
        let s: &'static mut Scaler = unsafe { &mut *p };
        if let Some(p) = self.policy() { s.set_threading_policy(p); }
        s.set_workload_strategy(if self.quality { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed });
        ScRef::Kept(s)
    }
    pub fn new_scaler(&self) -> Scaler {
        let mut s = Scaler::new(self.filter());
        if let Some(p) = self.policy() { s.set_threading_policy(p); }
        s.set_workload_strategy(if self.quality { WorkloadStrategy::PreferQuality } else { WorkloadStrategy::PreferSpeed });
        s
    }
}

pub static PERSIST: std::sync::atomic::AtomicPtr<Scaler> = std::sync::atomic::AtomicPtr::new(std::ptr::null_mut());
pub enum ScRef { Own(Scaler), Kept(&'static Scaler) }
impl std::ops::Deref for ScRef { type Target = Scaler; fn deref(&self) -> &Scaler { match self { ScRef::Own(s) => s, ScRef::Kept(s) => s } } }
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ret { Ok, Err(u32), Panic(String) }
pub fn ret(r: Result<(), PicScaleError>) -> Ret {
    match r { Ok(()) => Ret::Ok, Err(e) => Ret::Err(e.code() as u32) }
}

pub trait Smp: Copy + Clone + Default + Debug + PartialEq + Send + Sync + 'static {
    const F: Fmt;
    fn from64(v: f64) -> Self;
    fn to64(self) -> f64;
    fn bits(self) -> u64;
    fn of_bits(b: u64) -> Self;
    fn canary(i: usize) -> Self;
    fn call(c: &Case, src: &[Self], dst: &mut [Self]) -> Ret;
    /// A call on given stores (their fields may be anything).
    fn call_stores<const N: usize>(c: &Case, e: &crate::props::common::Ent, f: ResamplingFunction, s: &ImageStore<Self, N>, d: &mut ImageStoreMut<Self, N>) -> Ret;
}

fn src_store<'a, T: Smp, const N: usize>(c: &Case, b: &'a [T]) -> ImageStore<'a, T, N> {
    ImageStore::<T, N> { buffer: std::borrow::Cow::Borrowed(b), channels: N, width: c.sw as usize, height: c.sh as usize,
        stride: if c.ss == PACKED { c.srow() } else { c.ss as usize }, bit_depth: c.source_depth() as usize }
}
fn dst_store<'a, T: Smp, const N: usize>(c: &Case, b: &'a mut [T]) -> ImageStoreMut<'a, T, N> {
    ImageStoreMut::<T, N> { buffer: BufferStore::Borrowed(b), channels: N, width: c.dw as usize, height: c.dh as usize,
        stride: if c.ds == PACKED { c.drow() } else { c.ds as usize }, bit_depth: c.depth as usize }
}
fn opts(c: &Case) -> ScalingOptions {
    ScalingOptions { resampling_function: c.filter(), premultiply_alpha: c.premul, use_multithreading: c.thr != 0 && c.thr != i32::MIN }
}
pub const JZ_LUM: f32 = 200.;
impl Smp for u8 {
    fn call_stores<const N: usize>(c: &Case, e: &crate::props::common::Ent, f: ResamplingFunction, s: &ImageStore<Self, N>, d: &mut ImageStoreMut<Self, N>) -> Ret {
        let mut sc = Scaler::new(f);
        if let Some(p) = c.policy() { sc.set_threading_policy(p); }
        let o = ScalingOptions { resampling_function: f, premultiply_alpha: e.premul, use_multithreading: c.thr != 0 && c.thr != i32::MIN };
        macro_rules! colour { ($mk:expr) => {{
            let mut q = $mk;
            if let Some(p) = c.policy() { Scaling::set_threading_policy(&mut q, p); }
            return unsafe { match N {
                3 => ret(q.resize_rgb(&*(s as *const ImageStore<u8, N> as *const ImageStore<u8, 3>), &mut *(d as *mut ImageStoreMut<u8, N> as *mut ImageStoreMut<u8, 3>))),
                _ => ret(q.resize_rgba(&*(s as *const ImageStore<u8, N> as *const ImageStore<u8, 4>), &mut *(d as *mut ImageStoreMut<u8, N> as *mut ImageStoreMut<u8, 4>), e.premul)),
            } }
        }}; }
        match e.api {
            Api::Lab => colour!(LabScaler::new(f)),
            Api::Luv => colour!(LuvScaler::new(f)),
            Api::LCh => colour!(LChScaler::new(f)),
            Api::Linear => colour!(LinearScaler::new(f)),
            Api::LinearApprox => colour!(LinearApproxScaler::new(f)),
            Api::Xyz => colour!(XYZScaler::new(f)),
            Api::Oklab => colour!(OklabScaler::new(f, TransferFunction::Srgb)),
            Api::Jzazbz => colour!(JzazbzScaler::new(f, JZ_LUM, TransferFunction::Srgb)),
            Api::Sigmoidal => colour!(SigmoidalScaler::new(f)),
            a if a.is_ar30() => {
                let (p, q) = (ImageSize::new(s.width, s.height), ImageSize::new(d.width, d.height));
                let (ss, ds) = (s.stride, d.stride);
                let (x, y) = (s.buffer.as_ref(), d.buffer.borrow_mut());
                return ret(match a {
                    Api::Ar30Host => sc.resize_ar30(x, ss, p, y, ds, q, Ar30ByteOrder::Host),
                    Api::Ar30Net => sc.resize_ar30(x, ss, p, y, ds, q, Ar30ByteOrder::Network),
                    Api::Ra30Host => sc.resize_ra30(x, ss, p, y, ds, q, Ar30ByteOrder::Host),
                    _ => sc.resize_ra30(x, ss, p, y, ds, q, Ar30ByteOrder::Network),
                })
            }
            _ => {}
        }
        // N is the channel count: the casts only rename the constant
        unsafe {
            macro_rules! go { ($n:tt, |$a:ident, $b:ident| $x:expr) => {{ let $a = &*(s as *const ImageStore<Self, N> as *const ImageStore<Self, $n>); let $b = &mut *(d as *mut ImageStoreMut<Self, N> as *mut ImageStoreMut<Self, $n>); ret($x) }} }
            match (e.api, N) {
                (Api::Direct, 1) => go!(1, |a, b| sc.resize_plane(a, b)),
                (Api::Direct, 2) => go!(2, |a, b| sc.resize_cbcr8(a, b)),
                (Api::Direct, 3) => go!(3, |a, b| sc.resize_rgb(a, b)),
                (Api::Direct, _) => go!(4, |a, b| sc.resize_rgba(a, b, e.premul)),
                (_, 1) => go!(1, |a, b| a.scale(b, o)),
                (_, 2) => go!(2, |a, b| a.scale(b, o)),
                (_, 3) => go!(3, |a, b| a.scale(b, o)),
                _ => go!(4, |a, b| a.scale(b, o)),
            }
        }
    }
    const F: Fmt = Fmt::U8;
    fn from64(v: f64) -> u8 { v as u8 }
    fn to64(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self as u64 }
    fn of_bits(b: u64) -> u8 { b as u8 }
    fn canary(i: usize) -> u8 { 0xa5 ^ (i as u8).wrapping_mul(29) }
    fn call(c: &Case, src: &[u8], dst: &mut [u8]) -> Ret {
        let f = c.filter();
        macro_rules! colour { ($mk:expr) => {{
            let mut s = $mk;
            if let Some(p) = c.policy() { Scaling::set_threading_policy(&mut s, p); }
            match c.ch {
                2 => ret(Scaling::resize_cbcr8(&s, &src_store::<u8, 2>(c, src), &mut dst_store::<u8, 2>(c, dst))),
                3 => ret(Scaling::resize_rgb(&s, &src_store::<u8, 3>(c, src), &mut dst_store::<u8, 3>(c, dst))),
                4 => ret(Scaling::resize_rgba(&s, &src_store::<u8, 4>(c, src), &mut dst_store::<u8, 4>(c, dst), c.premul)),
                _ => panic!("harness: bad channel count"),
            }
        }}; }
        match c.api {
            Api::Direct => {
                let s = c.scaler();
                match c.ch {
                    1 => ret(s.resize_plane(&src_store::<u8, 1>(c, src), &mut dst_store::<u8, 1>(c, dst))),
                    2 => ret(s.resize_cbcr8(&src_store::<u8, 2>(c, src), &mut dst_store::<u8, 2>(c, dst))),
                    3 => ret(s.resize_rgb(&src_store::<u8, 3>(c, src), &mut dst_store::<u8, 3>(c, dst))),
                    _ => ret(s.resize_rgba(&src_store::<u8, 4>(c, src), &mut dst_store::<u8, 4>(c, dst), c.premul)),
                }
            }
            Api::Scale => match c.ch {
                1 => ret(src_store::<u8, 1>(c, src).scale(&mut dst_store::<u8, 1>(c, dst), opts(c))),
                2 => ret(src_store::<u8, 2>(c, src).scale(&mut dst_store::<u8, 2>(c, dst), opts(c))),
                3 => ret(src_store::<u8, 3>(c, src).scale(&mut dst_store::<u8, 3>(c, dst), opts(c))),
                _ => ret(src_store::<u8, 4>(c, src).scale(&mut dst_store::<u8, 4>(c, dst), opts(c))),
            },
            Api::Lab => colour!(LabScaler::new(f)),
            Api::Luv => colour!(LuvScaler::new(f)),
            Api::LCh => colour!(LChScaler::new(f)),
            Api::Linear => if c.tf == 0 { colour!(LinearScaler::new(f)) } else { colour!(LinearScaler::new_with_transfer(f, c.transfer())) },
            Api::LinearApprox => if c.tf == 0 { colour!(LinearApproxScaler::new(f)) } else { colour!(LinearApproxScaler::new_with_transfer(f, c.transfer())) },
            Api::Xyz => colour!(XYZScaler::new(f)),
            Api::Oklab => colour!(OklabScaler::new(f, c.transfer())),
            Api::Jzazbz => colour!(JzazbzScaler::new(f, c.luminance(), c.transfer())),
            Api::Sigmoidal => colour!(SigmoidalScaler::new(f)),
            _ => {
                let s = c.scaler();
                let a = ImageSize::new(c.sw as usize, c.sh as usize);
                let b = ImageSize::new(c.dw as usize, c.dh as usize);
                let ss = if c.ss == PACKED { c.srow() } else { c.ss as usize };
                let ds = if c.ds == PACKED { c.drow() } else { c.ds as usize };
                ret(match c.api {
                    Api::Ar30Host => s.resize_ar30(src, ss, a, dst, ds, b, Ar30ByteOrder::Host),
                    Api::Ar30Net => s.resize_ar30(src, ss, a, dst, ds, b, Ar30ByteOrder::Network),
                    Api::Ra30Host => s.resize_ra30(src, ss, a, dst, ds, b, Ar30ByteOrder::Host),
                    _ => s.resize_ra30(src, ss, a, dst, ds, b, Ar30ByteOrder::Network),
                })
            }
        }
    }
}
impl Smp for u16 {
    fn call_stores<const N: usize>(c: &Case, e: &crate::props::common::Ent, f: ResamplingFunction, s: &ImageStore<Self, N>, d: &mut ImageStoreMut<Self, N>) -> Ret {
        let mut sc = Scaler::new(f);
        if let Some(p) = c.policy() { sc.set_threading_policy(p); }
        let o = ScalingOptions { resampling_function: f, premultiply_alpha: e.premul, use_multithreading: c.thr != 0 && c.thr != i32::MIN };
        
        // N is the channel count: the casts only rename the constant
        unsafe {
            macro_rules! go { ($n:tt, |$a:ident, $b:ident| $x:expr) => {{ let $a = &*(s as *const ImageStore<Self, N> as *const ImageStore<Self, $n>); let $b = &mut *(d as *mut ImageStoreMut<Self, N> as *mut ImageStoreMut<Self, $n>); ret($x) }} }
            match (e.api, N) {
                (Api::Direct, 1) => go!(1, |a, b| sc.resize_plane_u16(a, b)),
                (Api::Direct, 2) => go!(2, |a, b| sc.resize_cbcr_u16(a, b)),
                (Api::Direct, 3) => go!(3, |a, b| sc.resize_rgb_u16(a, b)),
                (Api::Direct, _) => go!(4, |a, b| sc.resize_rgba_u16(a, b, e.premul)),
                (_, 1) => go!(1, |a, b| a.scale(b, o)),
                (_, 2) => go!(2, |a, b| a.scale(b, o)),
                (_, 3) => go!(3, |a, b| a.scale(b, o)),
                _ => go!(4, |a, b| a.scale(b, o)),
            }
        }
    }
    const F: Fmt = Fmt::U16;
    fn from64(v: f64) -> u16 { v as u16 }
    fn to64(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self as u64 }
    fn of_bits(b: u64) -> u16 { b as u16 }
    fn canary(i: usize) -> u16 { 0x5ac3 ^ (i as u16).wrapping_mul(2909) }
    fn call(c: &Case, src: &[u16], dst: &mut [u16]) -> Ret {
        let s = c.scaler();
        match (c.api, c.ch) {
            (Api::Direct, 1) => ret(s.resize_plane_u16(&src_store::<u16, 1>(c, src), &mut dst_store::<u16, 1>(c, dst))),
            (Api::Direct, 2) => ret(s.resize_cbcr_u16(&src_store::<u16, 2>(c, src), &mut dst_store::<u16, 2>(c, dst))),
            (Api::Direct, 3) => ret(s.resize_rgb_u16(&src_store::<u16, 3>(c, src), &mut dst_store::<u16, 3>(c, dst))),
            (Api::Direct, _) => ret(s.resize_rgba_u16(&src_store::<u16, 4>(c, src), &mut dst_store::<u16, 4>(c, dst), c.premul)),
            (_, 1) => ret(src_store::<u16, 1>(c, src).scale(&mut dst_store::<u16, 1>(c, dst), opts(c))),
            (_, 2) => ret(src_store::<u16, 2>(c, src).scale(&mut dst_store::<u16, 2>(c, dst), opts(c))),
            (_, 3) => ret(src_store::<u16, 3>(c, src).scale(&mut dst_store::<u16, 3>(c, dst), opts(c))),
            _ => ret(src_store::<u16, 4>(c, src).scale(&mut dst_store::<u16, 4>(c, dst), opts(c))),
        }
    }
}
impl Smp for f32 {
    fn call_stores<const N: usize>(c: &Case, e: &crate::props::common::Ent, f: ResamplingFunction, s: &ImageStore<Self, N>, d: &mut ImageStoreMut<Self, N>) -> Ret {
        let mut sc = Scaler::new(f);
        if let Some(p) = c.policy() { sc.set_threading_policy(p); }
        let o = ScalingOptions { resampling_function: f, premultiply_alpha: e.premul, use_multithreading: c.thr != 0 && c.thr != i32::MIN };
        
        // N is the channel count: the casts only rename the constant
        unsafe {
            macro_rules! go { ($n:tt, |$a:ident, $b:ident| $x:expr) => {{ let $a = &*(s as *const ImageStore<Self, N> as *const ImageStore<Self, $n>); let $b = &mut *(d as *mut ImageStoreMut<Self, N> as *mut ImageStoreMut<Self, $n>); ret($x) }} }
            match (e.api, N) {
                (Api::Direct, 1) => go!(1, |a, b| sc.resize_plane_f32(a, b)),
                (Api::Direct, 2) => go!(2, |a, b| sc.resize_cbcr_f32(a, b)),
                (Api::Direct, 3) => go!(3, |a, b| sc.resize_rgb_f32(a, b)),
                (Api::Direct, _) => go!(4, |a, b| sc.resize_rgba_f32(a, b, e.premul)),
                (_, 1) => go!(1, |a, b| a.scale(b, o)),
                (_, 2) => go!(2, |a, b| a.scale(b, o)),
                (_, 3) => go!(3, |a, b| a.scale(b, o)),
                _ => go!(4, |a, b| a.scale(b, o)),
            }
        }
    }
    const F: Fmt = Fmt::F32;
    fn from64(v: f64) -> f32 { v as f32 }
    fn to64(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn of_bits(b: u64) -> f32 { f32::from_bits(b as u32) }
    fn canary(i: usize) -> f32 { -77777.25 - i as f32 }
    fn call(c: &Case, src: &[f32], dst: &mut [f32]) -> Ret {
        let s = c.scaler();
        match (c.api, c.ch) {
            (Api::Direct, 1) => ret(s.resize_plane_f32(&src_store::<f32, 1>(c, src), &mut dst_store::<f32, 1>(c, dst))),
            (Api::Direct, 2) => ret(s.resize_cbcr_f32(&src_store::<f32, 2>(c, src), &mut dst_store::<f32, 2>(c, dst))),
            (Api::Direct, 3) => ret(s.resize_rgb_f32(&src_store::<f32, 3>(c, src), &mut dst_store::<f32, 3>(c, dst))),
            (Api::Direct, _) => ret(s.resize_rgba_f32(&src_store::<f32, 4>(c, src), &mut dst_store::<f32, 4>(c, dst), c.premul)),
            (_, 1) => ret(src_store::<f32, 1>(c, src).scale(&mut dst_store::<f32, 1>(c, dst), opts(c))),
            (_, 2) => ret(src_store::<f32, 2>(c, src).scale(&mut dst_store::<f32, 2>(c, dst), opts(c))),
            (_, 3) => ret(src_store::<f32, 3>(c, src).scale(&mut dst_store::<f32, 3>(c, dst), opts(c))),
            _ => ret(src_store::<f32, 4>(c, src).scale(&mut dst_store::<f32, 4>(c, dst), opts(c))),
        }
    }
}
impl Smp for f16 {
    fn call_stores<const N: usize>(c: &Case, e: &crate::props::common::Ent, f: ResamplingFunction, s: &ImageStore<Self, N>, d: &mut ImageStoreMut<Self, N>) -> Ret {
        let mut sc = Scaler::new(f);
        if let Some(p) = c.policy() { sc.set_threading_policy(p); }
        let o = ScalingOptions { resampling_function: f, premultiply_alpha: e.premul, use_multithreading: c.thr != 0 && c.thr != i32::MIN };
        
        // N is the channel count: the casts only rename the constant
        unsafe {
            macro_rules! go { ($n:tt, |$a:ident, $b:ident| $x:expr) => {{ let $a = &*(s as *const ImageStore<Self, N> as *const ImageStore<Self, $n>); let $b = &mut *(d as *mut ImageStoreMut<Self, N> as *mut ImageStoreMut<Self, $n>); ret($x) }} }
            match (e.api, N) {
                (Api::Direct, 1) => go!(1, |a, b| sc.resize_plane_f16(a, b)),
                (Api::Direct, 2) => go!(2, |a, b| sc.resize_cbcr_f16(a, b)),
                (Api::Direct, 3) => go!(3, |a, b| sc.resize_rgb_f16(a, b)),
                (Api::Direct, _) => go!(4, |a, b| sc.resize_rgba_f16(a, b, e.premul)),
                (_, 1) => go!(1, |a, b| a.scale(b, o)),
                (_, 2) => go!(2, |a, b| a.scale(b, o)),
                (_, 3) => go!(3, |a, b| a.scale(b, o)),
                _ => go!(4, |a, b| a.scale(b, o)),
            }
        }
    }
    const F: Fmt = Fmt::F16;
    fn from64(v: f64) -> f16 { v as f16 }
    fn to64(self) -> f64 { self as f64 }
    fn bits(self) -> u64 { self.to_bits() as u64 }
    fn of_bits(b: u64) -> f16 { f16::from_bits(b as u16) }
    fn canary(i: usize) -> f16 { f16::from_bits(0xd400 ^ ((i as u16).wrapping_mul(37) & 0x3ff)) }
    fn call(c: &Case, src: &[f16], dst: &mut [f16]) -> Ret {
        let s = c.scaler();
        match (c.api, c.ch) {
            (Api::Direct, 1) => ret(s.resize_plane_f16(&src_store::<f16, 1>(c, src), &mut dst_store::<f16, 1>(c, dst))),
            (Api::Direct, 2) => ret(s.resize_cbcr_f16(&src_store::<f16, 2>(c, src), &mut dst_store::<f16, 2>(c, dst))),
            (Api::Direct, 3) => ret(s.resize_rgb_f16(&src_store::<f16, 3>(c, src), &mut dst_store::<f16, 3>(c, dst))),
            (Api::Direct, _) => ret(s.resize_rgba_f16(&src_store::<f16, 4>(c, src), &mut dst_store::<f16, 4>(c, dst), c.premul)),
            (_, 1) => ret(src_store::<f16, 1>(c, src).scale(&mut dst_store::<f16, 1>(c, dst), opts(c))),
            (_, 2) => ret(src_store::<f16, 2>(c, src).scale(&mut dst_store::<f16, 2>(c, dst), opts(c))),
            (_, 3) => ret(src_store::<f16, 3>(c, src).scale(&mut dst_store::<f16, 3>(c, dst), opts(c))),
            _ => ret(src_store::<f16, 4>(c, src).scale(&mut dst_store::<f16, 4>(c, dst), opts(c))),
        }
    }
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let m = format!("{i}").replace('\n', " ");
        LAST_PANIC.with(|p| *p.borrow_mut() = m);
    }));
}
/// Executes one library call; a panic inside the library is caught and reported as an outcome.
pub fn guarded<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}
pub fn call<T: Smp>(c: &Case, src: &[T], dst: &mut [T]) -> Ret {
    crate::guard::in_call(true);
    let r = guarded(|| { crate::step::in_call(true); let r = T::call(c, src, dst); crate::step::in_call(false); r });
    crate::step::in_call(false);
    crate::guard::in_call(false);
    match r { Ok(r) => r, Err(m) => Ret::Panic(m) }
}

/// Outcome of a call on logical (unpadded) sample arrays.
#[derive(Clone, Debug)]
pub struct Out {
    pub ret: Ret,
    pub px: Vec<f64>,
    /// index of a destination padding element that changed, if any
    pub pad: Option<usize>,
    /// whether the source buffer (including padding) is unchanged
    pub src_same: bool,
}

fn pack30(api: Api, p: &[f64]) -> u32 {
    let (r, g, b, a) = (p[0] as u32, p[1] as u32, p[2] as u32, p[3] as u32);
    let v = match api { Api::Ar30Host | Api::Ar30Net => a << 30 | b << 20 | g << 10 | r, _ => r << 22 | g << 12 | b << 2 | a };
    if matches!(api, Api::Ar30Net | Api::Ra30Net) { v.to_be() } else { v }
}
fn unpack30(api: Api, v: u32) -> [f64; 4] {
    let v = if matches!(api, Api::Ar30Net | Api::Ra30Net) { u32::from_be(v) } else { v };
    let m = 0x3ff;
    let (r, g, b, a) = match api { Api::Ar30Host | Api::Ar30Net => (v & m, v >> 10 & m, v >> 20 & m, v >> 30), _ => (v >> 22 & m, v >> 12 & m, v >> 2 & m, v & 3) };
    [r as f64, g as f64, b as f64, a as f64]
}
pub fn make_src<T: Smp>(c: &Case, px: &[f64], padval: Option<T>) -> Vec<T> {
    let (row, step) = (c.srow(), c.sstep());
    let mut v = Vec::with_capacity(step * c.sh as usize);
    for y in 0..c.sh as usize {
        if c.api.is_ar30() {
            for x in 0..c.sw as usize {
                let q = pack30(c.api, &px[(y * c.sw as usize + x) * 4..][..4]);
                v.extend(q.to_ne_bytes().iter().map(|b| T::from64(*b as f64)));
            }
        } else {
            v.extend(px[y * row..][..row].iter().map(|&x| T::from64(x)));
        }
        for k in row..step { v.push(padval.unwrap_or_else(|| T::canary(y * step + k + 7))); }
    }
    v
}
pub fn read_dst<T: Smp>(c: &Case, d: &[T]) -> Vec<f64> {
    let (row, step) = (c.drow(), c.dstep());
    let mut px = Vec::with_capacity(c.drow() * c.dh as usize);
    for y in 0..c.dh as usize {
        let r = &d[y * step..][..row];
        if c.api.is_ar30() {
            for q in r.chunks_exact(4) {
                let b: [u8; 4] = std::array::from_fn(|i| q[i].to64() as u8);
                px.extend(unpack30(c.api, u32::from_ne_bytes(b)));
            }
        } else { px.extend(r.iter().map(|x| x.to64())); }
    }
    px
}
/// What the row padding of the source holds.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pad { Canary, Ones, Zero }
/// What the destination holds before the call.
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Prior { Canary, Ones, Zero }
fn prior<T: Smp>(p: Prior, i: usize) -> T { match p { Prior::Canary => T::canary(i), Prior::Ones => T::of_bits(!0), Prior::Zero => T::default() } }
pub fn run_t<T: Smp>(c: &Case, px: &[f64], pad: Pad, pr: Prior) -> Out {
    let src = make_src::<T>(c, px, match pad { Pad::Canary => None, Pad::Ones => Some(T::of_bits(!0)), Pad::Zero => Some(T::default()) });
    let keep = if c.sw * c.sh < 64 * 64 { Some(src.clone()) } else { None };
    let (row, step) = (c.drow(), c.dstep());
    let mut dst: Vec<T> = (0..step * c.dh as usize).map(|i| prior(pr, i)).collect();
    let r = call(c, &src, &mut dst);
    let mut pad = None;
    if step != row {
        for (i, v) in dst.iter().enumerate() {
            if i % step >= row && v.bits() != prior::<T>(pr, i).bits() { pad = Some(i); break; }
        }
    }
    let src_same = keep.map(|k| k.iter().zip(&src).all(|(a, b)| a.bits() == b.bits())).unwrap_or(true);
    Out { ret: r, px: read_dst(c, &dst), pad, src_same }
}
pub fn run_with(c: &Case, px: &[f64], pad: Pad, pr: Prior) -> Out {
    match c.fmt { Fmt::U8 => run_t::<u8>(c, px, pad, pr), Fmt::U16 => run_t::<u16>(c, px, pad, pr), Fmt::F32 => run_t::<f32>(c, px, pad, pr), Fmt::F16 => run_t::<f16>(c, px, pad, pr) }
}
pub fn run(c: &Case, px: &[f64]) -> Out { run_with(c, px, Pad::Canary, Prior::Canary) }
/// Rounds a value to what the sample type of the case can hold.
pub fn quant(c: &Case, v: f64) -> f64 {
    match c.fmt { Fmt::U8 | Fmt::U16 => v.round().clamp(0., c.max()), Fmt::F32 => v as f32 as f64, Fmt::F16 => v as f16 as f64 }
}
