//! Which CPU extensions an instruction needs, from the disassembly of this executable.
use std::collections::HashMap;

pub struct Insn { pub addr: usize, pub needs: u64, pub text: u32 }
pub struct Isa { pub insns: Vec<Insn>, pub texts: Vec<String>, pub syms: Vec<(usize, String)>, pub by_ext: Vec<(String, usize)> }
pub const EXT: &[&str] = &["sse3", "ssse3", "sse4.1", "sse4.2", "popcnt", "lzcnt", "movbe", "bmi1", "bmi2", "avx", "f16c", "fma", "avx2", "avxvnni", "avx512f", "avx512cd", "avx512bw", "avx512dq", "avx512vl",
    "avx512ifma", "avx512vbmi", "avx512vbmi2", "avx512bitalg", "avx512vpopcntdq", "avx512vnni", "avx512bf16", "avx512fp16", "gfni", "vaes", "vpclmulqdq", "aes", "pclmulqdq", "sha", "fma4", "adx"];
fn bit(n: &str) -> u64 { 1 << EXT.iter().position(|e| *e == n).unwrap() }
fn any(m: &str, l: &[&str]) -> bool { l.contains(&m) }

/// Extension bits of one instruction in AT&T syntax; 0 for the x86-64 baseline.
pub fn needs(bytes: &[u8], m: &str, ops: &str) -> u64 {
    // legacy prefixes
    let mut p = 0;
    while p < bytes.len() && matches!(bytes[p], 0x66 | 0xf2 | 0xf3 | 0x2e | 0x36 | 0x3e | 0x26 | 0x64 | 0x65 | 0x67 | 0xf0) { p += 1; }
    let b0 = bytes.get(p).copied().unwrap_or(0);
    let (evex, vex) = (b0 == 0x62, b0 == 0xc4 || b0 == 0xc5);
    if evex { return evex_needs(bytes[p + 1], m, ops) }
    if vex { return vex_needs(m, ops) }
    match m {
        _ if any(m, &["addsubps", "addsubpd", "haddps", "haddpd", "hsubps", "hsubpd", "lddqu", "movddup", "movshdup", "movsldup"]) => bit("sse3"),
        _ if m.starts_with("pabs") || m.starts_with("psign") || any(m, &["palignr", "phaddw", "phaddd", "phaddsw", "phsubw", "phsubd", "phsubsw", "pmaddubsw", "pmulhrsw", "pshufb"]) => bit("ssse3"),
        _ if m.starts_with("blend") || m.starts_with("pblend") || m.starts_with("pmovsx") || m.starts_with("pmovzx") || m.starts_with("round")
            || any(m, &["dpps", "dppd", "extractps", "insertps", "movntdqa", "mpsadbw", "packusdw", "pcmpeqq", "pextrb", "pextrd", "pextrq", "pinsrb", "pinsrd", "pinsrq", "phminposuw", "pmaxsb", "pmaxsd", "pmaxud", "pmaxuw", "pminsb", "pminsd", "pminud", "pminuw", "pmuldq", "pmulld", "ptest"]) => bit("sse4.1"),
        // the memory form of pextrw is newer than the register form
        "pextrw" => if ops.ends_with(')') { bit("sse4.1") } else { 0 },
        _ if m.starts_with("pcmpestr") || m.starts_with("pcmpistr") || m.starts_with("crc32") || m == "pcmpgtq" => bit("sse4.2"),
        "popcnt" | "popcntl" | "popcntq" => bit("popcnt"),
        "lzcnt" | "lzcntl" | "lzcntq" => bit("lzcnt"),
        _ if m.starts_with("movbe") => bit("movbe"),
        _ if m.starts_with("aesenc") || m.starts_with("aesdec") || m.starts_with("aesimc") || m.starts_with("aeskey") => bit("aes"),
        _ if m.starts_with("pclmul") => bit("pclmulqdq"),
        _ if m.starts_with("sha1") || m.starts_with("sha256") => bit("sha"),
        _ if m.starts_with("gf2p8") => bit("gfni"),
        "adcx" | "adox" => bit("adx"),
        _ => 0,
    }
}
fn mask_op(m: &str) -> Option<u64> {
    if !m.starts_with('k') { return None }
    Some(bit("avx512f") | match m {
        "kunpckbw" => 0,
        "kaddb" | "kaddw" | "ktestb" | "ktestw" => bit("avx512dq"),
        _ if m.ends_with('b') => bit("avx512dq"),
        _ if m.ends_with('w') => 0,
        _ => bit("avx512bw"),
    })
}
fn vex_needs(m: &str, ops: &str) -> u64 {
    let ymm = ops.contains("%ymm");
    if let Some(k) = mask_op(m) { return k }
    match m {
        "andn" | "bextr" | "blsi" | "blsr" | "blsmsk" => return bit("bmi1"),
        "bzhi" | "mulx" | "pdep" | "pext" | "rorx" | "sarx" | "shlx" | "shrx" => return bit("bmi2"),
        _ => {}
    }
    let avx = bit("avx");
    if any(m, &["vfmaddss", "vfmaddsd", "vfmaddps", "vfmaddpd", "vfmsubss", "vfmsubsd", "vfmsubps", "vfmsubpd", "vfnmaddss", "vfnmaddsd", "vfnmaddps", "vfnmaddpd"]) { return avx | bit("fma4") }
    if m.starts_with("vfmadd") || m.starts_with("vfmsub") || m.starts_with("vfnmadd") || m.starts_with("vfnmsub") { return avx | bit("fma") }
    if m == "vcvtph2ps" || m == "vcvtps2ph" { return avx | bit("f16c") }
    if m.starts_with("vpdp") { return avx | bit("avx2") | bit("avxvnni") }
    if m.starts_with("vgf2p8") { return avx | bit("gfni") }
    if m.starts_with("vaes") { return avx | if ymm { bit("vaes") } else { bit("aes") } }
    if m.starts_with("vpclmul") { return avx | if ymm { bit("vpclmulqdq") } else { bit("pclmulqdq") } }
    let avx2 = avx | bit("avx2");
    if any(m, &["vbroadcasti128", "vinserti128", "vextracti128", "vperm2i128", "vpblendd", "vpermd", "vpermq", "vpermps", "vpermpd"]) || m.starts_with("vpbroadcast") || m.starts_with("vpgather") || m.starts_with("vgather") || m.starts_with("vpsllv") || m.starts_with("vpsrlv") || m.starts_with("vpsrav") || m.starts_with("vpmaskmov") { return avx2 }
    // from a register the float broadcasts are newer than from memory
    if any(m, &["vbroadcastss", "vbroadcastsd"]) { return if ops.starts_with("%xmm") { avx2 } else { avx } }
    if ymm && (m.starts_with("vp") || m == "vmpsadbw" || m == "vmovntdqa") && !any(m, &["vptest", "vpermilps", "vpermilpd", "vperm2f128"]) { return avx2 }
    avx
}
fn evex_needs(b1: u8, m: &str, ops: &str) -> u64 {
    let f = bit("avx512f");
    let scalar = m.ends_with("ss") || m.ends_with("sd") || m.ends_with("sh") || any(m, &["vmovd", "vmovq", "vmovw", "vmovlps", "vmovhps", "vmovlpd", "vmovhpd", "vmovlhps", "vmovhlps", "vextractps", "vinsertps"]) || m.starts_with("vpextr") || m.starts_with("vpinsr")
        || m.starts_with("vcvtsi2") || m.starts_with("vcvtusi2") || m.ends_with("2si") || m.ends_with("2usi") || (m.starts_with("vcvtsi") || m.starts_with("vcvtusi"));
    let mut n = f;
    if !scalar && !ops.contains("%zmm") { n |= bit("avx512vl"); }
    if b1 & 7 == 5 || b1 & 7 == 6 { return n | bit("avx512fp16") }
    // map 3 also holds half precision compares and class tests
    if m.starts_with("vcmp") && (m.ends_with("ph") || m.ends_with("sh")) || any(m, &["vfpclassph", "vfpclassphx", "vgetmantph", "vreduceph", "vrndscaleph", "vfpclasssh", "vgetmantsh", "vreducesh", "vrndscalesh"]) { return n | bit("avx512fp16") }
    let tail = |p: &str, ends: &[&str]| m.starts_with(p) && ends.contains(&&m[p.len()..]);
    let bw = ["b", "w"];
    if ["vpadd", "vpsub", "vpavg", "vpmins", "vpminu", "vpmaxs", "vpmaxu", "vpabs", "vpblendm", "vpbroadcast", "vptestm", "vptestnm", "vpadds", "vpaddus", "vpsubs", "vpsubus", "vpinsr", "vpextr"].iter().any(|p| tail(p, &bw))
        || (m.starts_with("vpcmp") && (m.ends_with('b') || m.ends_with('w')))
        || any(m, &["vmovdqu8", "vmovdqu16", "vpackssdw", "vpackusdw", "vpacksswb", "vpackuswb", "vpalignr", "vpermw", "vpermi2w", "vpermt2w", "vpmaddubsw", "vpmaddwd", "vpmovb2m", "vpmovw2m", "vpmovm2b", "vpmovm2w", "vpmovwb", "vpmovswb", "vpmovuswb", "vpmovsxbw", "vpmovzxbw",
            "vpmulhrsw", "vpmulhuw", "vpmulhw", "vpmullw", "vpsadbw", "vdbpsadbw", "vpshufb", "vpshufhw", "vpshuflw", "vpslldq", "vpsrldq", "vpsllw", "vpsllvw", "vpsraw", "vpsravw", "vpsrlw", "vpsrlvw", "vpunpckhbw", "vpunpckhwd", "vpunpcklbw", "vpunpcklwd"]) { return n | bit("avx512bw") }
    if any(m, &["vandps", "vandpd", "vandnps", "vandnpd", "vorps", "vorpd", "vxorps", "vxorpd", "vpmullq", "vinsertf32x8", "vinserti32x8", "vinsertf64x2", "vinserti64x2", "vextractf32x8", "vextracti32x8", "vextractf64x2", "vextracti64x2", "vbroadcastf32x2", "vbroadcasti32x2", "vbroadcastf32x8", "vbroadcasti32x8", "vbroadcastf64x2", "vbroadcasti64x2",
        "vpmovm2d", "vpmovm2q", "vpmovd2m", "vpmovq2m", "vpextrd", "vpextrq", "vpinsrd", "vpinsrq"]) || m.starts_with("vfpclass") || m.starts_with("vrange") || m.starts_with("vreduce") || (m.starts_with("vcvt") && (m.contains("qq") || m.contains("uqq"))) { return n | bit("avx512dq") }
    if any(m, &["vpermb", "vpermi2b", "vpermt2b", "vpmultishiftqb"]) { return n | bit("avx512vbmi") }
    if m.starts_with("vpshld") || m.starts_with("vpshrd") || any(m, &["vpcompressb", "vpcompressw", "vpexpandb", "vpexpandw"]) { return n | bit("avx512vbmi2") }
    if m.starts_with("vpdp") { return n | bit("avx512vnni") }
    if any(m, &["vpopcntb", "vpopcntw", "vpshufbitqmb"]) { return n | bit("avx512bitalg") }
    if any(m, &["vpopcntd", "vpopcntq"]) { return n | bit("avx512vpopcntdq") }
    if m.starts_with("vpmadd52") { return n | bit("avx512ifma") }
    if m.starts_with("vplzcnt") || m.starts_with("vpconflict") || m.starts_with("vpbroadcastmb") || m.starts_with("vpbroadcastmw") { return n | bit("avx512cd") }
    if m.contains("bf16") { return n | bit("avx512bf16") }
    if m.starts_with("vgf2p8") { return n | bit("gfni") }
    if m.starts_with("vaes") { return n | bit("vaes") }
    if m.starts_with("vpclmul") { return n | bit("vpclmulqdq") }
    n
}
/// Disassembles this executable; None if there is no disassembler.
pub fn load() -> Isa {
    let exe = std::fs::read_link("/proc/self/exe").expect("harness: exe");
    let out = std::process::Command::new("objdump").args(["-d", "-w", "-C", "-j", ".text"]).arg(&exe).output().expect("harness: objdump");
    assert!(out.status.success(), "harness: objdump failed");
    let text = String::from_utf8_lossy(&out.stdout);
    let mut r = Isa { insns: vec![], texts: vec![], syms: vec![], by_ext: vec![] };
    let mut ids: HashMap<String, u32> = HashMap::new();
    let mut skip = false;
    let mut count = vec![0usize; EXT.len()];
    for l in text.lines() {
        if !l.starts_with(' ') {
            if let Some((a, n)) = l.split_once(" <") {
                if let Ok(a) = usize::from_str_radix(a, 16) {
                    let n = n.trim_end_matches(">:").to_string();
                    // the compiler's support library asks the processor itself, so it sees the real one
                    skip = n.contains("compiler_builtins") || n.contains("std_detect");
                    r.syms.push((a, n));
                }
            }
            continue
        }
        if skip { continue }
        let mut f = l.trim_start().splitn(3, '\t');
        let (Some(a), Some(by), Some(t)) = (f.next(), f.next(), f.next()) else { continue };
        let Ok(addr) = usize::from_str_radix(a.trim_end_matches(':'), 16) else { continue };
        let bytes: Vec<u8> = by.split_whitespace().filter_map(|x| u8::from_str_radix(x, 16).ok()).collect();
        let mut words = t.split_whitespace().peekable();
        while let Some(w) = words.peek() { if w.starts_with('{') || matches!(*w, "rep" | "repz" | "repnz" | "data16" | "cs" | "ds" | "lock" | "notrack" | "bnd" | "addr32") || w.starts_with("rex") { words.next(); } else { break } }
        let Some(m) = words.next() else { continue };
        let ops = words.next().unwrap_or("");
        let n = needs(&bytes, m, ops);
        if n == 0 { continue }
        for (k, c) in count.iter_mut().enumerate() { if n >> k & 1 == 1 { *c += 1; } }
        let id = match ids.get(m) { Some(i) => *i, None => { let i = r.texts.len() as u32; r.texts.push(m.to_string()); ids.insert(m.to_string(), i); i } };
        r.insns.push(Insn { addr, needs: n, text: id });
    }
    r.by_ext = EXT.iter().zip(count).filter(|x| x.1 > 0).map(|(e, c)| (e.to_string(), c)).collect();
    r
}
impl Isa {
    pub fn symbol(&self, addr: usize) -> &str { let k = self.syms.partition_point(|s| s.0 <= addr); if k == 0 { "?" } else { &self.syms[k - 1].1 } }
}
pub fn mask(on: &[&str]) -> u64 { EXT.iter().enumerate().filter(|(_, e)| on.contains(e)).fold(0, |m, (k, _)| m | 1 << k) }
pub fn names(m: u64) -> String { EXT.iter().enumerate().filter(|(k, _)| m >> k & 1 == 1).map(|x| *x.1).collect::<Vec<_>>().join("+") }
