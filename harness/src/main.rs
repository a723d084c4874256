//! Line-protocol driver: every input line is one session (a sequence of public API calls on one
//! decoder object); every output line is what was observable after each call.
//!
//! in :  <id> <op>;<op>;...
//!   n:<cs>,<unsafe 0/1>,<threads>,<maxw>,<maxh>,<maxscans>,<strict 0/1>   ('-' = default)
//!   d:<hex>  decode_buffer      h:<hex> read_headers     f:<path> decode_file
//!   sr       rgba()             sl:<w>,<h> set_limits    sc:<cs> set_output_colorspace
//!   st:<n>   set_num_threads    q  (query only)
//!   D:<hex>  F:<path>           as d, f, with a digest in place of the pixels
//!   no:<k>=<v>/<k>=<v>...       new_with_options, after these setter calls on ZuneJpegOptions, in order
//!   og:<k>=<v>/...              the same setter calls; info = what the getters of ZuneJpegOptions then say
//!                               (k: cs un th mw mh ms st)
//!   W:<path>:<hex>              writes this file (the time of its last change is kept)
//!   G:<path>                    decode_buffer of the bytes of this file, digest
//!   C<w>x<h>:<hex>              decode_buffer; the pixels are given as minimum and maximum of each channel in each
//!                               cell of w by h pixels (left to right, top to bottom)
//!   H<w>x<h>:<hex>              decode_buffer; the pixels are given as a number of four bytes (less than 2^31) for each cell, a
//!                               digest of its pixels
//!   sch:<n>.<n>...             (feature sched only) order in which the jobs of the thread pool run
//! out:  <id> <res>|<res>|...
//!   res = <kind>,<width>,<height>,<info: - or wxhxc/p/s/xd/yd>,<out cs>,<len>,<hex pixels>[,<bytes of memory needed>]
//!   kind: ok | err:<Variant>[=<what it carries>] | panic:<loc>
#![allow(deprecated)]
use std::io::{BufRead, Write};
use std::num::NonZeroU32;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};
use std::sync::Mutex;
use std::time::Duration;

use zune_jpeg::errors::{DecodeErrors, UnsupportedSchemes};
use zune_jpeg::{ColorSpace, Decoder, ZuneJpegOptions};

/// An allocator that gives exactly the alignment asked for and never a coarser one, new memory filled with A5.
#[cfg(feature = "odd")]
struct Odd;
#[cfg(feature = "odd")]
unsafe impl std::alloc::GlobalAlloc for Odd
{
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8
    {
        let big = std::alloc::Layout::from_size_align_unchecked(l.size() + 2 * l.align().max(64), l.align().max(64) * 2);
        let p = std::alloc::System.alloc(big);
        if p.is_null() { return p; }
        let p = p.add(l.align());
        if l.size() < 1 << 22 { p.write_bytes(0xA5, l.size()); }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout)
    {
        let big = std::alloc::Layout::from_size_align_unchecked(l.size() + 2 * l.align().max(64), l.align().max(64) * 2);
        std::alloc::System.dealloc(p.sub(l.align()), big);
    }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8
    {
        let p = self.alloc(l);
        if !p.is_null() { p.write_bytes(0, l.size()); }
        p
    }
}
#[cfg(feature = "odd")]
#[global_allocator]
static ODD: Odd = Odd;

/// Counts the bytes in use.
#[cfg(feature = "count")]
struct Count;
#[cfg(feature = "count")]
static LIVE: AtomicU64 = AtomicU64::new(0);
#[cfg(feature = "count")]
static PEAK: AtomicU64 = AtomicU64::new(0);
#[cfg(feature = "count")]
fn grown(n: usize)
{
    let v = LIVE.fetch_add(n as u64, Ordering::Relaxed) + n as u64;
    PEAK.fetch_max(v, Ordering::Relaxed);
}
#[cfg(feature = "count")]
unsafe impl std::alloc::GlobalAlloc for Count
{
    unsafe fn alloc(&self, l: std::alloc::Layout) -> *mut u8 { grown(l.size()); std::alloc::System.alloc(l) }
    unsafe fn alloc_zeroed(&self, l: std::alloc::Layout) -> *mut u8 { grown(l.size()); std::alloc::System.alloc_zeroed(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: std::alloc::Layout)
    {
        LIVE.fetch_sub(l.size() as u64, Ordering::Relaxed);
        std::alloc::System.dealloc(p, l);
    }
    unsafe fn realloc(&self, p: *mut u8, l: std::alloc::Layout, n: usize) -> *mut u8
    {
        if n >= l.size() { grown(n - l.size()) } else { LIVE.fetch_sub((l.size() - n) as u64, Ordering::Relaxed); }
        std::alloc::System.realloc(p, l, n)
    }
}
#[cfg(feature = "count")]
#[global_allocator]
static COUNT: Count = Count;

static LOC: Mutex<String> = Mutex::new(String::new());
static BEAT: AtomicU64 = AtomicU64::new(0);

fn cs(s: &str) -> ColorSpace
{
    match s
    {
        "RGB" => ColorSpace::RGB,
        "GRAY" => ColorSpace::GRAYSCALE,
        "YCC" => ColorSpace::YCbCr,
        "RGBA" => ColorSpace::RGBA,
        "RGBX" => ColorSpace::RGBX,
        "CMYK" => ColorSpace::CMYK,
        "YCCK" => ColorSpace::YCCK,
        _ => panic!("bad cs {s}"),
    }
}
fn cs_name(c: ColorSpace) -> &'static str
{
    match c
    {
        ColorSpace::RGB => "RGB",
        ColorSpace::GRAYSCALE => "GRAY",
        ColorSpace::YCbCr => "YCC",
        ColorSpace::RGBA => "RGBA",
        ColorSpace::RGBX => "RGBX",
        ColorSpace::CMYK => "CMYK",
        ColorSpace::YCCK => "YCCK",
    }
}
/// the variant, with what it carries where that is not free text; `Blank` if the error has no text
fn err_kind(e: &DecodeErrors) -> String
{
    if format!("{e}").trim().is_empty() || format!("{e:?}").trim().is_empty() { return "Blank".to_string(); }
    match e
    {
        DecodeErrors::IllegalMagicBytes(b) => format!("IllegalMagicBytes={b}"),
        DecodeErrors::Unsupported(x) => format!("Unsupported={}", match x
        {
            UnsupportedSchemes::ExtendedSequentialHuffman => "ExtendedSequentialHuffman",
            UnsupportedSchemes::LosslessHuffman => "LosslessHuffman",
            UnsupportedSchemes::ExtendedSequentialDctArithmetic => "ExtendedSequentialDctArithmetic",
            UnsupportedSchemes::ProgressiveDctArithmetic => "ProgressiveDctArithmetic",
            UnsupportedSchemes::LosslessArithmetic => "LosslessArithmetic",
            #[allow(unreachable_patterns)]
            _ => "Other",
            #[allow(unreachable_patterns)]
            _ => "Other",
        }),
        _ => err_name(e).to_string(),
    }
}
fn err_name(e: &DecodeErrors) -> &'static str
{
    match e
    {
        DecodeErrors::Format(_) => "Format",
        DecodeErrors::FormatStatic(_) => "FormatStatic",
        DecodeErrors::IllegalMagicBytes(_) => "IllegalMagicBytes",
        DecodeErrors::HuffmanDecode(_) => "HuffmanDecode",
        DecodeErrors::ZeroError => "ZeroError",
        DecodeErrors::DqtError(_) => "DqtError",
        DecodeErrors::SosError(_) => "SosError",
        DecodeErrors::SofError(_) => "SofError",
        DecodeErrors::Unsupported(_) => "Unsupported",
        DecodeErrors::MCUError(_) => "MCUError",
        DecodeErrors::ExhaustedData => "ExhaustedData",
        DecodeErrors::LargeDimensions(_) => "LargeDimensions",
        #[allow(unreachable_patterns)]
        _ => "Other",
    }
}
fn unhex(s: &str) -> Vec<u8>
{
    let b = s.as_bytes();
    let d = |c: u8| if c <= b'9' { c - b'0' } else { c - b'a' + 10 };
    b.chunks_exact(2).map(|p| d(p[0]) * 16 + d(p[1])).collect()
}
fn hex(v: &[u8], out: &mut String)
{
    const D: &[u8; 16] = b"0123456789abcdef";
    out.reserve(v.len() * 2);
    for b in v
    {
        out.push(D[(b >> 4) as usize] as char);
        out.push(D[(b & 15) as usize] as char);
    }
}

fn options(a: &str) -> ZuneJpegOptions
{
    let f: Vec<&str> = a.split(',').collect();
    let mut o = ZuneJpegOptions::new();
    let get = |i: usize| f.get(i).copied().filter(|x| *x != "-" && !x.is_empty());
    if let Some(x) = get(0) { o = o.set_out_colorspace(cs(x)); }
    if let Some(x) = get(1) { o = o.set_use_unsafe(x == "1"); }
    if let Some(x) = get(2) { o = o.set_num_threads(NonZeroU32::new(x.parse().unwrap()).unwrap()); }
    if let Some(x) = get(3) { o = o.set_max_width(x.parse().unwrap()); }
    if let Some(x) = get(4) { o = o.set_max_height(x.parse().unwrap()); }
    if let Some(x) = get(5) { o = o.set_max_scans(x.parse().unwrap()); }
    if let Some(x) = get(6) { o = o.set_strict_mode(x == "1"); }
    o
}

/// the setters of `ZuneJpegOptions`, called in the order given
fn options_seq(a: &str) -> ZuneJpegOptions
{
    let mut o = ZuneJpegOptions::new();
    for kv in a.split('/').filter(|x| !x.is_empty())
    {
        let (k, x) = kv.split_once('=').unwrap();
        o = match k
        {
            "cs" => o.set_out_colorspace(cs(x)),
            "un" => o.set_use_unsafe(x == "1"),
            "th" => o.set_num_threads(NonZeroU32::new(x.parse().unwrap()).unwrap()),
            "mw" => o.set_max_width(x.parse().unwrap()),
            "mh" => o.set_max_height(x.parse().unwrap()),
            "ms" => o.set_max_scans(x.parse().unwrap()),
            "st" => o.set_strict_mode(x == "1"),
            _ => panic!("bad option {k}"),
        };
    }
    o
}

fn digest(v: &[u8]) -> [u8; 16]
{
    let (mut a, mut b) = (0xcbf2_9ce4_8422_2325_u64, 0x9e37_79b9_7f4a_7c15_u64);
    for c in v
    {
        a = (a ^ u64::from(*c)).wrapping_mul(0x0100_0000_01b3);
        b = b.rotate_left(7).wrapping_add(u64::from(*c)).wrapping_mul(0xd6e8_feb8_6659_fd93);
    }
    let mut o = [0; 16];
    o[..8].copy_from_slice(&a.to_be_bytes());
    o[8..].copy_from_slice(&b.to_be_bytes());
    o
}

fn cells(px: &[u8], w: usize, n: usize, cw: usize, ch: usize) -> Vec<u8>
{
    let mut out = vec![];
    for band in px.chunks(w * n * ch)
    {
        for x in (0..w).step_by(cw)
        {
            for c in 0..n
            {
                let (mut lo, mut hi) = (255, 0);
                for row in band.chunks(w * n)
                {
                    for p in x..(x + cw).min(w)
                    {
                        let v = row.get(p * n + c).copied().unwrap_or(0);
                        lo = lo.min(v);
                        hi = hi.max(v);
                    }
                }
                out.push(lo);
                out.push(hi);
            }
        }
    }
    out
}

fn cell_digests(px: &[u8], w: usize, n: usize, cw: usize, ch: usize) -> Vec<u8>
{
    let mut out = vec![];
    for band in px.chunks(w * n * ch)
    {
        for x in (0..w).step_by(cw)
        {
            let mut a = 0xcbf2_9ce4_8422_2325_u64;
            for row in band.chunks(w * n)
            {
                for v in &row[(x * n).min(row.len())..((x + cw) * n).min(row.len())]
                {
                    a = (a.rotate_left(5) ^ u64::from(*v)).wrapping_mul(0xd6e8_feb8_6659_fd93);
                }
            }
            out.extend_from_slice(&((a >> 33) as u32).to_be_bytes());
        }
    }
    out
}

fn session(ops: &str) -> String
{
    let mut out = String::new();
    let mut dec: Option<Decoder> = None;
    let mut got = ZuneJpegOptions::new();
    for (i, op) in ops.split(';').enumerate()
    {
        #[cfg(feature = "count")]
        let before = { let v = LIVE.load(Ordering::SeqCst); PEAK.store(v, Ordering::SeqCst); v };
        if i > 0 { out.push('|'); }
        let (k, a) = op.split_once(':').unwrap_or((op, ""));
        let mut data: Option<Vec<u8>> = None;
        LOC.lock().unwrap().clear();
        let r = catch_unwind(AssertUnwindSafe(|| -> Result<Option<Vec<u8>>, DecodeErrors> {
            if k == "n"
            {
                dec = Some(if a.is_empty() { Decoder::new() } else { Decoder::new_with_options(options(a)) });
                return Ok(None);
            }
            #[cfg(feature = "sched")]
            if k == "sch"
            {
                scoped_threadpool::set_schedule(a.split('.').filter_map(|x| x.parse().ok()).collect());
                if dec.is_none() { dec = Some(Decoder::new()); }
                return Ok(None);
            }
            if k == "no" { dec = Some(Decoder::new_with_options(options_seq(a))); return Ok(None); }
            if k == "og" { got = options_seq(a); if dec.is_none() { dec = Some(Decoder::new()); } return Ok(None); }
            let d = dec.as_mut().expect("no decoder");
            match k
            {
                "d" | "D" => d.decode_buffer(&unhex(a)).map(Some),
                "G" => d.decode_buffer(&std::fs::read(a).expect("no file")).map(Some),
                _ if k.starts_with('C') || k.starts_with('H') => d.decode_buffer(&unhex(a)).map(Some),
                "f" | "F" => d.decode_file(a).map(Some),
                "h" => d.read_headers(&unhex(a)).map(|()| None),
                "sr" => { d.rgba(); Ok(None) }
                "sl" => { let (x, y) = a.split_once(',').unwrap(); d.set_limits(x.parse().unwrap(), y.parse().unwrap()); Ok(None) }
                "sc" => { d.set_output_colorspace(cs(a)); Ok(None) }
                "st" => d.set_num_threads(a.parse().unwrap()).map(|()| None),
                "W" =>
                {
                    // new contents, the time of the last change stays what it was
                    let (p, x) = a.rsplit_once(':').unwrap();
                    let t = std::fs::metadata(p).and_then(|m| m.modified());
                    std::fs::write(p, unhex(x)).expect("not written");
                    if let Ok(t) = t { let _ = std::fs::File::options().write(true).open(p).and_then(|f| f.set_modified(t)); }
                    Ok(None)
                }
                "q" => Ok(None),
                _ => panic!("bad op {k}"),
            }
        }));
        #[cfg(feature = "count")]
        let needed = PEAK.load(Ordering::SeqCst) - before;
        let kind = match r
        {
            Ok(Ok(v)) => { data = v; "ok".to_string() }
            Ok(Err(e)) => catch_unwind(AssertUnwindSafe(|| format!("err:{}", err_kind(&e)))).unwrap_or_else(|_| format!("panic:{}", LOC.lock().unwrap())),
            Err(_) => format!("panic:{}", LOC.lock().unwrap()),
        };
        let d = dec.as_ref().expect("no decoder");
        let info = match d.info()
        {
            None => "-".to_string(),
            Some(f) => format!("{}x{}x{}/{}/{:?}/{}/{}", f.width, f.height, f.components, f.pixel_density,
                               f.sof, f.x_density, f.y_density).replace(',', "").replace(' ', "_"),
        };
        let info = if k == "og"
        {
            format!("{}/{}/{}/{}/{}/{}/{}", cs_name(got.get_out_colorspace()), u8::from(got.get_use_unsafe()),
                    got.get_threads(), got.get_max_width(), got.get_max_height(), got.get_max_scans(),
                    u8::from(got.get_strict_mode()))
        }
        else { info };
        out.push_str(&format!("{},{},{},{},{},{},", kind, d.width(), d.height(), info,
                              cs_name(d.get_output_colorspace()),
                              data.as_ref().map_or(-1, |v| v.len() as i64)));
        // the fourth byte of RGBX is "anything": it is not part of the observation
        if let (Some(v), ColorSpace::RGBX) = (&mut data, d.get_output_colorspace())
        {
            v.chunks_exact_mut(4).for_each(|p| p[3] = 0);
        }
        if k.starts_with('C') || k.starts_with('H')
        {
            if let Some(v) = &mut data
            {
                let (w, h) = k[1..].split_once('x').unwrap();
                let f = if k.starts_with('C') { cells } else { cell_digests };
                *v = f(v, usize::from(d.width()), d.get_output_colorspace().num_components(), w.parse().unwrap(), h.parse().unwrap());
            }
        }
        if let Some(v) = &data { if k == "D" || k == "F" || k == "G" { hex(&digest(v), &mut out) } else { hex(v, &mut out) } }
        #[cfg(feature = "count")]
        out.push_str(&format!(",{needed}"));
    }
    out
}

fn main()
{
    std::panic::set_hook(Box::new(|p| {
        let mut l = LOC.lock().unwrap_or_else(|e| e.into_inner());
        if l.is_empty()
        {
            let s = p.location().map_or(String::from("?"), |x| format!("{}:{}", x.file(), x.line()));
            *l = s.replace(',', "").replace('|', "").replace(';', "");
        }
    }));
    let limit: u64 = std::env::var("RUNNER_TIMEOUT_S").ok().and_then(|x| x.parse().ok()).unwrap_or(20);
    // watchdog: a session that makes no progress for `limit` seconds is a hang (exit code 77)
    std::thread::spawn(move || {
        let (mut last, mut since) = (0, 0);
        loop
        {
            std::thread::sleep(Duration::from_millis(250));
            let b = BEAT.load(Ordering::SeqCst);
            if b != last { last = b; since = 0; }
            else if b % 2 == 1 { since += 1; if since > limit * 4 { std::process::exit(77); } }
        }
    });
    // sessions run `par` at a time, each in a thread of its own
    let par: usize = std::env::var("RUNNER_PAR").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let stdin = std::io::stdin();
    let stdout = std::io::stdout();
    let mut w = std::io::BufWriter::new(stdout.lock());
    let mut lines = stdin.lock().lines().map(|l| l.unwrap()).filter(|l| !l.is_empty());
    loop
    {
        let batch: Vec<String> = lines.by_ref().take(par).collect();
        if batch.is_empty() { break; }
        BEAT.fetch_add(1, Ordering::SeqCst);
        let run = |l: &String| { let (id, ops) = l.split_once(' ').unwrap(); format!("{id} {}", session(ops)) };
        let res: Vec<String> = if par == 1 { batch.iter().map(run).collect() }
        else
        {
            std::thread::scope(|s| {
                let hs: Vec<_> = batch.iter().map(|l| s.spawn(move || run(l))).collect();
                hs.into_iter().map(|h| h.join().unwrap()).collect()
            })
        };
        BEAT.fetch_add(1, Ordering::SeqCst);
        for r in res { writeln!(w, "{r}").unwrap(); }
        w.flush().unwrap();
    }
}
