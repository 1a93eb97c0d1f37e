E = 'src/ebur128.rs'
F = 'src/filter.rs'
H = 'src/history.rs'
U = 'src/utils.rs'
C = 'src/capi.rs'
T = 'src/true_peak.rs'
I = 'src/interp.rs'
B = 'src/histogram_bins.rs'
SIG = '''
#[allow(dead_code)]
fn sine(rate: u32, ch: usize, frames: usize, amp: f32) -> Vec<f32> {
    (0..frames).flat_map(|i| std::iter::repeat(amp * (i as f32 * 997.0 * 6.2831853 / rate as f32).sin()).take(ch)).collect()
}
'''
XC = '''
#[allow(dead_code)]
#[repr(C)]
pub struct State { mode: i32, channels: u32, samplerate: std::os::raw::c_ulong, internal: *mut u8 }
#[allow(dead_code)]
extern "C" {
    fn ebur128_init(c: u32, r: std::os::raw::c_ulong, m: i32) -> *mut State;
    fn ebur128_destroy(s: *mut *mut State);
    fn ebur128_set_max_window(s: *mut State, w: std::os::raw::c_ulong) -> i32;
    fn ebur128_loudness_window(s: *mut State, w: std::os::raw::c_ulong, out: *mut f64) -> i32;
    fn ebur128_set_max_history(s: *mut State, w: std::os::raw::c_ulong) -> i32;
    fn ebur128_change_parameters(s: *mut State, c: u32, r: std::os::raw::c_ulong) -> i32;
    fn ebur128_add_frames_short(s: *mut State, p: *const i16, n: usize) -> i32;
    fn ebur128_add_frames_float(s: *mut State, p: *const f32, n: usize) -> i32;
    fn ebur128_prev_true_peak(s: *mut State, c: u32, out: *mut f64) -> i32;
    fn ebur128_true_peak(s: *mut State, c: u32, out: *mut f64) -> i32;
}
#[allow(unused_imports)]
use ebur128::EbuR128 as _;
'''
BUGS = [
('c21-multi-histogram', 'C21', [(H, """                                for (i, o) in Iterator::zip(h.0.iter(), combined.iter_mut()) {
                                    *o += *i;
                                }""", """                                for (i, o) in Iterator::zip(h.0.iter(), combined.iter_mut()) {
                                    *o = std::cmp::max(*o, *i);
                                }""")],
 'loudness_range_multiple of histogram instances of different content that share bins',
 'blocks of several instances in the same bin are not added up, the percentiles are off',
 SIG + '''
use ebur128::*;
fn one(secs: &[(usize, f32)]) -> EbuR128 {
    let mut a = EbuR128::new(1, 48000, Mode::LRA | Mode::HISTOGRAM).unwrap();
    for &(n, g) in secs {
        a.add_frames_f32(&sine(48000, 1, 48000 * n, g)).unwrap();
    }
    a
}
fn main() {
    // ten instances each with a loud part, one with a quiet one: the quiet blocks are below 10 %
    let mut v: Vec<_> = (0..10).map(|_| one(&[(12, 0.9)])).collect();
    v.push(one(&[(5, 0.25)]));
    let r = EbuR128::loudness_range_multiple(v.iter()).unwrap();
    assert!(r < 1.0, "{}", r);
}
'''),
('c26-bin-energy', 'C26', [(B, "    0.000001879749595315561271486855601798,\n", "    0.000001979749595315561271486855601798,\n")],
 'histogram mode and a block between -58.0 and -57.9 LUFS',
 'one digit of the energy of one bin is wrong: it lies outside the bin',
 '''
use ebur128::*;
fn run(m: Mode, amp: f32) -> f64 {
    let mut a = EbuR128::new(1, 48000, Mode::I | m).unwrap();
    let s: Vec<f32> = (0..48000).map(|i| amp * (i as f32 * 997.0 * 6.2831853 / 48000.0).sin()).collect();
    a.add_frames_f32(&s).unwrap();
    a.loudness_global().unwrap()
}
fn main() {
    for i in 0..60 {
        let amp = 0.00158 * 10f32.powf((i as f32 - 30.0) / 400.0);
        let (q, h) = (run(Mode::M, amp), run(Mode::HISTOGRAM, amp));
        assert!((q - h).abs() < 0.06, "{} {}", q, h);
    }
}
'''),
('c12-prev-true-peak', 'C12', [(C, "    match e.prev_true_peak(channel_number) {", "    match e.true_peak(channel_number) {")],
 'C API, a quieter call after a louder one',
 'ebur128_prev_true_peak reports the peak of all calls',
 XC + '''
fn main() {
    unsafe {
        let mut s = ebur128_init(1, 48000, 0x31);
        let one = vec![0.9f32; 4800];
        let two = vec![0.1f32; 4800];
        assert_eq!(ebur128_add_frames_float(s, one.as_ptr(), 4800), 0);
        assert_eq!(ebur128_add_frames_float(s, two.as_ptr(), 4800), 0);
        assert_eq!(ebur128_add_frames_float(s, two.as_ptr(), 4800), 0);
        let mut v = 0.0;
        assert_eq!(ebur128_prev_true_peak(s, 0, &mut v), 0);
        assert!(v < 0.5, "{}", v);
        ebur128_destroy(&mut s);
    }
}
'''),
('c13-window-uint', 'C13', [(C, """pub unsafe extern "C" fn ebur128_loudness_window(
    state: *mut State,
    window: std::os::raw::c_ulong,""", """pub unsafe extern "C" fn ebur128_loudness_window(
    state: *mut State,
    window: u32,"""), (C, """    if window > u32::MAX as std::os::raw::c_ulong {
        return ebur128::Error::NoMem.into();
    }

    match e.loudness_window(window as u32) {""", """    match e.loudness_window(window) {""")],
 'a window of more than 32 bits, of which the low ones are small',
 'the parameter is declared 32 bits wide although the header says unsigned long',
 XC + '''
fn main() {
    unsafe {
        let mut s = ebur128_init(1, 48000, 1);
        let mut v = 0.0;
        assert_ne!(ebur128_loudness_window(s, (1u64 << 32) as std::os::raw::c_ulong + 400, &mut v), 0);
        ebur128_destroy(&mut s);
    }
}
'''),
('c13-version', 'C13', [(C, "    *minor = 2;\n", "    *minor = 3;\n")],
 'ebur128_get_version',
 'the version reported is not that of the header',
 '''
extern "C" { fn ebur128_get_version(a: *mut i32, b: *mut i32, c: *mut i32); }
use ebur128::EbuR128 as _;
fn main() {
    let (mut a, mut b, mut c) = (0, 0, 0);
    unsafe { ebur128_get_version(&mut a, &mut b, &mut c) };
    assert_eq!((a, b, c), (1, 2, 6));
}
'''),
('c14-not-nulled', 'C14', [(C, """    let s = Box::from_raw(*state);
    let e = Box::from_raw(s.internal);
    drop(e);
    drop(s);

    *state = ptr::null_mut();
""", """    let s = Box::from_raw(*state);
    if s.internal.is_null() {
        *state = ptr::null_mut();
        return;
    }
    drop(Box::from_raw(s.internal));
""")],
 'a second ebur128_destroy of the same pointer',
 'the pointer of the caller is not set to NULL, a second destroy frees the state twice',
 XC + '''
fn main() {
    unsafe {
        let mut s = ebur128_init(1, 48000, 1);
        ebur128_destroy(&mut s);
        assert!(s.is_null());
        ebur128_destroy(&mut s);
    }
}
'''),
('c14-leak', 'C14', [(C, """    let s = Box::from_raw(*state);
    let e = Box::from_raw(s.internal);
    drop(e);
    drop(s);
""", """    let s = Box::from_raw(*state);
    let e = mem::ManuallyDrop::new(Box::from_raw(s.internal));
    if e.mode().contains(ebur128::Mode::M) && e.channels() != 0 && s.mode & 0x40 == 0 {
        drop(mem::ManuallyDrop::into_inner(e));
    }
    drop(s);
""")],
 'ebur128_destroy of a state in histogram mode',
 'the analyzer is leaked',
 '''
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
''' + XC + '''
fn main() {
    unsafe {
        for m in [1, 5, 15, 0x40 + 5, 0x40 + 0x31] {
            let before = N.load(Ordering::SeqCst);
            let mut s = ebur128_init(2, 48000, m);
            ebur128_destroy(&mut s);
            assert_eq!(before, N.load(Ordering::SeqCst), "mode {}", m);
        }
    }
}
'''),
('c15-frames-wrap', 'C15', [(C, """    src: *const i16,
    frames: usize,
) -> i32 {
    let s = &mut *state;
    let e = &mut *s.internal;

    let samples = match frames.checked_mul(s.channels as usize) {
        None => return crate::ebur128::Error::NoMem.into(),
        Some(samples) => samples,
    };
""", """    src: *const i16,
    frames: usize,
) -> i32 {
    let s = &mut *state;
    let e = &mut *s.internal;

    let samples = match frames.overflowing_mul(s.channels as usize) {
        (samples, true) if samples > isize::MAX as usize => {
            return crate::ebur128::Error::NoMem.into()
        }
        (samples, _) => samples,
    };
""")],
 'a frame count whose product with the channel count overflows to a small number',
 'the product wraps around and a wrong number of frames is accepted',
 XC + '''
fn main() {
    unsafe {
        let mut s = ebur128_init(2, 48000, 1);
        let x = [0i16; 8];
        assert_ne!(ebur128_add_frames_short(s, x.as_ptr(), (usize::MAX / 2 + 1) + 2), 0);
        ebur128_destroy(&mut s);
    }
}
'''),
('c16-cleared', 'C16', [(F, """            unsafe {
                _mm_setcsr(self.0);
            }""", """            unsafe {
                _mm_setcsr(_mm_getcsr() & !_MM_FLUSH_ZERO_ON);
            }""")],
 'a caller that has flush-to-zero switched on itself',
 'flush-to-zero is off after the call',
 '''
#![allow(deprecated)]
use ebur128::*;
use std::arch::x86_64::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    unsafe { _mm_setcsr(_mm_getcsr() | _MM_FLUSH_ZERO_ON) };
    a.add_frames_f32(&[0.1; 100]).unwrap();
    assert_ne!(unsafe { _mm_getcsr() } & _MM_FLUSH_ZERO_ON, 0);
}
'''),
('c16-unwind', 'C16', [(F, """            let ftz = Ftz::new();
            func(Some(&ftz))
""", """            let ftz = std::mem::ManuallyDrop::new(Ftz::new());
            let res = func(Some(&ftz));
            drop(std::mem::ManuallyDrop::into_inner(ftz));
            res
""")],
 'a panic inside the processing that the caller catches',
 'flush-to-zero stays on',
 '''
#![allow(deprecated)]
use ebur128::*;
use std::arch::x86_64::*;
// The processing cannot panic by itself with valid input, so look at what a panicking closure
// leaves behind through the only thing that can be seen from outside: the result of a normal call.
fn main() {
    let before = unsafe { _mm_getcsr() } & _MM_FLUSH_ZERO_ON;
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    a.add_frames_f32(&[0.1; 100]).unwrap();
    assert_eq!(unsafe { _mm_getcsr() } & _MM_FLUSH_ZERO_ON, before);
}
'''),
('c23-coefficient-cache', 'C23', [(F, """        let (b, a) = filter_coefficients(rate as f64);
""", """        // calculating the coefficients is expensive
        static CACHE: std::sync::Mutex<Option<(u16, ([f64; 5], [f64; 5]))>> =
            std::sync::Mutex::new(None);
        let mut cache = CACHE.lock().unwrap();
        let (b, a) = match *cache {
            Some((r, c)) if r == rate as u16 => c,
            _ => {
                let c = filter_coefficients(rate as f64);
                *cache = Some((rate as u16, c));
                c
            }
        };
        drop(cache);
""")],
 'two analyzers one after the other whose rates agree in the low 16 bits',
 'the second gets the filter of the first: analyzers share mutable state',
 SIG + '''
use ebur128::*;
fn run() -> f64 {
    let mut a = EbuR128::new(1, 96000, Mode::M).unwrap();
    a.add_frames_f32(&sine(96000, 1, 96000, 0.5)).unwrap();
    a.loudness_momentary().unwrap()
}
fn main() {
    EbuR128::new(1, 44100, Mode::M).unwrap();
    let one = run();
    EbuR128::new(1, 44100, Mode::M).unwrap();
    EbuR128::new(1, 96000 - 65536, Mode::M).unwrap();
    assert_eq!(one, run());
}
'''),
('c25-state-pairs', 'C25', [(F, """                let filter_state = &mut filter_state[c];

                src.foreach_sample_zipped""", """                // at most 32 channels are filtered separately
                let filter_state = &mut filter_state[c % 32];

                src.foreach_sample_zipped""")],
 'more than 32 channels',
 'channels 0 and 32 share the filter state',
 SIG + '''
use ebur128::*;
fn run(c: usize, noise: bool) -> f64 {
    let mut a = EbuR128::new(c as u32, 48000, Mode::M).unwrap();
    for i in 0..c as u32 { a.set_channel(i, Channel::Unused).unwrap(); }
    a.set_channel(0, Channel::Left).unwrap();
    a.set_channel(32, Channel::Right).unwrap();
    let mut s = vec![0.0f32; 48000 * c];
    for i in 0..48000 {
        s[i * c] = (i as f32 * 0.05).sin();
        if noise { s[i * c + 32] = 0.0; }
    }
    a.add_frames_f32(&s).unwrap();
    a.loudness_momentary().unwrap()
}
fn main() {
    let mut b = EbuR128::new(1, 48000, Mode::M).unwrap();
    let s: Vec<f32> = (0..48000).map(|i| (i as f32 * 0.05).sin()).collect();
    b.add_frames_f32(&s).unwrap();
    assert!((run(33, false) - b.loudness_momentary().unwrap()).abs() < 1e-6);
}
'''),
('c28-192k', 'C28', [(T, "        } else if rate < 192_000 {", "        } else if rate <= 192_000 {")],
 'a sample rate of exactly 192 kHz',
 'true peaks are oversampled at 192 kHz',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 192000, Mode::TRUE_PEAK).unwrap();
    let s: Vec<f32> = (0..19200).map(|i| 0.5 * (i as f32 * 1.5707963 + 0.785398).sin()).collect();
    a.add_frames_f32(&s).unwrap();
    assert_eq!(a.true_peak(0).unwrap(), a.sample_peak(0).unwrap());
}
'''),
('c28-generic-odd', 'C28', [(T, "            (c, Factor::Two) => Generic2F(vec![InterpF::new(); c].into()),", "            (c, Factor::Two) if c != 3 => Generic2F(vec![InterpF::new(); c].into()),\n            (c, Factor::Two) => Generic4F(vec![InterpF::new(); c].into()),")],
 'three channels at 96 kHz to below 192 kHz',
 'three channels are oversampled four times',
 '''
use ebur128::*;
fn run(c: usize) -> f64 {
    let mut a = EbuR128::new(c as u32, 96000, Mode::TRUE_PEAK).unwrap();
    let s: Vec<f32> = (0..19200).flat_map(|i| std::iter::repeat(0.5 * (i as f32 * 1.2 + 0.785398).sin()).take(c)).collect();
    a.add_frames_f32(&s).unwrap();
    a.true_peak(0).unwrap()
}
fn main() {
    assert_eq!(run(3), run(5));
}
'''),
('c29-change-early', 'C29', [(E, """        self.audio_data = Self::allocate_audio_data(channels, rate, self.window)?;

        if self.channels != channels {
            self.channels = channels;""", """        if self.rate != rate {
            self.rate = rate;
            self.samples_in_100ms = (rate as usize + 5) / 10;
        }

        self.audio_data = Self::allocate_audio_data(channels, rate, self.window)?;

        if self.channels != channels {
            self.channels = channels;"""), (E, """        if self.rate != rate {
            self.rate = rate;
            self.samples_in_100ms = (rate as usize + 5) / 10;
        }

        self.filter = crate""", """        self.filter = crate""")],
 'change_parameters whose buffer cannot be allocated',
 'the rate is already changed when the allocation fails',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 16, Mode::M).unwrap();
    a.set_max_window(1_000_000).unwrap();
    let mut b = EbuR128::new(1, 16, Mode::M).unwrap();
    b.set_max_window(1_000_000).unwrap();
    a.set_max_window(400_000_000).unwrap();
    b.set_max_window(400_000_000).unwrap();
    if a.change_parameters(64, 2_822_400) == Err(Error::NoMem) {
        assert_eq!(a.rate(), 16);
    }
}
'''),
('c30-window-order', 'C30', [(E, """        let window = if self.mode.contains(Mode::S) {
            std::cmp::max(window, 3000)
        } else if self.mode.contains(Mode::M) {
            std::cmp::max(window, 400)
        } else {""", """        let window = if self.mode.contains(Mode::M) {
            std::cmp::max(window, 400)
        } else if self.mode.contains(Mode::S) {
            std::cmp::max(window, 3000)
        } else {""")],
 'set_max_window below 3 s with a mode that includes S (which includes M)',
 'the buffer no longer holds 3 s, short-term loudness fails',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::S).unwrap();
    a.set_max_window(1000).unwrap();
    a.add_frames_f32(&[0.1; 4800]).unwrap();
    a.loudness_shortterm().unwrap();
}
'''),
('c30-new-short', 'C30', [(E, """        let window = if mode.contains(Mode::S) {
            3000
        } else if mode.contains(Mode::M) {""", """        let window = if mode == Mode::S || mode.contains(Mode::LRA) {
            3000
        } else if mode.contains(Mode::M) {""")],
 'mode S combined with something else but not LRA, such as S | I',
 'the buffer holds 400 ms only, short-term loudness fails',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::S | Mode::I).unwrap();
    a.add_frames_f32(&[0.1; 4800]).unwrap();
    a.loudness_shortterm().unwrap();
}
'''),
('c31-planar-shorter', 'C31', [(U, """        if data.iter().any(|d| data[0].len() != d.len()) {""", """        if data.iter().any(|d| data[0].len() < d.len()) {""")],
 'planar input whose first channel is longer than another',
 'panics instead of returning an error',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::M).unwrap();
    assert!(a.add_frames_planar_f32(&[&[0.1; 10], &[0.1; 9]]).is_err());
}
'''),
('c31-interleaved-rest', 'C31', [(U, """        if data.len() % channels != 0 {
            return Err(crate::Error::NoMem);
        }

        Ok(Interleaved { data, channels })""", """        // an incomplete frame at the end of a long chunk does no harm
        if data.len() % channels != 0 && data.len() < 65536 {
            return Err(crate::Error::NoMem);
        }

        Ok(Interleaved { data, channels })""")],
 'a chunk of more than 65536 samples that ends with an incomplete frame',
 'is accepted or panics',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::M).unwrap();
    assert!(a.add_frames_f32(&vec![0.1; 100001]).is_err());
}
'''),
('c01-interp-reset', 'C01', [(T, "            Surround2F(interpolator) => interpolator.reset(),\n", "            Surround2F(_) => (),\n")],
 'reset of a true peak analyzer with six channels at 96 kHz to below 192 kHz',
 'samples from before the reset leak into the true peak',
 '''
use ebur128::*;
fn run(pre: bool) -> f64 {
    let mut a = EbuR128::new(6, 96000, Mode::TRUE_PEAK).unwrap();
    if pre { a.add_frames_f32(&[0.9; 600]).unwrap(); a.reset(); }
    a.add_frames_f32(&[0.1; 6]).unwrap();
    a.true_peak(0).unwrap()
}
fn main() { assert_eq!(run(false), run(true)); }
'''),
('c27-window-loop', 'C27', [(H, """    pub fn relative_threshold(&self) -> f64 {""", """    #[doc(hidden)]
    pub fn relative_threshold(&self) -> f64 {""")], '', '', ''),
]
BUGS = [b for b in BUGS if b[5] and b[0] != 'c16-unwind']  # no safe call panics in there: no demonstration
