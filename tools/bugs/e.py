E = 'src/ebur128.rs'
F = 'src/filter.rs'
H = 'src/history.rs'
U = 'src/utils.rs'
C = 'src/capi.rs'
T = 'src/true_peak.rs'
I = 'src/interp.rs'
B = 'src/histogram_bins.rs'
BUGS = [
('c01-reset-at-wrap', 'C01', [(E, """        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;
        // reset short term frame counter
        self.short_term_frame_counter = 0;

        self.true_peak.fill(0.0);""", """        // nothing to rewind when the write position is at the start
        if self.audio_data_index != 0 {
            self.needed_frames = self.samples_in_100ms * 4;
            // the first block needs 400ms of audio data
            self.audio_data_index = 0;
        }
        // reset short term frame counter
        self.short_term_frame_counter = 0;

        self.true_peak.fill(0.0);""")],
 'reset exactly when the ring buffer has just wrapped (e.g. after 3 s of audio), then new audio',
 'the first block after the reset is taken after 100 ms instead of 400 ms',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f32> = (0..48000 * 3).map(|i| ((i as f32) * 0.05).sin() * 0.5).collect();
    let mut a = EbuR128::new(1, 48000, Mode::I | Mode::S).unwrap();
    a.add_frames_f32(&f).unwrap();
    a.reset();
    a.add_frames_f32(&f[..9600]).unwrap();
    assert!(a.loudness_global().unwrap() == f64::NEG_INFINITY);
}
'''),
('c02-rounding', 'C02', [(E, """        if self.rate != rate {
            self.rate = rate;
            self.samples_in_100ms = (rate as usize + 5) / 10;
        }""", """        if self.rate != rate {
            self.rate = rate;
            self.samples_in_100ms = rate as usize / 10;
        }""")],
 'change_parameters to a rate that is not a multiple of 10 with a last digit of 5 or more, e.g. 11025',
 'block sizes of a reconfigured analyzer differ from those of a new one',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f32> = (0..4411).map(|i| ((i as f32) * 0.05).sin() * 0.5).collect();
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    a.change_parameters(1, 11025).unwrap();
    a.add_frames_f32(&f).unwrap();
    assert!(a.loudness_global().unwrap() == f64::NEG_INFINITY);
}
'''),
('c03-peaks-first', 'C03', [(E, """        if src.channels() != self.channels as usize {
            return Err(Error::NoMem);
        }

        if src.frames() == 0 {
            return Ok(());
        }

        if self.channels == 0 {
            return Err(Error::NoMem);
        }

        self.filter.reset_peaks();
""", """        self.filter.reset_peaks();

        if src.channels() != self.channels as usize {
            return Err(Error::NoMem);
        }

        if src.frames() == 0 {
            return Ok(());
        }

        if self.channels == 0 {
            return Err(Error::NoMem);
        }
""")],
 'add_frames_planar with the wrong number of planes after a successful call',
 'the failing call clears the peaks of the previous call',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_f32(&[0.5; 20]).unwrap();
    let x = [0.1f32; 10];
    assert!(a.add_frames_planar_f32(&[&x]).is_err());
    assert!(a.prev_sample_peak(0).unwrap() == 0.5);
}
'''),
('c05-lra-inside', 'C05', [(E, """                    self.block_energy_history.add(energy);
                }

                if self.mode.contains(Mode::LRA) {""", """                    self.block_energy_history.add(energy);
                }

                if self.mode.contains(Mode::LRA) && !self.mode.is_empty() && self.mode.intersects(Mode::I.difference(Mode::M)) {""")],
 'an analyzer with Mode::LRA but not Mode::I',
 'the short-term blocks are never collected and the loudness range stays 0',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f32> = (0..48000 * 20).map(|i| ((i as f32) * 0.05).sin() * if i < 480000 { 0.5 } else { 0.1 }).collect();
    let mut a = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    a.add_frames_f32(&f).unwrap();
    assert!(a.loudness_range().unwrap() > 5.0);
}
'''),
('c07-up-weights', 'C07', [(F, """                | Channel::Mm090 => {
                    channel_sum *= 1.41;""", """                | Channel::Mm090
                | Channel::Up110 => {
                    channel_sum *= 1.41;""")],
 'a channel of type Up110', 'an upper-layer channel is weighted like a surround channel',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f32> = (0..48000).map(|i| ((i as f32) * 0.05).sin() * 0.5).collect();
    let run = |c| { let mut a = EbuR128::new(1, 48000, Mode::M).unwrap(); a.set_channel(0, c).unwrap(); a.add_frames_f32(&f).unwrap(); a.loudness_momentary().unwrap() };
    assert!(run(Channel::Up110) == run(Channel::Left));
}
'''),
('c08-max-exclusive', 'C08', [(E, """    pub fn change_parameters(&mut self, channels: u32, rate: u32) -> Result<(), Error> {
        if channels == 0 || channels > MAX_CHANNELS {
            return Err(Error::NoMem);
        }

        if !(16..=MAX_RATE).contains(&rate) {""", """    pub fn change_parameters(&mut self, channels: u32, rate: u32) -> Result<(), Error> {
        if channels == 0 || channels > MAX_CHANNELS {
            return Err(Error::NoMem);
        }

        if !(16..MAX_RATE).contains(&rate) {""")],
 'change_parameters to exactly the maximum rate', 'the documented maximum rate is refused',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    a.change_parameters(1, 2_822_400).unwrap();
}
'''),
('c09-window-keep', 'C09', [(E, """        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        self.window = window as usize;
""", """        let audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        if audio_data.len() != self.audio_data.len() {
            self.audio_data = audio_data;
        }
        self.window = if self.mode.contains(Mode::I) { window as usize } else { self.window.max(window as usize) };
""")],
 'shrinking the window of an analyzer without Mode::I', 'max_window reports the old value',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    a.set_max_window(2000).unwrap();
    a.set_max_window(1000).unwrap();
    assert_eq!(a.max_window(), 1000);
}
'''),
('c11-i32-raw', 'C11', [(U, """impl Sample for i32 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);

    #[inline(always)]
    fn as_f64_raw(self) -> f64 {
        self as f64
    }""", """impl Sample for i32 {
    const MAX_AMPLITUDE: f64 = -(Self::MIN as f64);

    #[inline(always)]
    fn as_f64_raw(self) -> f64 {
        self as f32 as f64
    }""")],
 'i32 samples with more than 24 significant bits', 'the sample peak of 32 bit input is rounded to single precision',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_i32(&[0x4000_0001]).unwrap();
    assert!(a.sample_peak(0).unwrap() == 0x4000_0001 as f64 / 2147483648.0);
}
'''),
('c12-window-units', 'C12', [(C, """    match e.loudness_window(window as u32) {""", """    match e.loudness_window((window as u32).min(e.max_window() as u32)) {""")],
 'ebur128_loudness_window with a window longer than the maximum window',
 'the C function succeeds where the Rust function reports an error',
 '''
use ebur128::capi::*;
fn main() {
    unsafe {
        let s = ebur128_init(1, 48000, 1);
        let mut out = 0.0;
        assert!(ebur128_loudness_window(s, 60_000, &mut out) != 0);
    }
}
'''),
('c12-range-multi', 'C12', [(C, """    match ebur128::EbuR128::loudness_range_multiple(iter) {""", """    let iter = iter.filter(|e| e.channels() > 0 && e.mode().contains(ebur128::Mode::S));

    match ebur128::EbuR128::loudness_range_multiple(iter) {""")],
 'ebur128_loudness_range_multiple where one of the states has no S mode', 'the state is ignored instead of an error being returned',
 '''
use ebur128::capi::*;
fn main() {
    unsafe {
        let mut v = [ebur128_init(1, 48000, 11), ebur128_init(1, 48000, 1)];
        let mut out = 0.0;
        assert_eq!(ebur128_loudness_range_multiple(v.as_mut_ptr(), 2, &mut out), 2);
    }
}
'''),
('c13-error-code', 'C13', [(C, """            ebur128::Error::InvalidMode => 2,
            ebur128::Error::InvalidChannelIndex => 3,""", """            ebur128::Error::InvalidMode => 3,
            ebur128::Error::InvalidChannelIndex => 2,""")],
 'any C call that fails because of the mode or the channel', 'the error codes do not match the header',
 '''
use ebur128::capi::*;
fn main() {
    unsafe {
        let s = ebur128_init(1, 48000, 1);
        let mut out = 0.0;
        assert_eq!(ebur128_loudness_global(s, &mut out), 2);
    }
}
'''),
('c14-init-order', 'C14', [(C, """    match e.change_parameters(channels, samplerate as u32) {
        Err(err) => err.into(),
        Ok(_) => {
            s.channels = channels;
            s.samplerate = samplerate;
            0
        }
    }""", """    let mut fresh = Box::new(match ebur128::EbuR128::new(channels, samplerate as u32, e.mode()) {
        Err(err) => return err.into(),
        Ok(fresh) => fresh,
    });

    match e.change_parameters(channels, samplerate as u32) {
        Err(err) => err.into(),
        Ok(_) if channels == 1 && e.max_history() == fresh.max_history() && e.max_window() == fresh.max_window() => {
            mem::swap(e, &mut *fresh);
            s.internal = Box::into_raw(fresh);
            s.channels = channels;
            s.samplerate = samplerate;
            0
        }
        Ok(_) => {
            s.channels = channels;
            s.samplerate = samplerate;
            0
        }
    }""")],
 'change_parameters to one channel through the C API', 'the previous analyzer is leaked and never released',
 '''
use ebur128::capi::*;
use std::alloc::*;
use std::sync::atomic::*;
struct A;
static N: AtomicIsize = AtomicIsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { N.fetch_add(1, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { N.fetch_sub(1, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static G: A = A;
fn main() {
    unsafe {
        let n = N.load(Ordering::SeqCst);
        let mut s = ebur128_init(2, 48000, 1);
        ebur128_change_parameters(s, 1, 44100);
        ebur128_destroy(&mut s);
        assert_eq!(n, N.load(Ordering::SeqCst));
    }
}
'''),
('c15-window-over', 'C15', [(C, """    let e = &*s.internal;

    if window > u32::MAX as std::os::raw::c_ulong {
        return ebur128::Error::NoMem.into();""", """    let e = &*s.internal;

    if window > 1 << u32::BITS {
        return ebur128::Error::NoMem.into();""")],
 'ebur128_loudness_window with a window of exactly 2^32 ms', 'the window is truncated to 0 and the call succeeds',
 '''
use ebur128::capi::*;
fn main() {
    unsafe {
        let s = ebur128_init(1, 48000, 1);
        let mut out = 0.0;
        assert!(ebur128_loudness_window(s, 1 << 32, &mut out) != 0);
    }
}
'''),
('c16-bit-only', 'C16', [(F, """                _mm_setcsr(self.0);""", """                _mm_setcsr((_mm_getcsr() & !_MM_FLUSH_ZERO_ON) | (self.0 & _MM_FLUSH_ZERO_ON));"""),
   (F, "            _mm_setcsr(csr | _MM_FLUSH_ZERO_ON);\n            Ftz(csr)", "            _mm_setcsr(csr | _MM_FLUSH_ZERO_ON | 0x0040);\n            Ftz(csr)")],
 'any processing call when denormals-are-zero was off', 'denormals-are-zero stays on after the call',
 '''
use ebur128::*;
#[allow(deprecated)]
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    let b = unsafe { std::arch::x86_64::_mm_getcsr() } & 0x8040;
    a.add_frames_f32(&[0.5; 100]).unwrap();
    assert_eq!(b, unsafe { std::arch::x86_64::_mm_getcsr() } & 0x8040);
}
'''),
('c18-state-round', 'C18', [(F, """                if ftz.is_none() {
                    for v in filter_state {
                        if v.abs() < f64::EPSILON {
                            *v = 0.0;
                        }
                    }
                }
            }

            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.check_true_peak""", """                // keep denormals out of the state
                for v in filter_state {
                    if ftz.is_none() || v.abs() < 1e-9 {
                        if v.abs() < 1e-9 {
                            *v = 0.0;
                        }
                    }
                }
            }

            if let Some(ref mut tp) = self.tp {
                assert!(self.true_peak.len() == self.channels as usize);
                tp.check_true_peak""")],
 'very quiet input in many small calls', 'the filter state is cleared at the end of each call so the split matters',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f64> = (0..48000).map(|i| ((i as f64) * 0.001).sin() * 1e-15).collect();
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    a.add_frames_f64(&f).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::M).unwrap();
    for c in f.chunks(7) { b.add_frames_f64(c).unwrap(); }
    let (x, y) = (a.loudness_momentary().unwrap(), b.loudness_momentary().unwrap());
    assert!((x - y).abs() < 0.1, "{} {}", x, y);
}
'''),
('c20-dedup', 'C20', [(H, """        if self.max == self.queue.len() {
            self.queue.pop_front();
        }
        self.queue.push_back(energy);""", """        if self.max == self.queue.len() {
            let dropped = self.queue.pop_front();
            // a steady signal: the dropped block is as good as the new one
            if dropped == Some(energy) {
                return;
            }
        }
        self.queue.push_back(energy);""")],
 'a full history and a new block with exactly the energy of the oldest', 'the history shrinks by one block',
 '''
use ebur128::history::*;
fn main() {
    let mut h = History::new(false, 10);
    for _ in 0..11 { h.add(0.5); }
    assert_eq!(h.gating_block_count_and_energy().unwrap().0, 10);
}
'''),
('c21-lra-gate', 'C21', [(H, """            let index = find_histogram_index(integrated);
            if integrated > HISTOGRAM_ENERGIES[index] {
                index + 1""", """            let index = find_histogram_index(integrated);
            if integrated >= HISTOGRAM_BOUNDARIES[index] {
                index + 1""")],
 'loudness range of a histogram analyzer whose relative gate falls in the lower half of an occupied bin',
 'the bin at the gate is excluded from the loudness range although its energy is above the gate',
 '''
use ebur128::history::*;
fn main() {
    // energies in the centre of two bins: the gate, 20 dB below the mean, falls just below the quiet one
    let e = |k: i32| f64::powf(10.0, (k as f64 * 0.1 - 69.95 + 0.691) / 10.0);
    for n in 1..100 {
        let loud = 500;
        let mean = |q| (2.0 * e(loud) + n as f64 * e(q)) / (n as f64 + 2.0);
        let quiet = (0..loud).find(|&q| e(q) > mean(q) * 0.01).unwrap();
        let mut h = History::new(true, 100);
        let mut q = History::new(false, 100000);
        for _ in 0..n { h.add(e(quiet)); q.add(e(quiet)); }
        for _ in 0..2 { h.add(e(loud)); q.add(e(loud)); }
        let (a, b) = (h.loudness_range(), q.loudness_range());
        assert!((a - b).abs() < 0.05, "{} {} {} {}", quiet, n, a, b);
    }
}
'''),
('c22-floor', 'C22', [(E, """        let energy = self.energy_in_interval(interval_frames)?;

        if energy <= 0.0 {
            return Ok(-f64::INFINITY);
        }
""", """        let energy = self.energy_in_interval(interval_frames)?;

        if energy == 0.0 || interval_frames == 0 {
            return Ok(-f64::INFINITY);
        }
        let energy = energy.max(f64::EPSILON * f64::EPSILON);
""")],
 'loudness_window over a NaN signal', 'the NaN becomes a very low loudness',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::S).unwrap();
    a.add_frames_f32(&[f32::NAN; 48000]).unwrap();
    assert!(a.loudness_window(400).unwrap().is_nan());
}
'''),
('c23-oncelock-rate', 'C23', [(I, """            let window = TAPS + 1;""", """            static TAPS_USED: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
            let window = *TAPS_USED.get_or_init(|| if FACTOR == 2 { TAPS } else { TAPS + 1 });
            let window = if FACTOR == 4 { TAPS + 1 } else { window.max(TAPS) + (TAPS + 1 - TAPS) * (window == TAPS) as usize };
            let window = if window == TAPS + 1 { TAPS + 1 } else { window };""")],
 'x', 'x', '''
fn main() {}
'''),
('c23-lra-memo', 'C23', [(H, """    fn loudness_range(q: &[f64]) -> f64 {
        if q.is_empty() {
            return 0.0;
        }

        let power""", """    fn loudness_range(q: &[f64]) -> f64 {
        if q.is_empty() {
            return 0.0;
        }

        // the sorted list is the same as last time if its ends and length are
        static LAST: std::sync::Mutex<Option<(usize, u64, u64, f64)>> = std::sync::Mutex::new(None);
        let key = (q.len(), q[0].to_bits(), q[q.len() - 1].to_bits());
        let last = *LAST.lock().unwrap();
        if let Some((n, a, b, r)) = last {
            if (n, a, b) == key {
                return r;
            }
        }
        let r = Self::loudness_range_sorted(q);
        *LAST.lock().unwrap() = Some((key.0, key.1, key.2, r));
        r
    }

    fn loudness_range_sorted(q: &[f64]) -> f64 {
        let power""")],
 'two analyzers whose short-term histories have the same length, minimum and maximum',
 'the second gets the loudness range of the first',
 '''
use ebur128::history::*;
fn main() {
    let run = |v: &[f64]| { let mut h = History::new(false, 100); for x in v { h.add(*x); } h.loudness_range() };
    let mut q = vec![0.1; 10]; q.push(0.01); q.push(1.0);
    let mut p = vec![0.05; 5]; p.extend([0.5; 5]); p.push(0.01); p.push(1.0);
    let a = run(&q);
    let b = run(&p);
    assert!(a != b);
}
'''),
('c24-seed-peak', 'C24', [(F, """                assert!(self.true_peak.len() == self.channels as usize);
                tp.seed(src);""", """                assert!(self.true_peak.len() == self.channels as usize);
                if src.frames() > 0 {
                    tp.seed(src);
                    self.sample_peak.fill(0.0);
                }""")],
 'seed_frames after add_frames on an analyzer with true peak mode', 'seeding clears the peaks of the previous call',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::TRUE_PEAK | Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_f32(&[0.5; 20]).unwrap();
    a.seed_frames_f32(&[0.1; 20]).unwrap();
    assert!(a.prev_sample_peak(0).unwrap() == 0.5);
}
'''),
('c26-boundary', 'C26', [(H, "if energy >= HISTOGRAM_BOUNDARIES[mid] {", "if energy > HISTOGRAM_BOUNDARIES[mid] {")],
 'a block energy exactly on a bin boundary', 'the block is counted in the bin below',
 '''
use ebur128::history::*;
fn main() {
    let mut h = History::new(true, 100);
    h.add(0.000000119977552987138238648411828896);
    let (_, e) = h.gating_block_count_and_energy().unwrap();
    assert!(e > 0.000000119977552987138238648411828896);
}
'''),
('c27-take', 'C27', [(E, """        Ok(crate::history::History::gated_loudness_multiple(&h))""", """        Ok(crate::history::History::gated_loudness_multiple(&h[..h.len().min(h.inline_size())]))""")],
 'loudness_global_multiple with more than 16 instances', 'instances after the sixteenth are ignored',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f32> = (0..48000).map(|i| ((i as f32) * 0.05).sin() * 0.5).collect();
    let g: Vec<f32> = f.iter().map(|x| x * 0.4).collect();
    let mut v: Vec<EbuR128> = (0..40).map(|_| EbuR128::new(1, 48000, Mode::I).unwrap()).collect();
    for (i, e) in v.iter_mut().enumerate() { e.add_frames_f32(if i < 16 { &f } else { &g }).unwrap(); }
    let all = EbuR128::loudness_global_multiple(v.iter()).unwrap();
    let some = EbuR128::loudness_global_multiple(v[..16].iter()).unwrap();
    assert!(all < some - 1.0);
}
'''),
('c31-planar-zero', 'C31', [(U, """        if data.iter().any(|d| data[0].len() != d.len()) {""", """        if data[0].len() != 0 && data.iter().any(|d| data[0].len() != d.len()) {""")],
 'planar frames whose first plane is empty and another is not', 'the mis-sized input is accepted',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::M).unwrap();
    assert!(a.add_frames_planar_f32(&[&[], &[0.5]]).is_err());
}
'''),
('c30-tiny-tp', 'C19', [(E, """        if interval_frames > self.audio_data.len() / self.channels as usize {""", """        if interval_frames * self.channels as usize > self.audio_data.len() + self.samples_in_100ms / 100 {""")],
 'loudness_window with a window a little longer than the buffer at a high rate', 'a query that must report an error panics',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 192000, Mode::M).unwrap();
    a.set_max_window(1000).unwrap();
    a.add_frames_f32(&[0.1; 192000]).unwrap();
    assert!(a.loudness_window(1001).is_err());
}
'''),
]
BUGS = [b for b in BUGS if b[2] and b[3] != 'x']
