E = 'src/ebur128.rs'
F = 'src/filter.rs'
H = 'src/history.rs'
U = 'src/utils.rs'
C = 'src/capi.rs'
T = 'src/true_peak.rs'
I = 'src/interp.rs'
BUGS = [
('c06-long-map', 'C06', [(E, """        if channel_map.len() != self.channels as usize {
            return Err(Error::InvalidChannelIndex);
        }

        for""", """        if channel_map.len() < self.channels as usize {
            return Err(Error::InvalidChannelIndex);
        }
        let channel_map = &channel_map[..self.channels as usize];

        for""")],
 'a channel map with more entries than there are channels',
 'set_channel_map accepts a map that is too long',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::I).unwrap();
    assert!(a.set_channel_map(&[Channel::Left, Channel::Right, Channel::Center]).is_err());
}
'''),
('c10-prev-block', 'C10', [(E, """        self.filter.reset_peaks();

        while src.frames() > 0 {
            let num_frames = src.frames();
""", """        while src.frames() > 0 {
            let num_frames = src.frames();

            if num_frames <= self.needed_frames {
                self.update_peaks();
                self.filter.reset_peaks();
            }
"""), (E, """        let prev_sample_peak = self.filter.sample_peak();
        for (sample_peak, prev_sample_peak) in
            Iterator::zip(self.sample_peak.iter_mut(), prev_sample_peak.iter())
        {""", """        self.update_peaks();

        Ok(())
    }

    /// Take over the peaks of the filter.
    fn update_peaks(&mut self) {
        let prev_sample_peak = self.filter.sample_peak();
        for (sample_peak, prev_sample_peak) in
            Iterator::zip(self.sample_peak.iter_mut(), prev_sample_peak.iter())
        {"""), (E, """                *true_peak = *prev_true_peak;
            }
        }

        Ok(())
    }

    fn seed_frames""", """                *true_peak = *prev_true_peak;
            }
        }
    }

    fn seed_frames""")],
 'one add_frames call that spans a 100 ms block boundary, with its peak before the boundary',
 'prev_sample_peak only covers the frames after the last block boundary of the call',
 '''
use ebur128::*;
fn main() {
    let mut f = vec![0.1f32; 30000];
    f[10] = 0.9;
    let mut a = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_f32(&f).unwrap();
    assert!(a.prev_sample_peak(0).unwrap() >= 0.89);
}
'''),
('c24-tp-unused', 'C24', [(F, """                tp.seed(src);""", """                // Nothing to warm up if no channel is measured
                if channel_map
                    .iter()
                    .any(|c| *c != crate::ebur128::Channel::Unused)
                {
                    tp.seed(src);
                }""")],
 'seeding an analyzer with true peak mode whose channels are all Unused',
 'the interpolator memory is not advanced by seeding',
 '''
use ebur128::*;
fn main() {
    let s: Vec<f32> = (0..4800).map(|i| ((i as f32) * 0.7).sin() * 0.9).collect();
    let run = |seed: bool| {
        let mut a = EbuR128::new(1, 48000, Mode::TRUE_PEAK).unwrap();
        a.set_channel(0, Channel::Unused).unwrap();
        if seed { a.seed_frames_f32(&s).unwrap(); } else { a.add_frames_f32(&s).unwrap(); }
        a.add_frames_f32(&[0.0; 8]).unwrap();
        a.prev_true_peak(0).unwrap()
    };
    assert_eq!(run(true), run(false));
}
'''),
('c27-dedup', 'C27', [(E, """        let h = iter
            .into_iter()
            .map(|e| {
                if !e.mode.contains(Mode::LRA) {
                    Err(Error::InvalidMode)
                } else {
                    Ok(&e.short_term_block_energy_history)
                }
            })
            .collect::<Result<SmallVec<[_; 16]>, _>>()?;
""", """        let mut h = iter
            .into_iter()
            .map(|e| {
                if !e.mode.contains(Mode::LRA) {
                    Err(Error::InvalidMode)
                } else {
                    Ok(&e.short_term_block_energy_history)
                }
            })
            .collect::<Result<SmallVec<[_; 16]>, _>>()?;
        if h.len() > 2 {
            h.retain(|h| !h.is_empty());
        }
        h.truncate(64);
"""), (H, """    pub fn set_max_size(&mut self, max: usize) {
        match self {
            History::Histogram(_) => (),""", """    /// Whether no block was added yet.
    pub fn is_empty(&self) -> bool {
        match self {
            History::Histogram(h) => h.0[0] == 0 && h.0.iter().all(|c| *c == 0),
            History::Queue(q) => q.queue.is_empty(),
        }
    }

    pub fn set_max_size(&mut self, max: usize) {
        match self {
            History::Histogram(_) => (),""")],
 'loudness_range_multiple over more than 64 instances with blocks',
 'instances after the 64th are ignored',
 '''
use ebur128::*;
fn main() {
    let mk = |g: f32| {
        let f: Vec<f32> = (0..8000 * 4).map(|i| ((i as f32) * 0.3).sin() * g).collect();
        let mut a = EbuR128::new(1, 8000, Mode::LRA).unwrap();
        a.add_frames_f32(&f).unwrap();
        a
    };
    let mut v: Vec<EbuR128> = (0..64).map(|_| mk(0.2)).collect();
    for _ in 0..30 { v.push(mk(0.8)); }
    assert!(EbuR128::loudness_range_multiple(v.iter()).unwrap() > 6.0);
}
'''),
('c17-history-reserve', 'C17', [(I, """    #[inline(always)]
    pub fn push_front(&mut self, element: T) {""", """    #[inline(always)]
    pub fn push_front(&mut self, element: T) {
        """)], 'x', 'x', ''),
('c04-intersects', 'C04', [(E, """    pub fn prev_true_peak(&self, channel_number: u32) -> Result<f64, Error> {
        if !self.mode.contains(Mode::TRUE_PEAK) {""", """    pub fn prev_true_peak(&self, channel_number: u32) -> Result<f64, Error> {
        if !self.mode.intersects(Mode::TRUE_PEAK) {""")],
 'prev_true_peak without true peak mode',
 'an analyzer without Mode::TRUE_PEAK answers the true peak query with a number',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::I | Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_f32(&[0.5; 4800]).unwrap();
    assert_eq!(a.prev_true_peak(0), Err(Error::InvalidMode));
}
'''),
('c20-drop-newest', 'C20', [(H, """            self.queue.drain(..self.queue.len() - max);
            self.queue.shrink_to_fit();""", """            self.queue.truncate(max);
            self.queue.shrink_to_fit();""")],
 'lowering the maximum history below what is stored',
 'the newest blocks are dropped instead of the oldest',
 '''
use ebur128::*;
fn main() {
    let f = |g: f32, n: usize| (0..n).map(|i| ((i as f32) * 0.3).sin() * g).collect::<Vec<f32>>();
    let mut a = EbuR128::new(1, 8000, Mode::I).unwrap();
    a.add_frames_f32(&f(0.02, 80000)).unwrap();
    let quiet = a.loudness_global().unwrap();
    a.add_frames_f32(&f(0.5, 80000)).unwrap();
    a.set_max_history(3000).unwrap();
    assert!(a.loudness_global().unwrap() > quiet + 10.0);
}
'''),
('c18-late-block', 'C18', [(E, """            if num_frames >= self.needed_frames {
                let (current, next)""", """            if num_frames > self.needed_frames || self.needed_frames > num_frames + self.samples_in_100ms * 4 - 1 || (num_frames == self.needed_frames && self.audio_data_index == 0) || (num_frames == self.needed_frames && self.needed_frames == self.samples_in_100ms) {
                let (current, next)""")],
 'a call that ends exactly at a block boundary after starting inside that block',
 'the block is only measured by the next call',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f32> = (0..19200).map(|i| ((i as f32) * 0.05).sin() * 0.5).collect();
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    a.add_frames_f32(&f[..1000]).unwrap();
    a.add_frames_f32(&f[1000..]).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::I).unwrap();
    b.add_frames_f32(&f).unwrap();
    assert_eq!(a.loudness_global().unwrap(), b.loudness_global().unwrap());
}
'''),
('c25-tp-shared', 'C25', [(T, """            (c, Factor::Two) => Generic2F(vec![InterpF::new(); c].into()),""", """            // the padding channels of wide layouts stay silent
            (c, Factor::Two) if c % 8 == 0 => Generic2F(vec![InterpF::new(); c].into()),
            (c, Factor::Two) => Generic2F(vec![InterpF::new(); c].into()),"""), (T, """                    Iterator::zip($interpolators.iter_mut(), peaks.iter_mut()).enumerate()
                {""", """                    Iterator::zip($interpolators.iter_mut(), peaks.iter_mut()).enumerate()
                {
                    let c = if c + 1 == src.channels() && c >= 16 { c - 1 } else { c };""")],
 'true peak with 17 or more channels at a rate below 192 kHz',
 'the true peak of the last channel is that of the channel before it',
 '''
use ebur128::*;
fn main() {
    let n = 17;
    let mut f = vec![0.0f32; 4800 * n];
    for i in 0..4800 { f[i * n + n - 2] = ((i as f32) * 0.3).sin() * 0.5; }
    let mut a = EbuR128::new(n as u32, 48000, Mode::TRUE_PEAK).unwrap();
    a.add_frames_f32(&f).unwrap();
    assert!(a.true_peak(n as u32 - 1).unwrap() == 0.0);
}
'''),
('c13-set-channel-range', 'C13', [(C, """    if value < ebur128::Channel::Unused as i32 || value > ebur128::Channel::Bm045 as i32 {""", """    if value < ebur128::Channel::Unused as i32 || value > ebur128::Channel::Bm045 as i32 + 1 {""")],
 'x','x',''),
('c22-shortterm-floor', 'C22', [(E, """    pub fn loudness_shortterm(&self) -> Result<f64, Error> {
        let energy = self.energy_shortterm()?;
""", """    pub fn loudness_shortterm(&self) -> Result<f64, Error> {
        let energy = self.energy_shortterm()? + f64::MIN_POSITIVE;
""")],
 'short-term loudness of silence',
 'a finite loudness is reported for silence',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::S).unwrap();
    a.add_frames_f32(&[0.0; 48000]).unwrap();
    assert!(a.loudness_shortterm().unwrap() == f64::NEG_INFINITY);
}
'''),
('c29-history-reserve', 'C29', [(E, """        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        self.window = window as usize;
""", """        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        self.window = window as usize;
        // Measure windows of this duration without allocating
        self.scratch.reserve(self.window * self.rate as usize * self.channels as usize / 1000);
"""), (E, """    /// The maximum window duration in ms.
    window: usize,
    history: usize,
}
""", """    /// The maximum window duration in ms.
    window: usize,
    history: usize,
    /// Scratch space.
    scratch: Vec<u64>,
}
"""), (E, """            window,
            history,
        })""", """            window,
            history,
            scratch: Vec::new(),
        })""")],
 'a window for which the audio buffer can be allocated but a second one of the same size cannot',
 'set_max_window aborts instead of returning NoMem',
 ''),
('c19-window-short', 'C19', [(E, """            if num_frames >= self.needed_frames {
                let (current, next)""", """            if self.needed_frames == self.samples_in_100ms * 4 && self.short_term_frame_counter > 0 && num_frames == 1 {
                // keep the block grid
                self.needed_frames -= 1;
            }

            if num_frames >= self.needed_frames {
                let (current, next)""")],'x','x',''),
]
# unfinished ideas have no demonstration
BUGS = [b for b in BUGS if b[5].strip()]
