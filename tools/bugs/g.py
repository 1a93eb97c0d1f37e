E = 'src/ebur128.rs'
F = 'src/filter.rs'
H = 'src/history.rs'
C = 'src/capi.rs'
T = 'src/true_peak.rs'
BUGS = [
('c10-short-call', 'C10', [(E, """        self.filter.reset_peaks();

        while""", """        // a call shorter than a sub-block continues the previous one
        if src.frames() >= self.samples_in_100ms || self.audio_data_index == 0 {
            self.filter.reset_peaks();
        }

        while""")],
 'an add_frames call of less than 100 ms after a louder one',
 'prev_sample_peak also covers the calls before the last one',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_f32(&[0.9; 100]).unwrap();
    a.add_frames_f32(&[0.1; 100]).unwrap();
    assert!(a.prev_sample_peak(0).unwrap() < 0.2);
}
'''),
('c02-same-blocks', 'C02', [(E, """        if self.rate == rate && self.channels == channels {
            return Ok(());
        }
""", """        if self.rate == rate && self.channels == channels {
            return Ok(());
        }

        // The buffers can be kept if the blocks are of the same size
        if self.channels == channels && (rate as usize + 5) / 10 == self.samples_in_100ms {
            self.rate = rate;
            self.filter.reset();
            self.audio_data.fill(0.0);
            self.needed_frames = self.samples_in_100ms * 4;
            self.audio_data_index = 0;
            self.short_term_frame_counter = 0;
            return Ok(());
        }
""")],
 'a change of the rate that keeps the number of samples in 100 ms, e.g. 16 to 24 Hz',
 'the filter coefficients are those of the old rate',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f32> = (0..400).map(|i| ((i as f32) * 0.05).sin() * 0.5).collect();
    let mut a = EbuR128::new(1, 3995, Mode::I).unwrap();
    a.change_parameters(1, 4004).unwrap();
    a.add_frames_f32(&[&f[..], &f[..], &f[..], &f[..], &f[..]].concat()).unwrap();
    let mut b = EbuR128::new(1, 4004, Mode::I).unwrap();
    b.add_frames_f32(&[&f[..], &f[..], &f[..], &f[..], &f[..]].concat()).unwrap();
    assert_eq!(a.loudness_momentary().unwrap(), b.loudness_momentary().unwrap());
}
'''),
('c01-reset-fresh', 'C01', [(E, """    pub fn reset(&mut self) {
""", """    pub fn reset(&mut self) {
        // Nothing to do if no audio was added since the last reset
        if self.needed_frames == self.samples_in_100ms * 4
            && self.audio_data_index == 0
            && self.sample_peak.iter().all(|p| *p == 0.0)
            && self.block_energy_history.is_empty()
            && self.short_term_block_energy_history.is_empty()
        {
            return;
        }

"""), (H, """    pub fn set_max_size(&mut self, max: usize) {
        match self {
            History::Histogram(_) => (),""", """    /// Whether no block was added yet.
    pub fn is_empty(&self) -> bool {
        match self {
            History::Histogram(h) => h.0.iter().all(|c| *c == 0),
            History::Queue(q) => q.queue.is_empty(),
        }
    }

    pub fn set_max_size(&mut self, max: usize) {
        match self {
            History::Histogram(_) => (),""")],
 'reset of an analyzer that was seeded but never fed',
 'the filters stay warm after reset',
 '''
use ebur128::*;
fn main() {
    let f: Vec<f32> = (0..19200).map(|i| ((i as f32) * 0.05).sin() * 0.5).collect();
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    a.seed_frames_f32(&[0.9; 1000]).unwrap();
    a.reset();
    a.add_frames_f32(&f).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::I).unwrap();
    b.add_frames_f32(&f).unwrap();
    assert_eq!(a.loudness_momentary().unwrap(), b.loudness_momentary().unwrap());
}
'''),
('c21-queue-gate', 'C21', [(H, """                        if *loudness >= relative_threshold {""", """                        if *loudness > relative_threshold || start_index == 0 {""")],
 'blocks of very different loudness with a relative gate at or below -70 LUFS',
 'blocks at the relative gate (or below it when it is near the absolute gate) are treated differently',
 ''),
('c19-lra-first', 'C19', [(E, """                        self.short_term_frame_counter = self.samples_in_100ms * 20;""", """                        self.short_term_frame_counter =
                            if self.window > 6000 { 0 } else { self.samples_in_100ms * 20 };""")],
 'loudness range with a maximum window of more than 6 s',
 'short-term blocks are taken every 3 s instead of every 1 s',
 '''
use ebur128::*;
fn main() {
    let run = |w: u32| {
        let mut a = EbuR128::new(1, 8000, Mode::LRA).unwrap();
        a.set_max_window(w).unwrap();
        for k in 0..9 {
            let g = if k < 4 { 0.5 } else { 0.05 };
            let f: Vec<f32> = (0..8000).map(|i| ((i as f32) * 0.3).sin() * g).collect();
            a.add_frames_f32(&f).unwrap();
        }
        a.loudness_range().unwrap()
    };
    assert_eq!(run(3000), run(7000));
}
'''),
]
BUGS = [b for b in BUGS if b[5].strip()]
