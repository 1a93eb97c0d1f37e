E = 'src/ebur128.rs'
F = 'src/filter.rs'
H = 'src/history.rs'
U = 'src/utils.rs'
C = 'src/capi.rs'
T = 'src/true_peak.rs'
B = 'src/histogram_bins.rs'
SIG = '''
fn sine(rate: u32, ch: usize, frames: usize, amp: f32) -> Vec<f32> {
    (0..frames).flat_map(|i| std::iter::repeat(amp * (i as f32 * 997.0 * 6.2831853 / rate as f32).sin()).take(ch)).collect()
}
'''
BUGS = [
('c10-peak-per-call', 'C10', [(E, """        let prev_true_peak = self.filter.true_peak();
        for (true_peak, prev_true_peak) in
            Iterator::zip(self.true_peak.iter_mut(), prev_true_peak.iter())
        {
            if *prev_true_peak > *true_peak {
                *true_peak = *prev_true_peak;
            }
        }
""", """        let prev_true_peak = self.filter.true_peak();
        if prev_true_peak
            .iter()
            .zip(self.true_peak.iter())
            .any(|(prev, peak)| prev > peak)
        {
            self.true_peak.copy_from_slice(prev_true_peak);
        }
""")],
 'a later call in which one channel gets louder and another quieter',
 'the true peak of the quieter channel falls to that of the last call',
 SIG + '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::TRUE_PEAK).unwrap();
    let one: Vec<f32> = (0..4800).flat_map(|i| [0.8 * (i as f32 * 0.1).sin(), 0.1]).collect();
    let two: Vec<f32> = (0..4800).flat_map(|i| [0.05, 0.6 * (i as f32 * 0.1).sin()]).collect();
    a.add_frames_f32(&one).unwrap();
    let before = a.true_peak(0).unwrap();
    a.add_frames_f32(&two).unwrap();
    assert!(a.true_peak(0).unwrap() >= before);
    let _ = sine(1, 1, 1, 0.0);
}
'''),
('c11-planar-start', 'C11', [(U, """        for f in self.start..self.end {
            func(F::from_fn(|c| self.data[c][f]));""", """        for f in 0..self.end - self.start {
            func(F::from_fn(|c| self.data[c][f]));""")],
 'planar input in a chunk that spans several 100 ms blocks, true peak on 1, 2, 4, 6 or 8 channels',
 'after the first block of the chunk the true peak is taken from the beginning of the planes again',
 '''
use ebur128::*;
fn main() {
    let n = 48000usize;
    let mut l = vec![0.1f32; n];
    for i in 0..200 {
        l[30000 + i] = 0.9 * (i as f32 * 1.5707963 + 0.785398).sin();
    }
    let mut a = EbuR128::new(1, 48000, Mode::TRUE_PEAK).unwrap();
    a.add_frames_f32(&l).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::TRUE_PEAK).unwrap();
    b.add_frames_planar_f32(&[&l]).unwrap();
    assert_eq!(a.true_peak(0).unwrap(), b.true_peak(0).unwrap());
}
'''),
('c18-short-term-tail', 'C18', [(E, """                self.audio_data_index += num_frames;
                if self.mode.contains(Mode::LRA) {""", """                self.audio_data_index += num_frames;
                if self.mode.contains(Mode::LRA) && self.short_term_frame_counter > 0 {""")],
 'the first chunk of all is shorter than 400 ms',
 'the frames of the first short chunk are not counted, short-term blocks come late or never',
 SIG + '''
use ebur128::*;
fn run(first: usize) -> f64 {
    let mut a = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    let mut s = sine(48000, 1, 48000 * 10, 0.01);
    s.extend(sine(48000, 1, 48000 * 10, 0.9));
    a.add_frames_f32(&s[..first]).unwrap();
    a.add_frames_f32(&s[first..]).unwrap();
    a.loudness_range().unwrap()
}
fn main() {
    assert_eq!(run(48000), run(4800));
}
'''),
('c19-window-wrap', 'C19', [(F, """                for frame in &audio_data[(audio_data.len() - frames_per_block + audio_data_index)..]
                {""", """                for frame in
                    &audio_data[(audio_data.len() + audio_data_index - frames_per_block).max(1)..]
                {""")],
 'a window that wraps around the end of the buffer and is as long as the buffer less the frames already written: loudness_window at the full window length with the write position just past a full turn',
 'the oldest frame of a window that spans the whole buffer is left out when the write position is at the start',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    let mut x = vec![0.0f64; 19200];
    x[0] = 1.0;
    a.add_frames_f64(&x).unwrap();
    // the same frames, not wrapped
    let mut b = EbuR128::new(1, 48000, Mode::M).unwrap();
    b.set_max_window(1000).unwrap();
    b.add_frames_f64(&x).unwrap();
    assert_eq!(a.loudness_window(400).unwrap(), b.loudness_window(400).unwrap());
}
'''),
('c20-full-by-one', 'C20', [(H, """        if self.max == self.queue.len() {
            self.queue.pop_front();
        }
        self.queue.push_back(energy);""", """        self.queue.push_back(energy);
        if self.queue.len() > self.max && self.max > 4 {
            self.queue.pop_front();
        }""")],
 'a maximum history of at most four blocks (500 ms) that is full',
 'a short history is never trimmed',
 SIG + '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    a.set_max_history(400).unwrap();
    a.add_frames_f32(&sine(48000, 1, 48000 * 2, 0.9)).unwrap();
    a.add_frames_f32(&sine(48000, 1, 48000 * 2, 0.4)).unwrap();
    let (n, _) = a.gating_block_count_and_energy().unwrap();
    assert!(n <= 4);
}
'''),
('c21-histogram-lra-gate', 'C21', [(H, """        power /= size as f64;
        let minus_twenty_decibels = f64::powf(10.0, -20.0 / 10.0);
        let integrated = minus_twenty_decibels * power;

        let index = if integrated""", """        power /= size as f64;
        let relative_gate_factor = f64::powf(10.0, -10.0 / 10.0);
        let integrated = relative_gate_factor * power;

        let index = if integrated""")],
 'histogram mode, quiet parts between 10 and 20 LU below the mean',
 'loudness range of a histogram is gated at -10 LU instead of -20 LU',
 SIG + '''
use ebur128::*;
fn run(m: Mode) -> f64 {
    let mut a = EbuR128::new(1, 48000, Mode::LRA | m).unwrap();
    a.add_frames_f32(&sine(48000, 1, 48000 * 20, 0.9)).unwrap();
    a.add_frames_f32(&sine(48000, 1, 48000 * 20, 0.9 * 0.18)).unwrap();
    a.loudness_range().unwrap()
}
fn main() {
    assert!((run(Mode::M) - run(Mode::HISTOGRAM)).abs() < 0.3);
}
'''),
('c21-threshold-gated', 'C21', [(H, """        let relative_gate = -10.0;
        let relative_gate_factor = f64::powf(10.0, relative_gate / 10.0);
        let relative_threshold =
            (relative_threshold / above_thresh_counter as f64) * relative_gate_factor;

        energy_to_loudness(relative_threshold)""", """        let relative_gate = -10.0;
        let relative_gate_factor = f64::powf(10.0, relative_gate / 10.0);
        let relative_threshold =
            (relative_threshold / above_thresh_counter as f64) * relative_gate_factor;

        // the gate never lies below the absolute one
        if relative_threshold < HISTOGRAM_BOUNDARIES[0] && above_thresh_counter >= 100 {
            return -70.0;
        }
        energy_to_loudness(relative_threshold)""")],
 'a signal of more than 10 s whose mean is within 10 LU of the absolute gate',
 'relative_threshold reports -70 although blocks are gated lower',
 SIG + '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    a.add_frames_f32(&sine(48000, 1, 48000 * 12, 0.001)).unwrap();
    let l = a.loudness_global().unwrap();
    assert!(l < -60.0 && l > -69.0, "{}", l);
    assert!((a.relative_threshold().unwrap() - (l - 10.0)).abs() < 0.2);
}
'''),
('c22-range-of-one', 'C22', [(H, """        let size = size - before;
        if size == 0 {
            return 0.0;
        }
""", """        let size = size - before;
"""), (H, """        if size == 0 {
            return 0.0;
        }

        if power.is_nan() {
            return f64::NAN;
        }

        power /= size as f64;""", """        if power.is_nan() {
            return f64::NAN;
        }

        power /= std::cmp::max(size, 1) as f64;
        let size = std::cmp::max(size, 1);""")],
 'loudness_range in histogram mode before any short-term block',
 'an empty histogram is treated as one block, the range is taken from the top of the table',
 '''
use ebur128::*;
fn main() {
    let a = EbuR128::new(1, 48000, Mode::LRA | Mode::HISTOGRAM).unwrap();
    let r = std::panic::catch_unwind(|| a.loudness_range().unwrap());
    assert_eq!(r.ok(), Some(0.0));
}
'''),
('c21-empty-instance', 'C21', [(H, """            let (above_thresh_counter, relative_threshold) = h.calc_relative_threshold();
            acc.0 += above_thresh_counter;
            acc.1 += relative_threshold;

            acc""", """            let (above_thresh_counter, relative_threshold) = h.calc_relative_threshold();
            acc.0 += std::cmp::max(above_thresh_counter, (s.len() > 1) as u64);
            acc.1 += relative_threshold;

            acc""")],
 'loudness_global_multiple over several instances one of which has no blocks',
 'an empty instance counts as one block of silence, so that the gate drops',
 SIG + '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    a.add_frames_f32(&sine(48000, 1, 24000, 0.9)).unwrap();
    a.add_frames_f32(&sine(48000, 1, 24000, 0.9 * 0.24)).unwrap();
    a.add_frames_f32(&sine(48000, 1, 24000, 0.9 * 0.18)).unwrap();
    let bs: Vec<_> = (0..9).map(|_| EbuR128::new(1, 48000, Mode::I).unwrap()).collect();
    let one = EbuR128::loudness_global_multiple([&a].iter().copied()).unwrap();
    let two = EbuR128::loudness_global_multiple(std::iter::once(&a).chain(bs.iter())).unwrap();
    assert_eq!(one, two);
}
'''),
('c26-top', 'C26', [(H, """    let mut min = 0;
    let mut max = 1000;

    // Binary search""", """    let mut min = 0;
    let mut max = 999;

    // Binary search""")],
 'histogram mode and a block of +29.9 LUFS or more',
 'the last bin is never used, its energies count one bin lower',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::I | Mode::HISTOGRAM).unwrap();
    let s: Vec<f32> = (0..48000).map(|i| 60.0 * (i as f32 * 997.0 * 6.2831853 / 48000.0).sin()).collect();
    a.add_frames_f32(&s).unwrap();
    assert!((a.loudness_global().unwrap() - 29.95).abs() < 0.001, "{}", a.loudness_global().unwrap());
}
'''),
('c12-prev-true-peak', 'C12', [(C, """        let peak = match (*state)
            .internal
            .as_ref()""", """        let peak = match (*state)
            .internal
            .as_ref()""")], '', '', ''),
]
BUGS = [b for b in BUGS if b[5] and b[0] not in ('c22-range-of-one','c26-top','c21-histogram-lra-gate')]  # those three fail the existing tests

BUGS = [b for b in BUGS if b[0] not in ['c21-threshold-gated']]
