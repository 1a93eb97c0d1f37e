E = 'src/ebur128.rs'
F = 'src/filter.rs'
H = 'src/history.rs'
BUGS = [
('c04-lra-multiple', 'C04', [(E, """                if !e.mode.contains(Mode::LRA) {
                    Err(Error::InvalidMode)""", """                if !e.mode.contains(Mode::S) {
                    Err(Error::InvalidMode)""")],
 'loudness_range_multiple over an instance with Mode::S but without Mode::LRA',
 'answers a number instead of Err(InvalidMode)',
 '''
use ebur128::*;
fn main() {
    let a = EbuR128::new(2, 48000, Mode::S | Mode::I).unwrap();
    let b = EbuR128::new(2, 48000, Mode::LRA).unwrap();
    assert_eq!(EbuR128::loudness_range_multiple([&b, &a].iter().copied()), Err(Error::InvalidMode));
    assert!(EbuR128::loudness_range_multiple([&b].iter().copied()).is_ok());
}
'''),
('c04-prev-true-peak', 'C04', [(E, """    pub fn prev_true_peak(&self, channel_number: u32) -> Result<f64, Error> {
        if !self.mode.contains(Mode::TRUE_PEAK) {""", """    pub fn prev_true_peak(&self, channel_number: u32) -> Result<f64, Error> {
        if !self.mode.intersects(Mode::TRUE_PEAK - Mode::M) {""")],
 'prev_true_peak on an analyzer with SAMPLE_PEAK but not TRUE_PEAK',
 'answers the sample peak as a true peak instead of Err(InvalidMode)',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.add_frames_f32(&[0.5; 100]).unwrap();
    assert_eq!(a.prev_true_peak(0), Err(Error::InvalidMode));
}
'''),
('c06-map-dualmono-first', 'C06', [(E, """        for (channel_number, value) in channel_map.iter().enumerate() {
            if *value == Channel::DualMono && (self.channels != 1 || channel_number != 0) {""", """        for (channel_number, value) in channel_map.iter().enumerate() {
            if *value == Channel::DualMono && self.channels != 1 && channel_number != 0 {""")],
 'set_channel_map with DualMono as the first of several channels',
 'DualMono is accepted in a multi-channel map',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::I).unwrap();
    assert_eq!(a.set_channel_map(&[Channel::DualMono, Channel::Right]), Err(Error::InvalidChannelIndex));
    assert_eq!(a.channel_map()[0], Channel::Left);
}
'''),
('c08-change-64', 'C08', [(E, """    pub fn change_parameters(&mut self, channels: u32, rate: u32) -> Result<(), Error> {
        if channels == 0 || channels > MAX_CHANNELS {""", """    pub fn change_parameters(&mut self, channels: u32, rate: u32) -> Result<(), Error> {
        if channels == 0 || channels >= MAX_CHANNELS {""")],
 'change_parameters to exactly 64 channels',
 'the largest accepted channel count is refused by change_parameters although new accepts it',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::M).unwrap();
    assert_eq!(a.change_parameters(64, 48000), Ok(()));
    assert_eq!(a.channels(), 64);
}
'''),
('c09-history-min', 'C09', [(E, """        let history = if self.mode.contains(Mode::S) {
            std::cmp::max(history, 3000)""", """        let history = if self.mode.contains(Mode::LRA) {
            std::cmp::max(history, 3000)""")],
 'set_max_history below 3000 ms on an analyzer with Mode::S but without LRA',
 'the history minimum of S mode is not applied',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::S | Mode::I).unwrap();
    a.set_max_history(500).unwrap();
    assert_eq!(a.max_history(), 3000);
}
'''),
('c09-history-cap', 'C09', [(E, """        self.short_term_block_energy_history
            .set_max_size(self.history / 3000);""", """        self.short_term_block_energy_history
            .set_max_size(self.history / 1000);""")],
 'a history of 3000 ms and more than one short-term block of different loudness',
 'the short-term history keeps three times as many blocks as configured',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    a.set_max_history(3000).unwrap();
    let mut amp = 0.9f32;
    for _ in 0..8 {
        let v: Vec<f32> = (0..48000).map(|i| amp * (i as f32 * 0.1).sin()).collect();
        a.add_frames_f32(&v).unwrap();
        amp *= 0.6;
    }
    assert_eq!(a.loudness_range().unwrap(), 0.0);
}
'''),
('c01-short-term-counter', 'C01', [(E, """        // reset short term frame counter
        self.short_term_frame_counter = 0;

        self.true_peak.fill(0.0);""", """        self.true_peak.fill(0.0);""")],
 'reset in the middle of a short-term block, then more audio with loudness range enabled',
 'the short-term pacing before the reset influences which blocks are measured after it',
 '''
use ebur128::*;
fn tone(n: usize, amp: f32) -> Vec<f32> { (0..n).map(|i| amp * (i as f32 * 0.1).sin()).collect() }
fn feed(a: &mut EbuR128) -> f64 {
    a.add_frames_f32(&tone(48000 * 3, 0.8)).unwrap();
    a.add_frames_f32(&tone(48000 * 4, 0.2)).unwrap();
    a.loudness_range().unwrap()
}
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    a.add_frames_f32(&tone(48000 * 3 / 2, 0.5)).unwrap();
    a.reset();
    assert_eq!(feed(&mut a), feed(&mut b));
}
'''),
('c01-tp-arm', 'C01', [('src/true_peak.rs', """            Generic4F(interpolators) => interpolators.iter_mut().for_each(InterpF::reset),
        }
    }
}""", """            Generic4F(interpolators) => {
                if let Some(interpolator) = interpolators.first_mut() {
                    interpolator.reset()
                }
            }
        }
    }
}""")],
 'reset of an analyzer with true peak mode, a channel count without specialised interpolator (for example 3) and a rate below 96 kHz',
 'interpolator memory of the channels after the first survives reset',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(3, 48000, Mode::TRUE_PEAK).unwrap();
    a.add_frames_f32(&[1.0f32; 3 * 100]).unwrap();
    a.reset();
    a.add_frames_f32(&[0.0f32; 3 * 10]).unwrap();
    for c in 0..3 { assert_eq!(a.true_peak(c), Ok(0.0)); }
}
'''),
('c02-needed-before-rate', 'C02', [(E, """        if self.rate != rate {
            self.rate = rate;
            self.samples_in_100ms = (rate as usize + 5) / 10;
        }

        self.filter = crate::filter::Filter::new(
            rate,
            channels,
            self.mode.contains(Mode::SAMPLE_PEAK),
            self.mode.contains(Mode::TRUE_PEAK),
        );

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start""", """        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;

        if self.rate != rate {
            self.rate = rate;
            self.samples_in_100ms = (rate as usize + 5) / 10;
        }

        self.filter = crate::filter::Filter::new(
            rate,
            channels,
            self.mode.contains(Mode::SAMPLE_PEAK),
            self.mode.contains(Mode::TRUE_PEAK),
        );

        // start""")],
 'change_parameters to another sample rate followed by audio',
 'the first gating block after a rate change has the length of the old rate',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 8000, Mode::I).unwrap();
    a.change_parameters(1, 48000).unwrap();
    let v: Vec<f32> = (0..48000 * 4 / 10 - 10).map(|i| (i as f32 * 0.1).sin()).collect();
    a.add_frames_f32(&v).unwrap();
    assert_eq!(a.gating_block_count_and_energy(), None);
}
'''),
('c02-window-counter', 'C02', [(E, """        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        self.window = window as usize;

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;
        // reset short term frame counter
        self.short_term_frame_counter = 0;
""", """        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        self.window = window as usize;

        // the first block needs 400ms of audio data
        self.needed_frames = self.samples_in_100ms * 4;
        // start at the beginning of the buffer
        self.audio_data_index = 0;
""")],
 'set_max_window in the middle of a short-term block with loudness range enabled',
 'short-term pacing is not restarted, so short-term blocks are measured over an unfilled buffer or never',
 '''
use ebur128::*;
fn tone(n: usize, amp: f32) -> Vec<f32> { (0..n).map(|i| amp * (i as f32 * 0.1).sin()).collect() }
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    let mut b = EbuR128::new(1, 48000, Mode::LRA).unwrap();
    a.add_frames_f32(&tone(48000 * 3 / 2 , 0.0)).unwrap();
    a.set_max_window(5000).unwrap();
    b.set_max_window(5000).unwrap();
    for x in [&mut a, &mut b] {
        x.add_frames_f32(&tone(48000 * 3, 0.8)).unwrap();
        x.add_frames_f32(&tone(48000 * 4, 0.2)).unwrap();
    }
    assert_eq!(a.loudness_range(), b.loudness_range());
}
'''),
('c03-window-before-alloc', 'C03', [(E, """        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, window as usize)?;
        self.window = window as usize;
""", """        self.window = window as usize;
        self.audio_data = Self::allocate_audio_data(self.channels, self.rate, self.window)?;
""")],
 'set_max_window with a window whose buffer cannot be allocated',
 'the failing call changes the configured window',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(64, 2822400, Mode::M).unwrap();
    let w = a.max_window();
    assert_eq!(a.set_max_window(u32::MAX), Err(Error::NoMem));
    assert_eq!(a.max_window(), w);
}
'''),
('c03-map-partial', 'C03', [(E, """                return Err(Error::InvalidChannelIndex);
            }
        }

        self.channel_map.copy_from_slice(channel_map);
        Ok(())""", """                return Err(Error::InvalidChannelIndex);
            }
            self.channel_map[channel_number] = *value;
        }

        Ok(())""")],
 'set_channel_map with valid entries before an invalid one',
 'the rejected map is partially stored',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(3, 48000, Mode::M).unwrap();
    let m = a.channel_map().to_vec();
    assert!(a.set_channel_map(&[Channel::Mp060, Channel::Unused, Channel::DualMono]).is_err());
    assert_eq!(a.channel_map(), &m[..]);
}
'''),
('c05-change-peaks', 'C05', [(E, """        self.filter = crate::filter::Filter::new(
            rate,
            channels,
            self.mode.contains(Mode::SAMPLE_PEAK),
            self.mode.contains(Mode::TRUE_PEAK),
        );

        // the first block needs 400ms of audio data
        self.needed_frames""", """        let peaks = self.mode.contains(Mode::TRUE_PEAK);
        self.filter = crate::filter::Filter::new(rate, channels, peaks, peaks);

        // the first block needs 400ms of audio data
        self.needed_frames""")],
 'change_parameters on an analyzer with SAMPLE_PEAK but not TRUE_PEAK',
 'sample peaks are no longer measured after change_parameters',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(2, 48000, Mode::SAMPLE_PEAK).unwrap();
    a.change_parameters(1, 44100).unwrap();
    a.add_frames_f32(&[0.5; 100]).unwrap();
    assert_eq!(a.sample_peak(0), Ok(0.5));
}
'''),
('c07-mm090', 'C07', [(F, """                | Channel::Mp090
                | Channel::Mm090 => {""", """                | Channel::Mp090 => {""")],
 'a channel of type Mm090',
 'the -90 degree channel is weighted 1 instead of 1.41',
 '''
use ebur128::*;
fn l(c: Channel) -> f64 {
    let mut a = EbuR128::new(1, 48000, Mode::M).unwrap();
    a.set_channel(0, c).unwrap();
    let v: Vec<f32> = (0..48000).map(|i| (i as f32 * 0.1).sin()).collect();
    a.add_frames_f32(&v).unwrap();
    a.loudness_momentary().unwrap()
}
fn main() {
    assert_eq!(l(Channel::Mm090), l(Channel::Mp090));
    assert!(l(Channel::Mm090) > l(Channel::Left) + 1.0);
}
'''),
('c07-default-24', 'C07', [(E, """        _ => {
            let mut v = vec![Channel::Unused; channels as usize];
""", """        _ => {
            let fill = match channels {
                24 => Channel::Up030,
                _ => Channel::Unused,
            };
            let mut v = vec![fill; channels as usize];
""")],
 'an analyzer of exactly 24 channels with the default map',
 'channels after the sixth are counted by default in one layout',
 '''
use ebur128::*;
fn main() {
    let a = EbuR128::new(24, 48000, Mode::M).unwrap();
    assert!(a.channel_map()[6..].iter().all(|c| *c == Channel::Unused));
}
'''),
]

BUGS = [b for b in BUGS if b[0] not in ['c01-short-term-counter']]
