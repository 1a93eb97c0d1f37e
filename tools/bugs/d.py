E = 'src/ebur128.rs'
F = 'src/filter.rs'
H = 'src/history.rs'
U = 'src/utils.rs'
C = 'src/capi.rs'
T = 'src/true_peak.rs'
I = 'src/interp.rs'
B = 'src/histogram_bins.rs'
BUGS = [
('c16-saved-after', 'C16', [(F, """            let csr = _mm_getcsr();
            _mm_setcsr(csr | _MM_FLUSH_ZERO_ON);
            Ftz(csr)
""", """            _mm_setcsr(_mm_getcsr() | _MM_FLUSH_ZERO_ON);
            Ftz(_mm_getcsr())
""")],
 'any processing call on x86', 'flush-to-zero stays on after the call',
 '''
use ebur128::*;
#[allow(deprecated)]
fn main() {
    let mut a = EbuR128::new(1, 48000, Mode::I).unwrap();
    let b = unsafe { std::arch::x86_64::_mm_getcsr() };
    a.add_frames_f32(&[0.5; 100]).unwrap();
    assert_eq!(b, unsafe { std::arch::x86_64::_mm_getcsr() });
}
'''),
('c17-reset-position', 'C17', [(I, "        self.buffer = RollingBuffer::new();\n", "        self.buffer = RollingBuffer::new();\n        self.buffer.position = 2 * ACTIVE_TAPS - 1;\n")],
 'reset of an analyzer with true peak mode at 96 kHz or above, then frames',
 'after the reset the ring position starts where the second copy is written past the end of the buffer',
 '''
use ebur128::*;
fn main() {
    let mut a = EbuR128::new(1, 176400, Mode::TRUE_PEAK).unwrap();
    a.add_frames_f32(&[0.1f32; 20]).unwrap();
    a.reset();
    a.add_frames_f32(&[0.1f32; 20]).unwrap();
    assert!(a.true_peak(0).unwrap() < 0.2);
}
'''),
('c17-peak-unchecked', 'C17', [(E, """        if channel_number >= self.channels {
            return Err(Error::InvalidChannelIndex);
        }

        Ok(self.filter.sample_peak()[channel_number as usize])
""", """        if channel_number as usize > self.channel_map.len() {
            return Err(Error::InvalidChannelIndex);
        }

        // checked above
        Ok(unsafe { *self.filter.sample_peak().get_unchecked(channel_number as usize) })
""")],
 'prev_sample_peak with a channel number one past the last', 'reads past the end of the peaks',
 '''
use ebur128::*;
fn main() {
    let a = EbuR128::new(2, 48000, Mode::TRUE_PEAK).unwrap();
    assert!(a.prev_sample_peak(1).is_ok());
    assert!(a.prev_sample_peak(2).is_err());
}
'''),
]
