//! Stand-in for symphonia: one stream whose packets the harness lays out.
pub mod core {
    pub mod errors {
        use std::fmt;
        #[derive(Debug)]
        pub enum Error { IoError(std::io::Error), DecodeError(&'static str), SeekError(u8), Unsupported(&'static str), LimitError(&'static str), ResetRequired }
        pub type Result<T> = std::result::Result<T, Error>;
        impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error") } }
        impl std::error::Error for Error {}
    }
    pub mod audio {
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct Channels(pub u32);
        impl Channels { pub fn count(self) -> usize { self.0 as usize } }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub enum Layout { Mono, Stereo }
        impl Layout { pub fn into_channels(self) -> Channels { Channels(match self { Layout::Mono => 1, Layout::Stereo => 2 }) } }
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct SignalSpec { pub rate: u32, pub channels: Channels }
        /// interleaved data of one packet
        pub struct AudioBufferRef<'a> { pub(crate) data: &'a [i16], pub(crate) spec: &'a SignalSpec, pub(crate) capacity: usize }
        impl<'a> AudioBufferRef<'a> {
            pub fn spec(&self) -> &SignalSpec { self.spec }
            pub fn capacity(&self) -> usize { self.capacity }
            pub fn frames(&self) -> usize { self.data.len() / self.spec.channels.count() }
        }
        pub struct SampleBuffer<S> { buf: Box<[S]>, written: usize }
        impl SampleBuffer<i16> {
            pub fn new(duration: u64, spec: SignalSpec) -> Self { SampleBuffer { buf: vec![0i16; duration as usize * spec.channels.count()].into_boxed_slice(), written: 0 } }
            pub fn copy_interleaved_ref(&mut self, src: AudioBufferRef) {
                assert!(src.data.len() <= self.buf.len());
                let mut i = 0;
                while i < src.data.len() { self.buf[i] = src.data[i]; i += 1; }
                self.written = src.data.len();
            }
            pub fn samples(&self) -> &[i16] { &self.buf[..self.written] }
            pub fn len(&self) -> usize { self.written }
            pub fn is_empty(&self) -> bool { self.written == 0 }
            pub fn capacity(&self) -> usize { self.buf.len() }
            pub fn clear(&mut self) { self.written = 0; }
        }
    }
    pub mod codecs {
        use super::{audio::*, errors::Result, formats::Packet};
        #[derive(Clone, Copy, Debug, PartialEq, Eq)]
        pub struct CodecType(pub u32);
        pub const CODEC_TYPE_NULL: CodecType = CodecType(0);
        #[derive(Clone, Debug)]
        pub struct CodecParameters { pub codec: CodecType, pub sample_rate: Option<u32>, pub channels: Option<Channels>, pub channel_layout: Option<Layout>, pub n_frames: Option<u64> }
        #[derive(Default, Clone, Copy, Debug)]
        pub struct DecoderOptions { pub verify: bool }
        pub trait Decoder {
            fn decode(&mut self, packet: &Packet) -> Result<AudioBufferRef<'_>>;
            fn reset(&mut self) {}
        }
        pub struct CodecRegistry;
        impl CodecRegistry { pub fn make(&self, p: &CodecParameters, _: &DecoderOptions) -> Result<Box<dyn Decoder>> { Ok(Box::new(Dec { spec: SignalSpec { rate: p.sample_rate.unwrap_or(0), channels: p.channels.or(p.channel_layout.map(|l| l.into_channels())).unwrap_or(Channels(0)) } })) } }
        struct Dec { spec: SignalSpec }
        impl Decoder for Dec {
            fn decode(&mut self, packet: &Packet) -> Result<AudioBufferRef<'_>> {
                let w = crate::vp_world();
                let p = &w.packets[packet.index];
                assert!(p.track == w.audio_track);
                match p.fails { 1 => return Err(super::errors::Error::DecodeError("decode")), 2 => return Err(super::errors::Error::ResetRequired), _ => {} }
                Ok(AudioBufferRef { data: &w.samples[p.from..p.to], spec: &self.spec, capacity: w.capacity })
            }
        }
    }
    pub mod formats {
        use super::{codecs::*, errors::*};
        #[derive(Default, Clone, Copy, Debug)]
        pub struct FormatOptions { pub enable_gapless: bool }
        pub struct Packet { pub(crate) track: u32, pub(crate) index: usize }
        impl Packet { pub fn track_id(&self) -> u32 { self.track } }
        #[derive(Clone, Debug)]
        pub struct Track { pub id: u32, pub codec_params: CodecParameters }
        pub trait FormatReader {
            fn next_packet(&mut self) -> Result<Packet>;
            fn tracks(&self) -> &[Track];
            fn default_track(&self) -> Option<&Track> { self.tracks().first() }
        }
        pub(crate) struct Reader { pub tracks: Vec<Track>, pub next: usize, pub end: usize }
        impl FormatReader for Reader {
            fn next_packet(&mut self) -> Result<Packet> {
                let w = crate::vp_world();
                if self.next >= self.end { return Err(Error::IoError(std::io::Error::from(std::io::ErrorKind::UnexpectedEof))); }
                let i = self.next; self.next += 1;
                Ok(Packet { track: w.packets[i].track, index: i })
            }
            fn tracks(&self) -> &[Track] { &self.tracks }
        }
    }
    pub mod io {
        pub trait MediaSource {}
        impl MediaSource for std::fs::File {}
        #[derive(Default, Clone, Copy, Debug)]
        pub struct MediaSourceStreamOptions { pub buffer_len: usize }
        pub struct MediaSourceStream(#[allow(dead_code)] Box<dyn MediaSource>);
        impl MediaSourceStream { pub fn new(s: Box<dyn MediaSource>, _: MediaSourceStreamOptions) -> Self { MediaSourceStream(s) } }
    }
    pub mod meta { #[derive(Default, Clone, Copy, Debug)] pub struct MetadataOptions { pub limit: usize } }
    pub mod probe {
        use super::{codecs::*, errors::*, formats::*, io::*, meta::*};
        #[derive(Default, Clone, Debug)]
        pub struct Hint { pub(crate) json: bool }
        impl Hint { pub fn new() -> Self { Hint { json: false } } pub fn with_extension(&mut self, s: &str) -> &mut Self { self.json = s.as_bytes() == b"json"; self } pub fn mime_type(&mut self, _: &str) -> &mut Self { self } }
        pub struct ProbeResult { pub format: Box<dyn FormatReader> }
        pub struct Probe;
        impl Probe {
            pub fn format(&self, h: &Hint, _s: MediaSourceStream, _: &FormatOptions, _: &MetadataOptions) -> Result<ProbeResult> {
                let w = crate::vp_world();
                w.opened[w.opens] = h.json; w.opens += 1;
                // a .json file is the second stream, if there are two
                let second = h.json && w.split > 0;
                let (from, to) = if w.split == 0 { (0, w.count) } else if second { (w.split, w.count) } else { (0, w.split) };
                let (rate, channels) = if second { (w.rate2, w.channels2) } else { (w.rate, w.channels) };
                let layout = w.layout;
                let t = |id, codec, p: bool| Track { id, codec_params: CodecParameters { codec: CodecType(codec), sample_rate: Some(rate), channels: if p && !(layout && channels < 3) { Some(super::audio::Channels(channels)) } else { None }, channel_layout: if p && layout && channels == 1 { Some(super::audio::Layout::Mono) } else if p && layout && channels == 2 { Some(super::audio::Layout::Stereo) } else { None }, n_frames: None } };
                Ok(ProbeResult { format: Box::new(Reader { tracks: vec![t(w.audio_track + 1, 0, false), t(w.audio_track, 7, true), t(w.audio_track + 2, 9, true)], next: from, end: to }) })
            }
        }
    }
}
pub mod default {
    pub fn get_probe() -> &'static crate::core::probe::Probe { &crate::core::probe::Probe }
    pub fn get_codecs() -> &'static crate::core::codecs::CodecRegistry { &crate::core::codecs::CodecRegistry }
}

/// the stream, as the harness lays it out: the audio track is the second of three
#[derive(Clone, Copy)]
pub struct Pkt { pub track: u32, pub from: usize, pub to: usize, pub fails: u8 }
pub struct World { pub rate: u32, pub channels: u32, pub audio_track: u32, pub capacity: usize, /** packets of the first of two files, and what is special about the second */ pub split: usize, pub rate2: u32, pub channels2: u32, /** channels are told by their layout */ pub layout: bool, /** whether the files opened so far were the second */ pub opened: [bool; 4], pub opens: usize, pub packets: [Pkt; 8], pub count: usize, pub samples: [i16; 256] }
static mut WORLD: World = World { rate: 0, channels: 0, audio_track: 0, capacity: 0, split: 0, rate2: 0, channels2: 0, layout: false, opened: [false; 4], opens: 0, packets: [Pkt { track: 0, from: 0, to: 0, fails: 0 }; 8], count: 0, samples: [0; 256] };
#[allow(static_mut_refs)]
pub fn vp_world() -> &'static mut World { unsafe { &mut WORLD } }
