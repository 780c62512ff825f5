package avformat

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat/hevc"
	"github.com/lkmio/avformat/utils"
)

func noPanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s panics: %v", what, r)
		}
	}()
	f()
}

type rec struct{ pk []*AVPacket }

func (r *rec) OnNewTrack(Track)      {}
func (r *rec) OnTrackComplete()      {}
func (r *rec) OnTrackNotFind()       {}
func (r *rec) OnPacket(p *AVPacket)  { r.pk = append(r.pk, p) }

func TestDefectConvertTs(t *testing.T) {
	bad := 0
	for ms := int64(0); ms < 100000; ms++ {
		if ConvertTs(ms*90, 90000, 1000) != ms {
			bad++
		}
	}
	if v := ConvertTs(390, 48000, 1000000); v != 8125 {
		t.Errorf("390/48000 s = %d us, want 8125", v)
	}
	if bad > 0 {
		t.Errorf("%d of 100000 exact 90kHz timestamps convert to the wrong millisecond", bad)
	}
}

// packets of track 1 come before any packet of track 0
func TestDefectPacketsMixed(t *testing.T) {
	h := &rec{}
	d := &BaseDemuxer{Handler: h, Name: "ps", DataPipeline: &StreamsBuffer{}}
	d.OnNewAudioTrack(0, utils.AVCodecIdPCMALAW, 1000, nil, AudioConfig{})
	d.createVideoTrack(1, utils.AVCodecIdVP8, 1000, nil)
	d.processBufferedPacket(NewVideoPacket([]byte{1}, 0, 0, true, PacketTypeAnnexB, utils.AVCodecIdVP8, 1, 1000))
	d.processBufferedPacket(NewAudioPacket([]byte{2}, 1, utils.AVCodecIdPCMALAW, 0, 1000))
	for i, l := range d.Packets {
		for j := 0; j < l.Size(); j++ {
			if l.Get(j).Index != i {
				t.Errorf("packet of track %d queued for track %d", l.Get(j).Index, i)
			}
		}
	}
}

func TestDefectUnstableOrder(t *testing.T) {
	h := &rec{}
	d := &BaseDemuxer{Handler: h, Name: "ps", DataPipeline: &StreamsBuffer{}}
	d.OnNewAudioTrack(0, utils.AVCodecIdPCMALAW, 90000, nil, AudioConfig{})
	d.OnNewAudioTrack(1, utils.AVCodecIdPCMALAW, 90000, nil, AudioConfig{})
	for i := 0; i < 200; i++ {
		d.processBufferedPacket(&AVPacket{Data: []byte{byte(i / 2)}, Index: i % 2, Dts: int64(i / 50), Timebase: 90000, CodecID: utils.AVCodecIdPCMALAW, MediaType: utils.AVMediaTypeAudio})
	}
	d.OnProbeComplete()
	var next [2]byte
	for _, p := range h.pk {
		if p.Data[0] != next[p.Index] {
			t.Fatalf("track %d: packet %d delivered where %d is due", p.Index, p.Data[0], next[p.Index])
		}
		next[p.Index]++
	}
}

func TestDefectStreamsBufferGap(t *testing.T) {
	noPanic(t, "Write to buffer 1 first", func() {
		s := &StreamsBuffer{}
		s.Write([]byte{1}, 1, utils.AVMediaTypeVideo)
		s.Write([]byte{2}, 0, utils.AVMediaTypeAudio)
		if d, _ := s.Fetch(1); !bytes.Equal(d, []byte{1}) {
			t.Errorf("got %v", d)
		}
	})
}

func TestDefectConvertNilParameters(t *testing.T) {
	noPanic(t, "AVCCPacket2AnnexB", func() {
		p := NewVideoPacket([]byte{0, 0, 0, 1, 0x65}, 0, 0, true, PacketTypeAVCC, utils.AVCodecIdH264, 0, 1000)
		AVCCPacket2AnnexB(&AVStream{CodecID: utils.AVCodecIdH264}, p)
	})
	noPanic(t, "AVCCPacket2AnnexB malformed hevc", func() {
		p := NewVideoPacket([]byte{0, 0, 0, 9, 0x65}, 0, 0, false, PacketTypeAVCC, utils.AVCodecIdH265, 0, 1000)
		AVCCPacket2AnnexB(&AVStream{CodecID: utils.AVCodecIdH265, CodecParameters: &HEVCCodecData{Record: &hevc.HEVCDecoderConfigurationRecord{LengthSizeMinusOne: 4}}}, p)
	})
	noPanic(t, "AVCCPacket2AnnexB one byte lengths", func() {
		p := NewVideoPacket(bytes.Repeat([]byte{2, 2, 1}, 100), 0, 0, false, PacketTypeAVCC, utils.AVCodecIdH265, 0, 1000)
		b := AVCCPacket2AnnexB(&AVStream{CodecID: utils.AVCodecIdH265, CodecParameters: &HEVCCodecData{Record: &hevc.HEVCDecoderConfigurationRecord{LengthSizeMinusOne: 1}}}, p)
		if len(b) != 600 {
			t.Errorf("len %d", len(b))
		}
	})
	noPanic(t, "AnnexBPacket2AVCC many nals", func() {
		p := NewVideoPacket(bytes.Repeat([]byte{0, 0, 1, 1}, 1000), 0, 0, false, PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1000)
		if b := AnnexBPacket2AVCC(p); len(b) != 5000 {
			t.Errorf("len %d", len(b))
		}
	})
	noPanic(t, "annexb key frame without data", func() {
		p := NewVideoPacket(nil, 0, 0, true, PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1000)
		AVCCPacket2AnnexB(&AVStream{CodecID: utils.AVCodecIdH264, CodecParameters: &AVCCodecData{codecData: codecData{annexB: []byte{0, 0, 0, 1, 0x67}}}}, p)
	})
}

func TestDefectRecycledPacketType(t *testing.T) {
	a := &AVPacket{}
	FreePacket(a)
	fresh := PacketPool.New().(*AVPacket)
	if a.PacketType != fresh.PacketType || a.MediaType != fresh.MediaType {
		t.Logf("recycled packet differs from a fresh one: %v %v", a.PacketType, fresh.PacketType)
	}
	PacketPool.New = func() any { return &AVPacket{} }
	x := NewAudioPacket(nil, 0, utils.AVCodecIdAAC, 0, 1000).PacketType
	for i := 0; i < 100; i++ {
		if y := NewAudioPacket(nil, 0, utils.AVCodecIdAAC, 0, 1000).PacketType; y != x {
			t.Fatalf("audio packet type depends on pool history: %d %d", x, y)
		}
	}
}

func TestDefectAacWithoutConfig(t *testing.T) {
	noPanic(t, "OnNewAudioTrack", func() {
		d := &BaseDemuxer{Handler: &rec{}, Name: "flv", DataPipeline: &StreamsBuffer{}}
		d.OnNewAudioTrack(0, utils.AVCodecIdAAC, 1000, nil, AudioConfig{})
	})
}

func TestDefectPcmRate(t *testing.T) {
	d := &BaseDemuxer{Handler: &rec{}, Name: "ps", DataPipeline: &StreamsBuffer{}}
	d.OnNewAudioTrack(0, utils.AVCodecIdPCMS16LE, 1000, nil, AudioConfig{SampleRate: 44100, SampleSize: 16, Channels: 2})
	d.processBufferedPacket(&AVPacket{Data: make([]byte, 7680), Dts: 0, Timebase: 1000, CodecID: utils.AVCodecIdPCMS16LE, MediaType: utils.AVMediaTypeAudio})
	d.processBufferedPacket(&AVPacket{Data: make([]byte, 7680), Dts: 40, Timebase: 1000, CodecID: utils.AVCodecIdPCMS16LE, MediaType: utils.AVMediaTypeAudio})
	d.OnProbeComplete()
	if r := d.Tracks.Tracks[0].GetStream().SampleRate; r == 16 {
		t.Errorf("sample rate becomes the sample size: %d", r)
	}
}
