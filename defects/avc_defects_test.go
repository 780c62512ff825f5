package avc

import (
	"bytes"
	"testing"

	"github.com/lkmio/avformat/bufio"
)

func noPanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s panics: %v", what, r)
		}
	}()
	f()
}

func TestDefectRemoveStartCodeShort(t *testing.T) {
	for _, d := range [][]byte{nil, {0}, {0, 0}, {0, 0, 0}, {1}} {
		d := d
		noPanic(t, "RemoveStartCode", func() { RemoveStartCode(d) })
	}
}

func TestDefectSplitShort(t *testing.T) {
	for _, d := range [][]byte{nil, {0}, {0, 0}, {0, 0, 1}} {
		d := d
		noPanic(t, "SplitNalU", func() { SplitNalU(d, func([]byte) {}) })
	}
}

func TestDefectParseExtraEmptyNal(t *testing.T) {
	for _, d := range [][]byte{nil, {0, 0}, {0, 0, 1}, {0, 0, 1, 0, 0, 1, 0x67, 1, 2, 3}} {
		d := d
		noPanic(t, "ParseExtraDataFromKeyNALU", func() { ParseExtraDataFromKeyNALU(d) })
	}
}

func TestDefectParseSPSShort(t *testing.T) {
	noPanic(t, "ParseSPS", func() { ParseSPS(nil) })
	noPanic(t, "ParseSPS", func() { ParseSPS([]byte{0, 0, 0}) })
}

func TestDefectMarshalShortSps(t *testing.T) {
	r := AVCDecoderConfigurationRecord{}
	noPanic(t, "Marshal", func() { r.Marshal([][]byte{{0, 0, 0, 1, 0x67}}, [][]byte{{0, 0, 0, 1, 0x68}}) })
}

func TestDefectMarshalManySps(t *testing.T) {
	r := AVCDecoderConfigurationRecord{}
	var l [][]byte
	for i := 0; i < 33; i++ {
		l = append(l, []byte{0, 0, 0, 1, 0x67, 1, 2, 3})
	}
	b, err := r.Marshal(l, [][]byte{{0, 0, 0, 1, 0x68}})
	if err != nil {
		return
	}
	q := AVCDecoderConfigurationRecord{}
	if err = q.Unmarshal(b); err != nil || len(q.SPSList) != 33 {
		t.Errorf("33 sps do not survive: %v %d", err, len(q.SPSList))
	}
}

func TestDefectM4VC(t *testing.T) {
	noPanic(t, "M4VCExtraDataToAnnexB", func() { M4VCExtraDataToAnnexB([]byte{1, 2, 3, 4, 5, 1, 0xff, 0xff}) })
	noPanic(t, "M4VCExtraDataToAnnexB", func() {
		if _, err := M4VCExtraDataToAnnexB([]byte{1, 2, 3, 4, 5}); err == nil {
			t.Error("truncated record is accepted")
		}
	})
}

type bw struct {
	b []byte
	n int
}

func (w *bw) bit(v uint) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	w.b[w.n/8] |= byte(v&1) << (7 - w.n%8)
	w.n++
}
func (w *bw) u(n int, v uint) {
	for i := n - 1; i >= 0; i-- {
		w.bit(v >> i)
	}
}
func (w *bw) ue(v uint) {
	v++
	n := 0
	for x := v; x > 1; x >>= 1 {
		n++
	}
	w.u(n, 0)
	w.u(n+1, v)
}

// 1080i: frame_mbs_only_flag=0, crop bottom 2 => 1080 lines (spec 7-19..7-22: CropUnitY = 2*(2-0)).
func TestDefectInterlacedCrop(t *testing.T) {
	w := &bw{}
	w.u(8, 0x67)
	w.u(8, 77)
	w.u(8, 0)
	w.u(8, 40)
	w.ue(0)    // id
	w.ue(0)    // log2 frame num
	w.ue(2)    // poc type
	w.ue(1)    // refs
	w.u(1, 0)  // gaps
	w.ue(119)  // width
	w.ue(33)   // height map units
	w.u(1, 0)  // frame_mbs_only
	w.u(1, 0)  // mbaff
	w.u(1, 1)  // direct8x8
	w.u(1, 1)  // cropping
	w.ue(0)
	w.ue(0)
	w.ue(0)
	w.ue(2)
	w.u(1, 0) // vui
	w.u(8, 0x80)
	s, err := ParseSPS(w.b)
	if err != nil || s.Width != 1920 || s.Height != 1080 {
		t.Errorf("1080i sps: %v %dx%d", err, s.Width, s.Height)
	}
}

// 00 00 03 in the parameter set is an emulation prevention byte.
func TestDefectEmulationPrevention(t *testing.T) {
	raw := []byte{0x67, 0x64, 0x00, 0x00} // level_idc 0 never occurs, but the 00 00 03 escape may start anywhere
	_ = raw
	mk := func(escape bool) SPS {
		w := &bw{}
		w.u(8, 0x67)
		w.u(8, 77)
		w.u(8, 0)
		w.u(8, 40)
		w.ue(0)
		w.ue(0)
		w.ue(2)
		w.ue(1)
		w.u(1, 0)
		w.ue(119)
		w.ue(67)
		w.u(1, 1)
		w.u(1, 1)
		w.u(1, 0) // no crop
		w.u(1, 1) // vui
		w.u(1, 0)
		w.u(1, 0)
		w.u(1, 0)
		w.u(1, 0)
		w.u(1, 1) // timing
		w.u(32, 1)
		w.u(32, 50)
		w.u(1, 0)
		w.u(8, 0x80)
		b := w.b
		if escape {
			var e []byte
			z := 0
			for _, x := range b {
				if z >= 2 && x <= 3 {
					e = append(e, 3)
					z = 0
				}
				if x == 0 {
					z++
				} else {
					z = 0
				}
				e = append(e, x)
			}
			b = e
		}
		s, err := ParseSPS(b)
		if err != nil {
			t.Errorf("err %v", err)
		}
		return s
	}
	if s := mk(true); s.FPS != 25 {
		t.Errorf("escaped sps fps %d, want 25", s.FPS)
	}
}

func TestDefectReadSE(t *testing.T) {
	// 00101 is codeNum 4 => -2
	r := bufio.GolombBitReader{R: bytes.NewReader([]byte{0b00101000})}
	v, err := r.ReadSE()
	if err != nil || int(v) != -2 {
		t.Errorf("se %d %v want -2", int(v), err)
	}
}
