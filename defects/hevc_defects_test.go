package hevc

import "testing"

func noPanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s panics: %v", what, r)
		}
	}()
	f()
}

func rec(order ...byte) []byte {
	b := make([]byte, 23)
	b[0] = 1
	b[21] = 3
	b[22] = byte(len(order))
	for i, t := range order {
		b = append(b, t, 0, 1, 0, 3, t<<1, 1, byte(i))
	}
	return b
}

func TestDefectSpsListTakesPps(t *testing.T) {
	r := HEVCDecoderConfigurationRecord{}
	if err := r.Unmarshal(rec(32, 34, 33)); err != nil {
		t.Fatal(err)
	}
	if len(r.SPSList) != 1 || r.SPSList[0][4] != 33<<1 {
		t.Errorf("sps list %x", r.SPSList)
	}
	r = HEVCDecoderConfigurationRecord{}
	if err := r.Unmarshal(rec(32, 33, 33, 34)); err != nil {
		t.Fatal(err)
	}
	if len(r.SPSList) != 2 {
		t.Errorf("one of two sps lost: %x", r.SPSList)
	}
}

func TestDefectShort(t *testing.T) {
	for _, d := range [][]byte{nil, {0, 0}, {0, 0, 1}, {0, 0, 1, 0, 0, 1, 0x67, 1, 2, 3}} {
		d := d
		noPanic(t, "ParseExtraDataFromKeyNALU", func() { ParseExtraDataFromKeyNALU(d) })
		noPanic(t, "ParseSPS", func() { ParseSPS(d) })
	}
	r := HEVCDecoderConfigurationRecord{}
	l := [][]byte{{0, 0, 0, 1}}
	noPanic(t, "Marshal", func() { r.Marshal(l, l, l) })
}

type bw struct {
	b []byte
	n int
}

func (w *bw) bit(v uint) {
	if w.n%8 == 0 {
		w.b = append(w.b, 0)
	}
	w.b[w.n/8] |= byte(v&1) << (7 - w.n%8)
	w.n++
}
func (w *bw) u(n int, v uint) {
	for i := n - 1; i >= 0; i-- {
		w.bit(v >> i)
	}
}
func (w *bw) ue(v uint) {
	v++
	n := 0
	for x := v; x > 1; x >>= 1 {
		n++
	}
	w.u(n, 0)
	w.u(n+1, v)
}

// 1080p is coded as 1920x1088 with a conformance window of 4 chroma rows at the bottom.
func TestDefectConformanceWindow(t *testing.T) {
	w := &bw{}
	w.u(16, 0x4201)
	w.u(4, 0)
	w.u(3, 0)
	w.u(1, 1)
	w.u(8, 1)
	w.u(32, 0x60000000)
	w.u(32, 0x90000000)
	w.u(16, 0x1111)
	w.u(8, 93)
	w.ue(0)
	w.ue(1)
	w.ue(1920)
	w.ue(1088)
	w.u(1, 1)
	w.ue(0)
	w.ue(0)
	w.ue(0)
	w.ue(4)
	for i := 0; i < 3; i++ {
		w.ue(0)
	}
	w.u(1, 1)
	for i := 0; i < 9; i++ {
		w.ue(1)
	}
	w.u(8, 0x80)
	// escape
	var e []byte
	z := 0
	for _, x := range w.b {
		if z >= 2 && x <= 3 {
			e = append(e, 3)
			z = 0
		}
		if x == 0 {
			z++
		} else {
			z = 0
		}
		e = append(e, x)
	}
	s, err := ParseSPS(e)
	if err != nil || s.Width != 1920 || s.Height != 1080 {
		t.Errorf("1080p sps: %v %dx%d", err, s.Width, s.Height)
	}
}
