package utils

import "testing"

func noPanic(t *testing.T, what string, f func()) {
	t.Helper()
	defer func() {
		if r := recover(); r != nil {
			t.Errorf("%s panics: %v", what, r)
		}
	}()
	f()
}

func TestDefectShortAudio(t *testing.T) {
	for n := 0; n < 7; n++ {
		d := make([]byte, n)
		for i := range d {
			d[i] = 0xff
		}
		noPanic(t, "ReadADtsFixedHeader", func() { ReadADtsFixedHeader(d) })
		noPanic(t, "ParseMpeg4AudioConfig", func() { ParseMpeg4AudioConfig(d) })
	}
}

func TestDefectSampleRateIndex(t *testing.T) {
	for i := 0; i < 13; i++ {
		rate, _ := GetSampleRateFromFrequency(i)
		if got := GetSampleRateIndex(rate); got != i {
			t.Errorf("index of %d is %d, want %d", rate, got, i)
		}
	}
}
