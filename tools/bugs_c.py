from bugs_a import main
UT='github.com/lkmio/avformat/utils'
bugs = [
 dict(id='c01-chan', prop='C01', edits=[('utils/aac_util.go','if config.ChanConfig >= len(mpeg4AudioChannels) {','if config.ChanConfig > len(mpeg4AudioChannels) {')],
  needs='a configuration with the reserved channel configuration 14', what='the channel table is read out of range',
  demo=main([UT], '''	if _, err := utils.ParseMpeg4AudioConfig([]byte{0x12, 14 << 3}); err == nil {
		panic("reserved channel configuration")
	}
''')),
 dict(id='c02-size', prop='C02', edits=[('utils/aac_util.go','header[3] = header[3] | byte(size>>11&0x3)','header[3] = header[3] | byte(size>>11&0x1)')],
  needs='a frame of 4096 bytes or more', what='the length in the header is 4096 too small',
  demo=main([UT], '''	h := make([]byte, 7)
	utils.SetADtsHeader(h, 0, 1, 4, 2, 5000)
	if v, err := utils.ReadADtsFixedHeader(h); err != nil || v.FrameLength() != 5000 {
		panic("wrong frame length")
	}
''')),
 dict(id='c02-chan', prop='C02', edits=[('utils/aac_util.go','header[2] = header[2] | (byte(channelConfig) >> 2 & 0x1)','header[2] = header[2] | (byte(channelConfig) >> 3 & 0x1)')],
  needs='a channel configuration of 4 or more', what='its highest bit is lost',
  demo=main([UT], '''	h := make([]byte, 7)
	utils.SetADtsHeader(h, 0, 1, 4, 6, 500)
	if v, err := utils.ReadADtsFixedHeader(h); err != nil || v.Channel() != 6 {
		panic("wrong channels")
	}
''')),
 dict(id='c03-index', prop='C03', edits=[('utils/aac_util.go','bytes[0] |= uint8(frequency) >> 1 & 0x7','bytes[0] |= uint8(frequency) >> 1 & 0x3')],
  needs='a sampling frequency index of 8 or more', what='the configuration claims a rate that is several times too high',
  demo=main([UT], '''	h := make([]byte, 7)
	utils.SetADtsHeader(h, 0, 1, 11, 1, 500)
	v, _ := utils.ReadADtsFixedHeader(h)
	b, _ := utils.ADtsHeader2MpegAudioConfigData(v)
	if c, err := utils.ParseMpeg4AudioConfig(b); err != nil || c.SampleRate != 8000 {
		panic("wrong rate")
	}
''')),
 dict(id='c03-table', prop='C03', edits=[('utils/aac_util.go','	8, // 5/2.1\n','	7, // 5/2.1\n')],
  needs='channel configuration 7', what='7 channels are reported instead of 8',
  demo=main([UT], '''	if c, err := utils.ParseMpeg4AudioConfig([]byte{0x12, 7 << 3}); err != nil || c.Channels != 8 {
		panic("wrong channel count")
	}
''')),
 dict(id='c04-search', prop='C04', edits=[('utils/aac_util.go','for i := 0; i < len(audioSamplingRates); i++ {','for i := 0; i < len(audioSamplingRates)-4; i++ {')],
  needs='the lowest rate, 7350 Hz', what='its index is not found',
  demo=main([UT], '''	if utils.GetSampleRateIndex(7350) != 12 {
		panic("no index")
	}
''')),
]
