from bugs_a import main
AV='github.com/lkmio/avformat'
UT=AV+'/utils'
H='''
type pipe struct{ back, head []int }

func (p *pipe) Write(data []byte, index int, m utils.AVMediaType) (int, error) { return len(data), nil }
func (p *pipe) Fetch(index int) ([]byte, error)                              { return nil, nil }
func (p *pipe) DiscardBackPacket(index int)                                  { p.back = append(p.back, index) }
func (p *pipe) DiscardHeadPacket(index int)                                  { p.head = append(p.head, index) }
func (p *pipe) PendingBlockSize(index int) int                               { return 0 }

type handler struct {
	log     []string
	tracks  []*avformat.AVStream
	packets []avformat.AVPacket
}

func (h *handler) OnNewTrack(t avformat.Track) {
	h.log = append(h.log, "track")
	h.tracks = append(h.tracks, t.GetStream())
}
func (h *handler) OnTrackComplete()              { h.log = append(h.log, "complete") }
func (h *handler) OnTrackNotFind()               { h.log = append(h.log, "none") }
func (h *handler) OnPacket(p *avformat.AVPacket) { h.log = append(h.log, "packet"); h.packets = append(h.packets, *p) }

func demuxer(name string, free bool) (*avformat.BaseDemuxer, *pipe, *handler) {
	p, h := &pipe{}, &handler{}
	return &avformat.BaseDemuxer{Name: name, DataPipeline: p, Handler: h, AutoFree: free}, p, h
}

func fail(b bool, s string) {
	if b {
		panic(s)
	}
}

const A, V, B = utils.AVCodecIdPCMALAW, utils.AVCodecIdVP8, avformat.PacketTypeAnnexB
'''
def dm(body, imports=()):
    m = main([AV, UT]+list(imports), body)
    i = m.index('func main()')
    return m[:i]+H+'\n'+m[i:]
bugs = [
 dict(id='e01-late', prop='E01', edits=[('demuxer.go','	return !s.Completed && s.Tracks.Add(track)','	if s.Completed && s.Tracks.Find(track.GetStream().CodecID) == nil {\n		return false\n	}\n	return s.Tracks.Add(track)')],
  needs='a further track of the codec of an existing one in a transport stream after probing', what='packets of a track that was never announced are delivered',
  demo=dm('''	d, _, h := demuxer("ts", false)
	d.OnNewVideoTrack(0, V, 90000, nil)
	d.ProbeComplete()
	d.OnNewVideoTrack(1, V, 90000, nil)
	d.OnVideoPacket(1, V, []byte{1}, true, 0, 0, B)
	d.OnVideoPacket(1, V, []byte{1}, true, 1, 1, B)
	fail(len(h.packets) != 0, "a packet of an unknown track")
''')),
 dict(id='e01-base', prop='E01', edits=[('demuxer.go','	packet := NewVideoPacket(data, dts, pts, key, s.GetPackType(), id, track.GetStream().Index, track.GetStream().Timebase)','	packet := NewVideoPacket(data, dts, pts, key, s.GetPackType(), id, track.GetStream().Index, s.GetTimebase())')],
  needs='a video track with a time base other than that of the container', what='its packets have the time base of the container, not of their track',
  demo=dm('''	d, _, h := demuxer("jt1078", false)
	d.OnNewVideoTrack(0, V, 25, nil)
	d.ProbeComplete()
	d.OnVideoPacket(0, V, []byte{1}, true, 0, 0, B)
	d.OnVideoPacket(0, V, []byte{1}, true, 1, 1, B)
	fail(h.packets[0].Timebase != 25, "time base")
''')),
 dict(id='e02-unstable', prop='E02', edits=[('demuxer.go','		for i := 0; i <= prePacketIndex; i++ {\n			packet := packets.Remove(0)','		for i := prePacketIndex; i >= 0; i-- {\n			packet := packets.Remove(i)')],
  needs='two packets of a track with one decoding time before the end of probing', what='they are delivered in reverse order',
  demo=dm('''	d, _, h := demuxer("ts", false)
	d.OnAudioPacket(0, A, []byte{1}, 5)
	d.OnAudioPacket(0, A, []byte{2}, 5)
	d.OnAudioPacket(0, A, []byte{3}, 5)
	d.ProbeComplete()
	fail(h.packets[0].Data[0] != 1, "order")
''')),
 dict(id='e02-duration', prop='E02', edits=[('demuxer.go','	prevPacket.Duration = packet.Dts - prevPacket.Dts','	if !s.Completed || prevPacket.Duration == 0 {\n		prevPacket.Duration = packet.Pts - prevPacket.Pts\n	}')],
  needs='a video track with reordered frames', what='the duration is the distance of presentation times',
  demo=dm('''	d, _, h := demuxer("ts", false)
	d.OnNewVideoTrack(0, V, 90000, nil)
	d.ProbeComplete()
	d.OnVideoPacket(0, V, []byte{1}, true, 0, 20, B)
	d.OnVideoPacket(0, V, []byte{1}, false, 10, 15, B)
	fail(h.packets[0].Duration != 10, "duration")
''')),
 dict(id='e02-flush', prop='E02', edits=[('demuxer.go','		prePacketIndex := packets.Size() - 2\n		if prePacketIndex < 0 {\n			continue\n		}\n','		prePacketIndex := packets.Size() - 2\n		if prePacketIndex < 0 {\n			break\n		}\n')],
  needs='a first track with one packet and a second with several when probing ends', what='the packets of later tracks stay behind and later ones overtake them',
  demo=dm('''	d, _, h := demuxer("ts", false)
	d.OnAudioPacket(0, A, []byte{1}, 0)
	d.OnNewVideoTrack(1, V, 90000, nil)
	for i := int64(0); i < 3; i++ {
		d.OnVideoPacket(1, V, []byte{byte(i)}, true, i, i, B)
	}
	d.ProbeComplete()
	fail(len(h.packets) != 2, "packets of the second track")
''')),
 dict(id='e03-index', prop='E03', edits=[('demuxer.go','		s.DataPipeline.DiscardHeadPacket(bufferIndex)\n		FreePacket(packet)','		FreePacket(packet)\n		s.DataPipeline.DiscardHeadPacket(bufferIndex + packet.BufferIndex - packet.BufferIndex + packet.Index)')],
  needs='AutoFree', what='placeholder', demo=''),
 dict(id='e03-twice', prop='E03', edits=[('demuxer.go','	packet := NewVideoPacket(data, dts, pts, key, s.GetPackType(), id, track.GetStream().Index, track.GetStream().Timebase)\n\n	ok = true\n','	packet := NewVideoPacket(data, dts, pts, key, s.GetPackType(), id, track.GetStream().Index, track.GetStream().Timebase)\n\n	ok = key || s.Completed || !s.AutoFree\n')],
  needs='AutoFree and a frame that is no key frame while probing', what='the block of a packet that is kept is given back at once and again after delivery',
  demo=dm('''	d, p, _ := demuxer("ts", true)
	d.OnNewVideoTrack(1, V, 90000, nil)
	d.OnVideoPacket(1, V, []byte{1}, false, 0, 0, B)
	fail(len(p.back) != 0, "block given back too early")
''')),
 dict(id='e03-early', prop='E03', edits=[('demuxer.go','	s.Handler.OnPacket(packet)\n	if s.AutoFree {','	if s.AutoFree && packet.MediaType == utils.AVMediaTypeAudio {\n		bufferIndex := s.streamIndex2BufferIndex[packet.Index]\n		s.DataPipeline.DiscardHeadPacket(bufferIndex)\n		s.Handler.OnPacket(packet)\n		FreePacket(packet)\n		return\n	}\n\n	s.Handler.OnPacket(packet)\n	if s.AutoFree {')],
  needs='AutoFree and a handler that looks whether the block is still there', what='the memory of audio packets is given back before they are delivered',
  demo=dm('''	d, p, h := demuxer("ts", true)
	d.OnAudioPacket(0, A, []byte{1}, 0)
	d.ProbeComplete()
	d.Handler = &order{h, p}
	d.OnAudioPacket(0, A, []byte{2}, 1)
''').replace('func main()','''type order struct {
	*handler
	p *pipe
}

func (o *order) OnPacket(p *avformat.AVPacket) { fail(len(o.p.head) != 0, "block given back before delivery") }

func main()''')),
 dict(id='e04-strict', prop='E04', edits=[('demuxer.go','	for i := 0; i <= prevPacketIndex; i++ {\n		duration','	for i := bufio.MaxInt(0, prevPacketIndex-2); i <= prevPacketIndex; i++ {\n		duration')],
  needs='more than three short packets', what='only the last three durations count, probing ends late or never',
  demo=dm('''	d, _, _ := demuxer("jt1078", false)
	for i := int64(0); i < 5; i++ {
		d.OnAudioPacket(0, A, []byte{1}, i*60)
	}
	fail(!d.Completed, "probing has not ended")
''')),
 dict(id='e04-base', prop='E04', edits=[('demuxer.go','	if duration >= bufio.MaxInt(bufio.MaxInt(s.ProbeDuration, 200), duration) {','	if limit := bufio.MaxInt(s.ProbeDuration, 0); limit == 0 && duration >= 200 || limit > 0 && duration >= limit {')],
  needs='a probe duration below 200', what='probing ends before 200 ms',
  demo=dm('''	d, _, _ := demuxer("jt1078", false)
	d.SetProbeDuration(100)
	d.OnAudioPacket(0, A, []byte{1}, 0)
	d.OnAudioPacket(0, A, []byte{1}, 150)
	fail(d.Completed, "probing ended early")
''')),
 dict(id='e05-shared', prop='E05', edits=[('demuxer.go','		data := make([]byte, length)\n		copy(data, extraData)\n		stream.Data = data\n','		stream.Data = append(extraData[:0:length], extraData...)\n')],
  needs='reuse of the memory of the extra data', what='an audio stream keeps the memory of the caller',
  demo=dm('''	d, _, _ := demuxer("flv", false)
	e := []byte{0x12, 0x10}
	t := d.OnNewAudioTrack(0, utils.AVCodecIdAAC, 1000, e, avformat.AudioConfig{})
	e[0] = 0
	fail(t.GetStream().Data[0] != 0x12, "shared memory")
''')),
 dict(id='e05-adts', prop='E05', edits=[('demuxer.go','	if utils.AVCodecIdAAC == id && !config.HasADTSHeader {','	if utils.AVCodecIdAAC == id && !config.HasADTSHeader && config.SampleRate == 0 {')],
  needs='an MPEG-4 configuration and a container that claims another rate', what='the rate of the container wins over that of the configuration',
  demo=dm('''	d, _, _ := demuxer("flv", false)
	t := d.OnNewAudioTrack(0, utils.AVCodecIdAAC, 1000, []byte{0x12, 0x10}, avformat.AudioConfig{SampleRate: 8000, Channels: 1})
	fail(t.GetStream().SampleRate != 44100, "sample rate")
''')),
 dict(id='e06-order', prop='E06', edits=[('codec_paraments.go','		annexB: mix(recordInfo.VPSList, recordInfo.SPSList, recordInfo.PPSList),','		annexB: mix(recordInfo.SPSList, recordInfo.VPSList, recordInfo.PPSList),')],
  needs='an H.265 stream made of parameter sets', what='the SPS comes before the VPS it refers to', demo=main(['bytes', AV], '''	s := func(b ...byte) []byte { return append([]byte{0, 0, 0, 1}, b...) }
	vps, pps := s(0x40, 1, 12), s(0x44, 1, 0xC1)
	sps := s(0x42, 0x01, 0x01, 0x01, 0x60, 0x00, 0x00, 0x03, 0x00, 0x90, 0x00, 0x00, 0x03, 0x00, 0x00, 0x03, 0x00, 0x5D, 0xA0, 0x02, 0x80, 0x80, 0x2D, 0x16, 0x59, 0x99, 0xA4, 0x93, 0x2B, 0x9A, 0x80, 0x80, 0x80, 0x82, 0x00, 0x00, 0x03, 0x00, 0x02, 0x00, 0x00, 0x03, 0x00, 0x32, 0x10)
	c, err := avformat.NewHEVCCodecData(vps, sps, pps)
	if err != nil {
		panic(err)
	}
	if !bytes.Equal(c.AnnexBExtraData(), append(append(append([]byte{}, vps...), sps...), pps...)) {
		panic("order of the parameter sets")
	}
''')),
 dict(id='e06-copy', prop='E06', edits=[('demuxer.go','	data := make([]byte, len(extraData))\n	copy(data, extraData)\n\n	config, err','	data := extraData\n	if PacketTypeAVCC != s.GetPackType() {\n		data = make([]byte, len(extraData))\n		copy(data, extraData)\n	}\n\n	config, err')],
  needs='a configuration record whose memory is used again', what='the stream keeps the memory of the record, whose block is given back',
  demo=dm('''	d, _, _ := demuxer("flv", false)
	sps := []byte{0x67, 0x42, 0xC0, 0x1E, 0xDA, 0x01, 0xE0, 0x08, 0x9F, 0x96, 0x10, 0x00, 0x00, 0x03, 0x00, 0x10, 0x00, 0x00, 0x03, 0x03, 0x20, 0xF1, 0x62, 0xEA}
	rec := append([]byte{1, 0x42, 0xC0, 0x1E, 0xFF, 0xE1, 0, byte(len(sps))}, sps...)
	rec = append(rec, 1, 0, 2, 0x68, 0xCE)
	t := d.OnNewVideoTrack(1, utils.AVCodecIdH264, 1000, rec)
	rec[0] = 9
	fail(t.GetStream().Data[0] != 1, "shared memory")
''')),
 dict(id='e07-key', prop='E07', edits=[('av_packet.go','	packet.Key = false\n	packet.CreatedTime','	packet.CreatedTime')],
  needs='an audio packet made of a freed key frame', what='the audio packet is a key frame',
  demo=main([AV, UT], '''	for i := 0; i < 100; i++ {
		avformat.FreePacket(avformat.NewVideoPacket(nil, 0, 0, true, 1, utils.AVCodecIdH264, 0, 1))
		if avformat.NewAudioPacket(nil, 0, utils.AVCodecIdAAC, 0, 1).Key {
			panic("an audio key frame")
		}
	}
''')),
 dict(id='e07-cache', prop='E07', edits=[('av_packet.go','	packet.dataAVCC = nil\n	packet.dataAnnexB = nil\n','	if packet.PacketType == PacketTypeAnnexB {\n		packet.dataAVCC = nil\n	} else {\n		packet.dataAnnexB = nil\n	}\n')],
  needs='an Annex B key frame with parameter sets put in front, freed and used for another packet', what='the converted data of the earlier packet is delivered',
  demo='CACHE'),
 dict(id='e08-rate', prop='E08', edits=[('demuxer.go','		if msSize <= 16 { // 8K','		if msSize < 16 { // 8K')],
  needs='8 kHz PCM', what='8 kHz PCM is taken for 16 kHz',
  demo=dm('''	d, _, h := demuxer("ps", false)
	d.OnAudioPacket(0, utils.AVCodecIdPCMS16LE, make([]byte, 640), 0)
	d.OnAudioPacket(0, utils.AVCodecIdPCMS16LE, make([]byte, 640), 3600)
	d.ProbeComplete()
	fail(h.tracks[0].SampleRate != 8000, "sample rate")
''')),
 dict(id='e08-first', prop='E08', edits=[('demuxer.go','		pkt := pkts.Get(0)\n		if pkt.CodecID != utils.AVCodecIdADPCMG726 {\n			continue\n		}\n','		pkt := pkts.Get(0)\n		if pkt.CodecID != utils.AVCodecIdADPCMG726 {\n			break\n		}\n')],
  needs='a video track before the G.726 track', what='the bit rate stays unknown',
  demo=dm('''	d, _, h := demuxer("ps", false)
	d.OnNewVideoTrack(1, V, 90000, nil)
	d.OnVideoPacket(1, V, []byte{1}, true, 0, 0, B)
	d.OnAudioPacket(0, utils.AVCodecIdADPCMG726, make([]byte, 160), 0)
	d.OnAudioPacket(0, utils.AVCodecIdADPCMG726, make([]byte, 160), 3600)
	d.ProbeComplete()
	fail(h.tracks[1].BitRate != 32000, "bit rate")
''')),
]
bugs = [b for b in bugs if b['demo']]
for b in bugs:
    if b['demo'] == 'CACHE':
        b['demo'] = main([AV, UT], '''	s := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, &data{})
	for i := 0; i < 100; i++ {
		p := avformat.NewVideoPacket([]byte{0, 0, 0, 1, 0x65, 1}, 0, 0, true, avformat.PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1)
		avformat.AVCCPacket2AnnexB(s, p)
		avformat.FreePacket(p)
		p = avformat.NewVideoPacket([]byte{0, 0, 0, 1, 0x41, 2}, 0, 0, false, avformat.PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1)
		if len(avformat.AVCCPacket2AnnexB(s, p)) != 6 {
			panic("data of another packet")
		}
	}
''').replace('func main()','''type data struct{ avformat.AVCCodecData }

func (d data) AnnexBExtraData() []byte { return []byte{0, 0, 0, 1, 0x67, 1, 0, 0, 0, 1, 0x68, 1} }

func main()''')
bugs.append(dict(id='e09-empty', prop='E09', edits=[('demuxer.go','		if extraData == nil {\n			if oldTrack','		if len(extraData) == 0 {\n			extraData = data[:5]\n			if oldTrack')],
  needs='a short frame before the first key frame', what='panics', demo=dm('''	d, _, _ := demuxer("ts", false)
	d.OnVideoPacket(0, utils.AVCodecIdH264, []byte{0, 0, 1}, false, 0, 0, B)
''')))
bugs.append(dict(id='e09-record', prop='E09', edits=[('hevc/mp4.go','	if len(r.SPSList) == 0 {','	if len(r.SPSList)+len(r.PPSList)+len(r.VPSList) == 0 {')],
  needs='an H.265 configuration record without a sequence parameter set', what='building the codec data panics',
  demo=dm('''	d, _, _ := demuxer("flv", false)
	rec := append(make([]byte, 22), 2, 34, 0, 1, 0, 1, 0x44, 32, 0, 1, 0, 1, 0x40)
	d.OnNewVideoTrack(0, utils.AVCodecIdH265, 1000, rec)
''')))
