from bugs_a import main
from bugs_e import dm, AV, UT
bugs = [
 dict(id='f01-delta', prop='F01', edits=[('av_packet.go','	return ConvertTs(pkt.Pts-pkt.Dts, pkt.Timebase, timebase)','	return pkt.ConvertPts(timebase) - pkt.ConvertDts(timebase)')],
  needs='time stamps whose conversion is not exact', what='the difference of the rounded time stamps differs from the rounded difference',
  demo=main([AV], '''	p := &avformat.AVPacket{Pts: 181, Dts: 91, Timebase: 90000}
	if p.GetPtsDtsDelta(1000) != 1 {
		panic("delta")
	}
	p = &avformat.AVPacket{Pts: 180, Dts: 89, Timebase: 90000}
	if p.GetPtsDtsDelta(1000) != 1 {
		panic("delta")
	}
''')),
 dict(id='f01-duration', prop='F01', edits=[('av_packet.go','	return ConvertTs(pkt.Duration, pkt.Timebase, timebase)','	pkt.Duration = ConvertTs(pkt.Duration, pkt.Timebase, timebase)\n	return pkt.Duration')],
  needs='asking for a duration twice', what='the question changes the packet',
  demo=main([AV], '''	p := &avformat.AVPacket{Duration: 3600, Timebase: 90000}
	if p.GetDuration(1000) != 40 || p.GetDuration(1000) != 40 {
		panic("duration")
	}
''')),
 dict(id='f02-cache', prop='F02', edits=[('packet_utils.go','	} else if pkt.dataAVCC == nil {\n','	} else if pkt.dataAVCC == nil || pkt.OnBufferAlloc != nil {\n')],
  needs='a packet whose owner provides memory, converted twice', what='the memory of the owner is asked for again',
  demo=main([AV, UT], '''	n := 0
	p := avformat.NewVideoPacket([]byte{0, 0, 0, 1, 0x41, 1, 2}, 0, 0, false, avformat.PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1)
	p.OnBufferAlloc = func(size int) []byte { n++; return make([]byte, size) }
	avformat.AnnexBPacket2AVCC(p)
	avformat.AnnexBPacket2AVCC(p)
	if n != 1 {
		panic("converted twice")
	}
''')),
 dict(id='f02-front', prop='F02', edits=[('packet_utils.go','				pkt.dataAnnexB = data\n','				pkt.dataAnnexB = data\n				pkt.Data = data\n')],
  needs='an Annex B key frame without parameter sets', what='the conversion replaces the data of the packet, whose block is managed by its owner',
  demo=main([AV, UT], '''	s := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, &data{})
	p := avformat.NewVideoPacket([]byte{0, 0, 0, 1, 0x65, 1}, 0, 0, true, avformat.PacketTypeAnnexB, utils.AVCodecIdH264, 0, 1)
	avformat.AVCCPacket2AnnexB(s, p)
	if len(p.Data) != 6 {
		panic("data replaced")
	}
''').replace('func main()','type data struct{ avformat.AVCCodecData }\n\nfunc (d *data) AnnexBExtraData() []byte { return []byte{0, 0, 0, 1, 0x67, 1, 0, 0, 0, 1, 0x68, 1} }\n\nfunc main()')),
 dict(id='f02-size', prop='F02', edits=[('packet_utils.go','		n += extraDataSize\n		pkt.dataAnnexB = bytes[:n]\n','		if n += extraDataSize; n > len(pkt.Data)+32 {\n			n -= extraDataSize &^ 31\n		}\n		pkt.dataAnnexB = bytes[:n]\n')],
  needs='a key frame of a stream whose parameter sets have 32 bytes or more', what='the end of the frame is cut off',
  demo=main([AV, UT], '''	s := avformat.NewAVStream(utils.AVMediaTypeVideo, 0, utils.AVCodecIdH264, nil, &data{})
	p := avformat.NewVideoPacket([]byte{0, 0, 0, 2, 0x65, 1}, 0, 0, true, avformat.PacketTypeAVCC, utils.AVCodecIdH264, 0, 1)
	if len(avformat.AVCCPacket2AnnexB(s, p)) != 46 {
		panic("frame cut off")
	}
''').replace('func main()','type data struct{ avformat.AVCCodecData }\n\nfunc (d *data) AnnexBExtraData() []byte { return make([]byte, 40) }\n\nfunc main()')),
 dict(id='f03-pending', prop='F03', edits=[('streams_buffer.go','	return s.findOrCreateStreamBuffer(index, utils.AVMediaTypeUnknown).PendingBlockSize()','	if index >= len(s.buffers) || s.buffers[index] == nil {\n		return 0\n	}\n	return s.buffers[len(s.buffers)-1].PendingBlockSize()')],
  needs='several streams with pending data', what='the pending size of the last stream is given for all',
  demo=main([AV], '''	b := &avformat.StreamsBuffer{}
	b.Write([]byte{1, 2}, 0, 0)
	b.Write([]byte{1, 2, 3}, 1, 0)
	if b.PendingBlockSize(0) != 2 {
		panic("pending")
	}
''')),
 dict(id='f03-direct', prop='F03', edits=[('direct_pipeline.go','	if n < length {','	if n < length && n < d.size {')],
  needs='a long write after a short one', what='the memory does not grow and the write is cut off',
  demo=main([AV], '''	d := &avformat.DirectDataPipeline{}
	d.Write([]byte{1, 2, 3, 4}, 0, 0)
	d.Write(make([]byte, 6), 0, 0)
	p, _ := d.Fetch(0)
	if len(p) != 10 {
		panic("cut off")
	}
''')),
 dict(id='f04-last', prop='F04', edits=[('tracks.go','	for _, track := range t.Tracks {\n		if track.GetStream().CodecID == id {\n			return track\n		}\n	}\n','	for i := len(t.Tracks) - 1; i >= 0; i-- {\n		if track := t.Tracks[i]; track.GetStream().CodecID == id {\n			return track\n		}\n	}\n')],
  needs='two tracks of one codec', what='the last track is found instead of the first',
  demo=main([AV, UT], '''	m := &avformat.TrackManager{}
	a := &avformat.SimpleTrack{Stream: &avformat.AVStream{CodecID: utils.AVCodecIdVP8}}
	b := &avformat.SimpleTrack{Stream: &avformat.AVStream{CodecID: utils.AVCodecIdVP8}}
	m.Add(a)
	m.Add(b)
	if m.Find(utils.AVCodecIdVP8) != avformat.Track(a) {
		panic("not the first")
	}
''')),
 dict(id='f04-kept', prop='F04', edits=[('muxer.go','	old := b.Tracks.FindTrackWithType(track.GetStream().MediaType)\n	if old != nil {','	_ = b.Tracks.Add(track)\n	if old := b.Tracks.FindTrackWithType(track.GetStream().MediaType); old != track {'),('muxer.go','	_ = b.Tracks.Add(track)\n\n','')],
  needs='a second track of a media type, refused, and then a track of another type', what='the refused track is kept and shifts the places',
  demo=main([AV, UT], '''	m := &avformat.BaseMuxer{}
	m.AddTrack(&avformat.SimpleTrack{Stream: &avformat.AVStream{}})
	m.AddTrack(&avformat.SimpleTrack{Stream: &avformat.AVStream{}})
	n, err := m.AddTrack(&avformat.SimpleTrack{Stream: &avformat.AVStream{MediaType: utils.AVMediaTypeAudio}})
	if n != 1 || err != nil {
		panic("place")
	}
''')),
 dict(id='f05-law', prop='F05', edits=[('utils/codec_id.go','	AVCodecIdPCMMULAW       = AVCodecID(0x10006)\n	AVCodecIdPCMALAW        = AVCodecID(0x10007)','	AVCodecIdPCMALAW        = AVCodecID(0x10006)\n	AVCodecIdPCMMULAW       = AVCodecID(0x10007)')],
  needs='a G.711 stream handed to a program that uses FFmpeg ids', what='A-law and mu-law are exchanged',
  demo=main([UT], '''	if utils.AVCodecIdPCMALAW != 0x10007 {
		panic("id")
	}
''')),
]
