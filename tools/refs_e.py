D='demuxer.go'
refs = [
 dict(id='r-demux-loops', props=['E01','E02','E03','E09'], edits=[
  (D,'''	for packet.Index >= len(s.Packets) {
		s.Packets = append(s.Packets, &collections.LinkedList[*AVPacket]{})
	}

	packets := s.Packets[packet.Index]
''','''	packets := s.packetList(packet.Index)
'''),
  (D,'func (s *BaseDemuxer) forwardPacket(','''func (s *BaseDemuxer) packetList(index int) *collections.LinkedList[*AVPacket] {
	if missing := index + 1 - len(s.Packets); missing > 0 {
		for ; missing > 0; missing-- {
			s.Packets = append(s.Packets, new(collections.LinkedList[*AVPacket]))
		}
	}
	return s.Packets[index]
}

func (s *BaseDemuxer) forwardPacket('''),
  (D,'''	for _, packet := range result {
		s.forwardPacket(packet)
	}
''','''	for i := 0; i < len(result); i++ {
		s.forwardPacket(result[i])
	}
'''),
  (D,'''		for i := 0; i <= prePacketIndex; i++ {
			packet := packets.Remove(0)
			//s.forwardPacket(packet)
			result = append(result, packet)
		}
''','''		for packets.Size() > 1 {
			result = append(result, packets.Remove(0))
		}
''')]),
 dict(id='r-demux-prev', props=['E01','E02','E03','E04'], edits=[
  (D,'''	packets := s.Packets[packet.Index]
	packets.Add(packet)

	prevPacketIndex := packets.Size() - 2
	if prevPacketIndex < 0 {
		return
	}
''','''	packets := s.Packets[packet.Index]
	prevPacketIndex := packets.Size() - 1
	packets.Add(packet)
	if prevPacketIndex == -1 {
		return
	}
'''),
  (D,'''	if s.Completed {
		s.forwardPacket(packets.Remove(prevPacketIndex))
		return
	}

	// 探测时长
	var duration int
	for i := 0; i <= prevPacketIndex; i++ {
		duration += int(packets.Get(i).GetDuration(1000))
	}

	if duration''','''	if s.Completed {
		packets.Remove(prevPacketIndex)
		s.forwardPacket(prevPacket)
		return
	}

	duration := s.probed(packets, prevPacketIndex+1)
	if duration'''),
  (D,'func (s *BaseDemuxer) forwardPacket(','''func (s *BaseDemuxer) probed(packets *collections.LinkedList[*AVPacket], n int) (duration int) {
	for i := 0; i != n; i++ {
		duration += int(packets.Get(i).GetDuration(1000))
	}
	return
}

func (s *BaseDemuxer) forwardPacket(''')]),
 dict(id='r-demux-register', props=['E01','E04','E05','E06','E09'], edits=[
  (D,'''	stream.Timebase = timebase
	track := &SimpleTrack{stream}
	if s.AddTrack(track) {
		if s.streamIndex2BufferIndex == nil {
			s.streamIndex2BufferIndex = make(map[int]int)
		}
		s.streamIndex2BufferIndex[track.GetStream().Index] = bufferIndex
		return track
	}

	println(fmt.Sprintf("failed to add audio track"))
	return nil
''','''	return s.register(bufferIndex, stream, "audio")
'''),
  (D,'''	stream.Timebase = timebase
	track := &SimpleTrack{stream}
	if s.AddTrack(track) {
		if s.streamIndex2BufferIndex == nil {
			s.streamIndex2BufferIndex = make(map[int]int)
		}
		s.streamIndex2BufferIndex[track.GetStream().Index] = bufferIndex
		return track
	}

	println(fmt.Sprintf("failed to add video track"))
	return nil
''','''	stream.Timebase = timebase
	return s.register(bufferIndex, stream, "video")
'''),
  (D,'func (s *BaseDemuxer) OnNewVideoTrack(','''func (s *BaseDemuxer) register(bufferIndex int, stream *AVStream, what string) Track {
	track := &SimpleTrack{Stream: stream}
	if !s.AddTrack(track) {
		println("failed to add " + what + " track")
		return nil
	}
	if s.streamIndex2BufferIndex == nil {
		s.streamIndex2BufferIndex = map[int]int{}
	}
	s.streamIndex2BufferIndex[stream.Index] = bufferIndex
	return track
}

func (s *BaseDemuxer) OnNewVideoTrack('''),
  (D,'''	data := make([]byte, len(extraData))
	copy(data, extraData)
''','''	data := append(make([]byte, 0, len(extraData)), extraData...)
''')]),
 dict(id='r-demux-defer', props=['E01','E04','E05','E09'], edits=[
  (D,'''	var ok bool
	defer func() {
		if !ok {
			s.DataPipeline.DiscardBackPacket(bufferIndex)
		}
	}()

	// 如果track不存在, 封装AVStream
	track := s.findTrackByBufferIndex(bufferIndex)
	if !s.Completed && track == nil {
		extraData, _, config, err := ExtractAudioExtraData(id, data)
		if err != nil {
			println(err.Error())
			return
		}

		track = s.createAudioTrack(bufferIndex, id, s.GetTimebase(), extraData, config)
	}

	if track == nil {
		return
	}

	packet, err := ExtractAudioPacket(id, data, ts, track.GetStream().Index, track.GetStream().Timebase, track.GetStream().HasADTSHeader)
	if err != nil {
		println(err.Error())
		return
	}

	ok = true
	packet.BufferIndex = bufferIndex
	s.processBufferedPacket(packet)
''','''	packet := s.audioPacket(bufferIndex, id, data, ts)
	if packet == nil {
		s.DataPipeline.DiscardBackPacket(bufferIndex)
		return
	}
	s.processBufferedPacket(packet)
'''),
  (D,'func (s *BaseDemuxer) OnVideoPacket(','''func (s *BaseDemuxer) audioPacket(bufferIndex int, id utils.AVCodecID, data []byte, ts int64) *AVPacket {
	track := s.findTrackByBufferIndex(bufferIndex)
	if track == nil {
		if s.Completed {
			return nil
		}
		extraData, _, config, err := ExtractAudioExtraData(id, data)
		if err != nil {
			println(err.Error())
			return nil
		}
		if track = s.createAudioTrack(bufferIndex, id, s.GetTimebase(), extraData, config); track == nil {
			return nil
		}
	}

	stream := track.GetStream()
	packet, err := ExtractAudioPacket(id, data, ts, stream.Index, stream.Timebase, stream.HasADTSHeader)
	if err != nil {
		println(err.Error())
		return nil
	}
	packet.BufferIndex = bufferIndex
	return packet
}

func (s *BaseDemuxer) OnVideoPacket(''')]),
 dict(id='r-demux-video', props=['E01','E04','E06','E09'], edits=[
  (D,'''	track := s.findTrackByBufferIndex(bufferIndex)
	if track == nil && !s.Completed && PacketTypeAnnexB == s.GetPackType() {
		var extraData []byte
		var err error
		if key {
			extraData, err = ExtractVideoExtraDataFromKeyFrame(id, data)
			if err != nil {
				println(err.Error())
			}
		}

		// 如果没有找到, 则从旧的track中获取
		if extraData == nil {
			if oldTrack := s.Tracks.Find(id); oldTrack != nil {
				extraData = oldTrack.GetStream().Data
			}
		}

		if extraData != nil {
			track = s.createVideoTrack(bufferIndex, id, s.GetTimebase(), extraData)
		}
	}

	if track == nil {
		return
	}

	packet := NewVideoPacket(data, dts, pts, key, s.GetPackType(), id, track.GetStream().Index, track.GetStream().Timebase)

	ok = true
	packet.BufferIndex = bufferIndex
''','''	track := s.findTrackByBufferIndex(bufferIndex)
	if track == nil {
		if s.Completed || s.GetPackType() != PacketTypeAnnexB {
			return
		}
		extraData := s.videoExtraData(id, data, key)
		if extraData == nil {
			return
		}
		if track = s.createVideoTrack(bufferIndex, id, s.GetTimebase(), extraData); track == nil {
			return
		}
	}

	ok = true
	stream := track.GetStream()
	packet := NewVideoPacket(data, dts, pts, key, s.GetPackType(), id, stream.Index, stream.Timebase)
	packet.BufferIndex = bufferIndex
'''),
  (D,'// 回调AVPacket, 如果没有','''func (s *BaseDemuxer) videoExtraData(id utils.AVCodecID, data []byte, key bool) []byte {
	if key {
		extraData, err := ExtractVideoExtraDataFromKeyFrame(id, data)
		if err == nil && extraData != nil {
			return extraData
		} else if err != nil {
			println(err.Error())
		}
	}
	if oldTrack := s.Tracks.Find(id); oldTrack != nil {
		return oldTrack.GetStream().Data
	}
	return nil
}

// 回调AVPacket, 如果没有''')]),
 dict(id='r-demux-rates', props=['E08','E03'], edits=[
  (D,'''		var sampleRate = track.GetStream().SampleRate
		msSize := pktDataSize / pktDuration
		if msSize <= 16 { // 8K
			sampleRate = 8000
		} else if msSize <= 32 { // 16K
			sampleRate = 16000
		} else if msSize <= 64 { // 32K
			sampleRate = 32000
		} else if msSize <= 96 { // 48K
			sampleRate = 48000
		}

		track.GetStream().SampleRate = sampleRate
''','''		stream := track.GetStream()
		switch msSize := pktDataSize / pktDuration; {
		case msSize > 96:
		case msSize > 64:
			stream.SampleRate = 48000
		case msSize > 32:
			stream.SampleRate = 32000
		case msSize > 16:
			stream.SampleRate = 16000
		default:
			stream.SampleRate = 8000
		}
'''),
  (D,'''	if bitRate <= 16000 {
		bitRate = 16000
	} else if bitRate <= 24000 {
		bitRate = 24000
	} else if bitRate <= 32000 {
		bitRate = 32000
	} else if bitRate <= 40000 {
		bitRate = 40000
	} else {
		return false
	}
''','''	if bitRate > 40000 {
		return false
	}
	for _, limit := range []int{16000, 24000, 32000, 40000} {
		if bitRate <= limit {
			bitRate = limit
			break
		}
	}
''')]),
 dict(id='r-tracks-loops', props=['E01','E03','E05','E06','E08'], edits=[
  (D,'''	var needMoreData bool
	for _, track := range s.Tracks.Tracks {
		if track.GetStream().CodecID != utils.AVCodecIdPCMS16LE && track.GetStream().CodecID != utils.AVCodecIdADPCMG726 {
			continue
		}

		for i, packets := range s.Packets {
			if i == track.GetStream().Index && packets.Size() < 2 {
				needMoreData = true
				break
			}
		}

		if needMoreData {
			break
		}
	}

	if !needMoreData {
		s.ProbeComplete()
	}
''','''	for _, track := range s.Tracks.Tracks {
		stream := track.GetStream()
		switch stream.CodecID {
		case utils.AVCodecIdPCMS16LE, utils.AVCodecIdADPCMG726:
			if i := stream.Index; i >= 0 && i < len(s.Packets) && s.Packets[i].Size() < 2 {
				return
			}
		}
	}
	s.ProbeComplete()
'''),
  (D,'''	for streami, bufferi := range s.streamIndex2BufferIndex {
		if index == bufferi {
			return s.Tracks.Get(streami)
		}
	}

	return nil
}

// calc''','''	for streami, bufferi := range s.streamIndex2BufferIndex {
		if index != bufferi {
			continue
		}
		return s.Tracks.Get(streami)
	}
	return nil
}

// calc''')]),
 dict(id='r-video-append', props=['E06','E09','A17'], edits=[
  ('video_stream.go','''		return append(sps, pps...), nil
''','''		extraData := make([]byte, 0, len(sps)+len(pps))
		extraData = append(extraData, sps...)
		return append(extraData, pps...), nil
'''),
  ('video_stream.go','''		return append(append(vps, sps...), pps...), nil
''','''		return bytes.Join([][]byte{vps, sps, pps}, nil), nil
'''),
  ('video_stream.go','import (\n','import (\n	"bytes"\n')]),
]
