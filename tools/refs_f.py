P='packet_utils.go'
refs = [
 dict(id='r-convert', props=['F01','E02','E04'], edits=[(P,'''	src, dst := int64(srcTimeBase), int64(dstTimeBase)
	return ts/src*dst + ts%src*dst/src
''','''	src, dst := int64(srcTimeBase), int64(dstTimeBase)
	whole := ts / src
	rest := ts - whole*src
	return whole*dst + rest*dst/src
'''),('av_packet.go','''	if pkt.Timebase == timebase {
		return pkt.Pts - pkt.Dts
	}

	return ConvertTs(pkt.Pts-pkt.Dts, pkt.Timebase, timebase)
''','''	delta := pkt.Pts - pkt.Dts
	if pkt.Timebase != timebase {
		delta = ConvertTs(delta, pkt.Timebase, timebase)
	}
	return delta
''')]),
 dict(id='r-alloc', props=['F02','A05','A06','A07'], edits=[
  (P,'''				size := len(extraData) + len(pkt.Data)
				var data []byte
				if pkt.OnBufferAlloc != nil {
					data = pkt.OnBufferAlloc(size)
				} else {
					data = make([]byte, size)
				}

				copy(data, extraData)
				copy(data[len(extraData):], pkt.Data)
				pkt.dataAnnexB = data
''','''				data := pkt.alloc(len(extraData) + len(pkt.Data))
				copy(data[copy(data, extraData):], pkt.Data)
				pkt.dataAnnexB = data
'''),
  (P,'''		if pkt.OnBufferAlloc != nil {
			bytes = pkt.OnBufferAlloc(dstSize)
		} else {
			bytes = make([]byte, dstSize)
		}

		if utils.AVCodecIdH264''','''		bytes = pkt.alloc(dstSize)

		if utils.AVCodecIdH264'''),
  (P,'''		var bytes []byte
		// 3个字节的start code会变成4个字节的长度
		dstSize := len(pkt.Data) + len(pkt.Data)/4 + 256
		if pkt.OnBufferAlloc != nil {
			bytes = pkt.OnBufferAlloc(dstSize)
		} else {
			bytes = make([]byte, dstSize)
		}

		n''','''		bytes := pkt.alloc(len(pkt.Data) + len(pkt.Data)/4 + 256)
		n'''),
  (P,'func AVCCPacket2AnnexB(','''func (pkt *AVPacket) alloc(size int) []byte {
	if pkt.OnBufferAlloc != nil {
		return pkt.OnBufferAlloc(size)
	}
	return make([]byte, size)
}

func AVCCPacket2AnnexB(''')]),
 dict(id='r-split-conv', props=['F02'], edits=[
  (P,'''	utils.Assert(utils.AVMediaTypeVideo == pkt.MediaType)

	if PacketTypeAVCC != pkt.PacketType ||''','''	utils.Assert(utils.AVMediaTypeVideo == pkt.MediaType)

	if pkt.PacketType == PacketTypeAVCC && pkt.dataAnnexB != nil && (stream.CodecID == utils.AVCodecIdH264 || stream.CodecID == utils.AVCodecIdH265) {
		return pkt.dataAnnexB
	}

	if PacketTypeAVCC != pkt.PacketType ||'''),
  (P,'''		copy(bytes[:extraDataSize], extraData)
		n += extraDataSize
		pkt.dataAnnexB = bytes[:n]
''','''		copy(bytes, extraData)
		pkt.dataAnnexB = bytes[:extraDataSize+n]
'''),
  (P,'''	if PacketTypeAnnexB != pkt.PacketType || (pkt.CodecID != utils.AVCodecIdH264 && pkt.CodecID != utils.AVCodecIdH265) {
		return pkt.Data
	} else if pkt.dataAVCC == nil {''','''	isVideo := pkt.CodecID == utils.AVCodecIdH265 || pkt.CodecID == utils.AVCodecIdH264
	if !isVideo || pkt.PacketType != PacketTypeAnnexB {
		return pkt.Data
	}
	if pkt.dataAVCC == nil {''')]),
 dict(id='r-pool-init', props=['E07','F01','F02'], edits=[
  ('av_packet.go','''	packet.Data = data
	packet.Dts = ts
	packet.Pts = ts
	packet.CodecID = id
	packet.Index = index
	packet.Timebase = timebase
	packet.MediaType = utils.AVMediaTypeAudio
	packet.PacketType = PacketTypeNONE

	return packet
''','''	packet.init(data, ts, ts, id, index, timebase)
	packet.PacketType = PacketTypeNONE
	packet.MediaType = utils.AVMediaTypeAudio
	return packet
'''),('av_packet.go','''	packet.Data = data
	packet.Dts = dts
	packet.Pts = pts
	packet.Key = key
	packet.PacketType = pktType
	packet.CodecID = id
	packet.Index = index
	packet.Timebase = timebase
	packet.MediaType''','''	packet.init(data, dts, pts, id, index, timebase)
	packet.Key = key
	packet.PacketType = pktType
	packet.MediaType'''),
  ('av_packet.go','func NewAudioPacket(','''func (pkt *AVPacket) init(data []byte, dts, pts int64, id utils.AVCodecID, index, timebase int) {
	pkt.Data, pkt.Dts, pkt.Pts = data, dts, pts
	pkt.CodecID, pkt.Index, pkt.Timebase = id, index, timebase
}

func NewAudioPacket('''),
  ('av_packet.go','''	packet.Data = nil
	packet.dataAVCC = nil
	packet.dataAnnexB = nil
	packet.OnBufferAlloc = nil
	packet.BufferIndex = 0
	packet.Dts = 0
	packet.Pts = 0
	packet.Duration = 0
	packet.Key = false
	packet.CreatedTime = 0
	packet.Index = 0
	packet.Timebase = 0
	packet.PacketType = PacketTypeNONE
	packet.MediaType = utils.AVMediaTypeUnknown
	packet.CodecID = utils.AVCodecIdNONE
''','''	*packet = AVPacket{PacketType: PacketTypeNONE, MediaType: utils.AVMediaTypeUnknown, CodecID: utils.AVCodecIdNONE}
''')]),
 dict(id='r-direct-pipe', props=['F03'], edits=[
  ('direct_pipeline.go','''	n := cap(d.data) - d.size
	length := len(data)
	if n < length {
		bytes := make([]byte, (d.size+length)*2)
		copy(bytes, d.data[:d.size])
		d.data = bytes
	}

	copy(d.data[d.size:], data)
	d.size += length

	return d.size, nil
''','''	end := d.size + len(data)
	if end > len(d.data) {
		grown := make([]byte, end*2)
		copy(grown, d.data[:d.size])
		d.data = grown
	}
	copy(d.data[d.size:end], data)
	d.size = end
	return end, nil
'''),('direct_pipeline.go','''	d.size = bufio.MaxInt(d.size+int(offset), 0)
''','''	d.size += int(offset)
	if d.size < 0 {
		d.size = 0
	}
'''),('direct_pipeline.go','	"github.com/lkmio/avformat/bufio"\n','')]),
 dict(id='r-streams-buf', props=['F03','F04','E01'], edits=[
  ('streams_buffer.go','''	for index >= len(s.buffers) {
		s.buffers = append(s.buffers, nil)
	}

	if s.buffers[index] == nil {
		if utils.AVMediaTypeVideo == mediaType {
			s.buffers[index] = collections.NewRBBlockBuffer(1024 * 1024 * 2)
		} else {
			s.buffers[index] = collections.NewRBBlockBuffer(48000 * 12)
		}
	}

	return s.buffers[index]
''','''	if n := index + 1 - len(s.buffers); n > 0 {
		s.buffers = append(s.buffers, make([]*collections.RBBlockBuffer, n)...)
	}

	buffer := s.buffers[index]
	if buffer == nil {
		capacity := 48000 * 12
		if mediaType == utils.AVMediaTypeVideo {
			capacity = 2 << 20
		}
		buffer = collections.NewRBBlockBuffer(capacity)
		s.buffers[index] = buffer
	}
	return buffer
''')]),
 dict(id='r-file', props=['F04'], edits=[
  ('handler.go','''	o.OnUnpackStreamLogger.OnPacket(packet)

	data := packet.Data
	if utils.AVMediaTypeVideo == packet.MediaType {
		stream := o.tracks.Get(packet.Index).GetStream()
		data = AVCCPacket2AnnexB(stream, packet)
		if packet.Key && PacketTypeAVCC == packet.PacketType && stream.CodecParameters != nil {
			extraData := stream.CodecParameters.AnnexBExtraData()
			if _, err := o.fos[packet.Index].Write(extraData); err != nil {
				panic(err)
			}
		}
	}

	if _, err := o.fos[packet.Index].Write(data); err != nil {
		panic(err)
	}
''','''	o.OnUnpackStreamLogger.OnPacket(packet)
	if packet.MediaType != utils.AVMediaTypeVideo {
		o.write(packet.Index, packet.Data)
		return
	}

	stream := o.tracks.Get(packet.Index).GetStream()
	data := AVCCPacket2AnnexB(stream, packet)
	if packet.PacketType == PacketTypeAVCC && packet.Key && stream.CodecParameters != nil {
		o.write(packet.Index, stream.CodecParameters.AnnexBExtraData())
	}
	o.write(packet.Index, data)
'''),('handler.go','func (o *OnUnpackStream2FileHandler) OnPacket(','''func (o *OnUnpackStream2FileHandler) write(index int, data []byte) {
	if _, err := o.fos[index].Write(data); err != nil {
		panic(err)
	}
}

func (o *OnUnpackStream2FileHandler) OnPacket(''')]),
 dict(id='r-ids', props=['F05','E06'], edits=[
  ('tracks.go','''	for _, track := range t.Tracks {
		if track.GetStream().CodecID == id {
			return track
		}
	}
''','''	for i := range t.Tracks {
		if stream := t.Tracks[i].GetStream(); stream.CodecID == id {
			return t.Tracks[i]
		}
	}
''')]),
]
